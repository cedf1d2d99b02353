"""What every check is made of: the driver process, the sharded case runner,
known findings, evidence, replays and verdicts."""
import collections, hashlib, json, multiprocessing, os, random, re, select, shutil, signal
import subprocess, sys, tempfile, threading, time, traceback

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(VERIF, "lib"))
import builder

TIER = os.environ.get("VERIF_TIER", "quick")
SEED = int(os.environ.get("VERIF_SEED", "1") or "1")
NSHARD = int(os.environ.get("VERIF_SHARDS", "8"))
SCALE = float(os.environ.get("VERIF_SCALE", "1"))
HARNESS = ["drv.cc", "drv_tags.cc", "drv_misc.cc"]
HARNESS_CLI = HARNESS + ["drv_cli.cc"]


def hx(b):
    """bytes (or str) to the driver's hex"""
    if isinstance(b, str):
        b = b.encode("utf-8", "surrogateescape")
    return b.hex() if b else "-"


def ux(s):
    return bytes.fromhex(s)


class Crash(Exception):
    """The driver died: what the sanitizer (or the kernel) said."""
    def __init__(self, kind, where, report):
        super().__init__("%s at %s" % (kind, where))
        self.kind, self.where, self.report = kind, where, report


class Hang(Exception):
    pass


class Bad(Exception):
    """The harness asked for something it should not have."""


def summarise_report(txt, rc):
    """(kind, where) from a sanitizer report."""
    kind = None
    m = re.search(r"ERROR: AddressSanitizer: ([\w-]+)", txt)
    t = re.search(r"WARNING: ThreadSanitizer: (.*?) \(", txt)
    if t:
        kind = "tsan:" + t.group(1)
    elif m:
        kind = "asan:" + m.group(1)
    else:
        m = re.search(r"ERROR: LeakSanitizer", txt)
        if m:
            kind = "lsan:leak"
        else:
            m = re.search(r"runtime error: (.*)", txt)
            if m:
                kind = "ubsan:" + re.sub(r"0x[0-9a-f]+|-?\d+", "N", m.group(1))[:80]
            elif re.search(r"^==\d+== \S", txt, re.M):
                m = re.search(r"^==\d+== (\S.*)", txt, re.M)
                kind = "memcheck:" + re.sub(r"0x[0-9a-f]+|\d+", "N", m.group(1))[:80]
            elif "terminate called" in txt:
                m = re.search(r"terminate called.*?'(.*?)'", txt)
                kind = "terminate:" + (m.group(1) if m else "?")
            elif "Assertion" in txt:
                kind = "assertion"
            else:
                kind = "exit:%s" % rc
    where = "?"
    m = re.search(re.escape(builder.REPO) + r"/([\w./-]+\.(?:cc|hh|ll|yy)):\d+:\d+: runtime error", txt)
    if m:
        where = m.group(1)
    for m in re.finditer(r"#\d+ (?:0x[0-9a-f]+ in )?(.*?) (/\S+?):(\d+)", txt):
        fn, f = m.group(1), m.group(2)
        if f.startswith(builder.REPO + "/") or "/gen/scribbu/" in f:
            where = re.sub(r"\(.*", "", fn) + "@" + os.path.basename(f)
            break
    return kind, where


class Drv:
    """One driver process; restarted after a crash."""
    def __init__(self, exe, scratch, fill=0xbe, env=None, timeout=60):
        self.exe, self.scratch, self.fill, self.timeout = exe, scratch, fill, timeout
        self.extra_env = env or {}
        self.p = None
        self.starts = 0
        self.history = []          # the lines since the last reset
        self.calls = 0

    def start(self):
        self.log = os.path.join(self.scratch, "drv.log")
        env = dict(os.environ, LC_ALL="C.UTF-8", TZ="UTC",
                   ASAN_OPTIONS="detect_leaks=0:abort_on_error=0:exitcode=77:allocator_may_return_null=1:"
                   "max_allocation_size_mb=1024:detect_stack_use_after_return=1:strict_string_checks=1:"
                   "max_malloc_fill_size=1048576:malloc_fill_byte=%d:detect_invalid_pointer_pairs=0:"
                   "handle_abort=1:quarantine_size_mb=32" % self.fill,
                   UBSAN_OPTIONS="print_stacktrace=1:halt_on_error=1",
                   TSAN_OPTIONS="exitcode=66:halt_on_error=0:report_signal_unsafe=0")
        env.update(self.extra_env)
        self.p = subprocess.Popen([self.exe], stdin=subprocess.PIPE, stdout=subprocess.PIPE,
                                  stderr=open(self.log, "wb"), env=env, cwd=self.scratch)
        self.starts += 1
        self.buf = b""
        self.history = []

    def stop(self):
        if self.p:
            try:
                self.p.stdin.close()
            except OSError:
                pass
            try:
                self.p.wait(20)
            except subprocess.TimeoutExpired:
                self.p.kill()
                self.p.wait()
            self.p.stdout.close()
            self.p = None

    def kill(self):
        if self.p:
            self.p.kill()
            self.p.wait()
            self.p.stdout.close()
            try:
                self.p.stdin.close()
            except OSError:
                pass
            self.p = None

    def _readline(self, deadline):
        fd = self.p.stdout.fileno()
        parts, b = [], self.buf
        self.buf = b""
        while True:
            i = b.find(b"\n")
            if i >= 0:
                parts.append(b[:i])
                self.buf = b[i + 1:]
                return b"".join(parts)
            parts.append(b)
            left = deadline - time.time()
            if left <= 0:
                raise Hang()
            r, _, _ = select.select([fd], [], [], left)
            if not r:
                raise Hang()
            b = os.read(fd, 1 << 20)
            if not b:
                return None

    def _died(self):
        rc = self.p.wait()
        txt = open(self.log, "rb").read().decode(errors="replace")
        self.kill()
        kind, where = summarise_report(txt, rc)
        raise Crash(kind, where, txt)

    def batch(self, lines):
        """Send lines, return the replies."""
        if self.p is None:
            self.start()
        for l in lines:
            self.history.append(l)
            if l == "reset":
                self.history = []
        data = ("\n".join(lines) + "\n").encode()
        self.calls += len(lines)
        deadline = time.time() + self.timeout

        def feed():
            try:
                self.p.stdin.write(data)
                self.p.stdin.flush()
            except OSError:
                pass
        th = None
        if len(data) > 30000:
            th = threading.Thread(target=feed)
            th.start()
        else:
            feed()
        out = []
        try:
            for _ in lines:
                line = self._readline(deadline)
                if line is None:
                    self._died()
                r = json.loads(line.decode("latin-1"))
                if isinstance(r, dict) and "bad" in r:
                    raise Bad("%s <- %s" % (r["bad"], lines[len(out)][:300]))
                out.append(r)
        except Hang:
            self.kill()
            raise
        finally:
            if th:
                th.join(5)
        return out

    def __call__(self, *args):
        return self.batch([" ".join(str(a) for a in args)])[0]


class Violation(Exception):
    """Raised inside a case: the property does not hold there."""
    def __init__(self, key, msg, extra=None):
        super().__init__("%s: %s" % (key, msg))
        self.key, self.msg, self.extra = key, msg, extra


def is_ex(x):
    return isinstance(x, dict) and "ex" in x


class Worker:
    """One shard: its random numbers, its driver, its counters."""
    def __init__(self, chk, shard):
        self.chk, self.shard = chk, shard
        self.counts = collections.Counter()
        self.sigs = set()
        self.samples = []
        self.violations = []
        self.notes = []
        self.scratch = tempfile.mkdtemp(prefix="s%d." % shard, dir=chk.scratch)
        self._drv = None
        self.case_no = None
        self.recording = True

    @property
    def drv(self):
        if self._drv is None:
            self._drv = Drv(self.chk.exe, self.scratch,
                            fill=(0xbe, 0x01, 0xff, 0x55)[self.shard % 4] if self.chk.vary_fill else 0xbe,
                            timeout=self.chk.timeout, env=self.chk.env)
        return self._drv

    def dir(self):
        """A fresh empty directory for one case"""
        d = os.path.join(self.scratch, "d")
        if os.path.exists(d):
            rmtree(d)
        os.mkdir(d)
        return d

    # ---- observations
    def count(self, name, n=1):
        if self.recording:
            self.counts[name] += n

    def seen(self, *sig):
        """One distinct non-trivial observation"""
        if self.recording:
            self.sigs.add(hashlib.blake2b(repr(sig).encode(), digest_size=8).digest())

    def sample(self, x):
        if self.recording and len(self.samples) < 3:
            self.samples.append(x)

    def check(self, cond, key, msg, extra=None):
        self.count("checks")
        if not cond:
            raise Violation(key, msg, extra)

    def eq(self, got, want, key, what=""):
        self.count("checks")
        if got != want:
            raise Violation(key, "%s: got %.600r, want %.600r" % (what, got, want))

    # ---- running
    def attempt(self, fn, no):
        """Run case NO; None, or (key, message, report)"""
        self.case_no = no
        self.rng = random.Random("%s/%s/%s" % (self.chk.prop, SEED, no))
        try:
            fn(self, no)
            return None
        except Violation as v:
            return (v.key, v.msg, v.extra)
        except Crash as c:
            return ("%s %s" % (c.kind, c.where), "driver died: %s" % c, c.report)
        except Hang:
            return ("hang", "no answer within %ss" % self.drv.timeout, None)
        except (Bad, KeyError, TypeError, IndexError, ValueError, AttributeError, AssertionError) as e:
            # the code under test answered something the model has no place for
            # (on the unchanged tree no case gets here)
            return ("unexpected answer: " + type(e).__name__, "%s\n%s" % (e, traceback.format_exc()[-1500:]), None)

    def run_case(self, fn, no):
        r = self.attempt(fn, no)
        self.count("cases")
        if r is None:
            return
        hist = list(self.drv.history)
        # again, alone, from a fresh process; only what repeats is believed
        self.recording = False
        self.drv.kill()
        r2 = self.attempt(fn, no)
        hist2 = list(self.drv.history)
        self.drv.kill()
        self.recording = True
        if r2 is None and not self.chk.trust_once:
            self.counts["not_reproduced"] += 1
            self.notes.append("case %s: %s did not repeat" % (no, r[0]))
            return
        if r2 is not None:
            r, hist = r2, hist2
        self.violations.append({"key": r[0], "msg": r[1], "report": r[2], "case": no, "lines": hist})
        self.counts["violating_cases"] += 1


def rmtree(d):
    def onerr(f, p, e):
        try:
            os.chmod(os.path.dirname(p), 0o700)
            os.chmod(p, 0o700)
            f(p)
        except OSError:
            pass
    shutil.rmtree(d, onerror=onerr)


class Check:
    """A property's check. CASES is a list of (name, fn, quick count, thorough
    count); fn(worker, case_no) runs one case and raises Violation."""
    def __init__(self, prop, families, rule, cli=False, variant="asan", timeout=60, assumptions=(),
                 level="exploration", exe_builder=None, env=None, vary_fill=True, known=(), trust_once=False,
                 nshard=None, post=None):
        self.prop, self.families, self.rule = prop, families, rule
        self.cli, self.variant, self.timeout = cli, variant, timeout
        self.assumptions, self.level = list(assumptions), level
        self.exe_builder = exe_builder
        self.env, self.vary_fill = env, vary_fill
        self.known_cases = {k: f for k, f in known}
        self.trust_once = trust_once
        self.nshard = nshard or NSHARD
        self.post = post

    def build(self):
        if self.exe_builder:
            return self.exe_builder()
        return builder.Builder(self.variant).build(
            "drv-cli" if self.cli else "drv", HARNESS_CLI if self.cli else HARNESS, cli=self.cli)

    def findings(self):
        """What known-findings.txt lists as known (not: fixed) for this property"""
        p = os.path.join(VERIF, "known-findings.txt")
        out = []
        for l in open(p) if os.path.exists(p) else ():
            m = re.fullmatch(r"known: property=(\S+) id=(\S+) key=(.*?) :: (.*)", l.rstrip("\n"))
            if m and m.group(1) == self.prop:
                out.append({"id": m.group(2), "key": m.group(3), "what": m.group(4)})
        return out

    def _shard(self, i, todo, q):
        w = None
        try:
            signal.signal(signal.SIGINT, signal.SIG_IGN)
            w = Worker(self, i)
            for name, fn, n in todo:
                for k in range(i, n, self.nshard):
                    w.run_case(fn, "%s:%d" % (name, k))
                    if len(w.violations) >= 40:
                        break
            w.counts["driver_calls"] = w.drv.calls
            w.drv.stop()
            rmtree(w.scratch)
            q.put({"counts": dict(w.counts), "sigs": w.sigs, "samples": w.samples,
                   "violations": w.violations, "notes": w.notes})
        except BaseException:
            q.put({"error": "%s\ncase %s\n%s" % (i, w and w.case_no, traceback.format_exc())})
            if w and w._drv:
                w._drv.kill()

    def main(self):
        t0 = time.time()
        only = sys.argv[1:]
        if only and only[0] == "--replay":
            return self.replay(only[1])
        os.makedirs(os.path.join(VERIF, "build"), exist_ok=True)
        try:
            self.exe = self.build()
        except builder.BuildError as e:
            print("CANNOT BUILD: %s" % e)
            return 2
        t_build = time.time() - t0
        self.scratch = tempfile.mkdtemp(prefix="verif-%s-" % self.prop.lower())
        os.chmod(self.scratch, 0o711)
        try:
            return self._run(t0, t_build, only)
        finally:
            rmtree(self.scratch)

    def _run(self, t0, t_build, only):
        thorough = TIER == "thorough"
        todo = []
        for fam in self.families:
            name, fn, nq, nt = fam
            if only and name not in only:
                continue
            n = nt if thorough else nq
            todo.append((name, fn, max(1, int(n * SCALE))))
        ctx = multiprocessing.get_context("fork")
        q = ctx.Queue()
        ps = [ctx.Process(target=self._shard, args=(i, todo, q)) for i in range(self.nshard)]
        for p in ps:
            p.start()
        counts, sigs, samples, viol, notes, errors = collections.Counter(), set(), [], [], [], []
        for _ in ps:
            r = q.get()
            if "error" in r:
                errors.append(r["error"])
                continue
            counts.update(r["counts"])
            sigs |= r["sigs"]
            samples += r["samples"]
            viol += r["violations"]
            notes += r["notes"]
        for p in ps:
            p.join()
        if errors:
            print("INTERNAL ERROR in the harness:\n" + errors[0])
            return 2
        # known findings: each is re-tried on its own input; nothing else hides behind it
        known = self.findings()
        printed = []
        w = Worker(self, 0)
        for k in known:
            fn = self.known_cases.get(k["id"])
            if fn is None:
                print("INTERNAL ERROR: no reproduction for finding %s" % k["id"])
                return 2
            r = w.attempt(fn, "known:" + k["id"])
            w.drv.kill()
            if r is not None and re.fullmatch(k["key"], r[0]):
                print("KNOWN-FINDING: property=%s %s" % (self.prop, k["what"]))
                printed.append(k["id"])
            elif r is not None:
                viol.append({"key": r[0], "msg": r[1], "report": r[2], "case": "known:" + k["id"], "lines": []})
        if self.post:
            viol += self.post(counts, sigs) or []
        # report, one per distinct key
        fresh = {}
        for v in viol:
            fresh.setdefault(v["key"], v)
        rc = 0
        rdir = os.path.join(VERIF, "build", "replays", self.prop)
        if fresh:
            os.makedirs(rdir, exist_ok=True)
        for key, v in sorted(fresh.items())[:40]:
            path = os.path.join(rdir, hashlib.sha1(key.encode()).hexdigest()[:12] + ".json")
            json.dump({"property": self.prop, "seed": SEED, "case": v["case"], "key": key, "message": v["msg"],
                       "report": v["report"], "lines": v["lines"]}, open(path, "w"), indent=1)
            print("VIOLATION property=%s replay=%s" % (self.prop, path))
            print("  case %s: %s: %s" % (v["case"], key, str(v["msg"])[:1500]))
            rc = 1
        if counts["not_reproduced"]:
            print("note: %d outcome(s) did not repeat: %s" % (counts["not_reproduced"], notes[:3]))
        wall = time.time() - t0
        if rc == 0 and (counts["cases"] == 0 or counts["checks"] == 0):
            print("INCONCLUSIVE: nothing was observed")
            return 2
        ev = {"property": self.prop, "tier": TIER if TIER in ("quick", "thorough") else "quick", "seed": SEED,
              "level": self.level,
              "coverage": {"evaluations": int(counts["cases"]), "distinct_nontrivial": len(sigs),
                           "monitor_checks": int(counts["checks"]), "observed": dict(counts),
                           "rule": self.rule, "samples": samples[:6]},
              "wall_s": round(wall, 2),
              "assumptions": self.assumptions + [
                  "build %.1fs, variant %s, %d shards" % (t_build, self.variant, self.nshard)],
              "violations": [k for k in fresh] + ["known: " + p for p in printed]}
        if not only:
            os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
            json.dump(ev, open(os.path.join(VERIF, "evidence", self.prop + ".json"), "w"), indent=1)
        print("%s: %s: %d cases, %d checks, %d distinct, build %.0fs, total %.0fs %s" %
              (self.prop, "VIOLATED" if rc else "held", counts["cases"], counts["checks"], len(sigs), t_build, wall,
               dict((k, v) for k, v in counts.items() if k not in ("cases", "checks"))))
        return rc

    def replay(self, path):
        """Run one recorded case again, verbosely."""
        r = json.load(open(path))
        global SEED
        SEED = r["seed"]
        self.exe = self.build()
        self.scratch = tempfile.mkdtemp(prefix="verif-replay-")
        try:
            w = Worker(self, 0)
            fam = r["case"].split(":")[0]
            fn = self.known_cases.get(r["case"][6:]) if fam == "known" else dict((f[0], f[1]) for f in self.families)[fam]
            out = w.attempt(fn, r["case"])
            w.drv.kill()
            if out:
                print("VIOLATION property=%s replay=%s" % (self.prop, path))
                print(out[0], "\n", out[1], "\n", (out[2] or "")[:6000] if isinstance(out[2], (str, type(None))) else out[2])
                return 1
            print("did not fail")
            return 0
        finally:
            rmtree(self.scratch)
