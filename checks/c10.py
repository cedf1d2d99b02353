"""C10: a failed or interrupted rewrite leaves the old or the new file.

Every system call on files that a rewrite makes is enumerated from a trace, then
the rewrite is run again once for each of them with that call failing (in each
of the ways it can) and once with the process killed there; with file sizes
limited, so that writes fall short; and with renaming impossible, so that the
fall-back is under test."""
import os, re, shutil, subprocess, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "lib"))
from vlib import *
from files import *
import builder, gen

ERR = {
    "openat": ("EACCES", "ENOSPC", "EMFILE"), "open": ("EACCES", "ENOSPC"), "creat": ("ENOSPC",),
    "write": ("ENOSPC", "EIO", "EINTR"), "writev": ("ENOSPC", "EIO", "EINTR"), "pwrite64": ("ENOSPC", "EIO"), "pwritev": ("ENOSPC",),
    "read": ("EIO", "EINTR"), "readv": ("EIO",), "pread64": ("EIO",), "close": ("EIO",),
    "rename": ("EXDEV", "EACCES", "EIO", "ENOSPC"), "renameat": ("EXDEV", "EACCES"), "renameat2": ("EXDEV", "EACCES"),
    "link": ("EPERM",), "linkat": ("EPERM",), "symlink": ("EPERM",), "unlink": ("EACCES", "EIO"), "unlinkat": ("EACCES",),
    "sendfile": ("EIO", "ENOSPC", "EINVAL"), "copy_file_range": ("EIO", "ENOSPC", "EXDEV"), "splice": ("EIO",),
    "fchmod": ("EPERM", "EIO"), "chmod": ("EPERM",), "fchmodat": ("EPERM", "EIO"), "fchmodat2": ("EPERM",),
    "chown": ("EPERM",), "fchown": ("EPERM",), "lchown": ("EPERM",), "fchownat": ("EPERM",), "utimensat": ("EPERM",),
    "newfstatat": ("EACCES", "EIO"), "stat": ("EACCES",), "lstat": ("EACCES",), "statx": ("EACCES",), "fstat": ("EIO",),
    "getdents64": ("EIO",), "ftruncate": ("ENOSPC", "EIO"), "truncate": ("ENOSPC",), "fallocate": ("ENOSPC",),
    "fsync": ("EIO", "ENOSPC"), "fdatasync": ("EIO",), "mkdir": ("ENOSPC",), "ioctl": ("EIO",), "flock": ("EIO",),
    "mmap": (), "lseek": (), "getcwd": (), "access": (), "faccessat": (), "faccessat2": (), "fcntl": (), "msync": ("EIO",),
}
LINE = re.compile(rb"^\d+ +(\w+)\((.*)")


def calls(trace):
    """[(name, number of that name, text)] between the markers"""
    n, inside, out, system = {}, False, [], set()
    for l in open(trace, "rb"):
        m = LINE.match(l)
        if not m or b"resumed" in l[:30]:
            continue
        k = m.group(1).decode()
        n[k] = n.get(k, 0) + 1
        if b"/fault-begin" in l:
            inside = True
        elif b"/fault-end" in l:
            return out
        elif b'"/usr/' in l or b'"/etc/' in l or b'"/lib' in l or b'"/proc/' in l or b'"/dev/' in l:
            m = re.search(rb"= (\d+)$", l.strip())
            if m and k.startswith("open"):
                system.add(m.group(1))
        elif m.group(2).split(b",")[0].split(b")")[0] in system:
            if k == "close":
                system.discard(m.group(2).split(b")")[0])
        elif inside and k in ERR:
            out.append((k, n[k], m.group(2)[:160].decode("latin-1").strip()))
    return None


class Scene:
    """A directory with a file in it, put back before every run"""
    def __init__(self, w, r, args, name, old, others, tags):
        self.w, self.args, self.name, self.old, self.others = w, args, name, old, others
        self.d = os.path.join(w.dir(), "d")
        self.aux = os.path.dirname(self.d)
        put(os.path.join(self.aux, "tags"), tags)

    def run(self, inject=(), fsize=None, trace=False):
        if os.path.exists(self.d):
            rmtree(self.d)
        os.mkdir(self.d)
        put(os.path.join(self.d, self.name), self.old, 0o644)
        for k, v in self.others.items():
            put(os.path.join(self.d, k), v)
        out = os.path.join(self.aux, "out")
        if os.path.exists(out):
            os.unlink(out)
        env = dict(os.environ, FAULT_OUT=out, LC_ALL="C.UTF-8")
        cmd = [self.w.chk.exe] + [a.replace("@T", os.path.join(self.aux, "tags")) for a in self.args]
        if fsize is not None:
            env["FAULT_FSIZE"] = str(fsize)
        if inject or trace:
            t = os.path.join(self.aux, "trace") if trace else "/dev/null"
            s = ["strace", "-f", "-qq", "-o", t]
            for i in inject:
                s += ["-e", "inject=" + i]
            cmd = s + cmd
        try:
            p = subprocess.run(cmd, cwd=self.d, env=env, stdin=subprocess.DEVNULL, stdout=subprocess.DEVNULL,
                               stderr=subprocess.PIPE, timeout=60)
        except subprocess.TimeoutExpired:
            return None, {}, "timeout"
        res = get(out).decode("utf-8", "replace") if os.path.exists(out) else ""
        self.w.count("runs")
        return res, {k: v[2] for k, v in snapshot(self.d).items()}, p.stderr.decode("utf-8", "replace")

    def judge(self, res, files, new, keep, what):
        w = self.w
        cur = files.get(self.name)
        extra = [v for k, v in files.items() if k != self.name and k not in self.others]
        w.count("checks")
        state = "old" if cur == self.old else "new" if cur == new else "gone" if cur is None else "other"
        lens = "old %d bytes, new %d, found %s" % (len(self.old), len(new), len(cur) if cur is not None else None)
        if state in ("gone", "other"):
            backed = any(k.startswith(self.name + ".") and v == self.old for k, v in files.items() if k not in self.others)
            w.check(backed, "neither the old nor the new file is there", "%s: %s: %s (%s); others %r" % (
                what, state, lens, res, sorted((k, len(v)) for k, v in files.items())))
        if res == "ok":
            w.check(cur == new, "failure not reported", "%s: %s %s" % (what, state, lens))
            if keep:
                w.check(self.old in extra, "failure not reported: no backup", what)
        elif res.startswith("failed"):
            w.count("failures_reported")
        else:
            w.count("killed")
        w.count("state_" + state)
        return state


def scene(w, no):
    r = w.rng
    i = int(no.split(":")[1])
    keep = bool(i & 1)
    kind = ("copy", "copy", "maybe", "cli")[(i // 2) % 4]
    size = r.choice((0, 1, 300, 8191, 20000, 70000) if i > 7 else (300, 20000))
    ts = [gen.tag(r) for _ in range(r.choice((0, 1, 1, 2)))]
    oldt = b"".join(t.raw() for t in ts)
    if kind == "cli":
        oldt = Tg(3, [Fr(3, "TPE1", b"\0somebody")], 0).raw()
    a = r.randbytes(size)
    if a[:3] == b"ID3":
        a = b"x" + a
    old = oldt + a + (gen.v1(r) if kind != "cli" and r.random() < .3 else b"")
    new = [Tg(3, [Fr(3, "TIT2", b"\0" + b"t" * r.choice((1, 100, 9000)))], r.choice((0, 5, 2000)))]
    if r.random() < .4:
        new.append(gen.tag(r))
    tags = b"".join(t.raw() for t in new)
    name = r.choice(("f.mp3", "f.mp3", "ü y.mp3"))
    others = {}
    for k in (".1", ".3", ".x"):
        if r.random() < .3:
            others[name + k] = b"earlier " + k.encode()
    p = r.choice((name, "./" + name))
    u = str(r.randrange(3))
    if kind == "cli":
        args = ["cli", "text", "-T", "x" * r.choice((3, 60))] + (["-b"] if keep else []) + [p]
    else:
        args = [kind, str(int(keep)), u, p, "@T"]
    s = Scene(w, r, args, name, old, others, tags)
    res, files, err = s.run(trace=True)
    if "ptrace" in err.lower() or res == "" and "strace" in err:
        raise RuntimeError("cannot trace: " + err[:300])
    w.eq(res, "ok", "rewrite failed", "%r without any fault: %s" % (args, err[-500:]))
    new = files[name]
    if len(new) == len(old) and not keep or kind == "maybe" and len(files) == 1 + len(others) and keep:
        w.count("in_place")         # nothing copied
        return
    if kind == "maybe" and not keep and len(new) == len(old):
        w.count("in_place")
        return
    if kind != "cli":
        w.check(new.endswith(old[split_front(old):]), "rewrite wrong", repr(args))
    s.judge(res, files, new, keep, "no fault")
    pts = calls(os.path.join(s.aux, "trace"))
    w.check(pts, "nothing traced", repr(args))
    w.sample({"args": args, "calls": ["%s(%s" % (k, t[:70]) for k, n, t in pts if k not in ("lseek", "getcwd")][:30]})
    w.count("calls", len(pts))
    exdev = ["rename:error=EXDEV", "renameat:error=EXDEV", "renameat2:error=EXDEV"]
    # writable descriptors: what's open for writing at each call
    wr = writers(pts)
    sc = (kind, keep, len(new) > 8192)
    for k, n, t in pts:
        for e in ERR[k]:
            what = "%r: %s %s[%d](%s" % (args, e, k, n, t[:80])
            res, files, err = s.run(["%s:error=%s:when=%d" % (k, e, n)])
            st = s.judge(res, files, new, keep, what)
            if (k, n) in wr and k == "close":
                w.check(res != "ok", "failure not reported: closing a written file", what)
            w.seen(sc, k, t.split(",")[0][:12], e, st, res[:2])
        what = "%r: killed at %s[%d](%s" % (args, k, n, t[:80])
        res, files, err = s.run(["%s:error=EIO:signal=KILL:when=%d" % (k, n)])
        st = s.judge(res, files, new, keep, what)
        w.seen(sc, k, t.split(",")[0][:12], "kill", st)
    # writes that fall short
    for lim in sorted({0, 1, 9, 10, len(tags) - 1, len(tags), len(tags) + 1, len(old) // 2, len(old) - 1, len(new) - 1, len(new) // 2,
                       4096, 8191, 8192, min(len(old), len(new)) - 1}):
        if 0 <= lim < max(len(old), len(new)):
            res, files, err = s.run(fsize=lim)
            st = s.judge(res, files, new, keep, "%r: files limited to %d bytes" % (args, lim))
            w.seen(sc, "limit", lim if lim < 11 else (lim > len(tags), lim > len(old), lim > len(new)), st)
    # no renaming: what's done instead, and each of its calls failing
    res, files, err = s.run(exdev, trace=True)
    s.judge(res, files, new, keep, "%r: EXDEV" % (args,))
    pts = calls(os.path.join(s.aux, "trace"))
    at = [j for j, x in enumerate(pts) if x[0].startswith("rename")]
    if at:
        w.count("fallback_calls", len(pts) - at[0] - 1)
        for k, n, t in pts[at[0] + 1:]:
            if k.startswith("rename"):
                continue
            for e in ERR[k]:
                what = "%r: EXDEV, then %s %s[%d](%s" % (args, e, k, n, t[:80])
                res, files, err = s.run(exdev + ["%s:error=%s:when=%d" % (k, e, n)])
                st = s.judge(res, files, new, keep, what)
                w.seen(sc, "exdev", k, t.split(",")[0][:12], e, st, res[:2])
            what = "%r: EXDEV, then killed at %s[%d](%s" % (args, k, n, t[:80])
            res, files, err = s.run(exdev + ["%s:error=EIO:signal=KILL:when=%d" % (k, n)])
            st = s.judge(res, files, new, keep, what)
            w.seen(sc, "exdev", k, t.split(",")[0][:12], "kill", st)
    w.count("scenes")


def writers(pts):
    """The calls closing a descriptor that was written to"""
    opened, dirty, out = {}, set(), set()
    for k, n, t in pts:
        m = re.match(r"(\d+)", t)
        if k in ("write", "writev", "pwrite64", "sendfile") and m:
            dirty.add(m.group(1))
        elif k == "copy_file_range":
            m = re.match(r"\d+, [^,]*, (\d+)", t)
            if m:
                dirty.add(m.group(1))
        elif k == "close" and m:
            if m.group(1) in dirty:
                out.add((k, n))
                dirty.discard(m.group(1))
    return out


def build():
    return builder.Builder("plain").build("fault", ["fault.cc"], cli=True)


if __name__ == "__main__":
    sys.exit(Check("C10", [("scene", scene, 24, 400)],
                   "distinct (scenario, system call, its object, fault, state left, report) seen",
                   variant="plain", exe_builder=build, level="fault_enumeration",
                   assumptions=["one fault at a time, or renaming made impossible and one more",
                                "a fault keeps the call from having any effect; partial writes come from a limit on file sizes",
                                "loss of power (unsynced pages) is not modelled"]).main())
