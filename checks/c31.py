#!/usr/bin/env python3
"""C31: the program gives what it was given to the part it names, and says how that went.

The real main(), under ASan and UBSan, is run as a process of its own.  Scripts,
loaded files and stand-ins for man & info write down the arguments they were
given; what they wrote is compared with what was on the command line.
"""
import os, subprocess, sys

sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import builder, vlib
from vlib import Check, Crash, Hang, summarise_report
from files import snapshot, put, get
from id3 import parse_tag

SUBS = "dump encodings genre m3u popm rename report split text xtag".split()

ASAN = "detect_leaks=0:exitcode=77:detect_stack_use_after_return=0:allocator_may_return_null=1:handle_abort=1"

# each says what it was given, NUL-terminated: what it is, then its arguments
RECORD = """(let ((p (open-file (getenv "VERIF_LOG") "ab")))
  (set-port-encoding! p "UTF-8")
  (for-each (lambda (x) (display x p) (write-char #\\nul p)) (cons %s %s))
  (write-char #\\newline p)
  (close-port p))
"""
SHELL = """#!/bin/sh
{ printf '%%s\\0' %s "$@"; echo; } >> "$VERIF_LOG"
exit %d
"""


class Place:
    """A directory with a working directory in it and a log"""
    def __init__(self, w):
        self.w, self.top = w, w.dir()
        self.cwd = os.path.join(self.top, "c")
        self.bin = os.path.join(self.top, "bin")
        os.mkdir(self.cwd)
        os.mkdir(self.bin)
        self.log = os.path.join(self.top, "log")

    def file(self, name, b):
        p = os.path.join(self.cwd, name)
        os.makedirs(os.path.dirname(p), exist_ok=True)
        put(p, b if isinstance(b, bytes) else b.encode())
        return p

    def run(self, args, path=None, env=None, stdin=b""):
        """(status, stdout, stderr, what was logged)"""
        if os.path.exists(self.log):
            os.unlink(self.log)
        e = {"PATH": self.bin if path is None else path, "HOME": self.top, "LC_ALL": "C.UTF-8", "VERIF_LOG": self.log,
             "GUILE_AUTO_COMPILE": "0", "GUILE_LOAD_PATH": os.path.join(builder.REPO, "scheme"), "ASAN_OPTIONS": ASAN,
             "UBSAN_OPTIONS": "print_stacktrace=1:halt_on_error=1:exitcode=77"}
        e.update(env or {})
        try:
            p = subprocess.run([os.fsencode(self.w.chk.exe)] + [os.fsencode(a) for a in args], cwd=self.cwd, env=e, input=stdin,
                               stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=60)
        except subprocess.TimeoutExpired:
            raise Hang()
        self.w.count("processes")
        err = p.stderr.decode("utf8", "replace")
        if p.returncode == 77 or "runtime error:" in err or "AddressSanitizer" in err or "terminate called" in err:
            raise Crash(*summarise_report(err, p.returncode), err)
        log = []
        if os.path.exists(self.log):
            for l in get(self.log).split(b"\0\n"):
                if l:
                    log.append([x.decode("utf8", "surrogateescape") for x in l.split(b"\0")])
        return p.returncode, p.stdout.decode("utf8", "replace"), err, log


WORDS = ["a", "", " ", "b c", "-h", "--help", "--man", "--info", "-v", "--version", "--", "-", "-s", "-c", "-e", "-l", "-L", "-x",
         "-q", "--bogus", "-ds", "x=y", "--listen", "dump", "genre", "xtag", "nosuch.mp3", "/dev/null", "*", "$HOME", "a'b", 'a"b',
         "(car 1)", "\t", "été", "日本", "--use-srfi=1", "100%", "%s%n", "\\", "a\\b", "@x", "--x=" + "y" * 300]


def words(r, n=6):
    return [r.choice(WORDS) if r.random() < .8 else "".join(r.choice("abz-=/. é\"'%") for _ in range(r.randrange(1, 9)))
            for _ in range(r.choice((0, 1, 2, 3, n, 25)))]


def ending(r):
    """(Scheme that ends the script, the status that should come of it)"""
    k = r.randrange(6)
    if k == 0:
        return "", 0
    if k == 1:
        return "(exit #t)", 0
    if k == 2:
        return "(exit #f)", 1
    if k == 3:
        return "(car 1)", 1
    if k == 4:
        return "(exit)", 0
    n = r.choice((0, 1, 2, 3, 42, 76, 127, 128, 255))
    return "(exit %d)" % n, n


def scripts(w, no):
    """Scripts get all their arguments, as they were, and say how it ended."""
    r, p = w.rng, Place(w)
    glob, want, names = [], [], []
    used = set()
    for i in range(r.choice((0, 0, 1, 2, 3))):
        k = r.choice("LCxlqdnsa")
        if k in "LC":
            d = os.path.join(p.cwd, r.choice(("m", "m m", "-m")) + str(i))
            os.makedirs(d)
            glob += ["-" + k, d]
            if k == "L":
                names.append((d, "(verif m%d)" % i, i))
        elif k == "x":
            glob += ["-x", r.choice((".sld", ".foo"))]
        elif k == "l":
            n = r.choice(("pre%d.scm", "pre %d", "pre%d")) % i
            p.file(n, RECORD % ('"loaded %d"' % i, "'()"))
            glob += ["-l", n]
            want.append(["loaded %d" % i])
        elif k == "q":
            glob += ["-q"]
        elif k in "dn" and "d" not in used:
            used.add("d")
            glob += [r.choice(("--debug", "--no-debug"))]
        elif k == "s":
            glob += ["--use-srfi=" + r.choice(("1", "1,13"))]
        elif k == "a":
            glob += ["--no-auto-compile"]
    end, status = ending(r)
    uses = ""
    for d, m, i in names:
        os.makedirs(os.path.join(d, "verif"))
        put(os.path.join(d, "verif", "m%d.scm" % i), b"(define-module (verif m%d) #:export (here-%d))\n(define here-%d 'yes)\n" % (i, i, i))
        uses += "(use-modules %s)" % m
    how = r.choice(("file", "-s", "-c", "-e", "-ec"))
    args = words(r)
    exe = w.chk.exe
    if how == "-c":
        glob += ["-c", uses + RECORD % ('"script"', "(command-line)") + end]
        want.append(["script", exe] + args)
    elif how == "-ec":
        # a function of ours, from a file loaded first
        p.file("fn.scm", uses + "(define (main args) " + RECORD % ('"main"', "args") + end + ")")
        glob += ["-l", "fn.scm", "-e", "main", "-c", RECORD % ('"script"', "'()")]
        want += [["script"], ["main", exe] + args]
    else:
        n = r.choice(("s.scm", "my script", "sub/s.scm", "-odd.scm" if how == "-s" else "odd", "dump.scm", "é.scm", "-h" if how == "-s" else "h"))
        if how == "-e":
            p.file(n, uses + RECORD % ('"script"', "'()") + "(define (main args) " + RECORD % ('"main"', "args") + end + ")")
            glob += ["-e", "main"]
            want += [["script"], ["main", n] + args]
        else:
            p.file(n, uses + RECORD % ('"script"', "(command-line)") + end)
            want.append(["script", n] + args)
        glob += ["-s", n] if how != "file" and (how == "-s" or n[0] == "-" or r.random() < .5) else [n]
    what = "%r" % (glob + args)
    st, out, err, log = p.run(glob + args)
    w.eq(log, want, "not the arguments that were given", what + " " + err[-300:])
    w.eq(st, status, "not the script's exit status", what)
    w.eq(out, "", "output no script asked for", what)
    w.check((end == "(car 1)") == bool(err), "errors", "%r: %s" % (err[:200], what))
    w.count("arguments", len(args))
    w.seen("script", how, tuple(g for g in glob if g[:1] == "-" and len(g) < 20), tuple(args))
    w.sample("%s -> %s" % (what[:200], st))


TRACK = bytes(range(256)) * 4


def mp3(title=b"t"):
    f = b"TIT2" + (len(title) + 1).to_bytes(4, "big") + b"\0\0\0" + title
    return b"ID3\3\0\0" + bytes(((len(f) + 50) >> s) & 127 for s in (21, 14, 7, 0)) + f + bytes(50) + TRACK


def frames(b):
    t, n = parse_tag(b)
    return {f.id if isinstance(f.id, bytes) else f.id.encode(): f for f in t.frames}, b[n:]


NOTHING = [[], ["-q"], ["--no-auto-compile"], ["-L", "m"], ["-L", "m", "-q", "-C", "n"], ["--debug"], ["-x", ".foo"], ["--use-srfi=1"],
           ["-l", "nosuch.scm"], ["-e", "main"], ["-e", "dump", "-L", "genre"]]


def subs(w, no):
    """A sub-command is run on what follows its name, whatever comes before it."""
    r, p = w.rng, Place(w)
    names = r.sample(["a.mp3", "b b.mp3", "c-v.mp3", "dump", "xtag", "é.mp3", "d%s.mp3", "e'f.mp3"], 3)
    title = r.choice((b"Song", b"x y", b"dump"))
    for n in names:
        p.file(n, mp3(title))
    before = snapshot(p.cwd)
    use, rest = names[:r.choice((1, 2))], []
    glob, sub = r.choice(NOTHING), r.choice([s for s in SUBS if s != "encodings"])
    what = None
    if sub == "dump":
        cmd = ["-D"] if r.random() < .3 else []
    elif sub == "genre":
        cmd = ["--Genre=" + r.choice(("Odd", "a b", "x-v", "-v", "--help me"))]
    elif sub == "m3u":
        cmd = ["-o", "list.m3u"]
    elif sub == "popm":
        cmd = ["-f", "-o", "joe", "-C", "7"]
    elif sub == "rename":
        cmd, use = ["-t", "to-%T", "-r"], use[:1]
    elif sub == "report":
        cmd = ["-o", "r.csv"]
    elif sub == "split":
        cmd, use = [], use[:1]
    elif sub == "text":
        cmd = ["--artist=" + r.choice(("Joe", "-v", "dump", "a=b"))]
    else:
        cmd = ["-f", "-o", "joe", "-T", r.choice(("a=b", "c"))]
    line = glob + [sub] + cmd + use
    what = repr(line)
    st, out, err, log = p.run(line)
    after = snapshot(p.cwd)
    w.eq((st, err), (0, ""), "sub-command failed", what)
    if sub == "dump":
        for n in names:
            w.eq('"%s"' % n in out, n in use, "dumped the wrong files", "%s in %r: %s" % (n, out[:300], what))
    if sub in ("dump", "m3u", "report", "split", "rename"):
        new = {k: v for k, v in after.items() if k not in before}
        gone = [k for k in before if k not in after]
        w.eq((len(new), len(gone)), {"dump": (0, 0), "m3u": (1, 0), "report": (1, 0), "rename": (1, 1)}.get(sub, (len(new), 0)), "files",
             "%r %r: %s" % (list(new), gone, what))
        w.eq({k: v for k, v in after.items() if k in before}, {k: v for k, v in before.items() if k in after}, "changed a file it was to read", what)
        if sub == "rename":
            w.check(not os.path.exists(os.path.join(p.cwd, use[0])), "renamed another", what)
        if sub == "split":
            w.check(len(new) >= 1, "nothing split", what)
        if sub == "report":
            s = get(os.path.join(p.cwd, "r.csv")).decode()
            for n in names:
                if n.endswith(".mp3"):
                    w.eq('"%s"' % n in s, n in use, "reported on the wrong files", "%s in %r: %s" % (n, s[:300], what))
    else:
        for n in names:
            b = get(os.path.join(p.cwd, n))
            if n not in use:
                w.check(b == mp3(title), "changed another file", "%s: %s" % (n, what))
                continue
            f, left = frames(b)
            w.eq(left, TRACK, "track", what)
            if sub == "genre":
                w.check(b"TCON" in f and cmd[-1].split("=", 1)[1].encode() in f[b"TCON"].payload, "genre", "%r: %s" % (f, what))
            if sub == "text":
                w.check(b"TPE1" in f and cmd[-1].split("=", 1)[1].encode() in f[b"TPE1"].payload, "artist", "%r: %s" % (f, what))
            if sub == "popm":
                w.check(b"POPM" in f or b"PCNT" in f, "no count", "%r: %s" % (f, what))
            if sub == "xtag":
                w.check(b"XTAG" in f, "no tag cloud", "%r: %s" % (f, what))
    w.seen("sub", sub, tuple(glob), tuple(cmd), tuple(use))
    w.sample(what)


def standins(r, p):
    """(their statuses)"""
    st = {}
    for n in ("man", "info"):
        st[n] = r.choice((0, 0, 1, 5))
        q = os.path.join(p.bin, n)
        put(q, (SHELL % (n, st[n])).encode())
        os.chmod(q, 0o755)
    return st


def help_(w, no):
    """Asking for help or the version gives that, and does nothing else."""
    r, p = w.rng, Place(w)
    for n in ("a.mp3", "b.mp3"):
        p.file(n, mp3())
    before = snapshot(p.cwd)
    have = r.random() < .9
    st = standins(r, p) if have else {}
    ask = r.choice(("-h", "-h", "--help", "--man", "--info"))
    glob = r.choice([g for g in NOTHING])
    if r.random() < .35:
        sub, line = None, glob + [ask]
        if r.random() < .4:
            # what comes after is for nobody
            line += r.choice((["genre", "-w", "3", "a.mp3"], ["dump"], ["nosuch"], ["-q"]))
        if r.random() < .4:
            k = r.randrange(2)
            line.insert(len(glob) + k, r.choice(("-v", "--version")))
            ask = "-v"
    else:
        sub = r.choice(SUBS)
        opts = {"genre": ["-w", "3"], "text": ["-T", "x"], "popm": ["-a", "-o", "joe"], "xtag": ["-T", "a=b"], "rename": ["-t", "%T"],
                "report": ["-o", "r.csv"], "m3u": ["-o", "l.m3u"], "dump": ["-2"]}.get(sub, [])
        rest = []
        if r.random() < .7:
            rest = [opts] + ([["a.mp3"], ["b.mp3"]][:1 if sub == "split" else r.choice((1, 2))] if sub != "encodings" else [])
        rest.insert(r.randrange(len(rest) + 1), [ask])
        line = glob + [sub] + sum(rest, [])
    what = "%r%s" % (line, "" if have else " without man or info")
    rc, out, err, log = p.run(line)
    w.eq(snapshot(p.cwd), before, "asking for help changed files", what)
    if ask == "-v":
        w.eq((rc, err, log), (0, "", []), "version", what)
        w.check(out.startswith("scribbu ") and out.count("\n") == 1 and out[8:9].isdigit(), "version", "%r: %s" % (out, what))
    elif ask == "-h":
        w.eq((rc, err, log), (0, "", []), "usage", what)
        if sub:
            w.check(out.startswith("scribbu %s -- " % sub) and "-h" in out, "not this sub-command's usage", "%r: %s" % (out[:100], what))
        else:
            for s in SUBS:
                w.check("\n    %s\n" % s in out, "usage without a sub-command", "%s: %s" % (s, what))
    elif have:
        n = "info" if ask == "--info" else "man"
        page = (("(scribbu) Invoking scribbu " + sub if sub else "scribbu") if n == "info" else "scribbu-" + sub if sub else "scribbu")
        w.eq(log, [[n, page]], "not the page asked for", what)
        w.eq((rc, out), (st[n], ""), "manual's status", what)
    else:
        w.check(rc != 0 and err and not log, "no manual, yet no error", "%r %r: %s" % (rc, err, what))
    w.seen("help", ask, sub, tuple(glob), have, tuple(line))
    w.sample("%s -> %s" % (what, rc))


NEEDFILES = [s for s in SUBS if s != "encodings"]
VALUED = {"dump": "indent expression format num-comments v1-encoding i e f m c", "genre": "genre Genre tag v1 winamp g G t w",
          "m3u": "on-encoding-failure output source-encoding e o s", "popm": "count increment owner rating tag C i o r t",
          "rename": "output template o t", "report": "num-comments output v1-encoding c o 1", "split": "suffix",
          "text": "album artist delete encoding encoded-by genre tag title track year a A d E e g t T k y", "xtag": "owner tag xtags o t T"}
BAD = {"dump": ["--format=nosuch", "-m", "--indent=x", "--v1-encoding=NOSUCH"], "genre": ["--tag=x", "--winamp=many", "--v1=z"],
       "m3u": ["--source-encoding=NOSUCH", "--on-encoding-failure=maybe", "-a", "-8"], "popm": ["--tag=x", "--count=many", "--increment=z"],
       "rename": [], "report": ["--num-comments=x", "--v1-encoding=NOSUCH"], "split": [], "text": ["--encoding=NOSUCH", "--tag=-"],
       "xtag": ["--tag=x"]}
GOOD = {"genre": ["--winamp=3"], "text": ["--title=x"], "popm": ["-a", "--owner=joe"], "xtag": ["--xtags=a=b", "-f"], "rename": ["--template=x%T"],
        "report": ["--output=r.csv"], "m3u": ["--output=l.m3u"], "dump": [], "split": []}


def mistakes(w, no):
    """A mistake on the command line is an error, on standard error, and nothing gets done."""
    r, p = w.rng, Place(w)
    standins(r, p)
    for n in ("a.mp3", "b.mp3"):
        p.file(n, mp3())
    p.file("s.scm", RECORD % ('"script"', "(command-line)"))
    before = snapshot(p.cwd)
    bogus = r.choice(("--bogus", "--zq", "--hepl", "--verzion", "-Z", "--dmup", "--zzz=1"))
    glob = r.choice(NOTHING)
    k = r.choice("oovfebn")
    if k == "o":
        # an option nobody has, before or after
        if r.random() < .4:
            line = glob + [bogus] + r.choice(([], ["dump", "a.mp3"], ["s.scm"], ["-s", "s.scm"], ["genre", "-w", "3", "a.mp3"]))
        else:
            s = r.choice(NEEDFILES)
            rest = [GOOD[s], ["a.mp3"], [bogus]]
            r.shuffle(rest)
            line = glob + [s] + sum(rest, [])
    elif k == "v":
        # a value is missing
        line = glob + [r.choice(("-L", "-C", "-x", "-l", "-e", "-c", "-s"))]
    elif k == "f":
        # files are missing
        s = r.choice(NEEDFILES)
        line = glob + [s] + GOOD[s]
    elif k == "e":
        # no value for the last option
        s = r.choice(NEEDFILES)
        o = r.choice(VALUED[s].split())
        line = glob + [s] + [g for g in GOOD[s] if g.split("=")[0] != "--" + o] + ["a.mp3", ("--" if len(o) > 1 else "-") + o]
    elif k == "b":
        s = r.choice([x for x in NEEDFILES if BAD[x]])
        b = r.choice(BAD[s])
        line = glob + [s] + ([] if s == "m3u" and b in ("-a", "-8") else GOOD[s]) + [b] + (["a.mp3"] if b != "-m" else ["x"])
    else:
        # no such script
        line = glob + r.choice((["nosuch.scm"], ["-s", "nosuch.scm"], ["nosuch", "a.mp3"]))
    what = repr(line)
    rc, out, err, log = p.run(line)
    w.check(rc in (1, 2), "a mistake is not an error", "%r: %s" % (rc, what))
    w.check(err.strip() != "", "an error without a message", what)
    w.eq((out, log), ("", []), "output in spite of a mistake", what)
    w.eq(snapshot(p.cwd), before, "files changed in spite of a mistake", what)
    if k in "ovfe":
        w.check(err.count("\n") > 10 and "scribbu" in err, "no usage message", "%r: %s" % (err[:200], what))
        w.eq(rc, 2, "not the status of incorrect usage", what)
    w.seen("mistake", k, tuple(line))
    w.sample("%s -> %s %s" % (what, rc, err.split("\n")[0][:100]))


def repl(w, no):
    """With nothing to run, expressions are read from standard input; -- ends the options."""
    r, p = w.rng, Place(w)
    args = words(r)
    use = r.random() < .7
    n = r.choice((0, 3, 9))
    line = r.choice(([], ["-q"], ["-L", "m"])) + (["--"] + args if use else [])
    src = (RECORD % ('"typed"', "(command-line)")).replace("\n", " ") + "\n(exit %d)\n" % n
    rc, out, err, log = p.run(line, stdin=src.encode())
    w.eq(log, [["typed", w.chk.exe] + (args if use else [])], "not the arguments that were given", repr(line) + err[-300:])
    w.eq(rc, n, "not the exit status", repr(line))
    w.check(out.startswith("scribbu "), "no banner", out[:100])
    w.seen("repl", tuple(line))


def build():
    return builder.Builder("asan").build("scribbu-main", [], cli=True, cli_main=True, scheme=True)


if __name__ == "__main__":
    sys.exit(Check("C31", [("scripts", scripts, 320, 8000), ("subs", subs, 320, 8000), ("help", help_, 320, 6000),
                           ("mistakes", mistakes, 320, 6000), ("repl", repl, 24, 500)],
                   "distinct command lines given to the program, with what came of them",
                   exe_builder=build,
                   assumptions=["Guile itself is not instrumented", "man and info are stand-ins that write down their arguments"]).main())
