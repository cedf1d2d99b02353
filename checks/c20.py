"""C20: queries and dry runs change nothing."""
import os, shutil, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "lib"))
from vlib import *
import cmd
from cmd import opt
from files import put, rest
from id3 import *
import gen


def full(d):
    """Everything in a directory, with what tells whether it has been touched"""
    out = {}
    for base, ds, fs in os.walk(d):
        for x in ds + fs + [""]:
            p = os.path.join(base, x) if x else base
            k = os.path.relpath(p, d)
            st = os.lstat(p)
            c = None
            if os.path.islink(p):
                c = os.readlink(p)
            elif os.path.isfile(p):
                with open(p, "rb") as f:
                    c = f.read()
            out[k] = (st.st_mode, c, st.st_ino, st.st_mtime_ns, st.st_uid, st.st_nlink)
    return out


def diff(a, b, but=()):
    """What differs; BUT: names that may, with the directories they are in"""
    up = {os.path.dirname(x) or "." for x in but}
    out = []
    for k in sorted(set(a) | set(b)):
        if k in but:
            continue
        x, y = a.get(k), b.get(k)
        if k in up and x and y and x[:3] == y[:3]:
            continue
        if x is None:
            out.append("%s appeared" % k)
        elif y is None:
            out.append("%s is gone" % k)
        elif x != y:
            out.append("%s: %s" % (k, ", ".join(n for n, p, q in zip(("mode", "contents", "replaced", "touched", "owner", "links"), x, y) if p != q)))
    return out


def content(r):
    m = r.random()
    if m < .45:
        t = b"".join(gen.tag(r).raw() for _ in range(r.choice((0, 1, 1, 2, 3))))
        return t + rest(r, 0)
    if m < .75:
        return cmd.File([simple(r) for _ in range(r.choice((0, 1, 1, 2)))], gen.audio(r) or b"x", cmd.ascv1(r)[0] if r.random() < .5 else b"").raw()
    if m < .85:
        return gen.mutate(r, gen.file_bytes(r)[0])
    if m < .9:
        return b""
    return gen.blob(r)


def simple(r):
    """A tag that every command has something to do with"""
    v = r.choice((2, 3, 4))
    i = lambda a, b: a if v == 2 else b
    fs = [Fr(v, i("TT2", "TIT2"), b"\0" + gen.asc(r)), Fr(v, i("TP1", "TPE1"), b"\0" + gen.asc(r)), Fr(v, i("TCO", "TCON"), b"\0(17)"),
          Fr(v, i("CNT", "PCNT"), b"\0\0\0\x05"), Fr(v, i("POP", "POPM"), b"a@b.c\0\x07\0\0\0\x01"), Fr(v, i("XTG", "XTAG"), enc_xtag(b"a@b.c", {b"k": {b"v"}}))]
    return Tg(v, r.sample(fs, r.randint(1, 6)), r.choice((0, 1, 40, 500)))


def tree(w, r):
    d = w.dir()
    names = []
    for x in ("in", "in/sub", "in/empty", "cwd", "out"):
        os.makedirs(os.path.join(d, x))
    for _ in range(r.choice((1, 2, 3, 5))):
        n = r.choice(("in/a.mp3", "in/b.mp3", "in/sub/c.mp3", "in/sub/d", "in/e x.mp3", "in/f.MP3", "in/notes.txt", "in/a.mp3.1", "cwd/g.mp3"))
        if n not in names:
            put(os.path.join(d, n), content(r), r.choice((None, 0o600, 0o444, 0o640)))
            names.append(n)
    if r.random() < .15:
        os.symlink(os.path.basename(names[0]), os.path.join(d, os.path.dirname(names[0]), "ln.mp3"))
        names.append(os.path.join(os.path.dirname(names[0]), "ln.mp3"))
    if r.random() < .05:
        os.symlink("nowhere", os.path.join(d, "in/dangling"))
    return d, names


def args(r, names):
    m = r.random()
    pre = "../"
    if m < .3:
        return [pre + r.choice(("in", "in/", "in/sub", "in/empty"))]
    if m < .35:
        return [pre + "in", pre + r.choice(names)]
    if m < .4:
        return [pre + "missing.mp3"] + [pre + x for x in r.sample(names, r.randint(0, len(names)))]
    return [pre + x for x in r.sample(names, r.randint(1, len(names)))]


def sw(r, p, *xs):
    return [x for x in xs if r.random() < p]


def q_dump(r):
    a = ["dump"] + sw(r, .15, "-1", "-D", "-2", "-g", "--id3v1-tags", "--track-data", "--id3v2-tags")
    if r.random() < .6:
        a += opt(r, "-f", "--format", r.choice(("standard", "compact", "csv", "json")))
    if r.random() < .2:
        a += opt(r, "-i", "--indent", str(r.choice((0, 1, 8))))
    if r.random() < .2:
        a += opt(r, "-m", "--num-comments", str(r.choice((0, 1, 6))))
    if r.random() < .2:
        a += opt(r, "-c", "--v1-encoding", r.choice(("UTF-8", "ISO-8859-1", "CP1252")))
    if r.random() < .2:
        a += opt(r, "-e", "--expression", r.choice(("T.*", "COMM", "[", "XTAG|PCNT")))
    return a


def q_m3u(r):
    return ["m3u"] + sw(r, .2, "-v") + (opt(r, "-s", "--source-encoding", "UTF-8") if r.random() < .2 else []) + (opt(r, "-e", "--on-encoding-failure", r.choice(("fail", "transliterate", "ignore"))) if r.random() < .2 else [])


def q_xtag(r):
    return ["xtag", r.choice(("-g", "--get"))] + sw(r, .2, "-b", "-u", "-m", "-f", "-A", "-n") + (["-o", "a@b.c"] if r.random() < .3 else []) + (["-T", "q=r"] if r.random() < .3 else []) + (["-t", r.choice("01")] if r.random() < .2 else [])


def q_help(r):
    return [r.choice(("dump", "encodings", "genre", "m3u", "popm", "rename", "report", "split", "text", "xtag")), "-h"]


def q_list(r):
    return r.choice((["encodings"], ["genre", "-W", "-P"], ["genre", "--list-winamp-genres", "--no-pager"]))


QUERIES = (q_dump, q_dump, q_dump, q_m3u, q_xtag)


def d_popm(r):
    a = ["popm"] + sw(r, .4, "-f", "-u", "-b", "-v") + r.choice(([], ["-p"], ["-m"])) + r.choice(([], ["-C", "7"], ["-i", "3"])) + r.choice(([], ["-a"], ["-c"]))
    if r.random() < .5:
        a += ["-o", "a@b.c", "-r", "99"]
    return a


def d_genre(r):
    return ["genre"] + sw(r, .3, "-u", "-b", "-v") + r.choice((["-w", "12"], ["-g", "Rock"], ["-G", "Made up"])) + r.choice(([], ["-a"], ["-c"])) + r.choice(([], ["-A"], ["-C"])) + r.choice(([], [], ["-1"], ["-2"]))


def d_xtag(r):
    return ["xtag", "-T", r.choice(("a=b&c", "k=w", "k"))] + sw(r, .4, "-f", "-m", "-u", "-b") + r.choice(([], ["-A"], ["-c"])) + (["-o", "a@b.c"] if r.random() < .5 else [])


def d_rename(r):
    a = ["rename"] + sw(r, .3, "-v", "-r")
    if r.random() < .6:
        a += ["-t", r.choice(("%T%E", "%A - %T%E", "%b-%m%E", "%5%E", "x%E", "%S.q", "new/%b%E"))]
    if r.random() < .4:
        a += ["-o", r.choice(("../out", "../out/new", "."))]
    return a


DRY = (d_popm, d_genre, d_xtag, d_rename)


def ran(w, x, what):
    w.eq(x["sig"], 0, "killed by a signal", what)


def same(w, d, before, x, a, but=(), key="a query changed something"):
    y = diff(before, full(d), but)
    w.check(not y, key, "%r left %s (rc %d, %r)" % (a, y, x["rc"], ux(x["err"])[-200:]))


def query(w, no):
    r = w.rng
    d, names = tree(w, r)
    before = full(d)
    n = 0
    for _ in range(3):
        m = r.random()
        a = q_help(r) if m < .03 else q_list(r) if m < .06 else r.choice(QUERIES)(r) + args(r, names)
        x = cmd.run(w, d, a, cwd=os.path.join(d, "cwd"))
        ran(w, x, repr(a))
        same(w, d, before, x, a)
        w.count("printed something" if x["out"] else "printed nothing")
        w.seen("query", a[0], a[-1] == "-h", x["rc"], bool(x["out"]))


def report(w, no):
    """Only the file named is written"""
    r = w.rng
    d, names = tree(w, r)
    a = ["report"] + sw(r, .3, "-t", "-d", "-a", "-S") + (["-c", str(r.choice((0, 1, 6)))] if r.random() < .3 else []) + args(r, names)
    o = r.choice(("out/r.csv", "cwd/r", "r.txt"))
    if r.random() < .3:
        put(os.path.join(d, o), b"old")
    cmdline = a + ["-o", "../" + o] if r.random() < .7 else ["report", "--output=../" + o] + a[1:]
    if r.random() < .3:
        cmdline = ["m3u"] + args(r, names) + ["-o", "../" + o] + sw(r, .3, "-a", "-8")
    before = full(d)
    x = cmd.run(w, d, cmdline, cwd=os.path.join(d, "cwd"))
    ran(w, x, repr(cmdline))
    same(w, d, before, x, cmdline, (o,))
    w.seen(cmdline[0], x["rc"], os.path.exists(os.path.join(d, o)))


def dry(w, no):
    r = w.rng
    d, names = tree(w, r)
    before = full(d)
    a = r.choice(DRY)(r)
    t = args(r, names)
    b = list(a)
    b.insert(r.randint(1, 1), r.choice(("-n", "--dry-run")))
    x = cmd.run(w, d, b + t, cwd=os.path.join(d, "cwd"))
    ran(w, x, repr(b + t))
    same(w, d, before, x, b + t, key="a dry run changed something")
    w.seen("dry", a[0], x["rc"], bool(x["out"]))
    if r.random() < .5:
        # and it would have
        y = cmd.run(w, d, a + t, cwd=os.path.join(d, "cwd"))
        ran(w, y, repr(a + t))
        w.count("would have changed something" if diff(before, full(d)) else "would have changed nothing")


BAD = {
    "dump": (["-f", "nosuch"], ["-i", "x"], ["-c", "nosuch"], ["--nosuch"], ["-m"]),
    "m3u": (["-a"], ["-8"], ["-e", "nosuch"], ["-o"], ["--nosuch"]),
    "popm": (["-p", "-m"], ["-C", "3", "-i", "2"], ["-c", "-a"], ["-r", "256"], ["-t", "x"], ["--nosuch"]),
    "genre": (["-w", "12", "-g", "Rock"], ["-w", "192"], ["-w", "x"], ["-a", "-c", "-w", "1"], ["-A", "-C", "-w", "1"], ["-1", "-2", "-w", "1"], [], ["-g", "Rock", "--nosuch"]),
    "text": (["-T", "x", "-E", "nosuch"], ["-T", "x", "-d", "nosuch"], ["-T", "x", "-c", "-C"], ["-T", "x", "--nosuch"], ["-T", "x", "-t", "y"]),
    "xtag": (["-T", "a", "-c", "-A"], [], ["-T", "a", "--nosuch"], ["-T", "a", "-t", "x"]),
    "rename": (["-t", "%"], ["-t", "%Z"], ["-t", "%(T"], ["--nosuch"], ["-o"], ["-t", "a%?(b"]),
    "report": ([], ["-c", "x", "-o", "../out/r"], ["-o", "../out/r", "--nosuch"], ["-o", "../out/r", "-1", "nosuch"]),
    "split": ([], ["--nosuch"], ["--suffix"]),
    "encodings": (["--nosuch"],),
}
NOARGS = (["dump"], ["popm"], ["popm", "-C", "4"], ["genre", "-w", "4"], ["text", "-T", "x"], ["xtag", "-T", "a"], ["rename"], ["rename", "-t", "%T"], ["report", "-o", "../out/r"], ["split"], ["m3u"])


def bad(w, no):
    """Commands that fail on their arguments change nothing"""
    r = w.rng
    d, names = tree(w, r)
    before = full(d)
    if r.random() < .12:
        a = list(r.choice(NOARGS))
        x = cmd.run(w, d, a, cwd=os.path.join(d, "cwd"))
        w.check(x["rc"] != 0, "no arguments, no complaint", repr(a))
    else:
        c = r.choice(sorted(BAD))
        b = r.choice(BAD[c])
        t = ["../" + r.choice(names), "../" + r.choice(names)] if c == "split" and not b else args(r, names)
        if c == "split" and b:
            t = t[:1]
        a = [c] + t + b
        x = cmd.run(w, d, a, cwd=os.path.join(d, "cwd"))
        ok = x["rc"] != 0 or "-h" in a
        w.check(ok, "nonsense accepted", "%r -> %r" % (a, ux(x["out"])[-200:]))
    ran(w, x, repr(a))
    same(w, d, before, x, a, key="a command that failed on its arguments changed something")
    w.seen("bad", a[0], tuple(a[-2:]) if a[-1][:2] == "--" else x["rc"])


def missing(w, no):
    """Files that aren't there"""
    r = w.rng
    d, names = tree(w, r)
    before = full(d)
    c = r.choice((["dump"], ["m3u"], ["popm", "-a", "-f", "-b"], ["genre", "-w", "4", "-a", "-b"], ["text", "-T", "x", "-C", "-b"], ["xtag", "-T", "a", "-A", "-b"], ["rename"], ["rename", "-o", "../out"], ["split"]))
    a = c + [r.choice(("../in/nosuch.mp3", "nosuch", "../nodir/x.mp3", "../in/a.mp3/x"))]
    x = cmd.run(w, d, a, cwd=os.path.join(d, "cwd"))
    ran(w, x, repr(a))
    same(w, d, before, x, a, key="a command on a file that is not there changed something")
    w.seen("missing", c[0], x["rc"])


if __name__ == "__main__":
    sys.exit(Check("C20", [("query", query, 700, 20000), ("report", report, 250, 8000), ("dry", dry, 900, 30000), ("bad", bad, 400, 8000), ("missing", missing, 100, 2000)],
                   "distinct (command, way of going wrong or right) seen", cli=True, env={"LANGUAGE": "en"}).main())
