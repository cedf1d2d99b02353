"""C25: M3U playlists."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "lib"))
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from vlib import *
import cmd
from cmd import opt
from files import put, get
from id3 import *
import c13, c21, gen

ART = {2: "TP1", 3: "TPE1", 4: "TPE1"}
TIT = {2: "TT2", 3: "TIT2", 4: "TIT2"}
HOT = ["\n", "\r\n", "\r", "#EXTINF:1,", "#", ",", " - ", "\t", "%", "/", "\\", "é", "中"]
NAMES = ("a.mp3", "b b.mp3", "c,d.mp3", "é中.mp3", "#x.mp3", "noext", "dots.a.b.mp3", "t\tt.mp3", ".hid", "- - -.mp3", "%20.mp3", "q\"q.mp3", "x.MP3", "y.txt", "-dash.mp3")
PY = {"CP1252": "cp1252", "ISO-8859-1": "latin-1", "CP1251": "cp1251", "UTF-8": "utf-8", "KOI8-R": "koi8-r"}


def trim(s):
    return s.rstrip("\0 ")


def audio(r):
    """(a stream, its length in seconds)"""
    m = r.random()
    ver, sri = r.choice((1, 1, 2, 25)), r.randrange(3)
    spf, hz = (1152 if ver == 1 else 576), c13.SR[ver][sri]
    if m < .15:
        return bytes(r.randrange(200) for _ in range(r.randrange(60))) + b"\0" * 400, 0
    if m < .4:
        n = r.choice((1, 2, 5, 40))
        return b"".join(c13.frame(r, ver, sri) for _ in range(n)) + b"\0" * 400, n * spf / hz
    while True:
        # around whole and half seconds, and anywhere
        secs = r.choice((r.uniform(0, 10), r.uniform(0, 400), r.uniform(0, 7200), r.randrange(600) + .5, r.randrange(600)))
        n = max(1, int(secs * hz / spf) + r.choice((0, 0, 1)))
        kind = r.choice(("Xing", "Info", "VBRI"))
        b = c13.vbr_frame(r, ver, sri, kind, n, 1000, 3)
        if b:
            return b + b"\0" * 800, n * spf / hz


def text(r, enc=None):
    s = gen.text(r, 3, 0 if enc else r.choice((0, 1)), 15)
    if r.random() < .4:
        i = r.randint(0, len(s))
        s = s[:i] + r.choice(HOT[:11] if enc else HOT) + s[i:]
    if enc == "ascii":
        s = s.encode("ascii", "ignore").decode()
    elif enc:
        b = bytes(r.choice((x, x, r.randrange(0xc0, 0x100))) for x in s.encode("ascii", "ignore"))
        s = b.decode(PY[enc], "ignore") if enc != "UTF-8" else s
    s = s.replace("\0", "")
    return "" if r.random() < .08 else s


class T:
    pass


def track(r, name, enc):
    """A file, and what its entry must say"""
    t = T()
    t.name = name
    data, t.secs = audio(r)
    front, t.display = b"", None
    have = 0
    for _ in range(r.choice((0, 1, 1, 1, 2))):
        v = r.choice((2, 3, 3, 4))
        fs = []
        p = r.random()
        w = {}
        for which, ids in (("a", ART), ("t", TIT)):
            if p < .8 or r.random() < .3:
                s = text(r, enc)
                if enc:
                    b = b"\0" + s.encode(PY[enc])
                else:
                    e = 1 if any(ord(c) > 255 for c in s) else r.choice((0, 1))
                    b = bytes([e]) + enc_text(v, e, s)
                fs.append(Fr(v, ids[v], b, "text"))
                w[which] = trim(s)
        for _ in range(r.choice((0, 0, 1))):
            f = gen.frame(r, v, ("comm", "unk", "popm", "pcnt"))
            f.unsync = False
            fs.append(f)
        r.shuffle(fs)
        # none of it escaped: the sizes of frames that are depend on the writer
        front += Tg(v, fs, r.choice((0, 20))).raw()
        if len(w) == 2 and not have:
            have = 1
            if w["a"] and w["t"]:
                t.display = w["a"] + " - " + w["t"]
    v1 = b""
    if r.random() < .5 and (t.secs or not enc):     # no 0xff where there is no audio
        a, l = [trim(text(r, enc or "ascii")) for _ in range(2)]
        py = PY[enc] if enc else "ascii"
        fit = lambda s: next(x for x in (s[:n] for n in range(30, -1, -1)) if len(x.encode(py)) <= 30)
        a, l = trim(fit(a)), trim(fit(l))
        v1 = b"TAG" + l.encode(py).ljust(30, b"\0") + a.encode(py).ljust(30, b" " if py == "ascii" else b"\0") + b"\0" * 64 + b"\x11"
        if t.display is None and a and l:
            t.display = a + " - " + l
    if t.display is None:
        t.display = os.path.splitext(name)[0] if not name.startswith(".") or name.count(".") > 1 else name
    t.display = t.display.replace("\n", " ").replace("\r", " ")
    t.bytes = front + data + v1
    return t


def m3u(w, no):
    r = w.rng
    d = w.dir()
    enc = r.choice(sorted(PY)) if r.random() < .3 else None
    sub = r.choice(("in", "in/deep/er", "in/s p", "in/é"))
    os.makedirs(os.path.join(d, sub))
    ts = {}
    for n in r.sample(NAMES, r.choice((1, 1, 2, 3, 5))):
        ts[n] = track(r, n, enc)
        put(os.path.join(d, sub, n), ts[n].bytes)
    a = ["m3u"]
    if enc:
        a += opt(r, "-s", "--source-encoding", enc)
    old = None
    out = None
    if r.random() < .6:
        out = r.choice(("o.m3u", os.path.join(d, "o.m3u8"), "./p l.m3u"))
        a += opt(r, "-o", "--output", out)
        m = r.random()
        if m < .5:
            old = r.choice((b"", b"#EXTM3U\n", b"#EXTM3U\n#EXTINF:3,a - b\nx/y.mp3\n", b"#EXTM3U\n# a comment\nx.mp3\n", b"x.mp3\n", b"z" * 5000 + b"\n"))
            put(os.path.join(d, out), old)
        if m < .35 or m > .9:
            a += opt(r, "-a", "--append")
            app = True
        else:
            app = False
        if r.random() < .3:
            a += opt(r, "-8", "--use-utf8")
    if r.random() < .2:
        a += opt(r, "-v", "--verbose")
    base = r.choice((sub, "./" + sub, os.path.join(d, sub), os.path.join("in", "..", sub)))
    if r.random() < .35:
        a += [r.choice((base, base + "/")) if sub == "in" or r.random() < .5 else base]
        todo, order = sorted(ts), False
        root = a[-1]
    else:
        todo, order = r.sample(sorted(ts), r.randint(1, len(ts))), True
        if r.random() < .15:
            todo += [r.choice(todo)]
        a += [os.path.join(base, n) for n in todo]
    x = cmd.run(w, d, a)
    what = "%r -> rc %d %r" % (a, x["rc"], ux(x["err"])[-200:])
    w.eq((x["rc"], x["sig"]), (0, 0), "exit status", what)
    b = get(os.path.join(d, out)) if out else ux(x["out"])
    w.check(b.endswith(b"\n"), "last line ends", what)
    if out:
        keep = old if app and old else b""
        w.check(b.startswith(keep), "what was there is kept", what)
        b = b[len(keep):]
        if not keep:
            w.check(b.startswith(b"#EXTM3U\n"), "starts with the header", "%r: %s" % (b[:60], what))
            b = b[8:]
    lines = b.split(b"\n")[:-1]
    w.eq(len(lines), 2 * len(todo), "two lines for each track", "%r: %s" % (b, what))
    got = []
    for i in range(0, len(lines), 2):
        try:
            info, path = lines[i].decode(), lines[i + 1].decode()
        except UnicodeError:
            w.check(False, "text", "%r: %s" % (lines[i:i + 2], what))
        w.check(info.startswith("#EXTINF:"), "a line of information", "%r: %s" % (info, what))
        secs, _, disp = info[8:].partition(",")
        n = os.path.basename(path)
        w.check(n in ts, "a path", "%r: %s" % (path, what))
        w.eq(os.path.normpath(os.path.join(d, path)), os.path.join(d, sub, n), "path leads to the track", what)
        w.eq(os.path.isabs(path), os.path.isabs(a[-1]), "relative or absolute, as given", what)
        t = ts[n]
        ok = {str(int(t.secs + .5 + e)) for e in (-1e-9, 0, 1e-9)}
        w.check(secs in ok, "duration", "%r for %.9f: %s" % (secs, t.secs, what))
        w.eq(disp, t.display, "display title", "%s %s" % (n, what))
        got.append(n)
    w.eq(got if order else sorted(got), todo, "one entry for each track", what)
    w.count("entries", len(got))
    w.seen(bool(out), old is not None, "-a" in a or "--append" in a, enc, order, len(got))


if __name__ == "__main__":
    sys.exit(Check("C25", [("m3u", m3u, 2600, 60000)], "distinct (output mode, options, number of entries) seen", cli=True,
                   env={"LC_ALL": "C.UTF-8", "LANGUAGE": "en"}).main())
