"""C18: genres set from the command line, and matched by name."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "lib"))
from vlib import *
import cmd
from cmd import *
from id3 import *
from genres import NAMES
import gen

LOWER = [n.lower() for n in NAMES]
TCON = {2: "TCO", 3: "TCON", 4: "TCON"}


def osa(a, b):
    """Least number of insertions, deletions, substitutions and transpositions of neighbours"""
    p2, p, n = None, list(range(len(a) + 1)), len(a)
    for j in range(1, len(b) + 1):
        c = [j]
        for i in range(1, n + 1):
            x = min(c[i - 1] + 1, p[i] + 1, p[i - 1] + (a[i - 1] != b[j - 1]))
            if i > 1 and j > 1 and a[i - 1] == b[j - 2] and a[i - 2] == b[j - 1]:
                x = min(x, p2[i - 2] + 1)
            c.append(x)
        p2, p = p, c
    return p[-1]


def name(r):
    """A text to be matched"""
    m = r.random()
    if m < .7:
        s = list(r.choice(NAMES))
        for _ in range(r.choice((0, 1, 1, 2, 3, 6))):
            k, i = r.randrange(4), r.randint(0, len(s))
            if k == 0:
                s.insert(i, r.choice("abcxyz -é&三"))
            elif k == 1 and i < len(s):
                del s[i]
            elif k == 2 and i < len(s):
                s[i] = r.choice("abc xyz")
            elif i + 1 < len(s):
                s[i], s[i + 1] = s[i + 1], s[i]
        s = "".join(s)
    elif m < .8:
        s = r.choice(NAMES) + r.choice((" ", "", "/")) + r.choice(NAMES)
    elif m < .9:
        s = "".join(r.choice("abcdefghiknorst -") for _ in range(r.randint(1, 30)))
    else:
        s = "".join(r.choice("#xq\U0001f3b5三") for _ in range(r.choice((1, 3, 22, 23, 24, 40))))
    m = r.random()
    return s.upper() if m < .15 else s.lower() if m < .3 else s.title() if m < .4 else s


def match(w, s):
    x = w.drv("genre", hx(s))
    what = "%r -> %r" % (s, x)
    w.check(not is_ex(x), "matching failed", what)
    ds = [osa(n, s.lower()) for n in LOWER]
    w.eq(x["d"], min(ds), "distance", what)
    w.check(x["n"] < 192 and ds[x["n"]] == min(ds), "a genre that is not the nearest", "%s; nearest %r" % (what, NAMES[ds.index(min(ds))]))
    w.eq(ux(x["text"]).decode(), NAMES[x["n"]], "name of the genre matched", what)
    w.count("matched")
    return x["n"], min(ds), ds.count(min(ds))


def lookup(w, no):
    r = w.rng
    s = name(r)
    if r.random() < .03:
        s = "".join(r.choice("#xabcrock ") for _ in range(r.choice((100, 255, 256, 400))))
    n, d, ties = match(w, s)
    if r.random() < .1:
        w.eq(match(w, s)[0], n, "matched again", repr(s))
    w.seen("lookup", n, d, min(ties, 3))


def table(w, no):
    """The names and numbers are a fixed table; every name matches itself"""
    for n in range(256):
        x = w.drv("genretext", n)
        w.eq(None if x is None else ux(x["t"]).decode(), NAMES[n] if n < 192 else None, "name of a genre", str(n))
    for g, hi in enumerate((80, 142, 148, 192)):
        x = w.drv("genrelist", g)
        w.eq([(y["n"], ux(y["t"]).decode()) for y in x], [(i, NAMES[i]) for i in range(hi)], "genres of a generation", str(g))
    for n in range(192):
        x = w.drv("genre", hx(w.rng.choice((NAMES[n], LOWER[n], NAMES[n].upper()))))
        w.eq((x["n"], x["d"]), (n, 0), "a name matches itself", NAMES[n])
    w.seen("table")
    y = cmd.run(w, w.dir(), ["genre", "-W", "-P"])
    w.eq(ux(y["out"]).decode().split("\n"), ["%3d: %s" % (i, NAMES[i]) for i in range(192)] + [""], "listing", "")


# ------------------------------------------------------------------- command
V1IDS = {"title": {2: "TT2", 3: "TIT2", 4: "TIT2"}, "artist": {2: "TP1", 3: "TPE1", 4: "TPE1"},
         "album": {2: "TAL", 3: "TALB", 4: "TALB"}, "year": {2: "TYE", 3: "TYER", 4: "TYER"}}


def tag(r):
    t = gen.tag(r, ext=False, unsync=False, kinds=("text",))
    ver, seen, fs = t.ver, set(), []
    for _ in range(r.choice((0, 1, 2, 4, 6))):
        m = r.random()
        if m < .4:
            f = Fr(ver, TCON[ver], b"\0" + r.choice((r.choice(NAMES).encode(), b"(17)", b"Rock", b"Rok", gen.asc(r, 10, 1).strip() or b"x")))
        elif m < .7:
            k = r.choice(tuple(V1IDS))
            s = gen.asc(r, 30, 1).strip() if k != "year" else r.choice((b"1999", b"2016", b"99", b"20011"))
            f = Fr(ver, V1IDS[k][ver], b"\0" + (s or b"x"))
        else:
            f = gen.frame(r, ver, ("unk", "ufid", "txxx", "comm", "pcnt", "popm") + (("priv",) if ver > 2 else ()))
        if m < .7:
            if f.id in seen:
                continue
            seen.add(f.id)
        f.unsync = False
        fs.append(f)
    t.frames = fs
    if not fs:
        t.pad, t.footer = 30, False
    if r.random() < .2:
        t.unsync = True
        for f in fs:
            f.unsync = ver == 4
    return t


def mk(r):
    tags = [tag(r) for _ in range(r.choice((0, 1, 1, 2, 3)))]
    v1, d = cmd.ascv1(r) if r.random() < .5 else (b"", None)
    f = File(tags, gen.audio(r) or b"x", v1)
    f.d = d
    return f


class Refuse(Exception):
    pass


def new_v1(f, o):
    b = b"TAG"
    for k, n in (("title", 30), ("artist", 30), ("album", 30), ("year", 4)):
        v = b""
        for t in f.tags:
            x = [g for g in t.frames if g.id == V1IDS[k][t.ver]]
            if x and (k != "year" or len(x[0].payload) == 5):
                v = x[0].payload[1:]
                break
        b += v[:n].ljust(n, b"\0")
    return b + bytes(30) + bytes([o.num])


def model(f, o):
    must = may = False
    v1 = f.v1
    if f.v1:
        if o.scope != "2":
            v1 = f.v1[:-1] + bytes([o.num])
            if len(v1) > 128 and o.num < 192:
                v1 = v1[:185] + NAMES[o.num].encode().ljust(30, b"\0") + v1[215:]
            may = True
            must = v1 != f.v1
    elif o.create1 == "always" or (o.create1 == "other" and f.tags):
        v1 = new_v1(f, o)
        must = True
    if not f.tags:
        if o.create2 == "always" or (o.create2 == "other" and f.v1):
            if any(ord(c) > 0xffff for c in o.text):
                raise Refuse
            new = [x for x in from_v1(f.d) if x.id != "TCON"] if f.v1 else []
            return [WTag(3, [], new + [Want("TCON", {"str": o.text})])], f.audio + v1
        return ([], f.audio + v1) if must else ([], f.audio + v1, "maybe") if may else None
    out = []
    for i, t in enumerate(f.tags):
        if o.scope == "1" or (o.tags and i not in o.tags):
            out.append(cmd.same(t))
            continue
        may = True
        k = [j for j, g in enumerate(t.frames) if g.id == TCON[t.ver]]
        if k and facts(t.frames[k[0]])["str"] == o.text:
            out.append(cmd.same(t))
            continue
        if t.ver < 4 and any(ord(c) > 0xffff for c in o.text):
            raise Refuse
        must = True
        ws = [kept(g) for g in t.frames]
        new = []
        if k:
            ws[k[0]] = changed(t.frames[k[0]], str=o.text)
        else:
            new = [Want(TCON[t.ver], {"str": o.text}, flags=(False, False, False, None))]
        out.append(WTag(t.ver, ws, new, t.exp))
    if not (must or may):
        return None
    return (out, f.audio + v1) if must else (out, f.audio + v1, "maybe")


class O:
    def __repr__(self):
        return repr(self.__dict__)


def options(w, r):
    o, a = O(), ["genre"]
    m = r.random()
    if m < .35:
        o.num = r.choice((0, 1, 17, 79, 80, 125, 191, r.randrange(192)))
        o.text = NAMES[o.num]
        a += opt(r, "-w", "--winamp", str(o.num))
    else:
        s = name(r).strip().lstrip("-") or "Rock"
        o.num = match(w, s)[0]
        if m < .65:
            o.text = NAMES[o.num]
            a += opt(r, "-g", "--genre", s)
        else:
            o.text = s
            a += opt(r, "-G", "--Genre", s)
            if r.random() < .4:
                o.num = r.choice((0, 1, 7, 9, 17, 128, 191, 192, 254, r.randrange(255)))
                a += r.choice((["--v1", str(o.num)], ["--v1=%d" % o.num]))
    o.how = "w" if m < .35 else "g" if m < .65 else "G"
    o.scope = r.choice(("", "", "", "1", "2"))
    if o.scope == "1" and o.how != "G":
        a += opt(r, "-1", "--v1-only")
    elif o.scope == "2" and not any(x.startswith("--v1") for x in a):
        a += opt(r, "-2", "--v2-only")
    else:
        o.scope = ""
    o.tags = []
    if o.scope != "1" and r.random() < .3:
        for _ in range(r.choice((1, 1, 2))):
            o.tags.append(r.choice((0, 0, 1, 1, 2, 7)))
            a += opt(r, "-t", "--tag", str(o.tags[-1]))
    o.create1 = r.choice(("never", "never", "other", "always")) if o.scope != "2" else "never"
    o.create2 = r.choice(("never", "never", "other", "always")) if o.scope != "1" else "never"
    if o.create1 != "never":
        a += opt(r, "-C", "--create-v1") if o.create1 == "other" else opt(r, "-A", "--always-create-v1")
    if o.create2 != "never":
        a += opt(r, "-c", "--create-v2") if o.create2 == "other" else opt(r, "-a", "--always-create-v2")
    o.bk, o.dry = r.random() < .2, r.random() < .1
    if o.bk:
        a += opt(r, "-b", "--create-backups")
    if o.dry:
        a += opt(r, "-n", "--dry-run")
    if r.random() < .3:
        a += opt(r, "-u", "--adjust-unsync")
    if r.random() < .15:
        a += opt(r, "-v", "--verbose")
    return o, a


def one(w, no):
    r = w.rng
    d, files, before = cmd.tree(w, r, mk)
    o, a = options(w, r)
    args, todo = cmd.targets(r, files)
    wants, stop = {}, False
    for n in todo:
        try:
            wants[n] = model(files[n], o)
        except Refuse:
            stop = True
            wants[n] = None
    x = cmd.run(w, d, a + args)
    what = "%r %r %r -> rc %d sig %d %r" % (a + args, o, files, x["rc"], x["sig"], ux(x["err"])[-300:])
    w.eq(x["sig"], 0, "killed by a signal", what)
    if stop:
        w.check(x["rc"] != 0, "what can't be done wasn't refused", what)
    else:
        w.eq(x["rc"], 0, "exit status", what)
    cmd.compare(w, d, before, files, {} if o.dry else wants, o.bk, what, failed=stop)
    w.count("refused" if stop else "dry" if o.dry else "runs")
    w.seen("genre", o.how, o.scope, bool(o.tags), o.create1, o.create2, o.bk, o.dry, stop)


BAD = (["-w", "192"], ["-w", "-1"], ["-w", "x"], ["-w", "1", "-g", "Rock"], ["-g", "Rock", "-G", "Rock"], ["-w", "3", "-G", "x"], [], ["-w", "1", "-1", "-2"],
       ["-w", "1", "-1", "-t", "0"], ["-w", "1", "-c", "-a"], ["-w", "1", "-C", "-A"], ["-G", "x", "--v1", "256"], ["-G", "x", "--v1", "y"],
       ["-w", "1", "--nosuch"], ["-w"], ["-w", "1", "-t", "x"])


def bad(w, no):
    """Commands that make no sense change nothing"""
    r = w.rng
    d, files, before = cmd.tree(w, r, mk)
    args, todo = cmd.targets(r, files)
    b = r.choice(BAD)
    a = ["genre"] + args + b
    x = cmd.run(w, d, a)
    what = "%r -> rc %d sig %d %r" % (a, x["rc"], x["sig"], ux(x["err"])[-300:])
    w.eq(x["sig"], 0, "killed by a signal", what)
    w.check(x["rc"] != 0, "nonsense accepted", what)
    cmd.compare(w, d, before, files, {}, False, what)
    w.seen("bad", tuple(b))


if __name__ == "__main__":
    sys.exit(Check("C18", [("lookup", lookup, 1200, 20000), ("table", table, 1, 4), ("one", one, 1800, 40000), ("bad", bad, 120, 1000)],
                   "distinct (genre matched, distance) and (command options, outcome) seen", cli=True, env={"LANGUAGE": "en"}).main())
