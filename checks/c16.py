"""C16: play counts and ratings set from the command line."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "lib"))
from vlib import *
import cmd
from cmd import *
from id3 import *
import gen

OWNERS = (b"a@b.c", b"a", b"", b"sp1ff@pobox.com", b"a@b.cd", b"A@B.C")
PCNT = {2: "CNT", 3: "PCNT", 4: "PCNT"}
POPM = {2: "POP", 3: "POPM", 4: "POPM"}
STARS = (1, 64, 128, 196, 255)
MAX = (1 << 64) - 1


def counter(r, over=True):
    m = r.random()
    n = gen.counter(r)
    if m < .15:
        n = r.randrange(1 << 64) >> r.randrange(64)
    elif m < .25:
        n = r.choice((MAX, MAX - 1, MAX - 2, 1 << 63, (1 << 63) - 1, (1 << 56) - 1, 1 << 56, (1 << 40) - 1, (1 << 48) - 1))
    elif m < .28 and over:
        n = MAX + r.choice((1, 2, 1 << 64))
    b = n.to_bytes(max(1, (n.bit_length() + 7) // 8), "big")
    z = r.random()
    if z < .5:
        b = b.rjust(4, b"\0")
    elif z < .7:
        b = b.rjust(r.choice((5, 8, 9, 12)), b"\0")
    return b


def frame(r, ver):
    x = r.random()
    if x < .3:
        f = gen.frame(r, ver, ("pcnt",))
        f.payload = counter(r)
    elif x < .65:
        f = gen.frame(r, ver, ("popm",))
        f.payload = r.choice(OWNERS) + b"\0" + bytes([r.choice((0, 1, 128, 255, r.randrange(256)))]) + (counter(r) if r.random() < .9 else b"")
    else:
        f = gen.frame(r, ver, ("text", "unk", "ufid", "txxx", "comm", "priv") if ver > 2 else ("text", "unk", "ufid", "txxx", "comm"))
    return f


def tag(r):
    t = gen.tag(r, ext=False, unsync=False, kinds=("text",))
    t.frames = [frame(r, t.ver) for _ in range(r.choice((0, 1, 2, 3, 5)))]
    if not t.frames:
        t.pad, t.footer = 30, False
    if t.ver == 4:
        u = r.random() < .2
        t.unsync = u
        for f in t.frames:
            f.unsync = u
    elif r.random() < .2:
        t.unsync = True
    return t


def mk(r):
    tags = [tag(r) for _ in range(r.choice((0, 1, 1, 2, 3)))]
    v1, d = cmd.ascv1(r) if r.random() < .5 else (b"", None)
    f = File(tags, gen.audio(r) or b"x", v1)
    f.d = d
    return f


class Refuse(Exception):
    pass


def model(f, o):
    """The tags popm with options O should leave in F; None: as they are"""
    if not f.tags:
        if not (o.create == "always" or (o.create == "v1" and f.v1)):
            return None
        new = from_v1(f.d) if f.v1 else []
        p, q = apply(3, [], o, True)
        return [WTag(3, [], new + q)], f.audio + f.v1
    dirty = False
    out = []
    for i, t in enumerate(f.tags):
        if o.tags and i not in o.tags:
            out.append(cmd.same(t))
            continue
        ws, new = apply(t.ver, t.frames, o, o.frame)
        dirty = dirty or bool(new) or any(x.facts is not None for x in ws)
        out.append(WTag(t.ver, ws, new, t.exp))
    return (out, f.audio + f.v1) if dirty else None


def apply(ver, frames, o, create):
    ws, new, npc, npm, high = [], [], 0, 0, 0

    def bump(n):
        if n > MAX:
            raise Refuse("counter")
        n = o.count if o.abs else n + o.count
        if n > MAX:
            raise Refuse("overflow")
        return n
    for f in frames:
        h = facts(f) if f.id in (PCNT[ver], POPM[ver]) else None
        if f.id == PCNT[ver] and o.kind != "popm":
            n = bump(0 if o.abs else h["count"])
            npc += 1
            high = max(high, n)
            ws.append(changed(f, count=n))
        elif f.id == POPM[ver] and o.kind != "pcnt" and (o.owner is None or h["owner"] == o.owner):
            if h["count"] > MAX:
                raise Refuse("counter")
            n = bump(0 if o.abs else h["count"])
            npm += 1
            high = max(high, n)
            ws.append(changed(f, count=n, owner=h["owner"], rating=h["rating"] if o.rating is None else o.rating))
        else:
            if h:
                if h["count"] > MAX:
                    raise Refuse("maybe")
                if create:
                    high = max(high, h["count"])
            ws.append(kept(f))
    if create:
        n = o.count if o.abs or not high else high
        if not npc and o.kind != "popm":
            new.append(Want(PCNT[ver], {"count": n}, flags=(False, False, False, None)))
        if not npm and o.kind != "pcnt" and o.owner is not None and o.rating is not None:
            new.append(Want(POPM[ver], {"count": n, "owner": o.owner, "rating": o.rating}, flags=(False, False, False, None)))
    return ws, new


class O:
    pass


def options(r):
    o, a = O(), ["popm"]
    o.kind = r.choice(("both", "both", "pcnt", "popm"))
    if o.kind == "pcnt":
        a += opt(r, "-p", "--playcount-only")
    elif o.kind == "popm":
        a += opt(r, "-m", "--popularimeter-only")
    m = r.random()
    o.abs, o.count = False, 1
    if m < .35:
        o.abs, o.count = True, r.choice((0, 1, 255, 256, gen.counter(r), 1 << 32, MAX, r.randrange(1 << 64)))
        a += opt(r, "-C", "--count", str(o.count))
    elif m < .7:
        o.count = r.choice((1, 2, 0, 255, gen.counter(r), 1 << 32, 1 << 63, MAX))
        a += opt(r, "-i", "--increment", str(o.count))
    o.owner = r.choice(OWNERS) if r.random() < .5 else None
    o.rating = None
    if r.random() < .5:
        if r.random() < .5:
            o.rating = r.choice((0, 1, 2, 127, 128, 255, r.randrange(256)))
            a += opt(r, "-r", "--rating", str(o.rating))
        else:
            k = r.randrange(5)
            o.rating = STARS[k]
            a += opt(r, "-r", "--rating", r.choice("*#@x%+") * (k + 1))
    o.frame = r.random() < .4
    o.create = r.choice(("never", "never", "v1", "always"))
    if (o.frame or o.create != "never") and o.owner is not None and o.rating is None and o.kind != "pcnt":
        o.owner = None
    if o.owner == b"":
        a += [r.choice(("-o", "--owner")), ""]
    elif o.owner is not None:
        a += opt(r, "-o", "--owner", o.owner.decode())
    if o.frame:
        a += opt(r, "-f", "--create-frame")
    if o.create == "v1":
        a += opt(r, "-c", "--create-v2")
    elif o.create == "always":
        a += opt(r, "-a", "--always-create-v2")
    o.tags = []
    if r.random() < .4:
        for _ in range(r.choice((1, 1, 2))):
            o.tags.append(r.choice((0, 0, 1, 1, 2, 7)))
            a += opt(r, "-t", "--tag", str(o.tags[-1]))
    o.bk, o.dry = r.random() < .2, r.random() < .1
    if o.bk:
        a += opt(r, "-b", "--create-backups")
    if o.dry:
        a += opt(r, "-n", "--dry-run")
    if r.random() < .3:
        a += opt(r, "-u", "--adjust-unsync")
    if r.random() < .2:
        a += opt(r, "-v", "--verbose")
    return o, a


def one(w, no):
    r = w.rng
    d, files, before = cmd.tree(w, r, mk)
    o, a = options(r)
    args, todo = cmd.targets(r, files)
    wants, stop, maybe = {}, False, False
    for n in todo:
        try:
            wants[n] = model(files[n], o)
        except Refuse as ex:
            stop = True
            maybe = maybe or str(ex) == "maybe"
            wants[n] = None
    if maybe:
        # a count of more than 64 bits in a frame that isn't concerned
        w.count("skipped")
        return
    if o.dry:
        wants = {}
    x = cmd.run(w, d, a + args)
    what = "%r %r -> rc %d sig %d %r" % (a + args, files, x["rc"], x["sig"], ux(x["err"])[-300:])
    w.eq(x["sig"], 0, "killed by a signal", what)
    if stop:
        w.check(x["rc"] != 0 or o.dry, "a count out of range wasn't refused", what)
    else:
        w.eq(x["rc"], 0, "exit status", what)
    cmd.compare(w, d, before, files, wants, o.bk, what, failed=stop)
    w.count("refused" if stop else "dry" if o.dry else "runs")
    w.seen("popm", o.kind, o.abs, o.owner is None, o.rating is None, o.frame, o.create, bool(o.tags), o.bk, stop)


BAD = (["-p", "-m"], ["-C", "3", "-i", "2"], ["-c", "-a"], ["-r", "256"], ["-r", "-1"], ["-r", "xxxxxx"], ["-r", "1x"], ["-r", ""],
       ["-C", "x"], ["-i", "18446744073709551616"], ["-t", "x"], ["--nosuch"], ["-C"])


def bad(w, no):
    """Commands that make no sense change nothing"""
    r = w.rng
    d, files, before = cmd.tree(w, r, mk)
    args, todo = cmd.targets(r, files)
    b = r.choice(BAD)
    a = ["popm"] + r.choice(([], ["-a", "-f"] if "-c" not in b else ["-f"])) + args + b
    x = cmd.run(w, d, a)
    what = "%r -> rc %d sig %d %r" % (a, x["rc"], x["sig"], ux(x["err"])[-300:])
    w.eq(x["sig"], 0, "killed by a signal", what)
    w.check(x["rc"] != 0, "nonsense accepted", what)
    cmd.compare(w, d, before, files, {}, False, what)
    w.seen("bad", tuple(b))


def grow(w, no):
    """Counts that go up one at a time across the widths of a counter"""
    r = w.rng
    d = w.dir()
    ver = r.choice((2, 3, 4))
    bits = r.choice((8, 16, 24, 32, 40, 48, 56, 63))
    n = (1 << bits) - r.choice((1, 2, 3))
    own = b"o@x"
    nb = n.to_bytes(max(1, (n.bit_length() + 7) // 8), "big").rjust(r.choice((1, 4)), b"\0")
    fs = [Fr(ver, PCNT[ver], nb), Fr(ver, POPM[ver], own + b"\0\x07" + nb)]
    if r.random() < .5:
        fs.reverse()
    f = File([Tg(ver, fs, r.choice((0, 2, 100)))], b"\xff\xfb" + gen.blob(r), b"")
    p = os.path.join(d, "f.mp3")
    put(p, f.raw())
    for i in range(r.choice((2, 4, 6))):
        s = r.choice((1, 1, 2, 255))
        x = cmd.run(w, d, ["popm", "-i", str(s), "f.mp3"])
        n += s
        what = "%d bits, step %d -> rc %d %r" % (bits, i, x["rc"], ux(x["err"])[-200:])
        w.eq(x["rc"], 0, "exit status", what)
        y = cmd.why(get(p), [WTag(ver, [changed(g, count=n) if g.id == PCNT[ver] else changed(g, count=n, owner=own, rating=7) for g in fs])], f.audio)
        w.check(y is None, "count after increments", "%s: %s" % (y, what))
    w.seen("grow", ver, bits)


if __name__ == "__main__":
    sys.exit(Check("C16", [("one", one, 2600, 50000), ("bad", bad, 150, 1500), ("grow", grow, 80, 3000)],
                   "distinct (command options, outcome) seen", cli=True, env={"LANGUAGE": "en"}).main())
