"""C12: track size, MD5 and split are independent of the tags."""
import hashlib, os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "lib"))
from vlib import *
from files import *
import gen


def track(r):
    """Audio bytes, none of which can be taken for a tag in front or behind"""
    k = r.random()
    if k < .1:
        n = r.choice((1, 2, 127, 128, 129, 354, 355, 356, 4095, 4096, 4097, 8191, 8192, 8193, 65536))
        b = r.randbytes(n)
    elif k < .2:
        b = b"\xff\xfb" + gen.v1(r) + gen.blob(r, 100)      # a tag, but not at the end
    elif k < .3:
        b = b"\0" + gen.tag(r).raw()
    elif k < .35:
        b = b"TAG"
    else:
        b = gen.audio(r)
    if b[:3] == b"ID3":
        b = b"x" + b
    for n, m in ((128, b"TAG"), (355, b"TAG+"), (227, b"TAG+")):
        if b[-n:][:len(m)] == m and len(b) >= n:
            b += b"\0"
    return b


def tags(r, n):
    return b"".join(gen.tag(r).raw() for _ in range(n))


def build(r, a=None):
    n = r.choice((0, 1, 1, 2, 3))
    front = tags(r, n)
    a = track(r) if a is None else a
    v = r.choice((b"", gen.v1(r, enh=False), gen.v1(r, enh=True)))
    if not v and len(a) < 128 and (front + a)[-128:-125] == b"TAG":
        a += b"y"
    if len(v) == 128 and r.random() < .1:
        # the last tag in front holds "TAG+" where an enhanced tag would begin
        a = a[:r.randrange(1, 220)]
        x = b"TAG+" + gen.blob(r, 40)
        n = 227 - len(a)
        if len(x) > n:
            x = x[:n]
        g = Tg(r.choice((3, 4)), [], 0)
        g.frames = [Fr(g.ver, "APIC", b"\0" * r.randrange(1, 60) + x.ljust(n, b"q"))]
        front += g.raw()
    return front, a, v


def facts(w, path, front, a, v, what):
    d = w.drv("fileinfo", hx(path))
    w.check(not is_ex(d), "cannot read a file", "%s: %r" % (what, d))
    w.eq(d["pos"], len(front), "start of the track", what)
    t = d["track"]
    w.eq(t["size"], len(a), "track size", "%s: tags %d, track %d, ID3v1 %d" % (what, len(front), len(a), len(v)))
    w.eq(ux(t["md5"]), hashlib.md5(a).digest(), "track MD5", what)
    w.eq(d["v1"] is not None, bool(v), "ID3v1 tag seen", what)
    return t


def one(w, no):
    r = w.rng
    d = w.dir()
    path = os.path.join(d, "a.mp3")
    front, a, v = build(r)
    put(path, front + a + v)
    facts(w, path, front, a, v, "file")
    w.count("files")
    w.seen("one", len(front) > 0, len(a) if len(a) < 400 else len(a) & ~1023, len(v), a[:3] == b"TAG")


def edited(w, no):
    """The same audio under any tags, and through edits of them"""
    r = w.rng
    d = w.dir()
    path = os.path.join(d, "a.mp3")
    front, a, v = build(r)
    put(path, front + a + v)
    t0 = facts(w, path, front, a, v, "at first")
    for i in range(r.choice((2, 4))):
        k = r.choice(("v2", "v2", "v1", "rm1", "none"))
        if k in ("v2", "none"):
            hs = []
            for j in range(0 if k == "none" else r.randint(1, 3)):
                w.drv("parse", j + 1, hx(gen.tag(r).raw()))
                hs.append(j + 1)
            x = (w.drv("rtcopy", hx(path), r.randrange(3), 0, *hs) if r.random() < .5 else
                 w.drv("rtmaybe", hx(path), r.randrange(3), r.randrange(2), 0, *hs))
        elif k == "v1":
            v = gen.v1(r)
            w.drv("v1parse", 1, hx(v), "whole")
            x = w.drv("v1replace", hx(path), 1)
        else:
            x = w.drv("v1remove", hx(path))
            v = b""
        w.check(not is_ex(x), "edit failed", "%s: %r" % (k, x))
        b = get(path)
        if not v and (b[-128:-125] == b"TAG" and len(a) < 128):
            return
        front = b[:len(b) - len(a) - len(v)]
        t = facts(w, path, front, a, v, "after %s" % k)
        w.eq((t["size"], t["md5"]), (t0["size"], t0["md5"]), "editing tags changed the track", k)
        w.count("edits")
        w.seen("edited", k, i, len(v), len(front) > 0)


def split(w, no):
    r = w.rng
    d = w.dir()
    out = os.path.join(w.scratch, "out")
    os.makedirs(out, exist_ok=True)
    src = os.path.join(d, "in")
    os.mkdir(src)
    cwd = os.path.join(d, "cwd")
    os.mkdir(cwd)
    path = os.path.join(src, r.choice(("a.mp3", "track", "x y", "ü")))
    parts = [gen.tag(r).raw() for _ in range(r.choice((0, 1, 1, 2, 3, 12)))]
    if r.random() < .2:
        parts = [old_tag(r) for _ in parts]
    _, a, v = build(r)
    if r.random() < .1:
        # nothing but a tag that ends as if in an ID3v1 tag
        a, v = b"", b""
        p = (b"TAG" if r.random() < .5 else b"\0\0\0").ljust(128, b"q")
        parts = [Tg(3, [Fr(3, "APIC", b"\0" * 40 + p)], 0).raw()]
    elif not v and (b"".join(parts) + a)[-128:-125] == b"TAG":
        a += b"y" * 128
    whole = b"".join(parts) + a + v
    put(path, whole)
    suf = r.choice((None, None, ".x", "-1", "é"))
    for x in ("other", "id3v2", "track.bak"):
        put(os.path.join(cwd, x), b"keep")
    x = w.drv("cli", hx(out), hx(cwd), 60, *map(hx, ["split"] + ([] if suf is None else ["--suffix=" + suf]) +
                                                [r.choice((path, os.path.relpath(path, cwd)))]))
    w.eq((x["rc"], x["sig"]), (0, 0), "split failed", "%r" % ux(x["err"])[-400:])
    got = {k: v[2] for k, v in snapshot(cwd).items()}
    for k in ("other", "id3v2", "track.bak"):
        w.eq(got.pop(k, None), b"keep", "another file", k)
    s = suf or ""
    want = {"id3v2%d%s" % (i, s): p for i, p in enumerate(parts)}
    want["track" + s] = a
    if v:
        want["id3v1" + s] = v
    w.eq(sorted(got), sorted(want), "pieces", "split")
    for k in want:
        w.check(got[k] == want[k], "piece " + k[:5], "%d bytes, want %d" % (len(got[k]), len(want[k])))
    w.eq(get(path), whole, "split changed its input", "")
    w.count("splits")
    w.seen("split", len(parts), len(a) if len(a) < 400 else 400, len(v), s)


def large(w, no):
    """Tracks beyond the buffer they're read with"""
    r = w.rng
    d = w.dir()
    path = os.path.join(d, "a.mp3")
    M = 4 * 1024 * 1024
    n = r.choice((M - 1, M, M + 1, 2 * M, 2 * M + 1, M + 128, r.randint(M, 3 * M)))
    a = b"\xff" + r.randbytes(n - 2) + b"z"
    if a[-128:-125] == b"TAG":
        return
    front, v = tags(r, r.randrange(3)), r.choice((b"", gen.v1(r, enh=False), gen.v1(r, enh=True)))
    put(path, front + a + v)
    facts(w, path, front, a, v, "large")
    w.seen("large", n, len(v))
    w.count("large_files")


if __name__ == "__main__":
    sys.exit(Check("C12", [("one", one, 4000, 80000), ("edited", edited, 1500, 20000), ("split", split, 700, 10000), ("large", large, 40, 400)],
                   "distinct (tags in front, track length, ID3v1 kind), edits and splits seen", cli=True).main())
