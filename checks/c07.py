"""C07: copies of tags and frames are equal and independent."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "lib"))
from vlib import *
from edit import *


def look(w, h):
    """Everything tag H shows of itself"""
    o = {"dump": w.drv("dump", h)}
    for f in ("csv", "std", "json", "tdf"):
        o[f] = w.drv("print", f, h)
    o["w0"], o["w1"] = w.drv("write", h, 0), w.drv("write", h, 1)
    o["dump2"] = w.drv("dump", h)
    return o


def same(w, a, b, key, pre):
    for k in a:
        if k == "dump" and isinstance(a[k], dict) and "ext" in a[k] and "crc" in a[k].get("ext", {}):
            continue                # a stale checksum is brought up to date by writing
        w.eq(b[k], a[k], key + " (" + k + ")", pre)


def source(w, h, footer=True):
    r = w.rng
    if r.random() < .75:
        t = gen.tag(r, footer=footer)
        x = w.drv("parse", h, hx(t.raw()))
        w.check(not is_ex(x) and x["present"], "parse", "%r" % (x,))
    else:
        t = gen.Tg(r.choice((2, 3, 4)), [], r.choice((0, 50)))
        ext = r.randrange(3) if t.ver == 3 else 0
        w.drv("new", h, t.ver, t.pad, ext)
        if ext:
            t.ext = {"pad": t.pad, "crc": None if ext == 1 else 0}
    t.unsync = None
    return t


def dup(t):
    u = copy.copy(t)
    u.frames = [copy.copy(f) for f in t.frames]
    u.ext = dict(t.ext) if t.ext else None
    return u


def make_copy(w, src, dst, t):
    """Copy tag SRC to DST, one way or another"""
    r = w.rng
    if r.random() < .5:
        ok(w, w.drv("clone", src, dst), "clone")
        return "clone"
    # assign over a tag that already has contents
    for _ in range(30):
        u = gen.tag(r, t.ver)
        x = w.drv("parse", dst, hx(u.raw()))
        break
    if r.random() < .3:
        w.drv("new", dst, t.ver, r.choice((0, 9)), r.randrange(3) if t.ver == 3 else 0)
    else:
        Ed(w, dst, u).step(("push", "insert", "settext", "pad")) if r.random() < .5 else None
    ok(w, w.drv("assign", src, dst), "assign")
    return "assign"


def tags(w, no):
    r = w.rng
    w.drv("reset")
    t = source(w, 1, footer=False)
    a = Ed(w, 1, t)
    for _ in range(r.choice((0, 0, 1, 4))):
        a.step()
    if r.random() < .4:
        w.drv("write", 1, r.randrange(2))
    how = make_copy(w, 1, 2, t)
    b = Ed(w, 2, dup(t))
    p = "v2.%d %s" % (t.ver, how)
    x, y = look(w, 1), look(w, 2)
    same(w, x, y, "copy differs", p)
    w.count("copies")
    # edit one, the other stays; several rounds
    for k in range(r.randint(1, 3)):
        e, o, ho = (a, 2, 2) if r.random() < .5 else (b, 1, 1)
        before = look(w, ho)
        for _ in range(r.randint(1, 4)):
            e.step()
        after = look(w, ho)
        for q in before:
            if q != "dump":
                w.eq(after[q], before[q], "edit leaked into the copy (%s)" % q, "%s: %s" % (p, e.log))
        d = w.drv("dump", e.h)
        u = copy.copy(e.t)
        u.unsync = None
        if u.ext:
            u.ext = dict(u.ext, crc=d["ext"].get("crc") if u.ext["crc"] is not None else None)
        check_tag(w, d, u, p + " edited")
        w.count("independence rounds")
    # drop one, use the other
    gone, e = (1, b) if r.random() < .5 else (2, a)
    before = look(w, e.h)
    w.drv("drop", gone)
    after = look(w, e.h)
    for q in before:
        if q != "dump":
            w.eq(after[q], before[q], "destroying one copy changed the other (%s)" % q, p)
    e.step()
    d = w.drv("dump", e.h)
    u = copy.copy(e.t)
    u.unsync = None
    if u.ext:
        u.ext = dict(u.ext, crc=d["ext"].get("crc") if u.ext["crc"] is not None else None)
    check_tag(w, d, u, p + " survivor")
    w.seen(shape(t), how, tuple(a.log), tuple(b.log))
    w.sample({"how": how, "frames": [f.id for f in t.frames], "edits": [a.log, b.log]})


def selfassign(w, no):
    w.drv("reset")
    t = source(w, 1)
    x = look(w, 1)
    ok(w, w.drv("assign", 1, 1), "assign")
    same(w, x, look(w, 1), "self-assignment changed the tag", "v2.%d" % t.ver)
    w.seen("self", shape(t))


def frames(w, no):
    r = w.rng
    w.drv("reset")
    t = gen.tag(r, maxframes=12)
    x = w.drv("parse", 1, hx(t.raw()))
    w.check(not is_ex(x) and x["present"], "parse", "%r" % (x,))
    if r.random() < .3:
        w.drv("write", 1, r.randrange(2))
    for i, f in enumerate(t.frames):
        z = w.drv("fclone", 1, i)
        w.check(not is_ex(z), "clone", "%r" % (z,))
        w.eq(z["b"], z["a"], "cloned frame differs", f.id)
        check_frame(w, z["b"], f, "clone of")
        w.count("frames cloned")
        w.seen(f.ver, f.kind, f.cmp, f.gid is not None, f.unsync, f.tap, f.ro, len(f.payload))


def v1(w, no):
    r = w.rng
    w.drv("reset")
    v11, enh = r.random() < .5, r.random() < .4
    raw = gen.v1(r, v11, enh)
    x = w.drv("v1parse", 1, hx(gen.audio(r, 40) + raw), "process")
    w.check(not is_ex(x) and x["present"], "v1 parse", "%r" % (x,))

    def see(h):
        return [w.drv("v1dump", h), w.drv("v1write", h), w.drv("printv1", "std", h), w.drv("printv1", "json", h)]
    if r.random() < .5:
        w.drv("v1copy", 1, 2)
    else:
        w.drv("v1new", 2, r.randrange(2), r.randrange(2))
        w.drv("v1assign", 1, 2)
    a = see(1)
    w.eq(see(2), a, "copy of an ID3v1 tag differs", raw.hex())
    h = r.choice((1, 2))
    for _ in range(r.randint(1, 3)):
        f = r.choice(("title", "artist", "album", "comment", "year", "genre"))
        ok(w, w.drv("v1set", h, f, r.randrange(200) if f == "genre" else hx(gen.asc(r, 20)) if f != "year" else hx("19%02d" % r.randrange(100))), f)
    w.eq(see(3 - h), a, "edit leaked into the copy of an ID3v1 tag", raw.hex())
    w.drv("v1assign", 3 - h, h)
    w.eq(see(h), a, "assigned ID3v1 tag differs", raw.hex())
    w.count("copies")
    w.seen("v1", v11, enh, raw)


C = Check("C07", [("tags", tags, 4000, 40000), ("selfassign", selfassign, 300, 3000), ("frames", frames, 2500, 25000),
                  ("v1", v1, 1500, 15000)],
          "distinct (tag layout, way of copying, edits after the copy) in which every reading, printing and serialisation of both objects was compared")
if __name__ == "__main__":
    sys.exit(C.main())
