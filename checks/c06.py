"""C06: editing a tag in memory behaves like editing a list of frames."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "lib"))
from vlib import *
from edit import *


def begin(w, ver=None, h=1):
    r = w.rng
    h == 1 and w.drv("reset")
    if r.random() < .6:
        t = gen.tag(r, ver, footer=False)
        for f in t.frames:
            f.cmp = False
        if t.ext:
            t.ext["crc"] = None
        x = w.drv("parse", h, hx(t.raw()))
        w.check(not is_ex(x) and x["present"], "parse", "%r" % (x,))
    else:
        ver = ver or r.choice((2, 3, 4))
        t = gen.Tg(ver, [], r.choice((0, 7, 300)))
        t.unsync = None
        w.drv("new", h, ver, t.pad)
    return Ed(w, h, t)


def verify(w, e, pre):
    d = w.drv("dump", e.h)
    w.check(not is_ex(d), "dump", "%r" % (d,))
    u = copy.copy(e.t)
    u.unsync = None
    check_tag(w, d, u, pre)


def history(w, no):
    e = begin(w)
    n = w.rng.randint(2, 14)
    for i in range(n):
        e.step()
        if w.rng.random() < .6 or i == n - 1:
            verify(w, e, "v2.%d after %s" % (e.t.ver, ",".join(e.log)))
    w.seen(e.t.ver, tuple(e.log))
    w.count("edits", n)
    w.sample({"version": e.t.ver, "edits": e.log, "frames": [f.id for f in e.t.frames]})


def dense(w, no):
    """insertions and erasures among frames of the indexed kinds"""
    r = w.rng
    e = begin(w)
    e.t.frames or e.step(("push",))
    for i in range(r.randint(10, 40)):
        n = len(e.t.frames)
        k = r.random()
        f = plain(r, e.t.ver, ("text", "comm", "pcnt", "popm"))
        if k < .5 or not n:
            i = r.randint(0, n)
            x = ok(w, w.drv("insert", 1, r.randrange(2), i, *spec(f)), "insert")
            w.eq(x["at"], i, "iterator returned by insert")
            e.t.frames.insert(i, f)
        elif k < .6:
            i = r.randrange(n)
            ok(w, w.drv("replace", 1, r.randrange(2), i, *spec(f)), "replace")
            e.t.frames[i] = f
        elif k < .8:
            i = r.randrange(n)
            w.eq(ok(w, w.drv("erase", 1, i), "erase")["at"], i, "iterator returned by erase")
            del e.t.frames[i]
        else:
            e.step(("settext", "deltext", "mutate", "addcomment"))
        w.count("edits")
        if r.random() < .3:
            verify(w, e, "v2.%d" % e.t.ver)
    verify(w, e, "v2.%d" % e.t.ver)
    w.seen(e.t.ver, tuple(f.id for f in e.t.frames))


def fields(w, no):
    """every text field: set, set again, delete, by every name"""
    r = w.rng
    n = int(no.split(":")[1])
    e = begin(w, 2 + n % 3)
    names = list(NAMES) + list(FIELDS)
    name = names[n // 3 % len(names)]
    for i in range(r.randint(2, 4)):
        e.settext(name, words(r, e.t.ver), "set %d of %s" % (i, name))
        verify(w, e, "set %s" % name)
        if name in FIELDS and any(f.id == field_id(e.t.ver, name) for f in e.t.frames):
            x = w.drv("gettext", 1, name)
            w.check(not is_ex(x), "text accessor", "%s: %r" % (name, x))
            have = [facts(f)["str"] for f in e.t.frames if f.id == field_id(e.t.ver, name)]
            w.check(any(text_ok(S(x["v"]), h) for h in have), "text accessor", "%s: %r, tag holds %r" % (name, S(x["v"]), have))
    if name in FIELDS:
        e.deltext(name, "delete %s" % name)
        verify(w, e, "delete %s" % name)
    if r.random() < .5:
        e.settext(name, words(r, e.t.ver), "set %s after deleting" % name)
        verify(w, e, "set %s" % name)
    w.count("edits", 3)
    w.seen(e.t.ver, name)


def two(w, no):
    """frames change places, within a tag and between two"""
    r = w.rng
    ver = r.choice((2, 3, 4))
    es = [begin(w, ver, 1), begin(w, ver, 2)]
    for e in es:
        for i in range(r.randint(0, 3)):
            e.step(("push", "insert", "settext", "addcomment"))
    for i in range(r.randint(1, 5)):
        d, s = r.choice(es), r.choice(es)
        if not d.t.frames or not s.t.frames:
            d.step(("push", "settext"))
            continue
        i, j = r.randrange(len(d.t.frames)), r.randrange(len(s.t.frames))
        ok(w, w.drv("move", d.h, i, s.h, j), "move")
        d.t.frames[i], s.t.frames[j] = s.t.frames[j], d.t.frames[i]
        w.count("frames exchanged between tags" if d is not s else "frames exchanged within a tag")
        if r.random() < .5:
            r.choice(es).step()
        for e in es:
            verify(w, e, "v2.%d, tag %d after exchanging frames" % (ver, e.h))
    w.seen(ver, *(tuple(f.id for f in e.t.frames) for e in es))


C = Check("C06", [("history", history, 12000, 100000), ("two", two, 1500, 12000), ("dense", dense, 2000, 16000), ("fields", fields, 1080, 8000)],
          "distinct (version, sequence of edits or resulting frame ids), each compared with a list model after its steps: frames, order, and every lookup and accessor")
if __name__ == "__main__":
    sys.exit(C.main())
