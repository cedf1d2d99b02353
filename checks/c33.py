#!/usr/bin/env python3
"""C33: tags and frames made and shown in Scheme hold and show what they were given"""
import os
import sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import c23
from c23 import *

CHARS = "abcXYZ 019-_()<>\"\\,~&=%#'äéß日本\U0001f3b5\n\t"


class B(bytes):
    pass


class Sym(str):
    pass


def text(r):
    if r.random() < .01:
        return "".join(r.choice(CHARS) for _ in range(r.choice((300, 3000))))
    return "".join(r.choice(CHARS) for _ in range(r.choice((0, 1, 3, 3, 8, 20))))


def num(r):
    return r.choice((0, 1, 9, 255, 256, 65535, 1 << 32, (1 << 64) - 1, r.randrange(1000)))


def blob(r):
    return B(r.choice((0, 1, 31, 32, 65, 126, 127, 128, 255, r.randrange(256))) for _ in range(r.choice((0, 1, 2, 7, 8, 9, 16, 40, 300))))


def cloud(r):
    return [[text(r) for _ in range(r.choice((1, 1, 2, 4)))] for _ in range(r.choice((0, 1, 2, 3, 6)))]


def flag(r):
    return r.random() < .5


def sid(r):
    return Sym(r.choice(list(SYM4.values())) + "-frame")


BASE = {"id": (sid, Sym("unknown-frame")), "tap": (flag, []), "fap": (flag, []), "ro": (flag, []), "unsync": (flag, [])}
# slot: (some value, what it is when it's not given)
FRAMES = {
    "<unk-frame>": {"id-text": (text, ""), "data": (blob, B())},
    "<text-frame>": {"text": (text, "")},
    "<comment-frame>": {"lang": (lambda r: r.choice(("eng", "fra", "zza", "abk")), "eng"), "dsc": (text, ""), "text": (text, "")},
    "<user-defined-text-frame>": {"dsc": (text, ""), "text": (text, "")},
    "<play-count-frame>": {"count": (num, 0)},
    "<popm-frame>": {"e-mail": (text, ""), "rating": (lambda r: r.randrange(256), 0), "count": (num, 0)},
    "<tag-cloud-frame>": {"owner": (text, ""), "tags": (cloud, [])},
}
V1 = {"title": (text, ""), "artist": (text, ""), "album": (text, ""), "year": (num, []), "comment": (text, ""), "genre": (lambda r: r.randrange(256), 255),
      "track-no": (lambda r: r.randrange(256), []), "enh-genre": (text, ""), "speed": (lambda r: r.randrange(5), []), "start-time": (text, ""), "end-time": (text, "")}
KEY = {"id-text": "frameid"}


def lit(v):
    """Scheme for V"""
    if isinstance(v, bool):
        return "#t" if v else "#f"
    if isinstance(v, Sym):
        return "'" + v
    if isinstance(v, str):
        return sstr(v)
    if isinstance(v, bytes):
        return sbv(v)
    if isinstance(v, int):
        return str(v)
    return "(list %s)" % " ".join(map(lit, v)) if v else "'()"


def sent(v):
    """V as the driver sends it"""
    if isinstance(v, Sym):
        return {"sym": str(v)}
    if isinstance(v, bytes):
        return {"bv": v.hex()}
    if isinstance(v, list):
        return [sent(x) for x in v]
    return v


class Obj:
    def __init__(self, cls, slots, r):
        self.cls, self.slots = cls, slots
        self.v, given = {}, []
        for k, (f, d) in slots.items():
            if r.random() < .6:
                self.v[k] = f(r)
                given.append(k)
            else:
                self.v[k] = d
        r.shuffle(given)
        self.made = "(make %s%s)" % (cls, "".join(" #:%s %s" % (KEY.get(k, k), lit(self.v[k])) for k in given))

    def shape(self):
        return (self.cls, tuple(sorted(k for k in self.v if self.v[k] not in ("", [], 0))))

    def facts(self):
        return dict({k: sent(v) for k, v in self.v.items()}, cls=self.cls)


def frame(r, cls=None):
    cls = cls or r.choice(sorted(FRAMES))
    s = dict(BASE, **FRAMES[cls])
    return Obj(cls, s, r)


def written(v):
    """V as Guile writes it (for the driver)"""
    return '(format #f "~s" %s)' % lit(v)


def hexes(b):
    b = bytes(b)[:8]
    return "{%s <%s>}" % ("".join("%02x " % x for x in b), "".join(chr(x) if 31 < x < 127 else "." for x in b))


def shown(w, cls, v):
    """What displaying an object of class CLS with slots V must show"""
    ask = lambda e: w.drv.batch([e])[0]
    if cls == "<id3v1-tag>":
        return "<id3v1-tag %s - %s>" % (v["artist"], v["title"])
    if cls == "<unk-frame>":
        return "<unk-frame %s %s>" % (ask(written(v["id-text"])), hexes(v["data"]))
    if cls == "<text-frame>":
        return "<%s %s>" % (v["id"], ask(written(v["text"])))
    if cls == "<comment-frame>":
        return "<comment (%s, %s) %s>" % (v["lang"], v["dsc"], v["text"])
    if cls == "<user-defined-text-frame>":
        return "<user-defined-text %s>" % v["dsc"]
    if cls == "<play-count-frame>":
        return "<play-count %d>" % v["count"]
    if cls == "<popm-frame>":
        return "<popularimeter %s, %d, %d>" % (v["e-mail"], v["rating"], v["count"])
    if cls == "<tag-cloud-frame>":
        return "<tag cloud (%s) %s>" % (v["owner"], ask('(format #f "~a" %s)' % lit(v["tags"])))
    a = [f["text"] for f in v["frames"] if f["id"] == "artist-frame"]
    t = [f["text"] for f in v["frames"] if f["id"] == "title-frame"]
    return "<id3v2-tag %s - %s (%d bytes padding)>" % (a[0] if a else "", t[0] if t else "", v["padding"])


WAYS = ("(with-output-to-string (lambda () (display %s)))", "(call-with-output-string (lambda (p) (display %s p)))", '(format #f "~a" %s)')


def show(w, e, cls, v, what):
    before = w.drv.batch([e])[0]
    want = shown(w, cls, v)
    for i, x in enumerate(w.drv.batch([way % e for way in WAYS])):
        w.check(isinstance(x, str), "can't be displayed", "%r: %s" % (x, what))
        w.eq(x, want, "displayed", what)
    w.eq(w.drv.batch([e])[0], before, "displaying changed it", what)
    w.count("displays", len(WAYS))


def objects(w, no):
    """Some objects, made and changed in turn: each must be its own"""
    r = w.rng
    os_ = [Obj("<id3v1-tag>", V1, r) if r.random() < .25 else frame(r) for _ in range(r.choice((1, 2, 3)))]
    if len(os_) > 1 and r.random() < .5:
        os_[1] = Obj(os_[0].cls, os_[0].slots, r)
    w.drv.batch(["(begin (set! V (vector %s)) 0)" % " ".join(o.made for o in os_)])
    for step in range(r.choice((1, 2, 4))):
        for i, o in enumerate(os_):
            e = "(vector-ref V %d)" % i
            what = "%s, step %d of %r" % (o.made[:1500], step, [p.cls for p in os_])
            x = w.drv.batch([e])[0]
            w.check(not is_ex(x), "can't be made", "%r: %s" % (x, what))
            w.eq(x, o.facts(), "values held", what)
            show(w, e, o.cls, o.v, what)
            w.seen(o.shape(), step)
        o = r.choice(os_)
        k = r.choice(sorted(o.slots))
        o.v[k] = o.slots[k][0](r)
        w.drv.batch(["(begin (slot-set! (vector-ref V %d) '%s %s) 0)" % (os_.index(o), k, lit(o.v[k]))])
    w.count("objects", len(os_))
    w.sample({"made": [o.made[:200] for o in os_]})


def tags(w, no):
    """Tags, with several frames that could be the artist or title"""
    r = w.rng
    fs = []
    for _ in range(r.choice((0, 1, 2, 4, 9))):
        f = frame(r, "<text-frame>" if r.random() < .6 else None)
        if f.cls == "<text-frame>" and r.random() < .7:
            f.v["id"] = Sym(r.choice(("artist-frame", "title-frame", "title-frame", "band-frame", "original-artist-frame", "subtitle-frame")))
        elif f.cls != "<text-frame>":
            f.v["id"] = Sym("unknown-frame")
        f.made = "(make %s%s)" % (f.cls, "".join(" #:%s %s" % (KEY.get(k, k), lit(f.v[k])) for k in f.v))
        fs.append(f)
    pad, exp = r.choice((None, 0, 1, 10, 1024, 1 << 27)), r.choice((None, True, False))
    e = "(make <id3v2-tag>%s%s%s)" % (" #:frames (list %s)" % " ".join(f.made for f in fs) if fs or r.random() < .5 else "",
                                      "" if pad is None else " #:padding %d" % pad, "" if exp is None else " #:experimental " + lit(exp))
    w.drv.batch(["(begin (set! V %s) 0)" % e])
    x = w.drv.batch(["V"])[0]
    w.eq(x, {"cls": "<id3v2-tag>", "experimental": [] if exp is None else exp, "padding": pad or 0, "frames": [f.facts() for f in fs]}, "values held", e[:1500])
    show(w, "V", "<id3v2-tag>", {"frames": [f.v for f in fs], "padding": pad or 0}, e[:1500])
    for i, f in enumerate(fs):
        show(w, "(list-ref (slot-ref V 'frames) %d)" % i, f.cls, f.v, e[:1500])
    if fs:
        j = r.randrange(len(fs))
        w.drv.batch(["(begin (slot-set! V 'frames (reverse (slot-ref V 'frames))) 0)"])
        show(w, "V", "<id3v2-tag>", {"frames": [f.v for f in fs[::-1]], "padding": pad or 0}, "reversed: " + e[:1500])
        w.drv.batch(["(begin (slot-set! V 'frames (list-head (slot-ref V 'frames) %d)) 0)" % j])
        show(w, "V", "<id3v2-tag>", {"frames": [f.v for f in fs[::-1][:j]], "padding": pad or 0}, "cut to %d: %s" % (j, e[:1500]))
    w.seen("tag", tuple(f.cls + f.v["id"] for f in fs), pad, exp)


def back(x):
    """A value sent by the driver"""
    if isinstance(x, dict) and "sym" in x:
        return Sym(x["sym"])
    if isinstance(x, dict) and "bv" in x:
        return B(ux(x["bv"]))
    return x


def files(w, no):
    """Tags as read from files"""
    c = Case(w, no)
    x = c.read(w)
    for i, (t, _, _) in enumerate(x):
        fs = [{k: back(v) for k, v in f.items()} for f in t["frames"]]
        show(w, "(tag %d)" % i, "<id3v2-tag>", {"frames": fs, "padding": t["padding"]}, c.what)
        for j, f in enumerate(fs):
            if f["cls"] != "<tag-cloud-frame>":
                show(w, "(frame %d %d)" % (i, j), f["cls"], f, c.what)
    v = w.drv.batch(["(begin (set! V (read-id3v1-tag %s)) V)" % sstr(c.path)])[0]
    if isinstance(v, dict) and v.get("cls") == "<id3v1-tag>":
        show(w, "V", "<id3v1-tag>", v, c.what)
        w.count("v1")
    w.count("files")
    w.seen("file", [[f["cls"] for f in t[0]["frames"]] for t in x])


if __name__ == "__main__":
    sys.exit(Check("C33", [("objects", objects, 1200, 40000), ("tags", tags, 600, 20000), ("files", files, 500, 20000)],
                   "distinct objects (class, slots that hold something, step), tags (frames, padding) and files shown",
                   exe_builder=build, env=ENV, assumptions=["Guile itself, whose way of writing strings is taken as given, is not instrumented"]).main())
