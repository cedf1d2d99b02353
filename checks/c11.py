"""C11: ID3v1 tags round-trip and are edited without touching the audio."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "lib"))
from vlib import *
from files import *
import gen

LONG = ("title", "artist", "album")


class V1:
    """An ID3v1 tag by the book"""
    def __init__(self, v11, enh):
        self.v11, self.enh = v11, enh
        n = 90 if enh else 30
        self.f = {k: b"\0" * n for k in LONG}
        self.f.update(year=b"\0" * 4, comment=b"\0" * (28 if v11 else 30), enh_genre=b"\0" * (30 if enh else 0),
                      start_time=b"\0" * 6, end_time=b"\0" * 6)
        self.genre = self.speed = self.track = 0

    @staticmethod
    def parse(b):
        s = b[-128:]
        v11 = s[125] == 0 and s[126] != 0
        t = V1(v11, len(b) == 355)
        x = b[:-128]
        for i, k in enumerate(LONG):
            t.f[k] = s[3 + 30 * i:33 + 30 * i] + (x[4 + 60 * i:64 + 60 * i] if t.enh else b"")
        t.f["year"] = s[93:97]
        t.f["comment"] = s[97:125 if v11 else 127]
        t.track = s[126] if v11 else 0
        t.genre = s[127]
        if t.enh:
            t.speed = x[184]
            t.f["enh_genre"], t.f["start_time"], t.f["end_time"] = x[185:215], x[215:221], x[221:227]
        return t

    def raw(self):
        b = b""
        if self.enh:
            b = (b"TAG+" + b"".join(self.f[k][30:] for k in LONG) + bytes([self.speed]) + self.f["enh_genre"] +
                 self.f["start_time"] + self.f["end_time"])
        c = self.f["comment"] + (bytes([0, self.track]) if self.v11 else b"")
        return b + b"TAG" + b"".join(self.f[k][:30] for k in LONG) + self.f["year"] + c + bytes([self.genre])

    def extend(self):
        self.enh = True
        for k in LONG:
            self.f[k] = self.f[k].ljust(90, b"\0")
        self.f["enh_genre"] = self.f["enh_genre"].ljust(30, b"\0")

    def set(self, k, v):
        if k in LONG:
            n = 90 if self.enh else 30
        else:
            n = {"year": 4, "comment": 28 if self.v11 else 30, "enh_genre": 30, "start_time": 6, "end_time": 6}[k]
        self.f[k] = v[:n].ljust(n, b"\0")
        if k in ("enh_genre", "start_time", "end_time"):
            self.extend()


def judge(w, d, t, what):
    w.check(not is_ex(d), "tag cannot be read", "%s: %r" % (what, d))
    for k, v in t.f.items():
        if not t.enh and k in ("enh_genre", "start_time", "end_time"):
            continue
        w.eq(ux(d[k]), v, "field " + k, what)
        if isinstance(d.get(k + "_s"), str):
            w.eq(ux(d[k + "_s"]).rstrip(b"\0 "), v.rstrip(b"\0 ").decode("latin-1").encode(), "text of " + k, what)
    w.eq((d["enh"], d["ext"], d["v11"]), (t.enh, t.enh, t.v11), "kind of tag", what)
    w.eq(d["size"], 355 if t.enh else 128, "size", what)
    w.eq(d["genre"], t.genre, "genre", what)
    w.eq(d["has_track"], t.v11, "has a track number", what)
    if t.v11:
        w.eq(d["track"], t.track, "track number", what)
    w.eq(d["has_speed"], t.enh, "has a speed", what)
    if t.enh:
        w.eq(d["speed"], t.speed, "speed", what)


def written(w, h, t, what):
    x = w.drv("v1write", h)
    w.check(not is_ex(x) and x["good"], "write failed", "%s: %r" % (what, x))
    w.eq(ux(x["out"]), t.raw(), "serialised tag", what)
    return ux(x["out"])


def anytag(r):
    """The bytes of a tag with any field bytes at all"""
    m = r.random()
    if m < .5:
        return gen.v1(r)
    b = bytearray(gen.blob(r, 600).ljust(355, b"\0")[:355] if m < .75 else r.randbytes(355))
    b[:4] = b"TAG+"
    b[227:230] = b"TAG"
    if r.random() < .4:
        b[-3] = 0
    if r.random() < .2:
        b[-2] = 0
    return bytes(b) if r.random() < .5 else bytes(b[227:])


def read(w, no):
    """Bytes -> fields -> the same bytes, whichever way they are read"""
    r = w.rng
    b = anytag(r)
    t = V1.parse(b)
    mode = r.choice(("process", "process", "whole", "enh" if t.enh else "std"))
    pre = b""
    if mode == "process":
        pre = rest(r, .01)
        if len(pre) >= 227 and pre[-227:-223] == b"TAG+":
            pre += b"x"
        if split_front(pre + b) > len(pre):
            # what looks like an ID3v2 tag takes in the beginning of the ID3v1 tag
            pre = b"\0" + pre
    elif mode in ("std", "enh"):
        pass
    data = pre + b + (gen.blob(r, 30) if mode in ("std", "enh") else b"")
    x = w.drv("v1parse", 1, hx(data), mode)
    w.check(not is_ex(x) and x["present"], "tag not found", "%s: %r" % (mode, x))
    judge(w, w.drv("v1dump", 1), t, mode)
    w.eq(written(w, 1, t, mode), b, "re-serialised tag", mode)
    w.seen("read", mode, t.enh, t.v11, t.genre, t.track > 127, [len(v.rstrip(b"\0")) for v in t.f.values()])
    w.count("reads")


def inside(w, no):
    """Parts of an ID3v2 tag where an ID3v1 tag would be"""
    r = w.rng
    b = anytag(r) if r.random() < .4 else b""
    t = b and V1.parse(b)
    enh = bool(b) and len(b) == 128
    at, mark = (355, b"TAG+") if enh else (128, b"TAG")
    back = at - len(b)             # from the end of what precedes the tag
    if back <= 0:
        return
    a = rest(r, .01)[:r.randrange(back - 30)] if back > 40 else b""
    if split_front(a + b):
        a = b"x" + a
    ver = r.choice((2, 3, 4))
    body = bytearray(r.randrange(1, 128) for _ in range(r.choice((400, 600))))
    i = len(body) - (back - len(a))
    body[i:i + len(mark)] = mark
    name = "XTG" if ver == 2 else "XTAG" if r.random() < .5 else "XABC"
    if name == "XTAG" and mark == b"TAG" and r.random() < .7:
        # the frame's own name, in a tag of two frames
        body = bytearray(r.randrange(1, 128) for _ in range(back - len(a) - 9))
        tg = gen.Tg(ver, [gen.Fr(ver, "TIT2", b"\0" + b"x" * r.randrange(200)), gen.Fr(ver, name, bytes(body))], 0)
    else:
        tg = gen.Tg(ver, [gen.Fr(ver, name, bytes(body))], 0)
    data = tg.raw() + a + b
    w.eq(data[-at:-at + len(mark)], mark, "mistake in the check", "")
    x = w.drv("v1parse", 1, hx(data), "process")
    what = "%d bytes of v2.%d tag, %d after it, %d of ID3v1 tag" % (len(tg.raw()), ver, len(a), len(b))
    w.check(not is_ex(x), "looking for a tag failed", "%s: %r" % (what, x))
    w.eq(x["present"], bool(b), "part of an ID3v2 tag taken for an ID3v1 tag" if not b else "tag not found", what)
    if b:
        judge(w, w.drv("v1dump", 1), t, what)
        w.eq(written(w, 1, t, what), b, "re-serialised tag", what)
    w.seen("inside", ver, at, len(a) > 0, name, bool(b))
    w.count("look_alikes")


def absent(w, no):
    """No tag where there is none"""
    r = w.rng
    n = r.choice((0, 1, 2, 3, 125, 126, 127, 128, 129, 226, 227, 354, 355, 356, 500, r.randint(0, 600)))
    b = bytearray(r.randbytes(n))
    k = r.random()
    at = r.choice((127, 129, 354, 356, 355, 0, 3, 4, 227, 228))
    if k < .7 and n >= at:
        m = r.choice((b"TAG", b"TAG+", b"TA", b"tag"))
        b[n - at:n - at + len(m)] = m[:at]
    if len(b) >= 128 and b[-128:-125] == b"TAG":
        b[-128] = 0x55
    x = w.drv("v1parse", 1, hx(bytes(b)), "process")
    w.check(not is_ex(x), "looking for a tag failed", "%d bytes: %r" % (n, x))
    w.eq(x["present"], False, "found a tag where there is none", "%d bytes" % n)
    for mode in ("whole", "std", "enh"):
        if mode == "std" and b[:3] == b"TAG" and n >= 128 or mode == "enh" and n >= 355 and b[:4] == b"TAG+" and b[227:230] == b"TAG":
            continue
        if mode == "whole" and (n == 128 and b[:3] == b"TAG" or n == 355 and b[:4] == b"TAG+" and b[227:230] == b"TAG"):
            continue
        x = w.drv("v1parse", 1, hx(bytes(b)), mode)
        w.check(is_ex(x), "read a tag where there is none", "%s, %d bytes" % (mode, n))
    w.seen("absent", n if n < 360 else 0, at)


def edit(w, no):
    """From scratch or read, then any sequence of setters and copies"""
    r = w.rng
    if r.random() < .6:
        v11, enh = r.random() < .5, r.random() < .4
        w.drv("v1new", 1, int(v11), int(enh))
        t = V1(v11, enh)
    else:
        b = anytag(r)
        t = V1.parse(b)
        w.drv("v1parse", 1, hx(b), "whole")
    judge(w, w.drv("v1dump", 1), t, "at first")
    h, log = 1, []
    for _ in range(r.choice((1, 3, 6, 12))):
        k = r.choice(LONG + LONG + ("year", "comment", "comment", "enh_genre", "start_time", "end_time", "genre", "speed", "track", "copy"))
        if r.random() < .5 and k in ("enh_genre", "start_time", "end_time", "speed"):
            continue
        if k in ("genre", "speed", "track"):
            v = r.choice((0, 1, 127, 128, 255, r.randrange(256)))
            if k == "track":
                v = v or 1
            w.drv("v1set", h, k, v)
            setattr(t, k, v)
            if k == "speed":
                t.extend()
            elif k == "track":
                t.v11 = True
                t.f["comment"] = t.f["comment"][:28]
        elif k == "copy":
            h2 = 3 - h
            if r.random() < .5:
                w.drv("v1copy", h, h2)
            else:
                w.drv("v1new", h2, r.randrange(2), r.randrange(2))
                w.drv("v1assign", h, h2)
            # the original goes its own way
            w.drv("v1set", h, "title", hx(b"gone"))
            w.drv("v1set", h, "genre", 7)
            h = h2
            v = ""
        else:
            n = r.choice((0, 1, 3, 4, 5, 6, 7, 27, 28, 29, 30, 31, 59, 60, 89, 90, 91, 200))
            s = "".join(chr(r.choice((0x41, 0x62, 0x20, 0xe9, 0xff, r.randrange(1, 256)))) for _ in range(n))
            if k in ("year", "start_time", "end_time"):
                v = s.encode("latin-1")
                w.drv("v1set", h, k, hx(v))
            else:
                # trailing blanks of what's to be set mean nothing
                s = s.rstrip("\0 ")
                v = s.encode("latin-1")
                x = w.drv("v1set", h, k, hx(s.encode()))
                w.check(not is_ex(x), "cannot set a field", "%s=%r: %r" % (k, s, x))
            t.set(k, v)
        log.append((k, v))
        judge(w, w.drv("v1dump", h), t, "after %r" % log[-3:])
    b = written(w, h, t, "after %r" % log[-3:])
    if t.v11 and not t.track:
        return
    if not t.v11 and t.f["comment"][28] == 0 and t.f["comment"][29]:
        return
    x = w.drv("v1parse", 3, hx(gen.audio(r) + b), "process")
    w.check(not is_ex(x) and x["present"], "tag not found", "round trip: %r" % x)
    judge(w, w.drv("v1dump", 3), t, "round trip after %r" % log[-3:])
    # text the field cannot hold leaves it be
    x = w.drv("v1set", h, r.choice(LONG), hx("日本".encode()))
    if is_ex(x):
        judge(w, w.drv("v1dump", h), t, "after a failure")
    w.seen("edit", t.enh, t.v11, [k for k, v in log], len(log))
    w.count("edits", len(log))


def ondisk(w, no):
    """Sequences of replacements and removals in a file"""
    r = w.rng
    path = os.path.join(w.dir(), r.choice(("a.mp3", "x y", "ü.mp3")))
    body = r.choice((b"", gen.file_bytes(r, v1p=0)[0], gen.audio(r), r.randbytes(r.choice((126, 127, 128, 227, 228, 8192, 70000)))))
    if body[-128:-125] == b"TAG":
        body = body + b"x"
    if body[-227:-223] == b"TAG+" or body[-355:-351] == b"TAG+":
        body = body + b"\0" * 360
    tag = r.choice((b"", anytag(r)))
    mode = r.choice((0o644, 0o600))
    put(path, body + tag, mode)
    for i in range(r.choice((1, 2, 4, 6))):
        k = r.choice(("rm", "rep", "rep", "same"))
        if k == "rm":
            x = w.drv("v1remove", hx(path))
            tag = b""
        else:
            if k == "rep":
                new = anytag(r)
                w.drv("v1parse", 1, hx(new), "whole")
                tag = new
            elif not tag:
                continue
            else:
                w.drv("v1parse", 1, hx(tag), "whole")
            x = w.drv("v1replace", hx(path), 1)
        w.check(not is_ex(x), "%s failed" % k, repr(x))
        got = get(path)
        w.check(got[:len(body)] == body, "bytes before the ID3v1 tag changed", "%s at step %d: %d bytes" % (k, i, len(body)))
        w.eq(got[len(body):], tag, "trailing tag", "%s at step %d" % (k, i))
        w.eq(os.stat(path).st_mode & 0o777, mode, "file mode", k)
        w.eq(os.listdir(os.path.dirname(path)), [os.path.basename(path)], "other files", k)
        w.count("disk_edits")
        w.seen("disk", k, len(tag), len(body) if len(body) < 400 else 400)
    if r.random() < .1:
        # a missing file: nothing to remove
        x = w.drv("v1remove", hx(path + "-none"))
        w.check(not os.path.exists(path + "-none"), "removing made a file", "")


if __name__ == "__main__":
    sys.exit(Check("C11", [("read", read, 8000, 150000), ("inside", inside, 1500, 15000), ("absent", absent, 4000, 50000), ("edit", edit, 3000, 50000),
                           ("ondisk", ondisk, 4000, 50000)],
                   "distinct (way of reading, kind of tag, field lengths), edit sequences and file edits seen").main())
