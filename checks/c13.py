"""C13: the reported duration matches the stream's own headers."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "lib"))
from vlib import *
from files import *
import gen
from gen import BR1, BR2, SR

VBITS = {1: 3, 2: 2, 25: 0}


def header(ver, bri, sri, pad, mode, prot, layer=3, low=0):
    """BRI counts from 1, as in the header"""
    return bytes([0xff, 0xe0 | VBITS[ver] << 3 | {1: 3, 2: 2, 3: 1}[layer] << 1 | (0 if prot else 1),
                  bri << 4 | sri << 2 | pad << 1 | (low & 1), mode << 6 | (low >> 1) & 0x3f])


def flen(ver, bri, sri, pad):
    br = (BR1 if ver == 1 else BR2)[3][bri - 1] * 1000
    return (144 if ver == 1 else 72) * br // SR[ver][sri] + pad


def side(ver, mode):
    return (17 if mode == 3 else 32) if ver == 1 else (9 if mode == 3 else 17)


def body(r, n):
    k = r.random()
    b = bytes(n) if k < .3 else b"\xff" * n if k < .4 else r.randbytes(n)
    return b


def noxing(b):
    for m in (b"Xing", b"Info", b"VBRI"):
        b = b.replace(m, b"....")
    return b


def frame(r, ver, sri, bri=None, pad=None, mode=None, prot=None):
    bri = r.randint(1, 14) if bri is None else bri
    pad = r.randrange(2) if pad is None else pad
    mode = r.randrange(4) if mode is None else mode
    prot = r.random() < .3 if prot is None else prot
    n = flen(ver, bri, sri, pad)
    return header(ver, bri, sri, pad, mode, prot, low=r.randrange(128)) + noxing(body(r, n - 4))


def vbr_frame(r, ver, sri, kind, frames, nbytes, flags=3, nocrc=False):
    """A frame with a variable bit rate header, or None if it's too small for one"""
    mode, prot, bri, pad = r.randrange(4), r.random() < .3, r.randint(1, 14), r.randrange(2)
    if kind == "VBRI":
        prot = False
        x = b"VBRI" + be(1, 2) + be(r.randrange(65536), 2) + be(r.randrange(101), 2) + be(nbytes, 4) + be(frames, 4)
        k = r.choice((0, 1, 5))
        x += be(k, 2) + be(1, 2) + be(2, 2) + be(r.randrange(1, 99), 2) + r.randbytes(2 * k)
        at = 36
    else:
        x = kind.encode() + be(flags, 4)
        if flags & 1:
            x += be(frames, 4)
        if flags & 2:
            x += be(nbytes, 4)
        if flags & 4:
            x += bytes(range(0, 200, 2))
        if flags & 8:
            x += be(r.randrange(101), 4)
        if r.random() < .4:
            x += b"LAME3.99r" + r.randbytes(27)
        at = 4 + side(ver, mode) + (2 if prot and not nocrc else 0)
    n = flen(ver, bri, sri, pad)
    while n < at + len(x) and bri < 14:
        bri += 1
        n = flen(ver, bri, sri, pad)
    if n < at + len(x):
        return None
    b = bytearray(noxing(body(r, n - 4)))
    b[at - 4:at - 4 + len(x)] = x
    return header(ver, bri, sri, pad, mode, prot, low=r.randrange(128)) + bytes(b)


TAILS = (b"", b"", b"\0", b"\0\0\0\0\0\0\0\0", b"APETAGEX" + b"\0" * 24, b"LYRICSBEGIN", b"\xfe\xff\xff", b"abc", b"\xff", b"\xff\xfb", b"\xff\xdf\0\0")


def measure(w, r, data, want, what, v1=True):
    """Through a file with any tags around it"""
    path = os.path.join(w.scratch, "a.mp3")
    front = b"".join(gen.tag(r).raw() for _ in range(r.choice((0, 0, 1, 2))))
    v = r.choice((b"", b"", gen.v1(r))) if v1 else b""
    if data[:3] == b"ID3":
        return
    whole = front + data + v
    if not v and whole[-128:-125] == b"TAG":
        return
    put(path, whole)
    d = w.drv("fileinfo", hx(path))
    w.check(not is_ex(d), "cannot read a file", "%s: %r" % (what, d))
    t = d["track"]
    got = float(t["dur"]) if "dur" in t else None
    w.count("streams")
    if want is None:
        w.check(got is None or got == 0, "made-up duration", "%s: %r" % (what, got))
    else:
        w.check(got is not None and abs(got - want) <= 1e-6 * max(1, want), "duration", "%s: got %r, want %.6f" % (what, got, want))
    w.eq(t["size"], len(data), "track size", what)


def cbr(w, no):
    r = w.rng
    ver, sri = r.choice((1, 1, 2, 25)), r.randrange(3)
    bri = r.randint(1, 14)
    vary = r.random() < .5
    n = r.choice((1, 1, 2, 3, 5, 20, 60))
    fs = [frame(r, ver, sri, None if vary else bri) for _ in range(n)]
    spf = 1152 if ver == 1 else 576
    tail = r.choice(TAILS)
    if len(tail) == 1 or tail[:1] == b"\xff":
        tail = b"" if r.random() < .5 else tail
    lead = bytes(r.randrange(255) for _ in range(r.choice((0, 0, 0, 1, 2, 3, 4, 7, 100)))) if r.random() < .4 else b""
    if r.random() < .1:
        lead += b"\xff" * r.choice((0, 0)) + b"\xff\x00"
    if lead[:3] in (b"ID3",):
        lead = b""
    # an 0xff right after the frames could be taken for part of a sync with a tag's bytes
    want = n * spf / SR[ver][sri]
    if tail[:1] == b"\xff" and len(tail) < 4:
        tail = b""
    measure(w, r, lead + b"".join(fs) + tail, want, "%d frames of MPEG %s at %d Hz%s" % (n, ver, SR[ver][sri], ", vbr" if vary else ""))
    w.seen("cbr", ver, sri, vary or bri, n, len(lead), tail)
    w.count("frames", n)


def long(w, no):
    """Many frames"""
    r = w.rng
    ver, sri = r.choice((2, 25)), r.choice((0, 1))
    n = r.choice((255, 256, 257, 1023, 1024, 4095, 4096, 4097, 10000, 32767, 32769, 65536, 70000))
    f = frame(r, ver, sri, r.choice((1, 2)), 0)
    measure(w, r, f * n, n * 576 / SR[ver][sri], "%d frames of MPEG %s at %d Hz" % (n, ver, SR[ver][sri]))
    w.seen("long", ver, sri, n)
    w.count("frames", n)


def one(w, no):
    """Every frame header there is: its size, rate and duration"""
    r = w.rng
    i = int(no.split(":")[1])
    ver = (1, 2, 25)[i % 3]
    i //= 3
    sri = i % 3
    i //= 3
    bri = i % 14 + 1
    i //= 14
    pad, mode, prot = i & 1, i >> 1 & 3, i >> 3 & 1
    f = frame(r, ver, sri, bri, pad, mode, bool(prot))
    d = w.drv("mp3frame", hx(f + b"\0" * 200))
    what = "MPEG %s bit rate %d sampling %d padding %d mode %d protection %d" % (ver, bri, sri, pad, mode, prot)
    w.check(not is_ex(d), "frame not read", "%s: %r" % (what, d))
    w.eq(d["size"], len(f), "frame size", what)
    w.eq(d["pos"], len(f), "position after a frame", what)
    w.eq(d["hz"], SR[ver][sri], "sampling rate", what)
    w.eq(d["bps"], (BR1 if ver == 1 else BR2)[3][bri - 1] * 1000, "bit rate", what)
    w.check(d["dn"] * SR[ver][sri] == d["dd"] * (1152 if ver == 1 else 576), "frame duration", what)
    w.check("vn" not in d, "variable bit rate header out of nowhere", what)
    n = r.choice((1, 2, 3))
    measure(w, r, f * n, n * (1152 if ver == 1 else 576) / SR[ver][sri], "%d of " % n + what)
    w.seen("one", ver, sri, bri, pad, mode, prot)


def vbr(w, no):
    r = w.rng
    ver, sri = r.choice((1, 1, 2, 25)), r.randrange(3)
    spf = 1152 if ver == 1 else 576
    kind = r.choice(("Xing", "Xing", "Info", "VBRI"))
    k = r.choice((1, 2, 3, 8))
    fs = [frame(r, ver, sri) for _ in range(k)]
    declared = r.choice((k, k, k + 1, 1, 1000, 123456, 0, 9999999))
    nbytes = r.choice((sum(map(len, fs)), 12345, 1 << 20))
    flags = r.choice((3, 3, 7, 11, 15, 1, 2, 0, 4, 8)) if kind != "VBRI" else 3
    h = vbr_frame(r, ver, sri, kind, declared, nbytes, flags, nocrc=r.random() < .2)
    if h is None:
        return
    count = declared if flags & 3 == 3 else k + 1
    want = count * spf / SR[ver][sri]
    what = "%s flags %d, %d frames declared, %d present, MPEG %s at %d Hz" % (kind, flags, declared, k + 1, ver, SR[ver][sri])
    d = w.drv("mp3frame", hx(h + fs[0]), 1)
    w.check(not is_ex(d), "frame not read", "%s: %r" % (what, d))
    w.eq((d.get("vn"), d.get("vd")), (declared, nbytes) if flags & 3 == 3 else (None, None), "variable bit rate header", what)
    measure(w, r, h + b"".join(fs), want, what)
    w.seen("vbr", kind, flags, ver, sri, declared, h[1] & 1, h[3] >> 6)
    w.count("vbr_headers")


def none(w, no):
    """Nothing to measure"""
    r = w.rng
    k = r.choice(("empty", "short", "noise", "layer", "free", "badrate", "badsr", "badver", "text"))
    if k == "empty":
        b = b""
    elif k == "short":
        b = frame(r, 1, 0)[:r.randint(1, 3)]
    elif k == "noise":
        b = bytes(r.randrange(255) for _ in range(r.choice((1, 2, 3, 4, 5, 100, 3000))))
    elif k == "text":
        b = b"just text, no sound" * r.randint(1, 30)
    elif k == "layer":
        b = header(r.choice((1, 2, 25)), r.randint(1, 14), r.randrange(3), 0, 0, False, r.choice((1, 2))) + bytes(500)
    elif k == "free":
        b = header(1, 0, r.randrange(3), 0, 0, False) + bytes(500)
    elif k == "badrate":
        b = header(1, 15, r.randrange(3), 0, 0, False) + bytes(500)
    elif k == "badsr":
        b = header(1, r.randint(1, 14), 3, 0, 0, False) + bytes(500)
    else:
        b = b"\xff" + bytes([0xe0 | 1 << 3 | 1 << 1 | 1]) + b"\x90\0" + bytes(500)
    if b[:3] == b"ID3":
        return
    measure(w, r, b, None, k, v1=k != "short")
    w.seen("none", k, len(b))


if __name__ == "__main__":
    # each of the 3*3*14*2*4*2 frame headers once
    sys.exit(Check("C13", [("one", one, 2016, 2016 * 4), ("cbr", cbr, 2500, 40000), ("long", long, 40, 400), ("vbr", vbr, 2500, 40000), ("none", none, 1500, 15000)],
                   "distinct (frame header), (stream shape), (variable bit rate header) seen; every Layer III header once",
                   assumptions=["frames of a stream share version and sampling rate, as the format requires",
                                "a stream's last frame is complete"]).main())
