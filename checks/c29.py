"""C29: the headers of MPEG audio decode to the fields they hold."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "lib"))
from vlib import *
import builder, vlib
from files import *
import gen
from gen import BR1, BR2, SR

VERS = {0: 25, 2: 2, 3: 1}


def side(ver, mode):
    return (17 if mode == 3 else 32) if ver == 1 else (9 if mode == 3 else 17)


def decode(h):
    """What the four bytes of a header say: None if they're none of a Layer III frame scribbu can read"""
    if h[0] != 0xff or h[1] < 0xe0 or h[1] >> 3 & 3 == 1 or h[1] >> 1 & 3 != 1:
        return None
    ver, bri, sri = VERS[h[1] >> 3 & 3], h[2] >> 4, h[2] >> 2 & 3
    if bri in (0, 15) or sri == 3:
        return None
    br = (BR1 if ver == 1 else BR2)[3][bri - 1] * 1000
    n = (144 if ver == 1 else 72) * br // SR[ver][sri] + (h[2] >> 1 & 1)
    return {"ver": {1: 0, 2: 1, 25: 2}[ver], "bps": br, "hz": SR[ver][sri], "size": n,
            "spf": 1152 if ver == 1 else 576, "side": side(ver, h[3] >> 6), "crc": not h[1] & 1}


def judge(w, h, d, what):
    want = decode(h)
    w.check(not is_ex(d), "reading a header failed otherwise than by saying so", "%s: %r" % (what, d))
    if want is None:
        w.check("why" in d, "header of no known frame accepted", "%s: %r" % (what, d))
        w.check(d["why"] != "", "no reason given", what)
        w.count("refused")
        return None
    w.check("why" not in d, "good header refused", "%s: %r" % (what, d))
    for k in ("ver", "bps", "hz", "size"):
        w.eq(d[k], want[k], "field of a header", "%s of %s" % (k, what))
    w.check(d["dn"] * want["hz"] == d["dd"] * want["spf"], "duration of a frame", "%s: %r" % (what, d))
    w.count("decoded")
    return want


def heads(w, no):
    """Every header, once: 128 cases of 64; the fourth byte varies"""
    r = w.rng
    i = int(no.split(":")[1])
    todo = []
    for k in range(64):
        n = i % 128 * 64 + k
        b3 = r.randrange(256) if i < 128 else i // 128 & 255
        todo.append(bytes([0xff, 0xe0 | n >> 8, n & 0xff, b3]))
    reqs, ways = [], []
    for h in todo:
        ways.append((r.randrange(2), r.choice(("whole", "split")), r.choice((0, 0, 4, 6, 7))))
        m = decode(h)
        n = m["size"] if m else 100
        reqs.append(" ".join(map(str, ("mp3head", hx(h + bytes(n - 4) + b"\xff\xfb" + bytes(600)), ways[-1][0], ways[-1][1], ways[-1][2]))))
    for h, q, d in zip(todo, ways, w.drv.batch(reqs)):
        what = "%s (variable bit rate %d, %s, mask %d)" % ((h.hex(),) + q)
        m = judge(w, h, d, what)
        if m:
            w.eq(d["pos"], m["size"], "position after a frame", what)
            w.check("vn" not in d, "variable bit rate header out of nowhere", what)
        w.seen(h[1], h[2])


def nosync(w, no):
    r = w.rng
    h = r.randbytes(4)
    k = r.random()
    if k < .3:
        h = bytes([r.choice((0xfe, 0x7f, 0xdf, 0xef, 0)), 0xe0 | r.randrange(32)]) + h[2:]
    elif k < .6:
        h = bytes([0xff, r.randrange(0xe0)]) + h[2:]
    elif k < .7:
        h = h[:r.randrange(4)]
    elif k < .8:
        h = bytes([0xff, 0xe0 | r.randrange(32)]) + h[2:]
    d = w.drv("mp3head", hx(h + (r.randbytes(2000) if len(h) == 4 else b"")), r.randrange(2), r.choice(("whole", "split")), 0)
    judge(w, h.ljust(4, b"\0"), d, h.hex())
    w.seen("nosync", k < .3, k < .6, len(h))


MAGIC = (b"Xing", b"Info")


def vbr(w, no):
    """Headers of variable bit rate within a frame"""
    r = w.rng
    ver, sri = r.choice((1, 1, 2, 25)), r.randrange(3)
    mode, prot = r.randrange(4), r.random() < .4
    flags = r.randrange(16)
    frames, nbytes = (r.choice((0, 1, 2, 255, 256, 65535, 65536, 1 << 24, (1 << 31) - 1, 1 << 31, (1 << 32) - 1, r.getrandbits(32))) for _ in range(2))
    kind = r.choice(("Xing", "Info", "VBRI", "none", "almost"))
    x = b""
    at = 4 + (2 if prot else 0) + side(ver, mode)
    if kind == "VBRI":
        prot = False
        k = r.choice((0, 1, 3))
        x = b"VBRI" + be(r.randrange(65536), 2) + be(r.randrange(65536), 2) + be(r.randrange(101), 2) + be(nbytes, 4) + be(frames, 4) + \
            be(k, 2) + be(1, 2) + be(2, 2) + be(r.randrange(1, 999), 2) + r.randbytes(2 * k)
        at = 36
    elif kind in ("Xing", "Info"):
        if prot and r.random() < .3:
            at -= 2     # encoders that leave the checksum out
        x = kind.encode() + be(flags | (r.getrandbits(27) << 4 if r.random() < .2 else 0), 4)
        x += be(frames, 4) if flags & 1 else b""
        x += be(nbytes, 4) if flags & 2 else b""
        x += r.randbytes(100) if flags & 4 else b""
        x += be(r.randrange(101), 4) if flags & 8 else b""
        x += b"LAME3.99r" + r.randbytes(27) if r.random() < .3 else b"L3.99r6  " + r.randbytes(27) if r.random() < .1 else b""
    elif kind == "almost":
        at += r.choice((-4, -3, -1, 1, 3, 4, 7)) if r.random() < .6 else 0
        x = r.choice(MAGIC + (b"xing", b"XinG", b"INFO", b"VBRi", b"LAME"))
        if at in (4 + (2 if prot else 0) + side(ver, mode), 2 + (2 if prot else 0) + side(ver, mode)) and x in MAGIC:
            x = b"Xinf"
        x += be(15, 4) + r.randbytes(120)
    h = None
    for bri in range(r.randint(1, 14), 15):
        h = bytes([0xff, 0xe0 | {1: 3, 2: 2, 25: 0}[ver] << 3 | 2 | (0 if prot else 1), bri << 4 | sri << 2 | r.randrange(4), mode << 6 | r.randrange(64)])
        if decode(h)["size"] >= at + len(x):
            break
    else:
        return
    m = decode(h)
    b = bytearray(m["size"] - 4)
    if r.random() < .5:
        b[:] = bytes(r.randrange(1, 65) for _ in b)
    b[at - 4:at - 4 + len(x)] = x
    on = r.random() < .85
    d = w.drv("mp3head", hx(h + bytes(b) + b"\xff\xfb\x90\0" + bytes(700)), int(on), r.choice(("whole", "split")), 0)
    what = "%s at %d flags %d %d frames %d bytes in %s" % (kind, at, flags, frames, nbytes, h.hex())
    judge(w, h, d, what)
    w.eq(d["pos"], m["size"], "position after a frame", what)
    have = on and (kind == "VBRI" or kind in ("Xing", "Info") and flags & 3 == 3)
    w.eq((d.get("vn"), d.get("vd")), (frames, nbytes) if have else (None, None), "frames and bytes in a variable bit rate header", what)
    w.seen("vbr", kind, flags, ver, mode, prot, on, frames > 1 << 31, nbytes > 1 << 31)
    w.count("vbr_headers", have)


def tags(w, no):
    """The headers of variable bit rate on their own"""
    r = w.rng
    v = [r.choice((0, 1, 127, 128, 255, 256, 65535, 1 << 24, 1 << 31, (1 << 32) - 1, r.getrandbits(32))) for _ in range(3)]
    k = r.choice(("xing", "vbri", "lame"))
    if k == "xing":
        fl = r.randrange(16)
        b = be(fl | (r.getrandbits(27) << 4 if r.random() < .3 else 0), 4) + (be(v[0], 4) if fl & 1 else b"") + (be(v[1], 4) if fl & 2 else b"") + \
            (r.randbytes(100) if fl & 4 else b"") + (be(v[2], 4) if fl & 8 else b"")
        d = w.drv("xing", hx(b + r.randbytes(9)))
        w.eq((d.get("frames"), d.get("bytes"), d["toc"]), (v[0] if fl & 1 else None, v[1] if fl & 2 else None, bool(fl & 4)), "Xing header", b.hex())
        w.eq(d["pos"], len(b), "position after an Xing header", b.hex())
        w.seen(k, fl, [x.bit_length() for x in v[:2]])
    elif k == "vbri":
        n, sz, per = r.choice((0, 1, 2, 100, 4097)), r.choice((0, 1, 2, 4)), r.choice((1, 255, 256, 65535))
        b = r.randbytes(6) + be(v[0], 4) + be(v[1], 4) + be(n, 2) + r.randbytes(2) + be(sz, 2) + be(per, 2) + r.randbytes(n * sz)
        d = w.drv("vbri", hx(b + r.randbytes(9)))
        w.eq((d.get("bytes"), d.get("frames"), d["per"]), (v[0], v[1], per), "VBRI header", b[:26].hex())
        w.eq(d["pos"], len(b), "position after a VBRI header", b[:26].hex())
        w.seen(k, n, sz, per, [x.bit_length() for x in v[:2]])
    else:
        m, br = r.randrange(256), r.randrange(256)
        b = r.choice((b"LAME3.99r", b"L3.99r6  ")) + bytes([m]) + r.randbytes(10) + bytes([br]) + r.randbytes(7) + be(v[0], 4) + r.randbytes(4)
        d = w.drv("lame", hx(b))
        names = {1: "constant", 2: "abr", 3: "vbr_1", 4: "vbr_2", 5: "vbr_3", 6: "vbr_4", 8: "cbr_two_pass", 9: "abr_two_pass"}
        w.eq((d["method"], d["bitrate"], d["bytes"]), (names.get(m & 15, "unknown"), br, v[0]), "LAME header", b.hex())
        w.seen(k, m & 15, br >> 6, v[0].bit_length())
    w.count(k)


def sync(w, no):
    """The first synchronisation in a stream, wherever one begins to look"""
    r = w.rng
    n = r.choice((0, 1, 2, 3, 4, 7, 20, 100, 5000))
    a = r.choice((b"\xff\xe0\xdf\0", b"\xff\xfe", b"\xff\0", b"\xff\xff\xdf", bytes(range(256)), b"\0\x7f\xfe", b"\xff"))
    b = bytes(r.choice(a) for _ in range(n))
    if r.random() < .4:
        b = b.replace(b"\xff", b"\xfe") + (r.choice((b"\xff\xe0", b"\xff\xfb\x90", b"\xff\xff\xe3", b"\xff\xdf\xff\xf3", b"\xff", b"\xff\xff", b"")))
    at = r.choice((0, 0, r.randint(0, len(b))))
    mask = r.choice((0, 0, 1, 2, 4))
    d = w.drv("findsync", hx(b), at, mask)
    want = next((i for i in range(at, len(b) - 1) if b[i] == 0xff and b[i + 1] >= 0xe0), None)
    what = "%s from %d" % (b[:60].hex() + ("..." if len(b) > 60 else ""), at)
    w.check(not is_ex(d), "looking for a synchronisation failed", "%s: %r" % (what, d))
    w.check(d["mask"], "exception mask changed", what)
    if want is None:
        w.check(not d["good"] or d["threw"], "synchronisation where there is none", "%s: %r" % (what, d))
    else:
        w.eq((d["good"], d["pos"]), (True, want), "first synchronisation", what)
    w.seen("sync", n, at > 0, None if want is None else want - at if want - at < 20 else 20, mask)
    w.count("found" if want is not None else "none")


def build():
    return builder.Builder("asan").build("drv-names", vlib.HARNESS + ["drv_names.cc"])


if __name__ == "__main__":
    # every second and third byte there is, 64 to a case
    sys.exit(Check("C29", [("heads", heads, 128, 128 * 257), ("nosync", nosync, 1500, 20000), ("vbr", vbr, 4000, 60000),
                           ("tags", tags, 4000, 60000), ("sync", sync, 5000, 80000)],
                   "distinct second and third bytes of headers (all 8192 are tried), variable bit rate headers and streams searched",
                   exe_builder=build).main())
