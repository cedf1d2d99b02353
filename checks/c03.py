"""C03: writing an ID3v2 tag, then reading it back, loses nothing."""
import os, sys, zlib
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "lib"))
from vlib import *
from edit import *


def same_frame(w, g, f, at):
    """G as found in the output, F as the model has it"""
    w.eq(g.id, f.id, "frame id written", at)
    w.eq(g.payload, f.payload, "frame contents written", "%s %s" % (at, f.id))
    if f.ver > 2:
        w.eq((g.tap, g.fap, g.ro), (f.tap, f.fap, f.ro), "frame status flags written", "%s %s" % (at, f.id))
        w.eq((g.gid, g.cmp), (f.gid, bool(f.cmp)), "frame format flags written", "%s %s" % (at, f.id))


def known_size(t, size, want):
    """id3v2_4_tag::size() counts the padding twice: recorded as a known finding"""
    return t.ver == 4 and t.pad and size == want + t.pad


def written(w, h, t, u, pre, exact_footer=True):
    """Write tag H with unsynchronisation U; compare the bytes with model T; give them back"""
    x = w.drv("write", h, u)
    w.check(not is_ex(x), "write failed: %s" % x.get("ex"), "%s: %r" % (pre, x))
    out = ux(x["out"])
    w.check(x["good"], "stream left bad", pre)
    w.eq(x["cb"], len(out), "bytes write() says it wrote", pre)
    if not known_size(t, x["size"], len(out) - 10):
        w.eq(x["size"], len(out) - 10, "size() against bytes written", pre)
    try:
        g, used = parse_tag(out)
    except Malformed as e:
        w.check(False, "malformed output", "%s: %s: %s" % (pre, e, out.hex()[:800]))
    w.eq(used, len(out), "declared size against bytes written", pre)
    w.eq((g.ver, g.rev), (t.ver, t.rev), "version written", pre)
    w.eq(g.unsync, bool(u), "unsynchronisation flag written", pre)
    w.eq(len(g.frames), len(t.frames), "number of frames written", pre)
    for i, f in enumerate(t.frames):
        same_frame(w, g.frames[i], f, "%s[%d]" % (pre, i))
    pads = (t.pad,)
    if t.ver == 2 and u and t.pad and t.frames and t.frames[-1].payload[-1:] == b"\xff":
        pads += (t.pad - 1,)    # ID3v2.2 does not guard a trailing 0xff: its padding does
    w.check(g.pad in pads, "padding written", "%s: %d, want %r" % (pre, g.pad, pads))
    if t.ver > 2:
        w.eq(g.exp, bool(t.exp), "experimental flag written", pre)
        w.eq(g.ext is not None, t.ext is not None, "extended header written", pre)
    if t.ver == 4:
        w.eq(g.footer, bool(t.footer), "footer written", pre)
        for f in g.frames:
            w.check(f.unsync or not u, "frame not unsynchronised", "%s %s" % (pre, f.id))
    if t.ext is not None:
        w.eq(g.ext["crc"] is not None, t.ext["crc"] is not None, "checksum written", pre)
        if t.ver == 3:
            w.eq(g.ext["pad"], t.pad, "extended header's padding size", pre)
            if t.ext["crc"] is not None:
                q = out[10:] if not u else resync(out[10:])
                w.eq(g.ext["crc"], zlib.crc32(q[14:len(q) - g.pad]), "checksum value", pre)
        else:
            w.eq((bool(g.ext["upd"]), g.ext["restr"]), (bool(t.ext["upd"]), t.ext["restr"]), "extended header written", pre)
            if t.ext["crc"] is not None:
                # (of the frames as written, or as they are without unsynchronisation)
                sums = [zlib.crc32(o[10 + from_syncsafe(o[10:14]):len(o) - (10 if g.footer else 0)])
                        for o in [out] + ([ux(w.drv("write", h, 0)["out"])] if u else [])]
                w.check(g.ext["crc"] in sums, "checksum value", "%s: %d, want %r" % (pre, g.ext["crc"], sums))
    return out, g


def again(w, out, g, t, pre):
    """scribbu reads what it wrote"""
    r = w.drv("parseall", hx(out + b"\xff\xfb\x90\x64"))
    w.check(not is_ex(r), "own output rejected: %s" % r.get("ex"), "%s: %r %s" % (pre, r, out.hex()[:800]))
    w.eq(r["pos"], len(out), "position after reading back", pre)
    w.eq(len(r["tags"]), 1, "tags read back", pre)
    check_tag(w, r["tags"][0], g, pre + " read back")


def cycle(w, h, t, pre):
    outs = []
    for u in (0, 1) if w.rng.random() < .5 else (1, 0):
        p = "%s v2.%d unsync=%d" % (pre, t.ver, u)
        out, g = written(w, h, t, u, p)
        again(w, out, g, t, p)
        outs.append(out)
        w.count("written")
        w.count("bytes", len(out))
    # writing is not an edit: the tag still says the same
    d = w.drv("dump", h)
    v = copy.copy(t)
    v.unsync = None
    if v.ext:
        v.ext = dict(v.ext, crc=d["ext"].get("crc") if v.ext["crc"] is not None else None)
    check_tag(w, d, v, pre + " after writing")
    return outs


def parsed(w, no):
    r = w.rng
    t = gen.tag(r)
    w.drv("reset")
    x = w.drv("parse", 1, hx(t.raw()))
    w.check(not is_ex(x) and x["present"], "parse", "%r" % (x,))
    outs = cycle(w, 1, t, "parsed")
    # and the second generation is the first
    for u, o in ((len(o) and o[5] >> 7, o) for o in outs):
        if t.ver == 2 and u and t.pad and t.frames and t.frames[-1].payload[-1:] == b"\xff":
            continue
        x = w.drv("parse", 2, hx(o))
        y = w.drv("write", 2, u)
        w.eq(ux(y["out"]), o, "second generation", "unsync=%d" % u)
    w.seen(shape(t))
    w.sample({"in": t.raw()[:100].hex(), "out": outs[0][:100].hex()})


def built(w, no):
    r = w.rng
    ver = r.choice((2, 3, 4))
    t = gen.Tg(ver, [], r.choice((0, 0, 1, 100, 600, 2000)))
    w.drv("reset")
    ext = r.choice((0, 0, 1, 2)) if ver == 3 else 0
    w.drv("new", 1, ver, t.pad, ext)
    if ext:
        t.ext = {"pad": t.pad, "crc": 0 if ext == 2 else None}
    e = Ed(w, 1, t)
    for i in range(r.randint(1, 6)):
        e.step(("push", "insert", "settext", "addcomment", "addudt", "pad"))
    if not t.frames and not t.pad:
        e.step(("push",))
    t.unsync = None
    cycle(w, 1, t, "built (%s)" % ",".join(e.log))
    w.seen("built", shape(t))


def edited(w, no):
    """write, edit, write again..."""
    r = w.rng
    t = gen.tag(r)
    w.drv("reset")
    x = w.drv("parse", 1, hx(t.raw()))
    w.check(not is_ex(x) and x["present"], "parse", "%r" % (x,))
    t.unsync = None
    e = Ed(w, 1, t)
    for k in range(r.randint(1, 3)):
        for i in range(r.randint(1, 4)):
            e.step()
        if t.footer and t.pad:
            ok(w, w.drv("pad", 1, 0), "pad")
            t.pad = 0
        if not t.frames and not t.pad:
            e.step(("push",))
        cycle(w, 1, t, "edited (%s)" % ",".join(e.log))
    w.seen("edited", tuple(e.log), shape(t))


def ffs(w, no):
    """0xff at every joint: ends of frames, between fields, next to padding"""
    r = w.rng
    ver = r.choice((2, 3, 4))
    fs = []
    for _ in range(r.randint(1, 4)):
        f = gen.frame(r, ver)
        f.cmp = False
        p = bytearray(f.payload)
        if f.kind in ("unk", "priv", "ufid", "pcnt") and len(p) and r.random() < .8:
            for i in range(r.randint(1, 3)):
                p[-1 - r.randrange(min(3, len(p)))] = r.choice((0xff, 0xff, 0xe0, 0xe5, 0))
        if f.kind in ("ufid", "priv") and b"\0" not in p:
            continue
        f.payload = bytes(p)
        fs.append(f)
    fs = fs or [Fr(ver, "CNT" if ver == 2 else "PCNT", b"\0\0\0\xff")]
    if ver == 2 and fs[-1].payload[-1:] == b"\xff" and r.random() < .5:
        fs.append(Fr(2, "TT2", b"\0x"))
    t = gen.Tg(ver, fs, r.choice((0, 0, 1, 2, 255, 300)))
    w.drv("reset")
    x = w.drv("parse", 1, hx(t.raw()))
    w.check(not is_ex(x) and x["present"], "parse", "%r" % (x,))
    if ver == 4:
        for f in fs:
            f.unsync = False
    cycle(w, 1, t, "ffs")
    w.seen(shape(t))


def sizes(w, no):
    """sizes whose bytes cross the sync-safe and unsynchronisation boundaries"""
    r = w.rng
    ver = r.choice((2, 3, 4))
    n = r.choice((127, 128, 255, 256, 0x3fff, 0x4000, 0xff00, 0xffe0, 0xffff, 0x10000, 0xffe5, 0x1ffe0)) + r.choice((-12, -11, -10, -6, -1, 0, 1))
    f = Fr(ver, "PIC" if ver == 2 else "APIC", bytes([r.choice((0x41, 0xff))]) * n)
    if ver > 2:
        f.cmp = r.random() < .3
    t = gen.Tg(ver, [f, gen.frame(r, ver, ("text",))], r.choice((0, 0xe0, 0xffe0, 511, 512)))
    w.drv("reset")
    x = w.drv("parse", 1, hx(t.raw()))
    w.check(not is_ex(x) and x["present"], "parse", "%r" % (x,))
    cycle(w, 1, t, "sizes")
    w.seen(ver, n, t.pad, f.cmp)


def huge(w, no):
    """frames of megabytes: every bit of the size fields"""
    r = w.rng
    k = int(no.split(":")[1])
    ver = 2 + k % 3
    n = min((1 << (16 + k // 3 % 9)) + r.choice((-1, 0, 1, r.randrange(1 << 14))), 0xffffff if ver == 2 else 1 << 27)
    f = Fr(ver, "PIC" if ver == 2 else "APIC", bytes([0x41]) * (n - 3) + b"\xff\xe0A")
    t = gen.Tg(ver, [f, gen.frame(r, ver, ("text",))], r.choice((0, 0x10000)))
    w.drv("reset")
    x = w.drv("parse", 1, hx(t.raw()))
    w.check(not is_ex(x) and x["present"], "parse", "%s" % str(x)[:200])
    cycle(w, 1, t, "huge")
    w.seen(ver, n, t.pad)


def v24_size(w, no):
    """the recorded size defect, on its own input"""
    w.drv("new", 1, 4, 7)
    w.drv("push", 1, 1, "P", hx("TIT2"), hx(b"\x03abc"))
    x = w.drv("write", 1, 0)
    w.eq(x["size"], len(ux(x["out"])) - 10, "v2.4 size counts padding twice", "size()")


C = Check("C03", [("parsed", parsed, 5000, 50000), ("built", built, 3000, 30000), ("edited", edited, 3000, 30000),
                  ("ffs", ffs, 3000, 30000), ("huge", huge, 27, 54), ("sizes", sizes, 200, 1500)],
          "distinct tag layouts written both ways, decoded by an independent decoder and re-read by scribbu",
          known=[("v24-size-padding", v24_size)])
if __name__ == "__main__":
    sys.exit(C.main())
