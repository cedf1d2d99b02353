"""C04: unsynchronised output has no false syncs and decodes back exactly."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "lib"))
from vlib import *
from edit import *


def ffy(r, n=40):
    return bytes(r.choice((0xff, 0xff, 0xff, 0, 0, 0xe0, 0xdf, 0xfb, 0xe5, 1, 0x41)) for _ in range(r.randint(1, n)))


def frame(r, ver):
    """a frame with 0xff wherever its kind admits one"""
    v = ver - 2
    k = r.choice(("text", "text", "unk", "ufid", "txxx", "comm", "pcnt", "popm", "xtag", "priv", "encr"))
    if ver == 2 and k in ("priv", "encr"):
        k = "unk"
    nz = lambda b: bytes(x or 0xff for x in b)
    if k == "text":
        e = r.choice((0, 1)) if ver < 4 else r.choice((0, 1, 2))
        s = "".join(r.choice("ÿÿþàa￠Āð！") if e else r.choice("ÿÿþàað") for _ in range(r.randint(1, 20)))
        f = Fr(ver, r.choice(list(NAMES.values()))[v], bytes([e]) + enc_text(ver, e, s, r.choice(("le", "be"))))
    elif k == "unk":
        f = Fr(ver, r.choice(("PIC", "MCI")) if ver == 2 else r.choice(("APIC", "MCDI", "XYZ0")), ffy(r))
    elif k == "ufid":
        f = Fr(ver, IDS[k][v], nz(ffy(r, 6)) + b"\0" + ffy(r))
    elif k in ("txxx", "comm"):
        e = r.choice((0, 1))
        mk = lambda n: enc_text(ver, e, "".join(r.choice("ÿþàa") for _ in range(r.randint(0, n))), o)
        o = r.choice(("le", "be"))
        f = Fr(ver, IDS[k][v], bytes([e]) + (b"eng" if k == "comm" else b"") + mk(5) + (b"\0\0" if e else b"\0") + mk(12))
    elif k == "pcnt":
        f = Fr(ver, IDS[k][v], bytes(r.choice((0, 0xff, 0xe0, 0xff)) for _ in range(4)))
    elif k == "popm":
        f = Fr(ver, IDS[k][v], nz(ffy(r, 6)) + b"\0" + bytes([r.choice((0xff, 0, 0xe0))]) + bytes(r.choice((0, 0xff, 0xe0, 0xff)) for _ in range(4)))
    elif k == "xtag":
        f = Fr(ver, IDS[k][v], enc_xtag(nz(ffy(r, 5)), {nz(ffy(r, 4)): {nz(ffy(r, 4)) for _ in range(r.randint(0, 3))} for _ in range(r.randint(0, 3))}))
    elif k == "priv":
        f = Fr(ver, "PRIV", nz(ffy(r, 6)) + b"\0" + ffy(r))
    else:
        f = Fr(ver, "ENCR", nz(ffy(r, 6)) + b"\0" + bytes([r.randrange(0x80, 0xf1)]) + ffy(r, 6))
    if ver > 2:
        f.tap, f.fap, f.ro = (r.randrange(2) for _ in range(3))
        if r.random() < .2:
            f.gid = r.randrange(0x80, 0xf1)
        if r.random() < .15:
            f.cmp = True
        if ver == 4 and r.random() < .2:
            f.dli = True
    return f


def judge(w, h, t, pre):
    ver = t.ver
    a, b = w.drv("write", h, 0), w.drv("write", h, 1)
    w.check(not is_ex(a) and not is_ex(b), "write failed", "%s: %r %r" % (pre, a, b))
    plain, un = ux(a["out"]), ux(b["out"])
    w.eq(un[5] >> 7, 1, "unsynchronisation flag", pre)
    d = w.drv("dump", h)
    tail = b""                      # a trailing 0xff, the one place versions differ
    if t.frames:
        tail = t.frames[-1].raw()[-1:] if ver < 4 else b""
    if ver < 4:
        w.eq(plain[5] >> 7, 0, "unsynchronisation flag", pre)
        w.eq(false_syncs(un[10:]), [], "false sync in unsynchronised output", "%s %s" % (pre, un.hex()[:600]))
        body, back = plain[10:], resync(un[10:])
        if ver == 2 and tail == b"\xff" and t.pad:
            w.check(back in (body, body[:-1]), "undoing unsynchronisation", "%s: %s -> %s" % (pre, body.hex(), back.hex()))
        else:
            w.eq(back, body, "undoing unsynchronisation", pre)
        need = bool(false_syncs(body)) or (ver == 3 and tail == b"\xff")
        w.eq(a["nu"], need, "tag says it needs unsynchronisation", "%s %s" % (pre, body.hex()[:400]))
        w.eq(b["nu"], need, "tag says it needs unsynchronisation", pre)
        if ver == 3:
            w.check(un[-1] != 0xff, "unsynchronised output ends in 0xff", pre)
        w.count("false syncs escaped", len(false_syncs(body)))
    else:
        w.eq(false_syncs(un[10:]), [], "false sync in unsynchronised output", "%s %s" % (pre, un.hex()[:600]))
        w.check(un[-1] != 0xff, "unsynchronised output ends in 0xff", pre)
        g, h2 = parse_tag(un)[0], parse_tag(plain)[0]
        w.eq([(f.id, f.payload, f.gid, f.cmp) for f in g.frames], [(f.id, f.payload, f.gid, f.cmp) for f in h2.frames],
             "undoing unsynchronisation", pre)
        w.check(all(f.unsync for f in g.frames), "frame written unsynchronised but not marked so", pre)
        # the flag stands for every frame: needed exactly when each of them needs it
        body = [Fr(4, f.id, f.payload, gid=f.gid, cmp=f.cmp, dli=f.dli).raw()[10:] for f in t.frames]
        need = all(false_syncs(p) for p in body[:-1]) and bool(false_syncs(body[-1]) or body[-1][-1:] == b"\xff")
        w.eq(a["nu"], need, "tag says it needs unsynchronisation", pre)
        w.count("false syncs escaped", sum(len(false_syncs(f.payload)) for f in g.frames))
    for i, x in enumerate(d["frames"]):
        p = ux(x["w0"])
        f = t.frames[i]
        w.eq(x["ss0"], len(p), "frame's plain size", "%s[%d] %s" % (pre, i, f.id))
        q = ux(x["w1"])
        w.eq(x["ss1"], len(q), "frame's unsynchronised size", "%s[%d] %s" % (pre, i, f.id))
        if ver == 4 and f.unsync:
            p = Fr(4, f.id, f.payload, gid=f.gid, cmp=f.cmp, dli=f.dli).raw()
        hl = 6 if ver == 2 else 10
        need = bool(false_syncs(p[hl:] if ver == 4 else p))
        if ver == 4 and i == len(d["frames"]) - 1 and p[-1] == 0xff:
            need = bool(x["nu"])    # asked about the frame alone, a trailing 0xff may or may not count
        w.eq(bool(x["nu"]), need, "frame says it needs unsynchronisation", "%s[%d] %s %s" % (pre, i, f.id, p.hex()[:400]))
        w.eq(false_syncs(q), [], "false sync in an unsynchronised frame", "%s[%d] %s" % (pre, i, f.id))
        w.count("frames")
    return un


def tags(w, no):
    r = w.rng
    ver = r.choice((2, 3, 3, 4, 4))
    t = gen.Tg(ver, [frame(r, ver) for _ in range(r.choice((1, 1, 2, 3, 5)))], r.choice((0, 0, 1, 3, 300)))
    # ENCR symbols must not clash
    seen, fs = set(), []
    for f in t.frames:
        if f.kind == "encr":
            s = facts(f)["sym"]
            if s in seen:
                continue
            seen.add(s)
        fs.append(f)
    t.frames = fs
    if ver == 3 and r.random() < .3:
        t.ext = {"pad": t.pad, "crc": r.choice((None, 0))}
    if ver == 4 and r.random() < .3:
        t.unsync = True
        for f in fs:
            f.unsync = True
    elif ver < 4:
        t.unsync = r.random() < .4
    w.drv("reset")
    x = w.drv("parse", 1, hx(t.raw()))
    w.check(not is_ex(x) and x["present"], "parse", "%r %s" % (x, t.raw().hex()))
    un = judge(w, 1, t, "v2.%d" % ver)
    w.seen(shape(t), t.frames[-1].payload[-1:])
    w.sample({"unsynchronised": un[:100].hex(), "frames": [f.id for f in t.frames]})


def big(w, no):
    """Frames as large as pictures are"""
    r = w.rng
    ver = r.choice((2, 3, 4))
    n = r.choice((4096, 16383, 65535, 65536, 65537, 100000, 200000))
    fs = []
    for _ in range(r.choice((1, 1, 2))):
        b = ffy(r, 30) * (n // 30 + 1) if r.random() < .4 else bytes(r.randrange(256) for _ in range(251)) * (n // 251 + 1)
        fs.append(Fr(ver, "PIC" if ver == 2 else "APIC", b[:n - r.randint(0, 3)] + ffy(r, 9)))
    t = gen.Tg(ver, fs, r.choice((0, 5)))
    w.drv("reset")
    x = w.drv("parse", 1, hx(t.raw()))
    w.check(not is_ex(x) and x["present"], "parse", "%r %d bytes" % (x, len(t.raw())))
    judge(w, 1, t, "v2.%d" % ver)
    w.seen("big", ver, n)


def built(w, no):
    r = w.rng
    ver = r.choice((2, 3, 4))
    t = gen.Tg(ver, [], r.choice((0, 1, 40)))
    w.drv("reset")
    w.drv("new", 1, ver, t.pad, r.randrange(3) if ver == 3 else 0)
    for _ in range(r.randint(1, 5)):
        f = frame(r, ver)
        if f.kind == "encr":
            continue
        f.tap = f.fap = f.ro = 0
        f.gid, f.cmp, f.dli = None, False, False
        ok(w, w.drv("push", 1, r.randrange(2), *spec(f)), "push")
        t.frames.append(f)
    if t.frames:
        judge(w, 1, t, "built v2.%d" % ver)
        # change a frame after its serialisation was cached
        i = r.randrange(len(t.frames))
        f = frame(r, ver)
        if f.kind != "encr":
            f.tap = f.fap = f.ro = 0
            f.gid, f.cmp, f.dli = None, False, False
            ok(w, w.drv("replace", 1, 1, i, *spec(f)), "replace")
            t.frames[i] = f
        c = [i for i, f in enumerate(t.frames) if f.kind in ("pcnt", "popm")]
        if c:
            i = r.choice(c)
            n = r.choice((0xff, 0xffe0, 0xff00, 0xffffff, 0xe0ff, 0x41))
            ok(w, w.drv("mutate", 1, i, "count", n), "count")
            cb = (n.bit_length() + 7) // 8
            f = t.frames[i]
            if f.kind == "pcnt":
                t.frames[i] = Fr(ver, f.id, be(n, cb))
            else:
                fx = facts(f)
                t.frames[i] = Fr(ver, f.id, fx["owner"] + b"\0" + bytes([fx["rating"]]) + be(n, cb))
            w.count("changed after writing")
        judge(w, 1, t, "changed v2.%d" % ver)
    w.seen("built", shape(t))


def headers(w, no):
    """frame sizes (and checksums) that themselves read as synchronisations"""
    r = w.rng
    ver = r.choice((2, 3, 3, 4))
    n = r.choice((0xffe0, 0xfff0, 0xffff, 0xff00, 0xffdf, 0xe0ff, 0x1ffe0, 0xffe000, 0xff0000, 0xfff123)[:8 if r.random() < .9 else None])
    if n > 0xfffff and r.random() < .7:
        n = 0xffe0 + r.randrange(0x20)
    f = Fr(ver, "PIC" if ver == 2 else "XYZ0", bytes([r.choice((0x41, 0, 0xe5))]) * n)
    t = gen.Tg(ver, [f] + [gen.frame(r, ver, ("text",)) for _ in range(r.randrange(2))], r.choice((0, 1, 0x20)))
    if ver == 4:
        for g in t.frames:
            g.unsync = t.unsync
    elif ver == 3 and r.random() < .4:
        t.ext = {"pad": t.pad, "crc": None}
        t.pad = t.ext["pad"] = r.choice((0xffe0, 0xffff, 0xffe07, 0xff00))
    w.drv("reset")
    x = w.drv("parse", 1, hx(t.raw()))
    w.check(not is_ex(x) and x["present"], "parse", "%s" % str(x)[:300])
    judge(w, 1, t, "headers v2.%d" % ver)
    w.count("sizes that look like syncs")
    w.seen("headers", ver, n, t.pad)


def bytesonly(w, no):
    """the scheme itself, on bytes"""
    r = w.rng
    for _ in range(20):
        b = ffy(r, r.choice((1, 2, 3, 8, 60)))
        last = r.randrange(2)
        x = w.drv("unsync", hx(b), last)
        o = ux(x["out"])
        w.eq(false_syncs(o), [], "false sync after unsynchronise", b.hex())
        w.eq(resync(o), b, "unsynchronise loses data", "%s -> %s" % (b.hex(), o.hex()))
        if last:
            w.check(o[-1] != 0xff, "unsynchronise leaves a trailing 0xff", b.hex())
        y = w.drv("resync", hx(o))
        w.eq(ux(y["out"]), b, "resynchronise", o.hex())
        z = w.drv("resync", hx(b))
        w.eq(ux(z["out"]), resync(b), "resynchronise", b.hex())
        w.count("strings")
    w.seen("bytes", b)


C = Check("C04", [("tags", tags, 6000, 60000), ("built", built, 3000, 30000), ("headers", headers, 300, 3000), ("big", big, 60, 600), ("bytes", bytesonly, 1500, 20000)],
          "distinct tag layouts rich in 0xff bytes, written plain and unsynchronised and compared byte for byte through an independent decoder")
if __name__ == "__main__":
    sys.exit(C.main())
