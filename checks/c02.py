"""C02: ID3v2 tags decode to exactly what the format says they hold."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "lib"))
from vlib import *
from model import *
import gen


def decode(w, ts, rest):
    data = b"".join(t.raw() for t in ts) + rest
    r = w.drv("parseall", hx(data))
    w.check(not is_ex(r), "well-formed tag rejected: " + str(r.get("ex")), "%r on %s" % (r, data.hex()))
    w.eq(len(r["tags"]), len(ts), "number of tags")
    w.eq(r["pos"], len(data) - len(rest), "stream position after the tags")
    for i, t in enumerate(ts):
        check_tag(w, r["tags"][i], t, "tag %d (v2.%d)" % (i, t.ver))
        w.seen(shape(t))
        w.count("frames", len(t.frames))
    w.count("tags", len(ts))
    if w.rng.random() < .4:
        # the same, by way of the class for its version
        t = ts[0]
        x = w.drv("probes", w.rng.choice((0, 7)), hx(data), "tag:%d" % t.ver)[0]
        w.check(not is_ex(x["r"]), "well-formed tag rejected: " + str(x["r"].get("ex")), "%r directly, on %s" % (x, data.hex()))
        w.eq(x["pos"], len(t.raw()), "stream position after a tag read directly")
        check_tag(w, x["r"], t, "tag read directly (v2.%d)" % t.ver)
        w.count("tags_read_directly")
    if ts and ts[0].frames:
        w.sample({"bytes": data[:120].hex(), "frames": [f.id for f in ts[0].frames]})


def silence(r, t):
    """Some writers flag unsynchronisation in the tag alone, not in each frame"""
    if t.ver == 4 and t.unsync and r.random() < .4:
        one = r.random() < .5
        for f in t.frames:
            f.silent = one or r.random() < .5
        if t.ext and t.ext.get("crc") is not None:
            t.ext["crc"] = zlib.crc32(b"".join(f.raw() for f in t.frames) + b"\0" * t.pad)


def tags(w, no):
    r = w.rng
    ts = [gen.tag(r) for _ in range(r.choice((1, 1, 1, 2, 3)))]
    for t in ts:
        silence(r, t)
    decode(w, ts, gen.audio(r, 60))


def single(w, no):
    """one frame of each kind in every layout"""
    r = w.rng
    k = ("text", "unk", "ufid", "txxx", "comm", "pcnt", "popm", "xtag", "priv", "encr")
    n = int(no.split(":")[1])
    ver = 2 + n % 3
    f = gen.frame(r, ver, (k[n // 3 % len(k)],))
    f.gid = f.cmp = f.dli = None
    if ver > 2:
        f.cmp = bool(n // 30 & 1)
        f.gid = r.randrange(0x80, 0xf1) if n // 60 & 1 else None
        f.tap, f.fap, f.ro = r.randrange(2), r.randrange(2), r.randrange(2)
    t = gen.Tg(ver, [f], r.choice((0, 1, 5, 40)))
    t.unsync = bool(n // 120 & 1)
    if ver == 4:
        f.unsync = t.unsync or r.random() < .5
        f.dli = r.random() < .5
        silence(r, t)
    if ver > 2 and n // 240 & 1:
        t.ext = {"pad": t.pad, "crc": r.choice((None, r.randrange(1 << 32))), "upd": r.random() < .5,
                 "restr": r.choice((None, r.randrange(256)))}
    decode(w, [t], b"\xff\xfb\x90\x00")


def texts(w, no):
    """every text frame id, every encoding, long and odd text"""
    r = w.rng
    n = int(no.split(":")[1])
    ver = 2 + n % 3
    ids = TEXT2 if ver == 2 else TEXT3
    fs = []
    for j in range(r.randint(1, 4)):
        fid = ids[(n // 3 + j) % len(ids)]
        e = r.choice((0, 1)) if ver < 4 else r.randrange(4)
        s = gen.text(r, ver, e, 60 if r.random() < .8 else 3000)
        fs.append(Fr(ver, fid, bytes([e]) + enc_text(ver, e, s, r.choice(("le", "be")))))
    t = gen.Tg(ver, fs, r.choice((0, 7)))
    t.unsync = r.random() < .4
    if ver == 4:
        for f in fs:
            f.unsync = t.unsync
    decode(w, [t], b"")


def many(w, no):
    """many frames with repeated ids"""
    r = w.rng
    ver = r.choice((2, 3, 4))
    fs = [gen.frame(r, ver, (r.choice(("text", "comm", "pcnt", "popm", "unk")),)) for _ in range(r.choice((r.randint(8, 60), r.randint(8, 60), r.randint(8, 60), 130, 260, 600)))]
    for f in fs:
        f.cmp = False
    decode(w, [gen.Tg(ver, fs, r.choice((0, 200)))], b"")


def big(w, no):
    """sizes around the boundaries of the size fields' bytes"""
    r = w.rng
    ver = r.choice((2, 3, 4))
    n = r.choice((0x7f, 0x80, 0xff, 0x100, 0x3fff, 0x4000, 0xffff, 0x10000, 0x1fffff, 0x200000, 0x3fffff, 0x7fffff, 0xffffff)) + r.choice((-2, -1, 0, 1))
    n = min(n, 0xffffff if ver == 2 else n)
    f = Fr(ver, "PIC" if ver == 2 else "APIC", bytes([r.choice((1, 0x41, 0xff))]) * n)
    if ver > 2 and n < 0x200002 and r.random() < .4:
        # as much as compresses well, but less than what scribbu takes to be impossible
        f.payload = (bytes(r.randrange(256) for _ in range(200)) + bytes(50)) * (n // 250) + bytes(r.randrange(256) for _ in range(n % 250))
        f.cmp = True
    g = gen.frame(r, ver, ("text",))
    t = gen.Tg(ver, [f, g] if r.random() < .5 else [g, f], r.choice((0, 0x80, 0x4000)))
    decode(w, [t], b"xx")


C = Check("C02", [("tags", tags, 6000, 60000), ("single", single, 2400, 24000), ("texts", texts, 2000, 20000),
                  ("many", many, 300, 3000), ("big", big, 60, 400)],
          "distinct tag layouts (version, flags, frame kinds and their format options) whose every reported fact was compared with the independent model",
          assumptions=["encrypted frames are not decoded (scribbu has no decryption)"])
if __name__ == "__main__":
    sys.exit(C.main())
