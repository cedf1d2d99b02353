"""C01: arbitrary bytes never cause memory errors, UB or hangs."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "lib"))
from vlib import *
import gen


def judge(w, data, why):
    r = (getattr(w, "under", None) or w.drv)("gauntlet", hx(data))
    w.count("bytes", len(data))
    w.check("ex" not in r, "escaped " + str(r.get("ex")), "exception escaped: %r" % r)
    w.check("nonstd" not in r, "non-standard exception", "%r" % r)
    w.count("exceptions_reported", r["exc"])
    w.count("operations", r["done"])
    w.count("tags_parsed", r["tags"])
    w.seen(r["tags"], r["exc"], r["h"])
    if r["tags"]:
        w.sample({"why": why, "input": data[:200].hex(), "tags": r["tags"], "exceptions": r["exc"]})


def memcheck(w):
    if not hasattr(w, "mc"):
        p = os.path.join(w.scratch, "memcheck")
        with open(p, "w") as f:
            f.write("#!/bin/sh\nexec valgrind -q --exit-on-first-error=yes --error-exitcode=78 %s\n" % PLAIN[0])
        os.chmod(p, 0o755)
        d = os.path.join(w.scratch, "mc")
        os.mkdir(d)
        w.mc = Drv(p, d, timeout=w.chk.timeout)
    return w.mc


PLAIN = []


def build():
    PLAIN.append(builder.Builder("plain").build("drv", HARNESS))
    return builder.Builder("asan").build("drv", HARNESS)


def valid(w, no):
    judge(w, gen.file_bytes(w.rng)[0], "well-formed file")


def mutated(w, no):
    b = gen.file_bytes(w.rng, ntags=w.rng.choice((0, 1, 1, 1, 2)))[0]
    judge(w, gen.mutate(w.rng, b), "mutated file")


def truncated(w, no):
    b = gen.file_bytes(w.rng, ntags=1)[0]
    judge(w, b[:w.rng.randint(0, len(b))], "truncated file")


def tiny(w, no):
    judge(w, gen.tiny_tag(w.rng) + (gen.blob(w.rng, 20) if w.rng.random() < .5 else b""), "frame soup")


def framecut(w, no):
    """every prefix of a frame payload, as the last frame of a tag without padding"""
    r = w.rng
    ver = r.choice((2, 3, 4))
    f = gen.frame(r, ver)
    k = r.randint(0, len(f.payload))
    if r.random() < .5:
        k = min(k, r.randint(0, 8))
    f.payload = f.payload[:k]
    t = gen.Tg(ver, [f], r.choice((0, 0, 0, 5)))
    judge(w, t.raw(), "frame cut short")


def mpeg(w, no):
    r = w.rng
    ver, layer, sri = r.choice((1, 2, 25)), r.choice((1, 2, 3, 3)), r.randrange(3)
    fs = [gen.mpeg_frame(r, ver, layer, r.randrange(14), sri, r.randrange(2), fill=0)[0] for _ in range(r.randint(1, 3))]
    b = bytearray(fs[0])
    if r.random() < .7:
        at = r.choice((36, 21, 13, 36, 32 + 4, 17 + 4, 9 + 4))
        tag = r.choice((b"Xing", b"Info", b"VBRI"))
        x = tag + bytes(r.choice((0, 0, 1, 2, 255, r.randrange(256))) for _ in range(r.choice((4, 8, 12, 120, 160))))
        if r.random() < .4 and len(x) > 124:
            x = x[:120] + b"LAME" + x[124:]
        b[at:at + len(x)] = x
        if r.random() < .3:
            b = b[:r.randint(4, len(b))]
    data = bytes(b) + b"".join(fs[1:])
    if r.random() < .3:
        data = gen.mutate(r, data)
    judge(w, data, "MPEG frames")


def noise(w, no):
    r = w.rng
    n = r.choice((0, 1, 2, 3, 9, 10, 11, 127, 128, 129, 354, 355, 356, r.randint(0, 600)))
    m = r.random()
    b = bytes(r.choice((0, 0xff, 0xfb, 0x90, r.randrange(256))) for _ in range(n))
    if m < .3:
        b = b"ID3" + b
    elif m < .5:
        b = b + b"TAG" + bytes(r.randrange(256) for _ in range(r.choice((125, 124, 126, 10))))
    elif m < .65:
        b = b + b"TAG+" + bytes(r.randrange(256) for _ in range(r.choice((351, 350, 223))))
    judge(w, b, "noise")


def big(w, no):
    """declared sizes far beyond the input, and long but honest inputs"""
    r = w.rng
    m = r.random()
    ver = r.choice((2, 3, 4))
    if m < .5:
        t = bytearray(gen.tag(r, ver).raw())
        t[6:10] = gen.syncsafe(r.choice((1 << 20, (1 << 27) + 5, (1 << 28) - 1, 1 << 14)))
        judge(w, bytes(t), "oversized declaration")
    elif m < .75 and ver > 2:
        f = gen.frame(r, ver, ("unk", "text", "priv"))
        f.cmp = True
        raw = bytearray(f.raw())
        raw[10:14] = r.choice((b"\x0f\xff\xff\xff", b"\x7f\x7f\x7f\x7f", b"\xff\xff\xff\xff", b"\0\0\0\1"))
        b = bytes(raw)
        judge(w, b"ID3" + bytes([ver, 0, 0]) + gen.syncsafe(len(b)) + b, "false decompressed size")
    else:
        fs = [gen.frame(r, ver) for _ in range(r.randint(100, 400))]
        judge(w, gen.Tg(ver, fs, r.randrange(5000), unsync=r.random() < .3).raw() + b"\0" * 20000, "many frames")


def defined(w, no):
    """Any of the above, under Memcheck, which follows every bit that was never given a value"""
    w.under = memcheck(w)
    try:
        w.rng.choice((valid, mutated, mutated, truncated, tiny, framecut, mpeg, noise))(w, no)
        w.count("followed_by_memcheck")
    finally:
        w.under = None


if __name__ == "__main__":
    sys.exit(Check("C01", [
        ("valid", valid, 1600, 20000), ("mutated", mutated, 4800, 120000), ("truncated", truncated, 1600, 30000),
        ("tiny", tiny, 4800, 150000), ("framecut", framecut, 2400, 60000), ("mpeg", mpeg, 1600, 40000),
        ("noise", noise, 2400, 60000), ("big", big, 160, 2000),
        ("defined", defined, 1600, 40000)],
        "Files are generated structure-aware (valid, mutated, truncated, frame soup, MPEG headers, noise, false sizes) and run "
        "through every reading, printing and re-serialising entry point under ASan+UBSan with poisoned fresh memory, "
        "some of them under Memcheck instead; an observation is distinct when (tags parsed, exceptions, digest of every outcome) differs.",
        timeout=30, exe_builder=build).main())
