"""C26: what probing and reading do to a stream."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "lib"))
from vlib import *
from id3 import *
import gen

OPS = ("look:0", "look:1", "maybe", "read:0", "read:1", "read:2", "all", "ends1", "proc1", "find1", "md5", "track", "dur", "sync", "v1:0", "v1:1", "v1w",
       "tag:2", "tag:3", "tag:4", "tagh")


def header(b, p):
    """(size of a tag at P, version), going by the header, or None"""
    h = b[p:p + 10]
    if len(h) < 10 or h[:3] != b"ID3" or h[3] == 255 or h[4] == 255 or max(h[6:]) > 127:
        return None
    return 10 + from_syncsafe(h[6:]) + (10 if h[3] == 4 and h[5] & 16 else 0), h[3]


def heads(b):
    """where the ID3v2 tags B begins with end, going by their headers"""
    p = 0
    while True:
        h = header(b, p)
        if not h or p + h[0] > len(b):
            return p
        p += h[0]


def v1at(b):
    """(start, kind) of an ID3v1 tag; what lies within an ID3v2 tag is none"""
    if len(b) >= 128 and b[-128:-125] == b"TAG":
        e = heads(b)
        if len(b) >= 355 and b[-355:-351] == b"TAG+" and e <= len(b) - 355:
            return len(b) - 355, 2
        if e <= len(b) - 128:
            return len(b) - 128, 1
    return len(b), 0


def inside(b, p):
    """whether P is within a tag: what's the track, from there, is anyone's guess"""
    return v1at(b)[0] < p < len(b) or 0 < p < heads(b) or p == 0 and (v1at(b)[1] == 0 or heads(b) > len(b) - 355)


def after(b, p, op, ans):
    """Where a stream of B must be after OP at P that was answered by ANS (None: no saying)"""
    ex = isinstance(ans, dict) and is_ex(ans)
    o, _, arg = op.partition(":")
    h = header(b, p)
    if o == "look":
        return p + 10 if h and arg == "0" else p
    if o in ("ends1", "proc1", "find1"):
        return p
    if o == "tag" and not ex and h and h[1] != int(arg):
        return None         # read as what it isn't
    if o in ("maybe", "tag", "tagh"):
        return p + h[0] if ans is not None and not ex and h else p
    if o == "read":
        if ex:
            return p
        for _ in range(int(arg) + 1):
            h = header(b, p)
            if not h:
                return -1
            p += h[0]
        return p
    if o == "all":
        if ex:
            return None
        for _ in ans:
            h = header(b, p)
            if not h:
                return -1
            p += h[0]
        return p
    if o in ("md5", "track"):
        s = v1at(b)[0]
        return None if ex or inside(b, p) else s if s >= p else len(b)
    if o in ("v1", "v1w"):
        n = 355 if arg == "1" or o == "v1w" and len(b) - p == 355 else 128
        return p if ex else p + n
    return None


def stream(r):
    b, ts, a, v = gen.file_bytes(r, v1p=.5)
    marks, i = [0], 0
    for t in ts:
        i += len(t.raw())
        marks.append(i)
    if r.random() < .15:
        b = r.choice((b"", b"ID3", b"TAG", b[:r.randint(0, len(b))], b"TAG" + b"\0" * 125, b"TAG+" + b"\0" * 223 + b"TAG" + b"\0" * 125, b"ID3\x05\0\0\0\0\0\x01x", b"ID3\x03\0\0\0\0\0\0", r.randbytes(127), r.randbytes(128), r.randbytes(354), r.randbytes(355)))
    elif r.random() < .4:
        b = gen.mutate(r, b)
    s = v1at(b)[0]
    marks += [s, len(b), s + 227, max(0, s - 1), len(b) - 128, len(b) - 355, len(b) - 10, r.randint(0, len(b)), r.randint(0, len(b)), 1, 10]
    return b, [m for m in marks if 0 <= m <= len(b)]


def run(w, mask, b, steps):
    return w.drv("probes", mask, hx(b), *steps)


def seq(w, no):
    r = w.rng
    b, marks = stream(r)
    mask = r.choice((0, 0, 6, 7, 7, 1, 2, 3, 4, 5)) | (8 if r.random() < .4 else 0)
    steps = []
    for _ in range(r.choice((1, 2, 3, 5, 8))):
        if not steps or r.random() < .35:
            steps.append("seek:%d" % r.choice(marks))
        steps.append(r.choice(OPS))
    out = run(w, mask, b, steps)
    p = 0
    for i, (st, x) in enumerate(zip(steps, out)):
        what = "step %d of %s, mask %d, from %d of %d: %s" % (i, " ".join(steps), mask, p, len(b), repr(x)[:300])
        w.eq(x["mask"], mask & 7, "error-reporting mode", what)
        if st.startswith("seek"):
            p = int(st[5:])
            w.eq(x["pos"], p, "seek", what)
            continue
        if not 0 <= p <= len(b):
            continue        # a duration that goes by frame counts may well end up past the end
        o = st.partition(":")[0]
        q = after(b, p, st, x["r"])
        if q is not None:
            w.eq(x["pos"], q, "position after " + o, what)
        if o not in ("dur", "sync"):
            w.eq(x["st"], 0, "state after " + o, what)
        h = header(b, p)
        if o == "look":
            w.eq(x["r"]["present"], bool(h), "whether there is an ID3v2 tag", what)
            if h:
                w.eq((x["r"]["ver"], x["r"]["rev"], x["r"]["flags"], x["r"]["size"]), (h[1], b[p + 4], b[p + 5], from_syncsafe(b[p + 6:p + 10])), "header", what)
        elif o == "ends1":
            s, k = v1at(b)
            # of any kind: one that's enhanced is "extended"
            w.eq(x["r"]["type"] != 0 if not k else x["r"]["type"] != 0 and (x["r"]["start"], x["r"]["end"]) == (s, len(b)), bool(k), "whether there is an ID3v1 tag", what)
        elif o == "find1" and not inside(b, p):
            s = v1at(b)[0]
            w.eq((x["r"]["here"], x["r"]["tag"]), (p, s if s >= p else len(b)), "extents of a track", what)
        elif o in ("maybe", "tagh", "all"):
            if not h:
                w.check(x["r"] is None or x["r"] == [], "a tag where there is none", what)
        # alone, on a fresh stream, at the same place, without exceptions
        if i:
            y = run(w, 0, b, ["seek:%d" % p, st])[1]
            w.eq(x["r"], y["r"], "answer of " + o + " depends on what was asked before", what + " / " + repr(y)[:300])
            if o not in ("dur", "sync"):
                w.eq(x["pos"], y["pos"], "position after " + o + " depends on what was asked before", what)
        w.seen(o, mask, isinstance(x["r"], dict) and is_ex(x["r"]), bool(h), p == len(b), v1at(b)[1])
        w.count("failed" if isinstance(x["r"], dict) and is_ex(x["r"]) else "answered")
        p = x["pos"]


if __name__ == "__main__":
    sys.exit(Check("C26", [("seq", seq, 10000, 200000)], "distinct (operation, mode, outcome, kind of place) seen").main())
