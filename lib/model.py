"""Comparing what scribbu reports with what the formats say."""
from id3 import *
from vlib import ux, is_ex


def text_ok(got, want):
    """scribbu trims trailing NULs and spaces off converted text"""
    if got == want:
        return True
    return got.rstrip("\0 ") == want.rstrip("\0 ") and len(got) < len(want)


def S(x):
    return ux(x).decode("utf-8")


def check_frame(w, d, f, pre="", flags=True):
    """D, a frame as dumped by the driver, against F (a model frame)"""
    at = "%s frame %s" % (pre, f.id)
    k = f.kind
    w.eq(ux(d["id"]), f.id.encode("latin-1"), "frame id", at)
    w.eq(d["exp"], f.id[0] in "XYZ", "frame experimental", at)
    if f.ver > 2 and flags:
        w.eq((int(d["tap"]), int(d["fap"]), int(d["ro"])), (f.tap, f.fap, f.ro), "frame status flags", at)
        w.eq((d["cmp"], d["grp"], d["enc"]), (bool(f.cmp), f.gid is not None, False), "frame format flags", at)
    if f.ver == 4 and flags and not f.silent:
        w.eq(d["uns"], bool(f.unsync), "frame unsynchronisation flag", at)
    w.eq(d["size"], len(f.payload), "frame size", at)
    fx = facts(f)
    if fx is None:
        return
    w.eq(d["k"], k, "frame kind", at)
    if k == "text":
        w.eq(d["uni"], fx["uni"], "text encoding", at)
        w.eq(ux(d["raw"]), fx["raw"], "text bytes", at)
        w.check(not is_ex(d["str"]), "text conversion", "%s: %r for %r" % (at, d["str"], fx["str"]))
        w.check(text_ok(S(d["str"]), fx["str"]), "text value", "%s: got %r want %r" % (at, S(d["str"]), fx["str"]))
    elif k == "unk":
        w.eq(ux(d["raw"]), fx["raw"], "frame data", at)
    elif k in ("ufid", "priv"):
        w.eq((ux(d["owner"]), ux(d["data"])), (fx["owner"], fx["data"]), k + " fields", at)
    elif k == "encr":
        w.eq((ux(d["owner"]), d["sym"], ux(d["data"])), (fx["owner"], fx["sym"], fx["data"]), "encr fields", at)
    elif k in ("txxx", "comm"):
        w.eq((d["uni"], ux(d["draw"]), ux(d["raw"])), (fx["uni"], fx["draw"], fx["raw"]), k + " bytes", at)
        if k == "comm":
            w.eq(ux(d["lang"]), fx["lang"], "comm language", at)
        for n in ("dsc", "str"):
            w.check(not is_ex(d[n]), k + " conversion", "%s: %r for %r" % (at, d[n], fx[n]))
            w.check(text_ok(S(d[n]), fx[n]), "%s %s" % (k, n), "%s: got %r want %r" % (at, S(d[n]), fx[n]))
    elif k == "pcnt":
        w.eq(d["count"], fx["count"], "play count", at)
    elif k == "popm":
        w.eq((ux(d["owner"]), d["rating"]), (fx["owner"], fx["rating"]), "popm fields", at)
        w.eq(d["count"], fx["count"], "popm count", at)
    elif k == "xtag":
        w.eq(ux(d["owner"]), fx["owner"], "xtag owner", at)
        w.eq({ux(a): {ux(x) for x in b} for a, b in d["cloud"].items()}, fx["cloud"], "xtag cloud", at)


def check_lookups(w, d, t, pre=""):
    """Every convenience accessor of dumped tag D against the frames of T"""
    v = t.ver - 2
    for name, ids in NAMES.items():
        fs = [f for f in t.frames if f.id == ids[v]]
        a = d[name]
        w.eq(a["n"], len(fs), "has_" + name, pre)
        if fs and all(facts(f) for f in fs):
            w.check(not is_ex(a["v"]), name + " accessor", "%s: %r" % (pre, a["v"]))
            w.check(any(text_ok(S(a["v"]), facts(f)["str"]) for f in fs), name + " accessor",
                    "%s: got %r, want %r" % (pre, S(a["v"]), [facts(f)["str"] for f in fs]))
    fs = [f for f in t.frames if f.kind == "pcnt"]
    w.eq(d["play_count"]["n"], len(fs), "has_play_count", pre)
    if len(fs) > 1 and is_ex(d["play_count"]["v"]):
        w.eq(d["play_count"]["v"]["what"], "multiple play counts", "play_count accessor", pre)
    elif fs and all(facts(f) for f in fs):
        w.check(any(d["play_count"]["v"] == facts(f)["count"] for f in fs), "play_count accessor",
                "%s: got %r, want %r" % (pre, d["play_count"]["v"], [facts(f)["count"] for f in fs]))
    ids = []
    for f in t.frames:
        if f.id not in ids:
            ids.append(f.id)
    w.eq(sorted(ux(x).decode("latin-1") for x in d["lookup"]), sorted(ids), "lookup ids", pre)
    for i in ids:
        e = d["lookup"][i.encode("latin-1").hex()]
        at = [n for n, f in enumerate(t.frames) if f.id == i]
        w.eq(e["n"], len(at), "has_frame", "%s %s" % (pre, i))
        w.check(not is_ex(e["got"]), "get_frame", "%s %s: %r" % (pre, i, e["got"]))
        w.check(e["got"]["at"] in at, "get_frame", "%s %s: found at %r, present at %r" % (pre, i, e["got"], at))
    cm = [facts(f) for f in t.frames if f.kind == "comm"]
    if all(cm):
        w.eq(sorted(ux(x) for x in d["comments"]), sorted(f["raw"] for f in cm), "get_comments", pre)
    pc = [facts(f) for f in t.frames if f.kind == "pcnt"]
    if all(pc):
        w.eq(sorted(int.from_bytes(ux(x), "big") for x in d["pcnts"]), sorted(f["count"] for f in pc), "get_play_counts", pre)
    pm = [facts(f) for f in t.frames if f.kind == "popm"]
    if all(pm):
        def norm(b):
            i = b.index(0)
            return b[:i], b[i + 1], int.from_bytes(b[i + 2:], "big")
        w.eq(sorted(norm(ux(x)) for x in d["popms"]), sorted((f["owner"], f["rating"], f["count"]) for f in pm),
             "get_popularimeters", pre)


def check_ext(w, d, t, pre=""):
    w.eq("ext" in d, t.ext is not None, "extended header present", pre)
    if t.ext is None:
        return
    x = d["ext"]
    w.eq(x.get("crc") if x["hascrc"] else None, t.ext["crc"], "extended header CRC", pre)
    if t.ver == 3:
        w.eq(x["padsz"], t.ext["pad"], "extended header padding size", pre)
    else:
        w.eq((x["upd"], x["restr"]), (bool(t.ext["upd"]), t.ext["restr"] is not None), "extended header flags", pre)
        if t.ext["restr"] is not None:
            r = t.ext["restr"]
            w.eq((x["r0"], x["r1"], x["r2"], x["r3"], x["r4"]),
                 (r >> 6, bool(r & 0x20), r >> 3 & 3, bool(r & 4), r & 3), "tag restrictions", pre)


def check_tag(w, d, t, pre="", flags=True):
    """Dumped tag D against model tag T: everything but sizes"""
    w.eq((d["ver"], d["rev"]), (t.ver, t.rev), "version", pre)
    w.eq(d["cls"], str(t.ver), "class", pre)
    if flags and t.unsync is not None:
        w.eq(d["unsync"], bool(t.unsync), "unsynchronised", pre)
    w.eq(d["pad"], t.pad, "padding", pre)
    w.eq(d["nf"], len(t.frames), "number of frames", pre)
    w.eq(len(d["frames"]), len(t.frames), "frames iterated", pre)
    if t.ver > 2:
        w.eq(d["exp"], bool(t.exp), "experimental", pre)
        check_ext(w, d, t, pre)
    if t.ver == 4 and flags:
        w.eq(d["footer"], bool(t.footer), "footer", pre)
    for i, f in enumerate(t.frames):
        check_frame(w, d["frames"][i], f, "%s[%d]" % (pre, i), flags)
    check_lookups(w, d, t, pre)


def shape(t):
    """What is worth telling apart about a tag"""
    return (t.ver, t.unsync, t.ext is not None, t.pad > 0, t.footer,
            tuple((f.kind, f.cmp, f.gid is not None, f.unsync, len(f.payload) & 7) for f in t.frames))
