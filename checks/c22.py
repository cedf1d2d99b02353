"""C22: JSON dumps."""
import copy, hashlib, json, os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "lib"))
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from vlib import *
import cmd
from cmd import opt
from files import put
from id3 import *
from model import text_ok
import c21, gen

HOT = [chr(i) for i in range(1, 32)] + ['"', "\\", "/", "\\u0041", "\\n", '"}', "</", "\x7f", "{", "[", "'", ",", '\\"', "\t\n"]
WIDE = [" ", "é", "中", "�", "\u0085", "​", "ÿ"]
ASTRAL = ["\U0001f3b5", "\U00010000", "\U0010ffff"]


def pairs(p):
    d = dict(p)
    if len(d) != len(p):
        raise ValueError("a key twice: %r" % ([k for k, _ in p],))
    return d


def const(x):
    raise ValueError("not JSON: " + x)


DEC = json.JSONDecoder(object_pairs_hook=pairs, parse_constant=const)


def values(b):
    """The values in B, by RFC 8259 (ValueError if that's not what it is)"""
    s, out, i = b.decode("utf-8"), [], 0
    while True:
        while i < len(s) and s[i] in " \t\r\n":
            i += 1
        if i == len(s):
            return out
        v, i = DEC.raw_decode(s, i)
        out.append(v)


def string(r, ver, e, nul=True):
    s = gen.text(r, ver, e, 15)
    if r.random() < .01:
        s += "x" * r.choice((255, 256, 1000, 4090, 5000, 20000)) + gen.text(r, ver, e, 15)
    for _ in range(r.choice((0, 0, 1, 1, 2, 5))):
        i = r.choice((r.randint(0, len(s)), len(s) - r.randint(0, min(8, len(s)))))
        s = s[:i] + r.choice(HOT + ["\0"] * nul + (WIDE if e else ["é", "\u0085"]) + (ASTRAL if e and ver == 4 else [])) + s[i:]
    return s if nul else s.replace("\0", "")


def frame(r, v):
    f = gen.frame(r, v)
    e = gen.encbyte(r, v)
    nul = b"\0\0" if e in (1, 2) else b"\0"
    m = r.random()
    if f.kind == "text":
        f.payload = bytes([e]) + enc_text(v, e, string(r, v, e), r.choice(("le", "be")))
    elif f.kind in ("comm", "txxx"):
        f.payload = bytes([e]) + (gen.asc3(r) if f.kind == "comm" else b"") + enc_text(v, e, string(r, v, e, False)) + nul + enc_text(v, e, string(r, v, e))
    elif f.kind == "xtag" and m < .7:
        w = lambda: string(r, 4, 3, False).encode() or b"x"
        f.payload = enc_xtag(string(r, 4, 3, False).encode(), {w(): {w() for _ in range(r.choice((0, 1, 1, 2, 5)))} for _ in range(r.choice((0, 1, 2, 4)))})
    elif f.kind in ("popm", "ufid", "priv") and m < .7:
        i = f.payload.index(0)
        f.payload = (string(r, 3, 0, False).encode("latin-1") or b"o") + f.payload[i:]
    elif f.kind == "pcnt" and m < .3:
        f.payload = r.choice((1, 255, (1 << 63) - 1, 1 << 63, (1 << 64) - 1, 1 << 32, r.getrandbits(64))).to_bytes(8, "big")
    elif f.kind == "unk" and m < .2:
        f.id = "".join(chr(r.choice((0x22, 0x5c, 0x41, 0x7f, 0xff, 0x80, 0xe9, 0x20, 10, 1))) for _ in range(len(f.id)))
    f.raw_xtag = f.kind == "xtag"
    return f


def tag(r, bad=False):
    v = r.choice((2, 3, 3, 4))
    fs = [frame(r, v) for _ in range(r.choice((0, 1, 1, 2, 3, 6, 12)))]
    t = Tg(v, fs, r.choice((0, 0, 5, 100)), unsync=r.random() < .15, exp=v > 2 and r.random() < .2)
    if bad:
        x = r.random()
        i = r.randint(0, len(fs))
        u = b"\x01\xff\xfe\x00\xd8a\0" if r.random() < .5 else b"\x01\xff\xfea\0\x00\xdc"
        if x < .5:
            fs.insert(i, Fr(v, "TT2" if v == 2 else "TIT2", u, "text"))
        elif x < .7:
            fs.insert(i, Fr(v, "COM" if v == 2 else "COMM", b"\x01eng" + u[1:3] + b"\0\0" + u[1:], "comm"))
        else:
            fs.insert(i, Fr(v, "XTG" if v == 2 else "XTAG", enc_xtag(r.choice((b"o", b"\xff")), {r.choice((b"k", b"\xe9")): {r.choice((b"v", b"\xc3\x28"))}, b"z": {b"\x80"}}), "xtag"))
        t.frames = fs
        t.unsync = False
    for f in t.frames:
        f.unsync = v == 4 and t.unsync
    return t


def check_tag(w, d, t, what):
    w.eq(d.get("version"), "2.%d" % t.ver, "version", what)
    w.eq(d.get("flags"), t.flags(), "flags", what)
    w.eq(d.get("padding"), t.pad, "padding", what)
    w.check(isinstance(d.get("unsynchronised"), bool), "unsynchronised is a boolean", what)
    if t.ver == 4:
        w.eq(d.get("experimental"), bool(t.exp), "experimental", what)
    else:
        p = copy.deepcopy(t)
        p.unsync = False
        ok = {from_syncsafe(x.raw()[6:10]) for x in (t, p)}
        # what was compressed is counted as if it weren't
        if not any(f.cmp for f in t.frames):
            w.check(d.get("size") in ok, "size", "%r, not %r: %s" % (d.get("size"), ok, what))
    w.check(isinstance(d.get("size"), int), "size is a number", what)
    fs = d.get("frames")
    w.check(isinstance(fs, list), "frames is a list", what)
    w.eq([x.get("id") for x in fs], [f.id for f in t.frames], "frames, in their order", what)

    def text(got, want, key):
        w.check(isinstance(got, str) and text_ok(got, want), key, "%r, not %r: %s" % (got, want, what))
    for x, f in zip(fs, t.frames):
        k, y = f.kind, facts(f)
        if k != "unk" and y is None:
            continue
        w.check(isinstance(x.get("size"), int), "size of a frame is a number", what)
        if k != "xtag" and not f.cmp and not f.dli:
            w.check(x["size"] in (len(f.payload), len(f.payload) + (f.gid is not None)), "size of a frame", "%r, not %d: %s" % (x, len(f.payload), what))
        if k == "text":
            text(x.get("text"), y["str"], "text")
        elif k in ("comm", "txxx"):
            text(x.get("description"), y["dsc"], "description")
            text(x.get("text"), y["str"], "text of a comment")
        elif k == "ufid":
            text(x.get("owner"), y["owner"].decode("latin-1"), "owner of an identifier")
        elif k in ("priv", "encr"):
            text(x.get("email"), y["owner"].decode("latin-1"), "owner of private data")
        elif k == "pcnt":
            w.eq(x.get("count"), y["count"], "play count", what)
        elif k == "popm":
            text(x.get("email"), y["owner"].decode("latin-1"), "e-mail address")
            w.eq((x.get("rating"), x.get("count")), (y["rating"], y["count"]), "rating and count", what)
        elif k == "xtag":
            w.eq(x.get("owner"), y["owner"].decode(), "owner of a tag cloud", what)
            got = {}
            for z in x["cloud"]:
                w.check(isinstance(z, str) or isinstance(z, dict) and len(z) == 1, "tag cloud", what)
                key, val = (z, []) if isinstance(z, str) else list(z.items())[0]
                w.check(key not in got, "a tag twice in a cloud", what)
                got[key] = sorted([val] if isinstance(val, str) else val)
            w.eq(got, {a.decode(): sorted(b.decode() for b in v) for a, v in y["cloud"].items()}, "tag cloud", what)
        w.count("frames")
        w.seen("frame", t.ver, k)


def check_v1(w, d, b, row, enc, what):
    v11, enh, artist, title, album, year, comment, genre = row
    want = {"version": "1" + ".1" * int(v11) + "-enh" * int(enh), "artist": artist, "title": title, "album": album, "year": year, "comment": comment, "genre": int(genre)}
    if int(v11):
        want["track"] = b[-2]
    if int(enh):
        want["enhanced-genre"] = c21.trim(b[185:215].decode(c21.CP[enc]))
    got = {k: c21.trim(v) if isinstance(v, str) else v for k, v in d.items()}
    w.eq(got, want, "ID3v1 tag", what)


def lib(w, no):
    r = w.rng
    bad = r.random() < .1
    t = tag(r, bad)
    x = w.drv("parse", 0, hx(t.raw()))
    if is_ex(x):
        w.count("not parsed")
        return
    b = w.drv("print", "json", 0)
    what = repr([(f.id, f.payload[:60]) for f in t.frames])
    if is_ex(b):
        w.check(bad, "a tag can't be printed", "%r %s" % (b, what))
        w.count("unprintable tags")
        return
    try:
        vs = values(ux(b["out"]))
    except ValueError as ex:
        w.check(False, "not JSON", "%s: %r: %s" % (ex, ux(b["out"]), what))
    w.eq(len(vs), 1, "values for one tag", what)
    check_tag(w, vs[0], t, what)
    w.seen("lib", t.ver, len(t.frames), t.unsync)
    if r.random() < .3:
        v, row = c21.v1tag(r, "ISO-8859-1")
        w.drv("v1parse", 1, hx(v), "whole")
        b = w.drv("printv1", "json1", 1)
        try:
            d, = values(ux(b["out"]))
        except ValueError as ex:
            w.check(False, "not JSON", "%s: %r: %s" % (ex, ux(b["out"]), what))
        check_v1(w, d, v, row, "ISO-8859-1", repr(v))


def dump(w, no):
    r = w.rng
    d = w.dir()
    enc = r.choice(("CP1252", "CP1252", "ISO-8859-1"))
    fs = {}
    os.makedirs(os.path.join(d, "in"))
    for i in range(r.choice((1, 1, 2, 3))):
        f = c21.F()
        f.bad = r.random() < .1
        f.tags = [tag(r) for _ in range(r.choice((0, 1, 1, 2)))]
        if f.bad:
            f.tags.insert(r.randint(0, len(f.tags)), tag(r, True))
        f.v1, f.row = c21.v1tag(r, enc) if r.random() < .6 else (b"", None)
        front = b"".join(t.raw() for t in f.tags)
        f.audio = gen.untag(front, gen.audio(r), f.v1)
        put(os.path.join(d, "in", "%d.mp3" % i), front + f.audio + f.v1)
        fs["%d.mp3" % i] = f
    a = ["dump"] + r.choice((["-f", "json"], ["--format=json"], ["-f3"]))
    parts = set("2D1")
    if r.random() < .3:
        parts = set(r.sample("2D1", r.choice((1, 2))))
        a += sum((opt(r, "-" + p, {"2": "--id3v2-tags", "D": "--track-data", "1": "--id3v1-tags"}[p]) for p in sorted(parts)), [])
    if enc != "CP1252":
        a += opt(r, "-c", "--v1-encoding", enc)
    if r.random() < .3:
        todo, order = sorted(fs), False
        a += ["in"]
    else:
        todo, order = r.sample(sorted(fs), r.randint(1, len(fs))), True
        a += ["in/" + n for n in todo]
    x = cmd.run(w, d, a)
    out = ux(x["out"])
    what = "%r -> rc %d %r" % (a, x["rc"], ux(x["err"])[-200:])
    w.eq(x["sig"], 0, "killed by a signal", what)
    w.check(any(fs[n].bad for n in todo) or x["rc"] == 0 and not x["err"], "exit status", what)
    try:
        vs = values(out)
    except ValueError as ex:
        w.check(False, "not JSON", "%s: %r: %s" % (ex, out[-200:], what))

    def want(n):
        f = fs[n]
        return ([("2", t) for t in f.tags] if "2" in parts else []) + ([("D", f)] if "D" in parts else []) + ([("1", f)] if f.v1 and "1" in parts else [])

    def eat(n, vs):
        """Check that VS begins with the values for N; returns the others"""
        for k, t in want(n):
            w.check(bool(vs), "something is missing", "%s %s: %s" % (n, k, what))
            v, vs = vs[0], vs[1:]
            if k == "2":
                check_tag(w, v, t, "%s: %r" % (n, [(f.id, f.payload[:60]) for f in t.frames]))
            elif k == "D":
                w.eq(v, {"md5": hashlib.md5(t.audio).hexdigest()}, "track", n + ": " + what)
            else:
                check_v1(w, v, t.v1, t.row, enc, "%s %r: %s" % (n, t.v1, what))
        return vs
    bad = {n for n in todo if fs[n].bad and "2" in parts}
    if order:
        for n in todo:
            if n not in bad:
                vs = eat(n, vs)
        w.eq(vs, [], "something else", what)
    elif "D" in parts and not bad and len({fs[n].audio for n in todo}) == len(todo):
        # any order: each file's values stand together, and the track tells which
        while vs:
            i = next((i for i, v in enumerate(vs) if "md5" in v), None)
            w.check(i is not None, "something else", what)
            n = [n for n in todo if hashlib.md5(fs[n].audio).hexdigest() == vs[i]["md5"]]
            w.check(bool(n), "a track of no file", what)
            todo.remove(n[0])
            vs = eat(n[0], vs)
        w.eq(todo, [], "files left out", what)
    else:
        w.eq(len(vs), sum(len(want(n)) for n in todo if n not in bad), "number of values", what)
    w.count("files", len(fs))
    w.count("unprintable files", len(bad))
    w.seen("dump", enc, "".join(sorted(parts)), order, len(fs))


def unsynchronised(w, no):
    w.drv("parse", 0, hx(Tg(3, [Fr(3, "TIT2", b"\0a")], 0).raw()))
    d, = values(ux(w.drv("print", "json", 0)["out"]))
    w.eq(d["unsynchronised"], False, "unsynchronised of a tag that isn't", "")


if __name__ == "__main__":
    sys.exit(Check("C22", [("lib", lib, 6000, 150000), ("dump", dump, 900, 25000)],
                   "distinct (tag version, frame kind, shape) and (options) seen", cli=True, env={"LANGUAGE": "en"},
                   known=[("unsynchronised", unsynchronised)]).main())
