#!/usr/bin/env python3
"""C28: readable dumps"""
import hashlib
import os
import re
import sys
import time
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "lib"))
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from vlib import *
import cmd
from cmd import opt
from files import put
from id3 import *
import gen
import genres

LANGS = [x.encode() for x in "eng fra deu spa ita jpn zho rus por abk pol nld swe fin".split()]
NOLANG = (b"xyq", b"\0\0\0", b"qqq", b"E9\xe9", b"\xff\xff\xff")


def line(s):
    """S as one line of text with nothing at its ends that might be trimmed"""
    return re.sub(r"[\0\n]", "_", s).strip(" ")


def txt(r, ver, e, n=40):
    return line(gen.text(r, ver, e, n))


def frame(r, v):
    f = gen.frame(r, v, ("text", "text", "text", "unk", "ufid", "txxx", "comm", "comm", "pcnt", "popm", "xtag", "priv", "encr"))
    f.cmp = f.dli = False
    f.gid = None
    e = gen.encbyte(r, v)
    nul = b"\0\0" if e in (1, 2) else b"\0"
    if f.kind == "text":
        f.payload = bytes([e]) + enc_text(v, e, txt(r, v, e), r.choice(("le", "be")))
    elif f.kind in ("comm", "txxx"):
        f.payload = bytes([e]) + (r.choice(LANGS + [r.choice(NOLANG)]) if f.kind == "comm" else b"") + enc_text(v, e, txt(r, v, e, 12)) + nul + enc_text(v, e, txt(r, v, e))
    elif f.kind == "xtag":
        w = lambda: gen.asc(r, 6, 1) if r.random() < .6 else line(gen.text(r, 4, 3, 6)).replace(",", ".").replace(":", ".").encode() or b"x"
        f.payload = enc_xtag(gen.asc(r), {w(): {w() for _ in range(r.choice((0, 1, 1, 2, 5)))} for _ in range(r.choice((0, 1, 2, 4)))})
    elif f.kind == "pcnt" and r.random() < .4:
        f.payload = r.choice((1, 255, 1 << 32, (1 << 63) + 5, r.getrandbits(64))).to_bytes(8, "big")
    return f


def tag(r):
    v = r.choice((2, 3, 3, 4))
    fs = [frame(r, v) for _ in range(r.choice((0, 1, 1, 2, 3, 6, 12)))]
    first = next((f for f in fs if f.kind == "encr"), None)
    fs = [f for f in fs if f.kind != "encr" or f is first]      # no method twice
    t = Tg(v, fs, r.choice((0, 0, 5, 100)), unsync=r.random() < .15, exp=v > 2 and r.random() < .2)
    if not fs and not t.pad:
        t.pad = 9
    for f in t.frames:
        f.unsync = v == 4 and t.unsync
    return t


def v1tag(r):
    """(bytes, lines with the genre spelled out, lines without)"""
    enh, v11 = r.random() < .4, r.random() < .5

    def t(n):
        s = line(gen.text(r, 3, 0, n))
        return line(s[:n])

    def pad(s, n):
        return s.encode("latin-1").ljust(n, r.choice((b"\0", b"\0", b" ")))
    f = [t(90 if enh else 30) for _ in range(3)]
    if enh:     # how blanks at the seam are treated is not the matter here
        f = [x.replace(" ", "_") for x in f]
    year = r.choice(("1999", "2016", "0001"))
    com = t(28 if v11 else 30)
    if not v11 and len(com) < 30:
        com = com[:28]
    tr = r.randrange(1, 256)
    g = r.randrange(256)
    b = b"TAG" + b"".join(pad(x[:30], 30) for x in f) + year.encode() + (pad(com, 28) + bytes([0, tr]) if v11 else pad(com, 30) if len(com) == 30 else com.encode("latin-1").ljust(30, b"\0")) + bytes([g])
    title, artist, album = f
    ls = ["ID3v1%s%s: %s - %s" % (".1" if v11 else "", " (enhanced)" if enh else "", artist, title),
          "%s%s, %s" % (album, " (track %d)" % tr if v11 else "", year), com]
    name = genres.NAMES[g] if g < len(genres.NAMES) else None
    if enh:
        eg, sp = t(30), r.randrange(5)
        a, z = ("%03d:%02d" % (r.randrange(999), r.randrange(60)) for _ in range(2))
        b = b"TAG+" + b"".join(pad(x[30:], 60) for x in f) + bytes([sp]) + pad(eg, 30) + (a + z).encode() + b
        last = ["%s-%s: speed %d" % (a, z, sp)]
        return b, ls + [eg + "/" + (name or "unrecognized genre")] + last, ls + ["%s/genre %d" % (eg, g)] + last
    return b, ls + [name or "unknown genre %d" % g], ls + ["genre %d" % g]


def lang(b):
    if b in LANGS:
        return b.decode()
    # a language without a name is shown by its octets, up to the first NUL
    return ",".join("0x%02x" % x for x in b)


def show(f):
    """The lines for frame F; each a string, or a function of a line"""
    k, y, v = f.kind, facts(f), f.ver
    if k == "unk":
        return [f.id + ": UNKNOWN"] if v == 2 else ["frame %s (%d bytes)" % (f.id, len(f.payload))]
    if k == "text":
        return ["%s: %s" % (f.id, y["str"])]
    if k == "txxx":
        return ["%s: %s" % (f.id, y["dsc"]), y["str"]]
    if k == "comm":
        return ["%s (%s, %s):" % (f.id, lang(y["lang"]), y["dsc"] or "<no description>"), y["str"] or "<no text>"]
    if k == "ufid":
        return ["%s: %s" % (f.id, y["owner"].decode()), y["data"].hex()]
    if k == "pcnt":
        return ["%s: %d" % (f.id, y["count"])]
    if k == "popm":
        return ["%s: %s" % (f.id, y["owner"].decode()), "rating: %d" % y["rating"], "counter: " + y["cbytes"].hex()]
    if k == "encr":
        return ["%s: %s" % (f.id, y["owner"].decode()), "Method symbol: %d" % y["sym"], "Encryption data: " + y["data"].hex()]
    if k == "priv":
        d = y["data"][:16]
        return ["%s (%s): %d bytes beginning with:" % (f.id, y["owner"].decode(), len(y["data"])),
                " ".join("%02x" % x for x in d) + "  >" + "".join(chr(x) if 31 < x < 127 else "." for x in d) + "<"]
    if k == "xtag":
        return ["%s: %s" % (f.id, y["owner"].decode()), "tags:",
                {(a.decode(), frozenset(b.decode() for b in bs)) for a, bs in y["cloud"].items()}]


def tag_lines(t):
    def get(name):
        fid = NAMES[name][t.ver - 2]
        return {facts(f)["str"] for f in t.frames if f.id == fid} or None

    def size(s):
        m = re.fullmatch(r"(\d+) bytes, (un)?synchronised", s)
        if not m:
            return False
        if t.ver == 4:
            return True
        n = int(m.group(1))
        p = Tg(t.ver, t.frames, t.pad, False, t.ext, t.exp)
        return n in {from_syncsafe(x.raw()[6:10]) for x in (t, p)}
    ls = ["ID3v2.%d(.0) Tag:" % t.ver, size, "flags: 0x%02x" % t.flags()]

    def one_of(fmt, *names):
        """A line with one of the tag's values for each of NAMES"""
        opts = [[]]
        for n in names:
            opts = [o + [x] for o in opts for x in (get(n) or {"<no %s>" % n})]
        return lambda s: s in {(fmt % tuple(o)).strip(" ") for o in opts}
    ls.append(one_of("%s - %s", "artist", "title"))
    ls.append(one_of("%s (track %s), %s", "album", "track", "year") if get("track") else one_of("%s, %s", "album", "year"))
    if get("content_type"):
        ls.append(one_of("Content-type %s", "content_type"))
    if get("encoded_by"):
        ls.append(one_of("Encoded by %s", "encoded_by"))
    for f in t.frames:
        ls += show(f)
    return ls + ["%d bytes of padding" % t.pad]


class F:
    pass


def quoted(p):
    return '"' + p.replace("\\", "\\\\").replace('"', '\\"') + '"'


def eat(w, out, want, ind, what):
    """Check that lines OUT begin with what WANT says; returns the others"""
    for e in want:
        if isinstance(e, set):
            got = set()
            for _ in e:
                w.check(bool(out), "lines are missing", what)
                l, out = out[0].strip(" "), out[1:]
                k, _, v = l.partition(":")
                v = v.strip(" ")
                got.add((k, frozenset(v.split(", ") if v else ())))
            w.eq(got, e, "tag cloud", what)
            continue
        w.check(bool(out), "lines are missing", "%r: %s" % (e, what))
        l, out = out[0], out[1:]
        n = len(l) - len(l.lstrip(" "))
        l = l.strip(" ")
        if callable(e):
            w.check(e(l), "a line of a dump", "%r: %s" % (l, what))
        else:
            w.eq(l, e.strip(" "), "a line of a dump", what)
        w.check(not l or ind <= n <= ind + 6 or n == 0, "indentation", "%r: %s" % (l, what))
        w.count("lines")
    return out


def dump(w, no):
    r = w.rng
    d = w.dir()
    fs = {}
    os.makedirs(os.path.join(d, "in"))
    for i in range(r.choice((1, 1, 2, 3))):
        f = F()
        f.tags = [tag(r) for _ in range(r.choice((0, 1, 1, 2, 3)))]
        f.v1, f.names, f.numbers = v1tag(r) if r.random() < .6 else (b"", [], [])
        front = b"".join(t.raw() for t in f.tags)
        f.audio = gen.untag(front, gen.audio(r), f.v1)
        n = r.choice(("%d.mp3", "%d", 'a "%d".mp3', "b\\%d.mp3", "ü %d.ogg")) % i
        p = os.path.join(d, "in", n)
        put(p, front + f.audio + f.v1)
        f.mtime = r.randrange(1, 2 ** 31)
        os.utime(p, ns=(f.mtime * 10 ** 9 + 5 * 10 ** 8,) * 2)
        fs[n] = f
    a = ["dump"] + r.choice(([], [], ["-f", "standard"], ["--format=std"], ["-f2"]))
    parts = set("2D1")
    if r.random() < .3:
        parts = set(r.sample("2D1", r.choice((1, 2))))
        a += sum((opt(r, "-" + p, {"2": "--id3v2-tags", "D": "--track-data", "1": "--id3v1-tags"}[p]) for p in sorted(parts)), [])
    ind = 0
    if r.random() < .4:
        ind = r.choice((0, 1, 2, 4, 8, 20))
        a += opt(r, "-i", "--indent", str(ind))
    expand = r.random() < .7
    if not expand:
        a += opt(r, "-g", "--no-expand-genre")
    rx = None
    if r.random() < .2:
        rx = r.choice((r".*\.mp3", r"in/.*", r".*[02].*", "nonesuch"))
        a += opt(r, "-e", "--expression", rx)
    if r.random() < .3:
        todo, order = sorted(fs), False
        a += ["in"]
    else:
        todo, order = r.sample(sorted(fs), r.randint(1, len(fs))), True
        if r.random() < .2:
            todo.append(r.choice(todo))
        a += ["in/" + n for n in todo]
    x = cmd.run(w, d, a)
    out = ux(x["out"])
    what = "%r -> rc %d %r" % (a, x["rc"], ux(x["err"])[-200:])
    w.eq(x["sig"], 0, "killed by a signal", what)
    w.check(x["rc"] == 0 and not x["err"], "exit status", what)
    out = out.decode("utf-8", errors="surrogateescape")
    w.check(out == "" or out.endswith("\n\n"), "how it ends", "%r: %s" % (out[-50:], what))
    lines = out.split("\n")[:-1]
    todo = [n for n in todo if rx is None or re.fullmatch(rx, "in/" + n)]

    def want(n):
        f = fs[n]
        ls = ["Last Modified: " + time.strftime("%a, %d %b %y %H:%M:%S UTC", time.gmtime(f.mtime))]
        if "2" in parts:
            for t in f.tags:
                ls += tag_lines(t)
        if "D" in parts:
            ls += ["%d bytes of track data:" % len(f.audio), "MD5: " + hashlib.md5(f.audio).hexdigest()]
        if "1" in parts:
            ls += f.names if expand else f.numbers
        return ls + [""]
    while todo:
        w.check(bool(lines), "a file is missing", "%r: %s" % (todo, what))
        n = todo[0] if order else next((n for n in todo if lines[0] == quoted("in/" + n) + ":"), todo[0])
        w.eq(lines[0], quoted("in/" + n) + ":", "name of a file", what)
        todo.remove(n)
        lines = eat(w, lines[1:], want(n), ind, "%s %r: %s" % (n, [[(f.id, f.payload[:60]) for f in t.frames] for t in fs[n].tags], what))
        while lines and not lines[0]:
            lines = lines[1:]
        w.count("files")
        w.seen("file", tuple((t.ver, tuple(f.kind for f in t.frames)) for t in fs[n].tags), fs[n].v1[:4])
    w.eq(lines, [], "something else", what)
    w.seen("dump", "".join(sorted(parts)), order, ind, expand, rx)
    w.sample({"args": a, "lines": out.split("\n")[:12]})


if __name__ == "__main__":
    sys.exit(Check("C28", [("dump", dump, 2500, 60000)],
                   "distinct (tag versions, kinds of frames) and (options) dumped", cli=True, env={"LANGUAGE": "en"}).main())
