"""C17: text fields set and deleted from the command line."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "lib"))
from vlib import *
import cmd
from cmd import *
from id3 import *
from edit import FIELDS, FIELD2
import gen

OPTS = {"talb": ("-a", "--album"), "tpe1": ("-A", "--artist"), "tenc": ("-e", "--encoded-by"), "tcon": ("-g", "--genre"),
        "tit2": ("-T", "--title"), "trck": ("-k", "--track"), "tyer": ("-y", "--year")}
ALIAS = {"album": "talb", "artist": "tpe1", "encoded-by": "tenc", "genre": "tcon", "content-type": "tcon", "title": "tit2", "track": "trck",
         "year": "tyer", "composer": "tcom", "date": "tdat", "length": "tlen", "languages": "tlan", "sub-title": "tit3"}
V1AT = {"tit2": (3, "title"), "tpe1": (33, "artist"), "talb": (63, "album")}
KNOWN = sorted(set(FIELD2) | {"town", "trsn", "trso"})
ENCS = {"UTF-8": "utf-8", "ISO-8859-1": "latin-1", "ASCII": "ascii", "CP1252": "cp1252", "ISO-8859-2": "iso8859-2", "KOI8-R": "koi8-r",
        "ISO-8859-15": "iso8859-15", "EUC-JP": "euc-jp", "SHIFT-JIS": "shift-jis", "GB18030": "gb18030", "CP1251": "cp1251", "BIG5": "big5"}


def fid(ver, name):
    return FIELD2.get(name) if ver == 2 else FIELDS.get(name, name.upper())


def tag(r):
    t = gen.tag(r, ext=False, unsync=False, kinds=("text",))
    ver, seen, fs = t.ver, set(), []
    for _ in range(r.choice((0, 1, 2, 4, 7))):
        if r.random() < .65:
            f = gen.frame(r, ver, ("text",))
            if r.random() < .7:
                f.id = fid(ver, r.choice(tuple(OPTS) + ("tcom", "tope", "tbpm")))
            if f.id in seen:
                continue
            seen.add(f.id)
        else:
            f = gen.frame(r, ver, ("unk", "ufid", "txxx", "comm", "pcnt", "popm") + (("priv",) if ver > 2 else ()))
        fs.append(f)
    t.frames = fs
    if not fs:
        t.pad, t.footer = 30, False
    if r.random() < .2:
        t.unsync = True
        for f in fs:
            f.unsync = ver == 4
    else:
        for f in fs:
            f.unsync = False
    return t


def mk(r):
    tags = [tag(r) for _ in range(r.choice((0, 1, 1, 2, 3)))]
    v1, d = cmd.ascv1(r) if r.random() < .5 else (b"", None)
    f = File(tags, gen.audio(r) or b"x", v1)
    f.d = d
    return f


class Refuse(Exception):
    pass


def apply(ver, frames, o, have=()):
    """FRAMES after deletions and settings; HAVE: frames of a tag just made"""
    out = [(f.id, kept(f)) for f in frames] + [(x.id, x) for x in have]
    new, n = [], 0
    for name in o.dels:
        i = fid(ver, name)
        if i is None:
            raise Refuse(name)
        k = [j for j, (a, x) in enumerate(out) if a == i]
        if k:
            del out[k[0]]
            n += 1
    for name, s in o.sets.items():
        if ver < 4 and any(ord(c) > 0xffff for c in s):
            raise Refuse(s)
        i = fid(ver, name)
        k = [j for j, (a, x) in enumerate(out) if a == i]
        n += 1
        if k:
            out[k[0]] = (i, Want(i, {"str": s}, flags=out[k[0]][1].flags))
        else:
            new.append(Want(i, {"str": s}, flags=(False, False, False, None)))
    return [x for a, x in out], new, n


def tail(f, o):
    """What should follow the tags"""
    if not f.v1 or o.tags:
        return f.audio + f.v1, 0
    v, n, loose = bytearray(f.v1), 0, []
    at = len(v) - 128
    for name in o.dels:
        if name in V1AT:
            k = at + V1AT[name][0]
            v[k:k + 30] = bytes(30)
            n += 1
    for name, s in o.sets.items():
        if name in V1AT:
            n += 1
            k = at + V1AT[name][0]
            if s.isascii() and len(s) <= 30:
                v[k:k + 30] = s.encode().ljust(30, b"\0")
            else:
                loose.append((k, k + 30))
                if at:
                    j = 4 + 60 * (V1AT[name][0] // 30)
                    loose.append((j, j + 60))
    if not loose:
        return f.audio + bytes(v), n

    def look(b):
        if b[:len(f.audio)] != f.audio:
            return "audio has changed"
        x, y = bytearray(b[len(f.audio):]), bytearray(v)
        for i, j in loose:
            x[i:j] = y[i:j] = b"?" * (j - i)
        return None if x == y else "ID3v1 tag %r, not %r" % (x, y)
    return look, n


def model(f, o):
    tl, n1 = tail(f, o)
    if not f.tags:
        if o.create == "always" or (o.create == "v1" and f.v1):
            ws, new, n = apply(3, [], o, from_v1(f.d) if f.v1 else ())
            return [WTag(3, [], ws + new)], tl
        return ([], tl) if n1 else None
    out, dirty, some = [], n1, n1
    for i, t in enumerate(f.tags):
        if o.tags and i not in o.tags:
            out.append(cmd.same(t))
            continue
        some = True
        ws, new, n = apply(t.ver, t.frames, o)
        dirty += n
        out.append(WTag(t.ver, ws, new, t.exp))
    if not some:
        return None
    return (out, tl) if dirty else (out, tl, "maybe")


class O:
    def __repr__(self):
        return repr(self.__dict__)


def value(r, enc):
    m = r.random()
    if m < .3:
        s = gen.asc(r, 40, 0).decode()
    elif m < .35:
        s = gen.asc(r, 2000, 500).decode()
    else:
        s = gen.text(r, 4, 3, r.choice((5, 20, 60)), empty=True)
        if r.random() < .9:
            s = "".join(c for c in s if ord(c) < 0x10000)
        if enc not in ("utf-8", "gb18030"):
            s += r.choice(("é", "ñ", "ж", "ł", "三", "ア", "€", ""))
    s = s.replace("\0", "").replace("﻿", "")
    b = s.encode(enc, "ignore").replace(b"\0", b"")
    s = b.decode(enc, "ignore").strip(" \t\r\n")
    # what has several encodings there isn't settled
    b = s.encode(enc)
    return s, b


def options(r):
    o, a = O(), ["text"]
    o.sets, o.dels, o.tags = {}, [], []
    name = None
    if r.random() < .4:
        name = r.choice(sorted(ENCS))
        a += opt(r, "-E", "--encoding", name)
    enc = ENCS[name] if name else "utf-8"
    for k in r.sample(sorted(OPTS), r.choice((0, 1, 1, 2, 3, 7))):
        s, b = value(r, enc)
        # (CJK sets & their tables differ in what's beyond kana & kanji)
        if enc in ("euc-jp", "shift-jis", "big5", "gb18030"):
            s = "".join(c for c in s if c.isascii() and c not in "\\~" or c in ("三" if enc == "big5" else "三ア"))
            b = s.encode(enc)
        o.sets[k] = s
        so, lo = OPTS[k]
        if not b:
            a += [so, b""]
        elif b[:1] == b"-":
            a.append(lo.encode() + b"=" + b)
        else:
            a += r.choice(([so, b], [lo, b], [lo.encode() + b"=" + b]))
    for _ in range(r.choice((0, 0, 1, 2, 3))):
        n = r.choice(KNOWN if r.random() < .4 else tuple(OPTS))
        al = [n, n.upper()] + [x for x, y in ALIAS.items() if y == n]
        if n in FIELD2:
            al += [FIELD2[n], FIELD2[n].lower()]
        o.dels.append(n)
        a += opt(r, "-d", "--delete", r.choice(al))
    o.create = r.choice(("never", "never", "v1", "always"))
    if o.create == "v1":
        a += opt(r, "-c", "--create-v2")
    elif o.create == "always":
        a += opt(r, "-C", "--always-create-v2")
    if r.random() < .35:
        for _ in range(r.choice((1, 1, 2))):
            o.tags.append(r.choice((0, 0, 1, 1, 2, 7)))
            a += opt(r, "-t", "--tag", str(o.tags[-1]))
    o.bk = r.random() < .2
    if o.bk:
        a += opt(r, "-b", "--create-backups")
    if r.random() < .3:
        a += opt(r, "-u", "--adjust-unsync")
    if r.random() < .15:
        a += opt(r, "-v", "--verbose")
    return o, [x if isinstance(x, bytes) else x.encode() for x in a]


def one(w, no):
    r = w.rng
    d, files, before = cmd.tree(w, r, mk)
    o, a = options(r)
    args, todo = cmd.targets(r, files)
    wants, stop = {}, False
    for n in todo:
        try:
            wants[n] = model(files[n], o)
        except Refuse:
            stop = True
            wants[n] = None
    x = cmd.run(w, d, a + [s.encode() for s in args])
    what = "%r %r %r -> rc %d sig %d %r" % (a + args, o, files, x["rc"], x["sig"], ux(x["err"])[-300:])
    w.eq(x["sig"], 0, "killed by a signal", what)
    if stop:
        w.check(x["rc"] != 0, "what can't be done wasn't refused", what)
    else:
        w.eq(x["rc"], 0, "exit status", what)
    cmd.compare(w, d, before, files, wants, o.bk, what, failed=stop)
    w.count("refused" if stop else "runs")
    w.seen("text", tuple(sorted(o.sets)), tuple(sorted(o.dels))[:1], o.create, bool(o.tags), o.bk, stop)


BAD = (["-c", "-C"], ["-d", "nosuch"], ["-d", ""], ["-E", "nosuch"], ["-t", "x"], ["--nosuch"], ["-T"])


def bad(w, no):
    """Commands that make no sense change nothing"""
    r = w.rng
    d, files, before = cmd.tree(w, r, mk)
    args, todo = cmd.targets(r, files)
    b = r.choice(BAD)
    a = ["text"] + r.choice(([], ["-C"] if "-c" not in b else [])) + ["-A", "X"] + args + b
    x = cmd.run(w, d, a)
    what = "%r -> rc %d sig %d %r" % (a, x["rc"], x["sig"], ux(x["err"])[-300:])
    w.eq(x["sig"], 0, "killed by a signal", what)
    w.check(x["rc"] != 0, "nonsense accepted", what)
    cmd.compare(w, d, before, files, {}, False, what)
    w.seen("bad", tuple(b))


if __name__ == "__main__":
    sys.exit(Check("C17", [("one", one, 2600, 50000), ("bad", bad, 100, 1000)],
                   "distinct (fields, options, outcome) seen", cli=True, env={"LANGUAGE": "en"}).main())
