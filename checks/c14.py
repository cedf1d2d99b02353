"""C14: name templates expand to the tag values they name."""
import hashlib, os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "lib"))
from vlib import *
from files import *
import gen, genres

FIELDS = ("album", "artist", "content-type", "title")
IDS = {"album": ("TAL", "TALB"), "artist": ("TP1", "TPE1"), "content-type": ("TCO", "TCON"), "title": ("TT2", "TIT2"),
       "encoded-by": ("TEN", "TENC"), "year": ("TYE", "TYER")}
LONG = {"album": ("album",), "artist": ("artist",), "content-type": ("content-type", "genre"), "title": ("title",),
        "encoded-by": ("encoded-by",), "year": ("year",), "basename": ("basename", "file-basename"),
        "extension": ("extension", "file-extension"), "md5": ("md5",), "size": ("size",)}
SHORT = {"album": "L", "artist": "A", "content-type": "G", "title": "T", "encoded-by": "e", "year": "Y", "basename": "b",
         "extension": "E", "md5": "5", "size": "S"}


class Missing(Exception):
    pass


class NoConversion(Exception):
    pass


class Unsettled(Exception):
    pass


# ---------------------------------------------------------------- files

WORDS = ("Pogues", "the", "The", "THE", "of", "a", "x", "Rock", "über", "Ñu", "éa", "10", "$", "/", "-", "ß", "Ωmega", "日本", "don't", ", The",
         "theme", "Thee", "(US)", "&", "%A", "=", "\\", "?", ":", "“q”", "€")


def words(r, enc="utf-8", maxlen=9000):
    for _ in range(50):
        m = r.random()
        if m < .1:
            s = r.choice(("The", "the", "The The", ", The", "x, The", "The x", "the  x", "tHE y", "Y, tHE", "The, The", "T", "é", "Then", "x,The"))
        else:
            s = ""
            for i in range(r.randint(1, 5) if m < .98 else r.choice((40, 200, 900))):
                s += (r.choice((" ", " ", "  ", "\t", " \t ", "   ")) if i or r.random() < .08 else "") + r.choice(WORDS)
        try:
            if 0 < len(s.encode(enc)) <= maxlen and s == s.rstrip():
                return s
        except UnicodeEncodeError:
            pass
    return "Zed"


class File:
    def __init__(self, r, d, i):
        self.v2, self.v1 = None, None
        front = b""
        for j in range(r.choice((0, 1, 1, 1, 2, 3))):
            ver = r.choice((2, 3, 4))
            vals, frs = {}, []
            for k in IDS:
                if r.random() < .65:
                    e = r.choice((0, 1) if ver < 4 else (0, 1, 2, 3))
                    s = words(r, "latin-1" if e == 0 else "utf-8")
                    if k == "year":
                        s = r.choice(("1999", "2016", "2004-05-06", "05", "7", "199", "1888 "[:4]))
                    elif r.random() < .07 and k != "encoded-by":
                        s = ""
                    vals[k] = s
                    frs.append(Fr(ver, IDS[k][ver > 2], bytes([e]) + enc_text(ver, e, s, r.choice(("be", "le")))))
            for _ in range(r.choice((0, 0, 1, 2))):
                frs.append(gen.frame(r, ver, ("comm", "popm", "unk")))
            r.shuffle(frs)
            t = Tg(ver, frs, r.choice((0, 0, 10, 200)), unsync=r.random() < .2)
            for x in frs:
                x.unsync = ver == 4 and t.unsync
            if not frs:
                t.pad = 10
            front += t.raw()
            if j == 0:
                self.v2 = vals
        a = gen.audio(r)
        if a[:3] == b"ID3":
            a = b"x" + a
        a += b"\0" * 400
        v = b""
        if r.random() < .65:
            enh = r.random() < .3
            self.v1 = {}
            fl = {}
            for k in FIELDS + ("year",):
                if k == "content-type" and not enh:
                    continue
                n = 90 if enh else 30
                if k == "content-type":
                    n = 30
                if k == "year":
                    b = r.choice((b"1987", b"2001", b"\0\0\0\0", b"    ", b"77\0\0"))
                elif r.random() < .25:
                    b = r.choice((b"", b"", b" " * n))
                else:
                    e = r.choice(("ascii", "ascii", "latin-1", "latin-1", "cp1252", "utf-8", "utf-16-be", "utf-16-le", "utf-8-sig",
                                  "BE", "LE"))
                    c = {"BE": "utf-16-be", "LE": "utf-16-le"}.get(e, e)
                    s = words(r, c, n - 4)
                    b = ({"BE": b"\xfe\xff", "LE": b"\xff\xfe"}.get(e, b"") + s.encode(c))
                b = b.ljust(n if k != "year" else 4, r.choice((b"\0", b"\0", b" ")) if b"\0" not in b[:3] and b[:1] not in (b"\xfe", b"\xff") else b"\0")
                fl[k] = b
                self.v1[k] = b
            g = r.choice((r.randrange(256), r.randrange(192)))
            z = lambda k: fl[k][:30]
            std = b"TAG" + z("title") + z("artist") + z("album") + fl["year"] + b"c" * 28 + b"\0\x07" + bytes([g])
            if enh:
                v = (b"TAG+" + fl["title"][30:] + fl["artist"][30:] + fl["album"][30:] + b"\1" + fl["content-type"] + b"000:12" + b"003:59" + std)
            else:
                v = std
            if not enh or not self.v1["content-type"].strip(b"\0 "):
                self.v1["content-type"] = genres.NAMES[g].encode() if g < 192 else b""
        self.bytes = front + a + v
        self.md5 = hashlib.md5(a).digest()
        self.name = r.choice(("a.mp3", "The Song.mp3", "b.c.MP3", "noext", ".hidden", "x y  z.mp3", "the  one, The.flac", "é.mp3", "song, The",
                              "tail..mp3", "q.", "%A(b)?.mp3", "UP low.Mp3"))
        sub = os.path.join(d, "d%d.x" % i)
        os.mkdir(sub)
        self.path = os.path.join(sub, self.name)
        put(self.path, self.bytes)

    def stem_ext(self):
        n = self.name
        i = n.rfind(".")
        return (n, "") if i <= 0 else (n[:i], n[i:])


# ---------------------------------------------------------------- meaning

def v1_text(b, enc):
    try:
        if enc == "auto":
            if b[:3] == b"\xef\xbb\xbf":
                return b.decode("utf-8").rstrip("\0 ").lstrip("﻿")
            if b[:2] == b"\xfe\xff":
                return b[2:].decode("utf-16-be").rstrip("\0 ")
            if b[:2] == b"\xff\xfe":
                return b[2:].decode("utf-16-le").rstrip("\0 ")
            return b.decode("latin-1").rstrip("\0 ")
        py = {"iso-8859-1": "latin-1", "utf-16-be": "utf-16-be", "utf-16-le": "utf-16-le"}.get(enc, enc)
        s = b.decode(py)
    except UnicodeDecodeError:
        raise NoConversion()
    if s[:1] == "﻿" or s[:1] == "￾" or "\0" in s.rstrip("\0 ") or any(0xd7ff < ord(c) < 0xe000 or 0x7f < ord(c) < 0xa0 for c in s):
        raise Unsettled()
    return s.rstrip("\0 ")


def the(s, how):
    if how == "prefix" and len(s.encode()) >= 5 and s[-5:].lower() == ", the":
        return "The " + s[:-5]
    if how == "suffix" and len(s.encode()) >= 5 and s[:4].lower() == "the ":
        return s[4:] + ", The"
    return s


def up(s):
    return "".join(c.upper() if "a" <= c <= "z" else c for c in s)


def low(s):
    return "".join(c.lower() if "A" <= c <= "Z" else c for c in s)


def cap(s, how):
    if how == "capitalize":
        return up(s[:1]) + s[1:]
    return up(s) if how == "all-upper" else low(s) if how == "all-lower" else s


def ws(s, how):
    if how is None:
        return s
    out, run = "", False
    for c in s:
        if c in " \t":
            run = True
            continue
        out += (how if run else "") + c
        run = False
    return out + (how if run else "")


def field(f, name, o):
    """The bytes for field NAME with options O of file F"""
    if name in ("basename", "extension"):
        s = f.stem_ext()[name == "extension"]
        return ws(cap(the(s, o.get("the")), o.get("cap")), o.get("ws")).encode()
    if name in ("md5", "size"):
        base, case = o.get("base", "decimal"), o.get("hex-case", "L")
        if name == "size":
            t = "%d" % len(f.bytes) if base == "decimal" else "%x" % len(f.bytes)
        else:
            t = "".join("%03d" % b if base == "decimal" else "%02x" % b for b in f.md5)
        return (t.upper() if case == "U" else t).encode()
    v2 = f.v2.get(name) if f.v2 else None
    pref = o.get("source", "prefer-v2")
    if name == "encoded-by":
        pref = "v2-only"
    order = {"prefer-v2": "21", "prefer-v1": "12", "v2-only": "2", "v1-only": "1"}[pref]
    for k in order:
        if k == "2" and v2:
            s = v2
            break
        if k == "1" and f.v1 is not None and name in f.v1:
            s = v1_text(f.v1[name], o.get("v1-encoding", "auto")) if f.v1[name] else ""
            if s:
                break
    else:
        raise Missing()
    if name == "year":
        return (s[2:4] if len(s) >= 4 and o.get("year") == "yy" else s).encode()
    s = ws(cap(the(s, o.get("the", "suffix")), o.get("cap", "capitalize")), o.get("ws"))
    if s != s.rstrip() and o.get("output", "utf-8") != "utf-8":
        raise Unsettled()
    try:
        return s.encode({"iso-8859-1": "latin-1"}.get(o.get("output", "utf-8"), o.get("output", "utf-8")))
    except UnicodeEncodeError:
        raise NoConversion()


def expand(f, terms, depth=0):
    out = b""
    for t in terms:
        if t[0] == "lit":
            out += t[1].encode()
        elif t[0] == "opt":
            try:
                out += expand(f, t[1], depth + 1)
            except Missing:
                pass
            except NoConversion:
                raise Unsettled()
        else:
            out += field(f, t[1], t[3])
    return out


# ---------------------------------------------------------------- templates

def options(r, name):
    o, txt = {}, []

    def add(k, v, t):
        o[k] = v
        txt.append(t)
    if name == "encoded-by":
        return o, ""
    if name == "year":
        k = r.choice(("yy", "yyyy"))
        return {"year": k}, k
    if name in ("md5", "size"):
        if r.random() < .8:
            v = r.choice(("decimal", "hex", "hex"))
            add("base", v, "base=" + v)
        if r.random() < .5 or not o:
            v = r.choice("UL")
            add("hex-case", v, "hex-case=" + v)
        r.shuffle(txt)
        return o, "&".join(txt)
    p = r.choice((.2, .5, .9))
    if name in FIELDS:
        if r.random() < p:
            v = r.choice(("prefer-v2", "prefer-v1", "v2-only", "v1-only", "v1-only"))
            add("source", v, v)
        if r.random() < p:
            v = r.choice(("auto", "iso-8859-1", "ascii", "cp1252", "utf-8", "utf-16-be", "utf-16-le"))
            add("v1-encoding", v, "v1-encoding=" + v)
        if r.random() < p / 2:
            v = r.choice(("utf-8", "ascii", "cp1252", "iso-8859-1"))
            add("output", v, "output=" + v)
    if r.random() < p:
        v = r.choice(("suffix", "prefix", None))
        add("the", v or "suffix", "the=" + v if v else "the")
    if r.random() < p:
        n = r.choice(("cap", "capitalization"))
        v = r.choice(("all-upper", "all-lower", "capitalize", None))
        add("cap", v or "capitalize", n + "=" + v if v else n)
    if r.random() < p or not txt:
        v = r.choice((" ", "_", "-", "+x+", "--", "é", "\\", "=", "(", ".", "&"))
        if r.random() < .4:
            add("ws", " ", "compress")
        else:
            add("ws", v, "ws=" + lit(v))
    r.shuffle(txt)
    return o, "&".join(txt)


def lit(s):
    return "".join("\\" + c if c in "?%:&)(=\\" else c for c in s)


def terms(r, depth=0):
    out = []
    for _ in range(r.randint(1, 4)):
        m = r.random()
        if m < .35:
            s = "".join(r.choice(r.choice(("abAxn5STe", " -_./,'[]{}+*#@!~\"", "?%:&)(=\\", "éÑ日", "\n\t")) if r.random() < .97 else "y")
                        for _ in range(r.choice((1, 1, 2, 5, 20))))
            out.append(("lit", s, lit(s)))
        elif m < .55 and depth < 3:
            out.append(("opt", terms(r, depth + 1)))
        else:
            n = r.choice(tuple(LONG))
            if r.random() < .3:
                out.append(("field", n, "%" + SHORT[n], {}))
            else:
                o, t = options(r, n) if r.random() < .8 else ({}, "")
                l = r.choice(LONG[n])
                out.append(("field", n, "%%(%s%s)" % (l, ":" + t if t else ""), o))
    return out


def render(ts):
    s = ""
    for t in ts:
        if t[0] == "opt":
            s += "(" + render(t[1]) + ")?"
        elif t[0] == "field":
            # an abbreviation mustn't run on into a longer name
            s += "%%(%s)" % t[1] if t[2] in ("%b", "%e") else t[2]
        else:
            s += t[2]
    return s


BAD = ("%", "%(", "%(artist", "%Q", "%(foo)", "(abc", "(abc)", "abc)", "%(artist:)", "%(artist:the=)", "%(artist:the&the)", "%(artist:base=hex)",
       "%(size:the)", "a=b", "a:b", "a&b", "?", "", "()?", "%(artist:ws=)", "%(year:zz)", "%(artist:v1-encoding=foo)", "%(size:base=octal)",
       "%(artist\n)", "%(artist:compress&ws=_)", "%(artist:cap=)", "%(artist:the=prefix", "%(artist:v1-encoding=", "%(title:output=utf-8&output=ascii)",
       "%(md5:base=hex&base=hex)", "%((artist))", "% A", "%(size:hex-case=X)", "%(title:cap=yy)", "x%(year:yy&yyyy)", "\\", "a\\b", "(%A)?)", "((a)?",
       "%%A", "%()", "%(artist:prefer-v1&prefer-v2)", "%(artist:cap=prefix)", "%(A)", "%artist")


def judge(w, f, ts, templ, got):
    try:
        want = expand(f, ts)
    except (Missing, NoConversion) as ex:
        w.check(is_ex(got), "a value that isn't available isn't an error", "%r on %r: %r (%s)" % (templ, f.name, got, type(ex).__name__))
        w.count("unavailable")
        return "missing"
    except Unsettled:
        w.count("unsettled")
        return "unsettled"
    w.check(not is_ex(got), "expansion failed", "%r on %r, want %r: %r; tag %r ID3v1 %r" % (templ, f.name, want, got, f.v2, f.v1))
    w.eq(ux(got), want, "expansion", "%r on %r; tag %r ID3v1 %r" % (templ, f.name, f.v2, f.v1))
    w.count("expansions")
    return "ok"


def flat(ts, d=0):
    for t in ts:
        if t[0] == "opt":
            yield ("opt", d)
            yield from flat(t[1], d + 1)
        elif t[0] == "field":
            yield (t[1],) + tuple(sorted((k, str(v)) for k, v in t[3].items()))


def history(w, no):
    r = w.rng
    d = w.dir()
    fs = [File(r, d, i) for i in range(r.choice((1, 2, 3)))]
    for i in range(r.randint(2, 8)):
        if r.random() < .15:
            b = r.choice(BAD)
            if r.random() < .3 and b:
                b = render(terms(r)) + b
                if b.endswith(("(abc)", "?")):
                    b = "%("
            x = w.drv("tbt", hx(b), hx(fs[0].path))
            w.check(is_ex(x), "malformed template accepted", "%r: %r" % (b, x))
            w.count("malformed")
            w.seen("bad", b if b in BAD else "")
            continue
        ts = terms(r)
        templ = render(ts)
        pick = [r.choice(fs) for _ in range(r.choice((1, 1, 2, 4)))]
        x = w.drv("tbt", hx(templ), *[hx(f.path) for f in pick])
        w.check(not is_ex(x), "template rejected", "%r: %r" % (templ, x))
        for f, got in zip(pick, x["out"]):
            k = judge(w, f, ts, templ, got)
            for s in flat(ts):
                w.seen("field", k == "ok", s)
        w.sample({"template": templ})
    for f in fs:
        w.eq(get(f.path), f.bytes, "expanding a template changed the file", f.name)


def single(w, no):
    """One field at a time, with every option there is"""
    r = w.rng
    f = File(r, w.dir(), 0)
    for n in LONG:
        o, t = options(r, n)
        form = "%%(%s%s)" % (r.choice(LONG[n]), ":" + t if t else "")
        ts = [("field", n, form, o)]
        alt = [("lit", "<", "<"), ("opt", ts + [("lit", "!", "!")]), ("lit", ">", ">")]
        for z in (ts, alt):
            templ = render(z)
            x = w.drv("tbt", hx(templ), hx(f.path))
            w.check(not is_ex(x), "template rejected", "%r: %r" % (templ, x))
            k = judge(w, f, z, templ, x["out"][0])
        w.seen("one", n, k, tuple(sorted((a, str(b)) for a, b in o.items())), f.v2 is not None and n in f.v2, f.v1 is not None)


def unreadable(w, no):
    r = w.rng
    d = w.dir()
    ts = [("field", "artist", "%A", {})]
    for p in (os.path.join(d, "absent.mp3"), d):
        x = w.drv("tbt", hx("%b"), hx(p))
        w.check(is_ex(x) or is_ex(x["out"][0]), "expanded a name for a file that can't be read", "%r: %r" % (p, x))
    f = File(r, d, 0)
    templ = render(ts)
    x = w.drv("tbt", hx(templ), hx(f.path))
    judge(w, f, ts, templ, x["out"][0])


if __name__ == "__main__":
    sys.exit(Check("C14", [("history", history, 1800, 100000), ("single", single, 1200, 60000), ("unreadable", unreadable, 100, 1000)],
                   "distinct (field, options, outcome), malformed templates and sources seen").main())
