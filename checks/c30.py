"""C30: names of encodings, languages and frames mean one thing only."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "lib"))
from vlib import *
import builder, vlib
from files import *
import gen, cmd
from langs import ISO1, ISO2

# scribbu's own names for languages whose codes are macros or keywords
CAPS = {"asm": "ASM", "div": "DIV", "map": "MAP", "min": "MIN", "new": "NEW"}
ENCODINGS = """ASCII ISO-8859-1 ISO-8859-2 ISO-8859-3 ISO-8859-4 ISO-8859-5 ISO-8859-7 ISO-8859-9 ISO-8859-10 ISO-8859-13 ISO-8859-14
    ISO-8859-15 ISO-8859-16 KOI8-R KOI8-U KOI8-RU CP1250 CP1251 CP1252 CP1253 CP1254 CP1257 CP850 CP866 CP1131 MacRoman
    MacCentralEurope MacIceland MacCroatian MacRomania MacCyrillic MacUkraine MacGreek MacTurkish Macintosh ISO-8859-6 ISO-8859-8
    CP1255 CP1256 CP862 MacHebrew MacArabic EUC-JP SHIFT-JIS CP932 ISO-2022-JP ISO-2022-JP-2 ISO-2022-JP-1 ISO-2022-JP-MS EUC-CN
    HZ GBK CP936 GB18030 EUC-TW BIG5 CP950 BIG5-HKSCS BIG5-HKSCS:2004 BIG5-HKSCS:2001 BIG5-HKSCS:1999 ISO-2022-CN ISO-2022-CN-EXT
    EUC-KR CP949 ISO-2022-KR JOHAB ARMSCII-8 Georgian-Academy Georgian-PS KOI8-T PT154 RK1048 TIS-620 CP874 MacThai MuleLao-1
    CP1133 VISCII TCVN CP1258 HP-ROMAN8 NEXTSTEP UTF-8 UCS-2 UCS-2BE UCS-2LE UCS-4 UCS-4BE UCS-4LE UTF-16 UTF-16BE UTF-16LE
    UTF-32 UTF-32BE UTF-32LE UTF-7 C99 JAVA""".split()
# text frames in ID3v2.3 and .4, and in ID3v2.2
TEXTS = dict(x.split("=") for x in """talb=TAL tbpm=TBP tcom=TCM tcon=TCO tcop=TCR tdat=TDA tdly=TDY tenc=TEN text=TXT tflt=TFT time=TIM
    tit1=TT1 tit2=TT2 tit3=TT3 tkey=TKE tlan=TLA tlen=TLE tmed=TMT toal=TOT tofn=TOF toly=TOL tope=TOA tory=TOR town= tpe1=TP1 tpe2=TP2
    tpe3=TP3 tpe4=TP4 tpos=TPA tpub=TPB trck=TRK trda=TRD trsn= trso= tsiz=TSI tsrc=TRC tsse=TSS tyer=TYE""".split())
ALIASES = {"album": "talb", "composer": "tcom", "content-type": "tcon", "genre": "tcon", "date": "tdat", "encoded-by": "tenc", "title": "tit2",
           "sub-title": "tit3", "languages": "tlan", "length": "tlen", "artist": "tpe1", "track": "trck", "year": "tyer"}
KNOWN = {}
for k, v in TEXTS.items():
    KNOWN[k] = KNOWN[k.upper()] = k
    if v:
        KNOWN[v] = KNOWN[v.lower()] = k
KNOWN.update(ALIASES)
KNOWN.update({"tbm": "tbpm", "TBM": "tbpm"})


def refused(d, field):
    return is_ex(d) or not d["ok"]


def garble(r, s):
    """A name like S that should not be one"""
    m = r.randrange(5)
    i = r.randrange(len(s))
    if m == 0:
        return s[:i] + s[i + 1:]
    if m == 1:
        return s[:i] + r.choice("abcXYZ019-_") + s[i:]
    if m == 2:
        return s[:i] + r.choice("abcXYZ019-_") + s[i + 1:]
    if m == 3:
        return s.swapcase()
    return s + r.choice(("x", "-", "1", "\0"))


def languages(w, no):
    r = w.rng
    c = ISO2[int(no.split(":")[1]) % len(ISO2)]
    me = CAPS.get(c, c)
    n = w.drv("langprint", me)
    w.check(not is_ex(n), "a language without a name", "%s: %r" % (me, n))
    s = ux(n["name"])
    w.eq(s.lower(), c.encode(), "name of a language", me)
    d = w.drv("langread", hx(s))
    w.check(not is_ex(d) and d["ok"], "the name of a language can't be read", "%r: %r" % (s, d))
    w.eq(d["lang"], me, "language read back", repr(s))
    d = w.drv("lang3", me)
    w.check(not is_ex(d), "a language without a code", "%s: %r" % (me, d))
    w.check(d["intact"], "more than three characters of code", me)
    w.eq(ux(d["code"]), c.encode(), "ISO 639-2 code", me)
    # nothing else reads as a language
    g = garble(r, c)
    d = w.drv("langread", hx(g))
    if g.lower() not in ISO2 and g.split("\0")[0] not in ISO2:
        w.check(refused(d, "lang"), "a language that isn't one", "%r: %r" % (g, d))
        w.count("refused")
    elif not refused(d, "lang"):
        w.eq(d["lang"].lower(), g.lower(), "language read", repr(g))
    w.seen("language", c)
    w.count("languages")


def two(w, no):
    """Every pair of letters, and other pairs of bytes"""
    r = w.rng
    i = int(no.split(":")[1])
    cs = [bytes([97 + i % 26, 97 + k]) for k in range(26)] if i < 26 else \
        [r.choice((r.randbytes(2), bytes([r.choice(b"azAZ{`@\0\xff\xe1\x61")]) + bytes([r.choice(b"abdeEN_\0\xff")]), r.choice(sorted(ISO1)).upper().encode(),
                   r.choice(sorted(ISO1)).encode())) for _ in range(26)]
    for c, d in zip(cs, w.drv.batch(["lang1 " + hx(c) for c in cs])):
        w.check(not is_ex(d), "looking up a code failed", "%r: %r" % (c, d))
        want = ISO1.get(c.decode("latin-1"))
        if want is None:
            # codes the standard has withdrawn are left alone
            w.check(d["lang"] == "from_locale" or c in (b"iw", b"in", b"ji", b"mo", b"sh"), "language of no such code", "%r: %r" % (c, d))
        else:
            w.check(d["lang"].lower() in want, "language of a code", "%r is %r, not %r" % (c, d["lang"], want))
        w.seen("two", c)
    w.count("codes", 26)


def locale(w, no):
    r = w.rng
    good = sorted(ISO1)

    def one():
        m = r.random()
        c = r.choice(good)
        if m < .25:
            return None
        if m < .35:
            return r.choice(("", "x", "C"))
        return c + r.choice(("", "_XX", "_US.UTF-8", ".UTF-8", ":en", "@euro", "_DE:fr")) if m < .95 else r.choice(("zz_ZZ", "qq", "C.UTF-8", "POSIX"))
    v = [one() for _ in range(3)]
    d = w.drv("langenv", *["-" if x is None else hx(x) if x else "00" for x in v])
    first = next((x for x in v if x and len(x) > 1), None)
    what = "LANGUAGE=%r LC_ALL=%r LANG=%r" % tuple(v)
    if first is None:
        w.check(is_ex(d), "a language out of nowhere", "%s: %r" % (what, d))
    elif first[:2] in ISO1:
        w.check(not is_ex(d), "no language from the locale", "%s: %r" % (what, d))
        w.check(d["lang"].lower() in ISO1[first[:2]], "language of the locale", "%s: %r" % (what, d))
        w.eq(ux(d["code"]).decode(), d["lang"].lower(), "code of the locale's language", what)
    else:
        w.check(is_ex(d) or d["lang"] == "from_locale", "language of no such locale", "%s: %r" % (what, d))
    w.seen("locale", [None if x is None else len(x) for x in v], first and first[:2])
    w.count("locales")


def encodings(w, no):
    r = w.rng
    i = int(no.split(":")[1])
    n = w.drv("encmax")["n"]
    if i % (n + 1) == n:
        # ... and as listed by the command
        d = w.dir()
        x = cmd.run(w, d, ["encodings"])
        w.eq((x["rc"], x["sig"]), (0, 0), "exit status", repr(ux(x["err"])[-300:]))
        w.eq(sorted(ux(x["out"]).decode().split("\n")[:-1]), sorted(ENCODINGS), "encodings listed", "")
        w.count("lists")
        return
    i %= n + 1
    d = w.drv("encprint", i)
    w.check(not is_ex(d), "an encoding without a name", "%d: %r" % (i, d))
    s = ux(d["name"])
    w.check(s.decode() in ENCODINGS, "name of an encoding", repr(s))
    d = w.drv("encread", hx(s))
    w.check(not is_ex(d) and d["ok"], "the name of an encoding can't be read", "%r: %r" % (s, d))
    w.eq(d["enc"], i, "encoding read back", repr(s))
    g = garble(r, s.decode())
    d = w.drv("encread", hx(g))
    if g not in ENCODINGS and g.split("\0")[0] not in ENCODINGS:
        w.check(refused(d, "enc"), "an encoding that isn't one", "%r: %r" % (g, d))
        w.count("refused")
    w.seen("encoding", i)
    w.count("encodings")


def frames(w, no):
    r = w.rng
    i = int(no.split(":")[1])
    k = sorted(KNOWN)[i % len(KNOWN)]
    f = KNOWN[k]
    d = w.drv("tfread", hx(k))
    w.check(not is_ex(d) and d["ok"], "the name of a text frame can't be read", "%r: %r" % (k, d))
    w.eq(d["frame"], f, "text frame read", repr(k))
    s = ux(w.drv("tfprint", f)["name"]).decode()
    w.eq(KNOWN.get(s), f, "name of a text frame", "%s: %r" % (f, s))
    d = w.drv("tfread", hx(s))
    w.eq(d.get("frame"), f, "text frame read back", repr(s))
    for op, want in (("tfid3", TEXTS[f]), ("tfid4", f.upper())):
        d = w.drv(op, f)
        if not want:
            w.check(is_ex(d), "an ID3v2.2 frame that isn't one", "%s: %r" % (f, d))
            continue
        w.check(not is_ex(d), "a text frame without an ID", "%s: %r" % (f, d))
        for x in "spwc":
            w.eq(ux(d[x]).decode("latin-1"), want, "ID of a text frame", "%s, %s" % (f, op))
        w.eq((d["exp"], d["null"], d["text"], d["n"]), (False, False, True, len(want)), "an ID's attributes", "%s, %s" % (f, op))
    g = garble(r, k)
    d = w.drv("tfread", hx(g))
    if g not in KNOWN and g.lower() not in KNOWN and g.split("\0")[0] not in KNOWN:
        w.check(refused(d, "frame"), "a text frame that isn't one", "%r: %r" % (g, d))
        w.count("refused")
    w.seen("frame", k)
    w.count("frames")


def policies(w, no):
    r = w.rng
    for i, k in enumerate(("fail", "ignore", "transliterate")):
        d = w.drv("rspprint", i)
        w.check(not is_ex(d), "a policy without a name", "%s: %r" % (k, d))
        x = w.drv("rspread", d["name"])
        w.check(not is_ex(x) and x["ok"], "the name of a policy can't be read", "%r: %r" % (d, x))
        w.eq(x["rsp"], k, "policy read back", repr(ux(d["name"])))
        w.eq(ux(d["name"]), k.encode(), "name of a policy", k)
    g = garble(r, r.choice(("fail", "ignore", "transliterate")))
    d = w.drv("rspread", hx(g))
    if g.lower() not in ("fail", "ignore", "transliterate") and "\0" not in g:
        w.check(refused(d, "rsp"), "a policy that isn't one", "%r: %r" % (g, d))
    w.seen("policy", len(g))


def ids(w, no):
    """Identifiers of frames, made and compared every way"""
    r = w.rng
    n = r.choice((3, 4))

    def one():
        m = r.random()
        if m < .1:
            return bytes(n)
        if m < .2:
            return r.randbytes(n)
        return bytes([r.choice(b"TWXYZACPU")]) + bytes(r.choice(b"AXT19") for _ in range(n - 1))
    a = one()
    b = a if r.random() < .3 else one() if r.random() < .4 else bytes(x if r.random() < .8 else x ^ r.choice((1, 0x20, 0x80)) for x in a)
    d = w.drv("fid", hx(a), hx(b))
    what = "%r and %r" % (a, b)
    w.check(not is_ex(d), "making an ID failed", "%s: %r" % (what, d))
    for x in d["made"]:
        for k in "spwc":
            w.eq(ux(x[k]), a, "characters of an ID", what)
        w.eq((x["exp"], x["null"], x["text"], x["n"]), (a[0] in b"XYZ", a == bytes(n), a[0] == 0x54, n), "an ID's attributes", what)
    w.eq((d["eq"], d["ne"], d["same"], d["hash"]), (a == b, a != b, True, True), "comparing IDs", what)
    w.check(a != b or d["eqhash"], "equal IDs with different hashes", what)
    w.seen("id", n, a[0] in b"XYZ", a[0] == 0x54, a == b, sum(x != y for x, y in zip(a, b)))
    w.count("ids")


def build():
    return builder.Builder("asan").build("drv-cli-names", vlib.HARNESS_CLI + ["drv_names.cc"], cli=True)


if __name__ == "__main__":
    sys.exit(Check("C30", [("languages", languages, 2 * len(ISO2), 20 * len(ISO2)), ("two", two, 60, 2000), ("locale", locale, 2500, 40000),
                           ("encodings", encodings, 300, 3000), ("frames", frames, 4 * len(KNOWN), 40 * len(KNOWN)), ("policies", policies, 100, 1000),
                           ("ids", ids, 4000, 60000)],
                   "distinct languages, codes, encodings, frames and pairs of IDs (all there are of each but the last)",
                   exe_builder=build).main())
