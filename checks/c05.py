"""C05: text survives encoding conversion."""
import ctypes, locale, os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "lib"))
from vlib import *
import gen
from model import text_ok

ENC = """ASCII ISO-8859-1 ISO-8859-2 ISO-8859-3 ISO-8859-4 ISO-8859-5 ISO-8859-7 ISO-8859-9 ISO-8859-10 ISO-8859-13 ISO-8859-14
ISO-8859-15 ISO-8859-16 KOI8-R KOI8-U KOI8-RU CP1250 CP1251 CP1252 CP1253 CP1254 CP1257 CP850 CP866 CP1131 MacRoman
MacCentralEurope MacIceland MacCroatian MacRomania MacCyrillic MacUkraine MacGreek MacTurkish Macintosh
ISO-8859-6 ISO-8859-8 CP1255 CP1256 CP862 MacHebrew MacArabic
EUC-JP SHIFT-JIS CP932 ISO-2022-JP ISO-2022-JP-2 ISO-2022-JP-1 ISO-2022-JP-MS
EUC-CN HZ GBK CP936 GB18030 EUC-TW BIG5 CP950 BIG5-HKSCS BIG5-HKSCS:2004 BIG5-HKSCS:2001 BIG5-HKSCS:1999 ISO-2022-CN ISO-2022-CN-EXT
EUC-KR CP949 ISO-2022-KR JOHAB ARMSCII-8 Georgian-Academy Georgian-PS KOI8-T PT154 RK1048 TIS-620 CP874 MacThai MuleLao-1 CP1133
VISCII TCVN CP1258 HP-ROMAN8 NEXTSTEP
UTF-8 UCS-2 UCS-2BE UCS-2LE UCS-4 UCS-4BE UCS-4LE UTF-16 UTF-16BE UTF-16LE UTF-32 UTF-32BE UTF-32LE UTF-7 C99 JAVA""".split()
E = {n: i for i, n in enumerate(ENC)}
WIDE = {"UCS-2", "UCS-2BE", "UCS-2LE", "UCS-4", "UCS-4BE", "UCS-4LE", "UTF-16", "UTF-16BE", "UTF-16LE", "UTF-32", "UTF-32BE",
        "UTF-32LE", "UTF-7", "C99", "JAVA"}
BOM = {"UTF-8": b"\xef\xbb\xbf", "UCS-2": b"\xff\xfe", "UCS-2BE": b"\xfe\xff", "UCS-2LE": b"\xff\xfe", "UTF-16BE": b"\xfe\xff",
       "UTF-16LE": b"\xff\xfe", "UCS-4": b"\0\0\xfe\xff", "UCS-4BE": b"\0\0\xfe\xff", "UCS-4LE": b"\xff\xfe\0\0",
       "UTF-32BE": b"\0\0\xfe\xff", "UTF-32LE": b"\xff\xfe\0\0"}
STATEFUL = ("ISO-2022", "HZ", "UTF-7")
FAIL, TRANSLIT, IGNORE = 0, 1, 2

libc = ctypes.CDLL(None, use_errno=True)
libc.iconv_open.restype = ctypes.c_void_p
libc.iconv_open.argtypes = [ctypes.c_char_p, ctypes.c_char_p]
libc.iconv.restype = ctypes.c_size_t
libc.iconv.argtypes = [ctypes.c_void_p] + [ctypes.c_void_p] * 4
libc.iconv_close.argtypes = [ctypes.c_void_p]


def iconv(data, dst, src, policy=FAIL, flush=True):
    """The C library's own conversion: bytes, or None when it refuses"""
    cd = libc.iconv_open((dst + ("", "//TRANSLIT", "//IGNORE")[policy]).encode(), src.encode())
    if cd in (None, ctypes.c_void_p(-1).value):
        return None
    try:
        ib = ctypes.create_string_buffer(data, len(data) + 1)
        ip, il = ctypes.c_void_p(ctypes.addressof(ib)), ctypes.c_size_t(len(data))
        n = len(data) * 12 + 64
        ob = ctypes.create_string_buffer(n)
        op, ol = ctypes.c_void_p(ctypes.addressof(ob)), ctypes.c_size_t(n)
        while True:
            was = il.value
            rc = libc.iconv(cd, ctypes.byref(ip), ctypes.byref(il), ctypes.byref(op), ctypes.byref(ol))
            if not (policy == IGNORE and rc == ctypes.c_size_t(-1).value and 0 < il.value < was):
                break
        if rc == ctypes.c_size_t(-1).value and not (policy == IGNORE and il.value == 0):
            return None
        if flush:
            libc.iconv(cd, None, None, ctypes.byref(op), ctypes.byref(ol))
        return ob.raw[:n - ol.value]
    finally:
        libc.iconv_close(cd)


def supported(e):
    return iconv(b"a", e, "UTF-8") is not None and iconv(iconv(b"a", e, "UTF-8"), "UTF-8", e) is not None


SUP = None


def sup():
    global SUP
    if SUP is None:
        locale.setlocale(locale.LC_ALL, "C.UTF-8")
        SUP = [e for e in ENC if supported(e)]
    return SUP


# characters, by encoding, that survive a round trip
REP = {}
POOL = ([chr(i) for i in range(0x20, 0x7f)] + [chr(i) for i in range(0xa0, 0x180)] + [chr(i) for i in range(0x386, 0x3ce)] +
        [chr(i) for i in range(0x401, 0x45f)] + [chr(i) for i in range(0x5d0, 0x5eb)] + [chr(i) for i in range(0x621, 0x64b)] +
        [chr(i) for i in range(0xe01, 0xe3b)] + [chr(i) for i in range(0x3041, 0x30f7, 3)] +
        list("日本語中文漢字東京大阪亜哀愛的一是不了在人有我他这中国學國體龍한글서울가나다라마바사€₤™…“”‘’–—•†‡→∞≠≤≥") +
        [chr(i) for i in range(0x561, 0x587)] + [chr(i) for i in range(0x10d0, 0x10f1)] + [chr(i) for i in range(0x1ea0, 0x1ef9, 2)] +
        list("😀𝄞𐍈𠀋🎵"))


def rep(e):
    if e not in REP:
        ok = []
        for c in POOL:
            b = iconv(c.encode(), e, "UTF-8")
            if b is not None and iconv(b, "UTF-8", e) == c.encode():
                ok.append(c)
        REP[e] = ok
    return REP[e]


def pick(r, e, n):
    al = rep(e)
    m = r.random()
    if m < .5:
        hi = [c for c in al if ord(c) > 0x7f] or al
        al = hi + al[:20]
    s = "".join(r.choice(al) for _ in range(n))
    return s


def length(r):
    return r.choice((1, 1, 2, 3, 5, 8, 16, 31, 33, 100, r.randint(1, 300), r.choice((1000, 4095, 4096, 4097, 8191, 20000))))


def to_bytes(w, s, dst, bom, policy, src="UTF-8"):
    return w.drv("conv2v", hx(s), E[src], E[dst], int(bom), policy)


def back(w, b, src, dst="UTF-8", policy=FAIL):
    return w.drv("conv2s", hx(b), E[src], E[dst], policy)


def trip(w, no):
    """representable text, to each encoding and back"""
    r = w.rng
    n = int(no.split(":")[1])
    e = sup()[n % len(sup())]
    s = pick(r, e, length(r))
    if s[-1] == " ":
        s += "x"
    bom = r.random() < .4
    want = iconv(s.encode(), e, "UTF-8", FAIL, flush=True)
    if want is None or iconv(want, "UTF-8", e) != s.encode():
        w.count("not representable after all")
        return
    x = to_bytes(w, s, e, bom, FAIL)
    w.check(not is_ex(x), "conversion refused", "%s %r: %r" % (e, s[:60], x))
    got = ux(x["out"])
    mark = BOM.get(e, b"") if bom else b""
    w.check(got == mark + want, "encoded bytes", "%s bom=%d %r: got %s want %s" % (e, bom, s[:60], got.hex()[:300], (mark + want).hex()[:300]))
    w.check(bom == got.startswith(BOM[e]) if e in BOM else True, "byte-order mark", "%s bom=%d %s" % (e, bom, got[:8].hex()))
    y = back(w, got, e)
    w.check(not is_ex(y), "conversion back refused", "%s %s: %r" % (e, got.hex()[:200], y))
    w.eq(ux(y["out"]).decode(), s, "text after a round trip", "%s bom=%d" % (e, bom))
    w.count("round trips")
    w.seen(e, len(s), bom)
    w.sample({"encoding": e, "text": s[:40], "bytes": got[:40].hex()})


def cross(w, no):
    """from one encoding to another, through either interface"""
    r = w.rng
    S = sup()
    a = r.choice([e for e in S if e not in WIDE])
    b = r.choice(S)
    common = sorted(set(rep(a)) & set(rep(b)))
    s = "".join(r.choice(common) for _ in range(length(r)))
    if s[-1] == " ":
        s += "x"
    src = iconv(s.encode(), a, "UTF-8")
    want = src and iconv(src, b, a)
    if not want or iconv(src, "UTF-8", a) != s.encode() or iconv(want, "UTF-8", b) != s.encode() or iconv(want, a, b) != src:
        w.count("not representable after all")
        return
    x = w.drv("conv2v", hx(src), E[a], E[b], 0, FAIL)
    w.check(not is_ex(x), "conversion refused", "%s to %s %r: %r" % (a, b, s[:60], x))
    got = ux(x["out"])
    w.check(got == want, "encoded bytes",
            "%s to %s %r: %s" % (a, b, s[:60], got.hex()[:300]))
    if b in WIDE:
        y = w.drv("conv2s", hx(got), E[b], E[a], FAIL)
        w.check(not is_ex(y), "conversion back refused", "%s to %s: %r" % (b, a, y))
        w.check(iconv(ux(y["out"]), "UTF-8", a) == s.encode(), "text after a round trip", "%s to %s: %r for %r" % (b, a, y, s[:60]))
    else:
        y = w.drv("conv2s", hx(src), E[a], E[b], FAIL)
        w.check(not is_ex(y), "conversion refused", "%s to %s %r: %r" % (a, b, s[:60], y))
        w.check(iconv(ux(y["out"]), "UTF-8", b) == s.encode(), "text converted to a string", "%s to %s: %r for %r" % (a, b, y, s[:60]))
    w.count("round trips")
    w.seen("cross", a, b)


def policy(w, no):
    """text that cannot be represented: each policy"""
    r = w.rng
    e = r.choice([x for x in sup() if x not in ("UTF-8", "UTF-16", "UTF-16BE", "UTF-16LE", "UTF-32", "UTF-32BE", "UTF-32LE",
                                                "UCS-4", "UCS-4BE", "UCS-4LE", "UTF-7", "GB18030") and not x.startswith(STATEFUL)])
    good = set(rep(e))
    bad = [c for c in POOL if c not in good and iconv(c.encode(), e, "UTF-8") is None]
    if not bad:
        return
    n = length(r)
    cs = [r.choice(rep(e)) for _ in range(n)]
    for _ in range(r.choice((1, 1, 2, 5, n // 3 + 1))):
        cs.insert(r.randint(0, len(cs)), r.choice(bad))
    s = "".join(cs)
    keep = "".join(c for c in s if c not in bad)
    if iconv(s.encode(), e, "UTF-8") is not None:
        return
    x = to_bytes(w, s, e, False, FAIL)
    w.check(is_ex(x), "unrepresentable text converted silently", "%s %r -> %r" % (e, s[:60], x))
    w.check(x["std"], "not an ordinary exception", "%r" % (x,))
    x = to_bytes(w, s, e, False, IGNORE)
    w.check(not is_ex(x), "ignore refused", "%s %r: %r" % (e, s[:60], x))
    g = iconv(ux(x["out"]), "UTF-8", e)
    w.check(g == keep.encode(), "omission", "%s %r: got %r, want %r" % (e, s[:60], g and g.decode()[:60], keep[:60]))
    want = iconv(s.encode(), e, "UTF-8", TRANSLIT)
    x = to_bytes(w, s, e, False, TRANSLIT)
    if want is None:
        # no transliteration known for something in it
        w.check(is_ex(x), "transliteration invented", "%s %r -> %r" % (e, s[:60], x))
    else:
        w.check(not is_ex(x), "transliteration refused", "%s %r: %r" % (e, s[:60], x))
        w.check(ux(x["out"]) in (want,), "transliteration",
                "%s %r: got %s want %s" % (e, s[:60], x["out"][:200], want.hex()[:200]))
        w.count("transliterated")
    # and back into strings, from a wide source
    src = s.encode("utf-16-le")
    if e not in WIDE:
        x = w.drv("conv2s", hx(src), E["UTF-16LE"], E[e], FAIL)
        w.check(is_ex(x), "unrepresentable text converted silently", "%s %r -> %r" % (e, s[:60], x))
        x = w.drv("conv2s", hx(src), E["UTF-16LE"], E[e], IGNORE)
        w.check(not is_ex(x), "ignore refused", "%s %r: %r" % (e, s[:60], x))
        g = iconv(ux(x["out"]), "UTF-8", e)
        w.check(g is not None and text_ok(g.decode(), keep), "omission", "%s %r: got %r, want %r" % (e, s[:60], g and g.decode()[:60], keep[:60]))
    w.count("policies")
    w.seen("policy", e, len(s))


def broken(w, no):
    """source bytes that are not text in the encoding they claim"""
    r = w.rng
    s = gen.text(r, 4, 3, 30, empty=False).encode()
    cut = bytearray(s)
    for _ in range(r.randint(1, 3)):
        cut.insert(r.randint(0, len(cut)), r.choice((0x80, 0xc0, 0xff, 0xfe, 0xf8, 0xe2)))
    src = bytes(cut)
    if r.random() < .3:
        src = ("a" * r.randint(0, 5) + r.choice("日é😀")).encode()[:-1]
    try:
        src.decode("utf-8")
        return
    except UnicodeDecodeError:
        pass
    d = r.choice(("UTF-16LE", "UCS-2", "ISO-8859-1", "UTF-32BE", "UTF-8"))
    x = w.drv("conv2v", hx(src), E["UTF-8"], E[d], 0, FAIL)
    w.check(is_ex(x), "malformed text accepted", "%s to %s -> %r" % (src.hex(), d, x))
    x = w.drv("conv2s", hx(src), E["UTF-8"], E["UTF-8"], FAIL)
    w.check(is_ex(x), "malformed text accepted", "%s -> %r" % (src.hex(), x))
    for p in (TRANSLIT, IGNORE):
        w.drv("conv2v", hx(src), E["UTF-8"], E[d], 0, p)        # whatever, but safely
    w.count("malformed sources")
    w.seen("broken", src)


def units(w, no):
    """strings of char cannot hold multi-byte code units: refused, not mangled; and names round-trip"""
    n = int(no.split(":")[1])
    if n >= len(ENC):
        return
    e = ENC[n]
    x = w.drv("encname", n)
    w.check(not is_ex(x), "encoding name", "%s: %r" % (e, x))
    w.eq((x["name"], x["back"]), (e, n), "encoding name", e)
    if e in WIDE:
        x = w.drv("conv2v", hx("abcd"), n, E["UTF-8"], 0, FAIL)
        w.check(is_ex(x), "wide source accepted as chars", "%s -> %r" % (e, x))
        x = w.drv("conv2s", hx("abcd"), E["UTF-8"], n, FAIL)
        w.check(is_ex(x), "wide target accepted as chars", "%s -> %r" % (e, x))
    elif e not in sup():
        x = w.drv("conv2v", hx("abcd"), n, E["UTF-8"], 0, FAIL)
        w.check(is_ex(x), "unsupported encoding accepted", "%s -> %r" % (e, x))
    x = w.drv("conv2v", "-", E["UTF-8"], n, 0, FAIL)
    w.check(is_ex(x) or x["out"] == "", "empty text", "%s -> %r" % (e, x))
    x = w.drv("conv2s", "-", E["UTF-8"], n, FAIL)
    w.check(is_ex(x) or x["out"] == "", "empty text", "%s -> %r" % (e, x))
    w.count("names")
    w.seen("name", e)


C = Check("C05", [("trip", trip, 6000, 60000), ("cross", cross, 4000, 40000), ("policy", policy, 3000, 30000),
                  ("broken", broken, 1500, 15000), ("units", units, len(ENC), len(ENC))],
          "distinct (encoding pair or encoding, text length, byte-order mark) whose bytes were compared with the C library's own conversion and whose text was compared after coming back",
          assumptions=["the encodings exercised are those the C library here supports", "text containing U+FEFF is not generated"])
if __name__ == "__main__":
    sys.exit(C.main())
