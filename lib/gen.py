"""Random, structure-aware inputs: tags, frames, files, texts."""
import zlib
from id3 import *

LATIN = "abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ 0123456789-_.,:;'&()!?"
HIGH = "àéîõüßñçøåæðþÿÀÉÖÜ¡¿£§©®±µ¶·¼½¾×÷"
WIDE = "αβγδλπωЖИЯбгдשלוםعربيहिन्दी日本語中文カタカナ한글€→∞≠★☃ẞ"
ASTRAL = "😀🎵𝄞𐍈"


def text(r, ver=3, encb=0, maxlen=40, nul=False, empty=True):
    """A string representable under encoding byte ENCB"""
    mode = r.random()
    if mode < .06 and empty:
        return ""
    n = r.randint(1, maxlen) if mode < .9 else r.randint(1, maxlen * 8)
    al = LATIN
    if r.random() < .6:
        al = LATIN + HIGH * 2
    if encb and r.random() < .7:
        al += WIDE * 2
        if (ver == 4) and r.random() < .4:
            al += ASTRAL * 4
    if r.random() < .1:
        al = "ÿàþñ" + ("￠！Ā" if encb else "")
    s = "".join(r.choice(al) for _ in range(n))
    if maxlen > 11 and r.random() < .004:
        n = r.choice((255, 256, 257, 1000, 1023, 1024, 1025, 4095, 4096, 4097, 9000))
        s = (s * (n // len(s) + 1))[:n - r.randrange(2)] + s[-1]
    return s


def asc(r, maxlen=20, minlen=0):
    return "".join(r.choice("abcdefgXYZ0189@.-_/") for _ in range(r.randint(minlen, maxlen))).encode()


def blob(r, maxlen=60):
    """Bytes, rich in what confuses tag code"""
    n = r.choice((0, 1, 2, 3, r.randint(0, maxlen), r.randint(0, maxlen)))
    m = r.random()
    if maxlen > 39 and r.random() < .004:
        return bytes(r.choice((0xff, 0, 0xe0, r.randrange(256), r.randrange(256))) for _ in range(97)) * r.choice((3, 11, 43, 90, 700))
    if m < .35:
        return bytes(r.choice((0xff, 0xff, 0, 0xe0, 0xe5, 0xfb, 0xdf, 0xfe, 1)) for _ in range(n))
    if m < .5:
        return b"\xff" * n
    return bytes(r.randrange(256) for _ in range(n))


def encbyte(r, ver):
    return r.choice((0, 0, 1)) if ver < 4 else r.choice((0, 1, 2, 3, 3))


def frame(r, ver, kinds=None, wellformed=True):
    k = r.choice(kinds or ("text", "text", "text", "unk", "ufid", "txxx", "comm", "comm", "pcnt", "popm", "xtag", "priv", "priv"))
    v = ver - 2
    if k in ("priv", "encr") and ver == 2:
        k = "unk"
    f = {}
    if k == "text":
        fid = r.choice(TEXT2 if ver == 2 else TEXT3)
        if r.random() < .6:
            fid = r.choice(list(NAMES.values()))[v]
        e = encbyte(r, ver)
        s = text(r, ver, e)
        p = bytes([e]) + enc_text(ver, e, s, r.choice(("le", "be")))
    elif k == "unk":
        fid = r.choice(("WAF", "PIC", "MCI", "ETC", "ULT", "IPL", "BUF") if ver == 2 else
                       ("WOAF", "APIC", "MCDI", "ETCO", "USLT", "GEOB", "RVAD", "XYZ1", "ZAB9", "WXXX"))
        p = blob(r, 200 if r.random() < .1 else 40) or b"\x01"
    elif k == "ufid":
        fid, p = IDS[k][v], asc(r, 20, 1) + b"\0" + blob(r, 30)
    elif k in ("txxx", "comm"):
        fid, e = IDS[k][v], encbyte(r, ver)
        d, s = text(r, ver, e, 12), text(r, ver, e)
        nul = b"\0\0" if e in (1, 2) else b"\0"
        o = r.choice(("le", "be"))
        p = bytes([e]) + (asc3(r) if k == "comm" else b"") + enc_text(ver, e, d, o) + nul + enc_text(ver, e, s, o)
    elif k == "pcnt":
        fid, p = IDS[k][v], counted(r)
    elif k == "popm":
        fid, p = IDS[k][v], asc(r) + b"\0" + bytes([r.randrange(256)]) + (counted(r) if r.random() < .85 else b"")
    elif k == "xtag":
        fid = IDS[k][v]
        p = enc_xtag(asc(r), cloud(r))
    elif k == "priv":
        fid, p = "PRIV", asc(r) + b"\0" + blob(r, 40)
    elif k == "encr":
        fid, p = "ENCR", asc(r, 10, 1) + b"\0" + bytes([r.randrange(0x80, 0xf1)]) + blob(r, 10)
    fr = Fr(ver, fid, p, k)
    if ver > 2:
        if r.random() < .3:
            fr.tap, fr.fap, fr.ro = r.randrange(2), r.randrange(2), r.randrange(2)
        if r.random() < .1:
            fr.gid = r.randrange(0x80, 0xf1)
        if r.random() < .1:
            fr.cmp = True
        if ver == 4 and r.random() < .1:
            fr.dli = True
    return fr


def asc3(r):
    return bytes(r.choice(b"abcdefghijklmnopqrstuvwxyz") for _ in range(3))


def counter(r):
    return r.choice((0, 1, 2, 100, 127, 128, 254, 255, 256, 65535, 65536, 0xffffff, 0x1000000, 0x7fffffff, 0x80000000,
                     0xfffffffe, 0xffffffff, 1 << 32, (1 << 40) - 1, r.randrange(1 << 64) >> r.randrange(33),
                     r.randrange(1 << 32), r.randrange(1 << 16), r.randrange(300)))


def counted(r):
    """A counter, in as many bytes as it takes but no fewer than four"""
    n = counter(r)
    return be(n, max(4, n.bit_length() + 7 >> 3))


def cloud(r, n=4):
    def word():
        if r.random() < .3:
            return text(r, 4, 3, 8, empty=False).replace("\0", "").encode() or b"x"
        return asc(r, 6, 1)
    return {word(): {word() for _ in range(r.choice((0, 1, 1, 2, 3)))} for _ in range(r.choice((0, 1, 1, 2, n)))}


def tag(r, ver=None, kinds=None, maxframes=8, ext=True, unsync=None, footer=True):
    ver = ver or r.choice((2, 3, 3, 4))
    n = r.choice((0, 1, 1, 2, 3, r.randint(0, maxframes)))
    fs = [frame(r, ver, kinds) for _ in range(n)]
    if kinds is None and ver > 2 and r.random() < .08:
        syms = r.sample(range(0x80, 0xf0), 2)
        for s in syms[:r.choice((1, 1, 2))]:
            f = frame(r, ver, ("encr",))
            i = f.payload.index(0)
            f.payload = f.payload[:i + 1] + bytes([s]) + f.payload[i + 2:]
            fs.insert(r.randint(0, len(fs)), f)
    pad = r.choice((0, 0, 1, 2, 3, 9, 10, 11, 64, 300, 1024, r.randint(0, 500)))
    t = Tg(ver, fs, pad)
    if not fs and not pad:
        t.pad = r.choice((1, 10, 32))      # the formats require at least something
    t.unsync = (r.random() < .3) if unsync is None else unsync
    if ver == 4:
        if t.unsync:
            for f in fs:
                f.unsync = True
        elif unsync is None:
            for f in fs:
                f.unsync = r.random() < .15
    if ver > 2:
        t.exp = r.random() < .1
        if ext and r.random() < .2:
            if ver == 3:
                t.ext = {"pad": t.pad, "crc": None}
                if r.random() < .5:
                    t.ext["crc"] = zlib.crc32(b"".join(f.raw() for f in fs))
            else:
                t.ext = {"upd": r.random() < .4, "crc": None, "restr": r.randrange(256) if r.random() < .4 else None}
                if r.random() < .5:
                    t.ext["crc"] = zlib.crc32(b"".join(f.raw() for f in fs) + b"\0" * t.pad)
        if ver == 4 and footer and r.random() < .1:
            t.footer, t.pad = True, 0
            if not fs:
                t.frames = [frame(r, 4, ("text",))]
                t.frames[0].unsync = t.unsync
    return t


# ------------------------------------------------------------------------ MP3
BR1 = {1: (32, 64, 96, 128, 160, 192, 224, 256, 288, 320, 352, 384, 416, 448),
       2: (32, 48, 56, 64, 80, 96, 112, 128, 160, 192, 224, 256, 320, 384),
       3: (32, 40, 48, 56, 64, 80, 96, 112, 128, 160, 192, 224, 256, 320)}
BR2 = {1: (32, 48, 56, 64, 80, 96, 112, 128, 144, 160, 176, 192, 224, 256),
       2: (8, 16, 24, 32, 40, 48, 56, 64, 80, 96, 112, 128, 144, 160),
       3: (8, 16, 24, 32, 40, 48, 56, 64, 80, 96, 112, 128, 144, 160)}
SR = {1: (44100, 48000, 32000), 2: (22050, 24000, 16000), 25: (11025, 12000, 8000)}


def mpeg_len(ver, layer, kbps, hz, pad):
    if layer == 1:
        return (12 * kbps * 1000 // hz + pad) * 4
    spf = 1152 if layer == 2 or ver == 1 else 576
    return spf // 8 * kbps * 1000 // hz + pad


def mpeg_samples(ver, layer):
    return 384 if layer == 1 else 1152 if layer == 2 or ver == 1 else 576


def mpeg_frame(r, ver, layer, bri, sri, pad, mode=None, fill=None):
    """One MPEG audio frame: (bytes, samples, hz)"""
    br = (BR1 if ver == 1 else BR2)[layer][bri]
    hz = SR[ver][sri]
    n = mpeg_len(ver, layer, br, hz, pad)
    mode = r.randrange(4) if mode is None else mode
    h = bytes([0xff, 0xe0 | {1: 3, 2: 2, 25: 0}[ver] << 3 | {1: 3, 2: 2, 3: 1}[layer] << 1 | r.randrange(2),
               (bri + 1) << 4 | sri << 2 | pad << 1 | r.randrange(2), mode << 6 | r.randrange(64) & 0x3c])
    body = bytes([fill]) * (n - 4) if fill is not None else bytes(r.randrange(255) for _ in range(n - 4))
    return h + body, mpeg_samples(ver, layer), hz


def v1(r, v11=None, enh=None):
    """The bytes of an ID3v1 tag"""
    enh = r.random() < .3 if enh is None else enh
    v11 = r.random() < .5 if v11 is None else v11

    def fld(n):
        s = text(r, 3, 0, n).encode("latin-1")
        return s[:n].ljust(n, r.choice((b"\0", b"\0", b" ")))
    t, a, l = fld(30), fld(30), fld(30)
    y = r.choice((b"1999", b"2016", b"\0\0\0\0", b"    "))
    c = fld(30)
    if v11:
        c = c[:28] + b"\0" + bytes([r.randrange(1, 256)])
    elif c[28] == 0 and c[29]:
        c = c[:29] + b"\0"
    std = b"TAG" + t + a + l + y + c + bytes([r.randrange(256)])
    if not enh:
        return std
    return (b"TAG+" + fld(60) + fld(60) + fld(60) + bytes([r.randrange(5)]) + fld(30) +
            b"000:12" + b"003:59" + std)


def audio(r, maxlen=400):
    """Bytes that stand for a track (no tag-like prefix or suffix)"""
    m = r.random()
    if m < .1:
        return b""
    if m < .5:
        n = r.randint(1, 4)
        ver, layer, sri = r.choice((1, 2, 25)), r.choice((1, 2, 3, 3)), r.randrange(3)
        return b"".join(mpeg_frame(r, ver, layer, r.randrange(5), sri, r.randrange(2))[0] for _ in range(n))
    while True:
        b = blob(r, maxlen) if m < .7 else bytes(r.randrange(256) for _ in range(r.randint(1, maxlen)))
        if not b.startswith(b"ID3"):
            return b


# ------------------------------------------------------------------- mutation
def mutate(r, b):
    b = bytearray(b)
    for _ in range(r.choice((1, 1, 1, 2, 3, 5))):
        if not b:
            return bytes(r.randrange(256) for _ in range(r.randint(0, 8)))
        m = r.random()
        i = r.randrange(len(b))
        if m < .3:
            b[i] = r.choice((0, 1, 0x7f, 0x80, 0xff, 0xfe, 0xe0, b[i] ^ 1 << r.randrange(8), r.randrange(256)))
        elif m < .4:
            del b[i:i + r.choice((1, 1, 2, 4, r.randint(1, 30)))]
        elif m < .5:
            b[i:i] = bytes(r.choice((0, 0xff, r.randrange(256))) for _ in range(r.randint(1, 6)))
        elif m < .65:
            del b[i:]
        elif m < .75:
            for j in range(i, min(len(b), i + 4)):
                b[j] = r.choice((0, 0xff, 0x7f, 0x01))
        elif m < .85:
            k = r.randint(1, 20)
            j = r.randrange(len(b))
            b[i:i + k] = b[j:j + k]
        elif m < .93 and len(b) > 12:      # a header byte
            b[r.randrange(min(len(b), 24))] = r.choice((0, 1, 2, 3, 4, 5, 10, 0x10, 0x20, 0x40, 0x80, 0xff, 0x7f))
        else:
            b += blob(r, 20)
    return bytes(b)


def tiny_tag(r):
    """A header followed by arbitrary bytes that mostly look like frames"""
    ver = r.choice((2, 3, 4, 3, 4))
    body = b""
    for _ in range(r.choice((1, 1, 2, 3))):
        k = r.choice(list(IDS))
        fid = IDS[k][ver - 2] or "PIC"
        if r.random() < .3:
            fid = r.choice(TEXT2 if ver == 2 else TEXT3)
        d = blob(r, 12)
        if r.random() < .4:
            d = bytes([r.choice((0, 1, 2, 3, 4, 255))]) + d
        n = len(d)
        if r.random() < .3:
            n = max(0, n + r.choice((-2, -1, 1, 2, 10, 100, 0x7f, 0x80, 0xff, 0x10000, 0x7fffff)))
        fl = b"\0\0"
        if r.random() < .4:
            fl = bytes([r.choice((0, 0xe0, 0x70, 255)), r.choice((0x80, 0x40, 0x20, 0xe0, 8, 4, 2, 1, 9, 0x4f, 255))])
        fid = fid.encode()
        if ver == 2:
            body += fid + be(n & 0xffffff, 3) + d
        elif ver == 3:
            body += fid + be(n, 4) + fl + d
        else:
            body += fid + (syncsafe(n) if r.random() < .9 else be(n, 4)) + fl + d
    body += r.choice((b"", b"\0", b"\0\0", b"\0\0\0", b"\0" * 12, blob(r, 4)))
    if r.random() < .2:
        body = blob(r, 20) + body
    n = len(body)
    if r.random() < .15:
        n = max(0, n + r.choice((-3, -2, -1, 1, 5)))
    fl = r.choice((0, 0, 0, 0x80, 0x40, 0x20, 0x10, 0xc0, 0xf0, 0xff))
    return b"ID3" + bytes([ver, r.choice((0, 0, 0, 1, 255)), fl]) + syncsafe(n) + body


def untag(front, a, v):
    """The track, longer if need be so that nothing in front of the ID3v1 tag
    looks like one"""
    while True:
        b = front + a + v
        if not v and b[-128:-125] == b"TAG" or len(v) in (0, 128) and b[-355:-351] == b"TAG+":
            a += b"x"
        else:
            return a


def file_bytes(r, ntags=None, v1p=.4, mut=False):
    """A whole file: (bytes, tags, audio, v1 bytes)"""
    n = r.choice((0, 1, 1, 1, 2, 3)) if ntags is None else ntags
    ts = [tag(r) for _ in range(n)]
    a = audio(r)
    v = v1(r) if r.random() < v1p else b""
    a = untag(b"".join(t.raw() for t in ts), a, v)
    return b"".join(t.raw() for t in ts) + a + v, ts, a, v
