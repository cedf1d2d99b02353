"""An independent model of ID3v1 and ID3v2.2/2.3/2.4: what bytes a tag is, and
what the bytes of a tag say. Written from the formats' specifications
(id3.org), plus the XTAG/XTG frame documented by scribbu itself."""
import re, struct, zlib


# ----------------------------------------------------------------- primitives
def syncsafe(n, k=4):
    return bytes((n >> (7 * i)) & 0x7f for i in range(k - 1, -1, -1))


def from_syncsafe(b):
    n = 0
    for x in b:
        n = n << 7 | (x & 0x7f)
    return n


def be(n, k):
    return n.to_bytes(k, "big")


def unsync(b):
    """The unsynchronisation scheme as scribbu applies it: every 0xff that is
    followed by a byte >= 0xe0, or by 0x00, or that ends the data, gains a 0x00."""
    return re.sub(rb"\xff(?=[\xe0-\xff\x00]|\Z)", b"\xff\x00", bytes(b))


def resync(b):
    return bytes(b).replace(b"\xff\x00", b"\xff")


def false_syncs(b):
    """Positions where 0xff is followed by >= 0xe0"""
    return [m.start() for m in re.finditer(rb"\xff(?=[\xe0-\xff])", bytes(b))]


def pattern(b):
    """Does b hold anything unsynchronisation would have to change (other than a trailing 0xff)?"""
    return re.search(rb"\xff[\xe0-\xff\x00]", bytes(b)) is not None


# --------------------------------------------------------------------- frames
TEXT2 = """TAL TBP TCM TCO TCR TDA TDY TEN TFT TIM TKE TLA TLE TMT TOA TOF TOL TOR TOT TP1 TP2 TP3 TP4
TPA TPB TRC TRD TRK TSI TSS TT1 TT2 TT3 TXT TYE""".split()
TEXT3 = """TALB TBPM TCOM TCON TCOP TDAT TDLY TENC TEXT TFLT TIME TIT1 TIT2 TIT3 TKEY TLAN TLEN TMED TOAL
TOFN TOLY TOPE TORY TOWN TPE1 TPE2 TPE3 TPE4 TPOS TPUB TRCK TRDA TRSN TRSO TSIZ TSRC TSSE TYER""".split()
TEXT4 = TEXT3
NAMES = {  # accessor -> frame id, per version
    "album": ("TAL", "TALB", "TALB"), "artist": ("TP1", "TPE1", "TPE1"), "content_type": ("TCO", "TCON", "TCON"),
    "encoded_by": ("TEN", "TENC", "TENC"), "languages": ("TLA", "TLAN", "TLAN"), "title": ("TT2", "TIT2", "TIT2"),
    "track": ("TRK", "TRCK", "TRCK"), "year": ("TYE", "TYER", "TYER"),
}
IDS = {  # kind -> id, per version
    "ufid": ("UFI", "UFID", "UFID"), "txxx": ("TXX", "TXXX", "TXXX"), "comm": ("COM", "COMM", "COMM"),
    "pcnt": ("CNT", "PCNT", "PCNT"), "popm": ("POP", "POPM", "POPM"), "xtag": ("XTG", "XTAG", "XTAG"),
    "encr": (None, "ENCR", "ENCR"), "priv": (None, "PRIV", "PRIV"),
}


def kind_of(ver, fid):
    for k, v in IDS.items():
        if v[ver - 2] == fid:
            return k
    if fid in (TEXT2 if ver == 2 else TEXT3):
        return "text"
    return "unk"


def enc_text(ver, encb, s, bom=None):
    """Text S as the payload bytes for encoding byte ENCB"""
    if encb == 0:
        return s.encode("latin-1")
    if encb == 1:
        if bom == "be":
            return b"\xfe\xff" + s.encode("utf-16-be")
        return b"\xff\xfe" + s.encode("utf-16-le")
    if encb == 2:
        return s.encode("utf-16-be")
    return s.encode("utf-8")


def dec_text(ver, encb, b):
    if encb == 0:
        return b.decode("latin-1")
    if encb == 1:
        if b[:2] == b"\xfe\xff":
            return b[2:].decode("utf-16-be")
        if b[:2] == b"\xff\xfe":
            return b[2:].decode("utf-16-le")
        return b.decode("utf-16-le")
    if encb == 2:
        return b.decode("utf-16-be")
    return b.decode("utf-8")


class Fr:
    """A frame as the format has it"""
    def __init__(self, ver, fid, payload, kind=None, tap=0, fap=0, ro=0, gid=None, cmp=False, unsync=False, dli=False, **f):
        self.ver, self.id, self.payload = ver, fid, bytes(payload)
        self.kind = kind or kind_of(ver, fid)
        self.tap, self.fap, self.ro, self.gid, self.cmp = tap, fap, ro, gid, cmp
        self.unsync, self.dli = unsync, dli
        self.silent = False     # unsynchronised, though only the tag says so
        self.f = f              # the facts it encodes

    def body(self):
        """payload with what precedes it in the file"""
        if self.ver == 2:
            return self.payload
        p = self.payload
        pre = b""
        if self.ver == 3:
            if self.cmp:
                pre += be(len(p), 4)
                p = zlib.compress(p)
            if self.gid is not None:
                pre += bytes([self.gid])
            return pre + p
        n = len(p)
        if self.gid is not None:
            pre += bytes([self.gid])
        if self.cmp:
            p = zlib.compress(p)
        if self.cmp or self.dli:
            pre += syncsafe(n)
        b = pre + p
        return b

    def flags(self):
        if self.ver == 3:
            return bytes([self.tap << 7 | self.fap << 6 | self.ro << 5,
                          (0x80 if self.cmp else 0) | (0x20 if self.gid is not None else 0)])
        return bytes([self.tap << 6 | self.fap << 5 | self.ro << 4,
                      (0x40 if self.gid is not None else 0) | (8 if self.cmp else 0) |
                      (2 if self.unsync and not self.silent else 0) | (1 if self.cmp or self.dli else 0)])

    def raw(self):
        b = self.body()
        i = self.id.encode("latin-1") if isinstance(self.id, str) else self.id
        if self.ver == 2:
            return i + be(len(b), 3) + b
        if self.ver == 3:
            return i + be(len(b), 4) + self.flags() + b
        if self.unsync:
            b = unsync(b)
        return i + syncsafe(len(b)) + self.flags() + b


class Tg:
    """A tag as the format has it"""
    def __init__(self, ver, frames=(), pad=0, unsync=False, ext=None, exp=False, rev=0, footer=False):
        self.ver, self.frames, self.pad = ver, list(frames), pad
        self.unsync, self.ext, self.exp, self.rev, self.footer = unsync, ext, exp, rev, footer

    def ext_bytes(self):
        if self.ext is None:
            return b""
        if self.ver == 3:
            b = be(10 if self.ext.get("crc") is not None else 6, 4)
            b += b"\x80\x00" if self.ext.get("crc") is not None else b"\0\0"
            b += be(self.ext["pad"], 4)
            if self.ext.get("crc") is not None:
                b += be(self.ext["crc"], 4)
            return b
        fl, d = 0, b""
        if self.ext.get("upd"):
            fl |= 0x40
            d += b"\0"
        if self.ext.get("crc") is not None:
            fl |= 0x20
            d += b"\x05" + syncsafe(self.ext["crc"], 5)
        if self.ext.get("restr") is not None:
            fl |= 0x10
            d += b"\x01" + bytes([self.ext["restr"]])
        return syncsafe(6 + len(d)) + b"\x01" + bytes([fl]) + d

    def flags(self):
        f = 0
        if self.unsync:
            f |= 0x80
        if self.ext is not None and self.ver > 2:
            f |= 0x40
        if self.exp and self.ver > 2:
            f |= 0x20
        if self.footer and self.ver == 4:
            f |= 0x10
        return f

    def body(self):
        b = self.ext_bytes() + b"".join(f.raw() for f in self.frames) + b"\0" * self.pad
        if self.unsync and self.ver < 4:
            b = unsync(b)
        return b

    def raw(self):
        b = self.body()
        h = bytes([self.ver, self.rev, self.flags()]) + syncsafe(len(b))
        r = b"ID3" + h + b
        if self.footer and self.ver == 4:
            r += b"3DI" + h
        return r


# ------------------------------------------------------------------- decoding
class Malformed(Exception):
    pass


def parse_tag(b):
    """Decode the tag at the front of B: (Tg, bytes used). Strict: anything not
    well-formed is Malformed."""
    if len(b) < 10 or b[:3] != b"ID3":
        raise Malformed("no ID3 header")
    ver, rev, fl = b[3], b[4], b[5]
    if ver not in (2, 3, 4):
        raise Malformed("version %d" % ver)
    if any(x & 0x80 for x in b[6:10]):
        raise Malformed("size is not sync-safe")
    n = from_syncsafe(b[6:10])
    if len(b) < 10 + n:
        raise Malformed("truncated: %d bytes declared, %d present" % (n, len(b) - 10))
    body = b[10:10 + n]
    t = Tg(ver, rev=rev, unsync=bool(fl & 0x80))
    used = 10 + n
    if t.unsync and ver < 4:
        if false_syncs(body):
            raise Malformed("false sync in an unsynchronised tag")
        body = resync(body)
    if ver > 2:
        t.exp = bool(fl & 0x20)
    if ver == 4 and fl & 0x10:
        t.footer = True
        want = b"3DI" + b[3:10]
        if b[used:used + 10] != want:
            raise Malformed("bad footer")
        used += 10
    i = 0
    if ver == 3 and fl & 0x40:
        if len(body) < 10:
            raise Malformed("short extended header")
        cb = int.from_bytes(body[:4], "big")
        crc = bool(body[4] & 0x80)
        if cb != (10 if crc else 6) or len(body) < 4 + cb:
            raise Malformed("extended header size %d" % cb)
        t.ext = {"pad": int.from_bytes(body[6:10], "big"), "crc": int.from_bytes(body[10:14], "big") if crc else None}
        i = 4 + cb
    elif ver == 4 and fl & 0x40:
        if len(body) < 6:
            raise Malformed("short extended header")
        cb = from_syncsafe(body[:4])
        if cb > len(body) or cb < 6 or body[4] != 1:
            raise Malformed("extended header")
        x, p = {"upd": False, "crc": None, "restr": None}, 6
        if body[5] & 0x40:
            if body[p] != 0:
                raise Malformed("ext header: update")
            x["upd"] = True
            p += 1
        if body[5] & 0x20:
            if body[p] != 5:
                raise Malformed("ext header: crc length")
            x["crc"] = from_syncsafe(body[p + 1:p + 6])
            p += 6
        if body[5] & 0x10:
            if body[p] != 1:
                raise Malformed("ext header: restrictions length")
            x["restr"] = body[p + 1]
            p += 2
        if p != cb:
            raise Malformed("ext header is %d bytes, says %d" % (p, cb))
        t.ext = x
        i = cb
    hl = 6 if ver == 2 else 10
    while i < len(body):
        if body[i] == 0:
            if any(body[i:]):
                raise Malformed("padding is not all zero (at %d)" % i)
            t.pad = len(body) - i
            break
        if len(body) - i < hl:
            raise Malformed("%d stray bytes" % (len(body) - i))
        if ver == 2:
            fid, sz = body[i:i + 3], int.from_bytes(body[i + 3:i + 6], "big")
        elif ver == 3:
            fid, sz = body[i:i + 4], int.from_bytes(body[i + 4:i + 8], "big")
        else:
            fid = body[i:i + 4]
            if any(x & 0x80 for x in body[i + 4:i + 8]):
                raise Malformed("frame size is not sync-safe")
            sz = from_syncsafe(body[i + 4:i + 8])
        if i + hl + sz > len(body):
            raise Malformed("frame %r overruns the tag" % fid)
        d = body[i + hl:i + hl + sz]
        fid = fid.decode("latin-1")
        f = Fr(ver, fid, d)
        if ver > 2:
            f0, f1 = body[i + 8], body[i + 9]
            if ver == 3:
                f.tap, f.fap, f.ro = f0 >> 7 & 1, f0 >> 6 & 1, f0 >> 5 & 1
                if f0 & 0x1f or f1 & 0x1f:
                    raise Malformed("undefined frame flags %02x %02x" % (f0, f1))
                n = None
                if f1 & 0x80:
                    n = int.from_bytes(d[:4], "big")
                    d = d[4:]
                    f.cmp = True
                if f1 & 0x40:
                    raise Malformed("encrypted")
                if f1 & 0x20:
                    f.gid = d[0]
                    d = d[1:]
            else:
                f.tap, f.fap, f.ro = f0 >> 6 & 1, f0 >> 5 & 1, f0 >> 4 & 1
                if f0 & 0x8f or f1 & 0xb0:
                    raise Malformed("undefined frame flags %02x %02x" % (f0, f1))
                if f1 & 2:
                    if false_syncs(d):
                        raise Malformed("false sync in an unsynchronised frame")
                    d = resync(d)
                    f.unsync = True
                if f1 & 0x40:
                    f.gid = d[0]
                    d = d[1:]
                if f1 & 4:
                    raise Malformed("encrypted")
                n = None
                if f1 & 1:
                    n = from_syncsafe(d[:4])
                    d = d[4:]
                    f.dli = True
                if f1 & 8:
                    f.cmp = True
                    if n is None:
                        raise Malformed("compressed without a data length")
            if f.cmp:
                try:
                    d = zlib.decompress(d)
                except zlib.error as e:
                    raise Malformed("zlib: %s" % e)
                if len(d) != n:
                    raise Malformed("decompressed size")
        f.payload = d
        t.frames.append(f)
        i += hl + sz
    return t, used


def facts(f):
    """What frame F says, by its kind, from its payload. None if the payload is
    not well-formed for that kind."""
    p, k, v = f.payload, f.kind, f.ver
    try:
        if k == "text":
            if not p:
                return None
            return {"uni": p[0], "raw": p[1:], "str": dec_text(v, p[0], p[1:])}
        if k == "unk":
            return {"raw": p}
        if k == "ufid":
            i = p.index(0)
            return {"owner": p[:i], "data": p[i + 1:]}
        if k == "txxx":
            w = 2 if p[0] in (1, 2) else 1
            i = 1
            while p[i:i + w] != b"\0" * w:
                i += w
                if i >= len(p):
                    return None
            return {"uni": p[0], "draw": p[1:i], "raw": p[i + w:], "dsc": dec_text(v, p[0], p[1:i]),
                    "str": dec_text(v, p[0], p[i + w:])}
        if k == "comm":
            w = 2 if p[0] in (1, 2) else 1
            i = 4
            while p[i:i + w] != b"\0" * w:
                i += w
                if i >= len(p):
                    return None
            return {"uni": p[0], "lang": p[1:4], "draw": p[4:i], "raw": p[i + w:],
                    "dsc": dec_text(v, p[0], p[4:i]), "str": dec_text(v, p[0], p[i + w:])}
        if k == "pcnt":
            return {"count": int.from_bytes(p, "big")} if p else None
        if k == "popm":
            i = p.index(0)
            return {"owner": p[:i], "rating": p[i + 1], "cbytes": p[i + 2:], "count": int.from_bytes(p[i + 2:], "big")}
        if k == "encr":
            i = p.index(0)
            return {"owner": p[:i], "sym": p[i + 1], "data": p[i + 2:]}
        if k == "priv":
            i = p.index(0)
            return {"owner": p[:i], "data": p[i + 1:]}
        if k == "xtag":
            return dec_xtag(p)
    except (IndexError, ValueError, UnicodeError):
        return None
    return None


# ---------------------------------------------------------------------- ID3v1
def v1_field(s, n):
    return s[:n].ljust(n, b"\0")


def enc_xtag(owner, cloud):
    """cloud: {key bytes: set of value bytes}"""
    b = b"\x01" + owner + b"\0"
    for k in sorted(cloud):
        vs = b"".join(v + b"\0" for v in sorted(cloud[k]))
        b += k + b"\0" + be(len(vs), 4) + vs
    return b


def dec_xtag(p):
    if p[0] != 1:
        return None
    i = p.index(0, 1)
    owner, i = p[1:i], i + 1
    cloud = {}
    while i < len(p):
        j = p.index(0, i)
        k = p[i:j]
        n = int.from_bytes(p[j + 1:j + 5], "big")
        vs = p[j + 5:j + 5 + n]
        if len(vs) != n or j + 5 > len(p) or (vs and vs[-1] != 0):
            return None
        cloud[k] = set(vs[:-1].split(b"\0")) if vs else set()
        i = j + 5 + n
    return {"owner": owner, "cloud": cloud}
