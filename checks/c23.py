#!/usr/bin/env python3
"""C23: tags survive a trip through Scheme"""
import os
import re
import sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import builder
import cmd
import gen
import vlib
from files import *
from id3 import *
from vlib import *

LANGS = [x.encode() for x in "eng fra deu spa ita jpn zho rus por abk zza pol nld swe fin".split()]
SYM = {"TAL": "album", "TP1": "artist", "TP2": "band", "TBP": "bpm", "TCM": "composer", "TP3": "conductor",
       "TT1": "content-group", "TCR": "copyright", "TDA": "date", "TEN": "encoded-by", "TFT": "file-type",
       "TCO": "genre", "TKE": "initial-key", "TP4": "interpreted-by", "TRC": "isrc", "TLA": "langs", "TLE": "length",
       "TXT": "lyricist", "TMT": "media-type", "TOT": "original-album", "TOA": "original-artist",
       "TOF": "original-filename", "TOL": "original-lyricist", "TOR": "original-release-year", "TPA": "part-of-a-set",
       "TDY": "playlist-delay", "TPB": "publisher", "TRD": "recording-dates", "TSS": "settings", "TSI": "size",
       "TT3": "subtitle", "TIM": "time", "TT2": "title", "TRK": "track", "TYE": "year"}
UP = {"TAL": "TALB", "TP1": "TPE1", "TP2": "TPE2", "TBP": "TBPM", "TCM": "TCOM", "TP3": "TPE3", "TT1": "TIT1",
      "TCR": "TCOP", "TDA": "TDAT", "TEN": "TENC", "TFT": "TFLT", "TCO": "TCON", "TKE": "TKEY", "TP4": "TPE4",
      "TRC": "TSRC", "TLA": "TLAN", "TLE": "TLEN", "TXT": "TEXT", "TMT": "TMED", "TOT": "TOAL", "TOA": "TOPE",
      "TOF": "TOFN", "TOL": "TOLY", "TOR": "TORY", "TPA": "TPOS", "TDY": "TDLY", "TPB": "TPUB", "TRD": "TRDA",
      "TSS": "TSSE", "TSI": "TSIZ", "TT3": "TIT3", "TIM": "TIME", "TT2": "TIT2", "TRK": "TRCK", "TYE": "TYER"}
SYM4 = dict({UP[k]: v for k, v in SYM.items()}, TOWN="file-owner", TRSN="station-name", TRSO="station-owner")
CLS = {"text": "<text-frame>", "comm": "<comment-frame>", "txxx": "<user-defined-text-frame>",
       "pcnt": "<play-count-frame>", "popm": "<popm-frame>", "xtag": "<tag-cloud-frame>"}
KSYM = {"comm": "comment-frame", "txxx": "udt-frame", "pcnt": "play-count-frame", "popm": "popm-frame",
        "xtag": "tag-cloud-frame"}


def sstr(s):
    """A Scheme string literal"""
    o = '"'
    for c in s:
        n = ord(c)
        if c in '"\\':
            o += "\\" + c
        elif 32 <= n < 127:
            o += c
        elif n < 0x10000:
            o += "\\u%04x" % n
        else:
            o += "\\U%06x" % n
    return o + '"'


def sbv(b):
    return "#vu8(%s)" % " ".join(map(str, b))


def sbool(b):
    return "#t" if b else "#f"


def trim(s):
    return s.rstrip("\0 ")


class M:
    """A frame as Scheme has it. F: its contents"""
    def __init__(self, id, kind, tap=0, fap=0, ro=0, **f):
        self.id, self.kind, self.tap, self.fap, self.ro, self.f = id, kind, tap, fap, ro, f

    def __repr__(self):
        return "%s(%r)" % (self.id, self.f)


def of(f):
    """Frame F of a file as it should be in Scheme"""
    k = f.kind if f.kind in CLS else "unk"
    x = facts(f)
    m = M(f.id, k, f.tap, f.fap, f.ro)
    if k == "text":
        m.f = {"text": x["str"]}
    elif k == "comm":
        m.f = {"lang": x["lang"].decode("latin-1"), "dsc": x["dsc"], "text": x["str"]}
    elif k == "txxx":
        m.f = {"dsc": x["dsc"], "text": x["str"]}
    elif k == "pcnt":
        m.f = {"count": x["count"]}
    elif k == "popm":
        m.f = {"e-mail": x["owner"].decode("latin-1"), "rating": x["rating"], "count": x["count"]}
    elif k == "xtag":
        m.f = {"owner": x["owner"].decode(), "tags": {a.decode(): {b.decode() for b in bs} for a, bs in x["cloud"].items()}}
    else:
        m.f = {"data": f.payload}
    return m


def sym_of(m, ver):
    if m.kind == "unk":
        return "unknown-frame"
    if m.kind == "text":
        return (SYM if ver == 2 else SYM4)[m.id] + "-frame"
    return KSYM[m.kind]


def same(k, a, b):
    if isinstance(a, str) and isinstance(b, str):
        return trim(a) == trim(b)
    return a == b


def got(k, v):
    """A slot's value as sent by the driver"""
    if k == "data":
        return ux(v["bv"]) if isinstance(v, dict) and "bv" in v else v
    if k == "tags":
        d = {}
        for p in v:
            if isinstance(p, list):
                d.setdefault(p[0], set()).update(p[1:])
            else:
                d.setdefault(p["car"], set()).update(p["cdr"])
        return d
    return v


def check_read(w, x, ver, ms, exp, pad, what):
    """X: a tag as the driver sent it, against MS"""
    w.check(isinstance(x, dict) and x.get("cls") == "<id3v2-tag>", "not a tag", "%r: %s" % (x, what))
    w.eq(bool(x["experimental"]), bool(exp) and ver > 2, "experimental flag in Scheme", what)
    w.eq(x["padding"], pad, "padding in Scheme", what)
    w.eq([f["id"]["sym"] for f in x["frames"]], [sym_of(m, ver) for m in ms], "frames in Scheme", what)
    for f, m in zip(x["frames"], ms):
        at = "%r: %s" % (m, what)
        w.eq(f["cls"], CLS.get(m.kind, "<unk-frame>"), "class of a frame", at)
        if m.kind == "unk":
            w.eq(f["id-text"], m.id, "id of an unknown frame", at)
        for k, v in m.f.items():
            g = got(k, f[k])
            if k == "data" and isinstance(g, bytes):
                g = g[6 if ver == 2 else 10:]      # the frame's header is part of it
            w.check(same(k, g, v), "contents in Scheme", "%s is %r: %s" % (k, g, at))
        if ver > 2:
            w.eq((f["tap"], f["fap"], f["ro"]), (m.tap == 0, m.fap == 0, bool(m.ro)), "frame flags in Scheme", at)


def why(t, ver, ms, exp):
    """Why tag T, as written, isn't one of MS. None if it is"""
    if t.ver != ver:
        return "version %d, not %d" % (t.ver, ver)
    if ver > 2 and bool(t.exp) != bool(exp):
        return "experimental flag %r" % t.exp
    if [f.id for f in t.frames] != [m.id for m in ms]:
        return "frames %r, not %r" % ([f.id for f in t.frames], [m.id for m in ms])
    for g, m in zip(t.frames, ms):
        if g.kind in CLS and facts(g) is None:
            return "frame %s can't be decoded: %r" % (g.id, g.payload)
        h = of(g)
        if h.kind != m.kind:
            return "frame %r, not %r" % (h, m)
        for k, v in m.f.items():
            if not same(k, h.f[k], v):
                return "%s of %s is %r, not %r" % (k, m.id, h.f[k], v)
        if ver > 2 and (g.tap, g.fap, g.ro) != (m.tap, m.fap, m.ro):
            return "flags of %s are %r, not %r" % (m.id, (g.tap, g.fap, g.ro), (m.tap, m.fap, m.ro))
    return None


def tame(r, f):
    """Scheme has no word for some frames' contents: make F one it has"""
    if f.kind == "xtag" and r.random() < .3:
        i = f.payload.index(0, 1)
        f.payload = f.payload[:1] + "".join(r.choice(gen.LATIN + gen.HIGH) for _ in range(r.randint(1, 9))).encode() + f.payload[i:]
    if f.kind == "comm":
        f.payload = f.payload[:1] + r.choice(LANGS) + f.payload[4:]
    if f.ver > 2 and f.id in ("XYZ1",) and r.random() < .5:
        f.id = "XRVA"
    return f


def rtag(r, **k):
    t = gen.tag(r, **k)
    for f in t.frames:
        tame(r, f)
    t.ext = None if r.random() < .5 else t.ext
    if t.ext and t.ext.get("crc") is not None:
        t.ext["crc"] = None
    return t


class Case:
    """A file, and what Scheme should think of it"""
    def __init__(self, w, no, ntags=None):
        r = w.rng
        n = r.choice((0, 1, 1, 1, 2, 3)) if ntags is None else ntags
        self.tags = [rtag(r) for _ in range(n)]
        a = gen.audio(r)
        v = gen.v1(r) if r.random() < .4 else b""
        self.audio = gen.untag(b"".join(t.raw() for t in self.tags), a, v)
        self.tail = self.audio + v
        self.d = w.dir()
        self.name = r.choice(("a.mp3", "b c.mp3", "ünï.mp3", 'q"\\.mp3'))
        self.path = os.path.join(self.d, self.name)
        self.raw = b"".join(t.raw() for t in self.tags) + self.tail
        put(self.path, self.raw)
        self.ms = [[of(f) for f in t.frames] for t in self.tags]
        self.vers = [t.ver for t in self.tags]
        self.exps = [t.exp for t in self.tags]
        self.what = repr(cmd.File(self.tags, self.audio, v))

    def read(self, w):
        x = w.drv.batch(["(begin (set! T (read-tagset %s)) T)" % sstr(self.path)])[0]
        w.check(isinstance(x, list), "the tags can't be read", "%r: %s" % (x, self.what))
        w.eq([y[1] for y in x], self.vers, "tags in Scheme", self.what)
        for y, t, ms, e in zip(x, self.tags, self.ms, self.exps):
            check_read(w, y[0], t.ver, ms, e, t.pad, self.what)
        w.eq(get(self.path), self.raw, "reading changed the file", self.what)
        return x

    def written(self, w, x, how, may_fail=False):
        """X: the answer to a request to write"""
        b = get(self.path)
        left = snapshot(self.d)
        self.what += " written " + how
        if is_ex(x):
            w.check(may_fail, "the tags can't be written", "%r: %s" % (x, self.what))
            w.check(b == self.raw, "a failed write changed the file", "%r: %s" % (x, self.what))
            w.count("refused")
            w.eq(sorted(left), [self.name], "files left behind", self.what)
            return False
        o, ts = 0, []
        for i, (v, ms, e) in enumerate(zip(self.vers, self.ms, self.exps)):
            w.check(b[o:o + 3] == b"ID3", "a tag is missing", "%d: %s" % (i, self.what))
            try:
                t, n = parse_tag(b[o:])
            except Exception as ex:
                w.check(False, "a written tag can't be read", "%d: %r: %s" % (i, ex, self.what))
            y = why(t, v, ms, e)
            w.check(y is None, "not what was written", "tag %d: %s: %s" % (i, y, self.what))
            ts.append(t)
            o += n
        w.check(b[o:] == self.tail, "what follows the tags changed", "%d bytes %r, not %d %r: %s" % (
            len(b) - o, b[o:][:40], len(self.tail), self.tail[:40], self.what))
        del left[self.name]
        bk = sorted(left)
        if bk or "#:copy #t" in how:
            w.check(len(bk) == 1 and bk[0].startswith(self.name + ".") and left[bk[0]][2] == self.raw,
                    "no backup of what was there", "%r: %s" % (bk, self.what))
        w.count("frames written", sum(map(len, self.ms)))
        w.count("tags written", len(self.vers))
        return ts


def write_args(r):
    a = ""
    if r.random() < .7:
        a += " #:apply-unsync " + r.choice(("#t", "#f", "'as-needed"))
    if r.random() < .4:
        a += " #:copy " + r.choice(("#t", "#f"))
    return a


def nul_comments(c):
    """Are there texts in C that can't be had in Scheme?"""
    return any("\0" in v for ms in c.ms for m in ms for v in m.f.values() if isinstance(v, str))


def roundtrip(w, no):
    r = w.rng
    c = Case(w, no)
    c.read(w)
    if r.random() < .2:
        w.drv.batch(["(gc)"])
    how = write_args(r)
    x = w.drv.batch(["(write-tagset (pairs T) %s%s)" % (sstr(c.path), how)])[0]
    ts = c.written(w, x, how)
    # and again: what was written is read as what was meant
    y = w.drv.batch(["(read-tagset %s)" % sstr(c.path)])[0]
    w.check(isinstance(y, list), "what was written can't be read", "%r: %s" % (y, c.what))
    w.eq([z[1] for z in y], c.vers, "tags read again", c.what)
    for z, t, ms, e in zip(y, ts, c.ms, c.exps):
        check_read(w, z[0], t.ver, ms, e, t.pad, "again: " + c.what)
    w.seen("shape", tuple((t.ver, tuple(f.kind for f in t.frames)) for t in c.tags))
    w.sample({"file": c.what[:300]})


def new_text(r, ver):
    while True:
        s = gen.text(r, ver, 3 if ver == 4 else 1)
        if ver == 4 or all(ord(x) < 0x10000 for x in s):
            return s


def rcloud(r):
    return {trim(k.decode()) or "k": {v.decode() for v in vs} for k, vs in gen.cloud(r).items()}


def scloud(d):
    return "(list %s)" % " ".join("(list %s)" % " ".join(sstr(x) for x in [k] + sorted(vs)) for k, vs in d.items())


def header(ver, m):
    """A frame header, as the data of unknown frames begin with in Scheme"""
    n = len(m.f["data"])
    return m.id.encode() + (be(n, 3) if ver == 2 else be(n, 4) + b"\0\0")


def change(r, m, ver):
    """Change something of M: [(slot, Scheme expression)]"""
    k = r.choice(sorted(m.f) + (["tap", "fap", "ro"] if ver > 2 else []))
    if k in ("tap", "fap"):
        v = 1 - getattr(m, k)
        setattr(m, k, v)
        return k, sbool(v == 0)
    if k == "ro":
        m.ro = 1 - m.ro
        return k, sbool(m.ro)
    if k == "lang":
        m.f[k] = r.choice(LANGS).decode()
        return k, sstr(m.f[k])
    if k in ("e-mail", "owner"):
        m.f[k] = gen.asc(r).decode()
        return k, sstr(m.f[k])
    if k in ("text", "dsc"):
        m.f[k] = new_text(r, ver)
        return k, sstr(m.f[k])
    if k == "rating":
        m.f[k] = r.randrange(256)
        return k, str(m.f[k])
    if k == "count":
        m.f[k] = gen.counter(r)
        return k, str(m.f[k])
    if k == "tags":
        m.f[k] = rcloud(r)
        return k, scloud(m.f[k])
    if k == "data":
        m.f[k] = gen.blob(r) or b"\1"
        return k, sbv(header(ver, m) + m.f[k])
    raise Exception(k)


def fresh(r, ver):
    """A new frame: (M, Scheme expression)"""
    k = r.choice(("text", "text", "comm", "txxx", "pcnt", "popm", "xtag", "unk"))
    a = ""
    if k == "text":
        i = r.choice(sorted(SYM if ver == 2 else SYM4))
        m = M(i, k, text=new_text(r, ver))
        a = "#:text " + sstr(m.f["text"])
    elif k == "comm":
        m = M(IDS[k][ver - 2], k, lang=r.choice(LANGS).decode(), dsc=new_text(r, ver), text=new_text(r, ver))
        a = "#:lang %s #:dsc %s #:text %s" % tuple(sstr(m.f[x]) for x in ("lang", "dsc", "text"))
    elif k == "txxx":
        m = M(IDS[k][ver - 2], k, dsc=new_text(r, ver), text=new_text(r, ver))
        a = "#:dsc %s #:text %s" % tuple(sstr(m.f[x]) for x in ("dsc", "text"))
    elif k == "pcnt":
        m = M(IDS[k][ver - 2], k, count=gen.counter(r))
        a = "#:count %d" % m.f["count"]
    elif k == "popm":
        m = M(IDS[k][ver - 2], k, **{"e-mail": gen.asc(r).decode(), "rating": r.randrange(256), "count": gen.counter(r)})
        a = "#:e-mail %s #:rating %d #:count %d" % (sstr(m.f["e-mail"]), m.f["rating"], m.f["count"])
    elif k == "xtag":
        m = M(IDS[k][ver - 2], k, owner=gen.asc(r).decode(), tags=rcloud(r))
        a = "#:owner %s #:tags %s" % (sstr(m.f["owner"]), scloud(m.f["tags"]))
    else:
        i = "".join(r.choice("XYZ") for _ in range(3 if ver == 2 else 4))
        m = M(i, "unk", data=gen.blob(r) or b"\1")
        a = "#:frameid %s #:data %s" % (sstr(i), sbv(header(ver, m) + m.f["data"]))
    if ver > 2 and r.random() < .4:
        m.tap, m.fap, m.ro = r.randrange(2), r.randrange(2), r.randrange(2)
        a += " #:tap %s #:fap %s #:ro %s" % (sbool(not m.tap), sbool(not m.fap), sbool(m.ro))
    if ver == 4 and r.random() < .3:
        a += " #:unsync " + r.choice(("#t", "#f"))
    return m, "(make %s #:id '%s %s)" % (CLS.get(m.kind, "<unk-frame>"), sym_of(m, ver), a)


def edit(w, no):
    """Change something in Scheme, write: only that changed"""
    r = w.rng
    c = Case(w, no, r.choice((1, 1, 2, 3)))
    c.read(w)
    done = []
    for _ in range(r.choice((1, 1, 1, 2, 3))):
        i = r.randrange(len(c.vers))
        ms, ver = c.ms[i], c.vers[i]
        op = r.choice(("slot", "slot", "slot", "slot", "add", "remove", "swap", "exp", "pad", "tag"))
        fs = "(slot-ref (tag %d) 'frames)" % i
        setf = lambda e: "(slot-set! (tag %d) 'frames %s)" % (i, e)
        if op == "slot" and ms:
            j = r.randrange(len(ms))
            k, e = change(r, ms[j], ver)
            l = "(slot-set! (frame %d %d) '%s %s)" % (i, j, k, e)
        elif op == "add":
            m, e = fresh(r, ver)
            j = r.randint(0, len(ms))
            ms.insert(j, m)
            l = setf("(append (list-head %s %d) (list %s) (list-tail %s %d))" % (fs, j, e, fs, j))
        elif op == "remove" and ms:
            j = r.randrange(len(ms))
            del ms[j]
            l = setf("(append (list-head %s %d) (list-tail %s %d))" % (fs, j, fs, j + 1))
        elif op == "swap" and len(ms) > 1:
            ms.reverse()
            l = setf("(reverse %s)" % fs)
        elif op == "exp" and ver > 2:
            c.exps[i] = not c.exps[i]
            l = "(slot-set! (tag %d) 'experimental %s)" % (i, sbool(c.exps[i]))
        elif op == "pad":
            l = "(slot-set! (tag %d) 'padding %d)" % (i, r.choice((0, 1, 10, 64, 1000, r.randint(0, 3000))))
        elif op == "tag":
            if r.random() < .5 and len(c.vers) > 1:
                for x in (c.vers, c.ms, c.exps):
                    del x[i]
                l = "(set! T (append (list-head T %d) (list-tail T %d)))" % (i, i + 1)
            else:
                ver = r.choice((2, 3, 4))
                new = [fresh(r, ver) for _ in range(r.choice((1, 1, 2, 3)))]
                c.vers.append(ver)
                c.ms.append([m for m, _ in new])
                c.exps.append(ver > 2 and r.random() < .3)
                l = "(set! T (append T (list (list (make <id3v2-tag>%s #:frames (list %s) #:padding %d) %d #f))))" % (
                    " #:experimental #t" if c.exps[-1] else "", " ".join(e for _, e in new), r.choice((0, 10, 100)), ver)
        else:
            continue
        x = w.drv.batch([l])[0]
        w.check(not is_ex(x), "can't be changed", "%s: %r: %s" % (l, x, c.what))
        done.append(l)
        w.count(op)
        w.seen("edit", (op, ver))
    c.what += " after " + "; ".join(done)
    how = write_args(r)
    x = w.drv.batch(["(write-tagset (pairs T) %s%s)" % (sstr(c.path), how)])[0]
    c.written(w, x, how)
    w.sample({"edits": [l[:120] for l in done]})


def create(w, no):
    """Tags made in Scheme, over whatever a file had"""
    r = w.rng
    c = Case(w, no)
    n = r.choice((0, 1, 1, 2))
    es = []
    c.vers, c.ms, c.exps = [], [], []
    for _ in range(n):
        ver = r.choice((2, 3, 4))
        new = [fresh(r, ver) for _ in range(r.choice((1, 1, 2, 3, 6)))]
        c.vers.append(ver)
        c.ms.append([m for m, _ in new])
        c.exps.append(ver > 2 and r.random() < .3)
        es.append("(list (make <id3v2-tag>%s #:frames (list %s) #:padding %d) %d)" % (
            " #:experimental #t" if c.exps[-1] else "", " ".join(e for _, e in new), r.choice((0, 10, 100, 1024)), ver))
    how = write_args(r)
    x = w.drv.batch(["(write-tagset (list %s) %s%s)" % (" ".join(es), sstr(c.path), how)])[0]
    c.what += " replaced by " + " ".join(es)
    c.written(w, x, how)
    w.seen("made", tuple((v, tuple(m.kind for m in ms)) for v, ms in zip(c.vers, c.ms)))


def ids(w, no):
    """Frames with identifiers nobody would choose"""
    r = w.rng
    ver = r.choice((2, 3, 4))
    n, h = (3, 6) if ver == 2 else (4, 10)
    i = bytes([r.randint(1, 0xfe)]) + bytes(r.choice((0, 0, 32, 0x41, 0x5a, 0x80, 0xe9, 0xfe, r.randrange(255))) for _ in range(n - 1))
    if i[0] < 0x5b and r.random() < .5:
        i = bytes([r.randint(0x80, 0xfe)]) + i[1:]
    data = bytes(r.randrange(128) for _ in range(r.choice((1, 3, 20, 100))))
    f = i + (be(len(data), 3) if ver == 2 else be(len(data), 4) + b"\0\0") + data
    pad = r.choice((0, 10, 64))
    path = os.path.join(w.dir(), "a.mp3")
    size = len(f) + pad
    raw = b"ID3" + bytes([ver, 0, 0, 0, 0, size >> 7, size & 127]) + f + bytes(pad) + b"\xff\xfb\x90\x00" * 40
    put(path, raw)
    what = "ID3v2.%d tag with frame %r" % (ver, f)
    x = w.drv.batch(["(begin (set! T (read-tagset %s)) (map car T))" % sstr(path)])[0]
    if is_ex(x):
        w.count("refused")
        return
    fs = x[0]["frames"]
    if len(fs) != 1 or fs[0]["cls"] != "<unk-frame>":
        w.count("not unknown")
        return
    w.eq([ord(c) for c in fs[0]["id-text"]], list(i), "id of an unknown frame", what)
    bad = None
    if r.random() < .4:
        # an identifier that can't be written
        bad = r.choice(("", "A", "AB", "ABCDE", "A" * 300, "AB\u0416" + "D" * (n - 3), "ABC" if n == 4 else "ABCD"))
        l = "(slot-set! (frame 0 0) 'id-text %s)" % sstr(bad)
        w.check(not is_ex(w.drv.batch([l])[0]), "can't be changed", what)
        what += " after " + l
    x = w.drv.batch(["(write-tagset (pairs T) %s)" % sstr(path)])[0]
    g = get(path)
    if bad is None:
        w.check(not is_ex(x), "tags can't be written", "%r: %s" % (x, what))
        w.check(g[:3] == b"ID3" and g[3] == ver and g[10:10 + n] == i and g[10 + h:10 + h + len(data)] == data,
                "identifier of an unknown frame", "%r: %s" % (g[:200], what))
    else:
        w.check(is_ex(x) and g == raw, "an identifier that isn't one was written", "%r, %r: %s" % (x, g[:200], what))
    w.count("odd identifiers")
    w.seen("identifiers", (ver, bad, tuple(min(c, 128) for c in i)))
    os.unlink(path)


# ----------------------------------------------------------------------- ID3v1
def v1_facts(b):
    """What ID3v1 tag B says"""
    if not b:
        return None
    e, t = (b[:227], b[227:]) if b[:4] == b"TAG+" else (b"", b)
    f = {"title": t[3:33], "artist": t[33:63], "album": t[63:93]}
    com, tr = t[97:127], 0
    if com[28] == 0 and com[29]:
        com, tr = com[:28], com[29]
    f["comment"] = com
    if e:
        f["title"] += e[4:64]
        f["artist"] += e[64:124]
        f["album"] += e[124:184]
    d = {k: trim(v.split(b"\0")[0].decode("latin-1")) for k, v in f.items()}
    d.update({"year": trim(t[93:97].split(b"\0")[0].decode("latin-1")), "genre": t[127], "track-no": tr, "enh": bool(e)})
    if e:
        d.update({"speed": e[184], "enh-genre": trim(e[185:215].split(b"\0")[0].decode("latin-1")),
                  "start-time": trim(e[215:221].split(b"\0")[0].decode("latin-1")), "end-time": trim(e[221:227].split(b"\0")[0].decode("latin-1"))})
    return d


def some_v1(r):
    """An ID3v1 tag whose long fields go on in the enhanced tag only when they fill the short one"""
    enh, v11 = r.random() < .4, r.random() < .5

    def txt(n):
        return trim(gen.text(r, 3, 0, n, empty=r.random() < .3)[:n].encode("latin-1").decode("latin-1")).encode("latin-1")

    def pad(s, n):
        return s.ljust(n, r.choice((b"\0", b"\0", b" ")))
    f = [txt(90 if enh else 30) for _ in range(3)]
    year = r.choice((b"1999", b"2016", b"\0\0\0\0", b"    "))
    com = pad(txt(28), 28) + b"\0" + bytes([r.randrange(1, 256)]) if v11 else pad(txt(30), 30)
    if not v11 and com[28] == 0:
        com = com[:29] + b"\0"
    b = b"TAG" + b"".join(pad(x[:30], 30) for x in f) + year + com + bytes([r.randrange(256)])
    if enh:
        x = [pad(x[30:], 60) for x in f] + [bytes([r.randrange(5)]), pad(txt(30), 30),
                                            b"%03d:%02d" % (r.randrange(999), r.randrange(60)), b"%03d:%02d" % (r.randrange(999), r.randrange(60))]
        if r.random() < .4:
            # just one thing of those an enhanced tag adds
            k = r.randrange(3, 7)
            x = [v if i < 3 or i == k else bytes(len(v)) for i, v in enumerate(x)]
            if r.random() < .7:
                x[:3] = [bytes(60)] * 3
        b = b"TAG+" + b"".join(x) + b
    return b


def v1_same(w, got, want, key, what):
    w.eq({k: v for k, v in got.items()}, {k: v for k, v in want.items()}, key, what)


def v1(w, no):
    r = w.rng
    c = Case(w, no, r.choice((0, 0, 1)))
    b = some_v1(r) if r.random() < .9 else b""
    front = c.raw[:len(c.raw) - len(c.tail)] + gen.untag(b"".join(t.raw() for t in c.tags), c.audio, b)
    put(c.path, front + b)
    want = v1_facts(b)
    what = "%r + %r" % (c.what, b)
    x = w.drv.batch(["(begin (set! V (read-id3v1-tag %s)) V)" % sstr(c.path)])[0]
    if want is None:
        w.check(x == [] or is_ex(x), "an ID3v1 tag where there is none", "%r: %s" % (x, what))
        w.count("none")
        return
    w.check(isinstance(x, dict) and x.get("cls") == "<id3v1-tag>", "the ID3v1 tag can't be read", "%r: %s" % (x, what))
    for k, v in want.items():
        if k == "enh":
            continue
        g = x[k]
        if g == []:
            g = 0 if k in ("track-no", "speed") else ""
        w.check(same(k, g, v), "ID3v1 contents in Scheme", "%s is %r, not %r: %s" % (k, g, v, what))
    if r.random() < .6:
        k = r.choice([k for k in want if k not in ("enh",)])
        if k in ("genre", "track-no", "speed"):
            v = r.randrange(1 if k == "track-no" else 0, 5 if k == "speed" else 256)
            e = str(v)
        elif k == "year":
            v = str(r.randint(1900, 2099))
            e = sstr(v)
        elif k in ("start-time", "end-time"):
            v = "%03d:%02d" % (r.randrange(1000), r.randrange(60))
            e = sstr(v)
        else:
            n = (90 if want["enh"] else 30) if k in ("title", "artist", "album") else 30 if k == "enh-genre" else 28
            v = trim(gen.text(r, 3, 0, n)[:n])
            e = sstr(v)
        l = "(slot-set! V '%s %s)" % (k, e)
        w.drv.batch([l])
        want[k] = v
        if k == "track-no" and len(want["comment"]) > 28:
            want["comment"] = trim(want["comment"][:28])
        what += " after " + l
        w.count("edits")
    x = w.drv.batch(["(write-id3v1-tag V %s)" % sstr(c.path)])[0]
    w.check(not is_ex(x), "the ID3v1 tag can't be written", "%r: %s" % (x, what))
    g = get(c.path)
    w.check(g[:len(front)] == front, "what precedes the ID3v1 tag changed", what)
    t = g[len(front):]
    if want["enh"] and not (want["speed"] or want["enh-genre"] or want["start-time"] or want["end-time"] or
                            any(len(want[k]) > 30 for k in ("title", "artist", "album"))) and len(t) == 128:
        # nothing in it that takes an enhanced tag
        want = {k: v for k, v in want.items() if k not in ("speed", "enh-genre", "start-time", "end-time")}
        want["enh"] = False
    n = 355 if want["enh"] else 128
    w.check(len(t) == n and t[-128:-125] == b"TAG" and (n == 128 or t[:4] == b"TAG+"), "no ID3v1 tag", "%r: %s" % (t, what))
    v1_same(w, v1_facts(t), want, "not the ID3v1 tag that was written", what)
    w.seen("v1", (want["enh"], want["track-no"] != 0, want["genre"]))


# -------------------------------------------------------------------- mistakes
WRONG = ("5", "-1", "#f", "'()", "'sym", '""', '"x"', "(string #\\nul)", "(make-string 300 #\\a)", "1.5", "(expt 2 70)", "(list 1 2)",
         "(cons 1 2)", "(vector)", "(make-bytevector 0)", "(make-bytevector 3 7)", "(list (list))", "(list (list 1))", '(list "a")',
         '(list (cons "a" "b"))', '(list (list "a" 1))', "car", "(make <tag-frame>)", "(string (integer->char 1046))", "(list #f)",
         "-300", "256", "(if #f #f)")
FRAMES = ("comment-frame", "title-frame", "unknown-frame", "play-count-frame", "popm-frame", "udt-frame", "tag-cloud-frame")


def mistakes(w, no):
    """Programs that have something wrong: the file has the old tags, or new ones"""
    r = w.rng
    c = Case(w, no, r.choice((1, 2)))
    c.read(w)
    i = r.randrange(len(c.vers))
    ms = c.ms[i]
    op = r.choice(("slot", "slot", "slot", "id", "frames", "tag", "tags", "path", "version", "make"))
    v = r.choice(WRONG)
    l, arg, path = "1", "(pairs T)", sstr(c.path)
    if op in ("slot", "id") and not ms:
        op = "tag"
    if op == "slot":
        j = r.randrange(len(ms))
        l = "(slot-set! (frame %d %d) '%s %s)" % (i, j, r.choice(sorted(ms[j].f) + ["tap", "fap", "ro", "unsync"]), v)
    elif op == "id":
        l = "(slot-set! (frame %d %d) 'id %s)" % (i, r.randrange(len(ms)), r.choice((v, "'" + r.choice(FRAMES + ("nope",)))))
    elif op == "frames":
        l = "(slot-set! (tag %d) 'frames %s)" % (i, r.choice((v, "(append (slot-ref (tag %d) 'frames) %s)" % (i, v),
                                                              "(cons %s (slot-ref (tag %d) 'frames))" % (v, i))))
    elif op == "tag":
        l = "(slot-set! (tag %d) '%s %s)" % (i, r.choice(("padding", "experimental")), v)
    elif op == "tags":
        arg = r.choice((v, "(list %s)" % v, "(cons (car (pairs T)) %s)" % v, "(list (list %s 3))" % v, "(append (pairs T) (list %s))" % v))
    elif op == "path":
        path = r.choice([x for x in WRONG if x != '"x"'])
    elif op == "version":
        arg = "(list (list (tag %d) %s))" % (i, r.choice((v, "0", "1", "2", "3", "4", "5")))
    else:
        arg = "(list (list (make <id3v2-tag> #:frames (list (make %s #:id '%s))) %d))" % (
            r.choice(sorted(set(CLS.values())) + ["<unk-frame>"]), r.choice(FRAMES), r.choice((2, 3, 4)))
    w.seen("mistake", (op, v))
    if is_ex(w.drv.batch([l])[0]):
        w.count("objections")
        return
    x = w.drv.batch(["(write-tagset %s %s)" % (arg, path)])[0]
    b = get(c.path)
    what = "%s; (write-tagset %s %s): %s" % (l, arg, path, c.what)
    if is_ex(x):
        w.count("refused")
        w.eq(sorted(snapshot(c.d)), [c.name], "files left behind", what)
        w.check(b == c.raw, "a failed write changed the file", "%r: %s" % (x, what))
    else:
        w.count("mistakes written")
        w.check(b.endswith(c.tail), "the audio changed", what)
        y = w.drv.batch(["(read-tagset %s)" % sstr(c.path)])[0]
        w.check(not is_ex(y), "a written tag can't be read", "%r: %s" % (y, what))


def mistakes1(w, no):
    """The same for ID3v1 tags"""
    r = w.rng
    c = Case(w, no, 0)
    b = some_v1(r)
    audio = gen.untag(b"", c.audio, b)
    put(c.path, audio + b)
    l = "(slot-set! V '%s %s)" % (r.choice(("title", "artist", "album", "year", "comment", "genre", "track-no", "speed", "enh-genre",
                                            "start-time", "end-time")), r.choice(WRONG))
    x = w.drv.batch(["(begin (set! V (read-id3v1-tag %s)) V)" % sstr(c.path), l, "(write-id3v1-tag V %s)" % sstr(c.path)])[2]
    g = get(c.path)
    what = "%s: %r, then %r" % (l, b, x)
    w.eq(sorted(snapshot(c.d)), [c.name], "files left behind", what)
    if is_ex(x):
        w.count("refused")
        w.check(g == audio + b, "a failed write changed the file", what)
    else:
        w.count("mistakes written")
        w.check(g.startswith(audio) and g[-128:-125] == b"TAG" and len(g) - len(audio) in (128, 355), "no ID3v1 tag", what)


ENV = {"GUILE_AUTO_COMPILE": "0", "GUILE_LOAD_PATH": os.path.join(builder.REPO, "scheme"),
       "VERIF_SERVE": os.path.join(vlib.VERIF, "harness", "serve.scm"),
       "ASAN_OPTIONS": "detect_leaks=0:exitcode=77:detect_stack_use_after_return=0:allocator_may_return_null=1:"
                       "handle_abort=1:quarantine_size_mb=32"}


def build():
    return builder.Builder("asan").build("scm", ["scm.cc"], scheme=True)


if __name__ == "__main__":
    sys.exit(Check("C23", [("roundtrip", roundtrip, 2500, 100000), ("edit", edit, 2500, 100000), ("create", create, 1000, 40000), ("v1", v1, 1000, 40000), ("ids", ids, 500, 20000),
                           ("mistakes", mistakes, 2500, 100000), ("mistakes1", mistakes1, 500, 20000)],
                   "distinct sequences of kinds of frames and versions of tags read, made and edited in Scheme",
                   exe_builder=build,
                   env=ENV,
                   assumptions=["Guile itself is not instrumented"]).main())
