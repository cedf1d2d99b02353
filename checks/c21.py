"""C21: CSV and tab-delimited reports."""
import copy, hashlib, os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "lib"))
from vlib import *
import cmd
from cmd import opt
from files import put, get
from id3 import *
import gen

IDS = {2: ("TP1", "TT2", "TAL", "TCO", "TEN", "TYE", "TLA"), 3: ("TPE1", "TIT2", "TALB", "TCON", "TENC", "TYER", "TLAN")}
IDS[4] = IDS[3]
HOT = [",", ", ", '"', '""', '","', "\n", "\r", "\r\n", "\t", "\x1f", ";", "'", "\\", "\\\"", "a,b", " ", "|", "\x1e", "\v", "\f"]


def parse_csv(b, sep=b","):
    """Rows by RFC 4180 (LF or CRLF ends a row; a quote means something only at
    the beginning of a field)"""
    rows, row, i, n = [], [], 0, len(b)
    s = sep[0]
    while i < n:
        if b[i] == 0x22:
            j, v = i + 1, b""
            while True:
                k = b.find(b'"', j)
                if k < 0:
                    raise ValueError("quote not closed")
                v += b[j:k]
                if b[k + 1:k + 2] == b'"':
                    v += b'"'
                    j = k + 2
                else:
                    break
            i = k + 1
            if i < n and b[i] not in (s, 10, 13):
                raise ValueError("text after a quoted field: %r" % b[i:i + 20])
        else:
            j = i
            while j < n and b[j] not in (s, 10, 13):
                j += 1
            v, i = b[i:j], j
        row.append(v)
        if i < n and b[i] == s:
            i += 1
            if i == n or b[i] in (10, 13):
                row.append(b"")
        if i < n and b[i] in (10, 13):
            i += 2 if b[i:i + 2] == b"\r\n" else 1
            rows.append(row)
            row = []
        elif i >= n and row:
            rows.append(row)
            row = []
    return rows


def parse_tdf(b, sep):
    if b[-1:] != b"\n":
        raise ValueError("last row not ended")
    return [l.split(sep) for l in b[:-1].split(b"\n")]


def string(r, ver, encb, hot=True):
    s = gen.text(r, ver, encb, 20)
    if r.random() < .02:
        s += "x" * r.choice((255, 256, 1000, 4090, 5000, 20000)) + gen.text(r, ver, encb, 20)
    if hot and r.random() < .5:
        for _ in range(r.choice((1, 1, 2, 3))):
            i = r.choice((r.randint(0, len(s)), len(s) - r.randint(0, min(8, len(s)))))
            s = s[:i] + r.choice(HOT) + s[i:]
    # csv_pprinter::escape() leaves these alone, and a test insists: a known finding
    return s.lstrip('"') if not any(c in s for c in ",;\n\r\t") else s.lstrip('",;\n\r\t') or "x"


def trim(s):
    return s.rstrip("\0 ")


def tag(r):
    v = r.choice((2, 3, 3, 4))
    fs = []
    for i in IDS[v]:
        if r.random() < .5:
            e = r.choice((0, 1) if v < 4 else (0, 1, 2, 3))
            fs.append(Fr(v, i, bytes([e]) + enc_text(v, e, string(r, v, e))))
    for _ in range(r.choice((0, 0, 1, 2, 4, 8))):
        e = r.choice((0, 1) if v < 4 else (0, 1, 2, 3))
        w = b"\0\0" if e in (1, 2) else b"\0"
        fs.append(Fr(v, "COM" if v == 2 else "COMM", bytes([e]) + gen.asc3(r) + enc_text(v, e, gen.text(r, v, e, 6).replace("\0", "")) + w + enc_text(v, e, string(r, v, e))))
    for _ in range(r.choice((0, 0, 1, 1, 2))):
        fs.append(Fr(v, "CNT" if v == 2 else "PCNT", gen.counted(r)))
    for _ in range(r.choice((0, 1, 2))):
        f = gen.frame(r, v, ("unk", "ufid", "txxx", "popm", "xtag"))
        if f.id not in IDS[v]:
            fs.append(f)
    r.shuffle(fs)
    # ID3v2.4 tags: none, as their sizes count it twice (a finding of C03's)
    t = Tg(v, fs, r.choice((0, 0, 5, 100)) if v < 4 else 0)
    if v > 2 and r.random() < .2:
        t.exp = True
    if v == 4:
        u = r.random() < .2
        t.unsync = u
        for f in fs:
            f.unsync = u
    else:
        t.unsync = r.random() < .2
    return t


CP = {"CP1252": "cp1252", "ISO-8859-1": "latin-1"}


def v1tag(r, enc):
    enh = r.random() < .3
    n = 90 if enh else 30

    def fld(n):
        s = string(r, 3, 0)
        return s.encode(CP[enc], "ignore")[:n].ljust(n, r.choice((b"\0", b" ")))
    t = {k: fld(n) for k in ("title", "artist", "album")}
    v11 = r.random() < .5
    c = fld(28 if v11 else 30)
    if not v11 and c[28] == 0 and c[29] != 0:
        c = c[:28] + b"  "
    y = r.choice((b"1999", b"2020", b"\0\0\0\0", b"    ", b'1"2,', b"a\tb "))
    g = r.randrange(256)
    trk = r.randrange(1, 256)
    b = b"TAG" + t["title"][:30] + t["artist"][:30] + t["album"][:30] + y + c + (bytes([0, trk]) if v11 else b"") + bytes([g])
    if enh:
        b = b"TAG+" + t["title"][30:] + t["artist"][30:] + t["album"][30:] + bytes([r.randrange(5)]) + fld(30) + b"000:12003:59" + b
    dec = lambda s: trim(s.decode(CP[enc]))
    return b, [str(int(v11)), str(int(enh)), dec(t["artist"]), dec(t["title"]), dec(t["album"]), dec(y), dec(c), str(g)]


def v2row(t, ncomm):
    """The columns of a tag: each the set of what they may be"""
    p = copy.deepcopy(t)
    p.unsync = False
    for f in p.frames:
        f.unsync = False
    out = [str(t.ver), "0", {str(from_syncsafe(x.raw()[6:10])) for x in (t, p)}, "0x%02x" % t.flags(), str(int(bool(t.unsync)))]
    for i in IDS[t.ver]:
        # the year of ID3v2.2 tags goes missing, as tests insist: a known finding
        out.append({trim(facts(f)["str"]) for f in t.frames if f.id == i} | ({""} if i == "TYE" else set()) or "")
    cs = [f for f in t.frames if f.id in ("CNT", "PCNT")]
    out += [str(len(cs)), "" if not cs else str(facts(cs[0])["count"]) if len(cs) == 1 else "*"]
    cs = [f for f in t.frames if f.id in ("COM", "COMM")]
    out.append(str(len(cs)))
    out += [trim(facts(cs[i])["str"]) if i < len(cs) else "" for i in range(ncomm)]
    return out


def match(w, got, want, how, what):
    w.eq(len(got), len(want), "number of columns", "%r not %r: %s" % (got, want, what))
    for i, (g, x) in enumerate(zip(got, want)):
        try:
            g = g.decode()
        except UnicodeError:
            w.check(False, "not UTF-8", "column %d %r %s" % (i, g, what))
        ok = {how(y) for y in (x if isinstance(x, set) else {x})}
        w.check(g in ok, "what a column says", "column %d: %r, not %r: %s" % (i, g, ok, what))


def clean(sep):
    return lambda s: s.replace(sep, " ").replace("\n", " ").replace("\r", " ")


NAMES = ("a.mp3", "b b.mp3", "c,d.mp3", "é中.mp3", "x'y.mp3", "t\tt.mp3", "n\nl.mp3", "&.mp3", "q.txt", "u\x1f.mp3", "long" * 20 + ".mp3")
QUOTES = ('q"q.mp3', '"q".mp3', "b\\s.mp3", '","".mp3', '\\".mp3')


class F:
    pass


def report(w, no):
    r = w.rng
    d = w.dir()
    fmt = r.choice(("csv", "csv", "tsv", "adt"))
    enc = r.choice(("CP1252", "CP1252", "ISO-8859-1"))
    ncomm = r.choice((6, 0, 1, 2, 6, 20))
    fs = {}
    sub = r.choice(("in", "in/sub", "in/s,b", "in/é")) if fmt != "csv" else r.choice(("in", "in/s,b", 'in/q"d', "in/b\\d", "in/sub"))
    os.makedirs(os.path.join(d, sub), exist_ok=True)
    for _ in range(r.choice((1, 1, 2, 3, 5))):
        n = r.choice(NAMES + (QUOTES if fmt == "csv" else ()))
        if n in fs:
            continue
        f = F()
        f.tags = [tag(r) for _ in range(r.choice((0, 1, 1, 1, 2)))]
        f.audio = gen.audio(r)
        f.v1, f.v1row = v1tag(r, enc) if r.random() < .6 else (b"", [""] * 8)
        f.bad = False
        if r.random() < .08 and f.tags:
            # text that can't be converted
            t = f.tags[0]
            t.frames.insert(0, Fr(t.ver, IDS[t.ver][r.randrange(7)], b"\x01\xff\xfe\x00\xd8a\0" if r.random() < .5 else b"\x01\xff\xfea\0\x00\xdc"))
            f.bad = True
            t.unsync = False
            for x in t.frames:
                x.unsync = False
        f.audio = gen.untag(b"".join(t.raw() for t in f.tags), f.audio, f.v1)
        b = b"".join(t.raw() for t in f.tags) + f.audio + f.v1
        put(os.path.join(d, sub, n), b)
        f.size = len(b)
        rest = b"".join(t.raw() for t in f.tags[1:]) + f.audio
        f.row = ["%.3f" % (len(b) / 1048576)] + (v2row(f.tags[0], ncomm) if f.tags and not f.bad else [""] * (15 + ncomm)) + [str(len(rest)), hashlib.md5(rest).hexdigest()] + f.v1row
        fs[n] = f
    out = r.choice(("r.out", "r.out", "r o,ut", "./r\"out"))
    a = ["report"] + opt(r, "-o", "--output", out)
    if fmt != "csv":
        a += opt(r, "-t", "--tsv")
    if fmt == "adt":
        a += opt(r, "-a", "--ascii-delimited")
    nodir = r.random() < .3
    if nodir:
        a += opt(r, "-d", "--no-directory")
    if ncomm != 6 or r.random() < .2:
        a += opt(r, "-c", "--num-comments", str(ncomm))
    if enc != "CP1252":
        a += opt(r, "-1", "--v1-encoding", enc)
    if r.random() < .3:
        a += opt(r, "-S", "--no-summary")
    if r.random() < .4:
        a += [r.choice(("in", "in/", sub))]
        todo = sorted(n for n in fs if n.endswith(".mp3"))
        order = False
    else:
        todo = r.sample(sorted(fs), r.randint(1, len(fs)))
        a += [os.path.join(sub, n) for n in todo]
        order = True
    x = cmd.run(w, d, a)
    what = "%r -> rc %d %r" % (a, x["rc"], ux(x["err"])[-200:])
    w.eq(x["sig"], 0, "killed by a signal", what)
    nbad = sum(fs[n].bad for n in todo)
    w.check(nbad or x["rc"] == 0, "exit status", what)
    b = get(os.path.join(d, out))
    try:
        sep = {"csv": b",", "tsv": b"\t", "adt": b"\x1f"}[fmt]
        rows = parse_csv(b) if fmt == "csv" else parse_tdf(b, sep)
    except ValueError as ex:
        w.check(False, "not well-formed", "%s: %s" % (ex, what))
    how = (lambda s: s) if fmt == "csv" else clean(sep.decode())
    ncol = (0 if nodir else 1) + 2 + 15 + ncomm + 2 + 8
    for i, row in enumerate(rows):
        w.eq(len(row), ncol, "number of columns", "row %d %r: %s" % (i, row, what))
    k = 0 if nodir else 1
    unq = (lambda s: s) if fmt == "csv" else (lambda s: s[1:-1] if s[:1] == b'"' == s[-1:] and len(s) > 1 else s)
    body = rows[1:]
    want = [n for n in todo if not fs[n].bad]
    byname = {how(n): n for n in todo}
    got = []
    for row in body:
        n = byname.get(unq(row[k]).decode())
        w.check(n is not None, "a row for no file", "%r: %s" % (row[:3], what))
        got.append(n)
        if not nodir:
            w.eq(os.path.normpath(unq(row[0]).decode()), os.path.join(d, sub), "directory", what)
        if fs[n].bad:
            continue
        match(w, row[k + 1:], fs[n].row, how, "%s: %s" % (n, what))
    got = [n for n in got if not fs[n].bad]
    w.eq(got if order else sorted(got), want if order else sorted(want), "one row for each file", what)
    w.count("rows", len(body))
    w.count("unprintable files", nbad)
    w.seen("report", fmt, ncomm, nodir, enc, len(body))


SEP = {"csv": (b",", 4, "latin-1"), "csv2": (b";", 2, "latin-1"), "tdf": (b"\t", 4, "latin-1"), "tdfa": (b"\x1f", 3, "latin-1")}


def lib(w, no):
    """Rows of single tags, in other formats"""
    r = w.rng
    t = tag(r)
    w.drv("parse", 0, hx(t.raw()))
    fmt = r.choice(sorted(SEP))
    sep, ncomm, _ = SEP[fmt]
    b = w.drv("print", fmt, 0)
    w.check(not is_ex(b) and b["good"], "a tag can't be printed", repr(b))
    b = ux(b["out"])
    rows = parse_csv(b, sep) if fmt[:3] == "csv" else [b.split(sep)]
    w.eq(len(rows), 1, "rows for one tag", repr((fmt, b)))
    match(w, rows[0], v2row(t, ncomm), (lambda s: s) if fmt[:3] == "csv" else clean(sep.decode()), repr((fmt, t.frames)))
    w.seen("lib", fmt, t.ver, len(t.frames) > 3)
    if fmt == "csv2":
        v, row = v1tag(r, "ISO-8859-1")
        w.drv("v1parse", 1, hx(v), "whole")
        b = ux(w.drv("printv1", fmt, 1)["out"])
        rows = parse_csv(b, sep)
        w.eq(len(rows), 1, "rows for one ID3v1 tag", repr(b))
        match(w, rows[0], row, lambda s: s, "ID3v1 %r" % v)
    a = gen.audio(r)
    b = ux(w.drv("printtrack", fmt, hx(a))["out"])
    w.eq(b.split(sep), [str(len(a)).encode(), hashlib.md5(a).hexdigest().encode()], "columns of a track", repr(a))


def quoted(w, no):
    """A value in double quotes is printed as it is, and so read without them"""
    d = w.dir()
    put(os.path.join(d, "a.mp3"), Tg(3, [Fr(3, "TIT2", b'\0"text"')], 0).raw() + b"x")
    cmd.run(w, d, ["report", "-o", "r.csv", "a.mp3"])
    row = parse_csv(get(os.path.join(d, "r.csv")))[1]
    w.eq(row[9], b'"text"', "a value that begins with a double quote", "")


def year22(w, no):
    """The year of an ID3v2.2 tag is looked for in a frame that doesn't exist"""
    w.drv("parse", 0, hx(Tg(2, [Fr(2, "TYE", b"\x001999")], 0).raw()))
    w.eq(ux(w.drv("print", "csv", 0)["out"]).split(b",")[10], b"1999", "the year of an ID3v2.2 tag", "")


if __name__ == "__main__":
    sys.exit(Check("C21", [("report", report, 1500, 40000), ("lib", lib, 2500, 60000)],
                   "distinct (format, options, shape) seen", cli=True, env={"LANGUAGE": "en"}, known=[("csv-leading-quote", quoted), ("v22-year", year22)]).main())
