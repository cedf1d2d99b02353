"""C19: tag clouds and their URL-encoded form."""
import os, sys
from urllib.parse import unquote_to_bytes
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "lib"))
from vlib import *
import cmd
from cmd import *
from id3 import *
import gen

OWNERS = (b"a@b.c", b"a", b"sp1ff@pobox.com", b"a@b.cd", b"A@B.C")
XTAG = {2: "XTG", 3: "XTAG", 4: "XTAG"}
SAFE = b"ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789-_.~"
HOT = (b"&", b"=", b",", b"%", b"%25", b"%%", b"+", b" ", b"/", b"a=b", b"a,b", b"a&b", b"\xff", b"\xff\xe0", b"\x80", b"\x7f", b"\x01", b"\n", b"%2c", b"\xc3\xa9", b"-", b"~", b"_", b"[", b"`", b"@", b"{", b":", b"^")


def word(r, empty=True):
    x = r.random()
    if x < .06 and empty:
        return b""
    if x < .4:
        return gen.asc(r, 6, 1)
    if x < .7:
        return b"".join(r.choice(HOT + (b"a", b"B", b"z", b"0", b"9")) for _ in range(r.choice((1, 1, 2, 3, 5))))
    if x < .95:
        return bytes(r.randrange(1, 256) for _ in range(r.choice((1, 2, 4, 9))))
    return bytes([r.randrange(1, 256)]) * r.choice((100, 255, 256, 300, 3000))


def cloud(r):
    x = r.random()
    if x < .02:
        return {b"k%d" % i: {b"v"} if i % 3 else set() for i in range(r.choice((17, 40, 130, 260, 600)))}
    if x < .04:
        return {b"k": {b"%d" % i for i in range(r.choice((17, 40, 130, 260, 600)))}, b"z": {word(r)}}
    if x < .4:
        # keys and values that clouds have in common
        return {k: {v for v in (b"u", b"v", b"w", b"90s", b"") if r.random() < .3} for k in (b"a", b"b", b"c", b"A", b"a b") if r.random() < .5}
    c = {word(r): {word(r) for _ in range(r.choice((0, 0, 1, 1, 2, 3, 6)))} for _ in range(r.choice((0, 1, 1, 2, 3, 5)))}
    if list(c.items()) == [(b"", set())]:
        c = {}      # has no text of its own
    return c


def quote(r, b):
    """An URL-encoded form of B: everything that need not be escaped may be"""
    out = b""
    for c in b:
        if c in SAFE and r.random() < .9:
            out += bytes([c])
        elif c not in b"&=,%\0" and r.random() < .2:
            out += bytes([c])
        else:
            out += (b"%%%02x" if r.random() < .5 else b"%%%02X") % c
    return out


def enc(r, c):
    ks = list(c)
    r.shuffle(ks)
    out = []
    for k in ks:
        vs = list(c[k])
        r.shuffle(vs)
        out.append(quote(r, k) + (b"=" + b",".join(quote(r, v) for v in vs) if vs else b""))
    return b"&".join(out)


def dec(s):
    c = {}
    if s:
        for p in s.split(b"&"):
            k, e, vs = p.partition(b"=")
            c[unquote_to_bytes(k)] = {unquote_to_bytes(v) for v in vs.split(b",")} if e else set()
    return c


def merged(a, b):
    return {k: a.get(k, set()) | b.get(k, set()) for k in set(a) | set(b)}


def hexed(j):
    return {ux(k): {ux(v) for v in vs} for k, vs in j.items()}


def url(w, no):
    """Encoding then decoding; decoding any encoding"""
    r = w.rng
    m = r.random()
    s = word(r) if m < .4 else bytes(r.randrange(256) for _ in range(r.choice((0, 1, 2, 5, 40)))) if m < .9 else bytes(range(256))
    e = ux(w.drv("urlenc", hx(s))["out"])
    w.eq(unquote_to_bytes(e), s, "what an encoded string says", repr(s))
    w.check(all(c in SAFE or c == 0x25 for c in e), "reserved characters in an encoded string", repr((s, e)))
    w.eq(ux(w.drv("urldec", hx(e))["out"]), s, "encoding then decoding", repr((s, e)))
    q = quote(r, s)
    w.eq(ux(w.drv("urldec", hx(q))["out"]), s, "decoding", repr((s, q)))
    w.seen("url", len(set(s)))


def text(w, no):
    """A cloud from text, to text, to bytes and back"""
    r = w.rng
    c, own = cloud(r), r.choice(OWNERS + (b"",))
    t = enc(r, c)
    j = w.drv("xtagnew", hx(own), hx(t))
    what = repr((own, c, t))
    w.check(not is_ex(j), "a cloud can't be made", "%r %s" % (j, what))
    w.eq(ux(j["owner"]), own, "owner of a new cloud", what)
    w.eq(hexed(j["cloud"]), c, "keys and values of a new cloud", what)
    e = ux(j["url"])
    w.eq(dec(e), c, "keys and values of the text of a cloud", what)
    j = w.drv("xtagnew", hx(own), hx(e))
    w.eq(hexed(j["cloud"]), c, "a cloud from its own text", what)
    # and in a tag, on disk
    ver = r.choice((2, 3, 4))
    b = Tg(ver, [Fr(ver, XTAG[ver], enc_xtag(own, c))], r.choice((0, 3))).raw()
    w.drv("parse", 0, hx(b))
    f = w.drv("dump", 0)["frames"][0]
    w.eq((f.get("k"), ux(f["owner"]), hexed(f["cloud"])), ("xtag", own, c), "a cloud read from a tag", what)
    w.eq(dec(ux(f["url"])), c, "the text of a cloud read from a tag", what)
    w.seen("text", ver, len(c))


def frame(r, ver):
    if r.random() < .55:
        f = gen.frame(r, ver, ("xtag",))
        f.payload = enc_xtag(r.choice(OWNERS + (b"",)), cloud(r))
    else:
        f = gen.frame(r, ver, ("text", "unk", "ufid", "txxx", "comm", "popm", "priv") if ver > 2 else ("text", "unk", "ufid", "txxx", "comm", "popm"))
    return f


def tag(r):
    t = gen.tag(r, ext=False, unsync=False, kinds=("text",))
    t.frames = [frame(r, t.ver) for _ in range(r.choice((0, 1, 2, 3, 5)))]
    if not t.frames:
        t.pad, t.footer = 30, False
    if t.ver == 4:
        u = r.random() < .2
        t.unsync = u
        for f in t.frames:
            f.unsync = u
    elif r.random() < .2:
        t.unsync = True
    return t


def mk(r):
    tags = [tag(r) for _ in range(r.choice((0, 1, 1, 2, 3)))]
    v1, d = cmd.ascv1(r) if r.random() < .5 else (b"", None)
    f = File(tags, gen.audio(r) or b"x", v1)
    f.d = d
    return f


class O:
    pass


def options(r):
    o, a = O(), ["xtag"]
    o.cloud = cloud(r)
    o.merge = r.random() < .5
    o.owner = r.choice(OWNERS) if r.random() < .6 else b""
    o.frame = r.random() < .4
    o.create = r.choice(("never", "never", "v1", "always"))
    o.tags = []
    a += opt(r, "-T", "--xtags", enc(r, o.cloud).decode("latin-1"))
    if o.merge:
        a += opt(r, "-m", "--merge")
    if o.owner:
        a += opt(r, "-o", "--owner", o.owner.decode())
    if o.frame:
        a += opt(r, "-f", "--create-frame")
    if o.create == "v1":
        a += opt(r, "-c", "--create-v2")
    elif o.create == "always":
        a += opt(r, "-A", "--always-create-v2")
    scope(r, o, a)
    o.bk, o.dry = r.random() < .2, r.random() < .1
    if o.bk:
        a += opt(r, "-b", "--create-backups")
    if o.dry:
        a += opt(r, "-n", "--dry-run")
    if r.random() < .3:
        a += opt(r, "-u", "--adjust-unsync")
    return o, [x.encode("latin-1") for x in a]


def scope(r, o, a):
    o.tags = []
    if r.random() < .4:
        for _ in range(r.choice((1, 1, 2))):
            o.tags.append(r.choice((0, 0, 1, 1, 2, 7)))
            a += opt(r, "-t", "--tag", str(o.tags[-1]))


def mine(ver, f, o):
    return f.id == XTAG[ver] and (not o.owner or facts(f)["owner"] == o.owner)


def model(f, o):
    """The tags xtag with options O should leave in F; None: as they are"""
    new = Want(None, {"owner": o.owner, "cloud": o.cloud}, flags=(False, False, False, None))
    if not f.tags:
        if not (o.create == "always" or (o.create == "v1" and f.v1)):
            return None
        new.id = XTAG[3]
        return [WTag(3, [], (from_v1(f.d) if f.v1 else []) + [new])], f.audio + f.v1
    out, dirty, must = [], False, False
    for i, t in enumerate(f.tags):
        if o.tags and i not in o.tags:
            out.append(cmd.same(t))
            continue
        ws, n = [], 0
        for g in t.frames:
            if mine(t.ver, g, o):
                h = facts(g)
                c = merged(h["cloud"], o.cloud) if o.merge else o.cloud
                must = must or c != h["cloud"]
                ws.append(changed(g, owner=h["owner"], cloud=c))
                n += 1
            else:
                ws.append(kept(g))
        fs = []
        if not n and o.frame:
            fs = [Want(XTAG[t.ver], new.facts, flags=new.flags)]
            must = True
        dirty = dirty or n or fs
        out.append(WTag(t.ver, ws, fs, t.exp))
    if not dirty:
        return None
    return (out, f.audio + f.v1) if must else (out, f.audio + f.v1, "maybe")


def one(w, no):
    r = w.rng
    d, files, before = cmd.tree(w, r, mk)
    o, a = options(r)
    args, todo = cmd.targets(r, files)
    wants = {} if o.dry else {n: model(files[n], o) for n in todo}
    x = cmd.run(w, d, a + args)
    what = "%r %r -> rc %d sig %d %r" % (a + args, files, x["rc"], x["sig"], ux(x["err"])[-300:])
    w.eq(x["sig"], 0, "killed by a signal", what)
    w.eq(x["rc"], 0, "exit status", what)
    cmd.compare(w, d, before, files, wants, o.bk, what)
    w.count("dry" if o.dry else "runs")
    w.seen("xtag", o.merge, bool(o.owner), o.frame, o.create, bool(o.tags), o.bk, o.dry)


def get(w, no):
    """Displaying clouds changes nothing, and shows them all"""
    r = w.rng
    d, files, before = cmd.tree(w, r, mk)
    o, a = O(), ["xtag"] + [r.choice(("-g", "--get"))]
    o.owner = r.choice(OWNERS) if r.random() < .4 else b""
    if o.owner:
        a += opt(r, "-o", "--owner", o.owner.decode())
    scope(r, o, a)
    a += [x for x in ("-f", "-b", "-m", "-u", "-A", "-n") if r.random() < .15]
    if r.random() < .2:
        a += ["-T", "a=b"]
    args, todo = cmd.targets(r, files)
    want = []
    for n in todo:
        for i, t in enumerate(files[n].tags):
            if not o.tags or i in o.tags:
                want += [facts(g)["cloud"] for g in t.frames if mine(t.ver, g, o)]
    x = cmd.run(w, d, a + args)
    what = "%r %r -> rc %d sig %d %r" % (a + args, files, x["rc"], x["sig"], ux(x["err"])[-300:])
    w.eq((x["rc"], x["sig"]), (0, 0), "exit status", what)
    got = [dec(l) for l in ux(x["out"]).split(b"\n") if l]
    key = lambda c: sorted((k, sorted(v)) for k, v in c.items())
    want = [c for c in want if c]
    if len(todo) > 1:
        got, want = sorted(got, key=key), sorted(want, key=key)
    w.eq(got, want, "clouds displayed", what)
    cmd.compare(w, d, before, files, {}, False, what)
    w.count("clouds displayed", len(want))
    w.seen("get", bool(o.owner), bool(o.tags), len(want))


BAD = (["-c", "-A"], ["-T", "a%2"], ["-T", "a%zz"], ["-T", "x=b,%g0"], ["-t", "x"], ["-t"], ["--nosuch"], [])


def bad(w, no):
    """Commands that make no sense change nothing"""
    r = w.rng
    d, files, before = cmd.tree(w, r, mk)
    args, todo = cmd.targets(r, files)
    b = r.choice(BAD)
    a = ["xtag"] + (["-f"] if r.random() < .5 else []) + (["-T", "z=y"] if b and b[0] != "-T" else []) + args + b
    x = cmd.run(w, d, a)
    what = "%r -> rc %d sig %d %r" % (a, x["rc"], x["sig"], ux(x["err"])[-300:])
    w.eq(x["sig"], 0, "killed by a signal", what)
    if b[:1] != ["-T"] or any(files[n].tags and a[1] == "-f" for n in todo):
        w.check(x["rc"] != 0, "nonsense accepted", what)
    cmd.compare(w, d, before, files, {}, False, what)
    w.seen("bad", tuple(b))


def series(w, no):
    """Clouds of several owners, put together and replaced step by step"""
    r = w.rng
    d = w.dir()
    p = os.path.join(d, "f.mp3")
    ver = r.choice((2, 3, 4))
    fixed = Fr(ver, "TT2" if ver == 2 else "TIT2", b"\0abc")
    put(p, Tg(ver, [fixed], r.choice((0, 20, 500))).raw() + b"\xff\xfb\0audio")
    st = {}
    grow = r.random() < .2      # one tag collecting ever more values
    for i in range(r.choice((3, 5, 7, 9))):
        own, c = r.choice(OWNERS[:1 if grow else 3]), cloud(r)
        if grow:
            c = {b"k": {b"%d" % r.randrange(300) for _ in range(r.choice((3, 20, 60)))}, b"l%d" % i: {b"x"}}
        m = r.random() < .6
        e = enc(r, c)
        x = cmd.run(w, d, [b"xtag", b"-f", b"-o", own] + ([b"--xtags=" + e] if e else [b"-T", b""]) + [b"f.mp3"] + ([b"-m"] if m else []))
        w.eq((x["rc"], x["sig"]), (0, 0), "exit status", repr(ux(x["err"])[-300:]))
        st[own] = merged(st[own], c) if m and own in st else c
        y = cmd.why(files_get(p), [WTag(ver, [kept(fixed)], [Want(XTAG[ver], {"owner": k, "cloud": v}) for k, v in st.items()])], b"\xff\xfb\0audio")
        w.check(y is None, "clouds after some steps", "%s: step %d, owner %r, %r" % (y, i, own, c))
        x = cmd.run(w, d, [b"xtag", b"-g", b"-o", own, b"f.mp3"])
        w.eq(dec(ux(x["out"]).rstrip(b"\n")), st[own], "cloud displayed", repr(st))
    w.seen("series", ver, len(st))


def files_get(p):
    with open(p, "rb") as f:
        return f.read()


if __name__ == "__main__":
    sys.exit(Check("C19", [("url", url, 3000, 100000), ("text", text, 3000, 100000), ("one", one, 1400, 40000), ("get", get, 400, 8000), ("bad", bad, 120, 1500),
                           ("series", series, 100, 4000)],
                   "distinct (command options, outcome) seen", cli=True, env={"LANGUAGE": "en"}).main())
