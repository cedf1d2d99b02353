"""Running commands over files of tags, and comparing what they leave with what
a model of the command says."""
import os
import gen
from files import *
from id3 import *
from vlib import hx, ux


def key(f):
    return (f.id, f.payload, f.tap, f.fap, f.ro, f.gid)


class Want:
    """A frame that should be there: ID, and facts that should hold of it"""
    def __init__(self, id, facts=None, payload=None, flags=None):
        self.id, self.facts, self.payload, self.flags = id, facts, payload, flags

    def ok(self, g):
        if g.id != self.id or (self.payload is not None and g.payload != self.payload):
            return False
        if self.flags is not None and (g.tap, g.fap, g.ro, g.gid) != self.flags:
            return False
        if self.facts is not None:
            h = facts(g)
            return h is not None and all(h.get(k) == v for k, v in self.facts.items())
        return True

    def __repr__(self):
        return "%s:%r" % (self.id, self.facts if self.facts is not None else self.payload)


def kept(f):
    return Want(f.id, payload=f.payload, flags=(f.tap, f.fap, f.ro, f.gid))


def changed(f, **fs):
    return Want(f.id, facts=fs, flags=(f.tap, f.fap, f.ro, f.gid))


class WTag:
    """A tag that should be there: FRAMES in order, then NEW in any order"""
    def __init__(self, ver, frames, new=(), exp=False, dropped=()):
        self.ver, self.frames, self.new, self.exp = ver, frames, list(new), exp

    def why(self, t):
        if t.ver != self.ver:
            return "version %d, not %d" % (t.ver, self.ver)
        if bool(t.exp) != bool(self.exp):
            return "experimental flag %r" % t.exp
        if len(t.frames) != len(self.frames) + len(self.new):
            return "frames %r, not %r + %r" % (t.frames, self.frames, self.new)
        for g, x in zip(t.frames, self.frames):
            if not x.ok(g):
                return "frame %r (%r), not %r" % (key(g), facts(g), x)
        left = list(self.new)
        for g in t.frames[len(self.frames):]:
            for x in left:
                if x.ok(g):
                    left.remove(x)
                    break
            else:
                return "new frame %r (%r), not among %r" % (key(g), facts(g), left)
        return None


class File:
    def __init__(self, tags, audio, v1):
        self.tags, self.audio, self.v1 = tags, gen.untag(b"".join(t.raw() for t in tags), audio, v1), v1

    def raw(self):
        return b"".join(t.raw() for t in self.tags) + self.audio + self.v1

    def __repr__(self):
        return "File(%r, audio %d, v1 %d)" % ([(t.ver, [(f.id, f.payload[:24]) for f in t.frames]) for t in self.tags], len(self.audio), len(self.v1))


# the first and last genres of each generation, and what lies beyond
EDGES = (0, 1, 79, 80, 125, 126, 141, 142, 147, 148, 190, 191, 192, 193, 254, 255)


def ascv1(r, genre=None, years=(b"1999", b"2016", b"\0\0\0\0", b"    ", b"0042", b"3001", b"987 ")):
    """An ID3v1 tag of ASCII text: its bytes and what it says"""
    def fld(n):
        s = gen.asc(r, n).strip() if r.random() < .8 else b""
        return s[:n].rstrip()
    t, a, l, c = fld(30), fld(30), fld(30), fld(28)
    y = r.choice(years)
    g = (r.randrange(256) if r.random() < .6 else r.choice(EDGES)) if genre is None else genre
    p = r.choice((b"\0", b" "))
    cc = c.ljust(30, p)
    if r.random() < .5:
        cc = c.ljust(28, p) + b"\0" + bytes([r.randrange(1, 256)])
    b = b"TAG" + t.ljust(30, p) + a.ljust(30, p) + l.ljust(30, p) + y + cc + bytes([g])
    d = {"title": t, "artist": a, "album": l, "comment": c, "year": y if y.isdigit() else b"", "genre": g}
    if r.random() < .2:
        b = (b"TAG+" + b"\0" * 180 + bytes([r.randrange(5)]) + b"\0" * 30 + b"000:12" + b"003:59") + b
    return b, d


def from_v1(d):
    """The frames of a tag made from an ID3v1 tag"""
    import genres
    ws = []
    for i, k in (("TPE1", "artist"), ("TIT2", "title"), ("TALB", "album"), ("TYER", "year")):
        if d[k]:
            ws.append(Want(i, {"str": d[k].decode()}))
    if d["comment"]:
        ws.append(Want("COMM", {"str": d["comment"].decode()}))
    if d["genre"] < 192:
        ws.append(Want("TCON", {"str": genres.NAMES[d["genre"]]}))
    return ws


ENVOPTS = {
    "genre": "adjust-unsync,u always-create-v2,a always-create-v1,A create-backups,b create-v2,c create-v1,C dry-run,n v1-only,1 v2-only,2 verbose,v",
    "popm": "adjust-unsync,u create-frame,f create-backups,b dry-run,n verbose,v",
    "text": "adjust-unsync,u always-create-v2,C create-backups,b create-v2,c",
    "xtag": "adjust-unsync,u always-create-v2,A create-frame,f create-v2,c create-backups,b dry-run,n",
    "rename": "dry-run,n verbose,v"}
ENVVALS = {"popm": "owner,o", "xtag": "owner,o", "text": "encoding,E", "rename": "output,o", "dump": "num-comments,m v1-encoding,c"}


def in_env(r, cmd):
    """CMD with some of its flags given in the environment"""
    names, cmd = {}, [a.decode("latin1") if isinstance(a, bytes) and a.isascii() else a for a in cmd]
    for x in ENVOPTS.get(cmd[0], "").split():
        l, s = x.split(",")
        names["--" + l] = names["-" + s] = "SCRIBBU_" + {"create-frame": "CREATE"}.get(l, l.upper().replace("-", "_"))
    vals = {}
    for x in ENVVALS.get(cmd[0], "").split():
        l, s = x.split(",")
        vals["--" + l] = vals["-" + s] = "SCRIBBU_" + l.upper().replace("-", "_")
    env, left, end, rest = [], [cmd[0]], False, cmd[1:]
    while rest:
        a = rest.pop(0)
        end = end or a == "--"
        if not end and a in vals and rest and isinstance(rest[0], str) and rest[0] and r.random() < .5:
            env.append("%s=%s" % (vals[a], rest.pop(0)))
            continue
        if not end and isinstance(a, str) and "=" in a and a.split("=", 1)[0] in vals and a.split("=", 1)[1] and r.random() < .5:
            env.append("%s=%s" % (vals[a.split("=", 1)[0]], a.split("=", 1)[1]))
            continue
        if not end and a in names and r.random() < .5:
            env.append("%s=%s" % (names[a], r.choice(("1", "true", "yes", "on"))))
        else:
            left.append(a)
    return env + left


def run(w, d, cmd, cwd=None, limit=None):
    if w.rng.random() < .1:
        cmd = in_env(w.rng, cmd)
        w.count("options_in_environment", sum(isinstance(c, str) and c.startswith("SCRIBBU_") for c in cmd))
    out = os.path.join(w.scratch, "o")
    os.makedirs(out, exist_ok=True)
    return w.drv("cli", hx(out), hx(cwd or d), "60:%d" % limit if limit else 60, *map(hx, cmd))


def why(b, want, tail):
    """Why file contents B aren't tags WANT then bytes TAIL; None if they are"""
    o = 0
    for i, x in enumerate(want):
        if b[o:o + 3] != b"ID3":
            return "tag %d is missing" % i
        try:
            t, n = parse_tag(b[o:])
        except Exception as ex:
            return "tag %d can't be read: %r" % (i, ex)
        y = x.why(t)
        if y:
            return "tag %d: %s" % (i, y)
        o += n
    if callable(tail):
        return tail(b[o:])
    if b[o:] != tail:
        if b[o:o + 3] == b"ID3":
            return "a tag too many"
        return "what follows the tags: %d bytes %r, not %d %r" % (len(b) - o, b[o:][:40], len(tail), tail[:40])
    return None


def same(t):
    return WTag(t.ver, [kept(f) for f in t.frames], exp=t.exp)


def compare(w, d, before, files, wants, backups, what, failed=False):
    """Directory D held BEFORE; FILES: name -> File; WANTS: name -> None if the
    file should be as it was, else ([WTag], tail) or, if it needn't be written at
    all, ([WTag], tail, "maybe").  FAILED: the command may have
    stopped on the way, so that each file is as it was or as it should be."""
    after = snapshot(d)
    left = dict(after)
    for n in before:
        x = left.pop(n, None)
        if n not in files or wants.get(n) is None:
            w.check(x == before[n], "a file that should not change did", "%s: %s" % (n, what))
            continue
        w.check(x is not None and x[0] == "file", "a file is gone", "%s: %s" % (n, what))
        if failed and x == before[n]:
            continue
        tags, tail = wants[n][:2]
        if len(wants[n]) > 2 and not (backups and any(k.startswith(n + ".") for k in left)) and x == before[n]:
            continue      # nothing had to change
        y = why(x[2], tags, tail)
        w.check(y is None, "not what was asked for", "%s: %s: %s" % (n, y, what))
        w.eq(oct(x[1]), oct(before[n][1]), "mode of a file", what)
        w.count("rewritten")
        if backups:
            bk = [k for k in left if k.startswith(n + ".") and k not in before]
            w.check(len(bk) == 1 and left[bk[0]][2] == before[n][2], "no backup of what was there", "%s: %s: %s" % (n, bk, what))
            del left[bk[0]]
    w.check(not left, "files nobody asked for", "%r: %s" % (sorted(left), what))
    return after


def tree(w, r, mk):
    """Some files in a scratch directory: (dir, files, their snapshot)"""
    d = w.dir()
    files = {}
    os.makedirs(os.path.join(d, "in", "sub"))
    for i in range(r.choice((1, 1, 1, 2, 3))):
        n = "in/" + r.choice(("a.mp3", "b.mp3", "sub/c.mp3", "sub/d", "e x.mp3"))
        if n in files:
            continue
        f = mk(r)
        put(os.path.join(d, n), f.raw(), r.choice((None, 0o600, 0o644, 0o640)))
        files[n] = f
    return d, files, snapshot(d)


def targets(r, files):
    """File or directory arguments, and the files they mean"""
    if r.random() < .3:
        x = r.choice(("in", "in/", "./in", "in/sub"))
        return [x], [n for n in files if n.startswith("in/sub/" if "sub" in x else "in/")]
    ns = r.sample(sorted(files), r.randint(1, len(files)))
    return list(ns), list(ns)


def opt(r, short, long, val=None):
    if val is None:
        return [r.choice((short, long))]
    if val[:1] == "-":          # taken for an option itself when given separately
        return [long + "=" + val]
    return r.choice(([short, val], [short + val] if val and len(short) == 2 else [short, val], [long + "=" + val] if val else [long, val]))
