"""C15: renaming never loses or overwrites a file."""
import hashlib, os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "lib"))
from vlib import *
from files import *
from cmd import in_env
import gen

NAMES = ("A", "B", "Cd", "Long Name", "É", "X.y")


class Song:
    def __init__(self, r, big=False):
        self.a, self.t, self.l = (r.choice(NAMES) if r.random() < .9 else None for _ in range(3))
        ver = r.choice((2, 3, 4))
        ids = {2: ("TP1", "TT2", "TAL"), 3: ("TPE1", "TIT2", "TALB"), 4: ("TPE1", "TIT2", "TALB")}[ver]
        frs = [Fr(ver, i, b"\0" + s.encode("latin-1")) for i, s in zip(ids, (self.a, self.t, self.l)) if s]
        self.audio = b"\xff\xfb\x90\0" + r.randbytes(r.choice((0, 1, 40)) if not big else r.choice((9000, 200000))) + b"\0" * 400
        self.bytes = (Tg(ver, frs, 20).raw() if frs or r.random() < .5 else b"") + self.audio


class Raw:
    a = t = l = None

    def __init__(self, b):
        self.bytes = self.audio = b


def stem(n):
    i = n.rfind(".")
    return (n, "") if i <= 0 else (n[:i], n[i:])


# name -> what it should be; None: some field isn't available
def t_default(s, n):
    return "%s - %s.mp3" % (s.a, s.t) if s.a and s.t else None


TEMPLATES = (
    (None, t_default, True),
    ("%A - %T.mp3", t_default, True),
    ("%T%E", lambda s, n: s.t and s.t + stem(n)[1], True),
    ("same.mp3", lambda s, n: "same.mp3", True),
    ("(%A - )?(%T)?.mp3", lambda s, n: (s.a + " - " if s.a else "") + (s.t or "") + ".mp3", True),
    ("%S.mp3", lambda s, n: "%d.mp3" % len(s.bytes), True),
    ("%(md5:base=hex).mp3", lambda s, n: hashlib.md5(s.audio).hexdigest() + ".mp3", True),
    ("%(artist)/%(title).mp3", lambda s, n: s.a and s.t and "%s/%s.mp3" % (s.a, s.t), True),
    ("%b%E", lambda s, n: n, True),
    ("%b-1%E", lambda s, n: stem(n)[0] + "-1" + stem(n)[1], False),
    ("(%L - )?%b.mp3", lambda s, n: (s.l + " - " if s.l else "") + stem(n)[0] + ".mp3", False),
)


def tree(w, r, d, big):
    """Files to rename, and others that are in the way"""
    songs = {}
    for x in ("in", "in/sub", "out", "in/A"):
        if x in ("in", "out") or r.random() < .5:
            os.mkdir(os.path.join(d, x))
    dirs = [x for x in ("in", "in/sub", "in/A") if os.path.isdir(os.path.join(d, x))]
    pool = [Song(r, big) for _ in range(r.choice((1, 2, 4)))]
    for i in range(r.choice((1, 2, 3, 5))):
        n = os.path.join(r.choice(dirs), r.choice(("a.mp3", "b.mp3", "c.MP3", "d", "A - B.mp3", "same.mp3", "x y.mp3", "é.mp3", "songmp3", "b.mp3.bak")))
        if os.path.lexists(os.path.join(d, n)):
            continue
        s = r.choice(pool) if r.random() < .4 else Song(r, big)
        m = r.random()
        if m < .08 and songs:
            o = r.choice(sorted(songs))
            os.symlink(os.path.abspath(os.path.join(d, o)), os.path.join(d, n))
            songs[n] = songs[o]
        elif m < .16 and songs:
            o = r.choice(sorted(songs))
            os.link(os.path.join(d, o), os.path.join(d, n), follow_symlinks=False)
            songs[n] = songs[o]
        else:
            put(os.path.join(d, n), s.bytes, r.choice((None, 0o400, 0o640)))
            songs[n] = s
    return songs


def block(r, d, paths):
    """Put something where a new name would go"""
    for p in paths:
        q = os.path.join(d, p)
        if r.random() < .4 and not os.path.lexists(q) and os.path.isdir(os.path.dirname(q)):
            m = r.random()
            if m < .5:
                put(q, b"keep me" + r.randbytes(r.choice((0, 3, 5000))))
            elif m < .65:
                os.mkdir(q)
            elif m < .8:
                os.symlink(os.path.join(d, "nowhere"), q)
            else:
                put(os.path.join(d, "elsewhere"), b"behind a link")
                os.symlink(os.path.join(d, "elsewhere"), q)
            return True
    return False


def run(w, no):
    r = w.rng
    d = w.dir()
    out = os.path.join(w.scratch, "o")
    os.makedirs(out, exist_ok=True)
    limit = r.random() < .15
    songs = tree(w, r, d, limit or r.random() < .05)
    templ, name, dirs_ok = r.choice(TEMPLATES)
    as_dir = dirs_ok and r.random() < .3
    cwd = r.choice(("", "in", "out"))
    odir = r.choice((None, None, "out", "out", "in", "in/sub", "nosuch"))
    dry, move, verbose = r.random() < .25, r.random() < .6, r.random() < .3
    if as_dir:
        args = ["in"]
        todo = [x for x in sorted(songs) if x.endswith(".mp3")]
    else:
        args = r.sample(sorted(songs), r.randint(1, len(songs)))
        if r.random() < .1:
            args.append(r.choice(args))
        todo = list(args)
        if r.random() < .05:
            args.append("in/absent.mp3")

    def target(p):
        n = name(songs[p], os.path.basename(p))
        return n and os.path.normpath(os.path.join(os.path.dirname(p) if odir is None else odir, n))
    targets = {p: target(p) for p in todo}
    blocked = r.random() < .4 and block(r, d, [t for t in targets.values() if t])
    if as_dir and blocked:
        for p, v in snapshot(d).items():
            if p.startswith("in/") and p.endswith(".mp3") and p not in songs and os.path.isfile(os.path.join(d, p)):
                songs[p] = Raw(get(os.path.join(d, p)))
                todo.append(p)
                targets[p] = target(p)
    # how the paths are spelled
    sp = r.choice(("rel", "abs", "dot"))

    def spell(p):
        q = os.path.join(d, p)
        return q if sp == "abs" else ("./" if sp == "dot" else "") + os.path.relpath(q, os.path.join(d, cwd))
    cmd = ["rename"]
    if templ is not None:
        cmd += r.choice((["-t", templ], ["--template=" + templ]))
    if odir is not None:
        cmd += r.choice((["-o", spell(odir)], ["--output=" + spell(odir) + r.choice(("", "/"))]))
    if dry:
        cmd.append(r.choice(("-n", "--dry-run")))
    if move:
        cmd.append(r.choice(("-r", "--rename")))
    if verbose:
        cmd.append("-v")
    cmd += [spell(a) for a in args]
    before = snapshot(d)
    if r.random() < .15:
        cmd = in_env(r, cmd)
    x = w.drv("cli", hx(out), hx(os.path.join(d, cwd)), "60:%d" % r.choice((64, 5000, 100000)) if limit else 60, *map(hx, cmd))
    after = snapshot(d)
    what = "%r in %r: %r -> rc %d %r; before %r after %r" % (cmd, cwd, targets, x["rc"], ux(x["err"])[-300:], sorted(before), sorted(after))
    w.eq(x["sig"], 0, "killed by a signal", what)
    if dry:
        w.check(before == after, "dry run changed something", what)
        w.count("dry")
        w.seen("dry", templ, odir, as_dir)
        return
    used = {}
    for p, v in before.items():
        if after.get(p) == v:
            continue
        # (moved away, its old name may have been given to another)
        w.check(p in targets and (p not in after or move), "a file that was there has changed", "%s: %s" % (p, what))
        t = targets[p]
        w.check(move, "source removed without --rename", "%s: %s" % (p, what))
        w.check(t is not None and t != p and t in after and after[t] != before.get(t), "a file is gone", "%s: %s" % (p, what))
        w.check(after[t][2] == songs[p].bytes, "a file's bytes are gone", "%s: %s" % (p, what))
        w.check(t not in used, "two files became one", "%s and %s: %s" % (p, used.get(t), what))
        used[t] = p
        w.count("moved")
    for t, v in after.items():
        if before.get(t) == v:
            continue
        src = [p for p in todo if targets[p] == t]
        w.check(src, "a file nobody asked for", "%s: %s" % (t, what))
        if v[2] is not None and any(v[2] == songs[p].bytes for p in src):
            continue
        w.check(limit and x["rc"] != 0 and any(songs[p].bytes.startswith(v[2] or b"x") or not v[2] for p in src), "the copy isn't the file", "%s: %s" % (t, what))
        w.count("partial_copies")
    # what had to be done, was, or was reported
    placed, asked, undone = set(), set(), False
    for p in todo:
        t = targets[p]
        if t is None or t == p or (as_dir and before[p][0] == "link"):
            continue
        done = t in after and after[t] != before.get(t) and after[t][2] == songs[p].bytes and (not move or after.get(p) != before[p])
        if not done or t in placed or p in asked:
            undone = True
        placed.add(t)
        asked.add(p)
    w.check(not undone or x["rc"] != 0, "a file was not renamed and no error reported", what)
    if not undone and not blocked and "in/absent.mp3" not in args and not limit and x["rc"] != 0:
        # (a path spelled differently from its target may be reported)
        odd = any(targets[p] == p for p in todo) or as_dir
        w.check(odd, "failed for no reason", what)
    w.count("undone" if undone else "all_done")
    w.seen("run", templ, odir, as_dir, move, undone, blocked, limit, sp, x["rc"])


if __name__ == "__main__":
    sys.exit(Check("C15", [("run", run, 2500, 60000)], "distinct (template, output, mode, obstacle, outcome) seen", cli=True).main())
