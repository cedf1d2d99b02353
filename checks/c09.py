"""C09: backups preserve the original bytes and are never overwritten."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "lib"))
from vlib import *
from files import *
import gen

NAMES = ("a.mp3", "a", "a.mp3.1", "x y.mp3", "ü.mp3", "a+b(c)[d].mp3", ".a", "a.", "a.10", "9", "a.mp3~", "T.MP3", "a*", "$x")
SUFFIXES = ("1", "2", "3", "9", "10", "11", "99", "100", "999", "1000", "1001", "65535", "65536", "123456", "01", "007", "0", "", "x", "1x", "x1", "-1", "+1", " 1", "1 ", "1.1", "~",
            "4294967295", "4294967296", "2147483647", "9223372036854775807", "18446744073709551615",
            "18446744073709551616", "9" * 40, "1.bak", "0x1", "٣")


def populate(r, d, base):
    """Names that look like backups, and other things, next to BASE"""
    for _ in range(r.choice((0, 0, 1, 2, 5, 12))):
        n = r.choice((base + "." + r.choice(SUFFIXES), base + "." + str(r.randint(1, 15)), base + r.choice(SUFFIXES),
                      r.choice(NAMES), base + "x." + str(r.randint(1, 20)), "z" + base + ".40", base[:-1] + ".7" if base[:-1] else "q"))
        p = os.path.join(d, n)
        if os.path.lexists(p) or "/" in n or n in (".", ".."):
            continue
        k = r.random()
        if k < .1:
            os.mkdir(p)
        elif k < .16:
            os.symlink(r.choice(("nowhere", base)), p)
        else:
            put(p, ("content of %s %d" % (n, r.getrandbits(30))).encode(), r.choice((0o644, 0o600, 0o444)))


def spell(r, w, top, sub, base):
    """One of the ways to name TOP/SUB/BASE"""
    p = os.path.join(top, sub, base)
    k = r.choice(("abs", "abs", "rel", "dot", "dotdot", "link", "slash"))
    if k == "abs":
        return p, k
    if k == "rel":
        return os.path.relpath(p, os.readlink("/proc/%d/cwd" % w.drv.p.pid)), k
    if k == "dot":
        return os.path.join(top, ".", sub, ".", base), k
    if k == "dotdot":
        return os.path.join(top, sub, "..", sub, base), k
    if k == "slash":
        return os.path.join(top, sub) + "//" + base, k
    return os.path.join(top, "ln", base), k


def compare(w, r, before, after, rel, keep, what):
    """Nothing but REL changed, and a backup appeared if one was asked for"""
    for k, v in before.items():
        if k == rel:
            continue
        w.check(k in after, "a file was removed", "%s: %r" % (what, k))
        w.check(after[k] == v, "another file was changed", "%s: %r: %.80r became %.80r" % (what, k, v, after[k]))
    new = {k: v for k, v in after.items() if k not in before}
    w.check(rel in after, "file is gone", what)
    w.eq(after[rel][1], before[rel][1], "file mode changed", what)
    if keep:
        w.eq(len(new), 1, "number of new files", "%s: %r" % (what, sorted(new)))
        (k, v), = new.items()
        w.eq(v[2], before[rel][2], "backup differs from the original", "%s: %r" % (what, k))
        w.eq(v[0], "file", "backup is not a file", what)
        w.eq(os.path.dirname(k), os.path.dirname(rel), "backup is not next to the original", "%s: %r" % (what, k))
        w.check(os.path.basename(k).startswith(os.path.basename(rel) + "."), "name of a backup", "%s: %r" % (what, k))
        w.count("backups")
    else:
        w.eq(sorted(new), [], "new files where no backup was asked for", what)
    return new


def lib(w, no):
    r = w.rng
    w.drv("reset")
    top = w.dir()
    sub = r.choice(("d", "d", "d e", "a.mp3", "x.1"))
    os.mkdir(os.path.join(top, sub))
    os.symlink(sub, os.path.join(top, "ln"))
    bases = r.sample(NAMES, r.choice((1, 1, 2)))
    for b in bases:
        put(os.path.join(top, sub, b), b"".join(old_tag(r) for _ in range(r.randrange(3))) + rest(r), r.choice((0o644, 0o600)))
    for b in bases:
        populate(r, os.path.join(top, sub), b)
    made = []
    for i in range(r.choice((1, 2, 3, 6, 14))):
        b = r.choice(bases)
        rel = os.path.join(sub, b)
        if not os.path.isfile(os.path.join(top, rel)):
            continue
        path, k = spell(r, w, top, sub, b)
        h = i % 3 + 1
        t = gen.tag(r)
        t.pad = r.choice((0, 3, 500)) if not t.footer and t.ext is None and t.frames else t.pad
        x = w.drv("parse", h, hx(t.raw()))
        w.check(not is_ex(x), "load failed", repr(x))
        keep = r.random() < .7
        before = snapshot(top)
        tight = r.random() < .4
        u = r.randrange(3)
        if tight:
            x = w.drv("rtmaybe", hx(path), u, r.randrange(2), int(keep), h)
        else:
            x = w.drv("rtcopy", hx(path), u, int(keep), h)
        what = "%s %r keep=%d" % ("maybe_emplace" if tight else "copy", path[len(top):] if k != "rel" else path, keep)
        w.check(not is_ex(x), "rewrite failed", "%s: %r" % (what, x))
        after = snapshot(top)
        # written in place: there's no copy, and nothing to back up
        inplace = tight and len(after[rel][2]) == len(before[rel][2]) and len(after) == len(before)
        new = compare(w, r, before, after, rel, keep and not inplace, what)
        made += list(new)
        if new and r.random() < .15:
            os.unlink(os.path.join(top, r.choice(made)))
            made = [m for m in made if os.path.exists(os.path.join(top, m))]
        w.seen(k, tight, keep, inplace, len(before), sorted(os.path.basename(m) for m in made)[-1:])
    w.count("rewrites")


def cmd(w, no):
    """The same through the commands, from a working directory"""
    r = w.rng
    w.drv("reset")
    top = w.dir()
    out = os.path.join(w.scratch, "out")
    os.makedirs(out, exist_ok=True)
    sub = r.choice(("d", "d e"))
    os.mkdir(os.path.join(top, sub))
    os.symlink(sub, os.path.join(top, "ln"))
    base = r.choice([n for n in NAMES if not n.startswith("-")])
    t = gen.tag(r, 3, ("text",))
    put(os.path.join(top, sub, base), t.raw() + rest(r), 0o644)
    populate(r, os.path.join(top, sub), base)
    for i in range(r.choice((1, 2, 4))):
        cwd, name = r.choice(((sub, base), (sub, base), (sub, "./" + base), (".", sub + "/" + base), (sub, "../" + sub + "/" + base),
                              (".", "ln/" + base), ("ln", base), (".", os.path.join(top, sub, base))))
        keep = r.random() < .7
        rel = os.path.join(sub, base)
        op = r.choice(("text", "text", "popm", "genre"))
        val = "v%d" % r.getrandbits(r.choice((3, 200)))
        args = {"text": ["text", "-T", val], "popm": ["popm", "-a", "-C", "%d" % r.getrandbits(31), "-m", "-o", "me"],
                "genre": ["genre", "-g", val]}[op]
        before = snapshot(top)
        x = w.drv("cli", hx(out), hx(os.path.join(top, cwd)), 60, *map(hx, args + (["-b"] if keep else []) + [name]))
        what = "%s -b=%d %r in %s" % (op, keep, name, cwd)
        w.check(x["sig"] == 0, "command died", "%s: %r %r" % (what, x, ux(x["err"])[-600:]))
        after = snapshot(top)
        if after == before:
            w.count("unchanged")
            continue
        compare(w, r, before, after, rel, keep, what)
        w.seen("cli", op, keep, name.count("/"), name.startswith("."), len(before), i)
        w.count("commands")


def trees(w, no):
    """A directory of files in one go"""
    r = w.rng
    top = w.dir()
    out = os.path.join(w.scratch, "out")
    os.makedirs(out, exist_ok=True)
    n = r.randint(1, 4)
    names = r.sample(["%s.mp3" % c for c in "abcdefgh"] + ["a.mp3.mp3", "b.1.mp3"], n)
    for x in names:
        put(os.path.join(top, x), gen.tag(r, 3, ("text",)).raw() + rest(r), 0o644)
    for _ in range(2):
        before = snapshot(top)
        x = w.drv("cli", hx(out), hx(top), 60, *map(hx, ["text", "-T", "v%d" % r.getrandbits(2000), "-b"] +
                                                    ([] if r.random() < .3 else []) + names))
        w.eq((x["rc"], x["sig"]), (0, 0), "command failed", repr(x))
        after = snapshot(top)
        for k, v in before.items():
            if k not in names:
                w.eq(after.get(k), v, "another file was changed", k)
        new = {k: v for k, v in after.items() if k not in before}
        want = sorted(before[k][2] for k in names)
        w.eq(sorted(v[2] for v in new.values()), want, "backups of several files", repr(sorted(new)))
        w.count("backups", len(new))
        w.seen("trees", n, sorted(new))


if __name__ == "__main__":
    sys.exit(Check("C09", [("lib", lib, 1800, 30000), ("cmd", cmd, 500, 8000), ("trees", trees, 120, 2000)],
                   "distinct (path spelling, means, directory population, backup number) seen", cli=True).main())
