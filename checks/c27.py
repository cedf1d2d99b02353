#!/usr/bin/env python3
"""C27: walks in Scheme visit every file once, with its own tags"""
import os
import sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import c23
from c23 import *

NAMES = ("a.mp3", "b.mp3", "b", "c d.mp3", "ünï.mp3", "q\"u.mp3", "x%41.mp3", ".hidden", "..up", "...", "日本.mp3", "z", "A.MP3", "stat", "(", "'()", "a.mp3.1", "~")


def some(r):
    """Contents of a file: (bytes, tags, v1 or None)"""
    m = r.random()
    if m < .1:
        return b"", [], None
    tags = [c23.rtag(r, maxframes=4) for _ in range(r.choice((0, 1, 1, 2)))]
    v = c23.some_v1(r) if r.random() < .4 else b""
    front = b"".join(t.raw() for t in tags)
    a = gen.untag(front, gen.audio(r, 100), v)
    if m < .2:
        return b"ID3\x03\0\0\0\0\0\x20TIT2\0\0\xff\xff\0\0abc" + bytes(40), None, None
    return front + a + v, tags, v or None


def tree(r, d, depth, out, dirs):
    n = r.choice((0, 1, 2, 3, 5)) if depth else r.choice((1, 2, 4, 8))
    for name in r.sample(NAMES, n):
        p = os.path.join(d, name)
        if depth < 4 and r.random() < .4:
            os.mkdir(p)
            dirs.append(p)
            tree(r, p, depth + 1, out, dirs)
        else:
            if out and r.random() < .15:
                o = r.choice(sorted(out))
                out[p] = out[o]
                (os.link if r.random() < .3 else os.symlink)(o, p)
            else:
                out[p] = some(r)
                put(p, out[p][0])


def walk(w, no):
    r = w.rng
    d = w.dir()
    files, dirs = {}, []
    tree(r, d, 0, files, dirs)
    if r.random() < .05:
        p = d
        for i in range(r.choice((6, 9, 20, 40))):
            p = os.path.join(p, "d%d" % i)
            os.mkdir(p)
            dirs.append(p)
            if r.random() < .5:
                q = os.path.join(p, r.choice(NAMES))
                files[q] = some(r)
                put(q, files[q][0])
    if r.random() < .03:
        one = some(r)
        for i in range(r.choice((40, 130, 300))):
            q = os.path.join(d, "many%d" % i)
            files[q] = one
            put(q, one[0])
    before = snapshot(d)
    what = repr(sorted((os.path.relpath(p, d), len(f[0])) for p, f in files.items())) + " dirs " + repr([os.path.relpath(x, d) for x in dirs])
    op = r.choice(("with", "with", "flat", "gen"))
    w.count(op)
    at = d
    if r.random() < .3:
        w.drv.batch(["(chdir %s)" % sstr(os.path.dirname(d))])
        at = r.choice(("d", "./d"))
    at = sstr(at + r.choice(("", "", "/")))

    def full(p):
        return os.path.normpath(os.path.join(os.path.dirname(d), p))
    if op == "flat":
        x = w.drv.batch(["(flat-file-system-tree %s)" % at])[0]
        w.check(isinstance(x, list), "the tree can't be walked", "%r: %s" % (x, what))
        w.eq(sorted(map(full, x)), sorted(files), "files listed", what)
    elif op == "gen":
        x = w.drv.batch(["(let ((g (fs-tree-generator %s))) (let loop ((x (g)) (l '())) (if (eof-object? x) (list (reverse l) (g)) (loop (g) (cons x l)))))" % at])[0]
        w.check(isinstance(x, list), "the tree can't be walked", "%r: %s" % (x, what))
        w.eq(sorted(map(full, x[0])), sorted(files), "files generated", what)
        w.eq(x[1], {"eof": 1}, "after the last file", what)
    else:
        x = w.drv.batch(["(let ((l '())) (with-track-in %s (lambda (tags pth v1) (set! l (cons (list pth tags v1) l)))) l)" % at])[0]
        w.check(isinstance(x, list), "the tree can't be walked", "%r: %s" % (x, what))
        w.eq(sorted(full(y[0]) for y in x), sorted(files), "files visited", what)
        for p, tags, v in x:
            b, ts, v1 = files[full(p)]
            at = "%s %r: %s" % (p, b[:300], what)
            if ts is None:
                w.eq(tags, [], "tags of an unreadable file", at)
                w.count("unreadable")
                continue
            w.eq([y[1] for y in tags], [t.ver for t in ts], "tags handed over", at)
            for y, t in zip(tags, ts):
                check_read(w, y[0], t.ver, [of(f) for f in t.frames], t.exp, t.pad, at)
            if v1 is None:
                w.eq(v, [], "an ID3v1 tag where there is none", at)
            else:
                w.check(isinstance(v, dict) and v.get("cls") == "<id3v1-tag>", "no ID3v1 tag handed over", at)
                for k, e in v1_facts(v1).items():
                    if k != "enh":
                        g = v[k] if v[k] != [] else 0 if k in ("track-no", "speed") else ""
                        w.check(same(k, g, e), "ID3v1 contents handed over", "%s is %r, not %r: %s" % (k, g, e, at))
            w.count("tracks")
    w.eq(snapshot(d), before, "a walk changed files", what)
    w.count("files", len(files))
    w.count("directories", len(dirs))
    w.seen("tree", (op, tuple(sorted(os.path.relpath(p, d) for p in files))))
    w.sample({"walk": op, "files": [os.path.relpath(p, d) for p in files][:20]})


def query(w, no):
    """has-frame? and get-frames"""
    r = w.rng
    c = Case(w, no, 1)
    if c.vers == [] or not c.ms[0]:
        return
    w.drv.batch(["(begin (set! T (read-tagset %s)) 0)" % sstr(c.path)])
    # make for repeated ids
    ver, ms = c.vers[0], c.ms[0]
    if r.random() < .5:
        fs = "(slot-ref (tag 0) 'frames)"
        w.drv.batch(["(slot-set! (tag 0) 'frames (append %s %s))" % (fs, fs)])
        ms = ms + ms
    syms = [sym_of(m, ver) for m in ms]
    s = r.choice(syms + ["title-frame", "udt-frame", "unknown-frame", "nonesuch"])
    x = w.drv.batch(["(has-frame? (tag 0) '%s)" % s, "(get-frames (tag 0) '%s)" % s,
                     "(map (lambda (f) (list-index (lambda (g) (eq? f g)) (slot-ref (tag 0) 'frames))) (get-frames (tag 0) '%s))" % s])
    w.eq(x[0], s in syms, "has-frame?", "%s in %r" % (s, syms))
    w.check(isinstance(x[1], list), "get-frames", "%r: %s in %r" % (x[1], s, syms))
    w.eq([f["id"]["sym"] for f in x[1]], [y for y in syms if y == s], "get-frames", "%s in %r" % (s, syms))
    w.eq(x[2], [syms.index(s) if False else i % len(c.ms[0]) for i, y in enumerate(syms) if y == s], "frames got", "%s in %r" % (s, syms))
    w.seen("query", (s, tuple(syms)))
    w.count("queries")


if __name__ == "__main__":
    sys.exit(Check("C27", [("walk", walk, 1500, 60000), ("query", query, 1500, 40000)],
                   "distinct trees walked and tags queried", exe_builder=build, env=ENV,
                   assumptions=["Guile itself is not instrumented", "trees hold regular files and directories only, with names in UTF-8"]).main())
