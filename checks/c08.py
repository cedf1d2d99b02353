"""C08: rewriting a file's tags never touches anything but the tags."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "lib"))
from vlib import *
from files import *
import gen

ALWAYS, NEVER, NEEDED = 0, 1, 2
FULL, REDUCE = 0, 1


def load(w, r, t=None):
    t = t or gen.tag(r)
    w.next = getattr(w, "next", 0) % 50 + 1
    d = w.drv("parse", w.next, hx(t if isinstance(t, bytes) else t.raw()))
    w.check(not is_ex(d) and d["present"], "load failed", repr(d))
    return w.next


def wants(w, hs, u):
    """The serialised tags, each as it would be written alone"""
    out = []
    for h in hs:
        x = w.drv("write", h, 0)
        if u == ALWAYS or u == NEEDED and x["nu"]:
            x = w.drv("write", h, 1)
        w.check(not is_ex(x), "write failed", repr(x))
        out.append(ux(x["out"]))
    return out


def frames(b):
    t = parse_tag(b)[0]
    return [(f.id, f.payload, f.tap, f.fap, f.ro, f.gid) for f in t.frames], t.ver, t.exp


def strip(d):
    """A dump without what padding may change"""
    if isinstance(d, dict):
        return {k: strip(v) for k, v in d.items() if k not in ("pad", "size", "size0", "size1", "ssize", "nu", "ext", "h")}
    if isinstance(d, list):
        return [strip(x) for x in d]
    return d


def once(w, r, path, hs, names):
    """One rewrite of PATH by tags HS, by whichever means; PATH's bytes after"""
    before = get(path) if os.path.exists(path) else None
    mode = os.stat(path).st_mode if before is not None else None
    front = split_front(before) if before is not None else 0
    tail = before[front:] if before is not None else b""
    u = r.choice((ALWAYS, NEVER, NEEDED))
    pre = wants(w, hs, u)
    dumps = [strip(w.drv("dump", h)) for h in hs]
    pads = [w.drv("dump", h)["pad"] for h in hs]
    total = sum(map(len, pre))
    x = w.drv("tssizes", u, *hs)
    w.eq((x["total"], x["pad"]), (total, sum(pads)), "size of a tagset", "tagset_sizes")
    if before is not None:
        x = w.drv("tssize", hx(path))
        w.eq(x.get("n"), front, "size of the tagset in a file", "tagset_size %r" % x)
    how = r.choice(("copy", "maybe", "maybe", "maybe", "empl" if hs and total == front and before is not None else "maybe"))
    if how == "copy" and before is None:
        how = "maybe"
    es, keep = r.choice((FULL, REDUCE, REDUCE)), r.randrange(2)
    if how == "copy":
        x = w.drv("rtcopy", hx(path), u, keep, *hs)
    elif how == "maybe":
        x = w.drv("rtmaybe", hx(path), u, es, keep, *hs)
    else:
        x = w.drv("rtempl", hx(path), u, *hs)
    what = "%s unsync=%d estrat=%d old tags %d bytes, new %d (%d padding), rest %d" % (
        how, u, es, front, total, sum(pads), len(tail))
    w.check(not is_ex(x), "rewrite failed", "%s: %r" % (what, x))
    if before is None and not hs:
        w.check(not os.path.exists(path) or get(path) == b"", "file made of nothing", what)
        w.seen("nothing")
        return
    w.check(os.path.exists(path), "file is gone", what)
    after = get(path)
    post = wants(w, hs, u)
    w.eq(after[:len(b"".join(post))] == b"".join(post), True, "tags in the file are not those written", what)
    w.check(after[len(b"".join(post)):] == tail, "bytes after the tags changed",
            "%s: %r.. became %r.." % (what, tail[:40], after[len(b"".join(post)):][:40]))
    # the tags: as they were but for padding, and for that only to fit the old space
    w.eq([strip(w.drv("dump", h)) for h in hs], dumps, "rewriting changed a tag", what)
    p2 = [w.drv("dump", h)["pad"] for h in hs]
    if p2 != pads:
        w.check(how == "maybe", "padding changed by a copy", what)
        w.count("padding_adjusted")
        w.check(sum(p2) > sum(pads) or es == REDUCE, "padding reduced though full padding was asked for", what)
    for a, b in zip(pre, post):
        w.eq(frames(b), frames(a), "frames changed by padding", what)
    if mode is not None:
        w.eq(os.stat(path).st_mode, mode, "file mode changed", what)
    # in place when it fits
    if how == "maybe" and before is not None and hs:
        if total <= front:
            w.check(len(after) == len(before) or u != NEVER, "tags that fit did not go in place", what)
        if total - sum(pads) <= front and es == REDUCE and u == NEVER:
            w.check(len(after) == len(before), "tags that fit with less padding did not go in place", what)
        w.count("in_place" if len(after) == len(before) else "moved")
    # the file can be read again
    x = w.drv("tssize", hx(path))
    w.eq(x.get("n"), len(after) - len(tail) if tail[:3] != b"ID3" or len(tail) < 10 else x.get("n"),
         "size of the tagset in a file", "after " + what)
    w.count("rewrites")
    w.seen(how, u, es, keep, len(hs), total - front if abs(total - front) < 12 else (total > front) * 99,
           front > 0, len(tail) > 0, tail[-128:-125] == b"TAG", p2 != pads, before is None)
    return after


def newtags(w, r, near=None):
    n = r.choice((1, 1, 1, 2, 2, 3, 0))
    hs = [load(w, r) for _ in range(n)]
    if near is not None and hs and r.random() < .7:
        # sizes that just about fit the old space
        for _ in range(2):
            cur = sum(map(len, wants(w, hs, NEVER)))
            h = r.choice(hs)
            d = w.drv("dump", h)
            p = d["pad"] + near - cur + r.choice((0, 0, -1, 1, -2, 2, 3, -10, 10, 100, -100))
            if p >= 0 and not is_ex(w.drv("pad", h, p)):
                break
    return hs


def name(r):
    return r.choice(("a.mp3", "b", "x y.mp3", "ü.mp3", ".hidden", "a.mp3.1", "t" * 80, "-n", "new\nline", "a.b.c"))


def one(w, no):
    r = w.rng
    d = w.dir()
    w.drv("reset")
    path = os.path.join(d, name(r))
    old = b"".join(old_tag(r) for _ in range(r.choice((0, 1, 1, 1, 2, 3))))
    put(path, old + rest(r), r.choice((0o644, 0o600, 0o640, 0o755, 0o666)))
    for _ in range(r.choice((1, 1, 2, 3, 5))):
        near = split_front(get(path))
        once(w, r, path, newtags(w, r, near), None)
        if r.random() < .3:
            w.drv("reset")


def missing(w, no):
    r = w.rng
    d = w.dir()
    w.drv("reset")
    path = os.path.join(d, name(r))
    for _ in range(r.choice((1, 2))):
        once(w, r, path, newtags(w, r), None)


def squeeze(w, no):
    """Tags whose padding has to give way exactly, ending in 0xff or not"""
    r = w.rng
    d = w.dir()
    w.drv("reset")
    path = os.path.join(d, "f.mp3")
    hs, n = [], r.randint(1, 4)
    for _ in range(n):
        ver = r.choice((2, 3, 4))
        f = Fr(ver, "XYZ" if ver == 2 else "XYZ0", r.choice((b"\xff", b"a\xff", b"\xff\0", b"abc", b"\xff\xe0", b"\xff\xff")))
        hs.append(load(w, r, Tg(ver, [f], r.choice((0, 0, 1, 2, 5, 40)))))
    u = r.choice((ALWAYS, NEVER, NEEDED))
    total = sum(map(len, wants(w, hs, u)))
    pad = sum(w.drv("dump", h)["pad"] for h in hs)
    want = max(10, total + r.choice((0, -pad, -pad, 1 - pad, -1, 1, 2, 7, r.randint(-pad, 50))))
    a = rest(r)
    put(path, b"ID3\3\0\0" + syncsafe(want - 10) + b"\0" * (want - 10) + a)
    for _ in range(r.choice((1, 2))):
        once(w, r, path, hs, None)


def adjust(w, no):
    """Padding shared out: the total asked for, nothing negative, nothing else"""
    r = w.rng
    w.drv("reset")
    hs = [load(w, r, Tg(v, [gen.frame(r, v, ("text",))], r.choice((0, 0, 1, 2, 3, 10, 100, r.randint(0, 400)))))
          for v in (r.choice((2, 3, 4)) for _ in range(r.randint(1, 5)))]
    cur = sum(map(len, wants(w, hs, NEVER)))
    pads = [w.drv("dump", h)["pad"] for h in hs]
    dumps = [strip(w.drv("dump", h)) for h in hs]
    adj = r.choice((0, 1, -1, 2, 3, -2, -sum(pads), 1 - sum(pads), -sum(pads) - 1, r.randint(-sum(pads), 500)))
    x = w.drv("adjpad", cur + adj, cur, *hs)
    p2 = [w.drv("dump", h)["pad"] for h in hs]
    what = "padding %r adjusted by %d gave %r" % (pads, adj, p2)
    if adj < -sum(pads):
        w.check(is_ex(x), "impossible padding accepted", what)
        w.eq(p2, pads, "padding changed by a failure", what)
    else:
        w.check(not is_ex(x), "padding not adjusted", "%s: %r" % (what, x))
        w.eq(sum(p2), sum(pads) + adj, "total padding", what)
        w.check(all((b >= a) if adj >= 0 else (b <= a) for a, b in zip(pads, p2)), "padding moved between tags", what)
        w.eq(sum(map(len, wants(w, hs, NEVER))), cur + adj, "size after adjusting padding", what)
    w.eq([strip(w.drv("dump", h)) for h in hs], dumps, "adjusting padding changed a tag", what)
    w.seen("adj", len(hs), adj if abs(adj) < 4 else adj > 0, min(pads) == 0, adj == -sum(pads))


def refuse(w, no):
    """What cannot be done leaves the file alone"""
    r = w.rng
    d = w.dir()
    w.drv("reset")
    path = os.path.join(d, name(r))
    m = r.choice(("mismatch", "cut", "empl-missing", "copy-missing"))
    hs = newtags(w, r) or [load(w, r)]
    b = b"".join(old_tag(r) for _ in range(r.choice((1, 2)))) + rest(r)
    if m == "cut":
        t = old_tag(r)
        b = t + b"ID3\x03\0\0" + syncsafe(5000) + gen.blob(r, 60)
        put(path, b)
        x = w.drv("rtcopy", hx(path), NEVER, 0, *hs) if r.random() < .5 else w.drv("rtmaybe", hx(path), NEVER, REDUCE, 0, *hs)
        if is_ex(x):
            w.eq(get(path), b, "failed rewrite changed the file", "cut tag")
    elif m == "mismatch":
        put(path, b)
        n = sum(map(len, wants(w, hs, NEVER)))
        x = w.drv("rtempl", hx(path), NEVER, *hs)
        if n != split_front(b):
            w.check(is_ex(x), "tags of the wrong size put in place", "%d for %d" % (n, split_front(b)))
            w.eq(get(path), b, "failed rewrite changed the file", m)
    elif m == "empl-missing":
        x = w.drv("rtempl", hx(path), NEVER, *hs)
        w.check(is_ex(x) and not os.path.exists(path), "replaced the tags of a missing file", repr(x))
    else:
        x = w.drv("rtcopy", hx(path), NEVER, 0, *hs)
        w.check(is_ex(x) and not os.path.exists(path), "replaced the tags of a missing file", repr(x))
    w.eq(sorted(os.listdir(d)), [os.path.basename(path)] if os.path.exists(path) else [], "files left behind", m)
    w.seen("refuse", m, is_ex(x))


if __name__ == "__main__":
    sys.exit(Check("C08", [("one", one, 2400, 60000), ("missing", missing, 400, 4000), ("squeeze", squeeze, 2000, 40000),
                           ("adjust", adjust, 1500, 30000), ("refuse", refuse, 1200, 12000)],
                   "distinct (means, unsynchronisation, strategy, tags, size difference, shape of the file) seen").main())
