"""C24: distinct files and tags on several threads, under ThreadSanitizer."""
import os, shutil, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "lib"))
from vlib import *
import vlib
import builder
from edit import Ed, FIELDS, plain, spec
from files import put, snapshot
from id3 import *

import gen

FMTS = ("csv", "csv2", "tdf", "tdfa", "json", "json1", "std", "std2")
BATCH = 8


class Rec:
    """The driver, remembering what was asked and answered"""
    def __init__(self, drv):
        self.drv, self.log = drv, []

    def __getattr__(self, n):
        return getattr(self.drv, n)

    def __call__(self, *args):
        l = " ".join(str(a) for a in args)
        r = self.drv.batch([l])[0]
        self.log.append((l, r))
        return r


def tags(w, d):
    """Read, edit, print, measure and write tags"""
    r = w.rng
    for h in range(r.choice((1, 1, 2))):
        if r.random() < .2:
            v = r.choice((2, 3, 4))
            w.drv("new", h, v, r.choice((0, 10, 100)))
            t = Tg(v, [], 0)
        else:
            t = gen.tag(r)
            b = t.raw()
            if r.random() < .15:
                b = gen.mutate(r, b)
            x = w.drv("parse", h, hx(b))
            if is_ex(x) or not x["present"]:
                continue
            w.drv("dump", h)
        ed = Ed(w, h, t)
        for _ in range(r.choice((0, 1, 3, 6))):
            ed.step()
        for _ in range(r.choice((1, 2, 4))):
            m = r.randrange(6)
            if m == 0:
                w.drv("clone", h, 9)
                w.drv("dump", 9)
            elif m == 1:
                w.drv("write", h, r.randrange(2))
            elif m == 2:
                w.drv("gettext", h, r.choice(sorted(FIELDS)))
            elif m == 3 and t.frames:
                w.drv("fclone", h, r.randrange(len(t.frames)))
            else:
                w.drv("print", r.choice(FMTS), h)
        w.drv("write", h, r.randrange(2))


def v1s(w, d):
    r = w.rng
    b = gen.v1(r)
    x = w.drv("v1parse", 0, hx(gen.audio(r) + b), "process")
    if is_ex(x) or not x["present"]:
        return
    w.drv("v1dump", 0)
    for _ in range(r.choice((1, 2, 4))):
        f = r.choice(("title", "artist", "album", "comment"))
        w.drv("v1set", 0, f, hx(gen.text(r, 3, 0, 20)))
    w.drv("printv1", r.choice(FMTS), 0)
    w.drv("v1copy", 0, 1)
    w.drv("v1write", 1)


def whole(w, d):
    """Read and rewrite files"""
    r = w.rng
    p = hx(os.path.join(d, "a.mp3"))
    for _ in range(r.choice((1, 2, 3))):
        x = w.drv("fileinfo", p)
        w.drv("tssize", p)
        n = w.drv("load", 0, p)
        n = 0 if is_ex(n) else n["n"]
        for h in range(n):
            for _ in range(r.choice((0, 1, 2))):
                w.drv("settext", h, r.choice(sorted(FIELDS)), hx(gen.text(r, 2, 0, 20)))
            if r.random() < .5:
                w.drv("pad", h, r.choice((0, 10, 500, 2000)))
        hs = list(range(n))
        m = r.randrange(4)
        if m == 0:
            w.drv("rtcopy", p, r.randrange(3), r.randrange(2), *hs)
        elif m == 1:
            w.drv("rtempl", p, r.randrange(3), *hs)
        elif m == 2:
            w.drv("rtmaybe", p, r.randrange(3), r.randrange(3), r.randrange(2), *hs)
        else:
            w.drv("v1new", 0, 0, 0)
            w.drv("v1set", 0, "title", hx(gen.text(r, 3, 0, 20)))
            w.drv("v1replace", p, 0)
        w.drv("bkname", p)
    w.drv("fileinfo", p)


def stuff(w, d):
    """The rest of the library"""
    r = w.rng
    for _ in range(r.choice((3, 6, 10))):
        m = r.randrange(16)
        if m == 0:
            w.drv("conv2s", hx(gen.text(r, 4, 3, 20)), r.choice((32, 35, 5)), r.choice((32, 35, 5)), r.randrange(3))
        elif m == 1:
            w.drv("conv2v", hx(gen.text(r, 4, 3, 20)), r.choice((32, 35, 5)), r.choice((32, 35, 5)), r.randrange(2), r.randrange(3))
        elif m == 2:
            w.drv("encname", r.randrange(30))
        elif m == 3:
            w.drv("genre", hx(gen.asc(r, 12)))
        elif m == 4:
            w.drv("genretext", r.randrange(256))
            w.drv("genrelist", r.randrange(3))
        elif m == 5:
            x = w.drv("urlenc", hx(gen.text(r, 4, 3, 20)))
            w.drv("urldec", x["out"] or "-")
        elif m == 6:
            w.drv("mp3frame", hx(gen.mpeg_frame(r, 1, 3, r.randrange(14), r.randrange(3), 0)[0]))
        elif m == 7:
            w.drv("printtrack", r.choice(FMTS), hx(gen.audio(r)))
        elif m == 8:
            w.drv("gauntlet", hx(gen.mutate(r, gen.file_bytes(r)[0])), 1)
        elif m == 9:
            a = gen.file_bytes(r)[0]
            w.drv("probes", r.randrange(8), hx(a), *[r.choice(("look:1", "maybe", "all", "ends1", "proc1", "md5", "find1", "track")) for _ in range(4)])
        elif m == 10:
            w.drv("xtagnew", hx(gen.asc(r, 5)), hx("a=b&c=d,e&%s=" % gen.asc(r, 3, 1).decode()))
        elif m == 11:
            l = r.choice(("eng", "deu", "fra", "jpn", "nno", "zul"))
            w.drv("langprint", l)
            w.drv("lang3", l)
            w.drv("langread", hx(r.choice((b"English", b"ENGLISH", b"deu", b"xx", b"German"))))
        elif m == 12:
            i = r.randrange(30)
            x = w.drv("encprint", i)
            w.drv("encread", x["name"])
            w.drv("rspread", w.drv("rspprint", r.randrange(3))["name"])
        elif m == 13:
            w.drv("tfprint", r.choice(("tit2", "tpe1", "talb", "tenc")))
            w.drv("tfread", hx(r.choice((b"tit2", b"TALB", b"TPE1", b"nope"))))
            w.drv("fid", hx(b"TIT2"), hx(r.choice((b"TIT2", b"TPE1"))))
        elif m == 14:
            w.drv("mp3head", hx(bytes([0xff, r.choice((0xfb, 0xf3, 0xe3, 0xfa)), r.choice((0x90, 0x10, 0xe4)), r.randrange(256)]) + r.choice((b"", bytes(32) + b"Xing\0\0\0\x03")) + r.randbytes(1500)), 1, "whole", 0)
            w.drv("xing", hx(b"\0\0\0\x0f" + r.randbytes(112)))
        else:
            w.drv("fileinfo", hx(os.path.join(d, "b.mp3")))



KINDS = (("tags", tags), ("v1", v1s), ("file", whole), ("misc", stuff))


def threads(w, no):
    r = w.rng
    root = w.dir()
    n = r.choice((2, 2, 3, 4, 6))
    kind = r.choice(KINDS) if r.random() < .6 else None
    real = w.drv
    logs, names = [], []
    for i in range(n):
        d = os.path.join(root, "t%d" % i)
        os.mkdir(d)
        for f in ("a.mp3", "b.mp3"):
            put(os.path.join(d, f), gen.file_bytes(r)[0])
    shutil.copytree(root, root + ".orig")
    try:
        # each alone
        for i in range(n):
            name, fn = kind or r.choice(KINDS)
            w._drv = Rec(real)
            try:
                fn(w, os.path.join(root, "t%d" % i))
            except Violation:
                pass        # other properties' business; what was asked so far will do
            except (Crash, Hang, Bad):
                w.count("scripts that fail alone")
                return
            finally:
                log, w._drv = w._drv.log, real
            real("reset")
            logs.append(log)
            names.append(name)
        want = snapshot(root)
        shutil.rmtree(root)
        shutil.copytree(root + ".orig", root)
    finally:
        shutil.rmtree(root + ".orig")
    # all together, in a process that has done nothing yet (or only the like of it)
    par = getattr(w, "par", None)
    if par is None or par.p is None or r.random() < .7:
        if par is not None:
            par.stop()
        par = w.par = Drv(w.chk.exe, w.scratch, timeout=w.chk.timeout, env=w.chk.env)
        w.count("fresh processes")
    try:
        x = par("par", r.randrange(1 << 30), *[hx("\n".join(l for l, _ in log)) for log in logs])
    except (Crash, Hang):
        par.kill()
        raise
    for i, log in enumerate(logs):
        for (l, a), b in zip(log, x["r"][i]):
            w.eq(b, a, "another result than alone", "thread %d of %s: %s" % (i, names, l[:200]))
    w.eq(snapshot(root), want, "other files than alone", repr(names))
    w.count("requests", sum(len(l) for l in logs))
    w.count("threads", n)
    w.count("switches", sum(a != b for a, b in zip(x["order"], x["order"][1:])))
    w.seen("order", x["order"])
    w.sample({"threads": names, "order": x["order"][:80]})


def build():
    return builder.Builder("tsan").build("drv-par", vlib.HARNESS + ["drv_names.cc", "drv_par.cc"])


if __name__ == "__main__":
    sys.exit(Check("C24", [("threads", threads, 400, 30000)], "distinct orders in which the threads' requests began",
                   variant="tsan", exe_builder=build, trust_once=True, timeout=120,
                   env={"LANGUAGE": "en", "TSAN_OPTIONS": "halt_on_error=1:exitcode=66:history_size=4:second_deadlock_stack=1:suppressions=" + os.path.join(vlib.VERIF, "harness", "tsan.supp")},
                   assumptions=["libstdc++, boost and libc are not instrumented: races within them are seen only through their interceptors"]).main())
