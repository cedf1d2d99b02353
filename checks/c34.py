"""C34: whatever is done, and however it ends, memory and descriptors are given back."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "lib"))
from vlib import *
import vlib
import c23
import builder
from c24 import Rec, tags, v1s, whole, stuff
from files import put
from id3 import *
import gen


def grows(v):
    """Held more after every further time (the first few may set something up)"""
    return len(v) > 4 and all(a < b for a, b in zip(v[2:], v[3:]))


def judge(w, x, what, ask):
    w.check(len(x["bytes"]) > 4, "the work was not repeated", "%s: %r" % (ask, x))
    w.check(not grows(x["bytes"]), "memory lost: " + what, "%s: allocated after each time %r" % (ask, x["bytes"]))
    w.check(not grows(x["fds"]), "descriptors lost: " + what, "%s: open after each time %r" % (ask, x["fds"]))
    w.check(x["bytes"][0] > 0, "the allocator was not observed", repr(x))
    w.count("repetitions", len(x["bytes"]))


def hostile(r):
    k = r.randrange(7)
    if k == 6:
        # frames with a layer to undo before they are read, and damage beneath it
        fs = [gen.frame(r, r.choice((3, 4))) for _ in range(r.randint(1, 3))]
        for f in fs:
            f.ver = fs[0].ver
            f.cmp = r.random() < .8
        t = gen.Tg(fs[0].ver, fs, r.choice((0, 20)))
        t.unsync = r.random() < .3
        b = bytearray(t.raw())
        for _ in range(r.choice((1, 1, 3))):
            b[r.randrange(len(b) // 2, len(b))] ^= 1 << r.randrange(8)
        return bytes(b) + gen.audio(r)
    if k == 0:
        return gen.file_bytes(r)[0]
    if k == 1:
        b = gen.file_bytes(r, ntags=1)[0]
        return b[:r.randint(0, len(b))]
    if k == 2:
        return gen.tiny_tag(r) + gen.blob(r, 40)
    if k == 3:
        # a second or third tag that cannot be read, behind some that can
        t = gen.tag(r, r.choice((2, 3, 4))).raw()
        return gen.file_bytes(r, ntags=0)[0][:0] + gen.tag(r).raw() + gen.mutate(r, t) + gen.audio(r)
    if k == 4:
        return gen.mutate(r, gen.mpeg_frame(r, 1, 3, r.randrange(14), r.randrange(3), 0)[0])
    return gen.mutate(r, gen.file_bytes(r, ntags=r.choice((0, 1, 1, 2)))[0])


MARK = b"@@@@"      # stands for the number of the repetition (see drv_cli.cc)


def marked(r, b):
    """A file each of whose copies is another"""
    if r.random() < .6:
        k = r.randrange(4)
        if k == 0:
            return gen.Tg(3, [gen.Fr(3, r.choice(("TIT2", "TPE1", "ZZZZ")), b"\0of " + MARK)], 0).raw() + b
        if k == 1:
            return b[:len(b) // 2] + MARK + b[len(b) // 2:]
        if k == 2:
            return b + b"TAG" + (b"t" + MARK).ljust(125, b"\0")
        return b + MARK
    return b


def copies(d, names):
    for i in range(7):
        n = b"%04d" % i
        os.mkdir(os.path.join(d, n.decode()))
        for f in names:
            put(os.path.join(d, n.decode(), f), open(os.path.join(d, "@@@@", f), "rb").read().replace(MARK, n))


def reading(w, no):
    """Everything a reader does with a file, readable or not"""
    r = w.rng
    b = marked(r, hostile(r))
    x = w.drv("again", hx("gauntlet " + hx(b)))
    judge(w, x, "reading", b[:400].hex())
    g = w.drv("gauntlet", hx(b))
    w.count("files_read")
    w.count("failures_on_the_way", g["exc"])
    w.seen("reading", g["tags"], g["exc"], g["done"], g["h"])


def scripts(w, no):
    """Histories of editing, rewriting and converting"""
    r = w.rng
    top = w.dir()
    root = os.path.join(top, "@@@@")
    os.mkdir(root)
    for f in ("a.mp3", "b.mp3"):
        put(os.path.join(root, f), marked(r, hostile(r) if r.random() < .3 else gen.file_bytes(r)[0]))
    copies(top, ("a.mp3", "b.mp3"))
    real = w.drv
    name, fn = r.choice((("tags", tags), ("v1", v1s), ("file", whole), ("file", whole), ("misc", stuff)))
    w._drv = Rec(real)
    try:
        fn(w, root)
    except (Violation, Bad):
        pass        # other properties' business; what was asked so far will do
    except (Crash, Hang):
        w.count("scripts that fail")        # asked of a damaged tag what it doesn't hold
        return
    finally:
        log, w._drv = w._drv.log, real
    real("reset")
    if not log:
        return
    x = real("again", *[hx(l) for l, _ in log])
    judge(w, x, name, [l[:160] for l, _ in log])
    w.count("requests", len(log))
    w.count("failures_on_the_way", x["exc"])
    w.seen("scripts", name, [l.split(" ")[0] for l, _ in log], x["exc"])


def broken(w, no):
    """Templates, names and encodings that cannot be met, and files that cannot be had"""
    r = w.rng
    root = w.dir()
    p = os.path.join(root, "a.mp3")
    put(p, gen.file_bytes(r)[0])
    gone = hx(os.path.join(root, "gone.mp3"))
    ls = []
    for _ in range(r.choice((1, 2, 4))):
        k = r.randrange(9)
        if k == 0:
            # (a malformed template is lost itself, once; here, files are)
            t = "".join(r.choice(("%(title)", "%T", "%(artist:v1-only)", "%(size:base=hex)", "%(md5)", " - ", "x", "(%(year))?", "%E", "%(content-type)", "%(album:prefer-v2&cap=all-upper)", "(%(encoded-by) of %A)?")) for _ in range(r.randint(1, 6)))
            ls.append("tbt %s %s" % (hx(t), hx(p)))
        elif k == 1:
            ls.append("tbt %s %s %s" % (hx("%(artist) %(title)"), gone, hx(p)))
        elif k == 2:
            ls.append("fileinfo " + gone)
        elif k == 3:
            ls += ["new 0 3 10", "rtcopy %s 0 0 0" % gone]
        elif k == 4:
            ls += ["v1new 0 0 0", "v1replace %s 0" % gone]
        elif k == 5:
            ls += ["new 0 4 10", "rtempl %s 0 0" % gone]
        elif k == 6:
            ls.append("xtagnew %s %s" % (hx(b"a@b.c"), hx(r.choice((b"a=b&=", b"&&", b"%", b"a=%zz", b"=,", b"a=b&c=d,e")))))
        elif k == 7:
            ls.append("conv2s %s %d %d %d" % (hx(gen.blob(r, 30)), r.randrange(40), r.randrange(40), r.randrange(3)))
        else:
            ls.append("encread " + hx(gen.asc(r, 8)) if r.random() < .5 else "langread " + hx(gen.asc(r, 8)))
    x = w.drv("again", *map(hx, ls))
    judge(w, x, "failing", ls)
    w.count("requests", len(ls))
    w.count("failures_on_the_way", x["exc"])
    w.seen("broken", [l.split(" ")[0] for l in ls], x["exc"])


def command(r, names):
    f = r.sample(names, r.randint(1, len(names))) if r.random() < .7 else ["@@@@"]
    if r.random() < .15:
        f.append("@@@@/gone.mp3")
    k = r.choice(("dump", "dump", "rename", "report", "popm", "text", "genre", "m3u", "xtag", "split"))
    o = []
    some = lambda *a: [x for x in a if r.random() < .3]
    if k == "dump":
        o = ["-f", r.choice(("standard", "csv", "json"))] + some("-1", "-2", "-D", "-g")
        if r.random() < .2:
            o += ["-e", r.choice(("T.*", "COMM", "(", "[", "APIC"))]
    elif k == "rename":
        o = ["-t", r.choice(("%(title).mp3", "%A-%T%E", "%(artist:v1-only)%(md5)%E", "%(size)x%E"))] + some("-n", "-v", "-r")
        if r.random() < .4:
            o += ["-o", r.choice(("out", "nodir/x"))]
    elif k == "report":
        o = ["-o", r.choice(("r.csv", "no/such/r.csv"))] + some("-t", "-a", "-S", "-d")
    elif k == "popm":
        o = r.choice((["-C", "3"], ["-i", "2"], ["-r", "***"], ["-r", "nope"], ["-C", "x"])) + some("-a", "-c", "-f", "-b", "-n", "-v", "-u", "-p")
        if "-r" in o or r.random() < .5:
            o += ["-o", "a@b.c"]
    elif k == "text":
        o = r.choice((["-a", "A"], ["-T", "Tü"], ["--delete=TALB"], ["-k", "3/4"], ["-E", "nope", "-a", "x"], ["-y", "1999", "-A", "B"])) + some("-C", "-c", "-b", "-v", "-u")
    elif k == "genre":
        o = r.choice((["-g", "Rock"], ["-w", "7"], ["-w", "300"], ["-g", "zzz"])) + some("-a", "-A", "-b", "-c", "-C", "-n", "-v", "-u")
    elif k == "m3u":
        o = r.choice(([], ["-o", "l.m3u"], ["-o", "no/l.m3u"], ["-8"])) + some("-v", "-a")
    elif k == "xtag":
        o = r.choice((["-g"], ["-T", "a=b&c"], ["-m", "-T", "x=y,z"], ["-T", "a=&&"])) + ["-o", r.choice(("a@b.c", "x"))] + some("-A", "-c", "-b", "-n", "-f", "-u")
    if r.random() < .15:
        o += ["-t", r.choice(("0", "1", "7"))] if k in ("popm", "text", "genre", "xtag") else []
    return [k] + o + f


def commands(w, no):
    r = w.rng
    d = w.dir()
    os.mkdir(os.path.join(d, "out"))
    os.mkdir(os.path.join(d, "@@@@"))
    names = ["f%d.mp3" % i for i in range(r.choice((1, 2, 3)))]
    for n in names:
        put(os.path.join(d, "@@@@", n), marked(r, hostile(r) if r.random() < .4 else gen.file_bytes(r)[0]))
    copies(d, names)
    cmd = command(r, ["@@@@/" + n for n in names])
    o = os.path.join(w.scratch, "o")
    os.makedirs(o, exist_ok=True)
    x = w.drv("cliagain", hx(o), hx(d), 60, *map(hx, cmd))
    w.check(x["sig"] == 0 and x["rc"] in (0, 1, 2), "command died", "%r: %r" % (cmd, x))
    judge(w, x, cmd[0], cmd)
    w.count("commands")
    w.count("failures_on_the_way", x["rc"] != 0)
    w.seen("commands", cmd[:3], x["rc"], len(cmd))


def guile(w):
    if not hasattr(w, "scm"):
        d = os.path.join(w.scratch, "scm")
        os.mkdir(d)
        w.scm = Drv(SCM[0], d, env=c23.ENV, timeout=w.chk.timeout)
    return w.scm


SCM = []


def build():
    SCM.append(c23.build())
    return builder.Builder("asan").build("drv-cli-names", vlib.HARNESS_CLI + ["drv_names.cc"], cli=True)


def scheme(w, no):
    """Files from Scheme, where a failure leaves by a way of its own"""
    r = w.rng
    d = w.dir()
    names = [os.path.join(d, "f%d.mp3" % i) for i in range(r.choice((1, 2, 3)))]
    for n in names:
        put(n, hostile(r) if r.random() < .6 else gen.file_bytes(r)[0])
    names.append(os.path.join(d, "gone.mp3"))
    ask = []
    for _ in range(r.choice((1, 1, 2, 4))):
        p = c23.sstr(r.choice(names))
        ask.append(r.choice((
            "(read-tagset %s)" % p, "(read-tagset %s)" % p, "(read-id3v1-tag %s)" % p,
            "(let ((n 0)) (with-track-in %s (lambda (tags path v1) (set! n (+ n (length tags))))) n)" % c23.sstr(d),
            "(write-tagset (pairs (read-tagset %s)) %s)" % (p, p),
            "(write-tagset '((3 3)) %s)" % p,
            "(write-tagset (list (list (make <id3v2-tag> #:frames '(x)) 3)) %s)" % p,
            "(write-id3v1-tag (make <id3v1-tag> #:title \"x\") %s)" % p,
            "(write-id3v1-tag 3 %s)" % p)))
    drv = guile(w)
    fds, failed = [], 0
    for _ in range(7):
        for x in drv.batch(ask):
            failed += is_ex(x)
        drv.batch(["(begin (gc) 1)"])
        fds.append(len(os.listdir("/proc/%d/fd" % drv.p.pid)))
    w.check(not grows(fds), "descriptors lost: Scheme", "%s: open after each time %r" % (ask, fds))
    w.count("repetitions", len(fds))
    w.count("requests", len(ask))
    w.count("failures_on_the_way", failed)
    w.seen("scheme", [a.split(" ")[0] for a in ask], failed)


if __name__ == "__main__":
    sys.exit(Check("C34", [("reading", reading, 2400, 80000), ("scripts", scripts, 1600, 60000), ("broken", broken, 600, 20000),
                           ("commands", commands, 1000, 40000),
                           ("scheme", scheme, 600, 20000)],
                   "Reading, editing, rewriting, failing and whole commands, each repeated in one process while the allocator's count of "
                   "live bytes and the table of open descriptors are read after every repetition; an observation is distinct when the "
                   "requests made or their outcomes differ.",
                   exe_builder=build,
                   env={"LANGUAGE": "en"}, timeout=60).main())
