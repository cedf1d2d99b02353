"""Random edits of a tag held by the driver, mirrored in a model tag."""
import copy
from model import *
from vlib import hx
import gen

# text fields by the names id3v2_text_frames reads, with their ids
FIELDS = {n.lower(): n for n in TEXT3}
FIELD2 = {"talb": "TAL", "tbpm": "TBP", "tcom": "TCM", "tcon": "TCO", "tcop": "TCR", "tdat": "TDA", "tdly": "TDY",
          "tenc": "TEN", "text": "TXT", "tflt": "TFT", "time": "TIM", "tit1": "TT1", "tit2": "TT2", "tit3": "TT3",
          "tkey": "TKE", "tlan": "TLA", "tlen": "TLE", "tmed": "TMT", "toal": "TOT", "tofn": "TOF", "toly": "TOL",
          "tope": "TOA", "tory": "TOR", "tpe1": "TP1", "tpe2": "TP2", "tpe3": "TP3", "tpe4": "TP4", "tpos": "TPA",
          "tpub": "TPB", "trck": "TRK", "trda": "TRD", "tsiz": "TSI", "tsrc": "TRC", "tsse": "TSS", "tyer": "TYE"}
# fields ID3v2.2 does not have: refused (with an exception)
REFUSED2 = ("town", "trsn", "trso")
LANGS = ("eng", "fra", "deu", "spa", "jpn")


def field_id(ver, name):
    if name in NAMES:
        return NAMES[name][ver - 2]
    return FIELD2.get(name) if ver == 2 else FIELDS[name]


def spec(f):
    return "P", hx(f.id), hx(f.payload)


def plain(r, ver, kinds=None):
    """A frame as the driver makes it from a payload"""
    f = gen.frame(r, ver, kinds)
    f.tap = f.fap = f.ro = 0
    f.gid, f.cmp, f.dli, f.unsync = None, False, False, False
    return f


def payload_of(d, ver):
    """The payload of a dumped text-like frame"""
    k = d["k"]
    p = bytes([d["uni"]])
    if k == "text":
        return p + ux(d["raw"])
    nul = b"\0\0" if d["uni"] in (1, 2) else b"\0"
    if k == "comm":
        p += ux(d["lang"])
    return p + ux(d["draw"]) + nul + ux(d["raw"])


def same(d, f):
    """Is dumped frame D model frame F? (identity and raw contents only)"""
    if ux(d["id"]) != f.id.encode("latin-1") or d["size"] != len(f.payload):
        return False
    fx = facts(f)
    if fx is None or d["k"] != f.kind:
        return fx is None
    for k in ("raw", "draw", "owner", "data", "lang"):
        if k in fx and ux(d[k]) != fx[k]:
            return False
    for k in ("count", "rating", "uni", "sym"):
        if k in fx and d[k] != fx[k]:
            return False
    return True


def differ(d, t):
    """Index ranges where the dump and the model disagree, ignoring a tail"""
    return [i for i, f in enumerate(t.frames) if i >= len(d["frames"]) or not same(d["frames"][i], f)]


def ok(w, r, what):
    w.check(not is_ex(r), "edit failed: " + what, "%s: %r" % (what, r))
    return r


def adopt_text(w, d, t, idx, s, what, new=False):
    """Dumped frame IDX should be a text frame saying S; take its bytes into the model"""
    x = d["frames"][idx]
    w.eq(x["k"], "text", "edited frame's kind", what)
    w.eq(kind_of(t.ver, ux(x["id"]).decode("latin-1")), "text", "edited frame's id", what)
    f = Fr(t.ver, ux(x["id"]).decode("latin-1"), payload_of(x, t.ver))
    fx = facts(f)
    w.check(fx is not None and fx["str"] == s, "text set", "%s: frame holds %r, want %r" % (what, f.payload, s))
    return f


def words(r, ver):
    return gen.text(r, ver, r.choice((0, 0, 3)), 24, empty=True).rstrip(" ")


class Ed:
    """A tag in the driver under handle H and its model T"""
    def __init__(self, w, h, t):
        self.w, self.h, self.t, self.log = w, h, t, []

    def step(self, only=None):
        r, w, t, h, ver = self.w.rng, self.w, self.t, self.h, self.t.ver
        n = len(t.frames)
        ops = ["push", "push", "insert", "settext", "settext", "addcomment", "addudt", "pad"]
        if n:
            ops += ["replace", "erase", "erase", "range", "settext", "deltext", "mutate", "mutate", "mutate"]
        if only:
            ops = [o for o in ops if o in only]
        op = r.choice(ops)
        if n > 40 and op in ("push", "insert"):
            op = "range"
        self.log.append(op)
        w.count("edit " + op)
        before = [copy.copy(f) for f in t.frames]
        at = "edit %d (%s)" % (len(self.log), op)
        if op == "push":
            f = plain(r, ver)
            ok(w, w.drv("push", h, r.randrange(2), *spec(f)), op)
            t.frames.append(f)
        elif op == "insert":
            f, i = plain(r, ver), r.choice((0, n, r.randint(0, n)))
            x = ok(w, w.drv("insert", h, r.randrange(2), i, *spec(f)), op)
            w.eq(x["at"], i, "iterator returned by insert", at)
            t.frames.insert(i, f)
        elif op == "replace":
            f, i = plain(r, ver), r.randrange(n)
            ok(w, w.drv("replace", h, r.randrange(2), i, *spec(f)), op)
            t.frames[i] = f
        elif op == "erase":
            i = r.randrange(n)
            x = ok(w, w.drv("erase", h, i), op)
            w.eq(x["at"], i, "iterator returned by erase", at)
            del t.frames[i]
        elif op == "range":
            i = r.randint(0, n)
            j = r.randint(i, n)
            x = ok(w, w.drv("erase", h, i, j), op)
            w.eq(x["at"], i, "iterator returned by erase of a range", at)
            del t.frames[i:j]
        elif op == "pad":
            p = r.choice((0, 1, 2, 10, 100, 511, 512, 513, 1024, 1025, 5000))
            ok(w, w.drv("pad", h, p), op)
            t.pad = p
            if ver == 3 and t.ext:
                t.ext["pad"] = p
        elif op == "settext":
            if r.random() < .6 and n:
                have = {f.id for f in t.frames}
                c = [k for k in list(NAMES) + list(FIELDS) if field_id(ver, k) in have]
                name = r.choice(c or list(NAMES))
            else:
                name = r.choice(list(NAMES) + list(NAMES) + list(FIELDS))
            self.settext(name, words(r, ver), at)
        elif op == "deltext":
            if r.random() < .8:
                have = {f.id for f in t.frames}
                c = [k for k in FIELDS if field_id(ver, k) in have]
            else:
                c = list(FIELDS)
            self.deltext(r.choice(c or list(FIELDS)), at)
        elif op == "addcomment":
            s, d, u, l = words(r, ver), words(r, ver), r.randrange(2), r.choice(LANGS)
            x = w.drv("addcomment", h, l, hx(s), hx(d), u)
            self.added(x, "comm", {"lang": l.encode(), "str": s, "dsc": d}, not u, at)
        elif op == "addudt":
            s, d, u = words(r, ver), words(r, ver), r.randrange(2)
            x = w.drv("addudt", h, hx(s), hx(d), u)
            self.added(x, "txxx", {"str": s, "dsc": d}, not u, at)
        elif op == "mutate":
            self.mutate(at)
        return op

    def added(self, x, kind, fx, latin, at):
        """A frame built from strings should now end the tag"""
        w, t = self.w, self.t
        if is_ex(x):
            # refused: only because the text does not fit the encoding asked for
            s = fx["str"] + fx["dsc"]
            unfit = any(ord(c) > 0xff for c in s) if latin else any(ord(c) > 0xffff for c in s)
            w.check(unfit, "edit failed: " + kind, "%s: %r for %r" % (at, x, fx))
            return
        d = w.drv("dump", self.h)
        w.eq(d["nf"], len(t.frames) + 1, "number of frames", at)
        y = d["frames"][-1]
        w.eq(y["k"], kind, "kind of the added frame", at)
        f = Fr(t.ver, IDS[kind][t.ver - 2], payload_of(y, t.ver))
        w.eq(ux(y["id"]), f.id.encode(), "id of the added frame", at)
        g = facts(f)
        for k, v in fx.items():
            w.check(g is not None and g[k] == v, "added " + kind + " " + k, "%s: frame holds %r, want %r" % (at, f.payload, fx))
        t.frames.append(f)

    def settext(self, name, s, at):
        w, t, h, ver = self.w, self.t, self.h, self.t.ver
        fid = field_id(ver, name)
        x = w.drv("settext", h, name, hx(s))
        if is_ex(x):
            why = (ver == 2 and name in REFUSED2) or (ver < 4 and any(ord(c) > 0xffff for c in s))
            w.check(why, "edit failed: settext", "%s: %s=%r: %r" % (at, name, s, x))
            w.eq(differ(w.drv("dump", h), t), [], "tag changed by a refused edit", at)
            return
        d = w.drv("dump", h)
        idx = [i for i, f in enumerate(t.frames) if f.id == fid and f.kind == "text"]
        if not idx:
            w.eq(d["nf"], len(t.frames) + 1, "frames after setting a new field", "%s %s" % (at, name))
            t.frames.append(adopt_text(w, d, t, len(t.frames), s, at + " " + name))
            w.eq(t.frames[-1].id, fid, "id of the field set", at)
            return
        w.eq(d["nf"], len(t.frames), "frames after setting an existing field", "%s %s" % (at, name))
        # one of them has it now
        for i in idx:
            y = d["frames"][i]
            if y["k"] != "text":
                continue
            f = copy.copy(t.frames[i])
            f.payload = payload_of(y, ver)
            g = facts(f)
            if g is not None and g["str"] == s:
                u = copy.copy(t)
                u.frames = list(t.frames)
                u.frames[i] = f
                if not differ(d, u):
                    t.frames[i] = f
                    return
        w.check(False, "text set", "%s: no %s frame (and nothing else) became %r" % (at, fid, s))

    def deltext(self, name, at):
        w, t, h, ver = self.w, self.t, self.h, self.t.ver
        fid = field_id(ver, name)
        x = w.drv("deltext", h, name)
        if is_ex(x):
            w.check(ver == 2 and name in REFUSED2, "edit failed: deltext", "%s: %s: %r" % (at, name, x))
            w.eq(differ(w.drv("dump", h), t), [], "tag changed by a refused edit", at)
            return
        d = w.drv("dump", h)
        idx = [i for i, f in enumerate(t.frames) if f.id == fid]
        # of several, one or all may go
        for drop in [(i,) for i in idx] + [tuple(idx)]:
            u = copy.copy(t)
            u.frames = [f for i, f in enumerate(t.frames) if i not in drop]
            if d["nf"] == len(u.frames) and not differ(d, u):
                t.frames = u.frames
                return
        w.check(False, "field deleted", "%s: %s %s" % (at, name, [y["id"] for y in d["frames"]]))

    def mutate(self, at):
        r, w, t, h = self.w.rng, self.w, self.t, self.h
        c = [i for i, f in enumerate(t.frames) if f.kind in ("pcnt", "popm", "comm", "text", "xtag") and facts(f)]
        if not c:
            return
        i = r.choice(c)
        f = copy.copy(t.frames[i])
        fx = facts(f)
        if f.kind == "pcnt":
            if r.random() < .5:
                n = gen.counter(r)
                ok(w, w.drv("mutate", h, i, "count", n), "count")
            else:
                n = fx["count"] + 1
                ok(w, w.drv("mutate", h, i, "inc"), "inc")
            cb = w.drv("dump", h)["frames"][i]["size"]
            w.check(0 <= cb <= 8 and n < 1 << 8 * cb, "counter width", "%s: %d in %d bytes" % (at, n, cb))
            f.payload = be(n, cb)
        elif f.kind == "popm":
            what = r.choice(("count", "inc", "rating"))
            n = fx["count"]
            if what == "rating":
                v = r.randrange(256)
                ok(w, w.drv("mutate", h, i, "rating", v), "rating")
                f.payload = fx["owner"] + b"\0" + bytes([v]) + fx["cbytes"]
            elif what == "count":
                n = gen.counter(r)
                ok(w, w.drv("mutate", h, i, "count", n), "count")
            else:
                ok(w, w.drv("mutate", h, i, "inc"), "inc")
                n += 1
            if what != "rating":
                # the counter's width is up to scribbu
                cb = w.drv("dump", h)["frames"][i]["size"] - len(fx["owner"]) - 2
                w.check(0 <= cb <= 8 and n < 1 << 8 * cb, "counter width", "%s: %d in %d bytes" % (at, n, cb))
                f.payload = fx["owner"] + b"\0" + bytes([fx["rating"]]) + be(n, cb)
        elif f.kind == "text":
            s = words(r, t.ver)
            x = w.drv("mutate", h, i, "set", hx(s))
            if is_ex(x):
                w.check(t.ver < 4 and any(ord(c) > 0xffff for c in s), "edit failed: set", "%s: %r: %r" % (at, s, x))
            else:
                d = w.drv("dump", h)
                f.payload = adopt_text(w, d, t, i, s, at).payload
        elif f.kind == "comm":
            what, s = r.choice(("text", "dsc")), words(r, t.ver)
            x = w.drv("mutate", h, i, what, hx(s))
            if is_ex(x):
                lim = 0xff if fx["uni"] == 0 else 0xffff
                w.check(any(ord(c) > lim for c in s), "edit failed: comment", "%s: %r: %r" % (at, s, x))
            else:
                d = w.drv("dump", h)
                f.payload = payload_of(d["frames"][i], t.ver)
                g = facts(f)
                want = dict(fx)
                want["str" if what == "text" else "dsc"] = s
                w.check(g is not None, "edited comment", "%s: %r" % (at, f.payload))
                w.eq((g["lang"], g["dsc"], g["str"]), (want["lang"], want["dsc"], want["str"]), "edited comment", at)
        elif f.kind == "xtag":
            k, v = gen.asc(r, 4, 1), gen.asc(r, 4, 1)
            if fx["cloud"] and r.random() < .5:
                k = r.choice(sorted(fx["cloud"]))
                if fx["cloud"][k] and r.random() < .3:
                    v = r.choice(sorted(fx["cloud"][k]))
            cl = {a: set(b) for a, b in fx["cloud"].items()}
            if r.random() < .3:
                x = ok(w, w.drv("mutate", h, i, "addkey", hx(k)), "addkey")
                w.eq(x["r"], k not in cl, "add_key says whether it was new", at)
                cl.setdefault(k, set())
            else:
                x = ok(w, w.drv("mutate", h, i, "addval", hx(k), hx(v)), "addval")
                w.eq(x["r"], v not in cl.get(k, ()), "add_value says whether it was new", at)
                cl.setdefault(k, set()).add(v)
            f.payload = enc_xtag(fx["owner"], cl)
        t.frames[i] = f

    def verify(self, pre=""):
        d = self.w.drv("dump", self.h)
        self.w.check(not is_ex(d), "dump", "%r" % (d,))
        check_tag(self.w, d, self.t, pre + " after %s" % ",".join(self.log[-6:]))
        return d
