#!/usr/bin/env python3
"""C32: ripping a list of tracks encodes and tags every one of them as asked.

contrib/rip-tracks is run as it is, with the real scribbu (under ASan and UBSan)
and a stand-in for LAME that writes down what it was asked to encode.  What the
stand-in wrote down and the files left behind are compared with the list.
"""
import os, subprocess, sys

sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import builder
from vlib import Check, Crash, Hang, summarise_report
from files import snapshot, put, get
from id3 import parse_tag, Malformed

ASAN = "detect_leaks=0:exitcode=77:detect_stack_use_after_return=0:allocator_may_return_null=1:handle_abort=1"
LAME = """#!/bin/bash
{ printf '%s\\0' "$@"; echo; } >> "$VERIF_LOG"
in="${@: -2:1}" out="${@: -1}"
if grep -q BROKEN "$in"; then echo "lame: $in: cannot be encoded" >&2; exit 3; fi
{ printf '\\377\\373\\220\\144'; cat < "$in"; } > "$out"
"""
SCRIBBU = """#!/bin/sh
exec %s "$@"
"""
WORDS = ["Song", "Two Words", "It's", 'a "Best" one', "a $HOME b", "100%", "x=y", "Café", "back\\slash", "\\t", "`id`", "$(id)", "star *", "#1",
         "-dash", "--title", "semi;colon", "a&b", "(par)", "[a-z]", "~", "!", "42", "a\\\\b", "comma, The", "été"]


class Rip:
    def __init__(self, w):
        self.w, self.top = w, w.dir()
        for d in ("c", "bin", "tmp"):
            os.mkdir(os.path.join(self.top, d))
        self.cwd = os.path.join(self.top, "c")
        self.log = os.path.join(self.top, "log")
        for n, s in (("lame", LAME), ("scribbu", SCRIBBU % w.chk.exe)):
            put(os.path.join(self.top, "bin", n), s.encode(), 0o755)
        src = get(os.path.join(builder.REPO, "contrib", "rip-tracks.in"))
        self.script = os.path.join(self.top, "bin", "rip-tracks")
        put(self.script, src.replace(b"@PACKAGE_VERSION@", b"0.0.0"), 0o755)

    def file(self, name, b):
        put(os.path.join(self.cwd, name), b if isinstance(b, bytes) else b.encode())

    def run(self, args):
        """(status, stdout, stderr, what was to be encoded)"""
        e = {"PATH": os.path.join(self.top, "bin") + ":/usr/bin:/bin", "HOME": self.top, "LC_ALL": "C.UTF-8", "VERIF_LOG": self.log,
             "TMPDIR": os.path.join(self.top, "tmp"), "GUILE_AUTO_COMPILE": "0",
             "GUILE_LOAD_PATH": os.path.join(builder.REPO, "scheme"), "ASAN_OPTIONS": ASAN,
             "UBSAN_OPTIONS": "print_stacktrace=1:halt_on_error=1:exitcode=77"}
        try:
            p = subprocess.run(["bash", self.script] + args, cwd=self.cwd, env=e, stdin=subprocess.DEVNULL,
                               stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=120)
        except subprocess.TimeoutExpired:
            raise Hang()
        err = p.stderr.decode("utf8", "replace")
        if p.returncode == 77 or "runtime error:" in err or "AddressSanitizer" in err or "terminate called" in err:
            raise Crash(*summarise_report(err, p.returncode), err)
        log = []
        if os.path.exists(self.log):
            log = [x.decode("utf8", "surrogateescape").split("\0") for x in get(self.log).split(b"\0\n") if x]
        return p.returncode, p.stdout.decode("utf8", "replace"), err, log


def word(r, year=False):
    return r.choice(WORDS) if r.random() < .6 else " ".join("".join(r.choice("abcdeXYZ0189") for _ in range(r.randrange(1, 7)))
                                                            for _ in range(r.randrange(1, 4)))


def given(r, short, name, val):
    """An option and its value, one way or another"""
    long = "--" + name[:r.randrange({"album": 2, "artist": 3, "genre": 2, "template": 4, "year": 2}[name], len(name) + 1)]
    o = r.choice((short, long, long))
    return [o + "=" + val] if r.random() < .5 else [o, val]


def cap(s):
    """Fields are capitalized unless the template says otherwise."""
    return s[:1].upper() + s[1:] if s[:1].isascii() else s


TEMPLATES = [("%T.mp3", lambda t, a: cap(t) + ".mp3"), ("%A - %T.mp3", lambda t, a: "%s - %s.mp3" % (cap(a), cap(t))),
             ("x %(title)", lambda t, a: "x " + cap(t)), ("%(artist)\\=%(title).mp3", lambda t, a: "%s=%s.mp3" % (cap(a), cap(t)))]


def rip(w, no):
    r, p = w.rng, Rip(w)
    album, year, genre = (x if r.random() < .6 else None for x in (word(r), str(r.randrange(1900, 2030)), r.choice(("Rock", word(r)))))
    artist = word(r) if r.random() < .7 else None
    tmpl, name = r.choice(TEMPLATES)
    tracks, names, lines = [], set(), []
    n = r.choice((0, 1, 1, 2, 2, 3))
    bad = r.randrange(n) if n and r.random() < .25 else None
    for i in range(n):
        wav = r.choice(("t%d.wav", "track %d.wav", "a'%d.wav", "%d [x].wav", "é%d.wav")) % i
        own = word(r) if artist is None or r.random() < .3 else None
        t = word(r)
        while not own and name(t, artist) in names or own and name(t, own) in names:
            t = word(r) + " " + str(r.randrange(10 ** 6))
        k = r.choice((str(i + 1), "%d/%d" % (i + 1, n), "%02d" % (i + 1)))
        fields = [wav, t, k] + ([own] if own else [])
        data = "".join(r.choice("abc \n") for _ in range(r.choice((0, 10, 700, 5000))))
        why = None
        if bad == i:
            why = r.choice(("encoder", "fields", "artist") if artist is None else ("encoder", "fields"))
            if why == "encoder":
                data += "BROKEN\n"
            elif why == "artist":
                fields = fields[:3]
            else:
                fields = fields[:r.choice((1, 2))]
        p.file(wav, data)
        names.add(name(t, own or artist or ""))
        tracks.append((wav, t, k, own or artist, data.encode(), why))
        while r.random() < .2:
            lines.append(r.choice(("# a comment", "#", "", "   ", "\t", "  # x\ty\tz\tw", "#t9.wav\tNo\t9\tNobody")))
        lines.append("\t".join(fields))
    if r.random() < .3:
        lines.append(r.choice(("", "# the end")))
    body = "\n".join(lines) + ("" if r.random() < .3 else "\n")
    lst = r.choice(("list", "a list.txt", "the \"list\"", "l$x", "l;ist"))
    p.file(lst, body)
    p.file("bystander.mp3", b"ID3" + bytes(50))
    before = snapshot(p.cwd)
    opts = []
    for s, nm, v in (("-A", "artist", artist), ("-a", "album", album), ("-y", "year", year), ("-g", "genre", genre), ("-t", "template", tmpl)):
        if v is not None:
            opts.append(given(r, s, nm, v))
    loud = r.choice(("", "", "-s", "--silent", "-v", "--verbose"))
    if loud:
        opts.append([loud])
    r.shuffle(opts)
    args = sum(opts, []) + [lst]
    what = "%r with %r" % (args, body)
    rc, out, err, log = p.run(args)
    done = next((i for i, t in enumerate(tracks) if t[5]), len(tracks))
    if done == len(tracks):
        w.eq(rc, 0, "not a success", what + ": " + err[-400:])
    else:
        w.check(rc != 0, "a failure that is not one", what)
        w.check(os.fsencode(tracks[done][0]).decode() in err, "no message naming the track", "%r: %s" % (err, what))
    asked = [x[-2] if len(x) > 1 else None for x in log]
    w.eq(asked, [t[0] for i, t in enumerate(tracks) if i < done or i == done and t[5] == "encoder"], "not the tracks that were to be encoded", what)
    after = snapshot(p.cwd)
    want = {name(t[1], t[3]) for t in tracks[:done]}
    w.eq(sorted(set(after) - set(before)), sorted(want), "files made", what)
    w.eq({k: after.get(k) for k in before}, before, "files that were there", what)
    w.eq(os.listdir(os.path.join(p.top, "tmp")), [], "temporary files left", what)
    for wav, t, k, a, data, _ in tracks[:done]:
        f = name(t, a)
        b = get(os.path.join(p.cwd, f))
        try:
            tag, cb = parse_tag(b)
        except Malformed as ex:
            w.check(False, "no tag", "%s: %s: %s" % (f, ex, what))
        w.eq(b[cb:], b"\xff\xfb\x90\x64" + data, "not what was encoded", f + ": " + what)
        got = {}
        for fr in tag.frames:
            w.check(fr.id not in got and fr.payload[:1] == b"\0", "frames", "%s: %s" % (f, what))
            got[fr.id] = fr.payload[1:].decode("latin-1")
        enc = got.pop("TENC", None)
        w.check(enc and "LAME" in enc, "encoder not named", "%s: %r: %s" % (f, enc, what))
        exp = {"TPE1": a, "TIT2": t, "TRCK": k, "TALB": album, "TYER": year, "TCON": genre}
        w.eq({i: x.rstrip(" ") for i, x in got.items()}, {i: x.rstrip(" ") for i, x in exp.items() if x is not None}, "tags", f + ": " + what)
        w.count("tracks")
    if loud in ("-s", "--silent"):
        w.eq(out, "", "output in spite of --silent", what)
    w.seen(tuple(args), body)
    w.sample("%s -> %s, %d tracks" % (what[:200], rc, done))


def mistakes(w, no):
    """Mistakes and requests for help encode and change nothing."""
    r, p = w.rng, Rip(w)
    p.file("t.wav", "abc")
    p.file("list", "t.wav\tTitle\t1\tSomebody\n")
    before = snapshot(p.cwd)
    k = r.randrange(6)
    t = given(r, "-t", "template", "%T.mp3")
    line, want = [(["-h"], 0), (["--help"], 0), (["-V"], 0), (["--version"], 0)][r.randrange(4)] if k < 2 else \
        [(t + [r.choice(("-Z", "--bogus", "--albumen=x"))], 2), (t + ["-s", "-v"], 2), ([], 1), (t, 1)][k - 2]
    args = line + (["nosuch"] if k == 5 else ["list"])
    what = repr(args)
    rc, out, err, log = p.run(args)
    w.check(rc == 0 if want == 0 else rc != 0, "status", "%d: %s" % (rc, what))
    if want == 0:
        w.check("rip-tracks" in out and err == "", "no help", "%r %r: %s" % (out[:100], err, what))
    else:
        w.check(err.strip() != "", "no message", what)
    w.eq((log, snapshot(p.cwd)), ([], before), "something was done", what)
    w.eq(os.listdir(os.path.join(p.top, "tmp")), [], "temporary files left", what)
    w.seen(tuple(args))


def build():
    return builder.Builder("asan").build("scribbu-main", [], cli=True, cli_main=True, scheme=True)


if __name__ == "__main__":
    sys.exit(Check("C32", [("rip", rip, 96, 3000), ("mistakes", mistakes, 64, 400)],
                   "distinct lists of tracks and command lines given to rip-tracks",
                   exe_builder=build, timeout=150,
                   assumptions=["LAME is a stand-in that writes down its arguments", "the shell and perl are those installed"]).main())
