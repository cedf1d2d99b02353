"""Builds scribbu's sources, straight from /repo's working tree, under the
instrumentation a check needs, together with the harness sources in
/verif/harness.  Every translation unit is compiled on every call; ccache
(which hashes content, so it always sees a change) makes that cheap."""
import fcntl, os, re, shlex, shutil, subprocess, sys, hashlib
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
BUILD = os.path.join(VERIF, "build")
CXX = "/usr/bin/g++"
JOBS = int(os.environ.get("VERIF_JOBS", str(os.cpu_count() or 8)))

SAN = {
    "asan": ["-fsanitize=address,undefined", "-fno-sanitize-recover=all",
             "-fno-sanitize=vptr", "-D_GLIBCXX_ASSERTIONS", "-ftrivial-auto-var-init=pattern"],
    "tsan": ["-fsanitize=thread"],
    "plain": ["-D_GLIBCXX_ASSERTIONS"],
    "cov": ["-D_GLIBCXX_ASSERTIONS", "--coverage", "-fprofile-abs-path"],
}
SCHEME_TUS = {"dynwind-context", "scheme", "scheme-serde"}


class BuildError(Exception):
    """The tree could not be built (so nothing can be decided)."""


def _run(cmd, **kw):
    p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, **kw)
    if p.returncode:
        raise BuildError("%s\n%s" % (" ".join(cmd), p.stdout.decode(errors="replace")[-6000:]))
    return p.stdout.decode(errors="replace")


def lib_sources():
    """The library's translation units, from its own makefile."""
    txt = open(os.path.join(REPO, "scribbu/Makefile.am")).read().replace("\\\n", " ")
    m = re.search(r"^libscribbu_la_SOURCES\s*=(.*)$", txt, re.M)
    return [f for f in m.group(1).split() if f.endswith((".cc", ".yy", ".ll"))]


def cli_sources():
    txt = open(os.path.join(REPO, "src/Makefile.am")).read().replace("\\\n", " ")
    m = re.search(r"^scribbu_SOURCES\s*=(.*)$", txt, re.M)
    return [f for f in m.group(1).split() if f.endswith(".cc")]


_guile = None


def guile_flags():
    global _guile
    if _guile is None:
        c = _run(["pkg-config", "--cflags", "guile-3.0"]).split()
        l = _run(["pkg-config", "--libs", "guile-3.0"]).split()
        _guile = (c, l)
    return _guile


class Builder:
    def __init__(self, variant):
        self.variant = variant
        self.dir = os.path.join(BUILD, variant)
        self.gen = os.path.join(self.dir, "gen", "scribbu")
        self.obj = os.path.join(self.dir, "obj")
        for d in (self.gen, self.obj):
            os.makedirs(d, exist_ok=True)
        self.env = dict(os.environ, CCACHE_DIR=os.path.join(BUILD, "ccache"),
                        CCACHE_MAXSIZE="3G", LC_ALL="C.UTF-8", TMPDIR=self.dir)
        self.env.pop("CCACHE_DISABLE", None)
        self.cc = ([shutil.which("ccache")] if shutil.which("ccache") else []) + [CXX]
        self.flags = (["-std=c++20", "-O1", "-g1", "-fno-omit-frame-pointer", "-w",
                       "-Wno-register"] + SAN[variant] +
                      ["-I" + os.path.join(VERIF, "harness", "include"),
                       "-I" + os.path.dirname(self.gen), "-I" + self.gen, "-I" + REPO, "-I" + os.path.join(REPO, "scribbu"),
                       "-I" + os.path.join(REPO, "src"),
                       '-DDATADIR="/usr/local/share"'] + guile_flags()[0])

    def _generate(self, want_scheme):
        s = os.path.join(REPO, "scribbu")
        g = self.gen
        # as the package's own build does: both run in the build directory, so
        # that the %option-named headers land there
        _run(["bison", "-d", "-o", "tbt-parser.cc", os.path.join(s, "tbt-parser.yy")], cwd=g, env=self.env)
        _run(["flex", "-o", "tbt-lexer.cc", os.path.join(s, "tbt-lexer.ll")], cwd=g, env=self.env)
        if want_scheme:
            _run(["guile-snarf", "-o", os.path.join(g, "scheme.x"), os.path.join(s, "scheme.cc")] +
                 self.flags, cwd=g, env=self.env)

    def _compile(self, src, obj):
        _run(self.cc + self.flags + ["-c", src, "-o", obj], env=self.env, cwd=self.dir)
        return obj

    def build(self, name, harness, cli=False, cli_main=False, scheme=False, extra_libs=()):
        """Link bin/<name> from the library (+ CLI) sources and harness files."""
        with open(os.path.join(self.dir, ".lock"), "w") as lk:
            fcntl.flock(lk, fcntl.LOCK_EX)
            self._generate(scheme)
            jobs = []
            for f in lib_sources():
                stem = os.path.splitext(f)[0]
                if stem in SCHEME_TUS and not scheme:
                    continue
                src = (os.path.join(self.gen, stem + ".cc") if f.endswith((".yy", ".ll"))
                       else os.path.join(REPO, "scribbu", f))
                jobs.append((src, os.path.join(self.obj, "lib-" + stem + ".o")))
            if cli:
                for f in cli_sources():
                    if f == "scribbu.cc" and not cli_main:
                        continue
                    jobs.append((os.path.join(REPO, "src", f),
                                 os.path.join(self.obj, "cli-" + f[:-3] + ".o")))
            for f in harness:
                jobs.append((os.path.join(VERIF, "harness", f),
                             os.path.join(self.obj, "h-" + f[:-3] + ".o")))
            # biggest first, for packing
            jobs.sort(key=lambda j: -os.path.getsize(j[0]))
            with ThreadPoolExecutor(JOBS) as ex:
                objs = list(ex.map(lambda j: self._compile(*j), jobs))
            bindir = os.path.join(self.dir, "bin")
            os.makedirs(bindir, exist_ok=True)
            out = os.path.join(bindir, name)
            tmp = out + ".tmp%d" % os.getpid()
            libs = ["-lboost_iostreams", "-lboost_filesystem", "-lboost_log", "-lboost_regex",
                    "-lboost_system", "-lboost_program_options", "-lboost_thread", "-lcrypto",
                    "-lssl", "-lz", "-lunistring", "-lpthread"]
            if scheme:
                libs += guile_flags()[1]
            _run([CXX] + SAN[self.variant] + ["-g1", "-o", tmp] + objs + libs + list(extra_libs),
                 env=self.env)
            os.replace(tmp, out)
            return out


if __name__ == "__main__":
    # setup_cmd: runs share nothing, so every check builds for itself; here, just
    # make sure that what they need is present
    for t in (CXX, "bison", "flex", "guile-snarf", "pkg-config"):
        if not shutil.which(t):
            sys.exit("missing tool: " + t)
    print("%d library and %d command sources; Guile %s" %
          (len(lib_sources()), len(cli_sources()), " ".join(guile_flags()[1])))
