// The sub-commands, each run in a forked child of this (already initialised)
// process, with its own working directory and captured output.
#include "drv.hh"
#include "command-utilities.hh"
#include <unistd.h>
#include <fcntl.h>
#include <sys/wait.h>
#include <sys/types.h>
#include <fstream>
#include <iostream>
#include <sys/resource.h>
#include <signal.h>

#include <dirent.h>
#if defined(__SANITIZE_ADDRESS__)
extern "C" std::size_t __sanitizer_get_current_allocated_bytes();
#endif

namespace drv {
  static const int REPEATS = 7;
  // each time may be on other files, or other contents: what they have in place of a number
  static void number(std::string &s, const std::string &mark, int i) {
    char b[8]; snprintf(b, sizeof b, "%04d", i); std::string n = mark.size() == 4 ? std::string(b) : hex(std::string(b));
    for (std::size_t p = 0; (p = s.find(mark, p)) != std::string::npos; p += mark.size()) s.replace(p, mark.size(), n);
  }
  // what the process holds: bytes allocated, and open descriptors
  struct footprint {
    long long bytes = 0, fds = 0;
    footprint() {}
    explicit footprint(bool) {
#if defined(__SANITIZE_ADDRESS__)
      bytes = __sanitizer_get_current_allocated_bytes();
#endif
      DIR *d = opendir("/proc/self/fd"); while (d && readdir(d)) ++fds; if (d) closedir(d);
    }
  };
  static std::string slurp(const std::string &p) {
    std::ifstream ifs(p, std::ios::binary); std::ostringstream os; os << ifs.rdbuf(); return os.str();
  }
  // cli OUTDIR CWD TIMEOUT[:LIMIT] ARG...   (LIMIT: no file may grow beyond that many bytes)
  // cliagain takes the same; it runs the command several times in one process, and says what it held on to after each
  static std::string cli_op(const args_t &a) {
      std::string outd = unhex(a.at(1)), cwd = unhex(a.at(2)); int secs = num(a.at(3).substr(0, a.at(3).find(':')));
      std::size_t lim = a.at(3).find(':') == std::string::npos ? 0 : num(a.at(3).substr(a.at(3).find(':') + 1));
      std::vector<std::string> av; for (std::size_t i = 4; i < a.size(); ++i) av.push_back(unhex(a[i]));
      // options may be given in the environment: NAME=VALUE..., then the command
      std::vector<std::string> ev; while (!av.empty() && av[0].compare(0, 8, "SCRIBBU_") == 0) { ev.push_back(av[0]); av.erase(av.begin()); }
      std::string fo = outd + "/.out", fe = outd + "/.err";
      pid_t pid = fork();
      if (pid < 0) throw bad_request("fork");
      if (pid == 0) {
        int o = open(fo.c_str(), O_WRONLY|O_CREAT|O_TRUNC, 0600), e = open(fe.c_str(), O_WRONLY|O_CREAT|O_TRUNC, 0600);
        int n = open("/dev/null", O_RDONLY);
        if (o < 0 || e < 0) _exit(97);
        dup2(n, 0); dup2(o, 1); dup2(e, 2); close(o); close(e); close(n);
        if (chdir(cwd.c_str())) _exit(97);
        for (auto &s : ev) setenv(s.substr(0, s.find('=')).c_str(), s.substr(s.find('=') + 1).c_str(), 1);
        alarm(secs);
        if (lim) { struct rlimit rl = { lim, lim }; signal(SIGXFSZ, SIG_IGN); setrlimit(RLIMIT_FSIZE, &rl); }
        int rc = 1;
        // as main does
        std::vector<char*> argv;
        auto once = [&](int i) {
          auto au = av; if (i >= 0) for (auto &s : au) number(s, "@@@@", i);
          argv.clear(); for (auto &s : au) argv.push_back((char*)s.c_str()); argv.push_back(0);
          try {
            auto h = get_sub_command(av.at(0).c_str());
            rc = h(av.size() - 1, argv.data() + 1);
          } catch (const std::exception &ex) { std::cerr << ex.what() << std::endl; rc = 1; }
          std::cout.flush(); std::cerr.flush(); std::clog.flush(); fflush(0);
        };
        if (a[0] == "cliagain") {
          footprint f[REPEATS];
          int i = 0; for (auto &x : f) { once(i++); x = footprint(true); }
          std::ofstream ofs(outd + "/.foot"); for (auto &x : f) ofs << x.bytes << ' ' << x.fds << ' '; ofs.close();
        } else once(-1);
        _exit(rc);
      }
      int st; while (waitpid(pid, &st, 0) < 0 && errno == EINTR) ;
      J j; j.n("rc", WIFEXITED(st) ? WEXITSTATUS(st) : -1).n("sig", WIFSIGNALED(st) ? WTERMSIG(st) : 0);
      j.hx("out", slurp(fo)).hx("err", slurp(fe));
      unlink(fo.c_str()); unlink(fe.c_str());
      if (a[0] == "cliagain") {
        std::ifstream ifs(outd + "/.foot"); J o('['), d('['); long long b, n;
        while (ifs >> b >> n) { o.push(std::to_string(b)); d.push(std::to_string(n)); }
        j.raw("bytes", o.done()).raw("fds", d.done());
        unlink((outd + "/.foot").c_str());
      }
      return j.done();
  }
  static reg cli("cli", cli_op);
  static reg cliagain("cliagain", cli_op);

  // again LINE... : these requests (hex), several times over; what was held after each time
  static reg again("again", [](const args_t &a) {
      std::vector<std::string> v; for (std::size_t i = 1; i < a.size(); ++i) v.push_back(unhex(a[i]));
      footprint f[REPEATS]; int exc = 0;
      int i = 0; for (auto &x : f) { { auto u = v; for (auto &l : u) number(l, "40404040", i); ++i; for (auto &l : u) if (serve(l).compare(0, 5, "{\"ex\"") == 0) ++exc; } serve("reset"); x = footprint(true); }
      J o('['), d('['); for (auto &x : f) { o.push(std::to_string(x.bytes)); d.push(std::to_string(x.fds)); }
      return J().raw("bytes", o.done()).raw("fds", d.done()).n("exc", exc).done();
    });
}
