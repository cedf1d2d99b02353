// One rewrite of a file's tags, to be run under a tracer that makes system
// calls fail or kills the process at them. Between the two markers (accesses to
// names that don't exist) there's nothing but the code under test.
//
//   fault copy KEEP UNSYNC PATH TAGS     replace_tagset_copy
//   fault maybe KEEP UNSYNC PATH TAGS    maybe_emplace_tagset
//   fault cli ARG...                     a sub-command
//
// A limit on file sizes is set from FAULT_FSIZE. Says "ok", or "failed: why".
#include "command-utilities.hh"
#include <scribbu/scribbu.hh>
#include <scribbu/id3v2-utils.hh>
#include <scribbu/tagset.hh>
#include <csignal>
#include <iconv.h>
#include <cstring>
#include <iostream>
#include <locale.h>
#include <sys/resource.h>
#include <unistd.h>

using namespace scribbu;

static void say(const std::string &s) {
  const char *p = getenv("FAULT_OUT");
  // not through any stream: those are the code's
  FILE *f = fopen(p, "w"); fputs(s.c_str(), f); fclose(f);
}

int main(int argc, char **argv) {
  setlocale(LC_ALL, "C.UTF-8");
  scribbu::static_initialize();
  std::string what = argv[1];
  std::vector<std::unique_ptr<id3v2_tag>> v;
  if (what != "cli") {
    std::ifstream ifs(argv[5], std::ios::binary);
    read_all_id3v2(ifs, std::back_inserter(v));
  }
  if (const char *p = getenv("FAULT_FSIZE")) {
    rlimit r; r.rlim_cur = atol(p); r.rlim_max = RLIM_INFINITY;
    signal(SIGXFSZ, SIG_IGN);
    setrlimit(RLIMIT_FSIZE, &r);
  }
  // have the C library load what it loads on first use
  for (const char *f : {"UTF-8", "ISO-8859-1", "UTF-16", "UTF-16LE", "UTF-16BE", "UCS-2", "ASCII", "UCS-2LE", "UCS-2BE"})
    for (const char *t : {"UTF-8", "ISO-8859-1", "UTF-16", "UTF-16LE", "UTF-16BE", "UCS-2", "ASCII", "WCHAR_T"}) iconv_open(t, f);
  std::string res;
  access("/fault-begin", F_OK);
  try {
    if (what == "cli") {
      auto h = get_sub_command(argv[2]);
      int rc = h(argc - 3, argv + 3);
      res = rc ? "failed: exit " + std::to_string(rc) : "ok";
    } else {
      bool keep = atoi(argv[2]);
      auto u = apply_unsync(atoi(argv[3]));
      if (what == "copy") replace_tagset_copy(argv[4], v.begin(), v.end(), u, keep);
      else maybe_emplace_tagset(argv[4], v.begin(), v.end(), u, emplace_strategy::reduce_padding_evenly,
                                padding_strategy::adjust_padding_evenly, keep);
      res = "ok";
    }
  } catch (const std::exception &ex) { res = std::string("failed: ") + ex.what(); }
  access("/fault-end", F_OK);
  rlimit r; r.rlim_cur = r.rlim_max = RLIM_INFINITY; setrlimit(RLIMIT_FSIZE, &r);
  say(res);
  _exit(0);
}
