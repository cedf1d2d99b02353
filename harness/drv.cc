#include "drv.hh"
#include <cxxabi.h>
#include <unistd.h>
#include <fcntl.h>
#include <iostream>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <clocale>
#include <filesystem>

namespace drv {

  thread_local std::map<int, std::unique_ptr<scribbu::id3v2_tag>> V2;
  thread_local std::map<int, std::unique_ptr<scribbu::id3v1_tag>> V1;

  std::string unhex(const std::string &s) {
    if (s == "-") return std::string();
    if (s.size() % 2) throw bad_request("odd hex");
    std::string r; r.reserve(s.size() / 2);
    auto v = [](char c) -> int {
      if (c >= '0' && c <= '9') return c - '0';
      if (c >= 'a' && c <= 'f') return c - 'a' + 10;
      throw bad_request("bad hex");
    };
    for (std::size_t i = 0; i < s.size(); i += 2) r += char(v(s[i]) * 16 + v(s[i+1]));
    return r;
  }
  std::string hex(const void *p, std::size_t n) {
    static const char D[] = "0123456789abcdef";
    const unsigned char *q = (const unsigned char*) p;
    std::string r; r.reserve(2 * n);
    for (std::size_t i = 0; i < n; ++i) { r += D[q[i] >> 4]; r += D[q[i] & 15]; }
    return r;
  }
  long long num(const std::string &s) {
    char *e; long long x = s[0] == '-' ? strtoll(s.c_str(), &e, 10) : (long long)strtoull(s.c_str(), &e, 10);
    if (*e || s.empty()) throw bad_request("not a number: " + s);
    return x;
  }
  std::string jstr(const std::string &s) {
    std::string r = "\"";
    for (unsigned char c : s) {
      if (c == '"' || c == '\\') { r += '\\'; r += c; }
      else if (c < 32 || c > 126) { char b[8]; snprintf(b, sizeof b, "\\u%04x", c); r += b; }
      else r += c;
    }
    return r + "\"";
  }
  static std::string demangle(const char *n) {
    int st; char *p = abi::__cxa_demangle(n, 0, 0, &st);
    std::string r = p ? p : n; free(p); return r;
  }
  std::string describe_current_exception() {
    J j;
    std::string type = "?", what;
    if (auto *t = abi::__cxa_current_exception_type()) type = demangle(t->name());
    bool std_ = false;
    try { throw; }
    catch (const std::exception &ex) { std_ = true; const char *w = ex.what(); what = w ? w : "(null)"; }
    catch (...) { }
    j.str("ex", type).str("what", what).b("std", std_);
    return j.done();
  }
  std::map<std::string, op_t>& ops() { static std::map<std::string, op_t> m; return m; }

  scribbu::id3v2_tag& v2(const std::string &h) {
    auto p = V2.find(num(h));
    if (p == V2.end() || !p->second) throw bad_request("no v2 handle " + h);
    return *p->second;
  }
  scribbu::id3v1_tag& v1(const std::string &h) {
    auto p = V1.find(num(h));
    if (p == V1.end() || !p->second) throw bad_request("no v1 handle " + h);
    return *p->second;
  }
  scribbu::encoding enc(const std::string &s) {
    return scribbu::encoding(num(s));
  }
  scribbu::on_no_encoding rsp(const std::string &s) {
    return scribbu::on_no_encoding(num(s));
  }

  std::string serve(const std::string &line) {
    args_t a; { std::istringstream is(line); std::string t; while (is >> t) a.push_back(t); }
    std::string reply;
    try {
      if (a.empty()) throw bad_request("empty");
      auto p = ops().find(a[0]);
      if (p == ops().end()) throw bad_request("unknown op " + a[0]);
      reply = p->second(a);
    } catch (const bad_request &ex) {
      reply = J().str("bad", ex.what()).done();
    } catch (const std::out_of_range &ex) {
      // args_t::at is how ops fetch arguments
      if (std::string(ex.what()).find("vector::_M_range_check") == 0 && a.size() < 2)
        reply = J().str("bad", ex.what()).done();
      else reply = describe_current_exception();
    } catch (...) { reply = describe_current_exception(); }
    return reply;
  }

  static reg r_reset("reset", [](const args_t&) { V2.clear(); V1.clear(); return "{}"; });
  static reg r_ping("ping", [](const args_t&) { return "{}"; });
}

int main(int argc, char **argv) {
  using namespace drv;
  std::setlocale(LC_ALL, "C.UTF-8");
  // keep replies apart from anything the code under test prints
  int out = dup(1);
  fcntl(out, F_SETFD, FD_CLOEXEC);
  int nul = open("/dev/null", O_WRONLY);
  dup2(nul, 1); close(nul);
  FILE *fo = fdopen(out, "w");
  scribbu::static_initialize();
  std::string line;
  while (true) {
    line.clear();
    int c;
    while ((c = getc_unlocked(stdin)) != EOF && c != '\n') line += char(c);
    if (c == EOF && line.empty()) break;
    std::string reply = serve(line);
    fputs(reply.c_str(), fo); fputc('\n', fo); fflush(fo);
  }
  V2.clear(); V1.clear();
  scribbu::static_cleanup();
  return 0;
}
