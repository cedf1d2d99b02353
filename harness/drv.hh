// Shared bits of the driver: a line-oriented server that exercises scribbu's
// public interface. One request per line ("op arg arg..."), one JSON reply per
// line. Strings travel as hex ("-" is the empty string).
#ifndef DRV_HH
#define DRV_HH 1
#include <cstdint>
#include <functional>
#include <map>
#include <memory>
#include <sstream>
#include <stdexcept>
#include <string>
#include <vector>

#include <scribbu/scribbu.hh>
#include <scribbu/id3v1.hh>
#include <scribbu/id3v2.hh>
#include <scribbu/id3v22.hh>
#include <scribbu/id3v23.hh>
#include <scribbu/id3v24.hh>

namespace drv {

  struct bad_request: std::runtime_error { using std::runtime_error::runtime_error; };

  typedef std::vector<std::string> args_t;

  std::string unhex(const std::string &s);
  std::string hex(const void *p, std::size_t n);
  inline std::string hex(const std::string &s) { return hex(s.data(), s.size()); }
  inline std::string hex(const std::vector<unsigned char> &v) { return hex(v.data(), v.size()); }
  long long num(const std::string &s);
  std::string jstr(const std::string &s); // quoted, ASCII-escaped

  /// Tiny JSON builder
  class J {
  public:
    J(char open = '{'): open_(open), first_(true) { s_ += open; }
    J& raw(const std::string &k, const std::string &v) { key(k); s_ += v; return *this; }
    J& str(const std::string &k, const std::string &v) { return raw(k, jstr(v)); }
    J& hx(const std::string &k, const std::string &v) { return raw(k, "\"" + hex(v) + "\""); }
    J& hx(const std::string &k, const std::vector<unsigned char> &v) { return raw(k, "\"" + hex(v) + "\""); }
    J& n(const std::string &k, long long v) { return raw(k, std::to_string(v)); }
    J& u(const std::string &k, unsigned long long v) { return raw(k, std::to_string(v)); }
    J& b(const std::string &k, bool v) { return raw(k, v ? "true" : "false"); }
    J& push(const std::string &v) { if (!first_) s_ += ','; first_ = false; s_ += v; return *this; }
    std::string done() { return s_ + (open_ == '{' ? '}' : ']'); }
  private:
    void key(const std::string &k) { if (!first_) s_ += ','; first_ = false; s_ += '"'; s_ += k; s_ += "\":"; }
    char open_; bool first_; std::string s_;
  };

  /// Run F; on exception give its description
  std::string describe_current_exception();
  template <typename F> void field(J &j, const std::string &k, F f) {
    try { j.raw(k, f()); }
    catch (const bad_request&) { throw; }
    catch (...) { j.raw(k, describe_current_exception()); }
  }

  typedef std::function<std::string(const args_t&)> op_t;
  std::map<std::string, op_t>& ops();
  struct reg { reg(const char *n, op_t f) { ops()[n] = f; } };

  /// Carry out one request
  std::string serve(const std::string &line);

  // ID3v2 & ID3v1 tags by handle (each thread has its own)
  extern thread_local std::map<int, std::unique_ptr<scribbu::id3v2_tag>> V2;
  extern thread_local std::map<int, std::unique_ptr<scribbu::id3v1_tag>> V1;
  scribbu::id3v2_tag& v2(const std::string &h);
  scribbu::id3v1_tag& v1(const std::string &h);
  std::string dump_tag(const scribbu::id3v2_tag &tag);
  std::string dump_v1(const scribbu::id3v1_tag &tag);

  scribbu::encoding enc(const std::string &s);
  scribbu::on_no_encoding rsp(const std::string &s);
}
#endif
