// ID3v1, files, streams, MP3, charsets, templates, genres, URLs
#include "drv.hh"
#include <scribbu/id3v2-utils.hh>
#include <scribbu/tagset.hh>
#include <scribbu/mp3.hh>
#include <scribbu/charsets.hh>
#include <scribbu/winamp-genres.hh>
#include <scribbu/pprinter.hh>
#include <scribbu/csv-pprinter.hh>
#include <scribbu/tdf-pprinter.hh>
#include <scribbu/json-pprinter.hh>
#include <fstream>
#include <iomanip>
#include <sys/mman.h>
#include <unistd.h>

using namespace scribbu;

namespace drv {
  typedef std::vector<unsigned char> bytes;

  // ------------------------------------------------------------------ ID3v1
  std::string dump_v1(const id3v1_tag &t) {
    J j;
    bytes b;
#define F(N) b.clear(); t.N(std::back_inserter(b)); j.hx(#N, b);
    F(title) F(artist) F(album) F(year) F(comment) F(enh_genre) F(start_time) F(end_time)
#undef F
#define S(N) field(j, #N "_s", [&]{ return "\"" + hex(t.N<std::string>(encoding::ISO_8859_1, encoding::UTF_8)) + "\""; });
    S(title) S(artist) S(album) S(year) S(comment) S(enh_genre) S(start_time) S(end_time)
#undef S
    j.n("genre", t.genre()).b("ext", t.extended()).b("enh", t.enhanced()).b("v11", t.v1_1()).u("size", t.size());
    j.b("has_speed", t.speed().first); if (t.speed().first) j.n("speed", t.speed().second);
    j.b("has_track", t.track_number().first); if (t.track_number().first) j.n("track", t.track_number().second);
    return j.done();
  }
  static reg v1new("v1new", [](const args_t &a) {
      V1[num(a.at(1))].reset(new id3v1_tag((bool)num(a.at(2)), (bool)num(a.at(3)))); return "{}"; });
  static reg v1copy("v1copy", [](const args_t &a) {
      std::unique_ptr<id3v1_tag> p(new id3v1_tag(v1(a.at(1)))); V1[num(a.at(2))] = std::move(p); return "{}"; });
  static reg v1assign("v1assign", [](const args_t &a) { v1(a.at(2)) = v1(a.at(1)); return "{}"; });
  // v1parse H BYTES MODE(process|whole|std|enh) : read from the end of, or at, a stream
  static reg v1parse("v1parse", [](const args_t &a) {
      std::string s = unhex(a.at(2)), m = a.at(3);
      std::istringstream is(s); std::unique_ptr<id3v1_tag> p;
      if (m == "process") p = process_id3v1(is);
      else if (m == "whole") p.reset(new id3v1_tag(is));
      else if (m == "std") p.reset(new id3v1_tag(is, false));
      else p.reset(new id3v1_tag(is, true));
      bool have = (bool)p;
      V1[num(a[1])] = std::move(p);
      return J().b("present", have).done();
    });
  static reg v1dump("v1dump", [](const args_t &a) { return dump_v1(v1(a.at(1))); });
  static reg v1write("v1write", [](const args_t &a) {
      std::ostringstream os; v1(a.at(1)).write(os); return J().hx("out", os.str()).b("good", os.good()).done(); });
  static reg v1set("v1set", [](const args_t &a) {
      id3v1_tag &t = v1(a.at(1)); std::string f = a.at(2);
      if (f == "genre") { t.set_genre(num(a.at(3))); return "{}"; }
      if (f == "speed") { t.set_speed(num(a.at(3))); return "{}"; }
      if (f == "track") { t.set_track_number(num(a.at(3))); return "{}"; }
      std::string s = unhex(a.at(3));
      encoding src = encoding::UTF_8; boost::optional<encoding> dst = encoding::ISO_8859_1;
      if (a.size() > 4) dst = enc(a[4]);
      if (f == "title") t.set_title(s, src, dst);
      else if (f == "artist") t.set_artist(s, src, dst);
      else if (f == "album") t.set_album(s, src, dst);
      else if (f == "comment") t.set_comment(s, src, dst);
      else if (f == "enh_genre") t.set_enh_genre(s, src, dst);
      else if (f == "year") t.set_year(s.c_str());
      else if (f == "start_time") t.set_start_time(s.c_str());
      else if (f == "end_time") t.set_end_time(s.c_str());
      else throw bad_request("v1 field");
      return "{}";
    });
  static reg v1rm("v1remove", [](const args_t &a) { maybe_remove_id3v1(unhex(a.at(1))); return "{}"; });
  static reg v1rep("v1replace", [](const args_t &a) { replace_id3v1(unhex(a.at(1)), v1(a.at(2))); return "{}"; });

  // ------------------------------------------------------------ whole files
  static std::vector<std::unique_ptr<id3v2_tag>> take(const args_t &a, std::size_t i) {
    std::vector<std::unique_ptr<id3v2_tag>> v;
    for (; i < a.size(); ++i) v.emplace_back(v2(a[i]).clone());
    return v;
  }
  // the handles themselves, in a vector, given back afterwards
  struct borrowed {
    std::vector<std::unique_ptr<id3v2_tag>> v; std::vector<int> h;
    borrowed(const args_t &a, std::size_t i) {
      for (; i < a.size(); ++i) { v2(a[i]); h.push_back(num(a[i])); }
      for (int x : h) v.push_back(std::move(V2[x]));
    }
    ~borrowed() { for (std::size_t i = 0; i < h.size(); ++i) V2[h[i]] = std::move(v[i]); }
  };
  static apply_unsync au(const std::string &s) { return apply_unsync(num(s)); }
  // rtcopy PATH UNSYNC KEEP H...
  static reg rtcopy("rtcopy", [](const args_t &a) {
      borrowed b(a, 4);
      replace_tagset_copy(unhex(a.at(1)), b.v.begin(), b.v.end(), au(a.at(2)), num(a.at(3)));
      return "{}"; });
  static reg rtempl("rtempl", [](const args_t &a) {
      borrowed b(a, 3);
      replace_tagset_emplace(unhex(a.at(1)), b.v.begin(), b.v.end(), au(a.at(2)));
      return "{}"; });
  // rtmaybe PATH UNSYNC ESTRAT KEEP H...
  static reg rtmaybe("rtmaybe", [](const args_t &a) {
      borrowed b(a, 5);
      maybe_emplace_tagset(unhex(a.at(1)), b.v.begin(), b.v.end(), au(a.at(2)),
                           emplace_strategy(num(a.at(3))), padding_strategy::adjust_padding_evenly, num(a.at(4)));
      return "{}"; });
  static reg tssize("tssize", [](const args_t &a) { return J().u("n", tagset_size(unhex(a.at(1)))).done(); });
  static reg tssizes("tssizes", [](const args_t &a) {
      borrowed b(a, 2); std::size_t t, p; std::tie(t, p) = tagset_sizes(b.v.begin(), b.v.end(), au(a.at(1)));
      return J().u("total", t).u("pad", p).done(); });
  // adjpad NEW CURR H...
  static reg adjpad("adjpad", [](const args_t &a) {
      borrowed b(a, 3);
      adjust_padding_to(b.v.begin(), b.v.end(), num(a.at(1)), num(a.at(2)), padding_strategy::adjust_padding_evenly);
      return "{}"; });
  static reg bkname("bkname", [](const args_t &a) { return J().hx("p", detail::get_backup_name(unhex(a.at(1))).string()).done(); });

  // ---------------------------------------------------------- track & stream
  static std::string dur_s(double d) { char b[64]; snprintf(b, sizeof b, "%.9f", d); return jstr(b); }
  static std::string track_json(const track_data &t) {
    bytes m; t.get_md5(std::back_inserter(m));
    J j; j.u("size", t.size()).hx("md5", m);
    if (t.duration()) j.raw("dur", dur_s(*t.duration()));
    return j.done();
  }
  // fileinfo PATH : everything the library tells about a file
  static reg fileinfo("fileinfo", [](const args_t &a) {
      J j;
      std::ifstream is; file_info fi;
      std::tie(is, fi) = open_file(unhex(a.at(1)));
      std::vector<std::unique_ptr<id3v2_tag>> v;
      read_all_id3v2(is, std::back_inserter(v));
      J t('['); for (auto &p : v) t.push(dump_tag(*p));
      j.raw("tags", t.done()).n("pos", is.tellg());
      track_data td(is);
      j.raw("track", track_json(td)).n("pos2", is.tellg());
      auto p1 = process_id3v1(is);
      if (p1) j.raw("v1", dump_v1(*p1)); else j.raw("v1", "null");
      j.hx("parent", fi.parent().string()).hx("fname", fi.filename().string()).u("size", fi.size());
      return j.done();
    });
  // probes MASK BYTES STEP... : a history of probes & reads on one stream
  static reg probes("probes", [](const args_t &a) {
      // a stream of bytes or, if asked for, of a file
      std::string bytes = unhex(a.at(2)); int m = num(a.at(1));
      struct fd_t { int fd = -1; ~fd_t() { if (fd >= 0) close(fd); } } fd;
      std::unique_ptr<std::istream> pis;
      if (m & 8) {
        fd.fd = memfd_create("probes", 0);
        for (std::size_t n = 0; n < bytes.size(); ) { ssize_t k = write(fd.fd, bytes.data() + n, bytes.size() - n); if (k <= 0) throw bad_request("write"); n += k; }
        pis.reset(new std::ifstream("/proc/self/fd/" + std::to_string(fd.fd), std::ios::binary));
        if (!*pis) throw bad_request("memfd");
      } else pis.reset(new std::istringstream(bytes));
      std::istream &is = *pis;
      std::ios::iostate mask = std::ios::goodbit;
      if (m & 1) mask |= std::ios::eofbit; if (m & 2) mask |= std::ios::failbit; if (m & 4) mask |= std::ios::badbit;
      is.exceptions(mask);
      J out('[');
      for (std::size_t i = 3; i < a.size(); ++i) {
        std::string st = a[i]; J j; std::string r;
        auto colon = st.find(':'); std::string op = st.substr(0, colon), arg = colon == std::string::npos ? "" : st.substr(colon + 1);
        try {
          if (op == "seek") { is.clear(); is.seekg(num(arg)); r = "{}"; }
          else if (op == "look") { auto h = looking_at_id3v2(is, num(arg)); J k; k.b("present", h.present_);
            if (h.present_) k.n("ver", h.version_).n("rev", h.revision_).n("flags", h.flags_).u("size", h.size_); r = k.done(); }
          else if (op == "maybe") { auto p = maybe_read_id3v2(is); r = p ? dump_tag(*p) : "null"; }
          else if (op == "read") { auto p = read_id3v2(is, num(arg)); r = p ? dump_tag(*p) : "null"; }
          else if (op == "all") { std::vector<std::unique_ptr<id3v2_tag>> v; read_all_id3v2(is, std::back_inserter(v));
            J t('['); for (auto &p : v) t.push(dump_tag(*p)); r = t.done(); }
          else if (op == "ends1") { auto x = ends_in_id3v1(is); J k; k.n("type", (int)x.type_);
            if (x.type_ != id3_v1_tag_type::none) k.n("start", x.start_).n("end", x.end_); r = k.done(); }
          else if (op == "proc1") { auto p = process_id3v1(is); r = p ? dump_v1(*p) : "null"; }
          else if (op == "find1") { std::streampos x, y; std::tie(x, y) = find_id3v1_tag(is); r = J().n("here", x).n("tag", y).done(); }
          else if (op == "md5") { auto x = arg.empty() ? compute_track_md5(is) : compute_track_md5(is, num(arg)); r = "\"" + hex(x.data(), x.size()) + "\""; }
          else if (op == "track") { track_data t(is); r = track_json(t); }
          else if (op == "dur") { double d = get_mp3_duration(is); r = dur_s(d); }
          else if (op == "sync") { find_sync(is); r = "{}"; }
          else if (op == "tag") { int v = num(arg);
            if (v == 2) { id3v2_2_tag t(is); r = dump_tag(t); } else if (v == 3) { id3v2_3_tag t(is); r = dump_tag(t); } else { id3v2_4_tag t(is); r = dump_tag(t); } }
          else if (op == "tagh") { auto h = looking_at_id3v2(is, false);
            if (!h.present_ || h.version_ < 2 || h.version_ > 4) { r = "null"; if (h.present_) is.seekg(-10, std::ios::cur); }
            else try {
              if (h.version_ == 2) { id3v2_2_tag t(is, h); r = dump_tag(t); } else if (h.version_ == 3) { id3v2_3_tag t(is, h); r = dump_tag(t); } else { id3v2_4_tag t(is, h); r = dump_tag(t); } }
              catch (...) { is.seekg(-10, std::ios::cur); throw; } }
          else if (op == "v1") { id3v1_tag t(is, (bool)num(arg)); r = dump_v1(t); }
          else if (op == "v1w") { id3v1_tag t(is); r = dump_v1(t); }
          else throw bad_request("probe " + op);
        } catch (const bad_request&) { throw; }
        catch (...) { r = describe_current_exception(); }
        std::ios::iostate st2 = is.rdstate(), ex2 = is.exceptions();
        long pos = -1;
        { auto keep = is.exceptions(); is.exceptions(std::ios::goodbit); is.clear(); pos = is.tellg(); is.clear(); is.exceptions(keep); }
        auto enc_ = [](std::ios::iostate s) { return (s & std::ios::eofbit ? 1 : 0) | (s & std::ios::failbit ? 2 : 0) | (s & std::ios::badbit ? 4 : 0); };
        j.raw("r", r).n("pos", pos).n("st", enc_(st2)).n("mask", enc_(ex2));
        is.exceptions(std::ios::goodbit); is.clear(); is.exceptions(mask);
        out.push(j.done());
      }
      return out.done();
    });
  static reg mp3frame("mp3frame", [](const args_t &a) {
      std::istringstream is(unhex(a.at(1)));
      mp3_audio_frame f(is, a.size() > 2 && num(a[2]));
      J j; j.n("bps", f.bps()).n("hz", f.sample_rate_hz()).u("size", f.size()).n("ver", (int)f.version());
      auto d = f.duration(); j.u("dn", d.first).u("dd", d.second);
      auto v = f.vbri(); if (v) j.u("vn", v->first).u("vd", v->second);
      j.n("pos", is.tellg());
      return j.done();
    });

  // ---------------------------------------------------------------- charsets
  static reg convs("conv2s", [](const args_t &a) { // conv2s BYTES SRC DST RSP
      std::string s = unhex(a.at(1));
      std::unique_ptr<unsigned char[]> buf(new unsigned char[s.size()]); std::copy(s.begin(), s.end(), buf.get());
      return J().hx("out", convert_encoding<std::string>(buf.get(), s.size(), enc(a.at(2)), enc(a.at(3)), rsp(a.at(4)))).done(); });
  static reg convv("conv2v", [](const args_t &a) { // conv2v BYTES SRC DST BOM RSP
      return J().hx("out", convert_encoding(unhex(a.at(1)), enc(a.at(2)), enc(a.at(3)), (bool)num(a.at(4)), rsp(a.at(5)))).done(); });
  static reg encname("encname", [](const args_t &a) { // encname N : its printed name, and what that reads back as
      std::ostringstream os; os << enc(a.at(1)); J j; j.str("name", os.str());
      std::istringstream is(os.str()); encoding e; is >> e; j.n("back", is ? (int)e : -1);
      return j.done(); });

  // ------------------------------------------------------- templates & genres
  static reg tbt("tbt", [](const args_t &a) {
      template_processor p(unhex(a.at(1)));
      J o('[');
      for (std::size_t i = 2; i < a.size(); ++i) {
        try { o.push("\"" + hex(p(unhex(a[i]))) + "\""); } catch (...) { o.push(describe_current_exception()); }
      }
      return J().raw("out", o.done()).done(); });
  static reg genre("genre", [](const args_t &a) {
      auto x = match_winamp_genre(unhex(a.at(1)));
      return J().hx("text", std::get<0>(x)).n("n", std::get<1>(x)).u("d", std::get<2>(x)).done(); });
  static reg genret("genretext", [](const args_t &a) {
      auto x = text_for_genre(num(a.at(1))); return x ? J().hx("t", *x).done() : std::string("null"); });
  static reg genrel("genrelist", [](const args_t &a) {
      std::vector<std::tuple<unsigned char, std::string>> v;
      get_id3v1_genre_list(id3v1_genre_generation(num(a.at(1))), std::back_inserter(v));
      J o('['); for (auto &x : v) o.push(J().n("n", std::get<0>(x)).hx("t", std::get<1>(x)).done()); return o.done(); });
  static reg urle("urlenc", [](const args_t &a) { return J().hx("out", urlencode(unhex(a.at(1)))).done(); });
  static reg urld("urldec", [](const args_t &a) { return J().hx("out", urldecode(unhex(a.at(1)))).done(); });

  // ---------------------------------------------------------------- printing
  static void set_format(std::ostream &os, const std::string &f) {
    if (f == "csv") os << print_as_csv();
    else if (f == "csv2") os << print_as_csv(2, encoding::ISO_8859_1, boost::none, ';');
    else if (f == "tdf") os << print_as_tdf();
    else if (f == "tdfa") os << print_as_tdf(3, boost::none, boost::none, true);
    else if (f == "json") os << print_as_json();
    else if (f == "json1") os << print_as_json(encoding::ISO_8859_1);
    else if (f == "std") os << pretty_print();
    else if (f == "std2") os << pretty_print(4, true);
    else throw bad_request("format");
  }
  // print FMT H : a tag;  printv1 FMT H
  static reg print("print", [](const args_t &a) {
      std::ostringstream os; set_format(os, a.at(1)); os << v2(a.at(2));
      return J().hx("out", os.str()).b("good", os.good()).done(); });
  static reg printv1("printv1", [](const args_t &a) {
      std::ostringstream os; set_format(os, a.at(1)); os << v1(a.at(2));
      return J().hx("out", os.str()).b("good", os.good()).done(); });
  static reg printtrk("printtrack", [](const args_t &a) {
      std::ostringstream os; std::istringstream is(unhex(a.at(2))); track_data t(is); set_format(os, a.at(1)); os << t;
      return J().hx("out", os.str()).b("good", os.good()).done(); });

  // gauntlet BYTES : everything a reader of this file might do; the answer is
  // a digest of the outcomes (so that two runs can be compared)
  static reg gauntlet("gauntlet", [](const args_t &a) {
      std::string s = unhex(a.at(1));
      J j; int exc = 0, done = 0; std::string trace;
      auto step = [&](const char *n, auto f) {
        try { trace += n; trace += '='; trace += f(); trace += '\n'; ++done; }
        catch (const bad_request&) { throw; }
        catch (const std::exception &ex) { ++exc; trace += "std-exception "; const char *w = ex.what(); trace += w ? w : "(null)"; trace += '\n'; }
        catch (...) { j.str("nonstd", describe_current_exception()); }
      };
      std::vector<std::unique_ptr<id3v2_tag>> tags;
      { std::istringstream is(s);
        step("all", [&]{ read_all_id3v2(is, std::back_inserter(tags)); return std::to_string(tags.size()); }); }
      for (auto &t : tags) {
        step("dump", [&]{ return dump_tag(*t); });
        for (const char *f : { "std", "std2", "csv", "tdf", "json" })
          step(f, [&]{ std::ostringstream os; set_format(os, f); os << *t; return os.str(); });
        for (int u = 0; u < 2; ++u)
          step("write", [&]{ std::ostringstream os; t->write(os, u); return os.str(); });
        step("clone", [&]{ std::unique_ptr<id3v2_tag> p(t->clone()); return dump_tag(*p); });
      }
      for (int i = 0; i < 2; ++i)
        step("nth", [&]{ std::istringstream is(s); auto p = read_id3v2(is, i); return std::string(p ? "y" : "n"); });
      step("direct", [&]{ std::istringstream is(s); if (s.size() < 5) return std::string("-");
          if (s[3] == 2) { id3v2_2_tag t(is); return dump_tag(t); } if (s[3] == 3) { id3v2_3_tag t(is); return dump_tag(t); }
          id3v2_4_tag t(is); return dump_tag(t); });
      step("track", [&]{ std::istringstream is(s); std::vector<std::unique_ptr<id3v2_tag>> v;
          try { read_all_id3v2(is, std::back_inserter(v)); } catch (const std::exception &) { is.clear(); }
          track_data t(is); std::ostringstream os; os << t; return track_json(t) + os.str(); });
      step("track0", [&]{ std::istringstream is(s); track_data t(is); return track_json(t); });
      step("dur", [&]{ std::istringstream is(s); return dur_s(get_mp3_duration(is)); });
      step("sync", [&]{ std::istringstream is(s); find_sync(is); return std::to_string(is.tellg()); });
      step("vbr", [&]{ std::istringstream is(s); find_sync(is); mp3_audio_frame f(is, true); return std::to_string(f.size()); });
      step("ends1", [&]{ std::istringstream is(s); auto x = ends_in_id3v1(is); return std::to_string((int)x.type_); });
      step("proc1", [&]{ std::istringstream is(s); auto p = process_id3v1(is); if (!p) return std::string("-");
          std::ostringstream os; p->write(os); set_format(os, "std"); os << *p; set_format(os, "json"); os << *p; set_format(os, "csv"); os << *p; return dump_v1(*p) + os.str(); });
      step("v1", [&]{ std::istringstream is(s); id3v1_tag t(is); return dump_v1(t); });
      step("md5", [&]{ std::istringstream is(s); auto x = compute_track_md5(is); return hex(x.data(), x.size()); });
      std::size_t h = std::hash<std::string>()(trace);
      j.u("h", h % 1000000007).n("exc", exc).n("done", done).n("tags", tags.size());
      if (a.size() > 2) j.str("trace", trace);
      return j.done();
    });
}
