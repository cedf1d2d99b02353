// Names of things, and the headers of MPEG audio
#include "drv.hh"
#include <scribbu/charsets.hh>
#include <scribbu/framesv2.hh>
#include <scribbu/mp3.hh>
#include <cstdlib>

using namespace scribbu;

namespace drv {
  // ------------------------------------------------------------------- names
  static const std::vector<std::pair<const char*, language>> LANGS = {
#define L(x) { #x, language::x },
#include "langs.inc"
#undef L
  };
  static std::string lang_name(language x) {
    if (x == language::from_locale) return "from_locale";
    for (auto &p : LANGS) if (p.second == x) return p.first;
    return "?";
  }
  static language lang(const std::string &s) {
    if (s == "from_locale") return language::from_locale;
    for (auto &p : LANGS) if (s == p.first) return p.second;
    throw std::invalid_argument("no language " + s);
  }
  template <typename T> static std::string printed(const T &x) { std::ostringstream os; os << x; return os.str(); }
  // reading a value back, whichever way a bad name is refused
  template <typename T> static bool readable(const std::string &s, T &x) {
    std::istringstream is(s);
    is >> x;
    return (bool)is;
  }
  static reg langp("langprint", [](const args_t &a) { return J().hx("name", printed(lang(a.at(1)))).done(); });
  static reg langr("langread", [](const args_t &a) {
      language x = language::from_locale; bool ok = readable(unhex(a.at(1)), x);
      return J().b("ok", ok).str("lang", lang_name(x)).done(); });
  static reg lang3("lang3", [](const args_t &a) {
      unsigned char c[5] = { 1, 2, 3, 4, 5 }; language_to_iso_639_2(lang(a.at(1)), c);
      return J().hx("code", std::string(c, c + 3)).b("intact", c[3] == 4 && c[4] == 5).done(); });
  static reg lang1("lang1", [](const args_t &a) {
      std::string s = unhex(a.at(1)); std::unique_ptr<char[]> p(new char[2]); p[0] = s.at(0); p[1] = s.at(1);
      return J().str("lang", lang_name(language_from_iso_639_1(p.get()))).done(); });
  // langenv LANGUAGE LC_ALL LANG, "-" for one that isn't set
  static reg langenv("langenv", [](const args_t &a) {
      static const char *N[] = { "LANGUAGE", "LC_ALL", "LANG" };
      std::vector<std::pair<bool, std::string>> old;
      for (int i = 0; i < 3; ++i) {
        const char *p = getenv(N[i]); old.emplace_back(p, p ? p : "");
        if (a.at(1 + i) == "-") unsetenv(N[i]); else setenv(N[i], unhex(a[1 + i]).c_str(), 1);
      }
      std::string out;
      try {
        language x = language_from_locale(); J j; j.str("lang", lang_name(x));
        if (x != language::from_locale) {
          unsigned char c[3]; language_to_iso_639_2(language::from_locale, c); j.hx("code", std::string(c, c + 3));
        }
        out = j.done();
      } catch (...) { out = describe_current_exception(); }
      for (int i = 0; i < 3; ++i) if (old[i].first) setenv(N[i], old[i].second.c_str(), 1); else unsetenv(N[i]);
      return out; });
  static reg encp("encprint", [](const args_t &a) { return J().hx("name", printed(enc(a.at(1)))).done(); });
  static reg encr("encread", [](const args_t &a) {
      encoding x = encoding::ASCII; bool ok = readable(unhex(a.at(1)), x); return J().b("ok", ok).n("enc", (int)x).done(); });
  static reg encn("encmax", [](const args_t &) { return J().n("n", (int)encoding::MAX_ENCODING).done(); });
  static on_no_encoding rsp_named(const std::string &s) {
    return s == "0" ? on_no_encoding::fail : s == "1" ? on_no_encoding::ignore : on_no_encoding::transliterate; }
  static reg rspp("rspprint", [](const args_t &a) { return J().hx("name", printed(rsp_named(a.at(1)))).done(); });
  static reg rspr("rspread", [](const args_t &a) {
      on_no_encoding x = on_no_encoding::fail; bool ok = readable(unhex(a.at(1)), x);
      return J().b("ok", ok).str("rsp", x == on_no_encoding::fail ? "fail" : x == on_no_encoding::ignore ? "ignore" : "transliterate").done(); });

  static const std::vector<std::pair<const char*, id3v2_text_frames>> TEXTS = {
#define T(x) { #x, id3v2_text_frames::x },
    T(talb) T(tbpm) T(tcom) T(tcon) T(tcop) T(tdat) T(tdly) T(tenc) T(text) T(tflt) T(time) T(tit1) T(tit2) T(tit3) T(tkey) T(tlan)
    T(tlen) T(tmed) T(toal) T(tofn) T(toly) T(tope) T(tory) T(town) T(tpe1) T(tpe2) T(tpe3) T(tpe4) T(tpos) T(tpub) T(trck) T(trda)
    T(trsn) T(trso) T(tsiz) T(tsrc) T(tsse) T(tyer)
#undef T
  };
  static id3v2_text_frames text_frame(const std::string &s) {
    for (auto &p : TEXTS) if (s == p.first) return p.second;
    throw std::invalid_argument("no text frame " + s);
  }
  static reg tfp("tfprint", [](const args_t &a) { return J().hx("name", printed(text_frame(a.at(1)))).done(); });
  static reg tfr("tfread", [](const args_t &a) {
      id3v2_text_frames x = id3v2_text_frames::talb; bool ok = readable(unhex(a.at(1)), x);
      std::string n = "?"; for (auto &p : TEXTS) if (p.second == x) n = p.first;
      return J().b("ok", ok).str("frame", n).done(); });
  template <typename ID> static std::string idinfo(const ID &x) {
    std::ostringstream w; std::size_t n = x.write(w); std::string c; x.copy(std::back_inserter(c));
    return J().hx("s", x.as_string()).hx("p", printed(x)).hx("w", w.str()).u("n", n).hx("c", c).b("exp", x.experimental())
      .b("null", x.null()).b("text", x.text_frame()).done();
  }
  static reg tfid3("tfid3", [](const args_t &a) { return idinfo(frame_id3(text_frame(a.at(1)))); });
  static reg tfid4("tfid4", [](const args_t &a) { return idinfo(frame_id4(text_frame(a.at(1)))); });
  // fid BYTES BYTES : two identifiers of three or four bytes, made and compared every way
  template <typename ID, std::size_t N> static std::string fid(const std::string &s, const std::string &t, const ID &x, const ID &y) {
    std::unique_ptr<unsigned char[]> p(new unsigned char[N]); std::copy(s.begin(), s.end(), p.get());
    std::unique_ptr<char[]> q(new char[N]); std::copy(s.begin(), s.end(), q.get());
    J o('['); o.push(idinfo(x)); o.push(idinfo(ID(p.get()))); o.push(idinfo(ID(q.get()))); ID z(y); z = x; o.push(idinfo(z));
    std::hash<ID> h;
    return J().raw("made", o.done()).b("eq", x == y).b("ne", x != y).b("same", x == ID(p.get()) && x == ID(q.get()) && !(x != z))
      .b("hash", h(x) == h(ID(p.get()))).b("eqhash", h(x) == h(y)).done();
  }
  static reg fidr("fid", [](const args_t &a) {
      std::string s = unhex(a.at(1)), t = unhex(a.at(2)); auto u = [](const std::string &s, int i) { return (unsigned char)s.at(i); };
      if (s.size() == 3) return fid<frame_id3, 3>(s, t, frame_id3(u(s, 0), u(s, 1), u(s, 2)), frame_id3(u(t, 0), u(t, 1), u(t, 2)));
      return fid<frame_id4, 4>(s, t, frame_id4(u(s, 0), u(s, 1), u(s, 2), u(s, 3)), frame_id4(u(t, 0), u(t, 1), u(t, 2), u(t, 3))); });

  // -------------------------------------------------------------- MPEG audio
  static reg fsync("findsync", [](const args_t &a) { // findsync BYTES START MASK
      std::istringstream is(unhex(a.at(1))); is.seekg(num(a.at(2)));
      auto m = std::ios_base::iostate(num(a.at(3))); is.exceptions(m);
      J j; std::string ex;
      try { find_sync(is); } catch (...) { ex = describe_current_exception(); }
      j.b("mask", is.exceptions() == m); is.exceptions(std::ios_base::goodbit);
      j.b("good", (bool)is).n("pos", is ? (long long)is.tellg() : -1).b("threw", !ex.empty());
      return j.done(); });
  static reg xing("xing", [](const args_t &a) {
      std::istringstream is(unhex(a.at(1))); xing_mp3_tag t(is); J j; j.b("toc", t.has_toc());
      if (t.num_frames()) j.u("frames", *t.num_frames()); if (t.file_size_bytes()) j.u("bytes", *t.file_size_bytes());
      return j.n("pos", is ? (long long)is.tellg() : -1).done(); });
  static reg vbri("vbri", [](const args_t &a) {
      std::istringstream is(unhex(a.at(1))); vbri_mp3_tag t(is);
      return J().u("frames", t.num_frames()).u("bytes", t.file_size_bytes()).u("per", t.frames_per_toc_entry())
        .n("pos", is ? (long long)is.tellg() : -1).done(); });
  static reg lame("lame", [](const args_t &a) { // lame BYTES : the four that name it, then the rest
      std::string s = unhex(a.at(1)); std::unique_ptr<char[]> id(new char[4]); std::copy(s.begin(), s.begin() + 4, id.get());
      std::istringstream is(s.substr(4)); lame_mp3_tag t(id.get(), is);
      typedef lame_mp3_tag::vbr_method M; const char *m = "?";
      switch (t.get_vbr_method()) {
      case M::unknown: m = "unknown"; break; case M::constant: m = "constant"; break; case M::abr: m = "abr"; break;
      case M::vbr_1: m = "vbr_1"; break; case M::vbr_2: m = "vbr_2"; break; case M::vbr_3: m = "vbr_3"; break;
      case M::vbr_4: m = "vbr_4"; break; case M::cbr_two_pass: m = "cbr_two_pass"; break; case M::abr_two_pass: m = "abr_two_pass"; break;
      }
      return J().str("method", m).n("bitrate", t.get_bitrate()).u("bytes", t.get_size_bytes()).done(); });
  // mp3head BYTES VBR WAY MASK : one frame, read as a whole or after its header, and where the stream is left
  static reg mp3head("mp3head", [](const args_t &a) {
      std::string s = unhex(a.at(1)); std::istringstream is(s); is.exceptions(std::ios_base::iostate(num(a.at(4))));
      std::uint8_t h[4]; J j;
      std::unique_ptr<mp3_audio_frame> f;
      try {
        if (a.at(3) == "split") { is.read((char*)h, 4); f.reset(new mp3_audio_frame(h, is, num(a.at(2)))); }
        else f.reset(new mp3_audio_frame(is, num(a.at(2))));
      } catch (const mp3_audio_frame::error &e) { j.str("why", e.what()); }
      is.exceptions(std::ios_base::goodbit);
      if (f) {
        mp3_audio_frame g(*f);
        j.n("bps", g.bps()).n("hz", g.sample_rate_hz()).u("size", g.size()).n("ver", (int)g.version());
        auto d = g.duration(); j.u("dn", d.first).u("dd", d.second);
        auto v = g.vbri(); if (v) j.u("vn", v->first).u("vd", v->second);
      }
      return j.n("pos", is ? (long long)is.tellg() : -1).done(); });
}
