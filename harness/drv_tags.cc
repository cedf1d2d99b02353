// ID3v2 tags: parse, build, edit, copy, dump, write
#include "drv.hh"
#include <scribbu/id3v2-utils.hh>
#include <algorithm>
#include <type_traits>
#include <fstream>

using namespace scribbu;

namespace drv {

  struct T2 {
    typedef id3v2_2_tag tag; typedef id3v2_2_frame frame; typedef id3v2_2_text_frame text;
    typedef unknown_id3v2_2_frame unk; typedef UFI ufid; typedef TXX txxx; typedef COM comm;
    typedef CNT pcnt; typedef POP popm; typedef XTG xtag; typedef frame_id3 id; typedef void encr; typedef void priv;
    static const int ver = 2;
  };
  struct T3 {
    typedef id3v2_3_tag tag; typedef id3v2_3_frame frame; typedef id3v2_3_text_frame text;
    typedef unknown_id3v2_3_frame unk; typedef UFID ufid; typedef TXXX txxx; typedef COMM comm;
    typedef PCNT pcnt; typedef POPM popm; typedef XTAG xtag; typedef frame_id4 id; typedef ENCR encr; typedef PRIV priv;
    static const int ver = 3;
  };
  struct T4 {
    typedef id3v2_4_tag tag; typedef id3v2_4_frame frame; typedef id3v2_4_text_frame text;
    typedef unknown_id3v2_4_frame unk; typedef UFID_2_4 ufid; typedef TXXX_2_4 txxx; typedef COMM_2_4 comm;
    typedef PCNT_2_4 pcnt; typedef POPM_2_4 popm; typedef XTAG_2_4 xtag; typedef frame_id4 id; typedef ENCR_2_4 encr; typedef PRIV_2_4 priv;
    static const int ver = 4;
  };

  // ---------------------------------------------------------------- dumping

  typedef std::vector<unsigned char> bytes;

  template <typename F> std::string quoted(F f) { return "\"" + hex(std::string(f())) + "\""; }

  template <class T> std::string dump_frame(const typename T::frame &f) {
    J j;
    j.hx("id", f.id().as_string());
    j.b("exp", f.experimental());
    field(j, "size", [&]{ return std::to_string(f.size()); });
    field(j, "ss0", [&]{ return std::to_string(f.serialized_size(false)); });
    field(j, "ss1", [&]{ return std::to_string(f.serialized_size(true)); });
    field(j, "nu", [&]{ return std::to_string(f.needs_unsynchronisation()); });
    field(j, "w0", [&]{ std::ostringstream os; f.write(os, false); return "\"" + hex(os.str()) + "\""; });
    field(j, "w1", [&]{ std::ostringstream os; f.write(os, true); return "\"" + hex(os.str()) + "\""; });
    if constexpr (T::ver > 2) {
      j.b("tap", f.tag_alter_preserve() == id3v2_3_plus_frame::tag_alter_preservation::discard);
      j.b("fap", f.file_alter_preserve() == id3v2_3_plus_frame::file_alter_preservation::discard);
      j.b("ro", f.readonly() == id3v2_3_plus_frame::read_only::set);
      j.b("cmp", f.compressed()).b("enc", f.encrypted()).b("grp", f.grouped());
    }
    if constexpr (T::ver == 4) j.b("uns", f.unsynchronised());
    if (auto p = dynamic_cast<const typename T::text*>(&f)) {
      bytes b; p->text(std::back_inserter(b));
      j.str("k", "text").n("uni", p->unicode()).hx("raw", b);
      field(j, "str", [&]{ return quoted([&]{ return p->template as_str<std::string>(); }); });
    } else if (auto p = dynamic_cast<const typename T::unk*>(&f)) {
      bytes b; p->data(std::back_inserter(b));
      j.str("k", "unk").hx("raw", b);
    } else if (auto p = dynamic_cast<const typename T::ufid*>(&f)) {
      bytes o, i; p->ownerb(std::back_inserter(o)); p->idb(std::back_inserter(i));
      j.str("k", "ufid").hx("owner", o).hx("data", i);
      field(j, "ownstr", [&]{ return quoted([&]{ return p->template owner<std::string>(); }); });
    } else if (auto p = dynamic_cast<const typename T::txxx*>(&f)) {
      bytes d, t; p->descriptionb(std::back_inserter(d)); p->textb(std::back_inserter(t));
      j.str("k", "txxx").n("uni", p->unicode()).hx("draw", d).hx("raw", t);
      field(j, "dsc", [&]{ return quoted([&]{ return p->template description<std::string>(); }); });
      field(j, "str", [&]{ return quoted([&]{ return p->template text<std::string>(); }); });
    } else if (auto p = dynamic_cast<const typename T::comm*>(&f)) {
      bytes d, t; p->descriptionb(std::back_inserter(d)); p->textb(std::back_inserter(t));
      unsigned char a, b, c; std::tie(a, b, c) = p->lang(); char l[3] = { char(a), char(b), char(c) };
      j.str("k", "comm").n("uni", p->unicode()).hx("lang", std::string(l, 3)).hx("draw", d).hx("raw", t);
      field(j, "dsc", [&]{ return quoted([&]{ return p->template description<std::string>(); }); });
      field(j, "str", [&]{ return quoted([&]{ return p->template text<std::string>(); }); });
    } else if (auto p = dynamic_cast<const typename T::pcnt*>(&f)) {
      j.str("k", "pcnt");
      field(j, "count", [&]{ return std::to_string(p->count()); });
    } else if (auto p = dynamic_cast<const typename T::popm*>(&f)) {
      bytes o, c; p->emailb(std::back_inserter(o)); p->counterb(std::back_inserter(c));
      j.str("k", "popm").hx("owner", o).n("rating", p->rating()).hx("cbytes", c);
      field(j, "count", [&]{ return std::to_string(p->count()); });
    } else if (auto p = dynamic_cast<const typename T::xtag*>(&f)) {
      J m;
      for (auto q = p->begin(); q != p->end(); ++q) {
        J vs('['); for (auto &v : q->second) vs.push("\"" + hex(v) + "\"");
        m.raw(hex(q->first), vs.done());
      }
      j.str("k", "xtag").hx("owner", p->owner()).raw("cloud", m.done());
      field(j, "url", [&]{ return quoted([&]{ return p->urlencoded(); }); });
    } else if constexpr (T::ver > 2) {
      if (auto p = dynamic_cast<const typename T::encr*>(&f)) {
        bytes o, d; p->emailb(std::back_inserter(o)); p->datab(std::back_inserter(d));
        j.str("k", "encr").hx("owner", o).n("sym", p->method_symbol()).hx("data", d);
      } else if (auto p = dynamic_cast<const typename T::priv*>(&f)) {
        bytes o, d; p->emailb(std::back_inserter(o)); p->contentsb(std::back_inserter(d));
        j.str("k", "priv").hx("owner", o).hx("data", d);
      } else j.str("k", "?");
    } else j.str("k", "?");
    return j.done();
  }

  template <class T> std::string dump_impl(const typename T::tag &tag, J &j) {
    J fs('[');
    std::vector<std::string> ids;
    for (auto p = tag.begin(); p != tag.end(); ++p) {
      fs.push(dump_frame<T>(*p));
      std::string s = p->id().as_string();
      if (std::find(ids.begin(), ids.end(), s) == ids.end()) ids.push_back(s);
    }
    j.raw("frames", fs.done());
    // lookups by id: how many, and is the one found really such a frame?
    J lk;
    for (auto &s : ids) {
      typename T::id id(s.c_str());
      J e;
      e.u("n", tag.has_frame(id));
      field(e, "got", [&]() -> std::string {
          if (!tag.has_frame(id)) return "null";
          const typename T::frame &f = tag.get_frame(id);
          std::size_t at = 0;
          for (auto p = tag.begin(); p != tag.end(); ++p, ++at) if (&*p == &f) break;
          return J().hx("id", f.id().as_string()).n("at", at).done();
        });
      lk.raw(hex(s), e.done());
    }
    j.raw("lookup", lk.done());
    field(j, "comments", [&]{
        J a('['); std::vector<typename T::comm> v; tag.get_comments(std::back_inserter(v));
        for (auto &c : v) { bytes t; c.textb(std::back_inserter(t)); a.push("\"" + hex(t) + "\""); }
        return a.done(); });
    field(j, "pcnts", [&]{
        J a('['); std::vector<typename T::pcnt> v; tag.get_play_counts(std::back_inserter(v));
        for (auto &c : v) { std::ostringstream os; c.play_count::write(os); a.push("\"" + hex(os.str()) + "\""); }
        return a.done(); });
    field(j, "popms", [&]{
        J a('['); std::vector<typename T::popm> v; tag.get_popularimeters(std::back_inserter(v));
        for (auto &c : v) { bytes o; c.emailb(std::back_inserter(o)); o.push_back(0); o.push_back(c.rating()); c.counterb(std::back_inserter(o)); a.push("\"" + hex(o) + "\""); }
        return a.done(); });
    return std::string();
  }

  std::string dump_tag(const id3v2_tag &tag) {
    J j;
    j.n("ver", tag.version()).n("rev", tag.revision());
    j.raw("unsync", tag.unsynchronised() ? (*tag.unsynchronised() ? "true" : "false") : "null");
    j.u("pad", tag.padding()).u("nf", tag.num_frames());
#define ACC(N) { J e; e.u("n", tag.has_##N()); \
      if (tag.has_##N()) field(e, "v", [&]{ return quoted([&]{ return tag.N(); }); }); \
      j.raw(#N, e.done()); }
    ACC(album) ACC(artist) ACC(content_type) ACC(encoded_by) ACC(languages) ACC(title) ACC(track) ACC(year)
#undef ACC
    { J e; e.u("n", tag.has_play_count());
      if (tag.has_play_count()) field(e, "v", [&]{ return std::to_string(tag.play_count()); });
      j.raw("play_count", e.done()); }
    if (auto p = dynamic_cast<const id3v2_2_tag*>(&tag)) {
      j.str("cls", "2").b("compression", p->compression());
      dump_impl<T2>(*p, j);
    } else if (auto p = dynamic_cast<const id3v2_3_tag*>(&tag)) {
      j.str("cls", "3").b("exp", p->experimental());
      if (p->has_extended_header()) {
        auto x = p->extended_header();
        J e; e.b("hascrc", x.has_crc()).u("padsz", x.padding_size());
        if (x.has_crc()) e.u("crc", x.crc());
        j.raw("ext", e.done());
      }
      dump_impl<T3>(*p, j);
    } else if (auto p = dynamic_cast<const id3v2_4_tag*>(&tag)) {
      j.str("cls", "4").b("exp", p->experimental()).b("footer", p->has_footer());
      if (p->has_extended_header()) {
        auto x = p->extended_header();
        J e; e.b("hascrc", x.has_crc()).b("upd", x.is_update()).b("restr", x.restricted());
        if (x.has_crc()) e.u("crc", x.crc());
        if (x.restricted()) { auto r = x.get_restrictions();
          e.n("r0", (int)std::get<0>(r)).b("r1", std::get<1>(r)).n("r2", (int)std::get<2>(r)).b("r3", std::get<3>(r)).n("r4", (int)std::get<4>(r)); }
        j.raw("ext", e.done());
      }
      dump_impl<T4>(*p, j);
    } else j.str("cls", "?");
    // last, since asking a tag for its size may recompute its checksum
    field(j, "flags", [&]{ return std::to_string(tag.flags()); });
    field(j, "size0", [&]{ return std::to_string(tag.size(false)); });
    field(j, "size1", [&]{ return std::to_string(tag.size(true)); });
    field(j, "nu", [&]{ return std::string(tag.needs_unsynchronisation() ? "true" : "false"); });
    return j.done();
  }

  // ------------------------------------------------------------ frame specs
  //
  //   P <id> <payload>              as if parsed from these payload bytes
  //   T <id> <utf8> <ucs2> <bom>    text frame built from a string

  const auto PRES = id3v2_3_plus_frame::tag_alter_preservation::preserve;
  const auto FPRES = id3v2_3_plus_frame::file_alter_preservation::preserve;
  const auto CLR = id3v2_3_plus_frame::read_only::clear;

  template <class T> std::unique_ptr<typename T::frame>
  make_frame(const args_t &a, std::size_t &i) {
    typedef std::unique_ptr<typename T::frame> R;
    std::string kind = a.at(i++), id = unhex(a.at(i++));
    if (kind == "T") {
      std::string s = unhex(a.at(i)); bool ucs2 = num(a.at(i+1)), bom = num(a.at(i+2)); i += 3;
      if constexpr (T::ver < 4)
        return R(new typename T::text(typename T::id(id.c_str()), s, encoding::UTF_8, bom, on_no_encoding::fail, ucs2));
      else {
        auto fe = ucs2 ? id3v2_4_text_frame::frame_encoding::UTF_16_BOM : id3v2_4_text_frame::frame_encoding::UTF_8;
        return R(new typename T::text(typename T::id(id.c_str()), s, encoding::UTF_8, fe, bom));
      }
    }
    if (kind != "P") throw bad_request("frame kind");
    std::string s = unhex(a.at(i++));
    // exact-size heap buffer, so that an over-read is seen
    std::unique_ptr<unsigned char[]> buf(new unsigned char[s.size()]);
    std::copy(s.begin(), s.end(), buf.get());
    const unsigned char *p = buf.get(), *e = p + s.size();
    if constexpr (T::ver == 2) {
      if (id == "UFI") return R(new UFI(p, e));
      if (id == "TXX") return R(new TXX(p, e));
      if (id == "COM") return R(new COM(p, e));
      if (id == "CNT") return R(new CNT(p, e));
      if (id == "POP") return R(new POP(p, e));
      if (id == "XTG") return R(new XTG(p, e));
      if (id[0] == 'T') return R(new id3v2_2_text_frame(frame_id3(id.c_str()), p, e));
      return R(new unknown_id3v2_2_frame(frame_id3(id.c_str()), p, e));
    } else if constexpr (T::ver == 3) {
      boost::optional<unsigned char> n; boost::optional<std::size_t> z;
      if (id == "UFID") return R(new UFID(p, e, PRES, FPRES, CLR, n, n, z));
      if (id == "ENCR") return R(new ENCR(p, e, PRES, FPRES, CLR, n, n, z));
      if (id == "TXXX") return R(new TXXX(p, e, PRES, FPRES, CLR, n, n, z));
      if (id == "COMM") return R(new COMM(p, e, PRES, FPRES, CLR, n, n, z));
      if (id == "PCNT") return R(new PCNT(p, e, PRES, FPRES, CLR, n, n, z));
      if (id == "POPM") return R(new POPM(p, e, PRES, FPRES, CLR, n, n, z));
      if (id == "XTAG") return R(new XTAG(p, e, PRES, FPRES, CLR, n, n, z));
      if (id == "PRIV") return R(new PRIV(p, e, PRES, FPRES, CLR, n, n, z));
      if (id[0] == 'T') return R(new id3v2_3_text_frame(frame_id4(id.c_str()), p, e, PRES, FPRES, CLR, n, n, z));
      return R(new unknown_id3v2_3_frame(frame_id4(id.c_str()), PRES, FPRES, CLR, n, n, z, p, e));
    } else {
      boost::optional<unsigned char> n; boost::optional<std::size_t> z;
      if (id == "UFID") return R(new UFID_2_4(p, e, PRES, FPRES, CLR, n, n, false, false, z));
      if (id == "ENCR") return R(new ENCR_2_4(p, e, PRES, FPRES, CLR, n, n, false, false, z));
      if (id == "TXXX") return R(new TXXX_2_4(p, e, PRES, FPRES, CLR, n, n, false, false, z));
      if (id == "COMM") return R(new COMM_2_4(p, e, PRES, FPRES, CLR, n, n, false, false, z));
      if (id == "PCNT") return R(new PCNT_2_4(p, e, PRES, FPRES, CLR, n, n, false, false, z));
      if (id == "POPM") return R(new POPM_2_4(p, e, PRES, FPRES, CLR, n, n, false, false, z));
      if (id == "XTAG") return R(new XTAG_2_4(p, e, PRES, FPRES, CLR, n, n, false, false, z));
      if (id == "PRIV") return R(new PRIV_2_4(p, e, PRES, FPRES, CLR, n, n, false, false, z));
      if (id[0] == 'T') return R(new id3v2_4_text_frame(frame_id4(id.c_str()), p, e, PRES, FPRES, CLR, n, n, false, false, z));
      return R(new unknown_id3v2_4_frame(frame_id4(id.c_str()), PRES, FPRES, CLR, n, n, false, false, z, p, e));
    }
  }

  // call F with the frame under its most derived editing overload
  template <class T, typename F> void as_typed(const typename T::frame &f, F fn) {
    if (auto p = dynamic_cast<const typename T::text*>(&f)) fn(*p);
    else if (auto p = dynamic_cast<const typename T::pcnt*>(&f)) fn(*p);
    else if (auto p = dynamic_cast<const typename T::comm*>(&f)) fn(*p);
    else if (auto p = dynamic_cast<const typename T::popm*>(&f)) fn(*p);
    else fn(f);
  }

  template <typename F> std::string with_tag(const std::string &h, F f) {
    id3v2_tag &t = v2(h);
    if (auto p = dynamic_cast<id3v2_2_tag*>(&t)) return f(*p, T2());
    if (auto p = dynamic_cast<id3v2_3_tag*>(&t)) return f(*p, T3());
    if (auto p = dynamic_cast<id3v2_4_tag*>(&t)) return f(*p, T4());
    throw bad_request("tag class");
  }

  // parse H BYTES : read one tag off the front of a stream
  static reg r_parse("parse", [](const args_t &a) {
      std::string s = unhex(a.at(2));
      std::istringstream is(s);
      V2.erase(num(a[1]));
      auto p = maybe_read_id3v2(is);
      J j; j.b("present", (bool)p).n("pos", is.tellg());
      V2[num(a[1])] = std::move(p);
      return j.done();
    });
  // parseall BYTES : dumps of every leading tag
  static reg r_parseall("parseall", [](const args_t &a) {
      std::string s = unhex(a.at(1));
      std::istringstream is(s);
      std::vector<std::unique_ptr<id3v2_tag>> v;
      read_all_id3v2(is, std::back_inserter(v));
      J j; J t('['); for (auto &p : v) t.push(dump_tag(*p));
      j.n("pos", is.tellg()).raw("tags", t.done());
      return j.done();
    });
  // load H0 PATH : read every leading tag of a file into H0, H0+1...
  static reg r_load("load", [](const args_t &a) {
      std::ifstream ifs = open_ifstream(unhex(a.at(2)), std::ios::binary);
      std::vector<std::unique_ptr<id3v2_tag>> v;
      read_all_id3v2(ifs, std::back_inserter(v));
      int h = num(a[1]), n = v.size();
      for (auto &p : v) V2[h++] = std::move(p);
      return J().n("n", n).done();
    });
  static reg r_new("new", [](const args_t &a) {
      // new H VER PAD [EXT]
      int v = num(a.at(2)); std::size_t pad = num(a.at(3)); int ext = a.size() > 4 ? num(a[4]) : 0;
      int h = num(a[1]);
      switch (v) {
      case 2: V2[h].reset(new id3v2_2_tag(pad)); break;
      case 3: V2[h].reset(new id3v2_3_tag(pad, false, id3v2_3_tag::want_extended_header(ext))); break;
      case 4: V2[h].reset(new id3v2_4_tag(pad)); break;
      default: throw bad_request("version");
      }
      return std::string("{}");
    });
  static reg r_drop("drop", [](const args_t &a) { V2.erase(num(a.at(1))); return "{}"; });
  static reg r_clone("clone", [](const args_t &a) {
      std::unique_ptr<id3v2_tag> p(v2(a.at(1)).clone());
      V2[num(a.at(2))] = std::move(p); return "{}"; });
  // assign SRC DST (same version)
  static reg r_assign("assign", [](const args_t &a) {
      id3v2_tag &d = v2(a.at(2));
      return with_tag(a.at(1), [&](auto &t, auto T) {
          typedef typename decltype(T)::tag tag_t;
          tag_t *q = dynamic_cast<tag_t*>(&d);
          if (!q) throw bad_request("assign across versions");
          *q = t;
          return std::string("{}");
        });
    });
  static reg r_dump("dump", [](const args_t &a) { return dump_tag(v2(a.at(1))); });
  static reg r_write("write", [](const args_t &a) {
      id3v2_tag &t = v2(a.at(1)); bool u = num(a.at(2));
      J j;
      j.u("size", t.size(u)).b("nu", t.needs_unsynchronisation());
      std::ostringstream os;
      std::size_t cb = t.write(os, u);
      j.u("cb", cb).hx("out", os.str()).b("good", os.good());
      return j.done();
    });
  // push H BASE FRAME
  static reg r_push("push", [](const args_t &a) {
      return with_tag(a.at(1), [&](auto &t, auto T) {
          typedef decltype(T) TT; std::size_t i = 3;
          auto f = make_frame<TT>(a, i);
          if (num(a.at(2))) t.push_back(*f);
          else as_typed<TT>(*f, [&](auto &x) { t.push_back(x); });
          return std::string("{}");
        });
    });
  // insert H BASE IDX FRAME
  static reg r_insert("insert", [](const args_t &a) {
      return with_tag(a.at(1), [&](auto &t, auto T) {
          typedef decltype(T) TT; std::size_t i = 4;
          auto f = make_frame<TT>(a, i);
          long n = num(a.at(3)); std::size_t at = 999999;
          typename TT::tag::const_iterator p = t.cbegin(); p += n;
          if (num(a.at(2))) { auto q = t.insert(p, *f); at = q - t.begin(); }
          else as_typed<TT>(*f, [&](auto &x) { auto q = t.insert(p, x); at = q - t.begin(); });
          return J().n("at", at).done();
        });
    });
  // replace H BASE IDX FRAME : assignment through a mutable iterator
  static reg r_replace("replace", [](const args_t &a) {
      return with_tag(a.at(1), [&](auto &t, auto T) {
          typedef decltype(T) TT; std::size_t i = 4;
          auto f = make_frame<TT>(a, i);
          auto p = t.begin(); p += num(a.at(3));
          if (num(a.at(2))) *p = *f;
          else as_typed<TT>(*f, [&](auto &x) { *p = x; });
          return std::string("{}");
        });
    });
  // move H1 I H2 J : frame J of H2 into place I of H1, through iterators
  static reg r_move("move", [](const args_t &a) {
      id3v2_tag &d = v2(a.at(3));
      return with_tag(a.at(1), [&](auto &t, auto T) {
          typedef typename decltype(T)::tag tag_t;
          tag_t *q = dynamic_cast<tag_t*>(&d);
          if (!q) throw bad_request("move across versions");
          auto to = t.begin(); to += num(a.at(2));
          auto from = q->begin(); from += num(a.at(4));
          *to = std::move(*from);
          return std::string("{}");
        });
    });
  static reg r_erase("erase", [](const args_t &a) {
      return with_tag(a.at(1), [&](auto &t, auto T) {
          typedef decltype(T) TT;
          typename TT::tag::const_iterator p = t.cbegin(); p += num(a.at(2));
          if (a.size() > 3) {
            typename TT::tag::const_iterator q = t.cbegin(); q += num(a.at(3));
            auto r = t.erase(p, q);
            return J().n("at", r - t.begin()).done();
          }
          auto r = t.erase(p);
          return J().n("at", r - t.begin()).done();
        });
    });
  static reg r_pad("pad", [](const args_t &a) { v2(a.at(1)).padding(num(a.at(2))); return "{}"; });
  static reg r_settext("settext", [](const args_t &a) {
      // settext H NAME TEXT [SRCENC [BOM]]
      id3v2_tag &t = v2(a.at(1)); std::string n = a.at(2), s = unhex(a.at(3));
      encoding e = a.size() > 4 ? enc(a[4]) : encoding::UTF_8; bool bom = a.size() > 5 && num(a[5]);
      if (n == "album") t.album(s, e, bom);
      else if (n == "artist") t.artist(s, e, bom);
      else if (n == "content_type") t.content_type(s, e, bom);
      else if (n == "encoded_by") t.encoded_by(s, e, bom);
      else if (n == "languages") t.languages(s, e, bom);
      else if (n == "title") t.title(s, e, bom);
      else if (n == "track") t.track(s, e, bom);
      else if (n == "year") t.year(s, e, bom);
      else { id3v2_text_frames x; std::istringstream is(n); is >> x; if (!is) throw bad_request("text frame " + n); t.text(x, s, e, bom); }
      return std::string("{}");
    });
  static reg r_gettext("gettext", [](const args_t &a) {
      id3v2_text_frames x; std::istringstream is(a.at(2)); is >> x; if (!is) throw bad_request("text frame");
      return J().hx("v", v2(a.at(1)).text(x)).done();
    });
  static reg r_deltext("deltext", [](const args_t &a) {
      id3v2_text_frames x; std::istringstream is(a.at(2)); is >> x; if (!is) throw bad_request("text frame");
      v2(a.at(1)).delete_frame(x);
      return std::string("{}");
    });
  static language lang_of(const std::string &s) {
    if (s == "-") return language::from_locale;
    language l; std::istringstream is(s); is >> l; if (!is) throw bad_request("language"); return l;
  }
  static reg r_addcomment("addcomment", [](const args_t &a) {
      // addcomment H LANG TEXT DSC UNICODE
      v2(a.at(1)).add_comment(unhex(a.at(3)), lang_of(a.at(2)), encoding::UTF_8, use_unicode(num(a.at(5))), unhex(a.at(4)));
      return "{}";
    });
  static reg r_addudt("addudt", [](const args_t &a) {
      // addudt H TEXT DSC UNICODE
      v2(a.at(1)).add_user_defined_text(unhex(a.at(2)), encoding::UTF_8, use_unicode(num(a.at(4))), unhex(a.at(3)));
      return "{}";
    });
  // mutate H IDX WHAT ARGS : change one frame in place
  static reg r_mutate("mutate", [](const args_t &a) {
      return with_tag(a.at(1), [&](auto &t, auto T) {
          typedef decltype(T) TT;
          auto it = t.begin(); it += num(a.at(2));
          typename TT::frame &f = *it;
          std::string w = a.at(3);
          if (auto p = dynamic_cast<typename TT::pcnt*>(&f)) {
            if (w == "count") { p->count(num(a.at(4))); return std::string("{}"); }
            if (w == "inc") { p->inc(); return std::string("{}"); }
          }
          if (auto p = dynamic_cast<typename TT::popm*>(&f)) {
            if (w == "count") { p->count(num(a.at(4))); return std::string("{}"); }
            if (w == "inc") { p->inc(); return std::string("{}"); }
            if (w == "rating") { p->rating(num(a.at(4))); return std::string("{}"); }
          }
          if (auto p = dynamic_cast<typename TT::comm*>(&f)) {
            if (w == "text") { p->comments::text(unhex(a.at(4)), encoding::UTF_8); return std::string("{}"); }
            if (w == "dsc") { p->comments::description(unhex(a.at(4)), encoding::UTF_8); return std::string("{}"); }
          }
          if (auto p = dynamic_cast<typename TT::text*>(&f)) {
            if (w == "set") { p->set(unhex(a.at(4))); return std::string("{}"); }
          }
          if (auto p = dynamic_cast<typename TT::xtag*>(&f)) {
            if (w == "addkey") return J().b("r", p->add_key(unhex(a.at(4)))).done();
            if (w == "addval") return J().b("r", p->add_value(unhex(a.at(4)), unhex(a.at(5)))).done();
            if (w == "merge") { p->merge(unhex(a.at(4))); return std::string("{}"); }
            if (w == "update") { p->update(unhex(a.at(4))); return std::string("{}"); }
            if (w == "has") return J().b("k", p->has_key(unhex(a.at(4)))).b("v", p->has_value(unhex(a.at(4)), unhex(a.at(5)))).done();
          }
          throw bad_request("mutate: " + w);
        });
    });
  // fclone H IDX : clone a frame, dump the clone
  static reg r_fclone("fclone", [](const args_t &a) {
      return with_tag(a.at(1), [&](auto &t, auto T) {
          typedef decltype(T) TT;
          auto it = t.begin(); it += num(a.at(2));
          typename TT::frame &f = *it;
          std::unique_ptr<typename TT::frame> p(f.clone());
          return J().raw("a", dump_frame<TT>(f)).raw("b", dump_frame<TT>(*p)).done();
        });
    });
  // unsync BYTES LAST ; resync BYTES
  static reg r_unsync("unsync", [](const args_t &a) {
      std::string s = unhex(a.at(1)); bytes b(s.begin(), s.end()), o;
      std::size_t n = detail::unsynchronise(std::back_inserter(o), b.begin(), b.end(), num(a.at(2)));
      return J().u("n", n).hx("out", o).done();
    });
  static reg r_resync("resync", [](const args_t &a) {
      std::string s = unhex(a.at(1));
      std::unique_ptr<unsigned char[]> buf(new unsigned char[s.size()]);
      std::copy(s.begin(), s.end(), buf.get());
      std::size_t n = resynchronise(buf.get(), s.size());
      return J().u("n", n).hx("out", std::string((char*)buf.get(), n)).done();
    });
  // tags of a list of handles: clouds built from text
  static reg r_xtagnew("xtagnew", [](const args_t &a) {
      // xtagnew OWNER TEXT : build a v2.2 cloud, dump it
      XTG x(unhex(a.at(1)), unhex(a.at(2)));
      return dump_frame<T2>(x);
    });
}
