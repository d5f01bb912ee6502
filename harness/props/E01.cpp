#include "../norm.hpp"
#include <u5e/utf8_iterator.hpp>

struct P : Property {
  const char* id() const { return "E01"; }
  const char* rule() const {
    return "a text held as UTF-8 and UTF-32, in strings, views and raw memory: codepoints, clusters, clusters from offsets, and "
           "every form to every destination, converted before or after, are compared with each other (no model involved); "
           "non-trivial: codepoints of several encoded lengths and a form that differs from the text";
  }
  int big() { return 20000; }
  std::vector<FieldSpec> fields() const { return { { "text", SCALARS } }; }
  std::vector<int> reps;
  void setup() { reps = gen::gcb_representatives(); for (int c : { 0xC4, 0xAC01, 0x323, 0xFB03, 0x1D15E }) reps.push_back(c); }
  uint64_t enum_count(bool thorough) { return gen::sweep_count(200) + gen::ClassWalk(reps, thorough ? 4 : 3).total; }
  const char* enum_what(bool t) { return t ? "every scalar value in texts of 200 of them; every sequence of up to 4 over the break classes and five composites" : "every scalar value in texts of 200 of them; every sequence of up to 3 over the break classes and five composites"; }
  void enum_case(uint64_t i, Case& c) {
    if (i < gen::sweep_count(200)) { gen::sweep(i, c[0], 200); return; }
    i -= gen::sweep_count(200);
    gen::ClassWalk(reps, 4).make(i, c[0]); }
  void gen(Source& s, Case& c) { gen::text(s, c[0]); }

  template <class It> static Text cps(It b, It e, size_t max) {
    Text r;
    for (; b != e && r.size() <= max; ++b) { It copy = b; int v = *copy; r.push_back(v); }
    return r;
  }
  template <class S> static std::vector<Text> clusters(S& s, size_t max) {
    std::vector<Text> r;
    auto e = s.grapheme_end();
    for (auto i = s.grapheme_begin(); i != e && r.size() <= max; ++i) { auto g = *i; r.push_back(cps(g.codepoint_begin(), g.codepoint_end(), max)); }
    return r;
  }
  // UTF-32 written as UTF-8 by the library, and read back by it
  static S8 to8(S32& s) { S8 r; r.append_from_utf32ne<S32>(s.codepoint_cbegin(), s.codepoint_cend()); return r; }
  static int push(int c, S32& out) { out.native_string.push_back(c); return 1; }
  static S32 to32(S8& s) { S32 r; u5e::filter(s.codepoint_cbegin(), s.codepoint_cend(), r, [](int c, S32& o) { return push(c, o); }); return r; }

  template <int F> void form(Ctx& x, S8& a, V8& b, S32& c, V32& d) {
    S8 a8, b8, c8, d8;
    S32 a32, b32, c32, d32;
    norm<F>(a, a8); norm<F>(b, b8); norm<F>(c, c8); norm<F>(d, d8);
    norm<F>(a, a32); norm<F>(b, b32); norm<F>(c, c32); norm<F>(d, d32);
    const char* f = ucd::form_names[F];
    auto e8 = [&](const S8& p, const S8& q, const char* what) {
      x.checks++;
      if (p.native_string != q.native_string)
        x.fail("form %s, %s:\n  %s\n  %s", f, what, show_octets(p.native_string).c_str(), show_octets(q.native_string).c_str());
    };
    auto e32 = [&](const S32& p, const S32& q, const char* what) {
      x.checks++;
      if (p.native_string != q.native_string)
        x.fail("form %s, %s:\n  %s\n  %s", f, what, show(text_of(p.native_string)).c_str(), show(text_of(q.native_string)).c_str());
    };
    e8(b8, a8, "UTF-8 view and string to UTF-8");
    e8(c8, a8, "UTF-32 string and UTF-8 string to UTF-8");
    e8(d8, a8, "UTF-32 view and UTF-8 string to UTF-8");
    e32(b32, a32, "UTF-8 view and string to UTF-32");
    e32(c32, a32, "UTF-32 string and UTF-8 string to UTF-32");
    e32(d32, a32, "UTF-32 view and UTF-8 string to UTF-32");
    e8(to8(c32), a8, "converted after and not at all");
    e32(to32(a8), c32, "converted after and before");
    S8 conv = to8(c), o8;
    norm<F>(conv, o8);
    e8(o8, c8, "converted before and on the way");
    if (a8.native_string != a.native_string) changed = true;
  }
  template <int F> void apart(Ctx& x, S8& a, D8& m8, D32& m32) {
    S8 r, p, q;
    norm<F>(a, r); norm<F>(m8, p); norm<F>(m32, q);
    x.checks += 2;
    if (p.native_string != r.native_string || q.native_string != r.native_string)
      x.fail("form %s, from units lying apart:\n  %s\n  %s\n  string %s", ucd::form_names[F], show_octets(p.native_string).c_str(),
             show_octets(q.native_string).c_str(), show_octets(r.native_string).c_str());
  }
  template <int F> void another(Ctx& x, S8& a, S32& c) {
    S8 r;
    norm<F>(a, r);
    A8 in(astring8(a.native_string.begin(), a.native_string.end())), out;
    A32 out32;
    norm<F>(in, out32);
    norm<F>(c, out);
    S8 p;
    p.append_from_utf32ne<astring32>(out32.codepoint_cbegin(), out32.codepoint_cend());
    x.checks += 2;
    if (p.native_string != r.native_string || std::string(out.native_string.begin(), out.native_string.end()) != r.native_string)
      x.fail("form %s, with strings of another type, of %s", ucd::form_names[F], show_octets(a.native_string).c_str());
  }
  bool changed;
  void run(const Case& cs, Ctx& x) {
    const Text& t = cs[0];
    std::string s = ucd::encode(t);
    label_size(x, t.size());
    S8 a(s);
    V8 b = v8(s);
    S32 c = s32(t);
    V32 d = v32(t);
    size_t max = t.size() + 1;
    const char* p = s.data();
    Text ra = cps(a.codepoint_begin(), a.codepoint_end(), max), rc = cps(c.codepoint_begin(), c.codepoint_end(), max);
    same(x, rc, ra, "codepoints, UTF-32 string and UTF-8 string");
    same(x, cps(a.codepoint_cbegin(), a.codepoint_cend(), max), ra, "codepoints, UTF-8 const and not");
    same(x, cps(b.codepoint_begin(), b.codepoint_end(), max), ra, "codepoints, UTF-8 view and string");
    same(x, cps(d.codepoint_begin(), d.codepoint_end(), max), ra, "codepoints, UTF-32 view and UTF-8 string");
    same(x, cps(u5e::utf8_const_iterator<const char*>(p), u5e::utf8_const_iterator<const char*>(p + s.size()), max), ra, "codepoints, raw memory and string");
    std::vector<Text> g = clusters(a, max);
    x.checks += 3;
    Sc8 apart8(s);
    Scattered<int> apart32(t);
    D8 m8(apart8);
    D32 m32(apart32);
    same(x, cps(m8.codepoint_begin(), m8.codepoint_end(), max), ra, "codepoints, octets lying apart and string");
    same(x, cps(m32.codepoint_cbegin(), m32.codepoint_cend(), max), ra, "codepoints, units lying apart and string");
    apart<ucd::FORM_D>(x, a, m8, m32);
    apart<ucd::FORM_C>(x, a, m8, m32);
    apart<ucd::FORM_KD>(x, a, m8, m32);
    apart<ucd::FORM_KC>(x, a, m8, m32);
    if (s.size() % 3 == 1) {
      another<ucd::FORM_D>(x, a, c);
      another<ucd::FORM_C>(x, a, c);
      another<ucd::FORM_KD>(x, a, c);
      another<ucd::FORM_KC>(x, a, c);
    }
    if (clusters(m8, max) != g || clusters(m32, max) != g) x.fail("clusters differ where units lie apart, of %s", show(t).c_str());
    if (clusters(b, max) != g || clusters(c, max) != g || clusters(d, max) != g) x.fail("clusters differ between storages of %s", show(t).c_str());
    x.checks += 2;
    S8 c8 = to8(c);
    if (c8.native_string != a.native_string) x.fail("converting %s to UTF-8", show(t).c_str());
    S32 a32 = to32(a);
    if (a32.native_string != c.native_string) x.fail("converting %s to UTF-32", show(t).c_str());
    changed = false;
    form<ucd::FORM_D>(x, a, b, c, d);
    form<ucd::FORM_C>(x, a, b, c, d);
    form<ucd::FORM_KD>(x, a, b, c, d);
    form<ucd::FORM_KC>(x, a, b, c, d);
    if (changed && mixed_lengths(t)) x.nontrivial();
  }
};
PROPERTY(P)
