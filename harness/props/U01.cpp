#include "../common.hpp"
using u5e::utf8_iterator;
using u5e::utf8_const_iterator;

struct P : Property {
  const char* id() const { return "U01"; }
  const char* rule() const {
    return "a text of scalar values (every single scalar value first, then stratified random texts), "
           "read through ten storage/iterator kinds; non-trivial: has a codepoint of two or more octets";
  }
  int big() { return 70000; }
  std::vector<FieldSpec> fields() const { return { { "text", SCALARS } }; }
  uint64_t enum_count(bool) { return gen::scalars_count(); }
  const char* enum_what(bool) { return "every scalar value, alone"; }
  void enum_case(uint64_t i, Case& c) { c[0].push_back(gen::nth_scalar(i)); }
  void gen(Source& s, Case& c) { gen::text(s, c[0]); }

  // native offset of a position
  template <class B, class It> static size_t off(B base, It it) {
    return it.raw_iterator_ - base;
  }
  template <class It, class B>
  void walk(Ctx& x, const Text& t, const std::vector<size_t>& o, It b, It e, B base, const char* what) {
    size_t k = 0;
    It i = b;           // pre-increment
    It j = b;           // post-increment
    while (i != e) {
      if (k >= t.size()) x.fail("%s: the end is not recognised after %zu codepoints", what, k);
      if (i == e) x.fail("%s: == and != agree at %zu", what, k);
      if (off(base, i) != o[k]) x.fail("%s: codepoint %zu at octet %zu, not %zu", what, k, off(base, i), o[k]);
      int v = *i;
      if (v != t[k]) x.fail("%s: codepoint %zu is %04X, not %04X", what, k, v, t[k]);
      int again = *i;
      if (again != v) x.fail("%s: reading twice gives %04X, then %04X", what, v, again);
      It copy = j++;
      if (off(base, copy) != o[k]) x.fail("%s: it++ returned octet %zu, not %zu", what, off(base, copy), o[k]);
      v = *copy;
      if (v != t[k]) x.fail("%s: *it++ is %04X, not %04X", what, v, t[k]);
      It& r = ++i;
      if (&r != &i) x.fail("%s: ++it does not return the iterator", what);
      k++;
      if (off(base, i) != o[k] || off(base, j) != o[k])
        x.fail("%s: after codepoint %zu, ++ is at %zu and post-++ at %zu, not %zu", what, k - 1, off(base, i), off(base, j), o[k]);
      x.checks++;
    }
    if (k != t.size()) x.fail("%s: ends after %zu codepoints of %zu", what, k, t.size());
    if (!(i == e) || !(j == e)) x.fail("%s: == and != agree at the end", what);
  }
  void run(const Case& c, Ctx& x) {
    const Text& t = c[0];
    std::string s = ucd::encode(t);
    std::vector<size_t> o = offsets8(t);
    for (int v : t) if (v >= 0x80) x.nontrivial();
    label_size(x, t.size());
    if (mixed_lengths(t)) x.label("mixed octet lengths");

    if (guard().fits(s.size())) {
      // nothing after the text may be looked at
      const char* p = guard().right(s);
      walk(x, t, o, utf8_const_iterator<const char*>(p), utf8_const_iterator<const char*>(p + s.size()), p, "const char*");
      char* q = guard().right(s);
      walk(x, t, o, utf8_iterator<char*>(q), utf8_iterator<char*>(q + s.size()), q, "char*");
      walk(x, t, o, utf8_iterator<const char*>(p), utf8_iterator<const char*>(p + s.size()), p, "mutable over const char*");
      V8 v(sview(p, s.size()));
      walk(x, t, o, v.codepoint_begin(), v.codepoint_end(), p, "view, mutable");
      walk(x, t, o, v.codepoint_cbegin(), v.codepoint_cend(), p, "view, const");
      check(x, std::string(q, s.size()) == s, "reading changed the text");
    }
    S8 str(s);
    walk(x, t, o, str.codepoint_begin(), str.codepoint_end(), str.native_begin(), "string, mutable");
    walk(x, t, o, str.codepoint_cbegin(), str.codepoint_cend(), str.native_cbegin(), "string, const");
    walk(x, t, o, utf8_const_iterator<std::string::const_iterator>(s.cbegin()),
         utf8_const_iterator<std::string::const_iterator>(s.cend()), s.cbegin(), "std::string, const");
    walk(x, t, o, utf8_iterator<std::string::iterator>(s.begin()),
         utf8_iterator<std::string::iterator>(s.end()), s.begin(), "std::string, mutable");
    V8 v2(sview(s.data(), s.size()));
    walk(x, t, o, v2.codepoint_cbegin(), v2.codepoint_cend(), s.data(), "view of a string");
    std::basic_string<unsigned char> un(s.begin(), s.end());     // octets without a sign
    walk(x, t, o, utf8_const_iterator<const unsigned char*>(un.data()), utf8_const_iterator<const unsigned char*>(un.data() + un.size()), un.data(), "const unsigned char*");
    walk(x, t, o, utf8_iterator<unsigned char*>(&un[0]), utf8_iterator<unsigned char*>(&un[0] + un.size()), (const unsigned char*)un.data(), "unsigned char*");
    Sc8 apart(s);
    walk(x, t, o, utf8_const_iterator<Sc8::const_iterator>(apart.cbegin()),
         utf8_const_iterator<Sc8::const_iterator>(apart.cend()), apart.cbegin(), "octets lying apart, const");
    walk(x, t, o, utf8_iterator<Sc8::iterator>(apart.begin()), utf8_iterator<Sc8::iterator>(apart.end()), apart.begin(), "octets lying apart, mutable");
    check(x, str.native_string == s, "reading changed the text");
  }
};
PROPERTY(P)
