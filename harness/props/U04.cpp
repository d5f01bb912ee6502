#include "../common.hpp"
using u5e::utf8_iterator;
using u5e::utf8_const_iterator;

struct P : Property {
  const char* id() const { return "U04"; }
  const char* rule() const {
    return "a text and octet offsets into it; every offset (all of them for short texts) is read, stepped and compared "
           "with every other chosen offset, on five iterator kinds; non-trivial: an offset lies inside a codepoint, "
           "not at its start";
  }
  int big() { return 70000; }
  std::vector<FieldSpec> fields() const { return { { "text", SCALARS }, { "offsets", INTS } }; }
  uint64_t enum_count(bool) { return gen::scalars_count(); }
  const char* enum_what(bool) { return "every scalar value between two others, all offsets and pairs of offsets"; }
  void enum_case(uint64_t i, Case& c) {
    static const int around[] = { 'x', 0xE9, 0x20AC, 0x1F4A9, 0x10FFFF };
    c[0] = { around[i % 5], gen::nth_scalar(i), around[(i / 5) % 5] };
  }
  void gen(Source& s, Case& c) {
    gen::text(s, c[0]);
    for (int i = 0; i < 12; i++) c[1].push_back(s.below(1 << 20));
  }
  template <class It, class B>
  void probe(Ctx& x, const Text& t, const std::vector<size_t>& o, const std::vector<size_t>& own,
             const std::vector<size_t>& at, B base, size_t n, const char* what) {
    It end(base + n);
    for (size_t a : at) {
      size_t k = own[a];
      It i(base + a);
      int v = *i;
      if (v != t[k]) x.fail("%s: octet %zu reads %04X, not %04X", what, a, v, t[k]);
      It f(base + a);
      ++f;
      if (size_t(f.raw_iterator_ - base) != o[k+1]) x.fail("%s: ++ from octet %zu goes to %zu, not %zu", what, a, size_t(f.raw_iterator_ - base), o[k+1]);
      It f2(base + a);
      f2++;
      if (size_t(f2.raw_iterator_ - base) != o[k+1]) x.fail("%s: post-++ from octet %zu goes to %zu, not %zu", what, a, size_t(f2.raw_iterator_ - base), o[k+1]);
      if (k > 0) {
        It r(base + a);
        --r;
        if (size_t(r.raw_iterator_ - base) != o[k-1]) x.fail("%s: -- from octet %zu goes to %zu, not %zu", what, a, size_t(r.raw_iterator_ - base), o[k-1]);
        It r2(base + a);
        r2--;
        if (size_t(r2.raw_iterator_ - base) != o[k-1]) x.fail("%s: post--- from octet %zu goes to %zu, not %zu", what, a, size_t(r2.raw_iterator_ - base), o[k-1]);
      }
      It p(base + a);
      if (p == end || !(p != end)) x.fail("%s: octet %zu of %zu equals the end", what, a, n);
      if (end == p || !(end != p)) x.fail("%s: the end equals octet %zu of %zu", what, a, n);
      for (size_t b : at) {
        It q(base + b);
        bool want = own[a] == own[b];
        x.checks++;
        if ((p == q) != want) x.fail("%s: octets %zu and %zu: == is %d", what, a, b, !want);
        if ((p != q) == want) x.fail("%s: octets %zu and %zu: != is %d", what, a, b, want);
      }
    }
    if (!(end == end) || end != end) x.fail("%s: the end differs from itself", what);
  }
  void run(const Case& c, Ctx& x) {
    const Text& t = c[0];
    std::string s = ucd::encode(t);
    std::vector<size_t> o = offsets8(t), own = owner(o), at;
    if (s.size() <= 24) for (size_t i = 0; i < s.size(); i++) at.push_back(i);
    else {
      for (int v : c[1]) { size_t a = v % s.size(); at.push_back(a); if (a + 1 < s.size() && (v & 0x100)) at.push_back(a + 1); }
      // always the last codepoint and the first
      at.push_back(s.size() - 1);
      at.push_back(0);
    }
    for (size_t a : at) if (o[own[a]] != a) x.nontrivial();
    label_size(x, t.size());
    if (mixed_lengths(t)) x.label("mixed octet lengths");
    std::string padded = s + '\0';        // "end == it" looks at one octet after, see known_findings.txt
    if (guard().fits(padded.size())) {
      const char* p = guard().right(padded);
      probe<utf8_const_iterator<const char*>>(x, t, o, own, at, p, s.size(), "const char*");
      probe<V8::const_iterator>(x, t, o, own, at, p, s.size(), "view");
      char* q = guard().left(padded);
      probe<utf8_iterator<char*>>(x, t, o, own, at, q, s.size(), "char*");
    }
    S8 str(s);
    probe<S8::const_iterator>(x, t, o, own, at, str.native_cbegin(), s.size(), "string, const");
    probe<S8::iterator>(x, t, o, own, at, str.native_begin(), s.size(), "string, mutable");
    std::basic_string<unsigned char> un(s.begin(), s.end());     // octets without a sign
    probe<utf8_const_iterator<const unsigned char*>>(x, t, o, own, at, un.data(), s.size(), "const unsigned char*");
    probe<utf8_iterator<unsigned char*>>(x, t, o, own, at, &un[0], s.size(), "unsigned char*");
    Sc8 apart(s);
    probe<utf8_const_iterator<Sc8::const_iterator>>(x, t, o, own, at, apart.cbegin(), s.size(), "octets lying apart, const");
    check(x, str.native_string == s, "looking changed the text");
  }
};
PROPERTY(P)
