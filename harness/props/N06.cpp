#include "../norm.hpp"

struct P : Property {
  const char* id() const { return "N06"; }
  const char* rule() const {
    return "a text, what the destination holds before, and cuts; each form, from two of the four sources to two of the "
           "destinations: whole, grapheme by grapheme, in pieces between the graphemes of the cuts, and again into the same "
           "destination; non-trivial: the destination holds something and the number of codepoints changes, or a cut lies "
           "inside the text";
  }
  int big() { return 6000; }
  std::vector<FieldSpec> fields() const { return { { "text", SCALARS }, { "dest", SCALARS }, { "cuts", INTS } }; }
  std::vector<int> all;
  uint64_t enum_count(bool thorough) {
    all.clear();
    for (uint64_t i = 0; i < gen::scalars_count(); i++) {
      int c = gen::nth_scalar(i);
      if (thorough || c < 0x80 || ucd::ccc(c) || (ucd::has_compat(c) && (!ucd::is_hangul_syllable(c) || c % 37 == 0))) all.push_back(c);
    }
    return all.size() + gen::sweep_count(40);
  }
  const char* enum_what(bool t) {
    return t ? "every scalar value with a mark before and after, cut in the middle; and every one after itself"
             : "every scalar value that decomposes or is a mark (and some Hangul syllables) with a mark before and after, cut in the middle; and every scalar value after itself";
  }
  void enum_case(uint64_t i, Case& c) {
    if (i >= all.size()) {      // every one follows itself, the first of them in the destination
      i -= all.size();
      for (uint64_t k = i * 40; k < (i + 1) * 40 && k < gen::scalars_count(); k++) {
        int v = gen::nth_scalar(k);
        c[0].push_back(v);
        c[0].push_back(v);
      }
      c[1] = { c[0][0] };
      c[2] = { int(i & 1), int(i * 7919 & 0xFFFF), int(i * 104729 & 0xFFFF) };
      return;
    }
    c[0] = { 'a', 0x300, all[i], 0x301 };
    c[1] = { 0x1100 };
    c[2] = { int(i & 1), 2 };
  }
  void gen(Source& s, Case& c) {
    gen::text(s, c[0]);
    gen::before(s, c[0], c[1]);
    for (int i = 0, n = s.range(1, 4); i < n; i++) c[2].push_back(s.below(1 << 20));
  }
  static size_t count(const S32& s) { return s.native_string.size(); }
  static size_t count(const S8& s) { size_t n = 0; for (unsigned char ch : s.native_string) n += (ch & 0xC0) != 0x80; return n; }
  static S8 dest8(const Text& t) { return S8(ucd::encode(t)); }
  static S32 dest32(const Text& t) { return s32(t); }

  template <int F, class In, class Out>
  void one(Ctx& x, In& in, Out d, const Text& t, const std::vector<size_t>& units, const char* what) {
    typedef u5e::basic_grapheme_iterator<In> G;
    const auto before = d.native_string;
    auto prefix = [&](const Out& o) { return o.native_string.size() >= before.size() && o.native_string.compare(0, before.size(), before) == 0; };
    size_t had = count(d);
    Out plain;
    int np = norm<F>(in, plain);
    Out whole(before);
    int n = norm<F>(in, whole);
    const char* f = ucd::form_names[F];
    x.checks += 6;
    if (!prefix(whole)) x.fail("form %s, %s: the destination's content changed, for %s", f, what, show(t).c_str());
    if (whole.native_string.substr(before.size()) != plain.native_string)
      x.fail("form %s, %s: what is appended to a destination depends on what it held, for %s", f, what, show(t).c_str());
    if (n != int(count(whole) - had) || np != int(count(plain)))
      x.fail("form %s, %s: returned %d and %d but appended %zu and %zu codepoints, for %s", f, what, n, np, count(whole) - had, count(plain), show(t).c_str());
    if (size_t(n) != t.size() && had) x.nontrivial();
    // each grapheme
    Out single(before);
    int sum = 0;
    G i = in.grapheme_begin(), e = in.grapheme_end();
    for (size_t k = 0; i != e && k <= t.size(); i++, k++) {
      size_t c0 = count(single);
      int m = FormOf<F, In, Out>::f(*i, single);
      if (m != int(count(single) - c0)) x.fail("form %s, %s: returned %d for grapheme %zu but appended %zu codepoints, for %s", f, what, m, k, count(single) - c0, show(t).c_str());
      sum += m;
    }
    if (single.native_string != whole.native_string || sum != n) x.fail("form %s, %s: one grapheme at a time gives another result, for %s", f, what, show(t).c_str());
    // pieces
    Out pieces(before);
    sum = 0;
    G from = in.grapheme_begin();
    size_t last = 0;
    for (size_t cut : units) {
      if (cut < last) continue;
      G to(in.codepoint_cbegin(), in.codepoint_cend(), typename In::const_iterator(in.native_cbegin() + cut));
      sum += u5e::filter(from, to, pieces, FormOf<F, In, Out>::f);
      from = to;
      last = cut;
    }
    sum += u5e::filter(from, in.grapheme_end(), pieces, FormOf<F, In, Out>::f);
    if (pieces.native_string != whole.native_string || sum != n) x.fail("form %s, %s: in pieces, another result (count %d and %d), for %s", f, what, sum, n, show(t).c_str());
    // twice into the same destination
    int n2 = norm<F>(in, whole);
    if (n2 != n || whole.native_string != before + plain.native_string + plain.native_string)
      x.fail("form %s, %s: the second time it gives something else, for %s", f, what, show(t).c_str());
  }
  template <class In, class Out>
  void forms(Ctx& x, In& in, const Out& d, const Text& t, const std::vector<size_t>& units, const char* what) {
    one<ucd::FORM_D>(x, in, d, t, units, what);
    one<ucd::FORM_C>(x, in, d, t, units, what);
    one<ucd::FORM_KD>(x, in, d, t, units, what);
    one<ucd::FORM_KC>(x, in, d, t, units, what);
  }
  void run(const Case& c, Ctx& x) {
    const Text& t = c[0];
    std::string s = ucd::encode(t);
    // cuts, at cluster starts
    std::vector<size_t> g = ucd::grapheme_starts(t), o = offsets8(t), c8, c32;
    for (int v : c[2]) if (g.size() > 1) {
      size_t k = g[v % g.size()];
      c32.push_back(k);
      if (k > 0 && k < t.size()) x.nontrivial();
    }
    std::sort(c32.begin(), c32.end());
    for (size_t k : c32) c8.push_back(o[k]);
    label_size(x, t.size());
    S8 d8 = dest8(c[1]);
    S32 d32 = dest32(c[1]);
    if ((c[2].size() ? c[2][0] : 0) & 1) {
      S8 in(s);
      forms(x, in, d8, t, c8, "UTF-8 string to UTF-8");
      same(x, in.native_string, s, "the source");
      Text copy(t);
      V32 w = v32(copy);
      forms(x, w, d32, t, c32, "UTF-32 view to UTF-32");
      same(x, copy, t, "the source");
    } else {
      S32 in = s32(t);
      forms(x, in, d8, t, c32, "UTF-32 string to UTF-8");
      same(x, text_of(in.native_string), t, "the source");
      std::string copy(s);
      V8 v = v8(copy);
      forms(x, v, d32, t, c8, "UTF-8 view to UTF-32");
      same(x, copy, s, "the source");
    }
  }
};
PROPERTY(P)
