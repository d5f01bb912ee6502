#include "../common.hpp"

struct P : Property {
  const char* id() const { return "G01"; }
  const char* rule() const {
    return "a text, split into graphemes through UTF-8 and UTF-32 strings and views and compared, cluster by cluster and "
           "codepoint by codepoint, with the rules applied at each position; non-trivial: some cluster has several codepoints";
  }
  int big() { return 70000; }
  std::vector<FieldSpec> fields() const { return { { "text", SCALARS } }; }
  uint64_t walks(bool thorough) { return gen::ClassWalk(gen::gcb_representatives(), thorough ? 5 : 4).total; }
  bool thorough_ = false;
  // every sequence of classes; then every scalar value between others
  uint64_t enum_count(bool thorough) { thorough_ = thorough; return walks(thorough) + gen::scalars_count(); }
  const char* enum_what(bool t) { return t ? "every sequence of up to 5 break classes (18 classes); every scalar value in a row with others" : "every sequence of up to 4 break classes (18 classes); every scalar value in a row with others"; }
  void enum_case(uint64_t i, Case& c) {
    uint64_t w = walks(thorough_);
    if (i < w) { gen::ClassWalk(gen::gcb_representatives(), 5).make(i, c[0]); return; }
    i -= w;
    int v = gen::nth_scalar(i);
    switch (i % 6) {
    case 0: c[0] = { 'a', v, 0x300, v, 'b' }; break;
    case 1: c[0] = { 0x1F1E6, v, 0x1F1E6, v }; break;
    case 2: c[0] = { 0x261D, v, 0x1F3FB, v, 0x200D, v }; break;
    case 3: c[0] = { 0x1100, v, 0x1161, v, 0x11A8, v, 0xAC00, v }; break;
    case 4: c[0] = { 0x600, v, 0x903, v, v }; break;
    case 5: c[0] = { 0x200D, v, '\r', v, '\n', v, 0x1F466, v }; break;
    }
  }
  void gen(Source& s, Case& c) { gen::text(s, c[0]); }

  template <class It> static long pos8(It it, It b) { return it.raw_iterator_ - b.raw_iterator_; }
  template <class S, class Pos>
  void split(Ctx& x, S& s, const Text& t, const std::vector<size_t>& g, const std::vector<size_t>& o, Pos pos, const char* what) {
    size_t k = 0;
    auto e = s.grapheme_end();
    auto post = s.grapheme_begin();
    for (auto i = s.grapheme_begin(); i != e; ++i, k++) {
      if (k + 1 >= g.size()) x.fail("%s: more than %zu clusters in %s", what, k, show(t).c_str());
      if (i == e) x.fail("%s: == and != agree", what);
      auto gr = *i;
      long b = pos(gr.codepoint_begin()), n = pos(gr.codepoint_end());
      if (b != long(o[g[k]]) || n != long(o[g[k+1]]))
        x.fail("%s: cluster %zu of %s is %ld..%ld, not %zu..%zu", what, k, show(t).c_str(), b, n, o[g[k]], o[g[k+1]]);
      auto pg = *(post++);
      if (pos(pg.codepoint_begin()) != b || pos(pg.codepoint_end()) != n) x.fail("%s: *it++ gives another cluster than *it", what);
      Text in;
      for (auto c = gr.codepoint_begin(); c != gr.codepoint_end() && in.size() <= t.size(); c++) { int v = *c; in.push_back(v); }
      if (in != Text(t.begin() + g[k], t.begin() + g[k+1]))
        x.fail("%s: cluster %zu of %s holds %s", what, k, show(t).c_str(), show(in).c_str());
      x.checks++;
    }
    if (k + 1 != g.size()) x.fail("%s: %zu clusters, not %zu, in %s", what, k, g.size() - 1, show(t).c_str());
    if (post != e) x.fail("%s: post-increment did not reach the end", what);
  }
  void run(const Case& c, Ctx& x) {
    const Text& t = c[0];
    std::string s = ucd::encode(t);
    std::vector<size_t> o = offsets8(t), o32 = offsets32(t), g = ucd::grapheme_starts(t);
    if (g.size() - 1 < t.size()) x.nontrivial();
    label_size(x, t.size());
    size_t longest = 0;
    for (size_t k = 0; k + 1 < g.size(); k++) longest = std::max(longest, g[k+1] - g[k]);
    if (longest > 8) x.label("cluster of more than 8 codepoints");
    if (t.empty()) g.assign(1, 0);
    {
      S8 str(s);
      auto b = str.native_cbegin();
      split(x, str, t, g, o, [b](S8::const_iterator i) { return long(i.raw_iterator_ - b); }, "UTF-8 string");
    }
    if (guard().fits(s.size())) {
      const char* p = guard().right(s);
      V8 v(sview(p, s.size()));
      split(x, v, t, g, o, [p](V8::const_iterator i) { return long(i.raw_iterator_ - p); }, "UTF-8 view");
    }
    {
      S32 str = s32(t);
      auto b = str.native_cbegin();
      split(x, str, t, g, o32, [b](S32::const_iterator i) { return long(i - b); }, "UTF-32 string");
    }
    {
      Sc8 apart(s);
      D8 d(apart);
      auto b = d.native_cbegin();
      split(x, d, t, g, o, [b](D8::const_iterator i) { return long(i.raw_iterator_ - b); }, "UTF-8, octets lying apart");
    }
    if (guard().fits(t.size() * 4)) {
      int* p = (int*)guard().last(t.size() * 4);
      std::copy(t.begin(), t.end(), p);
      V32 v(iview(p, t.size()));
      split(x, v, t, g, o32, [p](V32::const_iterator i) { return long(i - p); }, "UTF-32 view");
    }
  }
};
PROPERTY(P)
