#include "../common.hpp"

struct P : Property {
  const char* id() const { return "G02"; }
  const char* rule() const {
    return "a text and native offsets (all of them for short texts); a grapheme position built at each offset must give the "
           "cluster of that offset and continue with the remaining ones, for UTF-8 and UTF-32 strings and views; "
           "non-trivial: an offset lies inside a cluster of several codepoints";
  }
  int big() { return 20000; }
  std::vector<FieldSpec> fields() const { return { { "text", SCALARS }, { "offsets", INTS } }; }
  bool thorough_ = false;
  uint64_t enum_count(bool thorough) { thorough_ = thorough; return gen::sweep_count(20) + gen::ClassWalk(gen::gcb_representatives(), thorough ? 5 : 4).total; }
  const char* enum_what(bool t) { return t ? "every scalar value in texts of 20 of them; every sequence of up to 5 break classes, all offsets" : "every scalar value in texts of 20 of them; every sequence of up to 4 break classes, all offsets"; }
  void enum_case(uint64_t i, Case& c) {
    if (i < gen::sweep_count(20)) { gen::sweep(i, c[0], 20); for (int k = 0; k < 24; k++) c[1].push_back(int((i + k) * 7919 & 0xFFFFF)); return; }
    i -= gen::sweep_count(20);
    gen::ClassWalk(gen::gcb_representatives(), 5).make(i, c[0]); }
  void gen(Source& s, Case& c) {
    gen::text(s, c[0]);
    for (int i = 0; i < 10; i++) c[1].push_back(s.below(1 << 20));
  }
  template <class S, class Pos>
  void probe(Ctx& x, S& s, const Text& t, const std::vector<size_t>& g, const std::vector<size_t>& o, size_t n,
             const std::vector<size_t>& at, Pos pos, bool tail, const char* what) {
    typedef u5e::basic_grapheme_iterator<S> G;
    G e = s.grapheme_end();
    for (size_t a : at) {
      G i(s.codepoint_cbegin(), s.codepoint_cend(), typename S::const_iterator(s.native_cbegin() + a));
      if (a == n) {
        if (i != e || !(i == e)) x.fail("%s: a position built at the end of %s is not the end", what, show(t).c_str());
        x.checks++;
        continue;
      }
      size_t k = 0;
      while (o[g[k+1]] <= a) k++;
      size_t steps = 0;
      for (; i != e; steps & 1 ? i++ : ++i, k++, steps++) {
        if (k + 1 >= g.size()) x.fail("%s: from offset %zu: clusters after the last in %s", what, a, show(t).c_str());
        auto gr = *i;
        // the position of a codepoint may be any of its octets (U04)
        auto cb = gr.codepoint_begin();
        Text in;
        for (auto c = cb; c != gr.codepoint_end() && in.size() <= t.size(); c++) { auto d = c; int v = *d; in.push_back(v); }
        long ge = pos(gr.codepoint_end());
        if (in != Text(t.begin() + g[k], t.begin() + g[k+1]) || ge != long(o[g[k+1]]) ||
            !(cb == typename S::const_iterator(s.native_cbegin() + o[g[k]])))
          x.fail("%s: at offset %zu, %zu clusters on: %s ending at %ld, not %s ending at %zu, in %s", what, a, steps,
                 show(in).c_str(), ge, show(Text(t.begin() + g[k], t.begin() + g[k+1])).c_str(), o[g[k+1]], show(t).c_str());
        x.checks++;
        if (!tail && steps > 3) break;
      }
      if ((tail || steps <= 3) && k + 1 != g.size()) x.fail("%s: from offset %zu: ends before the last cluster of %s", what, a, show(t).c_str());
    }
  }
  void run(const Case& c, Ctx& x) {
    const Text& t = c[0];
    std::string s = ucd::encode(t);
    std::vector<size_t> o = offsets8(t), o32 = offsets32(t), g = ucd::grapheme_starts(t), own = owner(o), at, at32;
    if (t.empty()) g.assign(1, 0);
    if (s.size() <= 40) {
      for (size_t i = 0; i <= s.size(); i++) at.push_back(i);
      for (size_t i = 0; i <= t.size(); i++) at32.push_back(i);
    } else {
      for (int v : c[1]) at.push_back(v % (s.size() + 1)), at32.push_back(v % (t.size() + 1));
      at.push_back(s.size()); at32.push_back(t.size());
      at.push_back(s.size() - 1); at32.push_back(t.size() - 1);
    }
    for (size_t k : at32) if (k < t.size() && !ucd::is_grapheme_break(t, k)) x.nontrivial();
    label_size(x, t.size());
    {
      S8 str(s);
      auto b = str.native_cbegin();
      probe(x, str, t, g, o, s.size(), at, [b](S8::const_iterator i) { return long(i.raw_iterator_ - b); }, t.size() < 300, "UTF-8 string");
    }
    if (guard().fits(s.size())) {
      const char* p = guard().right(s);
      V8 v(sview(p, s.size()));
      probe(x, v, t, g, o, s.size(), at, [p](V8::const_iterator i) { return long(i.raw_iterator_ - p); }, t.size() < 300, "UTF-8 view");
      p = guard(1).left(s);
      V8 v2(sview(p, s.size()));
      probe(x, v2, t, g, o, s.size(), at, [p](V8::const_iterator i) { return long(i.raw_iterator_ - p); }, false, "UTF-8 view, nothing before");
    }
    {
      S32 str = s32(t);
      auto b = str.native_cbegin();
      probe(x, str, t, g, o32, t.size(), at32, [b](S32::const_iterator i) { return long(i - b); }, t.size() < 300, "UTF-32 string");
    }
    if (guard().fits(t.size() * 4)) {
      int* p = (int*)guard().last(t.size() * 4);
      std::copy(t.begin(), t.end(), p);
      V32 v(iview(p, t.size()));
      probe(x, v, t, g, o32, t.size(), at32, [p](V32::const_iterator i) { return long(i - p); }, t.size() < 300, "UTF-32 view");
    }
  }
};
PROPERTY(P)
