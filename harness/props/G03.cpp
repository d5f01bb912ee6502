#include "../common.hpp"

struct P : Property {
  const char* id() const { return "G03"; }
  const char* rule() const {
    return "a text and pairs of native offsets (all pairs for short texts); positions built at them, copies of them and "
           "results of post-increment are compared with each other and with codepoint positions, for UTF-8 and UTF-32; "
           "non-trivial: two different offsets of one cluster are compared";
  }
  int big() { return 5000; }
  std::vector<FieldSpec> fields() const { return { { "text", SCALARS }, { "offsets", INTS } }; }
  uint64_t enum_count(bool thorough) { return gen::sweep_count(20) + gen::ClassWalk(gen::gcb_representatives(), thorough ? 4 : 3).total; }
  const char* enum_what(bool t) { return t ? "every scalar value in texts of 20 of them; every sequence of up to 4 break classes, all pairs of offsets" : "every scalar value in texts of 20 of them; every sequence of up to 3 break classes, all pairs of offsets"; }
  void enum_case(uint64_t i, Case& c) {
    if (i < gen::sweep_count(20)) { gen::sweep(i, c[0], 20); for (int k = 0; k < 24; k++) c[1].push_back(int((i + k) * 7919 & 0xFFFFF)); return; }
    i -= gen::sweep_count(20);
    gen::ClassWalk(gen::gcb_representatives(), 4).make(i, c[0]); }
  void gen(Source& s, Case& c) {
    gen::text(s, c[0]);
    for (int i = 0; i < 8; i++) c[1].push_back(s.below(1 << 20));
  }
  template <class S>
  void probe(Ctx& x, S& s, const Text& t, const std::vector<size_t>& cluster, const std::vector<size_t>& at, size_t n, const char* what) {
    typedef u5e::basic_grapheme_iterator<S> G;
    typedef typename S::const_iterator CI;
    auto cp = [&](size_t a) { return CI(s.native_cbegin() + a); };
    for (size_t a : at) {
      G i(s.codepoint_cbegin(), s.codepoint_cend(), cp(a));
      check(x, i == i && !(i != i), "a position differs from itself");
      G copy(i);
      check(x, copy == i && i == copy && !(copy != i), "a copy differs from its original");
      G post(i);
      if (a < n) {
        G old = post++;
        check(x, old == i && i == old, "the result of it++ differs from the old position");
        check(x, post != i && i != post && !(post == i), "a position equals the next one");
        G pre(i);
        G ret = ++pre;
        check(x, pre == post && post == pre, "++it and it++ go to different positions");
        check(x, ret == pre, "the result of ++it differs from the new position");
        Text p, q;
        { auto g1 = *i; for (auto c = g1.codepoint_begin(); c != g1.codepoint_end() && p.size() <= t.size(); c++) { auto d = c; int v = *d; p.push_back(v); } }
        { auto g1 = *old; for (auto c = g1.codepoint_begin(); c != g1.codepoint_end() && q.size() <= t.size(); c++) { auto d = c; int v = *d; q.push_back(v); } }
        same(x, q, p, "the result of it++, dereferenced");
        q.clear();
        { auto g1 = *copy; for (auto c = g1.codepoint_begin(); c != g1.codepoint_end() && q.size() <= t.size(); c++) { auto d = c; int v = *d; q.push_back(v); } }
        same(x, q, p, "a copy, dereferenced");
      }
      G end = s.grapheme_end();
      bool is_end = a == n;
      check(x, (i == end) == is_end && (end == i) == is_end && (i != end) == !is_end && (end != i) == !is_end, "comparison with the end");
      for (size_t b : at) {
        bool want = cluster[a] == cluster[b];
        G j(s.codepoint_cbegin(), s.codepoint_cend(), cp(b));
        x.checks++;
        if ((i == j) != want || (i != j) == want)
          x.fail("%s: positions at %zu and %zu of %s: == is %d, != is %d", what, a, b, show(t).c_str(), int(i == j), int(i != j));
        if ((i == cp(b)) != want || (i != cp(b)) == want)
          x.fail("%s: position at %zu and codepoint position at %zu of %s: == is %d, != is %d", what, a, b, show(t).c_str(), int(i == cp(b)), int(i != cp(b)));
      }
    }
  }
  void run(const Case& c, Ctx& x) {
    const Text& t = c[0];
    std::string s = ucd::encode(t);
    std::vector<size_t> o = offsets8(t), g = ucd::grapheme_starts(t), own = owner(o), at, at32;
    // cluster number of each codepoint, then of each octet
    std::vector<size_t> of(t.size() + 1), of8(s.size() + 1);
    for (size_t k = 0; k + 1 < g.size(); k++) for (size_t i = g[k]; i < g[k+1]; i++) of[i] = k;
    of[t.size()] = t.size() + 1;
    for (size_t i = 0; i < s.size(); i++) of8[i] = of[own[i]];
    of8[s.size()] = t.size() + 1;
    if (s.size() <= 14) {
      for (size_t i = 0; i <= s.size(); i++) at.push_back(i);
      for (size_t i = 0; i <= t.size(); i++) at32.push_back(i);
    } else {
      // comparing positions walks over their clusters
      size_t left = t.size() > 100 ? 2 : t.size() > 30 ? 4 : 8;
      for (int v : c[1]) {
        if (!left--) break;
        size_t a = v % (s.size() + 1);
        at.push_back(a);
        if (v & 0x400) at.push_back(std::min(s.size(), a + 1 + (v & 3)));
        a = v % (t.size() + 1);
        at32.push_back(a);
        if (v & 0x400) at32.push_back(std::min(t.size(), a + 1));
      }
      at.push_back(s.size());
      at32.push_back(t.size());
    }
    for (size_t a : at32) for (size_t b : at32) if (a != b && of[a] == of[b]) x.nontrivial();
    label_size(x, t.size());
    {
      S8 str(s);
      probe(x, str, t, of8, at, s.size(), "UTF-8 string");
    }
    if (guard().fits(s.size())) {
      const char* p = guard().right(s);
      V8 v(sview(p, s.size()));
      probe(x, v, t, of8, at, s.size(), "UTF-8 view");
    }
    {
      S32 str = s32(t);
      probe(x, str, t, of, at32, t.size(), "UTF-32 string");
    }
    if (guard().fits(t.size() * 4)) {
      int* p = (int*)guard().last(t.size() * 4);
      std::copy(t.begin(), t.end(), p);
      V32 v(iview(p, t.size()));
      probe(x, v, t, of, at32, t.size(), "UTF-32 view");
    }
  }
};
PROPERTY(P)
