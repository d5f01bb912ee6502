#include "../norm.hpp"

struct P : Property {
  const char* id() const { return "G04"; }
  const char* rule() const {
    return "a text and two codepoint positions in it; the part between them, as a range of grapheme positions of the whole text's "
           "storage, is segmented from its start and from offsets in it, normalized and appended, and compared with the model on "
           "the part alone; non-trivial: the clusters of the part are not clusters of the whole text";
  }
  int big() { return 15000; }
  std::vector<FieldSpec> fields() const { return { { "text", SCALARS }, { "cut", INTS } }; }
  static std::vector<int> reps() { return gen::gcb_representatives(); }
  // every sequence of classes, every part of it
  uint64_t enum_count(bool thorough) { return gen::sweep_count(50) + gen::ClassWalk(reps(), thorough ? 4 : 3).total; }
  const char* enum_what(bool t) { return t ? "every scalar value in texts of 50 of them, a few parts of each; every sequence of up to 4 break classes, every part" : "every scalar value in texts of 50 of them, a few parts of each; every sequence of up to 3 break classes, every part"; }
  void enum_case(uint64_t i, Case& c) {
    if (i < gen::sweep_count(50)) { gen::sweep(i, c[0], 50); c[1] = { int(i % 7), int(i % 5), 1, 11, int(i % 50), 3 }; return; }
    i -= gen::sweep_count(50);
    gen::ClassWalk(reps(), 4).make(i, c[0]);
    int n = c[0].size();
    for (int a = 0; a <= n; a++) for (int b = a; b <= n; b++) { c[1].push_back(a); c[1].push_back(n - b); }
  }
  void gen(Source& s, Case& c) {
    gen::text(s, c[0]);
    for (int i = 0, k = s.range(1, 3); i < k; i++) { c[1].push_back(s.below(1 << 16)); c[1].push_back(s.chance(1, 3) ? 0 : s.below(1 << 16)); }
  }
  template <class S, class Pos>
  void part(Ctx& x, S& s, const Text& t, size_t from, size_t to, const std::vector<size_t>& o, Pos pos, bool full, const char* what) {
    typedef u5e::basic_grapheme_iterator<S> G;
    typedef typename S::const_iterator C;
    Text sub(t.begin() + from, t.begin() + to);
    std::vector<size_t> g = ucd::grapheme_starts(sub);
    if (sub.empty()) g.assign(1, 0);
    auto at = [&](size_t k) { return C(s.native_cbegin() + o[k]); };
    C b = at(from), e = at(to);
    G end(b, e, e);
    size_t k = 0;
    for (G i(b, e); i != end; ++i, k++) {
      if (k + 1 >= g.size()) x.fail("%s: clusters after the last one of the part %s of %s", what, show(sub).c_str(), show(t).c_str());
      auto gr = *i;
      long gb = pos(gr.codepoint_begin()), ge = pos(gr.codepoint_end());
      if (gb != long(o[from + g[k]]) || ge != long(o[from + g[k+1]]))
        x.fail("%s: cluster %zu of the part %s of %s is %ld..%ld, not %zu..%zu", what, k, show(sub).c_str(), show(t).c_str(), gb, ge, o[from + g[k]], o[from + g[k+1]]);
      x.checks++;
    }
    if (k + 1 != g.size()) x.fail("%s: %zu clusters in the part %s of %s, not %zu", what, k, show(sub).c_str(), show(t).c_str(), g.size() - 1);
    // positions built in the part
    size_t step = sub.size() <= 24 ? 1 : sub.size() / 12;
    for (size_t w = 0; w < sub.size(); w += step) {
      G i(b, e, at(from + w));
      size_t c = std::upper_bound(g.begin(), g.end(), w) - g.begin() - 1;
      auto gr = *i;
      long ge = pos(gr.codepoint_end());
      C cb = gr.codepoint_begin();
      if (!(cb == at(from + g[c])) || ge != long(o[from + g[c+1]]))
        x.fail("%s: the position built at codepoint %zu of the part %s of %s is not its cluster %zu", what, w, show(sub).c_str(), show(t).c_str(), c);
      x.checks++;
    }
    if (!full) return;
    S8 d, c, a;
    u5e::filter(G(b, e), end, d, FormOf<ucd::FORM_KD, S, S8>::f);
    u5e::filter(G(b, e), end, c, FormOf<ucd::FORM_C, S, S8>::f);
    same(x, d.native_string, ucd::encode(ucd::normalize(sub, ucd::FORM_KD)), "form KD of a part");
    same(x, c.native_string, ucd::encode(ucd::normalize(sub, ucd::FORM_C)), "form C of a part");
  }
  void run(const Case& c, Ctx& x) {
    const Text& t = c[0];
    std::string s = ucd::encode(t);
    std::vector<size_t> o = offsets8(t), o32 = offsets32(t);
    label_size(x, t.size());
    S8 str(s);
    S32 str32 = s32(t);
    auto b8 = str.native_cbegin();
    auto b32 = str32.native_cbegin();
    for (size_t i = 0; i + 1 < c[1].size(); i += 2) {
      size_t from = c[1][i] % (t.size() + 1), to = t.size() - c[1][i+1] % (t.size() - from + 1);
      for (size_t k : { from, to }) if (k > 0 && k < t.size() && !ucd::is_grapheme_break(t, k)) x.nontrivial();
      bool full = t.size() > 4 && i == 0;
      part(x, str, t, from, to, o, [b8](S8::const_iterator i) { return long(i.raw_iterator_ - b8); }, full, "UTF-8 string");
      part(x, str32, t, from, to, o32, [b32](S32::const_iterator i) { return long(i - b32); }, full, "UTF-32 string");
      if (t.size() > 4000) continue;
      V8 v = v8(s);
      auto bv = v.native_cbegin();
      part(x, v, t, from, to, o, [bv](V8::const_iterator i) { return long(i.raw_iterator_ - bv); }, false, "UTF-8 view");
      V32 v32_ = v32(t);
      auto bv32 = v32_.native_cbegin();
      part(x, v32_, t, from, to, o32, [bv32](V32::const_iterator i) { return long(i - bv32); }, false, "UTF-32 view");
      if (i == 0) {
        D8 d{ Sc8(s) };
        auto bd = d.native_cbegin();
        part(x, d, t, from, to, o, [bd](D8::const_iterator i) { return long(i.raw_iterator_ - bd); }, false, "octets lying apart");
      }
    }
    same(x, str.native_string, s, "the text");
  }
};
PROPERTY(P)
