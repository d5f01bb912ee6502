#include "../common.hpp"
#include <algorithm>
#include <iterator>
#include <numeric>
using u5e::utf8_iterator;
using u5e::utf8_const_iterator;

struct P : Property {
  const char* id() const { return "U05"; }
  const char* rule() const {
    return "a text, a part of it, a needle (often a piece of the text) and numbers; some forty standard algorithms over the "
           "codepoint positions of every storage are compared with the same algorithms over the plain sequence; non-trivial: "
           "the part has three or more codepoints of several encoded lengths";
  }
  int big() { return 70000; }
  std::vector<FieldSpec> fields() const { return { { "text", SCALARS }, { "needle", SCALARS }, { "numbers", INTS }, { "after", OCTETS } }; }
  std::vector<int> alphabet() { return { 'a', 0xE9, 0x20AC, 0x1F4A9 }; }
  uint64_t enum_count(bool thorough) { return gen::sweep_count(60) + gen::ClassWalk(alphabet(), thorough ? 6 : 5).total; }
  const char* enum_what(bool) { return "every scalar value in texts of 60 of them; every sequence of up to 5 (thorough: 6) codepoints of the different octet lengths"; }
  void enum_case(uint64_t i, Case& c) {
    c[3] = { 0 };
    if (i < gen::sweep_count(60)) { gen::sweep(i, c[0], 60); c[1].assign(c[0].begin() + 2, c[0].begin() + 5); return; }
    i -= gen::sweep_count(60);
    gen::ClassWalk(alphabet(), 6).make(i, c[0]);
    size_t n = c[0].size();
    if (n) c[1].assign(c[0].begin() + i % n, c[0].begin() + std::min(n, i % n + 2));
  }
  void gen(Source& s, Case& c) {
    if (s.chance(1, 3)) { // few different ones, so that algorithms find something
      int n = s.range(0, 30), k = s.range(1, 4);
      std::vector<int> few;
      for (int i = 0; i < k; i++) few.push_back(gen::scalar(s));
      for (int i = 0; i < n; i++) c[0].push_back(few[s.below(k)]);
    } else gen::text(s, c[0]);
    size_t n = c[0].size();
    switch (s.weighted({ 5, 2, 1 })) {
    case 0: if (n) { size_t a = s.below(n), b = a + s.below(std::min<size_t>(n - a, 6)) + 1; c[1].assign(c[0].begin() + a, c[0].begin() + std::min(n, b)); } break;
    case 1: gen::text(s, c[1], 0); break;
    default: c[1] = c[0]; if (n) c[1][s.below(n)] = gen::scalar(s); break;
    }
    if (s.chance(1, 6)) std::sort(c[0].begin(), c[0].end());
    for (int i = 0; i < 4; i++) c[2].push_back(s.below(1 << 16));
    c[3].push_back(s.chance(1, 3) ? 0 : s.range(0, 255));
  }

  // All algorithms over [b, e), which encodes t; pos(it) is the codepoint
  // index of a position.
  template <class It, class Pos>
  void all(Ctx& x, const Text& t, It b, It e, Pos pos, const Text& n, int num, const char* what) {
    typedef Text::const_iterator T;
    T tb = t.begin(), te = t.end();
    size_t size = t.size(), k = size ? num % (size + 1) : 0;
    int v = size && !(num & 1) ? t[num % size] : n.empty() ? 'a' : n[0];
    auto is_v = [v](int c) { return c == v; };
    auto less_v = [v](u5e::codepoint c) { return c.value < v; };
    const char* a;
    auto at = [&](It got, size_t want) {
      x.checks++;
      size_t p = pos(got);
      if (p != want) x.fail("%s: %s gives position %zu, not %zu, in %s", what, a, p, want, show(t).c_str());
    };
    auto num_ = [&](long got, long want) {
      x.checks++;
      if (got != want) x.fail("%s: %s gives %ld, not %ld, on %s", what, a, got, want, show(t).c_str());
    };
    auto seq = [&](const Text& got, const Text& want) {
      x.checks++;
      if (got != want) x.fail("%s: %s on %s gives\n  %s\n  %s is right", what, a, show(t).c_str(), show(got).c_str(), show(want).c_str());
    };
    a = "distance"; num_(std::distance(b, e), size);
    a = "next"; at(std::next(b, k), k);
    { a = "advance"; It i = b; std::advance(i, k); at(i, k); num_(i == std::next(b, k), 1); std::advance(i, -(long)k); at(i, 0); }
    a = "prev"; at(std::prev(e, k), size - k);
    a = "find"; at(std::find(b, e, v), std::find(tb, te, v) - tb);
    a = "find_if"; at(std::find_if(b, e, is_v), std::find_if(tb, te, is_v) - tb);
    a = "find_if_not"; at(std::find_if_not(b, e, less_v), std::find_if_not(tb, te, less_v) - tb);
    a = "count"; num_(std::count(b, e, v), std::count(tb, te, v));
    a = "count_if"; num_(std::count_if(b, e, less_v), std::count_if(tb, te, less_v));
    a = "any_of"; num_(std::any_of(b, e, is_v), std::any_of(tb, te, is_v));
    a = "all_of"; num_(std::all_of(b, e, less_v), std::all_of(tb, te, less_v));
    a = "equal to itself"; num_(std::equal(b, e, b), 1);
    a = "equal"; num_(std::equal(b, e, n.begin(), n.end()), t == n);
    { a = "mismatch"; auto m = std::mismatch(b, e, n.begin(), n.end()); auto w = std::mismatch(tb, te, n.begin(), n.end()); at(m.first, w.first - tb); num_(m.second - n.begin(), w.second - n.begin()); }
    a = "search"; at(std::search(b, e, n.begin(), n.end()), std::search(tb, te, n.begin(), n.end()) - tb);
    a = "find_end"; at(std::find_end(b, e, n.begin(), n.end()), std::find_end(tb, te, n.begin(), n.end()) - tb);
    a = "find_first_of"; at(std::find_first_of(b, e, n.begin(), n.end()), std::find_first_of(tb, te, n.begin(), n.end()) - tb);
    a = "search_n"; at(std::search_n(b, e, 2, v), std::search_n(tb, te, 2, v) - tb);
    a = "adjacent_find"; at(std::adjacent_find(b, e), std::adjacent_find(tb, te) - tb);
    a = "lexicographical_compare"; num_(std::lexicographical_compare(b, e, n.begin(), n.end()), std::lexicographical_compare(tb, te, n.begin(), n.end()));
    a = "lexicographical_compare the other way"; num_(std::lexicographical_compare(n.begin(), n.end(), b, e), std::lexicographical_compare(n.begin(), n.end(), tb, te));
    { a = "copy"; Text o; std::copy(b, e, std::back_inserter(o)); seq(o, t); }
    { a = "copy_n"; Text o; std::copy_n(b, k, std::back_inserter(o)); seq(o, Text(tb, tb + k)); }
    { a = "copy_if"; Text o, w; std::copy_if(b, e, std::back_inserter(o), less_v); std::copy_if(tb, te, std::back_inserter(w), less_v); seq(o, w); }
    { a = "reverse_copy"; Text o; std::reverse_copy(b, e, std::back_inserter(o)); seq(o, Text(t.rbegin(), t.rend())); }
    { a = "rotate_copy"; Text o, w; std::rotate_copy(b, std::next(b, k), e, std::back_inserter(o)); std::rotate_copy(tb, tb + k, te, std::back_inserter(w)); seq(o, w); }
    { a = "unique_copy"; Text o, w; std::unique_copy(b, e, std::back_inserter(o)); std::unique_copy(tb, te, std::back_inserter(w)); seq(o, w); }
    { a = "remove_copy"; Text o, w; std::remove_copy(b, e, std::back_inserter(o), v); std::remove_copy(tb, te, std::back_inserter(w), v); seq(o, w); }
    { a = "transform"; Text o, w; auto f = [](int c) { return c ^ 1; }; std::transform(b, e, std::back_inserter(o), f); std::transform(tb, te, std::back_inserter(w), f); seq(o, w); }
    { a = "transform of two"; Text o, w; auto f = [](int p, int q) { return p - q; }; std::transform(b, e, b, std::back_inserter(o), f); seq(o, Text(size, 0)); }
    { a = "for_each"; Text o; std::for_each(b, e, [&](u5e::codepoint c) { o.push_back(c.value); }); seq(o, t); }
    { a = "partition_copy"; Text o, p, w, u; std::partition_copy(b, e, std::back_inserter(o), std::back_inserter(p), less_v); std::partition_copy(tb, te, std::back_inserter(w), std::back_inserter(u), less_v); seq(o, w); seq(p, u); }
    { a = "accumulate"; auto f = [](unsigned s, int c) { return s * 31 + c; }; num_(std::accumulate(b, e, 7u, f), std::accumulate(tb, te, 7u, f)); }
    { a = "inner_product"; auto plus = [](unsigned p, unsigned q) { return p + q; }; auto by = [](unsigned p, unsigned q) { return p * (q + 1); };
      num_(std::inner_product(b, e, b, 0u, plus, by), std::inner_product(tb, te, tb, 0u, plus, by)); }
    { a = "a vector's constructor"; seq(Text(b, e), t); }
    { a = "basic_string::assign"; istring s; s.assign(b, e); seq(text_of(s), t); }
    a = "max_element"; at(std::max_element(b, e), std::max_element(tb, te) - tb);
    a = "min_element"; at(std::min_element(b, e), std::min_element(tb, te) - tb);
    a = "is_sorted_until"; at(std::is_sorted_until(b, e), std::is_sorted_until(tb, te) - tb);
    if (size <= 64) { a = "is_permutation"; num_(std::is_permutation(b, e, n.begin(), n.end()), std::is_permutation(tb, te, n.begin(), n.end())); }
    if (std::is_sorted(tb, te)) {
      a = "lower_bound"; at(std::lower_bound(b, e, v), std::lower_bound(tb, te, v) - tb);
      a = "upper_bound"; at(std::upper_bound(b, e, v), std::upper_bound(tb, te, v) - tb);
      { a = "equal_range"; auto r = std::equal_range(b, e, v); auto w = std::equal_range(tb, te, v); at(r.first, w.first - tb); at(r.second, w.second - tb); }
      { a = "merge"; Text o, w, m = n; std::sort(m.begin(), m.end()); std::merge(b, e, m.begin(), m.end(), std::back_inserter(o)); std::merge(tb, te, m.begin(), m.end(), std::back_inserter(w)); seq(o, w); }
      { a = "includes"; Text m = n; std::sort(m.begin(), m.end()); num_(std::includes(b, e, m.begin(), m.end()), std::includes(tb, te, m.begin(), m.end())); }
    }
    typedef std::reverse_iterator<It> R;
    a = "find from the back"; at(std::find(R(e), R(b), v).base(), std::find(t.rbegin(), t.rend(), v).base() - tb);
    a = "search from the back"; at(std::search(R(e), R(b), n.begin(), n.end()).base(), std::search(t.rbegin(), t.rend(), n.begin(), n.end()).base() - tb);
    a = "count from the back"; num_(std::count(R(e), R(b), v), std::count(tb, te, v));
  }
  void run(const Case& c, Ctx& x) {
    const Text& whole = c[0];
    const Text& n = c[1];
    size_t from = at_or(c[2], 0, 0) % (whole.size() + 1);
    size_t to = whole.size() - at_or(c[2], 1, 0) % (whole.size() - from + 1);
    if (at_or(c[2], 2, 0) % 3 == 0) from = 0, to = whole.size();
    Text t(whole.begin() + from, whole.begin() + to);
    int num = at_or(c[2], 3, 4);
    std::string s = ucd::encode(whole);
    std::vector<size_t> o = offsets8(whole);
    std::vector<size_t> own(s.size() + 1, size_t(-1));
    for (size_t i = 0; i < o.size(); i++) own[o[i]] = i;
    if (t.size() >= 3 && mixed_lengths(t)) x.nontrivial();
    if (std::is_sorted(t.begin(), t.end())) x.label("sorted");
    if (std::search(t.begin(), t.end(), n.begin(), n.end()) != t.end() && !n.empty()) x.label("the needle is found");
    if (from || to < whole.size()) x.label("a part of a text");
    label_size(x, t.size());
    // from the end back: see end-octet in known_findings.txt
    char after = at_or(c[3], 0, 0);
    if (x.excluded("end-octet") && ucd::is_cont(after)) after = 0;
    auto pos = [&](std::ptrdiff_t at) { return at < 0 || size_t(at) > s.size() || own[at] == size_t(-1) ? size_t(-1) : own[at] - from; };
    std::string padded = s + after;
    if (guard().fits(padded.size())) {
      const char* p = guard().right(padded);
      typedef utf8_const_iterator<const char*> I;
      all(x, t, I(p + o[from]), I(p + o[to]), [&](I i) { return pos(i.raw_iterator_ - p); }, n, num, "const char*");
      V8 v(sview(p, s.size()));
      typedef V8::const_iterator VI;
      if (t.size() <= 2000)
        all(x, t, VI(v.native_cbegin() + o[from]), VI(v.native_cbegin() + o[to]), [&](VI i) { return pos(i.raw_iterator_ - v.native_cbegin()); }, n, num, "view");
    }
    S8 str(s);
    typedef S8::const_iterator CI;
    all(x, t, CI(str.native_cbegin() + o[from]), CI(str.native_cbegin() + o[to]), [&](CI i) { return pos(i.raw_iterator_ - str.native_cbegin()); }, n, num, "string, const");
    if (t.size() > 2000) return;
    typedef S8::iterator MI;
    all(x, t, MI(str.native_begin() + o[from]), MI(str.native_begin() + o[to]), [&](MI i) { return pos(i.raw_iterator_ - str.native_begin()); }, n, num, "string, mutable");
    Sc8 apart(s);
    typedef utf8_const_iterator<Sc8::const_iterator> AI;
    all(x, t, AI(apart.cbegin() + o[from]), AI(apart.cbegin() + o[to]), [&](AI i) { return pos(i.raw_iterator_ - apart.cbegin()); }, n, num, "octets lying apart");
    check(x, str.native_string == s, "reading changed the text");
    // replacing a codepoint by one of the same encoded length
    if (!t.empty()) {
      int v = t[num % t.size()], w = v < 0x80 ? 'Q' : v < 0x800 ? 0x7FF : v < 0x10000 ? 0xFFFD : 0x10FFFF;
      Text changed = whole;
      std::replace(changed.begin() + from, changed.begin() + to, v, w);
      std::replace(MI(str.native_begin() + o[from]), MI(str.native_begin() + o[to]), v, w);
      same(x, str.native_string, ucd::encode(changed), "replace by a codepoint of the same length");
      auto f = [](int c) { return c < 0x80 ? c ^ 1 : c < 0x800 ? 0x7FF - c % 64 : c < 0x10000 ? 0xFFFD - c % 64 : 0x10FFFF - c % 64; };
      std::transform(changed.begin() + from, changed.begin() + to, changed.begin() + from, f);
      std::transform(MI(str.native_begin() + o[from]), MI(str.native_begin() + o[to]), MI(str.native_begin() + o[from]), f);
      same(x, str.native_string, ucd::encode(changed), "transform in place by codepoints of the same lengths");
    }
  }
};
PROPERTY(P)
