#include "../common.hpp"
#include <u5e/filter.hpp>
#include <functional>
#include <forward_list>
#include <iterator>
#include <list>
#include <sstream>

// What the operation saw.
struct Log { std::vector<Text> seen; std::vector<const void*> where; };
static Log* log_;                      // for function pointers
static const Field* returns_;
static Text element(int c) { return Text(1, c); }
static Text element(u5e::codepoint c) { return Text(1, c.value); }
template <class S> static Text element(u5e::basic_grapheme<S> g) {
  Text r;
  for (auto i = g.codepoint_begin(); i != g.codepoint_end() && r.size() < 100000; ++i) { auto j = i; int v = *j; r.push_back(v); }
  return r;
}
// What the k-th call produces and returns.
static int amount(size_t k) { return returns_->empty() ? 1 : (*returns_)[k % returns_->size()] % 1000001; }
static void produce(size_t k, Text& out) { for (int i = 0; i < amount(k) % 50; i++) out.push_back(int(k) * 64 + i); }

template <class E> static int as_function(E e, Text& out) {
  size_t k = log_->seen.size();
  log_->seen.push_back(element(e));
  log_->where.push_back(&out);
  produce(k, out);
  return amount(k);
}
template <class E> struct Object {      // its own state lives in the copy the filter works with
  Log* l;
  size_t calls;
  int operator()(E e, Text& out) {
    l->seen.push_back(element(e));
    l->where.push_back(&out);
    produce(calls, out);
    return amount(calls++);
  }
};

// A range that can be read only once: every copy of the iterator moves on
// with the others, and only what a post-increment returns keeps the element.
struct Once {
  typedef int value_type;
  typedef int reference;
  typedef const int* pointer;
  typedef std::ptrdiff_t difference_type;
  typedef std::input_iterator_tag iterator_category;
  struct Source { const int* at; const int* end; };
  struct Kept { int v; int operator*() const { return v; } };
  Source* s;
  int operator*() const { return *s->at; }
  Once& operator++() { ++s->at; return *this; }
  Kept operator++(int) { Kept k = { *s->at }; ++s->at; return k; }
  bool over() const { return !s || s->at == s->end; }
  friend bool operator==(const Once& a, const Once& b) { return a.over() == b.over(); }
  friend bool operator!=(const Once& a, const Once& b) { return a.over() != b.over(); }
};

struct P : Property {
  const char* id() const { return "F01"; }
  const char* rule() const {
    return "a range (pointers, vector, deque-like list, forward list, single-pass input stream, codepoints and graphemes of each "
           "storage), part of it, and how much each call returns; the log of calls is compared with the elements, for "
           "functions, lambdas, std::function and stateful objects; non-trivial: two or more elements and amounts that differ";
  }
  int big() { return 20000; }
  std::vector<FieldSpec> fields() const { return { { "text", SCALARS }, { "returns", ANYINTS }, { "part", INTS } }; }
  uint64_t enum_count(bool thorough) { return gen::sweep_count(120) + gen::ClassWalk({ 'a', 0x301, 0x1F1E6 }, thorough ? 7 : 5).total * 6; }
  const char* enum_what(bool) { return "every scalar value in texts of 120 of them; every sequence of up to 5 (thorough: 7) over a letter, a mark and a regional indicator, six lists of amounts"; }
  void enum_case(uint64_t i, Case& c) {
    if (i < gen::sweep_count(120)) { gen::sweep(i, c[0], 120); c[1] = { 1, 2, 0 }; return; }
    i -= gen::sweep_count(120);
    gen::ClassWalk({ 'a', 0x301, 0x1F1E6 }, 7).make(i / 6, c[0]);
    static const std::vector<int> r[] = { { 0 }, { 1 }, { 2, 0, 1 }, { 0, 3 }, { 5, 1000000, 0, 1 }, { 3, -1, -700, 2 } };
    c[1] = r[i % 6];
  }
  void gen(Source& s, Case& c) {
    gen::text(s, c[0], s.weighted({ 3, 8, 2 }));
    for (int i = 0, n = s.range(1, 8); i < n; i++) c[1].push_back(s.chance(1, 12) ? s.below(1000000) : s.chance(1, 3) ? 0 : s.chance(1, 8) ? -int(s.below(1000)) : s.range(0, 4));
    c[2].push_back(s.below(1 << 16));
    c[2].push_back(s.below(1 << 16));
  }
  void verify(Ctx& x, const std::vector<Text>& want, int sum, int got, const Log& l, const Text& out, const void* where, const char* what) {
    x.checks += 4;
    if (l.seen != want) {
      size_t k = 0;
      while (k < want.size() && k < l.seen.size() && want[k] == l.seen[k]) k++;
      x.fail("%s: %zu calls for %zu elements; call %zu is with %s, element is %s", what, l.seen.size(), want.size(), k,
             k < l.seen.size() ? show(l.seen[k]).c_str() : "(none)", k < want.size() ? show(want[k]).c_str() : "(none)");
    }
    for (const void* w : l.where) if (w != where) x.fail("%s: the operation got another output object", what);
    if (got != sum) x.fail("%s: returned %d, the sum is %d", what, got, sum);
    Text o;
    o.push_back(-7);
    for (size_t k = 0; k < want.size(); k++) produce(k, o);
    if (out != o) x.fail("%s: the output is not what the operation produced", what);
  }
  template <class E, class It> void all(Ctx& x, It b, It e, const std::vector<Text>& want, const char* what) {
    int sum = 0;
    for (size_t k = 0; k < want.size(); k++) sum += amount(k);
    { Log l; Text out(1, -7); log_ = &l; int n = u5e::filter(b, e, out, as_function<E>); verify(x, want, sum, n, l, out, &out, what); }
    { Log l; Text out(1, -7); int n = u5e::filter(b, e, out, Object<E>{ &l, 0 }); verify(x, want, sum, n, l, out, &out, what); }
    { Log l; Text out(1, -7); log_ = &l; std::function<int(E, Text&)> f = as_function<E>; int n = u5e::filter(b, e, out, f); verify(x, want, sum, n, l, out, &out, what); }
    { Log l; Text out(1, -7); size_t k = 0;
      int n = u5e::filter(b, e, out, [&](E v, Text& o) { l.seen.push_back(element(v)); l.where.push_back(&o); produce(k, o); return amount(k++); });
      verify(x, want, sum, n, l, out, &out, what); }
  }
  template <class S> void graphemes(Ctx& x, S& s, const std::vector<Text>& want, const char* what) {
    all<u5e::basic_grapheme<S>>(x, s.grapheme_begin(), s.grapheme_end(), want, what);
  }
  void run(const Case& c, Ctx& x) {
    Text t = c[0];
    if (t.size() > 400 && t.size() < 2000) t.resize(400);
    returns_ = &c[1];
    size_t a = at_or(c[2], 0, 0) % (t.size() + 1), b = a + at_or(c[2], 1, 1 << 20) % (t.size() - a + 1);
    if (c[2].empty()) a = 0, b = t.size();
    bool differ = false;
    for (int v : c[1]) if (v != c[1][0]) differ = true;
    if (b - a >= 2 && differ) x.nontrivial();
    label_size(x, b - a);
    std::vector<Text> part, cp, cl;
    for (size_t i = a; i < b; i++) part.push_back(Text(1, t[i]));
    for (int v : t) cp.push_back(Text(1, v));
    std::vector<size_t> g = ucd::grapheme_starts(t);
    for (size_t k = 0; k + 1 < g.size(); k++) cl.push_back(Text(t.begin() + g[k], t.begin() + g[k+1]));
    if (t.empty()) cl.clear();
    all<int>(x, t.data() + a, t.data() + b, part, "pointers");
    all<int>(x, t.cbegin() + a, t.cbegin() + b, part, "vector");
    std::list<int> li(t.begin(), t.end());
    all<int>(x, std::next(li.begin(), a), std::next(li.begin(), b), part, "list");
    std::forward_list<int> fl(t.begin(), t.end());
    all<int>(x, std::next(fl.begin(), a), std::next(fl.begin(), b), part, "forward list");
    if (t.size() <= 40) { // single pass: a stream for each operation
      std::ostringstream o;
      for (size_t i = a; i < b; i++) o << t[i] << ' ';
      std::istringstream in(o.str());
      Log l;
      Text out(1, -7);
      log_ = &l;
      int n = u5e::filter(std::istream_iterator<int>(in), std::istream_iterator<int>(), out, as_function<int>), sum = 0;
      for (size_t k = 0; k < part.size(); k++) sum += amount(k);
      verify(x, part, sum, n, l, out, &out, "input stream");
    }
    {
      int sum = 0, n;
      for (size_t k = 0; k < part.size(); k++) sum += amount(k);
      { Log l; Text out(1, -7); log_ = &l; Once::Source src = { t.data() + a, t.data() + b }; Once f = { &src }, e = { 0 };
        n = u5e::filter(f, e, out, as_function<int>); verify(x, part, sum, n, l, out, &out, "a range read only once"); }
      std::string octets;
      std::vector<Text> want;
      for (size_t i = a; i < b; i++) { octets += char(t[i] & 0x7F); want.push_back(Text(1, t[i] & 0x7F)); }
      std::istringstream in(octets);
      Log l; Text out(1, -7); log_ = &l;
      n = u5e::filter(std::istreambuf_iterator<char>(in), std::istreambuf_iterator<char>(), out, as_function<int>);
      verify(x, want, sum, n, l, out, &out, "the octets of a stream");
    }
    std::string e = ucd::encode(t);
    std::vector<size_t> o8 = offsets8(t);
    S8 s8(e);
    V8 w8 = v8(e);
    S32 s32_ = s32(t);
    V32 w32 = v32(t);
    all<u5e::codepoint>(x, s8.codepoint_cbegin(), s8.codepoint_cend(), cp, "codepoints of a UTF-8 string");
    all<u5e::codepoint>(x, s8.codepoint_begin(), s8.codepoint_end(), cp, "codepoints of a mutable UTF-8 string");
    all<u5e::codepoint>(x, S8::const_iterator(s8.native_cbegin() + o8[a]), S8::const_iterator(s8.native_cbegin() + o8[b]), part, "part of a UTF-8 string");
    all<u5e::codepoint>(x, w8.codepoint_begin(), w8.codepoint_end(), cp, "codepoints of a UTF-8 view");
    all<u5e::codepoint>(x, s32_.codepoint_begin(), s32_.codepoint_end(), cp, "codepoints of a UTF-32 string");
    all<u5e::codepoint>(x, w32.codepoint_cbegin(), w32.codepoint_cend(), cp, "codepoints of a UTF-32 view");
    graphemes(x, s8, cl, "graphemes of a UTF-8 string");
    graphemes(x, w8, cl, "graphemes of a UTF-8 view");
    graphemes(x, s32_, cl, "graphemes of a UTF-32 string");
    graphemes(x, w32, cl, "graphemes of a UTF-32 view");
    same(x, s8.native_string, e, "the text filtered");
  }
};
PROPERTY(P)
