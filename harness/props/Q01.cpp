#include "../common.hpp"
#include <list>
#include <map>
#include <memory>
#include <set>
#include <unordered_map>
#include <utility>

// A codepoint against the integer it stands for.
namespace {
using u5e::codepoint;
// what can be worked out by the compiler
constexpr codepoint assigned(int v) { codepoint c; c = v; return c; }
constexpr codepoint copied(int v) { codepoint a(v), b; b = a; return b; }
constexpr codepoint chained(int v) { codepoint a, b; a = b = v; return a; }
constexpr int back(codepoint c) { return c; }
constexpr bool equal(int a, int b) { return codepoint(a) == codepoint(b); }
template <int V> struct Known {
  static constexpr codepoint c = V;
  static constexpr int value = codepoint(V).value, asint = int(codepoint(V)), given = assigned(V), kept = copied(V), chain = chained(V), gone = back(V), none = codepoint();
  static constexpr bool same = equal(V, V), other = equal(V, V ^ 0x10000) || equal(V ^ 1, V) || equal(V, V ^ int(0x80000000)), mixed = codepoint(V) == V && V == codepoint(V) && !(codepoint(V) == (V ^ 0x100)) && !((V ^ 0x100) == codepoint(V)),
                        unlike = codepoint(V) != codepoint(V) || codepoint(V) != V || V != codepoint(V);
};
template <int V> constexpr codepoint Known<V>::c;
template <int V> void known(Ctx& x) {
  typedef Known<V> K;
  const codepoint& at = K::c;
  x.checks++;
  bool asserted = K::value == V && K::asint == V && K::given == V && K::kept == V && K::chain == V && K::gone == V && K::none == 0 && K::same && !K::other && K::mixed && !K::unlike;
  if (!asserted || at.value != V) x.fail("as a constant expression the codepoint %d is not its integer", V);
}
void all_known(Ctx& x) {
  known<0>(x); known<1>(x); known<-1>(x); known<'a'>(x); known<0x7F>(x); known<0x80>(x); known<0xFF>(x); known<0x100>(x); known<0x7FFF>(x); known<0x8000>(x); known<0xD800>(x); known<0xFFFF>(x);
  known<0x10000>(x); known<0x1F466>(x); known<0x10FFFF>(x); known<0x110000>(x); known<0x1FFFFF>(x); known<0x200000>(x); known<0xFFFFFF>(x); known<0x1000000>(x); known<0x7FFFFFFF>(x); known<int(0x80000000)>(x); known<-256>(x);
}
int as_int(int v) { return v; }
int as_codepoint(codepoint c) { return c.value; }
int as_reference(const codepoint& c) { return c.value; }
}

struct P : Property {
  const char* id() const { return "Q01"; }
  const char* rule() const {
    return "a list of integers of 32 bits, each made a codepoint in every way (construction, conversion, assignment, copy, chain, swap, in an array, from narrower and wider types), read back, "
           "and compared with each of the others as codepoint and as integer both ways; sorted, searched, used as keys and copied between texts and containers; "
           "read through positions of both encodings; against the integers; and 23 of them in constant expressions; non-trivial: two different values that agree in their lower 8, 16 or 21 bits, or order differently as signed and unsigned";
  }
  std::vector<FieldSpec> fields() const { return { { "values", ANYINTS } }; }
  static std::vector<int> edges() {
    std::vector<int> e;
    for (int b = 0; b < 32; b++) for (int d = -1; d <= 1; d++) e.push_back(int((1u << b) + unsigned(d)));
    for (int v : { 0, -2, 0x61, 0xD7FF, 0xDFFF, 0xE000, 0x10FFFF, 0x110000, 0x1F466, 0xAC00, 0x7F, 0x7FFFFFFE }) e.push_back(v);
    return e;
  }
  uint64_t enum_count(bool) { uint64_t n = edges().size(); return n * n + 0x110000; }
  const char* enum_what(bool) { return "every pair of 108 integers at the edges of every width, and every integer from 0 to 10FFFF with the ones that differ in one bit"; }
  void enum_case(uint64_t i, Case& c) {
    static const std::vector<int> e = edges();
    uint64_t n = e.size();
    if (i < n * n) { c[0] = { e[i / n], e[i % n] }; return; }
    int v = int(i - n * n);
    c[0] = { v, v ^ (1 << (i % 31)) };
  }
  int big() { return 0; }
  void gen(Source& s, Case& c) {
    for (int i = 0, n = s.range(1, 12); i < n; i++) {
      int v = s.chance(1, 3) ? gen::any_int(s) : s.chance(1, 2) ? gen::scalar(s) : int(uint32_t(s.range(0, 65535)) << 16 | uint32_t(s.range(0, 65535)));
      c[0].push_back(v);
      if (s.chance(1, 2)) c[0].push_back(int(uint32_t(c[0][s.range(0, int(c[0].size()) - 1)]) ^ (1u << s.range(0, 31))));
      if (s.chance(1, 4)) c[0].push_back(c[0][s.range(0, int(c[0].size()) - 1)]);
    }
  }
  void is(Ctx& x, const char* how, int got, int want) {
    x.checks++;
    if (got != want) x.fail("%s: got %d, want %d", how, got, want);
  }
  void one(Ctx& x, int v) {
    codepoint zero, a(v), b = v, c = codepoint(v), d{ v };
    is(x, "a codepoint made of nothing", zero.value, 0);
    is(x, "constructed", a.value, v); is(x, "converted", b.value, v); is(x, "copied", c.value, v); is(x, "in braces", d.value, v);
    is(x, "as an integer", a, v); is(x, "as an int", int(a), v); is(x, "given as an int", as_int(a), v); is(x, "given as a codepoint", as_codepoint(v), v); is(x, "given as a reference", as_reference(v), v);
    codepoint e, f, g(v ^ 0x55), h(a);
    e = v; f = g = v;
    is(x, "assigned", e.value, v); is(x, "assigned in a chain", f.value, v); is(x, "assigned in a chain, first", g.value, v); is(x, "copy", h.value, v);
    g = h; is(x, "assigned a codepoint", g.value, v); is(x, "what it was assigned from", h.value, v);
    codepoint& self = g; g = self; is(x, "assigned to itself", g.value, v);
    x.checks++;
    if (&(e = v) != &e || &(e = h) != &e) x.fail("assigning does not give the codepoint assigned to");
    codepoint m(std::move(h)); is(x, "moved", m.value, v);
    codepoint k[3] = { v, codepoint(v) };
    is(x, "in an array", k[0], v); is(x, "in an array, second", k[1], v); is(x, "in an array, not given", k[2], 0);
    codepoint p(v), q(~v); std::swap(p, q); is(x, "swapped", p.value, ~v); is(x, "swapped, other", q.value, v);
    is(x, "truth", a ? 1 : 0, v ? 1 : 0); is(x, "negation", !a ? 1 : 0, v ? 0 : 1);
    switch (a) { case 0: is(x, "a switch", v, 0); break; case 'a': is(x, "a switch", v, 'a'); break; case 0x1F466: is(x, "a switch", v, 0x1F466); break; default: x.checks++; if (v == 0 || v == 'a' || v == 0x1F466) x.fail("a switch does not see %d", v); }
    is(x, "from char32_t", codepoint(char32_t(v)).value, v); is(x, "from char16_t", codepoint(char16_t(v)).value, char16_t(v)); is(x, "from unsigned char", codepoint((unsigned char)v).value, (unsigned char)v);
    is(x, "from signed char", codepoint((signed char)v).value, (signed char)v); is(x, "from short", codepoint(short(v)).value, short(v)); is(x, "from long long", codepoint((int32_t)(long long)v).value, v);
    is(x, "at arithmetic", int(a & 0xFFFF) | int(a >> 16 << 16), v); is(x, "at wider arithmetic", int((long long)a + 1 - 1), v);
    const codepoint constant(v); is(x, "a constant one", constant, v);
    std::unique_ptr<codepoint> heap(new codepoint(v)), empty(new codepoint()); is(x, "on the heap", *heap, v); is(x, "on the heap, of nothing", *empty, 0);
  }
  void two(Ctx& x, int v, int w) {
    codepoint a(v), b(w);
    const codepoint c(v), d(w);
    auto eq = [&](const char* how, bool got, bool want) { x.checks++; if (got != want) x.fail("%s of %d and %d: got %d, want %d", how, v, w, int(got), int(want)); };
    eq("==", a == b, v == w); eq("== with an int", a == w, v == w); eq("== of an int", v == b, v == w); eq("== of constants", c == d, v == w);
    eq("!=", a != b, v != w); eq("!= with an int", a != w, v != w); eq("!= of an int", v != b, v != w); eq("!= of constants", c != d, v != w);
    eq("<", a < b, v < w); eq("< with an int", a < w, v < w); eq("< of an int", v < b, v < w); eq("<=", a <= b, v <= w); eq(">", a > b, v > w); eq(">=", c >= d, v >= w);
    eq("equal_to", std::equal_to<codepoint>()(a, b), v == w); eq("less", std::less<codepoint>()(a, b), v < w);
    a = b;
    eq("== after assignment", a == b && a == w && !(a != b), true);
    eq("what was copied before", c == v, true);
    uint32_t u = uint32_t(v) ^ uint32_t(w);
    if (u && (!(u & 0xFF) || !(u & 0xFFFF) || !(u & 0x1FFFFF) || (v < w) != (uint32_t(v) < uint32_t(w)))) x.nontrivial();
  }
  void run(const Case& cs, Ctx& x) {
    const Field& v = cs[0];
    static bool first = true;
    if (first) { all_known(x); first = false; }
    label_size(x, v.size());
    for (size_t i = 0; i < v.size(); i++) {
      one(x, v[i]);
      for (size_t j = 0; j < v.size(); j++) two(x, v[i], v[j]);
    }
    if (v.size() < 2) return;
    Text ints(v.begin(), v.end()), order(ints);
    std::sort(order.begin(), order.end());
    std::vector<codepoint> all(ints.begin(), ints.end()), sorted(all);
    std::sort(sorted.begin(), sorted.end());
    same(x, Text(sorted.begin(), sorted.end()), order, "sorted codepoints");
    std::list<codepoint> l(all.begin(), all.end());
    l.sort(); l.reverse(); l.reverse();
    same(x, Text(l.begin(), l.end()), order, "a sorted list of codepoints");
    std::set<codepoint> s(all.begin(), all.end());
    std::set<int> si(ints.begin(), ints.end());
    same(x, Text(s.begin(), s.end()), Text(si.begin(), si.end()), "a set of codepoints");
    std::map<codepoint, int> m;
    std::unordered_map<int, int> u;
    for (size_t i = 0; i < all.size(); i++) { m[all[i]] += int(i) + 1; u[all[i]] += int(i) + 1; }
    for (int w : ints) {
      x.checks += 4;
      if (m[w] != u[w]) x.fail("the key %d of a map", w);
      if (std::find(all.begin(), all.end(), w) - all.begin() != std::find(ints.begin(), ints.end(), w) - ints.begin()) x.fail("finding %d", w);
      if (std::count(all.begin(), all.end(), codepoint(w)) != std::count(ints.begin(), ints.end(), w)) x.fail("counting %d", w);
      if (std::lower_bound(sorted.begin(), sorted.end(), w) - sorted.begin() != std::lower_bound(order.begin(), order.end(), w) - order.begin()) x.fail("the lower bound of %d", w);
    }
    x.checks += 3;
    if (!std::equal(all.begin(), all.end(), ints.begin()) || !std::equal(ints.begin(), ints.end(), all.begin())) x.fail("codepoints do not equal their integers");
    if (std::lexicographical_compare(all.begin(), all.end(), sorted.begin(), sorted.end()) != std::lexicographical_compare(ints.begin(), ints.end(), order.begin(), order.end())) x.fail("lexicographical order");
    // through positions
    S32 t32 = s32(ints), o32;
    size_t k = 0;
    for (auto i = t32.codepoint_begin(); i != t32.codepoint_end(); ++i, k++) {
      codepoint c = *i;
      is(x, "read from UTF-32", c, ints[k]);
      *i = codepoint(ints[ints.size() - 1 - k]);
      is(x, "written to UTF-32", *i, ints[ints.size() - 1 - k]);
    }
    same(x, text_of(t32.native_string), Text(ints.rbegin(), ints.rend()), "codepoints written to UTF-32");
    std::copy(all.begin(), all.end(), t32.codepoint_begin());
    same(x, text_of(t32.native_string), ints, "codepoints copied to UTF-32");
    for (codepoint c : all) o32.native_string.push_back(c);
    same(x, text_of(o32.native_string), ints, "codepoints pushed");
    Text sc;
    for (int w : ints) if (ucd::is_scalar(w)) sc.push_back(w);
    S8 s8(ucd::encode(sc));
    k = 0;
    for (auto i = s8.codepoint_begin(); i != s8.codepoint_end() && k < sc.size(); ++i, k++) {
      codepoint c = *i, d;
      d = *i;
      is(x, "read from UTF-8", c, sc[k]); is(x, "assigned from UTF-8", d, sc[k]); is(x, "value in UTF-8", (*i).value, sc[k]); is(x, "integer in UTF-8", int(*i), sc[k]);
      int w = sc[sc.size() - 1 - k];
      auto eq = [&](const char* how, bool got, bool want) { x.checks++; if (got != want) x.fail("in UTF-8, %s of %d and %d", how, sc[k], w); };
      eq("==", *i == codepoint(w), sc[k] == w); eq("!=", *i != codepoint(w), sc[k] != w); eq("<", *i < codepoint(w), sc[k] < w);
      S8::const_iterator r(s8.codepoint_cbegin());
      eq("== of a constant one", *r == codepoint(w), sc[0] == w); eq("== with an int", *r == w, sc[0] == w); eq("< of a constant one", *r < w, sc[0] < w);
    }
  }
};
PROPERTY(P)
