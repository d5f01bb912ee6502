#include "../norm.hpp"
#include <u5e/canonical_decomposition.hpp>
#include <u5e/compatibility_and_canonical_decomposition.hpp>
#include <u5e/utf8_bounds.hpp>
#include <new>

// Memory that runs out on request: the n-th allocation from now on fails, or
// all of them from there.
namespace memory {
static long live = 0, countdown = -1;
static bool forever = false, failed = false;
static void* get(size_t n) {
  if (countdown >= 0) {
    if (countdown == 0 || (forever && failed)) { failed = true; if (!forever) countdown = -1; return 0; }
    countdown--;
  }
  void* p = malloc(n ? n : 1);
  if (p) live++;
  return p;
}
static void put(void* p) { if (p) { live--; free(p); } }
static void arm(long n, bool f) { countdown = n; forever = f; failed = false; }
static bool disarm() { countdown = -1; return failed; }
}
void* operator new(size_t n) { void* p = memory::get(n); if (!p) throw std::bad_alloc(); return p; }
void* operator new[](size_t n) { void* p = memory::get(n); if (!p) throw std::bad_alloc(); return p; }
void* operator new(size_t n, const std::nothrow_t&) noexcept { return memory::get(n); }
void* operator new[](size_t n, const std::nothrow_t&) noexcept { return memory::get(n); }
void operator delete(void* p) noexcept { memory::put(p); }
void operator delete[](void* p) noexcept { memory::put(p); }
void operator delete(void* p, size_t) noexcept { memory::put(p); }
void operator delete[](void* p, size_t) noexcept { memory::put(p); }
void operator delete(void* p, const std::nothrow_t&) noexcept { memory::put(p); }
void operator delete[](void* p, const std::nothrow_t&) noexcept { memory::put(p); }

struct Stop { int value; };
static long stop_at, stop_value, seen;
template <class Out> static int stopping(const u5e::codepoint c, Out& o) {
  if (seen == stop_at) throw Stop{ int(stop_value) };
  seen++;
  return u5e::canonical_decomposition<Out>(c, o);
}
template <class In, class Out> static int stopping_form(u5e::basic_grapheme<In> g, Out& o) {
  if (seen == stop_at) throw Stop{ int(stop_value) };
  seen++;
  return u5e::normalization_form_c<In, Out>(g, o);
}

struct P : Property {
  const char* id() const { return "M01"; }
  const char* rule() const {
    return "a text, a destination's content, an operation (appending, converting, assigning, decomposing, the four forms, traversal), "
           "and a point of failure: the n-th allocation fails, or all from the n-th on, or the filter's operation throws at the n-th "
           "element; non-trivial: the failure reached the caller";
  }
  int big() { return 4000; }
  enum { OPS = 22 };
  std::vector<FieldSpec> fields() const { return { { "text", SCALARS }, { "dest", SCALARS }, { "operation", INTS }, { "point", INTS } }; }
  static std::vector<Text> some() {
    Text a(40, 0x301), b, c, d;
    a.insert(a.begin(), 'a');
    for (int i = 0; i < 60; i++) { b.push_back(0xAC01 + i); b.push_back('a' + i % 26); }
    for (int i = 0; i < 40; i++) c.push_back(i % 2 ? 0x323 : 0x301);
    c.insert(c.begin(), 'q');
    for (int i = 0; i < 30; i++) { d.push_back(0xFDFA); d.push_back(0x1F1E6 + i % 26); d.push_back(0x1F4A9); }
    return { Text(), Text(1, 'a'), Text(1, 0x390), Text(8, 'a'), Text(16, 'a'), Text(1, 0xFDFA), a, b, c, d };
  }
  uint64_t enum_count(bool) { return some().size() * OPS * 2; }
  const char* enum_what(bool) { return "ten texts (short ones, long clusters, many clusters, long expansions), every operation, the first 60 points of failure of either kind"; }
  void enum_case(uint64_t i, Case& c) {
    std::vector<Text> all = some();
    c[0] = all[i % all.size()];
    i /= all.size();
    c[2].push_back(i % OPS);
    if (i / OPS) c[1].assign(20, 'd');
  }
  void gen(Source& s, Case& c) {
    gen::text(s, c[0]);
    gen::text(s, c[1], s.chance(1, 4) ? 1 : 0);
    c[2].push_back(s.below(OPS));
    c[3].push_back(s.below(1 << 10));
  }

  const Text* text;
  // The operation f on a fresh destination of the given content, with failures
  // at every early point and at some later ones. Whatever happens: the right
  // result, or bad_alloc in the caller with nothing lost and nothing wrong
  // written; then the same operation succeeds.
  template <class N> static bool starts_with(const N& a, const N& b) { return a.size() >= b.size() && std::equal(b.begin(), b.end(), a.begin()); }
  template <class Dest, class N, class F>
  void failing(Ctx& x, const char* what, const N& before, const N& want, bool append, int later, F f) {
    for (int forever = 0; forever < 2; forever++) {
      long n = 0;
      bool last = false;
      while (!last) {
        long grown = 0;
        int rounds = n < 4 ? 3 : 1;
        for (int round = 0; round < rounds; round++) {
          long live = memory::live;
          {
            Dest d{ N(before) };
            bool caught = false, other = false;
            memory::arm(n, forever);
            try { f(d); } catch (const std::bad_alloc&) { caught = true; } catch (...) { other = true; }
            bool failed = memory::disarm();
            x.checks++;
            if (other) x.fail("%s of %s: another exception than bad_alloc when allocation %ld fails", what, show(*text).c_str(), n);
            if (caught && !failed) x.fail("%s of %s: bad_alloc although no allocation failed", what, show(*text).c_str());
            const N& got = d.native_string;
            if (caught) {
              x.nontrivial();
              bool ok = append ? starts_with(got, before) && starts_with(want, got) : got == before || got == want;
              if (!ok) x.fail("%s of %s: after allocation %ld failed, the destination holds %zu units that are not %s", what, show(*text).c_str(), n, got.size(),
                              append ? "its old content and a part of the result" : "the old or the new content");
              x.label(got == before ? "failed: nothing written" : "failed: a part written");
            } else {
              if (!(got == want)) x.fail("%s of %s: no exception when allocation %ld fails (it did: %d), but a wrong result", what, show(*text).c_str(), n, failed);
              if (failed) x.label("done in spite of the failure");
              if (!failed) last = true;
            }
            if (caught) {
              Dest again{ N(before) };
              f(again);
              if (!(again.native_string == want)) x.fail("%s of %s: repeated after allocation %ld had failed, it gives another result", what, show(*text).c_str(), n);
            }
          }
          grown = memory::live - live;
        }
        if (rounds == 3 && grown > 0) x.fail("%s of %s: %ld allocations are not released, with a failure at allocation %ld", what, show(*text).c_str(), grown, n);
        n += n < 60 ? 1 : 1 + (later + n) % 37 * (1 + n / 200);
        if (n > 5000) break;
      }
    }
  }
  // An exception of the filter's operation.
  template <class Dest, class N, class F, class W>
  void stopping_at(Ctx& x, const char* what, const N& before, long elements, long point, F f, W wanted) {
    stop_at = elements ? point % (elements + 1) : 0;
    stop_value = point + 7;
    seen = 0;
    Dest d{ N(before) };
    bool caught = false;
    try { f(d); } catch (const Stop& e) { caught = true; if (e.value != stop_value) x.fail("%s: another exception arrives", what); }
    if (caught != (stop_at < elements)) x.fail("%s of %s: the operation throws at element %ld of %ld, which %s the caller", what, show(*text).c_str(), stop_at, elements, caught ? "reaches" : "does not reach");
    if (seen != std::min(stop_at, elements)) x.fail("%s of %s: %ld elements were processed before the exception at element %ld", what, show(*text).c_str(), seen, stop_at);
    N want = wanted(stop_at);
    if (!(d.native_string == want)) x.fail("%s of %s: after an exception at element %ld the destination holds %zu units, not the %zu written before", what, show(*text).c_str(), stop_at, d.native_string.size(), want.size());
    x.checks++;
    if (caught) x.nontrivial();
    stop_at = -1;
    Dest again{ N(before) };
    f(again);
    check(x, again.native_string == wanted(elements), "the filter gives another result after an exception");
  }
  void run(const Case& c, Ctx& x) {
    const Text& t = c[0];
    text = &t;
    std::string s = ucd::encode(t), d = ucd::encode(c[1]);
    istring i32(t.begin(), t.end()), d32(c[1].begin(), c[1].end());
    int op = at_or(c[2], 0, 0) % OPS, later = at_or(c[3], 0, 0);
    static char name[40];
    snprintf(name, sizeof name, "operation %d", op);
    x.label(name);
    S8 a(s);
    V8 v = v8(s);
    S32 b(i32);
    V32 w = v32(t);
    auto form8 = [&](ucd::Form f) { return d + ucd::encode(ucd::normalize(t, f)); };
    auto form32 = [&](ucd::Form f) { Text r = ucd::normalize(t, f); return d32 + istring(r.begin(), r.end()); };
    auto dec32 = [&](bool compat, const Text& u) { istring r = d32; Text e; for (int k : u) compat ? ucd::compat_full(k, e) : ucd::canonical_full(k, e); return r.append(e.begin(), e.end()); };
    if (op == 15 && kc_across_graphemes(t)) return;             // see known_findings.txt
    switch (op) {
    case 0: failing<S8>(x, "append", d, d + s, true, later, [&](S8& o) { o.append(a.codepoint_cbegin(), a.codepoint_cend()); }); break;
    case 1: failing<S8>(x, "append of a view", d, d + s, true, later, [&](S8& o) { o.append<sview>(v.codepoint_cbegin(), v.codepoint_cend()); }); break;
    case 2: failing<S8>(x, "append of graphemes", d, d + s, true, later, [&](S8& o) { auto f = a.grapheme_begin(), e = a.grapheme_end(); o.append(f, e); }); break;
    case 3: failing<S8>(x, "append_from_utf32ne", d, d + s, true, later, [&](S8& o) { o.append_from_utf32ne<istring>(b.codepoint_cbegin(), b.codepoint_cend()); }); break;
    case 4: failing<S8>(x, "append_from_utf32ne of a view", d, d + s, true, later, [&](S8& o) { o.append_from_utf32ne<iview>(w.codepoint_cbegin(), w.codepoint_cend()); }); break;
    case 5: failing<S32>(x, "append in UTF-32", d32, d32 + i32, true, later, [&](S32& o) { o.append(b.codepoint_cbegin(), b.codepoint_cend()); }); break;
    case 6: failing<S32>(x, "append_from_utf32ne in UTF-32", d32, d32 + i32, true, later, [&](S32& o) { o.append_from_utf32ne<iview>(w.codepoint_cbegin(), w.codepoint_cend()); }); break;
    case 7: failing<S8>(x, "assignment", d, s, false, later, [&](S8& o) { o = a; }); break;
    case 8: failing<S32>(x, "assignment in UTF-32", d32, i32, false, later, [&](S32& o) { o = b; }); break;
    case 9: failing<S8>(x, "copy and append", d, d + s, true, later, [&](S8& o) { S8 copy(a); o.append(copy.codepoint_cbegin(), copy.codepoint_cend()); }); break;
    case 10: failing<S32>(x, "canonical decomposition", d32, dec32(false, t), true, later, [&](S32& o) { u5e::filter(a.codepoint_cbegin(), a.codepoint_cend(), o, u5e::canonical_decomposition<S32>); }); break;
    case 11: failing<S32>(x, "compatibility decomposition", d32, dec32(true, t), true, later, [&](S32& o) { u5e::filter(w.codepoint_cbegin(), w.codepoint_cend(), o, u5e::compatibility_and_canonical_decomposition<S32>); }); break;
    case 12: failing<S8>(x, "form D", d, form8(ucd::FORM_D), true, later, [&](S8& o) { norm<ucd::FORM_D>(a, o); }); break;
    case 13: failing<S8>(x, "form C", d, form8(ucd::FORM_C), true, later, [&](S8& o) { norm<ucd::FORM_C>(v, o); }); break;
    case 14: failing<S8>(x, "form KD", d, form8(ucd::FORM_KD), true, later, [&](S8& o) { norm<ucd::FORM_KD>(b, o); }); break;
    case 15: failing<S8>(x, "form KC", d, form8(ucd::FORM_KC), true, later, [&](S8& o) { norm<ucd::FORM_KC>(a, o); }); break;
    case 16: failing<S32>(x, "form C to UTF-32", d32, form32(ucd::FORM_C), true, later, [&](S32& o) { norm<ucd::FORM_C>(a, o); }); break;
    case 17: failing<S32>(x, "form D to UTF-32", d32, form32(ucd::FORM_D), true, later, [&](S32& o) { norm<ucd::FORM_D>(w, o); }); break;
    case 18: {
      // traversal only; the destination receives what was counted
      std::vector<size_t> g = ucd::grapheme_starts(t);
      istring want = d32 + istring(1, int(t.size())) + istring(1, int(t.empty() ? 0 : g.size() - 1)) + istring(1, 1);
      failing<S32>(x, "traversal", d32, want, true, later, [&](S32& o) {
        int k = 0, m = 0;
        for (auto i = a.codepoint_cbegin(), e = a.codepoint_cend(); i != e; ++i) k++;
        for (auto i = v.grapheme_begin(), e = v.grapheme_end(); i != e; ++i) m++;
        bool ok = u5e::utf8_bounds<std::string::const_iterator>::check(a.native_cbegin(), a.native_cend());
        o.native_string.push_back(k); o.native_string.push_back(m); o.native_string.push_back(ok);
      });
      break;
    }
    case 19:
      stopping_at<S32>(x, "filter over codepoints", d32, t.size(), later, [&](S32& o) { u5e::filter(a.codepoint_cbegin(), a.codepoint_cend(), o, stopping<S32>); },
                       [&](long k) { return dec32(false, Text(t.begin(), t.begin() + k)); });
      break;
    case 20:
    case 21: {
      std::vector<size_t> g = ucd::grapheme_starts(t);
      long n = t.empty() ? 0 : g.size() - 1;
      auto want = [&](long k) { return d + ucd::encode(ucd::normalize(Text(t.begin(), t.begin() + (k ? g[k] : 0)), ucd::FORM_C)); };
      if (op == 20) stopping_at<S8>(x, "filter over graphemes", d, n, later, [&](S8& o) { u5e::filter(a.grapheme_begin(), a.grapheme_end(), o, stopping_form<S8, S8>); }, want);
      else stopping_at<S8>(x, "filter over graphemes of UTF-32", d, n, later, [&](S8& o) { u5e::filter(b.grapheme_begin(), b.grapheme_end(), o, stopping_form<S32, S8>); }, want);
      break;
    }
    }
    check(x, a.native_string == s, "the source has changed");
    check(x, b.native_string == i32, "the UTF-32 source has changed");
  }
};
PROPERTY(P)
