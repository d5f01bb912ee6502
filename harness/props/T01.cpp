#include "../norm.hpp"
#include <atomic>
#include <thread>
#include <u5e/canonical_combining_order.hpp>
#include <u5e/utf8_bounds.hpp>

struct Call { int kind, a, b; const std::string* s; const Text* t; };

template <class S> static void clusters(S& s, Text& r, size_t max) {
  auto e = s.grapheme_end();
  size_t n = 0;
  for (auto i = s.grapheme_begin(); i != e && n < max; ++i) {
    auto g = *i;
    for (auto c = g.codepoint_begin(); c != g.codepoint_end() && n < max; ++c, n++) { auto d = c; int v = *d; r.push_back(v); }
    r.push_back(-1);
  }
}
static void copy_mapping(const int* m, Text& r) {
  if (!m) { r.push_back(-2); return; }
  for (; *m && r.size() < 30; m++) r.push_back(*m);
}
// The result of one call, on the caller's own objects over constant text.
static Text result(const Call& c) {
  using namespace u5e::props;
  Text r;
  switch (c.kind) {
  case 0: r.push_back(grapheme_cluster_break::resolve(c.a)); break;
  case 1: r.push_back(canonical_combining_class::resolve(c.a)); break;
  case 2: copy_mapping(canonical_decomposition_mapping::resolve(c.a), r); break;
  case 3: copy_mapping(compatibility_and_canonical_decomposition_mapping::resolve(c.a), r); break;
  case 4: { int z = -7; r.push_back(canonical_composition_mapping::resolve(c.a, c.b, &z)); r.push_back(z); break; }
  case 5: { S32 o; r.push_back(u5e::canonical_decomposition<S32>(c.a, o)); r.insert(r.end(), o.native_string.begin(), o.native_string.end()); break; }
  case 6: r.push_back(u5e::canonical_combining_order(c.a, c.b)); break;
  case 7: { V8 v = v8(*c.s); Text q; clusters(v, q, c.s->size() + 1); r = q; break; }
  case 8: { V32 v = v32(*c.t); clusters(v, r, c.t->size() + 1); break; }
  case 9: { V8 v = v8(*c.s); for (auto i = v.codepoint_begin(); i != v.codepoint_end() && r.size() <= c.s->size(); ++i) { auto d = i; int k = *d; r.push_back(k); } break; }
  case 10: r.push_back(u5e::utf8_bounds<std::string::const_iterator>::check(c.s->begin(), c.s->end())); break;
  case 11: case 12: case 13: case 14: { V8 v = v8(*c.s); S8 o; r.push_back(norm(c.kind - 11, v, o)); for (unsigned char ch : o.native_string) r.push_back(ch); break; }
  default: { V32 v = v32(*c.t); S32 o; r.push_back(norm((c.kind - 15) % 4, v, o)); r.insert(r.end(), o.native_string.begin(), o.native_string.end()); break; }
  }
  return r;
}
static const char* const kinds[] = { "grapheme cluster break", "combining class", "canonical mapping", "compatibility mapping", "composition",
  "canonical decomposition", "canonical order", "clusters of UTF-8", "clusters of UTF-32", "codepoints", "bounds check", "D", "C", "KD", "KC", "D of UTF-32", "C of UTF-32", "KD of UTF-32", "KC of UTF-32" };

struct P : Property {
  const char* id() const { return "T01"; }
  const char* rule() const {
    return "calls (lookups of integers that share bits, iteration and normalization of texts) made by four threads at once on "
           "shared constant text, then by one thread in three orders, each call twice; every result of a call must be the same; "
           "run with the thread sanitizer too; non-trivial: threads ran, or integers of different properties that share low bits";
  }
  std::vector<FieldSpec> fields() const { return { { "ints", ANYINTS }, { "text", SCALARS }, { "options", INTS } }; }
  std::vector<int> all;
  uint64_t enum_count(bool thorough) {
    all.clear();
    for (uint64_t i = 0; i < gen::scalars_count(); i++) {
      int c = gen::nth_scalar(i);
      if (ucd::ccc(c) || (ucd::has_compat(c) && (!ucd::is_hangul_syllable(c) || thorough)) || (ucd::gcb(c) != ucd::OTHER && (thorough || !ucd::is_hangul_syllable(c)) && c < 0xE0000)) all.push_back(c);
    }
    return all.size();
  }
  const char* enum_what(bool) { return "every codepoint with properties (thorough: and Hangul) together with integers that share its low 7 to 20 bits"; }
  void enum_case(uint64_t i, Case& c) { relatives(all[i], c[0]); }
  static void relatives(int c, Field& f) {
    f.push_back(c);
    for (int k : { 7, 8, 10, 12, 16, 17, 20 }) f.push_back(c & ((1 << k) - 1));
    f.push_back(c ^ 0x10000);
    f.push_back(c ^ 0x100);
    f.push_back(c ^ 0x1000);
    f.push_back(c + 1);
  }
  void gen(Source& s, Case& c) {
    for (int i = 0, n = s.range(1, 3); i < n; i++) {
      int v = gen::any_int(s);
      switch (s.range(0, 4)) {
      case 0: c[0].push_back(v); break;
      case 1: c[0].push_back(v); c[0].push_back(int(uint32_t(v) ^ 1u << s.range(0, 31))); break;
      case 2: { auto& p = s.pick(ucd::pools.pairs); c[0].push_back(p.first.first); c[0].push_back(p.first.second); break; }
      default: relatives(gen::scalar(s), c[0]);
      }
    }
    gen::text(s, c[1], s.weighted({ 1, 6, 1 }));
    c[2].push_back(s.chance(1, 4) || !PBT_PLAIN);
    c[2].push_back(s.below(1 << 20));
  }
#ifdef PBT_SANITIZED
  static const bool PBT_PLAIN = false;
#else
  static const bool PBT_PLAIN = true;
#endif
  void different(Ctx& x, const Call& c, const Text& p, const Text& q, const char* when) {
    x.fail("%s of %s gives %s, and %s %s", kinds[c.kind], c.kind < 7 ? show({ c.a, c.b }).c_str() : show(*c.t).c_str(), show(p).c_str(), when, show(q).c_str());
  }
  void run(const Case& c, Ctx& x) {
    // the pieces: the whole text and its halves
    Text pieces[3];
    pieces[0] = c[1];
    size_t half = c[1].size() / 2;
    pieces[1].assign(c[1].begin(), c[1].begin() + half);
    pieces[2].assign(c[1].begin() + half, c[1].end());
    std::string octets[3];
    for (int i = 0; i < 3; i++) octets[i] = ucd::encode(pieces[i]);
    std::vector<Call> calls;
    for (size_t i = 0; i < c[0].size(); i++) {
      int a = c[0][i], b = c[0][(i + 1) % c[0].size()];
      for (int k = 0; k < 7; k++) calls.push_back({ k, a, b, 0, 0 });
      calls.push_back({ 4, a, ucd::pools.seconds[(unsigned(a) + i) % ucd::pools.seconds.size()], 0, 0 });
      calls.push_back({ 4, ucd::pools.firsts[(unsigned(a) + i) % ucd::pools.firsts.size()], a, 0, 0 });
    }
    if (!c[1].empty()) for (int i = 0; i < 3; i++) for (int k = 7; k < 19; k++) calls.push_back({ k, 0, 0, &octets[i], &pieces[i] });
    size_t n = calls.size();
    bool threads = at_or(c[2], 0, 0);
    std::vector<Text> first;
    const int T = 4;
    std::vector<std::vector<Text>> by(T);
    if (threads && n) { // first of all: nothing has been called for this case yet
      x.label("threads");
      x.nontrivial();
      std::atomic<int> waiting(T);
      std::vector<std::thread> th;
      for (int t = 0; t < T; t++) {
        by[t].resize(n);
        th.push_back(std::thread([&, t]() {
          waiting--;
          while (waiting > 0) std::this_thread::yield();
          // two of them in the same order, the others elsewhere
          for (size_t k = 0; k < n; k++) { size_t q = t == 3 ? n - 1 - k : t == 2 ? (k + n / 2) % n : k; by[t][q] = result(calls[q]); }
        }));
      }
      for (auto& t : th) t.join();
    }
    for (size_t i = 0; i < c[0].size(); i++) for (size_t j = 0; j < i; j++)
      if (c[0][i] != c[0][j] && (c[0][i] & 0x7F) == (c[0][j] & 0x7F) && (ucd::ccc(c[0][i]) != ucd::ccc(c[0][j]) || ucd::gcb(c[0][i]) != ucd::gcb(c[0][j]) || ucd::has_compat(c[0][i]) != ucd::has_compat(c[0][j]))) x.nontrivial();
    for (size_t k = 0; k < n; k++) {
      first.push_back(result(calls[k]));
      Text again = result(calls[k]);
      if (again != first[k]) different(x, calls[k], first[k], again, "again");
    }
    for (size_t k = n; k-- > 0;) {
      Text r = result(calls[k]);
      if (r != first[k]) different(x, calls[k], first[k], r, "in reverse order");
    }
    size_t stride = 1 + at_or(c[2], 1, 3) % 97, at = 0;
    for (size_t k = 0; k < n; k++) {
      at = (at + stride) % n;
      Text r = result(calls[at]);
      if (r != first[at]) different(x, calls[at], first[at], r, "in another order");
    }
    if (threads) for (int t = 0; t < T; t++) for (size_t k = 0; k < n; k++)
      if (by[t][k] != first[k]) different(x, calls[k], first[k], by[t][k], "in one of four threads");
    x.checks += 3 * n + (threads ? 4 * n : 0);
    for (int i = 0; i < 3; i++) if (octets[i] != ucd::encode(pieces[i])) x.fail("a constant text changed");
  }
};
PROPERTY(P)
