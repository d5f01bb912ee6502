#include "gen.hpp"
#include <algorithm>
#include <cstdlib>
using namespace ucd;

namespace gen {
static const int edges[] = {
  0x00, 0x01, 0x1F, 0x20, 0x7E, 0x7F, 0x80, 0x81, 0xBF, 0xC0, 0xFF, 0x100, 0x3BF, 0x3FF, 0x400,
  0x7C0, 0x7FE, 0x7FF, 0x800, 0x801, 0x83F, 0x840, 0xFFF, 0x1000, 0x1FFF, 0x2000, 0x203F, 0x7FFF, 0x8000,
  0xCFFF, 0xD000, 0xD7FF, 0xE000, 0xEFFF, 0xF000, 0xFDD0, 0xFEFF, 0xFFFD, 0xFFFE, 0xFFFF,
  0x10000, 0x10001, 0x1003F, 0x1F4A9, 0x1FFFF, 0x20000, 0x2FFFF, 0x30000, 0x3FFFF, 0x40000, 0x7FFFF, 0x80000,
  0xBFFFF, 0xC0000, 0xE0001, 0xE0100, 0xE01EF, 0xE0FFF, 0xFFFFF, 0x100000, 0x10FFFE, 0x10FFFF };

uint64_t scalars_count() { return 0x110000 - 0x800; }
int nth_scalar(uint64_t i) { return int(i) < 0xD800 ? int(i) : int(i) + 0x800; }

// The integers the code under test is written with (from run.py): where it
// treats something apart, such a number tells what.
static const std::vector<int>& literals() {
  static const std::vector<int> all = [] {
    std::vector<int> r;
    const char* e = getenv("VERIF_LITERALS");
    while (e && *e) {
      char* n;
      long v = strtol(e, &n, 10);
      if (n == e) break;
      r.push_back(int(v));
      e = *n ? n + 1 : n;
    }
    if (r.empty()) r = { 0x3F, 0x7F, 0xAC00 };
    return r;
  }();
  return all;
}
static int literal_codepoint(Source& s) {
  int64_t v = s.pick(literals());
  switch (s.below(16)) {
    case 0: v++; break;
    case 1: v--; break;
    case 2: v <<= s.pick({ 4, 6, 8, 10, 12, 16 }); v += s.below(256); break;   // what was shifted down
    case 3: v = (v & 0xFFFF) | (s.range(0, 16) << 16); break;
    case 4: v += s.range(-64, 64); break;
    default: break;
  }
  return v >= 0 && v <= 0x10FFFF && is_scalar(int(v)) ? int(v) : edges[v & 31];
}
static int literal_length(Source& s, int most) {
  const std::vector<int>& l = literals();
  for (int i = 0; i < 12; i++) {
    int v = l[s.below(l.size())];
    if (v <= most) return v + s.range(-1, 2);
  }
  return s.range(1, most);
}

static int near(Source& s, int c) {
  int d = s.pick({ 0, 0, 1, -1, 2, -2, 16, -16, 64, -64, 256 });
  return is_scalar(c + d) ? c + d : c;
}
int scalar(Source& s) {
  switch (s.weighted({ 20, 10, 10, 10, 8, 8, 8, 6, 6, 6, 4, 4, 5 })) {
  case 12: return literal_codepoint(s);
  case 0: return s.range(0x20, 0x7E);
  case 1: return edges[s.below(sizeof edges / sizeof *edges)];
  case 2: return s.pick(pools.by_gcb[1 + s.below(GCB_COUNT - 1)]);
  case 3: return s.pick(pools.canonical);
  case 4: return s.pick(pools.compat);
  case 5: return s.pick(pools.non_starters);
  case 6: return near(s, s.pick(pools.gcb_edges));
  case 7: return near(s, s.pick(s.chance(1, 2) ? pools.canonical : pools.compat));
  case 8: return near(s, s.pick(pools.non_starters));
  case 9: return nth_scalar(s.below(scalars_count()));
  case 10: return s.range(0xAC00, 0xAC00 + 11171);
  default: { // uniform over the lengths
      int b = s.range(0, 20);
      int c = int(s.below(uint64_t(1) << (b + 1)));
      return is_scalar(c) ? c : 0x10FFFF;
    }
  }
}
int starter(Source& s) {
  for (int i = 0; i < 8; i++) {
    int c = s.chance(1, 2) ? s.pick(pools.firsts) : scalar(s);
    if (ccc(c) == 0) return c;
  }
  return 'a';
}
int mark(Source& s) {
  switch (s.weighted({ 4, 3, 2 })) {
  case 0: return s.pick(pools.by_ccc[s.pick(pools.ccc_values)]);
  case 1: for (int i = 0; i < 8; i++) { int c = s.pick(pools.seconds); if (ccc(c)) return c; } return 0x300;
  default: return s.pick(std::vector<int>{ 0x300, 0x301, 0x302, 0x303, 0x307, 0x308, 0x30A, 0x316, 0x323, 0x327, 0x328, 0x331, 0x345, 0x338, 0x5B0, 0x93C, 0x94D, 0x3099, 0x1DC0, 0x334, 0x35C, 0x360 });
  }
}
int any_int(Source& s) {
  switch (s.weighted({ 6, 2, 2, 1, 1, 1, 1 })) {
  case 0: return scalar(s);
  case 6: {
      int64_t v = s.pick(literals());
      switch (s.below(4)) { case 0: v = -v; break; case 1: v = ~v; break; case 2: v += s.range(-1, 1); break; default: break; }
      return int(uint32_t(v));
    }
  case 1: return s.range(-300, -1);
  case 2: return 0x110000 + int(s.below(0x10000));
  case 3: return int(uint32_t(s.bits(4)));
  case 4: { int c = scalar(s); int sh = s.range(17, 31); return int(uint32_t(c) | (1u << sh)); }
  default: return s.pick({ -1, INT32_MIN, INT32_MAX, 0x7FFFFFFE, 0xD800, 0xDFFF, 0xDBFF, 0xDC00, 0x110000, 0x10FFFF, -0x80000000ll + 0x41 });
  }
}

static void marks(Source& s, Text& out, int n) {
  // dense: few distinct classes, so that equal classes and blocking happen
  if (s.chance(1, 2)) {
    Text pal;
    int k = s.range(1, 4);
    for (int i = 0; i < k; i++) {
      int m = mark(s);
      pal.push_back(m);
      const std::vector<int>& same = pools.by_ccc[ccc(m)];
      if (s.chance(1, 2)) pal.push_back(s.pick(same));
    }
    for (int i = 0; i < n; i++) out.push_back(s.pick(pal));
  } else {
    for (int i = 0; i < n; i++) out.push_back(mark(s));
  }
}

static void chunk(Source& s, Text& out, int strategy, int size) {
  const int LB = 0x1100, VB = 0x1161, TB = 0x11A7;
  switch (strategy) {
  case 0: // words
    for (int i = 0, n = s.range(1, 6); i < n; i++) out.push_back(s.range(0x20, 0x7E));
    break;
  case 1:
    for (int i = 0, n = s.range(1, 4); i < n; i++) out.push_back(scalar(s));
    break;
  case 2: { // a starter and marks
      out.push_back(starter(s));
      int n = s.range(1, 6);
      if (size >= 2 && s.chance(1, 3)) n = s.range(15, 40);
      if (size >= 3 && s.chance(1, 3)) n = s.range(100, 400);
      marks(s, out, n);
      break;
    }
  case 3: // marks without a starter
    marks(s, out, s.range(1, 5));
    break;
  case 4: // Hangul
    for (int i = 0, n = s.range(1, 5); i < n; i++)
      switch (s.weighted({ 4, 4, 3, 3, 2, 2, 1 })) {
      case 0: out.push_back(LB + s.range(0, 18)); break;
      case 1: out.push_back(VB + s.range(0, 20)); break;
      case 2: out.push_back(TB + s.range(0, 27)); break;
      case 3: out.push_back(0xAC00 + 28 * s.range(0, 398)); break;
      case 4: out.push_back(0xAC00 + s.range(0, 11171)); break;
      case 5: out.push_back(s.pick({ 0x10FF, 0x1100, 0x1112, 0x1113, 0x115F, 0x1160, 0x1161, 0x1175, 0x1176, 0x11A6, 0x11A7, 0x11A8, 0x11C2, 0x11C3, 0x11FF, 0xA960, 0xA97C, 0xD7B0, 0xD7C6, 0xD7CB, 0xD7FB, 0xABFF, 0xAC00, 0xAC01, 0xAC1B, 0xAC1C, 0xD788, 0xD7A3, 0xD7A4 })); break;
      default: out.push_back(s.chance(1, 2) ? mark(s) : s.pick(pools.by_tag[s.chance(1, 2) ? "<compat>" : "<narrow>"])); break;
      }
    break;
  case 5: { // a composite, partly decomposed, with company
      int c = s.pick(pools.canonical);
      Text d;
      switch (s.range(0, 3)) {
      case 0: d.push_back(c); break;
      case 1: canonical_full(c, d); break;
      case 2: canonical_full(c, d); d = compose_text(d); break;
      default: { // first step only
          Text f;
          canonical_full(c, f);
          d = f;
          for (size_t i = 1; i < d.size(); i++) {
            int x;
            if (s.chance(1, 2) && compose(d[i-1], d[i], &x)) { d[i-1] = x; d.erase(d.begin() + i); i--; }
          }
        }
      }
      for (int i = 0, n = s.range(0, 3); i < n; i++) {
        size_t at = d.empty() ? 0 : 1 + s.below(d.size());
        d.insert(d.begin() + std::min(at, d.size()), mark(s));
      }
      // shuffle the marks a little
      for (size_t i = 2; i < d.size(); i++) if (s.chance(1, 3)) std::swap(d[i-1], d[i]);
      out.insert(out.end(), d.begin(), d.end());
      break;
    }
  case 6: // compatibility characters, tag by tag
    for (int i = 0, n = s.range(1, 3); i < n; i++) {
      out.push_back(s.pick(pools.by_tag[s.pick(pools.tags)]));
      if (s.chance(1, 3)) marks(s, out, s.range(1, 3));
    }
    break;
  case 7: // break classes
    for (int i = 0, n = s.range(1, 6); i < n; i++) out.push_back(s.pick(pools.by_gcb[s.below(GCB_COUNT)]));
    break;
  case 8: // emoji
    for (int i = 0, n = s.range(1, 7); i < n; i++)
      switch (s.weighted({ 4, 4, 3, 3, 2, 2, 2 })) {
      case 0: out.push_back(s.pick(pools.by_gcb[E_BASE])); break;
      case 1: out.push_back(s.pick(pools.by_gcb[E_MODIFIER])); break;
      case 2: out.push_back(0x200D); break;
      case 3: out.push_back(s.pick(pools.by_gcb[E_BASE_GAZ])); break;
      case 4: out.push_back(s.pick(pools.by_gcb[GLUE_AFTER_ZWJ])); break;
      case 5: out.push_back(s.chance(1, 2) ? 0xFE0F : s.pick(pools.by_gcb[EXTEND])); break;
      default: out.push_back(0x1F600 + s.range(0, 60)); break;
      }
    break;
  case 9: { // flags
      int n = s.range(1, 9);
      if (size >= 2 && s.chance(1, 4)) n = s.range(20, 70);
      for (int i = 0; i < n; i++) {
        out.push_back(0x1F1E6 + s.range(0, 25));
        if (s.chance(1, 8)) out.push_back(s.pick({ 0x200D, 0x300, 0x1F3FB, 0x600, 'a', 0x903 }));
      }
      break;
    }
  case 10: // control and prepend
    for (int i = 0, n = s.range(1, 4); i < n; i++)
      switch (s.weighted({ 2, 2, 2, 3, 1 })) {
      case 0: out.push_back('\r'); break;
      case 1: out.push_back('\n'); break;
      case 2: out.push_back(s.pick(pools.by_gcb[CONTROL])); break;
      case 3: out.push_back(s.pick(pools.by_gcb[PREPEND])); break;
      default: out.push_back(0); break;
      }
    break;
  case 11: // edges of the encoded lengths
    for (int i = 0, n = s.range(1, 4); i < n; i++) out.push_back(edges[s.below(sizeof edges / sizeof *edges)]);
    break;
  case 12: { // a pair that composes, perhaps with something in between
      auto& pr = s.pick(pools.pairs);
      out.push_back(pr.first.first);
      if (s.chance(1, 2)) for (int i = 0, n = s.range(1, 3); i < n; i++) out.push_back(s.chance(1, 8) ? starter(s) : mark(s));
      out.push_back(pr.first.second);
      if (s.chance(1, 3)) out.push_back(s.pick(pools.seconds));
      break;
    }
  case 13: { // starters that compose backward
      int b = s.pick(pools.starter_seconds);
      std::vector<int> fs;
      for (auto& pr : pools.pairs) if (pr.first.second == b) fs.push_back(pr.first.first);
      out.push_back(fs.empty() ? 'a' : s.pick(fs));
      if (s.chance(1, 3)) out.push_back(mark(s));
      out.push_back(b);
      if (s.chance(1, 3)) out.push_back(s.pick(pools.seconds));
      break;
    }
  case 14: // exclusions, singletons, non-starter decompositions
    switch (s.range(0, 3)) {
    case 0: out.push_back(s.pick(pools.excluded)); break;
    case 1: out.push_back(s.pick(pools.singletons)); break;
    case 2: out.push_back(s.pick({ 0x344, 0xF73, 0xF75, 0xF81, 0x340, 0x341, 0x343, 0x374, 0x37E, 0x387, 0x2126, 0x212A, 0x212B, 0x958, 0xFB1D, 0x2ADC, 0x1D15E, 0x1D164 })); break;
    default: { Text d; canonical_full(s.pick(pools.excluded), d); out.insert(out.end(), d.begin(), d.end()); }
    }
    if (s.chance(1, 2)) marks(s, out, s.range(1, 3));
    break;
  case 15: { // say it again
      if (out.empty()) { out.push_back('a'); break; }
      size_t n = std::min<size_t>(out.size(), s.range(1, 8));
      Text t(out.end() - n, out.end());
      out.insert(out.end(), t.begin(), t.end());
      break;
    }
  case 17: { // a long run of one or two codepoints, around a round number
      static const int around[] = { 8, 16, 32, 64, 100, 128, 255, 256, 500, 512, 1000, 1024, 2000, 2048 };
      int n = around[s.below(size >= 3 ? 14 : size == 2 ? 6 : 2)] + s.range(-2, 3);
      static const int what[] = { 0x1F1E6, 0x301, 0x316, 0x200D, 0x1100, 0x1161, 0x11A8, 0xAC00, 0x600, 0x903, 0xFE0F, 0x1F3FB, 0x261D, 'a', '\r', 0x1F4A9, 0xE9, 0x915, 0 };
      int a = s.chance(1, 3) ? scalar(s) : what[s.below(sizeof what / sizeof *what)];
      int b = s.chance(1, 2) ? a : s.chance(1, 2) ? scalar(s) : what[s.below(sizeof what / sizeof *what)];
      if (s.chance(1, 2)) out.push_back(s.chance(1, 2) ? 'x' : starter(s));
      for (int i = 0; i < n; i++) out.push_back(i & 1 ? b : a);
      break;
    }
  case 18: // what the code under test is written with
    if (s.chance(1, 3)) {
      int n = literal_length(s, size >= 3 ? 2500 : size == 2 ? 150 : 16), a = s.chance(1, 2) ? literal_codepoint(s) : s.chance(1, 2) ? mark(s) : scalar(s);
      if (s.chance(1, 2)) out.push_back(s.chance(1, 2) ? 'x' : starter(s));
      int b = s.chance(1, 2) ? a : s.chance(1, 2) ? literal_codepoint(s) : scalar(s);
      for (int i = 0; i < n; i++) out.push_back(i & 1 ? b : a);
    } else {
      for (int i = 0, n = s.range(1, 5); i < n; i++) {
        out.push_back(s.chance(1, 8) ? scalar(s) : literal_codepoint(s));
        if (s.chance(1, 6)) out.push_back(mark(s));
      }
    }
    break;
  case 16: { // any decomposable character and its neighbours in the tables
      int c = s.pick(s.chance(1, 2) ? pools.canonical : pools.compat);
      out.push_back(near(s, c));
      break;
    }
  }
}
static const int STRATEGIES = 19;

void text(Source& s, Text& out, int size) {
  if (size < 0) size = s.weighted({ 3, 10, 4, 1 });
  size_t target = 0;
  switch (size) {
  case 0: target = s.range(0, 4); break;
  case 1: target = s.range(1, 24); break;
  case 2: target = s.range(20, 200); break;
  default: target = s.range(200, 2500); break;
  }
  // a few strategies at a time make their elements meet
  int k = s.weighted({ 0, 3, 3, 2, 1 });
  std::vector<int> use;
  if (s.chance(1, 6)) for (int i = 0; i < STRATEGIES; i++) use.push_back(i);
  else for (int i = 0; i < k; i++) use.push_back(s.below(STRATEGIES));
  if (use.empty()) use.push_back(1);
  while (out.size() < target && !s.exhausted()) chunk(s, out, s.pick(use), size);
  if (size == 0 && out.size() > target) out.resize(target);
}

void before(Source& s, const Text& t, Text& out) {
  if (t.empty() || s.chance(2, 5)) { text(s, out, s.chance(1, 8) ? 1 : 0); return; }
  if (s.chance(1, 2)) text(s, out, 0);
  size_t n = t.size(), k = 1 + s.below(std::min<size_t>(n, 6)), from;
  switch (s.below(4)) {
    case 0: from = 0; break;                    // ends as t begins
    case 1: from = n - k; break;                // ends as t ends
    case 2: from = 0; k = s.chance(1, 2) ? 1 : std::min<size_t>(n, 40); break;
    default: from = s.below(n - k + 1); break;
  }
  Text part(t.begin() + from, t.begin() + from + k);
  switch (s.below(6)) {
    case 0: part = ucd::normalize(part, ucd::FORM_D); break;
    case 1: part = ucd::normalize(part, ucd::FORM_KC); break;
    case 2: part.insert(part.end(), part.begin(), part.end()); break;
    default: break;
  }
  out.insert(out.end(), part.begin(), part.end());
}

uint64_t sweep_count(int per) { return (scalars_count() + per - 1) / per; }
void sweep(uint64_t i, Text& out, int per) {
  static const int before[] = { 'a', 0x301, 0x1100, 0x1F1E6, 0x200D, 0x600, 0x1F4A9 };
  static const int after[] = { 0x323, 'b', 0x11A8, 0xE9, 0x1F3FB, 0x1161, 0x1F1E7, 0x903, 0x2764, '\n', 0x338 };
  for (uint64_t k = i * per; k < (i + 1) * per && k < scalars_count(); k++) {
    if (k % 3) out.push_back(before[k % 7]);
    out.push_back(nth_scalar(k));
    if (k % 5) out.push_back(after[k % 11]);
  }
}

static int big_size(uint64_t k, int max) {
  static const int n[] = { 127, 256, 1025, 4096, 16385, 32768, 65535, 65536, 65537, 70000 };
  int r = n[k % 10];
  if (k & 1) {   // a size that the code under test is written with
    std::vector<int> l;
    for (int v : literals()) if (v > 2000 && v < max && !(v >= 0xAC00 && v <= 0xD7A4) && !(v >= 0x1100 && v < 0x1200)) l.push_back(v);
    if (!l.empty()) return l[k / 2 % l.size()] + int(k % 3);
  }
  return r <= max ? r : max - int(k % 10);
}
void big(uint64_t i, Text& out, int max) {
  pbt::RandomSource s(0xB16, i);
  out.clear();
  size_t n = big_size(i / 12, max);
  auto fill = [&](int c) { while (out.size() < n) out.push_back(c); };
  switch (i % 12) {
  case 0: fill('a'); break;
  case 1: out.push_back('e'); fill(mark(s)); out.push_back('z'); break;      // one cluster, one class
  case 2: out.push_back('e'); while (out.size() < n) out.push_back(mark(s)); break;
  case 3: if (i & 16) out.push_back('x'); fill(0x1F1E6 + s.range(0, 25)); out.push_back('y'); break;
  case 4: out.push_back(0x261D); fill(0xFE0F); out.push_back(0x1F3FB); out.push_back(0x1F3FB); break;
  case 5: while (out.size() < n) { out.push_back('\r'); out.push_back('\n'); } break;
  case 6: while (out.size() < n) out.push_back(s.pick({ 0x1100, 0x1100, 0x1161, 0xAC00, 0x11A8 })); break;
  case 7: fill(0x1100); out.push_back(0x1161); out.push_back(0x11A8); break;
  case 8: while (out.size() < n) { Text t; text(s, t, 1); out.insert(out.end(), t.begin(), t.end()); } break;
  case 9: while (out.size() < n) { out.push_back('a' + int(out.size() % 26)); out.push_back(0x323); out.push_back(0x301); } break;
  case 10: fill(0x10FFFF - int(i)); break;
  default: while (out.size() < n) { out.push_back(0x1F469); out.push_back(0x200D); out.push_back(0x2764); } break;
  }
}
void big_octets(uint64_t i, std::vector<int>& out, int max) {
  pbt::RandomSource s(0xB17, i);
  out.clear();
  size_t n = big_size(i / 12, max);
  static const int what[] = { 'a', 0x80, 0xC3, 0xE0, 0xF0, 0xFE, 0xFF, 0xBF, 0, 0xFC };
  if (i % 12 < 10) {
    if (i & 1) out.push_back('a');
    while (out.size() < n) out.push_back(what[i % 12]);
    for (int k = 0; k < 7 && i % 3; k++) out[out.size() - 1 - k] = s.range(0, 255);
  } else {
    while (out.size() < n) {
      std::vector<int> o;
      octet_string(s, o, 1);
      out.insert(out.end(), o.begin(), o.end());
    }
  }
}

void octet_string(Source& s, std::vector<int>& out, int size) {
  if (size < 0) size = s.weighted({ 6, 8, 2 });
  static const int leads[] = { 0xC0, 0xC1, 0xC2, 0xC3, 0xDF, 0xE0, 0xE1, 0xED, 0xEF, 0xF0, 0xF1, 0xF4, 0xF5, 0xF7, 0xF8, 0xFB, 0xFC, 0xFD, 0xFE, 0xFF };
  auto lead = [&]() { return leads[s.below(sizeof leads / sizeof *leads)]; };
  int target = size == 0 ? s.range(0, 4) : size == 1 ? s.range(1, 24) : s.chance(1, 4) ? literal_length(s, 300) : s.range(20, 300);
  int mode = s.weighted({ 4, 3, 3, 2 });
  if (mode == 3) { // text, damaged
    Text t;
    text(s, t, std::min(size, 2));
    std::string e = encode(t);
    for (unsigned char o : e) out.push_back(o);
    int n = s.range(0, 3);
    for (int i = 0; i < n && !out.empty(); i++) {
      size_t at = s.chance(1, 2) ? s.below(out.size()) : out.size() - 1 - s.below(std::min<size_t>(out.size(), 8));
      switch (s.range(0, 3)) {
      case 0: out.erase(out.begin() + at); break;
      case 1: out[at] = s.range(0, 255); break;
      case 2: out[at] = lead(); break;
      default: out.insert(out.begin() + at, 0x80 + s.range(0, 63)); break;
      }
    }
    if (s.chance(1, 3) && !out.empty()) out.resize(s.below(out.size()) + 1);
    if (s.chance(1, 4) && !out.empty()) out.erase(out.begin(), out.begin() + s.below(std::min<size_t>(out.size(), 4)));
    return;
  }
  while (int(out.size()) < target && !s.exhausted()) {
    if (mode == 2) { out.push_back(s.range(0, 255)); continue; }
    switch (s.weighted({ 3, 4, 4, 3 })) {
    case 0: out.push_back(s.chance(1, 8) ? 0 : s.range(0x20, 0x7F)); break;
    case 1: out.push_back(0x80 + s.range(0, 63)); break;
    case 2: { // lead and some continuations
        int l = lead(), n = seq_length(l) - 1;
        if (mode == 1 && s.chance(1, 3)) n = s.range(0, n + 1);
        out.push_back(l);
        for (int i = 0; i < n; i++) out.push_back(0x80 + s.range(0, 63));
        break;
      }
    default: out.push_back(mode == 1 ? lead() : s.range(0x20, 0x7F)); break;
    }
  }
  // the end and the beginning matter most
  for (int i = 0, n = s.range(0, 2); i < n && !out.empty(); i++)
    out[out.size() - 1 - s.below(std::min<size_t>(out.size(), 9))] = s.chance(2, 3) ? lead() : 0x80 + s.range(0, 63);
  if (s.chance(1, 6) && !out.empty()) out[0] = s.chance(1, 2) ? 0x80 + s.range(0, 63) : lead();
}

std::vector<int> gcb_representatives() {
  std::vector<int> r;
  for (int i = 0; i < GCB_COUNT; i++) {
    // prefer a plain member
    static const int want[] = { 'a', 0x600, 0xD, 0xA, 0x1, 0x300, 0x1F1E6, 0x903, 0x1100, 0x1161, 0x11A8, 0xAC00, 0xAC01, 0x261D, 0x1F3FB, 0x200D, 0x2764, 0x1F466 };
    int c = want[i];
    if (gcb(c) != i) c = pools.by_gcb[i][0];
    r.push_back(c);
  }
  return r;
}
}
