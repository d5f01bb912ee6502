#include "../common.hpp"
#include <u5e/props/canonical_composition_mapping.hpp>

struct P : Property {
  const char* id() const { return "P05"; }
  const char* rule() const {
    return "\"all\": each integer paired as first with every second of any composite, and as second with the firsts (all of "
           "them near any second and in thorough runs, some elsewhere); \"pairs\": pairs of integers, real pairs often damaged "
           "in one member or swapped; non-trivial: a pair with a member that takes part in some composite";
  }
  std::vector<FieldSpec> fields() const { return { { "all", ANYINTS }, { "pairs", ANYINTS } }; }
  bool thorough_ = false;
  uint64_t enum_count(bool thorough) { thorough_ = thorough; return 0x110000 + 512; }
  const char* enum_what(bool t) {
    return t ? "every codepoint as first with every second, and as second with every first"
             : "every codepoint as first with every second, and as second with every first if a second is within 64, with 16 firsts otherwise";
  }
  void enum_case(uint64_t i, Case& c) { c[0].push_back(int(i) - 256); }
  std::vector<int> firsts, seconds;
  std::vector<char> near_second, part;
  void setup() {
    firsts = ucd::pools.firsts; seconds = ucd::pools.seconds;
    for (int c : { 0x10FF, 0x1100, 0x1109, 0x1112, 0x1113, 0xABFF, 0xAC00, 0xAC01, 0xAC1B, 0xAC1C, 0xB0A8, 0xD788, 0xD789, 0xD7A3, 0xD7A4 }) firsts.push_back(c);
    for (int c = 0x1160; c <= 0x1176; c++) seconds.push_back(c);
    for (int c = 0x11A6; c <= 0x11C4; c++) seconds.push_back(c);
    near_second.resize(0x110000); part.resize(0x110000);
    for (int s : seconds) for (int c = s - 64; c <= s + 64; c++) if (c >= 0) near_second[c] = 1;
    for (int s : seconds) part[s] = 1;
    for (int f : firsts) part[f] = 1;
    for (int c = 0xAC00; c <= 0xD7A3; c++) part[c] = 1;
  }
  void gen(Source& s, Case& c) {
    for (int i = 0, n = s.range(1, 16); i < n; i++) {
      int a, b;
      switch (s.range(0, 5)) {
      case 0: { auto& p = s.pick(ucd::pools.pairs); a = p.first.first; b = p.first.second; break; }
      case 1: { int e = s.pick(ucd::pools.excluded); Text d; ucd::canonical_full(e, d); a = d[0]; b = d.size() > 1 ? d[1] : gen::mark(s); break; }
      case 2: a = s.pick(firsts); b = s.pick(seconds); break;
      case 3: a = 0xAC00 + s.range(-2, 11173); b = s.chance(1, 2) ? 0x11A7 + s.range(-1, 28) : 0x1161 + s.range(-1, 21); break;
      case 4: { auto& p = s.pick(ucd::pools.pairs); a = p.second; b = s.pick(seconds); break; }
      default: a = gen::any_int(s); b = gen::any_int(s);
      }
      switch (s.range(0, 7)) {
      case 0: std::swap(a, b); break;
      case 1: a += s.range(-2, 2); break;
      case 2: b += s.range(-2, 2); break;
      case 3: a = gen::any_int(s); break;
      case 4: b = gen::any_int(s); break;
      case 5: if (s.chance(1, 2)) a = int(uint32_t(a) ^ 1u << s.range(16, 31)); else b = int(uint32_t(b) ^ 1u << s.range(16, 31)); break;
      default: break;
      }
      c[1].push_back(a);
      c[1].push_back(b);
    }
  }
  bool in_part(int c) const { return c >= 0 && c < 0x110000 && part[c]; }
  void one(Ctx& x, int a, int b) {
    int w = 0;
    bool want = ucd::compose(a, b, &w);
    int r = 0x5A5A0000 ^ a;
    const int canary = r;
    bool got = u5e::props::canonical_composition_mapping::resolve(a, b, &r);
    if (got != want || r != (want ? w : canary))
      x.fail("composition of %s: got %s %s, want %s %s", show({ a, b }).c_str(), got ? "yes," : "no,", r == canary ? "result untouched" : show({ r }).c_str(),
             want ? "yes," : "no,", want ? show({ w }).c_str() : "result untouched");
    x.checks++;
  }
  void run(const Case& c, Ctx& x) {
    for (int cp : c[0]) {
      if (in_part(cp)) x.nontrivial();
      for (int b : seconds) one(x, cp, b);
      bool all = thorough_ || (cp >= 0 && cp < 0x110000 && near_second[cp]);
      size_t n = firsts.size(), step = all ? 1 : n / 16;
      for (size_t i = all ? 0 : unsigned(cp) % step; i < n; i += step) one(x, firsts[i], cp);
      x.label(in_part(cp) ? "takes part in composites" : "does not");
    }
    for (size_t i = 0; i + 1 < c[1].size(); i += 2) {
      int w;
      x.label(ucd::compose(c[1][i], c[1][i+1], &w) ? "pair composes" : "pair does not compose");
      if (in_part(c[1][i]) || in_part(c[1][i+1])) x.nontrivial();
      one(x, c[1][i], c[1][i+1]);
    }
  }
};
PROPERTY(P)
