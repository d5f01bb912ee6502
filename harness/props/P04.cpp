#include "../common.hpp"
#include <u5e/compatibility_and_canonical_decomposition.hpp>
#include <u5e/props/compatibility_and_canonical_decomposition_mapping.hpp>

struct P : Property {
  const char* id() const { return "P04"; }
  const char* rule() const {
    return "every integer from -4096 to 0x120000 one by one, then lists of integers decomposed one after the other into a "
           "destination that has content; the mapping lookup for each; non-trivial: has a compatibility or canonical decomposition, or is "
           "next to such a codepoint, or outside the codespace";
  }
  std::vector<FieldSpec> fields() const { return { { "codepoints", ANYINTS }, { "dest", SCALARS } }; }
  // the destination's length is a place where storages and their owners change ways
  static const std::vector<int>& lengths() { static const std::vector<int> l = { 2, 7, 8, 15, 16, 17, 31, 32, 33, 63, 64, 100, 255, 256, 1000 }; return l; }
  uint64_t enum_count(bool) { return 0x121000 + uint64_t(ucd::pools.compat.size()) * lengths().size(); }
  const char* enum_what(bool) { return "every integer from -4096 to 0x11FFFF; every codepoint that decomposes, into a destination of each of 15 lengths from 2 to 1000"; }
  void enum_case(uint64_t i, Case& c) {
    if (i >= 0x121000) {
      i -= 0x121000;
      c[0].push_back(ucd::pools.compat[i / lengths().size()]);
      c[1].assign(lengths()[i % lengths().size()], 'd');
      return;
    }
    c[0].push_back(int(i) - 4096);
    if (i & 1) c[1].push_back('d');
  }
  void gen(Source& s, Case& c) {
    for (int i = 0, n = s.range(1, 20); i < n; i++)
      switch (s.range(0, 3)) {
      case 0: c[0].push_back(s.pick(ucd::pools.compat) + s.range(-1, 1)); break;
      case 1: c[0].push_back(s.chance(1, 2) ? 0xABFE + s.range(0, 11180) : s.pick({ 0xABFF, 0xAC00, 0xAC1B, 0xAC1C, 0xD788, 0xD7A3, 0xD7A4 })); break;
      default: c[0].push_back(gen::any_int(s));
      }
    gen::text(s, c[1], 0);
  }
  void run(const Case& c, Ctx& x) {
    S32 out = s32(c[1]);
    Text want = c[1];
    std::vector<int const*> kept;      // a mapping stays as it was given, whatever is asked later
    for (int cp : c[0]) kept.push_back(u5e::props::compatibility_and_canonical_decomposition_mapping::resolve(cp));
    for (int cp : c[0]) {
      Text full;
      ucd::compat_full(cp, full);
      bool has = ucd::has_compat(cp);
      if (has || cp < 0 || cp > 0x10FFFF || ucd::has_compat(cp - 1) || ucd::has_compat(cp + 1)) x.nontrivial();
      x.label(ucd::is_hangul_syllable(cp) ? "Hangul syllable" : has ? "decomposes" : cp < 0 || cp > 0x10FFFF ? "outside the codespace" : "does not decompose");
      int n = u5e::compatibility_and_canonical_decomposition<S32>(u5e::codepoint(cp), out);
      x.checks++;
      if (n != int(full.size())) x.fail("decomposing %s: returned %d, want %zu", show({ cp }).c_str(), n, full.size());
      want.insert(want.end(), full.begin(), full.end());
      Text got = text_of(out.native_string);
      x.checks++;
      if (got != want)
        x.fail("decomposing %s, to be %s: the destination is\n  got  %s\n  want %s", show({ cp }).c_str(), show(full).c_str(), show(got).c_str(), show(want).c_str());
      // the lookup by itself; whether it also answers for Hangul syllables is its own business
      int const* m = u5e::props::compatibility_and_canonical_decomposition_mapping::resolve(cp);
      x.checks++;
      if (!has && m) x.fail("a mapping is reported for %s, which has none", show({ cp }).c_str());
      if (has && !m && !ucd::is_hangul_syllable(cp)) x.fail("no mapping is reported for %s", show({ cp }).c_str());
      if (has && m) {
        Text r;
        for (; *m && r.size() < 30; m++) r.push_back(*m);
        if (r != full) x.fail("mapping of %s: got %s, want %s", show({ cp }).c_str(), show(r).c_str(), show(full).c_str());
      }
    }
    for (size_t i = 0; i < c[0].size(); i++) {
      if (!kept[i] || !ucd::has_compat(c[0][i])) continue;
      Text r, full;
      ucd::compat_full(c[0][i], full);
      for (int const* m = kept[i]; *m && r.size() < 30; m++) r.push_back(*m);
      x.checks++;
      if (r != full) x.fail("the mapping of %s, kept while others were asked for: got %s, want %s", show({ c[0][i] }).c_str(), show(r).c_str(), show(full).c_str());
    }
  }
};
PROPERTY(P)
