#include "../common.hpp"
#include <u5e/props/grapheme_cluster_break.hpp>

typedef u5e::props::grapheme_cluster_break B;

struct P : Property {
  const char* id() const { return "P01"; }
  const char* rule() const {
    return "every integer from -4096 to 0x120000 one by one, then lists of integers, inside and outside the codespace, looked "
           "up in sequence; non-trivial: has a value other than the default one, or is next to such a codepoint, or outside "
           "the codespace";
  }
  std::vector<FieldSpec> fields() const { return { { "codepoints", ANYINTS } }; }
  uint64_t enum_count(bool) { return 0x121000; }
  const char* enum_what(bool) { return "every integer from -4096 to 0x11FFFF"; }
  void enum_case(uint64_t i, Case& c) { c[0].push_back(int(i) - 4096); }
  void gen(Source& s, Case& c) {
    for (int i = 0, n = s.range(1, 40); i < n; i++)
      c[0].push_back(s.chance(1, 3) ? s.pick(ucd::pools.gcb_edges) + s.range(-1, 1) : gen::any_int(s));
  }
  B::prop_value_type value[ucd::GCB_COUNT];
  void setup() {
    static const B::prop_value_type v[] = { B::OTHER, B::PREPEND, B::CR, B::LF, B::CONTROL, B::EXTEND, B::REGIONAL_INDICATOR,
      B::SPACINGMARK, B::L, B::V, B::T, B::LV, B::LVT, B::E_BASE, B::E_MODIFIER, B::ZWJ, B::GLUE_AFTER_ZWJ, B::E_BASE_GAZ };
    for (int i = 0; i < ucd::GCB_COUNT; i++) value[i] = v[i];
  }
  void run(const Case& c, Ctx& x) {
    for (int cp : c[0]) {
      ucd::Gcb want = ucd::gcb(cp);
      if (want != ucd::OTHER || cp < 0 || cp > 0x10FFFF || ucd::gcb(cp - 1) != want || ucd::gcb(cp + 1) != want) x.nontrivial();
      x.checks++;
      B::prop_value_type got = B::resolve(cp);
      if (got != value[want]) {
        const char* name = "a value that is not in the enumeration";
        for (int i = 0; i < ucd::GCB_COUNT; i++) if (value[i] == got) name = ucd::gcb_names[i];
        x.fail("grapheme cluster break of %s: got %s, want %s", show({ cp }).c_str(), name, ucd::gcb_names[want]);
      }
      x.label(ucd::gcb_names[want]);
    }
  }
};
PROPERTY(P)
