#include "../whole.hpp"

struct P : Property {
  const char* id() const { return "R01"; }
  const char* rule() const {
    return "a sequence of integers, codepoints among surrogates, noncharacters, values past U+10FFFF (often ones that share low bits with a "
           "codepoint that has properties) and negative ones, held as UTF-32; and their low 31 bits as UTF-8: codepoints, clusters, "
           "positions at offsets, forms, conversions against the model; non-trivial: an integer that is no scalar value next to a "
           "codepoint with a class, mapping or break property";
  }
  int big() { return 3000; }
  std::vector<FieldSpec> fields() const { return { { "ints", ANYINTS }, { "offsets", INTS } }; }
  std::vector<int> listed, masks;
  void setup() {
    for (int c = 0; c <= 0x10FFFF; c++)
      if (ucd::ccc(c) || (ucd::has_compat(c) && !ucd::is_hangul_syllable(c)) || (ucd::gcb(c) != ucd::OTHER && ucd::gcb(c) < ucd::LV)) listed.push_back(c);
    for (int c : ucd::pools.firsts) listed.push_back(c);
    for (int c : ucd::pools.gcb_edges) listed.push_back(c);
    for (int s = 17; s < 32; s++) masks.push_back(int(1u << s));
    masks.push_back(0x110000);
    masks.push_back(0x7FE00000);
    masks.push_back(int(0xFFE00000u));
  }
  static const size_t PER = 60;
  size_t blocks() { return (listed.size() + PER - 1) / PER; }
  uint64_t enum_count(bool) { return blocks() * masks.size(); }
  const char* enum_what(bool) { return "every codepoint with a class, a mapping or a break property but the Hangul syllables, with each of 18 sets of high bits added, between letters and marks"; }
  void enum_case(uint64_t i, Case& c) {
    int m = masks[i % masks.size()];
    size_t b = i / masks.size() * PER;
    static const int between[] = { 0x41, 0x301, 0x1100, 0xAC00, 0x323, 0x1F1E6, 0x345, 0x600, 0x308 };
    for (size_t j = b; j < listed.size() && j < b + PER; j++) {
      c[0].push_back(listed[j] | m);
      c[0].push_back(between[(j + i) % 9]);
    }
    for (int k = 0; k < 4; k++) c[1].push_back(int(i * 7919 + k * 37));
  }
  void gen(Source& s, Case& c) {
    gen::text(s, c[0]);
    int den = s.pick({ 2, 5, 12 });
    for (int& v : c[0])
      if (s.chance(1, den))
        switch (s.range(0, 4)) {
        case 0: v = int(uint32_t(v) | 1u << s.range(17, 31)); break;
        case 1: v = s.range(0xD800, 0xDFFF); break;
        case 2: v = int(uint32_t(v) + 0x110000u * s.range(1, 1920)); break;
        case 3: v = s.pick(listed) | s.pick(masks); break;
        default: v = gen::any_int(s);
        }
    for (int i = 0; i < 6; i++) c[1].push_back(s.range(0, 2000));
  }
  void run(const Case& c, Ctx& x) {
    label_size(x, c[0].size());
    bool past = false, neg = false, surr = false, with = false;
    for (int v : c[0]) {
      past = past || v > 0x10FFFF;
      neg = neg || v < 0;
      surr = surr || (v >= 0xD800 && v <= 0xDFFF);
      with = with || ucd::ccc(v) || ucd::has_compat(v) || (v >= 0 && ucd::gcb(v) != ucd::OTHER && ucd::gcb(v) != ucd::CONTROL);
    }
    if (past) x.label("past U+10FFFF");
    if (neg) x.label("negative");
    if (surr) x.label("surrogates");
    if ((past || neg || surr) && with) x.nontrivial();
    whole::text(x, c[0], c[1]);
  }
};
PROPERTY(P)
