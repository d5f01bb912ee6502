#include "../common.hpp"
#include <u5e/props/canonical_combining_class.hpp>
#include <u5e/canonical_combining_order.hpp>

struct P : Property {
  const char* id() const { return "P02"; }
  const char* rule() const {
    return "every integer from -4096 to 0x120000 one by one (against one codepoint of each class, both ways), then lists of "
           "integers: the class of each and the order of each pair; non-trivial: a class other than 0, or next to such a "
           "codepoint, or outside the codespace";
  }
  std::vector<FieldSpec> fields() const { return { { "codepoints", ANYINTS }, { "partners", ANYINTS } }; }
  uint64_t enum_count(bool) { return 0x121000; }
  const char* enum_what(bool) { return "every integer from -4096 to 0x11FFFF, against one codepoint of each class"; }
  std::vector<int> of_each;
  void setup() {
    of_each.push_back('a');
    for (int k : ucd::pools.ccc_values) of_each.push_back(ucd::pools.by_ccc[k][0]);
  }
  void enum_case(uint64_t i, Case& c) { c[0].push_back(int(i) - 4096); c[1] = of_each; }
  void gen(Source& s, Case& c) {
    for (int k = 0; k < 2; k++)
      for (int i = 0, n = s.range(1, 12); i < n; i++) {
        switch (s.range(0, 3)) {
        case 0: c[k].push_back(gen::mark(s)); break;
        case 1: c[k].push_back(s.pick(ucd::pools.non_starters) + s.range(-2, 2)); break;
        default: c[k].push_back(gen::any_int(s));
        }
      }
  }
  void run(const Case& c, Ctx& x) {
    for (int a : c[0]) {
      int want = ucd::ccc(a);
      if (want || a < 0 || a > 0x10FFFF || ucd::ccc(a - 1) || ucd::ccc(a + 1)) x.nontrivial();
      x.label(want ? "non-starter" : a < 0 || a > 0x10FFFF ? "outside the codespace" : "starter");
      x.checks++;
      int got = u5e::props::canonical_combining_class::resolve(a);
      if (got != want) x.fail("combining class of %s: got %d, want %d", show({ a }).c_str(), got, want);
      for (int b : c[1]) {
        int wb = ucd::ccc(b);
        x.checks++;
        bool ab = u5e::canonical_combining_order(a, b), ba = u5e::canonical_combining_order(b, a);
        if (ab != (want < wb) || ba != (wb < want))
          x.fail("canonical order of %s and %s with classes %d and %d: got %d and %d", show({ a }).c_str(), show({ b }).c_str(), want, wb, int(ab), int(ba));
      }
    }
  }
};
PROPERTY(P)
