#include "../norm.hpp"
#include <u5e/canonical_composition.hpp>

struct P : Property {
  const char* id() const { return "N07"; }
  const char* rule() const {
    return "a text, decomposed or not, its marks brought into canonical order, composed in place as one buffer, with a count that "
           "does not start at zero; non-trivial: something composes";
  }
  int big() { return 70000; }
  std::vector<FieldSpec> fields() const { return { { "text", SCALARS }, { "options", INTS } }; }
  std::vector<int> alphabet;
  void setup() {
    alphabet = { 0x41, 0x300, 0x308, 0x323, 0x327, 0x328, 0x345, 0x338, 0x6F, 0x1100, 0x1161, 0xAC00, 0x11A8, 0xC4, 0x1ED9, 0x344, 0x9C7, 0x9BE,
                 0x3C, 0x3099, 0x30AB, 0x1100, 0x11A7, 0xAC01, 0x110A5, 0x110BA };
  }
  uint64_t enum_count(bool thorough) { return gen::scalars_count() + gen::ClassWalk(alphabet, thorough ? 4 : 3).total; }
  const char* enum_what(bool t) {
    return t ? "every scalar value before a mark; every sequence of up to 4 over an alphabet of 26" : "every scalar value before a mark; every sequence of up to 3 over an alphabet of 26";
  }
  void enum_case(uint64_t i, Case& c) {
    c[1] = { int(i % 3) };
    if (i < gen::scalars_count()) c[0] = { gen::nth_scalar(i), 0x308, 0x301 };
    else gen::ClassWalk(alphabet, 4).make(i - gen::scalars_count(), c[0]);
  }
  void gen(Source& s, Case& c) {
    gen::text(s, c[0]);
    c[1].push_back(s.below(3));
    c[1].push_back(s.chance(1, 3) ? 0 : s.below(1000));
  }
  void run(const Case& c, Ctx& x) {
    Text t = c[0];
    switch (at_or(c[1], 0, 0) % 3) {
    case 0: t = ucd::decompose(t, false); break;
    case 1: t = ucd::decompose(t, true); break;
    default: break;
    }
    t = ucd::reorder(t);
    Text want = ucd::compose_text(t);
    if (want != t) x.nontrivial();
    label_size(x, t.size());
    int start = at_or(c[1], 1, 0), count = start;
    S32 buf = s32(t);
    S32::iterator end = u5e::canonical_composition(buf, &count);
    long n = end - buf.codepoint_begin();
    x.checks += 2;
    if (n < 0 || n > long(t.size())) x.fail("the end returned is %ld of %zu, for %s", n, t.size(), show(t).c_str());
    Text got = text_of(buf.native_string.substr(0, n));
    if (got != want) x.fail("composition of %s:\n  got  %s\n  want %s", show(t).c_str(), show(got).c_str(), show(want).c_str());
    if (count - start != int(t.size() - want.size()))
      x.fail("the count grew by %d, the text is shorter by %zu, for %s", count - start, t.size() - want.size(), show(t).c_str());
    // what is composed stays so
    S32 again = s32(got);
    int more = 0;
    S32::iterator e2 = u5e::canonical_composition(again, &more);
    long m = e2 - again.codepoint_begin();
    if (more != 0 || m != n || text_of(again.native_string) != got)
      x.fail("composing once more changes %s by %d", show(got).c_str(), more);
  }
};
PROPERTY(P)
