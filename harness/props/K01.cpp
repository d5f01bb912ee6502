#include "../whole.hpp"

struct P : Property {
  const char* id() const { return "K01"; }
  const char* rule() const {
    return "a sequence of integers put through everything R01 looks at, and an octet string whose bounds are checked and enforced, "
           "under eleven builds: two compilers, five levels of optimization, signed and unsigned char, "
           "the instructions of this machine, optimization across files, the checks of the standard library, automatic variables and "
           "the heap filled with zeros or with a pattern; each against the same model; non-trivial: octets above 127 that the check refuses, "
           "or a text of several encoded lengths";
  }
  int big() { return 3000; }
  std::vector<FieldSpec> fields() const { return { { "ints", ANYINTS }, { "offsets", INTS }, { "octets", OCTETS } }; }
  uint64_t enum_count(bool thorough) { return 65536 + 0x110000 / 100 / (thorough ? 1 : 4); }
  const char* enum_what(bool thorough) { return thorough ? "every pair of octets; every codepoint, in texts of 100 of them with marks" : "every pair of octets; every fourth hundred codepoints, in texts of 100 of them with marks"; }
  void enum_case(uint64_t i, Case& c) {
    if (i < 65536) { c[2] = { int(i >> 8), int(i & 255) }; return; }
    i -= 65536;
    const uint64_t N = 0x110000 / 100 / 4;
    i = i % N * 4 + i / N;
    for (int k = 0; k < 100; k++) {
      c[0].push_back(int(i * 100 + k));
      if (k % 3 == 1) c[0].push_back(0x301);
    }
    for (int k = 0; k < 4; k++) c[1].push_back(int(i * 7919 + k * 37));
  }
  void gen(Source& s, Case& c) {
    gen::text(s, c[0]);
    if (s.chance(1, 3)) for (int& v : c[0]) if (s.chance(1, 8)) v = gen::any_int(s);
    for (int i = 0; i < 6; i++) c[1].push_back(s.range(0, 2000));
    gen::octet_string(s, c[2]);
  }
  void run(const Case& c, Ctx& x) {
    if (mixed_lengths(c[0])) x.nontrivial();
    std::string o = octets(c[2]), want = o;
    for (size_t i = 0; i < o.size(); i++) {
      if (!ucd::is_cont(o[i])) break;
      want[i] = '?';
    }
    for (size_t i = 0; i < o.size(); i++) if (i + ucd::seq_length(o[i]) > o.size()) want[i] = '?';
    if (o != want) x.nontrivial();
    std::string with = "\xC3" + o + "\xA9";
    const char* p = with.data() + 1;
    x.checks += 3;
    if (u5e::utf8_bounds<const char*>::check(p, p + o.size()) != (o == want)) x.fail("bounds check of %s", show_octets(o).c_str());
    char* q = &with[1];
    if (u5e::utf8_bounds<char*>::enforce(q, q + o.size()) != (o == want)) x.fail("bounds enforcement of %s reports wrongly", show_octets(o).c_str());
    same(x, with, "\xC3" + want + "\xA9", "bounds enforced");
    std::basic_string<unsigned char> un(o.begin(), o.end());
    un = (unsigned char)0xC3 + un + (unsigned char)0xA9;
    const unsigned char* up = un.data() + 1;
    x.checks += 3;
    if (u5e::utf8_bounds<const unsigned char*>::check(up, up + o.size()) != (o == want)) x.fail("bounds check of %s, unsigned", show_octets(o).c_str());
    unsigned char* uq = &un[1];
    if (u5e::utf8_bounds<unsigned char*>::enforce(uq, uq + o.size()) != (o == want)) x.fail("bounds enforcement of %s, unsigned, reports wrongly", show_octets(o).c_str());
    same(x, std::string(un.begin(), un.end()), with, "bounds enforced, unsigned");
    for (unsigned char u : o) {
      char ch = char(u);
      x.checks++;
      if (u5e::utf8_util::codepoint_size(ch) != ucd::seq_length(u) || u5e::utf8_util::is_codepoint_continuation(ch) != ucd::is_cont(u) ||
          u5e::utf8_util::is_7bit_character(ch) != (u < 0x80) || u5e::utf8_util::is_codepoint_start(ch) != (u >= 0xC0))
        x.fail("the octet %02X is taken for something else", u);
    }
    whole::text(x, c[0], c[1]);
  }
};
PROPERTY(P)
