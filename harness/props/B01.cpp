#include "../common.hpp"
#include <u5e/utf8_bounds.hpp>
using u5e::utf8_bounds;

struct P : Property {
  const char* id() const { return "B01"; }
  const char* rule() const {
    return "an octet string and the octets lying before and after it in memory; checked against the definition, through four "
           "iterator kinds, flush against inaccessible pages on either side; non-trivial: holds a lead octet in its last "
           "8 octets or begins with a continuation octet";
  }
  int big() { return 280000; }
  std::vector<FieldSpec> fields() const { return { { "octets", OCTETS }, { "before", OCTETS }, { "after", OCTETS } }; }
  // every lead length, the continuation, plain octets
  static std::vector<int> alphabet() { return { 'a', 0x80, 0xBF, 0xC0, 0xDF, 0xE0, 0xEF, 0xF0, 0xF7, 0xF8, 0xFC, 0xFE, 0xFF, 0 }; }
  static uint64_t walks(bool thorough) { return gen::ClassWalk(alphabet(), thorough ? 5 : 4).total; }
  // plus: every lead octet at every distance from the end, in texts of 'a' and of continuations
  static const uint64_t leads = 64 * 12 * 4 * 3;
  uint64_t enum_count(bool thorough) { return walks(thorough) + leads; }
  const char* enum_what(bool) { return "every string of up to 4 (thorough: 5) octets over 14 representatives; every lead octet at every distance 1..12 from the end"; }
  bool deep = false;
  void setup() {}
  void enum_case(uint64_t i, Case& c) {
    if (i < leads) {
      int lead = 0xC0 + i % 64;
      i /= 64;
      int dist = 1 + i % 12;
      i /= 12;
      int fill = "\x80" "a" "\xC3" "\xBF"[i % 4] & 0xFF;
      i /= 4;
      int front = int(i) * 3;
      c[0].assign(front, 'x');
      c[0].push_back(lead);
      for (int k = 1; k < dist; k++) c[0].push_back(fill);
      c[2].assign(8, 0x80);
      c[1].assign(8, 0xFF);
    } else {
      gen::ClassWalk(alphabet(), 5).make(i - leads, c[0]);
      c[2].assign(8, (i & 1) ? 0x80 : 0xFF);
      c[1].assign(8, (i & 2) ? 0x80 : 0xFF);
    }
  }
  void gen(Source& s, Case& c) {
    gen::octet_string(s, c[0]);
    gen::octet_string(s, c[1], 0);
    gen::octet_string(s, c[2], 0);
  }
  static bool oracle(const std::string& s) {
    if (s.empty()) return true;
    if (ucd::is_cont(s[0])) return false;
    for (size_t i = 0; i < s.size(); i++) {
      unsigned char ch = s[i];
      if (ch >= 0xC0 && i + ucd::seq_length(ch) > s.size()) return false;
    }
    return true;
  }
  void run(const Case& c, Ctx& x) {
    std::string s = octets(c[0]), before = octets(c[1]), after = octets(c[2]);
    bool want = oracle(s);
    for (size_t i = s.size() > 8 ? s.size() - 8 : 0; i < s.size(); i++) if ((unsigned char)s[i] >= 0xC0) x.nontrivial();
    if (!s.empty() && ucd::is_cont(s[0])) x.nontrivial();
    x.label(want ? "to be accepted" : "to be rejected");
    label_size(x, s.size());
    auto is = [&](bool got, const char* what) {
      x.checks++;
      if (got != want) x.fail("%s: check says %d for %s", what, got, show_octets(s).c_str());
    };
    if (guard().fits(s.size() + 64)) {
      const char* p = guard().right(s, before);
      is(utf8_bounds<const char*>::check(p, p + s.size()), "const char*, nothing readable after");
      p = guard().left(s, after);
      is(utf8_bounds<const char*>::check(p, p + s.size()), "const char*, nothing readable before");
      char* q = guard(1).right(s);
      is(utf8_bounds<char*>::check(q, q + s.size()), "char*");
      check(x, std::string(q, s.size()) == s, "checking changed the octets");
    }
    std::string framed = before + s + after;
    std::string::const_iterator b = framed.cbegin() + before.size();
    is(utf8_bounds<std::string::const_iterator>::check(b, b + s.size()), "inside a string");
    is(utf8_bounds<std::string::iterator>::check(s.begin(), s.end()), "string");
    std::basic_string<unsigned char> un(s.begin(), s.end());     // octets without a sign
    is(utf8_bounds<const unsigned char*>::check(un.data(), un.data() + un.size()), "const unsigned char*");
    Sc8 apart(s);
    is(utf8_bounds<Sc8::const_iterator>::check(apart.cbegin(), apart.cend()), "octets lying apart");
    V8 v(sview(s.data(), s.size()));
    is(utf8_bounds<sview::const_iterator>::check(v.native_cbegin(), v.native_cend()), "view");
  }
};
PROPERTY(P)
