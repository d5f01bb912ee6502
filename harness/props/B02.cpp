#include "../common.hpp"
#include <u5e/utf8_bounds.hpp>
using u5e::utf8_bounds;

struct P : Property {
  const char* id() const { return "B02"; }
  const char* rule() const {
    return "an octet string and the octets around it; enforced through three iterator kinds against inaccessible pages and "
           "inside other content, compared octet by octet with the definition; non-trivial: something has to be replaced";
  }
  int big() { return 280000; }
  std::vector<FieldSpec> fields() const { return { { "octets", OCTETS }, { "before", OCTETS }, { "after", OCTETS } }; }
  static std::vector<int> alphabet() { return { 'a', 0x80, 0xBF, 0xC0, 0xDF, 0xE0, 0xEF, 0xF0, 0xF7, 0xF8, 0xFC, 0xFE, 0xFF, 0 }; }
  static const uint64_t leads = 64 * 12 * 4 * 3;
  uint64_t enum_count(bool thorough) { return leads + gen::ClassWalk(alphabet(), thorough ? 5 : 4).total; }
  const char* enum_what(bool) { return "every string of up to 4 (thorough: 5) octets over 14 representatives; every lead octet at every distance 1..12 from the end"; }
  void enum_case(uint64_t i, Case& c) {
    if (i < leads) {
      int lead = 0xC0 + i % 64;
      i /= 64;
      int dist = 1 + i % 12;
      i /= 12;
      int fill = "\x80" "a" "\xC3" "\xBF"[i % 4] & 0xFF;
      i /= 4;
      int front = int(i) * 3;
      c[0].assign(front, 'x');
      c[0].push_back(lead);
      for (int k = 1; k < dist; k++) c[0].push_back(fill);
      c[2].assign(8, 0x80);
      c[1].assign(8, 0xFF);
    } else {
      gen::ClassWalk(alphabet(), 5).make(i - leads, c[0]);
      c[2].assign(8, (i & 1) ? 0x80 : 0xFF);
      c[1].assign(8, (i & 2) ? 0x80 : 0xFF);
    }
  }
  void gen(Source& s, Case& c) {
    gen::octet_string(s, c[0]);
    gen::octet_string(s, c[1], 0);
    gen::octet_string(s, c[2], 0);
  }
  void run(const Case& c, Ctx& x) {
    std::string s = octets(c[0]), before = octets(c[1]), after = octets(c[2]), want = s;
    for (size_t i = 0; i < s.size() && ucd::is_cont(s[i]); i++) want[i] = '?';
    for (size_t i = 0; i < s.size(); i++) {
      unsigned char ch = s[i];
      if (ch >= 0xC0 && i + ucd::seq_length(ch) > s.size()) want[i] = '?';
    }
    bool clean = want == s;
    if (!clean) x.nontrivial();
    x.label(clean ? "nothing to replace" : "something to replace");
    label_size(x, s.size());
    auto is = [&](bool got, const std::string& after_it, const char* what) {
      x.checks++;
      if (after_it != want) x.fail("%s: %s became %s, not %s", what, show_octets(s).c_str(), show_octets(after_it).c_str(), show_octets(want).c_str());
      if (got != clean) x.fail("%s: enforce says %d for %s", what, got, show_octets(s).c_str());
    };
    if (guard().fits(s.size() + 64)) {
      for (int left = 0; left < 2; left++) {
        char* p = left ? guard().left(s, after) : guard().right(s, before);
        const char* what = left ? "char*, nothing accessible before" : "char*, nothing accessible after";
        bool r = utf8_bounds<char*>::enforce(p, p + s.size());
        is(r, std::string(p, s.size()), what);
        std::string around = left ? std::string(p + s.size(), after.size()) : std::string(p - before.size(), before.size());
        same(x, around, left ? after : before, "octets outside the range");
        check(x, utf8_bounds<char*>::check(p, p + s.size()), "the check rejects what enforce left");
        r = utf8_bounds<char*>::enforce(p, p + s.size());
        check(x, r, "a second enforce reports a replacement");
        same(x, std::string(p, s.size()), want, "after a second enforce");
      }
    }
    std::string framed = before + s + after;
    std::string::iterator b = framed.begin() + before.size();
    bool r = utf8_bounds<std::string::iterator>::enforce(b, b + s.size());
    is(r, framed.substr(before.size(), s.size()), "inside a string");
    same(x, framed, before + want + after, "the whole string");
    {
      Sc8 apart(s), clean(s);
      bool r = utf8_bounds<Sc8::iterator>::enforce(apart.begin(), apart.end());
      is(r, apart.content(), "octets lying apart");
      check(x, apart.between_kept(clean), "memory that is not part of the range changed");
    }
    std::basic_string<unsigned char> un(s.begin(), s.end());     // octets without a sign
    r = utf8_bounds<unsigned char*>::enforce(&un[0], &un[0] + un.size());
    is(r, std::string(un.begin(), un.end()), "unsigned char*");
    S8 str(s);
    r = utf8_bounds<std::string::iterator>::enforce(str.native_begin(), str.native_end());
    is(r, str.native_string, "string");
  }
};
PROPERTY(P)
