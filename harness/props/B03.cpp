#include "../common.hpp"
#include <u5e/filter.hpp>
#include <u5e/normalization_form_d.hpp>
#include <u5e/normalization_form_c.hpp>
#include <u5e/normalization_form_kd.hpp>
#include <u5e/normalization_form_kc.hpp>
#include <u5e/utf8_bounds.hpp>
using u5e::utf8_iterator;
using u5e::utf8_const_iterator;

struct P : Property {
  const char* id() const { return "B03"; }
  const char* rule() const {
    return "an octet string made acceptable to the bounds check (offending octets replaced), with its surroundings in memory; "
           "traversed by codepoint and grapheme in every direction and normalized, flush against inaccessible pages and inside "
           "two different surroundings, with equal results required; non-trivial: the octets are not well-formed UTF-8";
  }
  int big() { return 2500; }
  std::vector<FieldSpec> fields() const { return { { "octets", OCTETS }, { "before", OCTETS }, { "after", OCTETS }, { "offsets", INTS } }; }
  static std::vector<int> alphabet() { return { 'a', 0x80, 0xBF, 0xC3, 0xCC, 0xE0, 0xE1, 0xF0, 0xFB, 0xFC, 0xFE, 0xFF }; }
  uint64_t enum_count(bool thorough) { return 65536 + gen::ClassWalk(alphabet(), thorough ? 5 : 4).total; }
  const char* enum_what(bool) { return "every two octets before a fixed rest; every string of up to 4 (thorough: 5) octets over 12 representatives, made acceptable"; }
  void enum_case(uint64_t i, Case& c) {
    if (i < 65536) {
      c[0] = { 'x', int(i >> 8), int(i & 0xFF), 0x81, 'a', 0xCC, 0x81, 'b', 'c', 'd' };
      if (i & 1) c[0].erase(c[0].begin());
      c[1] = { 0xE0 };
      c[2] = { 0x90 };
      c[3] = { 0, 1, 2 };
      return;
    }
    i -= 65536;
    gen::ClassWalk(alphabet(), 5).make(i, c[0]);
    c[1].assign(3, 0x80);
    c[2].assign(3, (i & 1) ? 0xCC : 'z');
  }
  void gen(Source& s, Case& c) {
    gen::octet_string(s, c[0]);
    gen::octet_string(s, c[1], 0);
    gen::octet_string(s, c[2], 0);
    for (int i = 0; i < 6; i++) c[3].push_back(s.below(1 << 20));
  }
  static std::string acceptable(std::string s) {
    for (size_t i = 0; i < s.size() && ucd::is_cont(s[i]); i++) s[i] = '?';
    for (size_t i = 0; i < s.size(); i++) {
      unsigned char ch = s[i];
      if (ch >= 0xC0 && i + ucd::seq_length(ch) > s.size()) s[i] = '?';
    }
    return s;
  }
  typedef std::vector<long> Trace;

  template <class It, class B>
  void codepoints(Ctx& x, B p, size_t n, const std::vector<size_t>& at, bool end_readable, Trace& tr, const char* what) {
    It b(p), e(p + n);
    // forward
    std::vector<size_t> visited;
    long last = -1;
    size_t steps = 0;
    for (It i = b; i != e; ++i) {
      long pos = i.raw_iterator_ - p;
      if (pos <= last || pos >= long(n)) x.fail("%s: forward from octet %ld to %ld of %zu", what, last, pos, n);
      if (++steps > n) x.fail("%s: forward traversal does not end", what);
      last = pos;
      visited.push_back(pos);
      It copy = i;
      int v = *copy;
      tr.push_back(pos);
      tr.push_back(v);
      x.checks++;
    }
    tr.push_back(-1000);
    // from any octet: read, forward to the end, backward to the beginning
    for (size_t a : at) {
      It i(p + a);
      int v = *i;
      tr.push_back(v);
      steps = 0;
      last = -1;
      for (It f(p + a); f != e; f++) {
        long pos = f.raw_iterator_ - p;
        if (pos <= last || pos >= long(n)) x.fail("%s: from octet %zu forward from %ld to %ld of %zu", what, a, last, pos, n);
        if (++steps > n) x.fail("%s: forward traversal from octet %zu does not end", what, a);
        last = pos;
        tr.push_back(pos);
        x.checks++;
      }
      backward<It>(x, p, n, a, tr, what);
    }
    if (!visited.empty()) backward<It>(x, p, n, visited.back(), tr, what);
    // A step back from the end looks at the octet after the text, see
    // known_findings.txt: only where one other than a continuation is there.
    if (end_readable) backward<It>(x, p, n, n, tr, what);
  }
  template <class It, class B>
  void backward(Ctx& x, B p, size_t n, size_t from, Trace& tr, const char* what) {
    It b(p), i(p + from);
    long last = from == n ? long(n) : long(from) + 1;
    size_t steps = 0;
    while (i != b) {
      --i;
      long pos = i.raw_iterator_ - p;
      if (pos < 0 || pos >= last) x.fail("%s: backward from octet %ld to %ld", what, last, pos);
      if (++steps > n) x.fail("%s: backward traversal does not end", what);
      last = pos;
      It copy = i;
      int v = *copy;
      tr.push_back(pos);
      tr.push_back(v);
      x.checks++;
    }
    tr.push_back(-1001);
  }
  template <class S>
  void graphemes(Ctx& x, S& s, size_t n, const std::vector<size_t>& at, Trace& tr, const char* what) {
    typedef u5e::basic_grapheme_iterator<S> G;
    auto p = s.native_cbegin();
    for (size_t k = 0; k <= at.size() + 1; k++) {
      G i = k == 0 ? s.grapheme_begin()
          : k == 1 ? G(s.codepoint_cbegin(), s.codepoint_cend(), s.codepoint_cend())
          : G(s.codepoint_cbegin(), s.codepoint_cend(), typename S::const_iterator(p + at[k-2]));
      G e = s.grapheme_end();
      long last = -1;
      size_t steps = 0;
      for (; i != e; k & 1 ? i++ : ++i) {
        auto g = *i;
        long gb = g.codepoint_begin().raw_iterator_ - p, ge = g.codepoint_end().raw_iterator_ - p;
        if (gb < 0 || ge > long(n) || gb >= ge || gb <= last)
          x.fail("%s: grapheme %ld..%ld after %ld in %zu octets", what, gb, ge, last, n);
        if (++steps > n) x.fail("%s: grapheme traversal does not end", what);
        last = gb;
        tr.push_back(gb);
        tr.push_back(ge);
        size_t inner = 0;
        for (auto c = g.codepoint_begin(); c != g.codepoint_end(); c++) {
          auto copy = c;
          int v = *copy;
          tr.push_back(v);
          if (++inner > n) x.fail("%s: traversal of a grapheme does not end", what);
        }
        x.checks++;
      }
      tr.push_back(-1002);
    }
  }
  template <class S>
  void forms(Ctx& x, S& s, Trace& tr) {
    std::string out[4];
    for (int f = 0; f < 4; f++) {
      S8 o;
      S32 w;
      int n = 0, m = 0;
      switch (f) {
      case 0: n = u5e::filter(s.grapheme_begin(), s.grapheme_end(), o, u5e::normalization_form_d<S, S8>); m = u5e::filter(s.grapheme_begin(), s.grapheme_end(), w, u5e::normalization_form_d<S, S32>); break;
      case 1: n = u5e::filter(s.grapheme_begin(), s.grapheme_end(), o, u5e::normalization_form_c<S, S8>); m = u5e::filter(s.grapheme_begin(), s.grapheme_end(), w, u5e::normalization_form_c<S, S32>); break;
      case 2: n = u5e::filter(s.grapheme_begin(), s.grapheme_end(), o, u5e::normalization_form_kd<S, S8>); m = u5e::filter(s.grapheme_begin(), s.grapheme_end(), w, u5e::normalization_form_kd<S, S32>); break;
      case 3: n = u5e::filter(s.grapheme_begin(), s.grapheme_end(), o, u5e::normalization_form_kc<S, S8>); m = u5e::filter(s.grapheme_begin(), s.grapheme_end(), w, u5e::normalization_form_kc<S, S32>); break;
      }
      for (char ch : o.native_string) tr.push_back((unsigned char)ch);
      for (int v : w.native_string) tr.push_back(v);
      tr.push_back(n);
      tr.push_back(m);
      tr.push_back(-1003);
      x.checks++;
    }
  }
  void compare(Ctx& x, const Trace& a, const Trace& b, const std::string& s, const char* what) {
    x.checks++;
    if (a == b) return;
    size_t i = 0;
    while (i < a.size() && i < b.size() && a[i] == b[i]) i++;
    x.fail("the results for %s depend on its surroundings (%s): result %zu is %ld or %ld", show_octets(s).c_str(), what, i,
           i < a.size() ? a[i] : -9999, i < b.size() ? b[i] : -9999);
  }
  void run(const Case& c, Ctx& x) {
    std::string s = acceptable(octets(c[0])), before = octets(c[1]), after = octets(c[2]);
    size_t n = s.size();
    check(x, u5e::utf8_bounds<const char*>::check(s.data(), s.data() + n), "the bounds check rejects the octets");
    // well-formed?
    bool wf = true;
    for (size_t i = 0; i < n;) {
      int l = ucd::is_cont(s[i]) ? 9 : ucd::seq_length(s[i]);
      if (l > 4) { wf = false; break; }
      for (int k = 1; k < l; k++) if (!ucd::is_cont(s[i+k])) wf = false;
      i += l;
    }
    if (!wf) x.nontrivial();
    for (unsigned char ch : s) if (ch >= 0xF8) { x.label("leads of 5 to 8 octets"); break; }
    label_size(x, n);
    std::vector<size_t> at;
    if (n <= 8) for (size_t i = 0; i < n; i++) at.push_back(i);
    else for (int v : c[3]) at.push_back(v % n);
    if (!guard().fits(n + 64)) return;

    Trace t1, t2, t3;
    {
      const char* p = guard().right(s, before);
      V8 v(sview(p, n));
      codepoints<utf8_const_iterator<const char*>>(x, p, n, at, false, t1, "const char*, nothing readable after");
      graphemes(x, v, n, at, t1, "view, nothing readable after");
      forms(x, v, t1);
    }
    {
      const char* p = guard(1).left(s, after);
      V8 v(sview(p, n));
      codepoints<utf8_const_iterator<const char*>>(x, p, n, at, false, t2, "const char*, nothing readable before");
      graphemes(x, v, n, at, t2, "view, nothing readable before");
      forms(x, v, t2);
    }
    compare(x, t1, t2, s, "memory edges");
    {
      S8 str(s);
      codepoints<S8::const_iterator>(x, str.native_cbegin(), n, at, false, t3, "string");
      graphemes(x, str, n, at, t3, "string");
      forms(x, str, t3);
      same(x, str.native_string, s, "the text itself");
    }
    compare(x, t1, t3, s, "string");
    {
      Trace t4, t5;
      char pad = after.empty() ? 0 : after[0];
      if (x.excluded("end-octet") && ucd::is_cont(pad)) pad = 'z';
      const char* p = guard().right(s + pad, before);
      codepoints<utf8_const_iterator<const char*>>(x, p, n, at, true, t4, "const char*, one octet after");
      char* q = guard(1).left(s + '\0');
      codepoints<utf8_iterator<char*>>(x, q, n, at, true, t5, "char*, zero after");
      compare(x, t4, t5, s, "octet after");
    }
    {
      Sc8 apart(s);
      Trace t6;
      codepoints<utf8_const_iterator<Sc8::const_iterator>>(x, apart.cbegin(), n, at, false, t6, "octets lying apart");
      D8 d(apart);
      graphemes(x, d, n, at, t6, "octets lying apart");
      forms(x, d, t6);
      compare(x, t1, t6, s, "octets lying apart");
    }
    if (!x.excluded("end-compare")) {
      // the end on the left hand side
      const char* p = guard().right(s);
      utf8_const_iterator<const char*> b(p), e(p + n);
      check(x, n == 0 || e != b, "the end equals the beginning");
    }
    if (!x.excluded("append-end")) {
      const char* p = guard().right(s);
      V8 v(sview(p, n));
      S8 o;
      o.append<sview>(v.codepoint_cbegin(), v.codepoint_cend());
      same(x, o.native_string, s, "append of a whole view");
    }
  }
};
PROPERTY(P)
