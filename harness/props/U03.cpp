#include "../common.hpp"
using u5e::utf8_iterator;

// *to = *from, where it can be said at all
template <class To, class From> static auto assign_from(To& to, From& from, int) -> decltype((*to = *from), true) { *to = *from; return true; }
template <class To, class From> static bool assign_from(To&, From&, long) { return false; }

struct P : Property {
  const char* id() const { return "U03"; }
  const char* rule() const {
    return "a text written as UTF-8 through the output iterator over dirty buffers, and by append_from_utf32ne behind "
           "existing content; every single scalar value first; non-trivial: has a codepoint of two or more octets";
  }
  int big() { return 70000; }
  std::vector<FieldSpec> fields() const { return { { "text", SCALARS }, { "prefix", SCALARS }, { "dirt", OCTETS }, { "slack", INTS } }; }
  uint64_t enum_count(bool) { return gen::scalars_count(); }
  const char* enum_what(bool) { return "every scalar value, alone"; }
  void enum_case(uint64_t i, Case& c) {
    c[0].push_back(gen::nth_scalar(i));
    static const int dirt[] = { 0, 0xC3, 0x80, 0xFF, 'x', 0xE2, 0xF0, 0xBF };
    c[2].push_back(dirt[i % 8]);
    c[3].push_back(8);
  }
  void gen(Source& s, Case& c) {
    gen::text(s, c[0]);
    if (s.chance(1, 2)) gen::before(s, c[0], c[1]);
    gen::octet_string(s, c[2], 1);
    c[3].push_back(s.range(0, 12));
  }
  void run(const Case& c, Ctx& x) {
    const Text& t = c[0];
    std::string want = ucd::encode(t), dirt = octets(c[2]);
    std::vector<size_t> o = offsets8(t);
    for (int v : t) if (v >= 0x80) x.nontrivial();
    label_size(x, t.size());
    if (mixed_lengths(t)) x.label("mixed octet lengths");
    // Assigning looks at the old content around the position (see
    // known_findings.txt): 7-bit octets at both ends of the memory make that
    // harmless, everything between is arbitrary.
    size_t slack = at_or(c[3], 0, 8) % 16;
    if (x.excluded("assign-old-content")) slack = std::max<size_t>(slack, 8);
    std::string before(slack, '#'), after(slack, '#'), buf;
    while (!dirt.empty() && buf.size() < want.size()) buf += dirt;
    buf.resize(want.size(), '\0');
    if (slack) for (size_t i = 0; i < slack / 2 && i < dirt.size(); i++) { before[slack - 1 - i] = dirt[i]; after[i] = dirt[i]; }
    if (x.excluded("assign-old-content")) { before[0] = '#'; }
    std::string mem = before + buf + after;

    for (int kind = 0; kind < 2; kind++) {
      std::string got;
      if (kind == 0) {
        if (!guard().fits(mem.size())) continue;
        char* m = guard().right(mem);
        utf8_iterator<char*> it(m + slack);
        for (size_t k = 0; k < t.size(); k++) {
          *it = t[k];
          int v = *it;
          if (v != t[k]) x.fail("char*: wrote %04X, read back %04X", t[k], v);
          if (k & 1) it++; else ++it;
          size_t at = it.raw_iterator_ - (m + slack);
          if (at != o[k+1]) x.fail("char*: after writing codepoint %zu (%04X) the iterator is at %zu, not %zu", k, t[k], at, o[k+1]);
        }
        got.assign(m, mem.size());
      } else {
        S8 s(mem);
        S8::iterator it(s.native_begin() + slack);
        for (size_t k = 0; k < t.size(); k++) {
          *it = u5e::codepoint(t[k]);
          ++it;
          size_t at = it.raw_iterator_ - (s.native_begin() + slack);
          if (at != o[k+1]) x.fail("string: after writing codepoint %zu (%04X) the iterator is at %zu, not %zu", k, t[k], at, o[k+1]);
        }
        got = s.native_string;
      }
      same(x, got.substr(slack, want.size()), want, kind ? "octets written into a string" : "octets written into memory");
      same(x, got.substr(0, slack), before, "octets before the written ones");
      same(x, got.substr(slack + want.size()), after, "octets after the written ones");
    }
    { // from positions that can be written to themselves
      S8 from(want), to(mem);
      S8::iterator i = from.codepoint_begin(), e = from.codepoint_end(), it(to.native_begin() + slack);
      for (size_t k = 0; k < t.size(); k++, ++i) {
        if (!assign_from(it, i, 0)) x.fail("what a mutable position refers to cannot be assigned to what another refers to");
        ++it;
        size_t at = it.raw_iterator_ - (to.native_begin() + slack);
        if (at != o[k+1]) x.fail("copied: after writing codepoint %zu (%04X) the iterator is at %zu, not %zu", k, t[k], at, o[k+1]);
      }
      same(x, to.native_string, before + want + after, "octets copied from mutable positions");
      same(x, from.native_string, want, "the text copied from");
    }
    for (int v : t) {
      int n = u5e::utf8_util::encoded_size(v), len = v < 0x80 ? 1 : v < 0x800 ? 2 : v < 0x10000 ? 3 : 4;
      x.checks++;
      if (n != len) x.fail("%04X takes %d octets, encoded_size says %d", v, len, n);
    }
    { // octets without a sign
      std::basic_string<unsigned char> un(mem.begin(), mem.end());
      utf8_iterator<unsigned char*> it(&un[0] + slack);
      for (size_t k = 0; k < t.size(); k++) {
        *it = t[k];
        ++it;
        size_t at = it.raw_iterator_ - (&un[0] + slack);
        if (at != o[k+1]) x.fail("unsigned char*: after writing codepoint %zu (%04X) the iterator is at %zu, not %zu", k, t[k], at, o[k+1]);
      }
      same(x, std::string(un.begin(), un.end()), before + want + after, "unsigned octets written");
    }
    { // octets that do not lie side by side
      Sc8 apart(mem), clean(mem);
      utf8_iterator<Sc8::iterator> it(apart.begin() + slack);
      for (size_t k = 0; k < t.size(); k++) {
        *it = t[k];
        it++;
        size_t at = it.raw_iterator_ - (apart.begin() + slack);
        if (at != o[k+1]) x.fail("octets lying apart: after writing codepoint %zu (%04X) the iterator is at %zu, not %zu", k, t[k], at, o[k+1]);
      }
      same(x, apart.content(), before + want + after, "octets written where they lie apart");
      check(x, apart.between_kept(clean), "memory that is not part of the range changed");
    }
    // appending converted UTF-32
    std::string prefix = ucd::encode(c[1]);
    S32 src = s32(t);
    V32 vsrc = v32(t);
    S8 a(prefix), b(prefix);
    S8& ra = a.append_from_utf32ne<S32>(src.codepoint_cbegin(), src.codepoint_cend());
    check(x, &ra == &a, "append_from_utf32ne does not return its object");
    same(x, a.native_string, prefix + want, "append_from_utf32ne of a string");
    b.append_from_utf32ne<V32>(vsrc.codepoint_cbegin(), vsrc.codepoint_cend());
    same(x, b.native_string, prefix + want, "append_from_utf32ne of a view");
    S32 d = s32(c[1]);
    d.append_from_utf32ne<V32>(vsrc.codepoint_cbegin(), vsrc.codepoint_cend());
    Text both = c[1];
    both.insert(both.end(), t.begin(), t.end());
    same(x, text_of(d.native_string), both, "append_from_utf32ne to UTF-32");
    same(x, text_of(src.native_string), t, "the source of append_from_utf32ne");
    // and back
    same(x, read_all(x, a.codepoint_cbegin(), a.codepoint_cend(), both.size(), "round trip"), both, "round trip");
  }
};
PROPERTY(P)
