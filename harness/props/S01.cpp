#include "../common.hpp"

struct P : Property {
  const char* id() const { return "S01"; }
  const char* rule() const {
    return "a text, a destination's content and pairs of octet offsets (all pairs for short texts); each pair is appended "
           "from strings and views, from UTF-32 into either encoding, to itself, and as a truncation; non-trivial: an offset lies inside a codepoint";
  }
  int big() { return 70000; }
  std::vector<FieldSpec> fields() const { return { { "text", SCALARS }, { "dest", SCALARS }, { "offsets", INTS }, { "after", OCTETS } }; }
  std::vector<int> alphabet() { return { 'a', 0xE9, 0x20AC, 0x1F4A9, 0x10FFFF, 0x800 }; }
  uint64_t enum_count(bool thorough) { return gen::sweep_count(40) + gen::ClassWalk(alphabet(), thorough ? 6 : 5).total; }
  const char* enum_what(bool) { return "every scalar value in texts of 40 of them; every sequence of up to 5 (thorough: 6) codepoints of the different octet lengths, all pairs of offsets"; }
  void enum_case(uint64_t i, Case& c) {
    if (i < gen::sweep_count(40)) { gen::sweep(i, c[0], 40); for (int k = 0; k < 16; k++) c[2].push_back(int((i + k) * 7919 & 0xFFFFF)); return; }
    i -= gen::sweep_count(40);
    gen::ClassWalk(alphabet(), 6).make(i, c[0]); c[1].push_back('d'); }
  void gen(Source& s, Case& c) {
    gen::text(s, c[0]);
    gen::before(s, c[0], c[1]);
    for (int i = 0; i < 8; i++) c[2].push_back(s.below(1 << 20));
    c[3].push_back(s.chance(1, 3) ? 0 : s.range(0, 255));
  }
  void run(const Case& c, Ctx& x) {
    const Text& t = c[0];
    std::string s = ucd::encode(t), d = ucd::encode(c[1]);
    std::vector<size_t> o = offsets8(t), own = owner(o);
    own.push_back(t.size());
    label_size(x, t.size());
    if (mixed_lengths(t)) x.label("mixed octet lengths");
    char after = at_or(c[3], 0, 0);
    if (x.excluded("end-octet") && ucd::is_cont(after)) after = 0;   // see known_findings.txt
    std::string padded = s + after;
    const char* p = guard().fits(padded.size()) ? guard().right(padded) : 0;

    std::vector<std::pair<size_t, size_t>> pairs;
    if (s.size() <= 12) {
      for (size_t a = 0; a <= s.size(); a++) for (size_t b = a; b <= s.size(); b++) pairs.push_back({ a, b });
    } else {
      for (size_t i = 0; i + 1 < c[2].size(); i += 2) {
        size_t a = c[2][i] % (s.size() + 1), b = c[2][i+1] % (s.size() + 1);
        if (c[2][i] & 0x80000) b = std::min(s.size(), a + b % 9);
        pairs.push_back({ std::min(a, b), std::max(a, b) });
      }
      pairs.push_back({ 0, s.size() });
    }
    bool more = true;
    for (auto& pr : pairs) {
      size_t a = pr.first, b = pr.second;
      if ((a < s.size() && o[own[a]] != a) || (b < s.size() && o[own[b]] != b)) x.nontrivial();
      std::string want = d + s.substr(o[own[a]], o[own[b]] - o[own[a]]);
      // string into string, both spellings
      S8 src(s), dst(d), dst2(d);
      S8& r = dst.append(S8::const_iterator(src.native_cbegin() + a), S8::const_iterator(src.native_cbegin() + b));
      check(x, &r == &dst, "append does not return its object");
      same(x, dst.native_string, want, "append from a string");
      dst2.append<std::string>(S8::const_iterator(src.native_cbegin() + a), S8::const_iterator(src.native_cbegin() + b));
      same(x, dst2.native_string, want, "append<std::string>");
      same(x, src.native_string, s, "the source of append");
      // a text appended to itself
      if (a == 0 || (a & 1)) {
        S8 self(s);
        self.append(S8::const_iterator(self.native_cbegin() + a), S8::const_iterator(self.native_cbegin() + b));
        same(x, self.native_string, s + want.substr(d.size()), "append from itself");
      }
      if (p) {
        V8 v(sview(p, s.size()));
        S8 dv(d);
        S8& rv = dv.append<sview>(V8::const_iterator(v.native_cbegin() + a), V8::const_iterator(v.native_cbegin() + b));
        check(x, &rv == &dv, "append<view> does not return its object");
        same(x, dv.native_string, want, "append from a view");
        // truncation: the longest prefix of whole codepoints that fits b octets
        S8 cut;
        cut.append<sview>(v.codepoint_cbegin(), V8::const_iterator(v.native_cbegin() + b));
        same(x, cut.native_string, s.substr(0, o[own[b]]), "truncation of a view");
      }
      S8 cut;
      cut.append(src.codepoint_cbegin(), S8::const_iterator(src.native_cbegin() + b));
      same(x, cut.native_string, s.substr(0, o[own[b]]), "truncation of a string");
      // storages of other types, and with units that lie apart
      if (more) {
        D8 ds{ Sc8(s) };
        A8 as(astring8(s.begin(), s.end())), ad(astring8(d.begin(), d.end()));
        S8 e(d), f(d);
        e.append<Sc8>(D8::const_iterator(ds.native_cbegin() + a), D8::const_iterator(ds.native_cbegin() + b));
        same(x, e.native_string, want, "append from units that lie apart");
        f.append<astring8>(A8::const_iterator(as.native_cbegin() + a), A8::const_iterator(as.native_cbegin() + b));
        same(x, f.native_string, want, "append from a string with an allocator of its own");
        ad.append<std::string>(S8::const_iterator(src.native_cbegin() + a), S8::const_iterator(src.native_cbegin() + b));
        same(x, std::string(ad.native_string.begin(), ad.native_string.end()), want, "append to a string with an allocator of its own");
        D32 ds32{ Scattered<int>(t) };
        S32 h = s32(c[1]);
        h.append<Scattered<int>>(ds32.codepoint_cbegin() + own[a], ds32.codepoint_cbegin() + own[b]);
        Text w = c[1];
        w.insert(w.end(), t.begin() + own[a], t.begin() + own[b]);
        same(x, text_of(h.native_string), w, "UTF-32 append from units that lie apart");
        more = s.size() <= 12 && a % 3 == 0;
      }
      // UTF-32: positions are codepoints
      size_t ka = own[a], kb = own[b];
      Text want32 = c[1];
      want32.insert(want32.end(), t.begin() + ka, t.begin() + kb);
      S32 src32 = s32(t), d32 = s32(c[1]), e32 = s32(c[1]);
      V32 vsrc = v32(t);
      d32.append(src32.codepoint_cbegin() + ka, src32.codepoint_cbegin() + kb);
      same(x, text_of(d32.native_string), want32, "UTF-32 append from a string");
      e32.append<iview>(vsrc.codepoint_cbegin() + ka, vsrc.codepoint_cbegin() + kb);
      same(x, text_of(e32.native_string), want32, "UTF-32 append from a view");
      // codepoints from UTF-32 into either encoding
      S32 f32 = s32(c[1]), g32 = s32(t);
      S8 f8(d), g8(d);
      S32& rf = f32.append_from_utf32ne<std::basic_string<int>>(src32.codepoint_cbegin() + ka, src32.codepoint_cbegin() + kb);
      S8& rg = f8.append_from_utf32ne<std::basic_string<int>>(src32.codepoint_cbegin() + ka, src32.codepoint_cbegin() + kb);
      check(x, &rf == &f32 && &rg == &f8, "append_from_utf32ne does not return its object");
      same(x, text_of(f32.native_string), want32, "append_from_utf32ne of a string to UTF-32");
      same(x, f8.native_string, want, "append_from_utf32ne of a string to UTF-8");
      g8.append_from_utf32ne<iview>(vsrc.codepoint_cbegin() + ka, vsrc.codepoint_cbegin() + kb);
      same(x, g8.native_string, want, "append_from_utf32ne of a view to UTF-8");
      if (a == 0 || (a & 1)) {
        Text wself = t;
        wself.insert(wself.end(), t.begin() + ka, t.begin() + kb);
        g32.append(g32.codepoint_cbegin() + ka, g32.codepoint_cbegin() + kb);
        same(x, text_of(g32.native_string), wself, "UTF-32 append from itself");
      }
    }
  }
};
PROPERTY(P)
