#include "../common.hpp"

struct P : Property {
  const char* id() const { return "S02"; }
  const char* rule() const {
    return "a text, a destination's content and pairs of native offsets turned into grapheme positions; each range is "
           "appended for UTF-8 and UTF-32, from strings and views, to its own text, and as a truncation; non-trivial: an offset lies "
           "inside a cluster of several codepoints";
  }
  int big() { return 20000; }
  std::vector<FieldSpec> fields() const { return { { "text", SCALARS }, { "dest", SCALARS }, { "offsets", INTS }, { "after", OCTETS } }; }
  uint64_t enum_count(bool thorough) { return gen::sweep_count(40) + gen::ClassWalk(gen::gcb_representatives(), thorough ? 4 : 3).total; }
  const char* enum_what(bool) { return "every scalar value in texts of 40 of them; every sequence of up to 3 (thorough: 4) break classes, all pairs of offsets"; }
  void enum_case(uint64_t i, Case& c) {
    if (i < gen::sweep_count(40)) { gen::sweep(i, c[0], 40); for (int k = 0; k < 16; k++) c[2].push_back(int((i + k) * 7919 & 0xFFFFF)); return; }
    i -= gen::sweep_count(40);
    gen::ClassWalk(gen::gcb_representatives(), 4).make(i, c[0]); c[1].push_back('d'); }
  void gen(Source& s, Case& c) {
    gen::text(s, c[0]);
    gen::before(s, c[0], c[1]);
    for (int i = 0; i < 8; i++) c[2].push_back(s.below(1 << 20));
    c[3].push_back(s.chance(1, 3) ? 0 : s.range(0, 255));
  }
  // offset -> start of the cluster that holds it
  static std::vector<size_t> cluster_start(const Text& t, const std::vector<size_t>& o) {
    std::vector<size_t> g = ucd::grapheme_starts(t), r(o.back() + 1);
    for (size_t k = 0; k + 1 < g.size(); k++)
      for (size_t i = o[g[k]]; i < o[g[k+1]]; i++) r[i] = o[g[k]];
    r[o.back()] = o.back();
    return r;
  }
  template <class E> static u5e::basic_grapheme_iterator<E> at(E& e, size_t a) {
    return u5e::basic_grapheme_iterator<E>(e.codepoint_cbegin(), e.codepoint_cend(), typename E::const_iterator(e.native_cbegin() + a));
  }
  void run(const Case& c, Ctx& x) {
    const Text& t = c[0];
    std::string s = ucd::encode(t), d = ucd::encode(c[1]);
    std::vector<size_t> o = offsets8(t), o32 = offsets32(t);
    std::vector<size_t> g = cluster_start(t, o), g32 = cluster_start(t, o32), own = owner(o);
    own.push_back(t.size());
    label_size(x, t.size());
    char after = at_or(c[3], 0, 0);
    if (x.excluded("end-octet") && ucd::is_cont(after)) after = 0;   // see known_findings.txt
    std::string padded = s + after;
    const char* p = guard().fits(padded.size()) ? guard().right(padded) : 0;

    std::vector<std::pair<size_t, size_t>> pairs;
    if (s.size() <= 10) {
      for (size_t a = 0; a <= s.size(); a++) for (size_t b = a; b <= s.size(); b++) pairs.push_back({ a, b });
    } else {
      for (size_t i = 0; i + 1 < c[2].size(); i += 2) {
        size_t a = c[2][i] % (s.size() + 1), b = c[2][i+1] % (s.size() + 1);
        if (c[2][i] & 0x80000) b = std::min(s.size(), a + b % 9);
        pairs.push_back({ std::min(a, b), std::max(a, b) });
      }
      pairs.push_back({ 0, s.size() });
    }
    S8 src(s);
    S32 src32 = s32(t);
    V32 vsrc32 = v32(t);
    bool more = true;
    for (auto& pr : pairs) {
      size_t a = pr.first, b = pr.second;
      if ((a < s.size() && g[a] != o[own[a]]) || (b < s.size() && g[b] != o[own[b]])) x.nontrivial();
      std::string want = d + s.substr(g[a], g[b] - g[a]);
      {
        S8 dst(d), dst2(d);
        auto ia = at(src, a), ib = at(src, b);
        S8& r = dst.append(ia, ib);
        check(x, &r == &dst, "append does not return its object");
        same(x, dst.native_string, want, "append of graphemes from a string");
        dst2.append<std::string>(ia, ib);
        same(x, dst2.native_string, want, "append<std::string> of graphemes");
        if (a == 0 || (a & 1)) {   // a text appended to itself
          S8 self(s);
          self.native_string.shrink_to_fit();
          auto sa = at(self, a), sb = at(self, b);
          self.append(sa, sb);
          same(x, self.native_string, s + want.substr(d.size()), "append of graphemes to their own text");
        }
        S8 cut;
        auto i0 = src.grapheme_begin();
        cut.append(i0, ib);
        same(x, cut.native_string, s.substr(0, g[b]), "truncation of a string");
        check(x, ucd::encode(Text(t.begin(), t.begin() + own[g[b]])) == cut.native_string, "the truncation is not well-formed");
      }
      if (p) {
        V8 v(sview(p, s.size()));
        S8 dst(d);
        auto ia = at(v, a), ib = at(v, b);
        S8& r = dst.append<sview>(ia, ib);
        check(x, &r == &dst, "append<view> does not return its object");
        same(x, dst.native_string, want, "append of graphemes from a view");
        S8 cut;
        auto i0 = v.grapheme_begin();
        cut.append<sview>(i0, ib);
        same(x, cut.native_string, s.substr(0, g[b]), "truncation of a view");
        if (b == s.size()) {
          S8 rest(d);
          auto ie = v.grapheme_end();
          rest.append<sview>(ia, ie);
          same(x, rest.native_string, want, "append up to grapheme_end");
        }
      }
      if (more) { // storages of other types, and with units that lie apart
        D8 ds{ Sc8(s) };
        A8 as(astring8(s.begin(), s.end())), ad(astring8(d.begin(), d.end()));
        S8 e(d), f(d);
        auto ia = at(ds, a), ib = at(ds, b);
        e.append<Sc8>(ia, ib);
        same(x, e.native_string, want, "append of graphemes from units that lie apart");
        auto ja = at(as, a), jb = at(as, b);
        f.append<astring8>(ja, jb);
        same(x, f.native_string, want, "append of graphemes from a string with an allocator of its own");
        auto ka = at(src, a), kb = at(src, b);
        ad.append<std::string>(ka, kb);
        same(x, std::string(ad.native_string.begin(), ad.native_string.end()), want, "append of graphemes to a string with an allocator of its own");
        more = s.size() <= 10 && a % 3 == 0;
      }
      {
        size_t ka = own[a], kb = own[b];
        Text want32 = c[1];
        want32.insert(want32.end(), t.begin() + g32[ka], t.begin() + g32[kb]);
        S32 d32 = s32(c[1]), e32 = s32(c[1]);
        auto ia = at(src32, ka), ib = at(src32, kb);
        d32.append(ia, ib);
        same(x, text_of(d32.native_string), want32, "UTF-32 append of graphemes from a string");
        auto ja = at(vsrc32, ka), jb = at(vsrc32, kb);
        e32.append<iview>(ja, jb);
        same(x, text_of(e32.native_string), want32, "UTF-32 append of graphemes from a view");
        if (a == 0 || (a & 1)) {
          Text wself = t;
          wself.insert(wself.end(), t.begin() + g32[ka], t.begin() + g32[kb]);
          S32 self = s32(t);
          self.native_string.shrink_to_fit();
          auto sa = at(self, ka), sb = at(self, kb);
          self.append(sa, sb);
          same(x, text_of(self.native_string), wself, "UTF-32 append of graphemes to their own text");
        }
      }
    }
    same(x, src.native_string, s, "the source");
    same(x, text_of(src32.native_string), t, "the UTF-32 source");
  }
};
PROPERTY(P)
