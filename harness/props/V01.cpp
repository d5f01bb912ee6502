#include "../common.hpp"
#include <map>
#include <memory>

// Several positions in one text, each with a life of its own.
struct P : Property {
  const char* id() const { return "V01"; }
  const char* rule() const {
    return "a history of operations on four codepoint positions, three mutable ones, four grapheme positions (of the text and of parts of it) and three clusters taken from them, "
           "all in one text: placing (anywhere, or with the end of the cluster given), copying, assigning (to itself too), swapping, stepping forward and back (prefix and postfix, the result kept "
           "in another position), reading, taking a cluster, iterating one, writing a codepoint of the same length, replacing a view by another of the same storage; after every step every "
           "position reads, compares and spans what a model of indexes says; for UTF-8 and UTF-32 strings and views; non-trivial: two positions "
           "at the same place parted later, or a cluster outlived the position it was taken from";
  }
  int big() { return 0; }
  std::vector<FieldSpec> fields() const { return { { "text", SCALARS }, { "ops", INTS } }; }
  static const int OPS = 21, ARGS = 4, NC = 4, NM = 3, NG = 4, NK = 3;
  static const int CHOICES = OPS * 4;
  uint64_t enum_count(bool thorough) { std::vector<int> a(CHOICES); return gen::ClassWalk(a, thorough ? 3 : 2).total; }
  const char* enum_what(bool t) { return t ? "every history of up to 3 steps on the first two positions of each kind" : "every history of up to 2 steps on the first two positions of each kind"; }
  void enum_case(uint64_t k, Case& c) {
    std::vector<int> a(CHOICES);
    for (int i = 0; i < CHOICES; i++) a[i] = i;
    Text h;
    gen::ClassWalk(a, 3).make(k, h);
    c[0] = { 'a', 0x301, 0x1F1E6, 0x1F1E7, 0x1F1E8, 0xAC00, 0x11A8, 'z' };
    for (int v : h) for (int w : { v / 4, (v >> 1) & 1, v & 1, 3 }) c[1].push_back(w);
  }
  void gen(Source& s, Case& c) {
    gen::text(s, c[0], s.weighted({ 4, 12, 1 }));
    for (int i = 0, n = s.range(2, 40); i < n; i++) {
      c[1].push_back(s.below(OPS));
      c[1].push_back(s.below(12));
      c[1].push_back(s.below(12));
      c[1].push_back(s.below(1 << 12));
    }
  }
  // S: the text; W: whether codepoints of it can be written
  template <class S, bool W> struct World {
    typedef typename S::const_iterator I;
    typedef typename S::iterator M;
    typedef u5e::basic_grapheme_iterator<S> G;
    typedef typename G::grapheme K;
    Ctx& x;
    std::unique_ptr<S> own;                         // the text object; views of it come and go
    S* sp;
    const char* what;
    Text t;
    std::vector<size_t> off;
    std::map<std::pair<size_t, size_t>, std::vector<size_t>> known;
    bool utf8;
    std::vector<I> c; std::vector<size_t> mc;       // codepoint positions and their indexes
    std::vector<M> m; std::vector<size_t> mm;
    std::vector<int> first;                         // on the first octet: where writing begins
    std::vector<G> p; std::vector<size_t> mp;       // grapheme positions and the codepoint their cluster begins with
    std::vector<size_t> ce;                         // and the one it ends before
    std::vector<size_t> lo, hi;                     // and their limits
    std::vector<K> k; std::vector<size_t> mk, nk;   // clusters, from and to
    bool parted = false;
    World(Ctx& x, S& s, const Text& t, bool utf8, const char* what) : x(x), sp(&s), what(what), t(t), off(utf8 ? offsets8(t) : offsets32(t)), utf8(utf8),
      c(NC, s.codepoint_cbegin()), mc(NC, 0), m(NM, s.codepoint_begin()), mm(NM, 0), first(NM, 1), p(NG, s.grapheme_begin()), mp(NG, 0), ce(NG, next(0, 0, t.size())), lo(NG, 0), hi(NG, t.size()), k(NK, *s.grapheme_begin()), mk(NK, 0), nk(NK, next(0, 0, t.size())) {}
    // where the cluster of codepoint i begins, and the next one, in a part
    const std::vector<size_t>& starts(size_t l, size_t h) {
      auto key = std::make_pair(l, h);
      auto f = known.find(key);
      if (f == known.end()) f = known.insert(std::make_pair(key, ucd::grapheme_starts(Text(t.begin() + l, t.begin() + h)))).first;
      return f->second;
    }
    size_t first_of(size_t i, size_t l, size_t h) {
      if (i >= h) return h;
      size_t r = l;
      for (size_t q : starts(l, h)) if (l + q <= i) r = l + q;
      return r;
    }
    size_t next(size_t i, size_t l, size_t h) {
      for (size_t q : starts(l, h)) if (l + q > i) return l + q;
      return h;
    }
    size_t native(size_t i, int a) { return i < t.size() ? off[i] + a % (off[i + 1] - off[i]) : off[i]; }
    // read where it is, or through a copy
    static int value(I& i, bool copy) { if (!copy) return int(*i); I d = i; return int(*d); }
    // ops that would break a model of clusters are left out when W
    void step(int op, int i, int j, int a) {
      size_t n = t.size();
      S& s = *sp;
      switch (op) {
      case 0: { size_t q = a % (n + 1); c[i % NC] = I(s.native_cbegin() + native(q, a >> 4)); mc[i % NC] = q; break; }
      case 1: { I q(c[j % NC]); c[i % NC] = q; mc[i % NC] = mc[j % NC]; break; }
      case 2: if (mc[i % NC] < n) { if (a & 1) ++c[i % NC]; else { I old = c[i % NC]++; if (mc[j % NC] == mc[i % NC]) parted = true; if (i % NC != j % NC) { c[j % NC] = old; mc[j % NC] = mc[i % NC]; } } mc[i % NC]++; } break;
      case 3: if (mc[i % NC] > 0) { if (a & 1) --c[i % NC]; else { I old = c[i % NC]--; if (mc[j % NC] == mc[i % NC]) parted = true; if (i % NC != j % NC) { c[j % NC] = old; mc[j % NC] = mc[i % NC]; } } mc[i % NC]--; } break;
      case 4: std::swap(c[i % NC], c[j % NC]); std::swap(mc[i % NC], mc[j % NC]); break;
      case 5: { size_t q = a % (n + 1); m[i % NM] = M(s.native_begin() + native(q, a >> 4)); mm[i % NM] = q; first[i % NM] = native(q, a >> 4) == off[q]; break; }
      case 6: { M q(m[j % NM]); m[i % NM] = q; mm[i % NM] = mm[j % NM]; first[i % NM] = first[j % NM]; break; }
      case 7: if (mm[i % NM] < n) { if (a & 1) ++m[i % NM]; else { M old = m[i % NM]++; if (i % NM != j % NM) { m[j % NM] = old; mm[j % NM] = mm[i % NM]; first[j % NM] = first[i % NM]; } } first[i % NM] = 1; mm[i % NM]++; } break;
      case 8: if (mm[i % NM] > 0) { if (a & 1) --m[i % NM]; else { M old = m[i % NM]--; if (i % NM != j % NM) { m[j % NM] = old; mm[j % NM] = mm[i % NM]; first[j % NM] = first[i % NM]; } } first[i % NM] = 1; mm[i % NM]--; } break;
      case 9: case 17: { // placed in the text, or in a part of it; or where a codepoint position is
        size_t g = i % NG, q = a % (n + 1), l = 0, h = n;
        if (op == 17) q = mc[j % NC];
        if (j & 1) { l = a % 5 % (q + 1); h = q + (a >> 5) % (n - q + 1); }
        if (op == 17) {
          I w = c[j % NC];
          G made(I(s.native_cbegin() + off[l]), I(s.native_cbegin() + off[h]), w);
          p[g] = made;
        } else {
          G made(I(s.native_cbegin() + off[l]), I(s.native_cbegin() + off[h]), I(s.native_cbegin() + (q < h ? native(q, a >> 4) : off[q])));
          p[g] = made;
        }
        lo[g] = l; hi[g] = h; mp[g] = first_of(q, l, h); ce[g] = next(mp[g], l, h);
        break;
      }
      case 10: { G q(p[j % NG]); p[i % NG] = q; same_as(i % NG, j % NG); break; }
      case 11: { size_t u = i % NG, v = j % NG; if (mp[u] >= hi[u]) break; if (a & 1) ++p[u]; else { G old = p[u]++; if (mp[v] == mp[u]) parted = true; if (u != v) { p[v] = old; same_as(v, u); } } mp[u] = ce[u]; ce[u] = next(mp[u], lo[u], hi[u]); break; }
      case 12: std::swap(p[i % NG], p[j % NG]); std::swap(mp[i % NG], mp[j % NG]); std::swap(ce[i % NG], ce[j % NG]); std::swap(lo[i % NG], lo[j % NG]); std::swap(hi[i % NG], hi[j % NG]); break;
      case 13: p[i % NG] = a & 1 ? s.grapheme_begin() : s.grapheme_end(); lo[i % NG] = 0; hi[i % NG] = n; mp[i % NG] = a & 1 ? 0 : n; ce[i % NG] = next(mp[i % NG], 0, n); break;
      case 14: { size_t v = j % NG; if (mp[v] >= hi[v]) break; k[i % NK] = *p[v]; mk[i % NK] = mp[v]; nk[i % NK] = ce[v]; if (nk[i % NK] < hi[v] && (a & 2)) { ++p[v]; mp[v] = ce[v]; ce[v] = next(mp[v], lo[v], hi[v]); parted = true; } break; }
      case 15: { K q(k[j % NK]); k[i % NK] = q; mk[i % NK] = mk[j % NK]; nk[i % NK] = nk[j % NK]; break; }
      case 16: // a position out of a cluster
        if (a & 1) { c[i % NC] = k[j % NK].codepoint_end(); mc[i % NC] = nk[j % NK]; }
        else { I q = k[j % NK].codepoint_begin(); c[i % NC] = q; mc[i % NC] = mk[j % NK]; }
        break;
      case 18: std::swap(m[i % NM], m[j % NM]); std::swap(mm[i % NM], mm[j % NM]); std::swap(first[i % NM], first[j % NM]); break;
      case 20: { // with the end of the cluster given
        size_t g = i % NG, q = a % (n + 1), l = 0, h = n;
        if (j & 1) { l = a % 5 % (q + 1); h = q + (a >> 5) % (n - q + 1); }
        if (q == h) break;
        size_t e = next(q, l, h);                   // one boundary or another after it
        for (int more = (a >> 8) % 4; more > 0; more--) e = next(e, l, h);
        G made(I(s.native_cbegin() + off[l]), I(s.native_cbegin() + off[h]), I(s.native_cbegin() + off[q]), I(s.native_cbegin() + off[e]));
        p[g] = made;
        lo[g] = l; hi[g] = h; mp[g] = q; ce[g] = e;
        x.label("cluster end given");
        break;
      }
      default: write(i, j, a, std::integral_constant<bool, W>()); break;
      }
    }
    void same_as(size_t u, size_t v) { mp[u] = mp[v]; ce[u] = ce[v]; lo[u] = lo[v]; hi[u] = hi[v]; }
    // a view of the same storage takes the place of the one there was, whose
    // memory is spoiled
    void write(int i, int, int a, std::false_type) {
      S* fresh = new S(*sp);
      if (own && (a & 1)) memset((void*)own.get(), 0xA5, sizeof(S));
      own.reset(fresh);
      sp = fresh;
      if (i & 1) x.label("another view object");
    }
    // a codepoint of the same length and the same break class
    void write(int i, int j, int a, std::true_type) {
      size_t q = mm[i % NM];
      if (q >= t.size() || !first[i % NM]) return;
      int v = t[q] >= 'a' && t[q] <= 'z' ? 'a' + a % 26 : t[q] >= 0x300 && t[q] <= 0x36F ? 0x300 + a % 0x70 : t[q] >= 0x1F1E6 && t[q] <= 0x1F1FF ? 0x1F1E6 + a % 26 : t[q] >= 0x4E00 && t[q] <= 0x9FD5 ? 0x4E00 + a % 5000 : t[q];
      if (j % 3 == 0) { M to(m[i % NM]); *to = u5e::codepoint(v); }
      else if (j % 3 == 1) { *m[i % NM] = u5e::codepoint(v); first[i % NM] = !utf8 || v < 0x80; }
      else if (utf8) { *m[i % NM] = u5e::codepoint(v); ++m[i % NM]; mm[i % NM]++; }
      else *m[i % NM] = u5e::codepoint(v);
      if (t[q] != v) { t[q] = v; x.label("written"); }
    }
    void all(size_t at, int op) {
      size_t n = t.size();
      S& s = *sp;
      I e = s.codepoint_cend();
      M f = s.codepoint_end();
      auto bad = [&](const char* kind, size_t z) { x.fail("%s: after step %zu (operation %d) %s %zu of %s is wrong", what, at, op, kind, z, show(t).c_str()); };
      for (size_t z = 0; z < NC; z++) {
        x.checks++;
        if ((c[z] == e) != (mc[z] == n) || (mc[z] < n && value(c[z], (at + z) & 1) != t[mc[z]])) bad("codepoint position", z);
        for (size_t y = 0; y < NC; y++) if ((c[z] == c[y]) != (mc[z] == mc[y]) || (c[z] != c[y]) != (mc[z] != mc[y])) bad("comparison of codepoint position", z);
      }
      for (size_t z = 0; z < NM; z++) {
        x.checks++;
        if ((m[z] == f) != (mm[z] == n) || (mm[z] < n && int(u5e::codepoint(*m[z])) != t[mm[z]])) bad("mutable position", z);
        for (size_t y = 0; y < NM; y++) if ((m[z] == m[y]) != (mm[z] == mm[y])) bad("comparison of mutable position", z);
      }
      for (size_t z = 0; z < NG; z++) {
        x.checks++;
        size_t l = lo[z], h = hi[z], to = ce[z];
        G ge(I(s.native_cbegin() + off[l]), I(s.native_cbegin() + off[h]), I(s.native_cbegin() + off[h]));
        if ((p[z] == ge) != (mp[z] == h) || (p[z] != ge) != (mp[z] != h)) bad("grapheme position", z);
        if (mp[z] < h) { K w = *p[z]; span(w, mp[z], to, at, op, "cluster at grapheme position"); }
        for (size_t y = 0; y < NG; y++) if (lo[y] == l && hi[y] == h && ((mp[y] == mp[z] && ce[y] == to) || ce[y] <= mp[z] || to <= mp[y] || mp[z] == h || mp[y] == h) && (p[z] == p[y]) != (mp[z] == mp[y])) bad("comparison of grapheme position", z);
        for (size_t y = 0; y < NC; y++) {
          if (mc[y] > h || mc[y] < l) continue;
          bool want = mp[z] == h ? mc[y] == h : mc[y] >= mp[z] && mc[y] < to;
          if ((p[z] == c[y]) != want || (p[z] != c[y]) == want) bad("comparison with a codepoint position of grapheme position", z);
        }
      }
      for (size_t z = 0; z < NK; z++) if (mk[z] < n) span(k[z], mk[z], nk[z], at, op, "cluster kept");
      x.checks++;
      same(x, read_all(x, s.codepoint_cbegin(), s.codepoint_cend(), n + 1, what), t, what);
    }
    void span(K& w, size_t q, size_t to, size_t at, int op, const char* kind) {
      x.checks++;
      Text got;
      for (I b = w.codepoint_begin(), d = w.codepoint_end(); b != d && got.size() <= t.size(); ++b) got.push_back(value(b, got.size() & 1));
      if (got != Text(t.begin() + q, t.begin() + to)) x.fail("%s: after step %zu (operation %d) the %s (codepoints from %zu of %s) is %s", what, at, op, kind, q, show(t).c_str(), show(got).c_str());
    }
  };
  template <bool W, class S> void live(Ctx& x, S& s, const Text& t, bool utf8, const Field& ops, const char* what) {
    World<S, W> w(x, s, t, utf8, what);
    for (size_t q = 0; q + ARGS <= ops.size(); q += ARGS) {
      w.step(ops[q] % OPS, ops[q + 1], ops[q + 2], ops[q + 3]);
      w.all(q / ARGS, ops[q] % OPS);
    }
    if (w.parted) x.nontrivial();
  }
  void run(const Case& c, Ctx& x) {
    const Text& t = c[0];
    std::string s = ucd::encode(t);
    label_size(x, t.size());
    { S8 a(s); live<true>(x, a, t, true, c[1], "UTF-8 string"); }
    { V8 a = v8(s); live<false>(x, a, t, true, c[1], "UTF-8 view"); }
    { S32 a = s32(t); live<true>(x, a, t, false, c[1], "UTF-32 string"); }
    { V32 a = v32(t); live<false>(x, a, t, false, c[1], "UTF-32 view"); }
    { Sc8 a(s); D8 d(a); live<true>(x, d, t, true, c[1], "UTF-8 lying apart"); }
  }
};
PROPERTY(P)
