#include "../norm.hpp"
#include <memory>
#include <u5e/filter.hpp>

struct P : Property {
  const char* id() const { return "S03"; }
  const char* rule() const {
    return "a history of operations on 3 UTF-8 strings, 3 UTF-32 strings, 2 views of each kind and their storage: construction, "
           "copy, move, assignment (to itself too), swap, appending codepoint ranges, grapheme ranges, views and converted UTF-32, "
           "normalizing one into another, writing through iterators, keeping positions while others change; after every step all objects are compared with a "
           "model of plain sequences; non-trivial: 4 or more steps that change something";
  }
  std::vector<FieldSpec> fields() const { return { { "material", SCALARS }, { "ops", INTS } }; }
  static const int OPS = 24, ARGS = 5;
  // op, with (i,j) out of (0,0) (0,1) (1,0)
  static const int CHOICES = OPS * 3;
  uint64_t enum_count(bool thorough) { std::vector<int> a(CHOICES); return gen::ClassWalk(a, thorough ? 3 : 2).total; }
  const char* enum_what(bool t) { return t ? "every history of up to 3 steps on the first two objects of each kind" : "every history of up to 2 steps on the first two objects of each kind"; }
  void enum_case(uint64_t k, Case& c) {
    std::vector<int> a(CHOICES);
    for (int i = 0; i < CHOICES; i++) a[i] = i;
    Text h;
    gen::ClassWalk(a, 3).make(k, h);
    c[0] = { 'a', 0x301, 0x1F1E6, 0x1F1E7, 0x1F1E8, 0xAC00, 0x11A8, 'z' };
    int n = 0;
    for (int v : h) for (int w : { v / 3, int(v % 3 == 2), int(v % 3 == 1), 1 + n++, 6 }) c[1].push_back(w);
  }
  void gen(Source& s, Case& c) {
    gen::text(s, c[0], s.weighted({ 4, 24, 1 }));
    for (int i = 0, n = s.range(2, 30); i < n; i++) {
      c[1].push_back(s.below(OPS));
      c[1].push_back(s.below(3));
      c[1].push_back(s.below(3));
      c[1].push_back(s.below(1 << 12));
      c[1].push_back(s.below(1 << 12));
    }
  }
  struct World {
    std::unique_ptr<S8> a[3];
    std::unique_ptr<S32> b[3];
    std::string raw8[2];
    std::vector<int> raw32[2];
    V8 va[2];
    V32 vb[2];
    // the model
    Text ma[3], mb[3], r8[2], r32[2];
    int of8[2], of32[2];      // which storage a view shows
    bool large;
  };
  static int codepoint_op(u5e::codepoint c, S32& o) { o.native_string.push_back(c.value); return 1; }
  void run(const Case& c, Ctx& x) {
    Text mat = c[0];
    if (mat.empty()) mat.push_back('m');
    World w;
    w.large = mat.size() > 24;
    auto piece = [&](int a, int b) {
      Text t;
      for (int i = 0, n = b % 9 == 8 && mat.size() > 24 ? b : b % 9; i < n; i++) t.push_back(mat[(a + i) % mat.size()]);
      return t;
    };
    for (int i = 0; i < 3; i++) { w.a[i].reset(new S8()); w.b[i].reset(new S32()); }
    for (int i = 0; i < 2; i++) {
      w.r8[i] = piece(i * 3, 8);
      w.raw8[i] = ucd::encode(w.r8[i]);
      w.va[i] = v8(w.raw8[i]);
      w.r32[i] = piece(i * 5, 7);
      w.raw32[i] = w.r32[i];
      w.vb[i] = v32(w.raw32[i]);
      w.of8[i] = w.of32[i] = i;
    }
    size_t effects = 0;
    const Field& ops = c[1];
    for (size_t p = 0; p + ARGS <= ops.size(); p += ARGS) {
      int op = ops[p] % OPS, i = ops[p+1] % 3, j = ops[p+2] % 3, a = ops[p+3], b = ops[p+4];
      bool did = step(x, w, op, i, j, a, b, piece);
      effects += did;
      compare(x, w, op, p / ARGS);
    }
    if (effects >= 4) x.nontrivial();
    x.label(effects == 0 ? "no effect" : effects < 4 ? "1-3 effective steps" : effects < 12 ? "4-11 effective steps" : "12 or more effective steps");
    // reading
    for (int i = 0; i < 3; i++) {
      S8& s = *w.a[i];
      same(x, read_all(x, s.codepoint_cbegin(), s.codepoint_cend(), w.ma[i].size() + 1, "UTF-8"), w.ma[i], "codepoints of a UTF-8 string");
      S32& t = *w.b[i];
      same(x, read_all(x, t.codepoint_cbegin(), t.codepoint_cend(), w.mb[i].size() + 1, "UTF-32"), w.mb[i], "codepoints of a UTF-32 string");
    }
  }
  void compare(Ctx& x, World& w, int op, size_t at) {
    for (int i = 0; i < 3; i++) {
      x.checks += 2;
      if (w.a[i]->native_string != ucd::encode(w.ma[i]))
        x.fail("after step %zu (operation %d) UTF-8 string %d holds\n  %s, not\n  %s", at, op, i, show_octets(w.a[i]->native_string).c_str(), show_octets(ucd::encode(w.ma[i])).c_str());
      if (text_of(w.b[i]->native_string) != w.mb[i])
        x.fail("after step %zu (operation %d) UTF-32 string %d holds\n  %s, not\n  %s", at, op, i, show(text_of(w.b[i]->native_string)).c_str(), show(w.mb[i]).c_str());
    }
    for (int i = 0; i < 2; i++) {
      x.checks += 4;
      V8& v = w.va[i];
      std::string want = ucd::encode(w.r8[w.of8[i]]);
      if (std::string(v.native_cbegin(), v.native_cend()) != want || v.native_string.data() != w.raw8[w.of8[i]].data())
        x.fail("after step %zu (operation %d) UTF-8 view %d does not show its storage", at, op, i);
      same(x, read_all(x, v.codepoint_cbegin(), v.codepoint_cend(), want.size() + 1, "view"), w.r8[w.of8[i]], "codepoints of a UTF-8 view");
      V32& u = w.vb[i];
      if (Text(u.native_cbegin(), u.native_cend()) != w.r32[w.of32[i]] || u.native_string.data() != w.raw32[w.of32[i]].data())
        x.fail("after step %zu (operation %d) UTF-32 view %d does not show its storage", at, op, i);
      if (w.raw8[i] != ucd::encode(w.r8[i]) || w.raw32[i] != w.r32[i]) x.fail("after step %zu (operation %d) the storage of a view changed", at, op);
    }
  }
  // the codepoints of t that begin in the native range, and its octet offsets
  static void range(const Text& t, int a, int b, size_t& ka, size_t& kb) {
    ka = a % (t.size() + 1);
    kb = ka + b % (t.size() - ka + 1);
  }
  static void add(Text& to, const Text& from, size_t a, size_t b) {
    Text part(from.begin() + a, from.begin() + b);
    to.insert(to.end(), part.begin(), part.end());
  }
  template <class F> bool step(Ctx& x, World& w, int op, int i, int j, int a, int b, F piece) {
    const size_t MAX = w.large ? 5000 : 300;
    size_t ka, kb;
    switch (op) {
    case 0: { Text t = piece(a, b); *w.a[i] = S8(ucd::encode(t)); w.ma[i] = t; return true; }
    case 1: { Text t = piece(a, b); *w.b[i] = s32(t); w.mb[i] = t; return true; }
    case 2: { S8* n = new S8(*w.a[j]); w.a[i].reset(n); w.ma[i] = Text(w.ma[j]); return i != j; }
    case 3: { S32* n = new S32(*w.b[j]); w.b[i].reset(n); w.mb[i] = Text(w.mb[j]); return i != j; }
    case 4: { S8& r = (*w.a[i] = *w.a[j]); w.ma[i] = Text(w.ma[j]); check(x, &r == w.a[i].get(), "assignment does not return its object"); return true; }
    case 5: { S32& r = (*w.b[i] = *w.b[j]); w.mb[i] = Text(w.mb[j]); check(x, &r == w.b[i].get(), "assignment does not return its object"); return true; }
    case 6: { // codepoints of a string (itself too), from any octet
        if (w.ma[i].size() > MAX) return false;
        std::vector<size_t> o = offsets8(w.ma[j]);
        range(w.ma[j], a, b, ka, kb);
        size_t oa = o[ka], ob = o[kb];
        if (ka < w.ma[j].size()) oa += a % (o[ka+1] - o[ka]);
        if (kb < w.ma[j].size()) ob += b % (o[kb+1] - o[kb]);
        w.a[i]->append(S8::const_iterator(w.a[j]->native_cbegin() + oa), S8::const_iterator(w.a[j]->native_cbegin() + ob));
        add(w.ma[i], w.ma[j], ka, kb);
        return kb > ka;
      }
    case 7: { // clusters of a string (itself too)
        if (w.ma[i].size() > MAX) return false;
        auto e = w.a[j]->grapheme_end(), f = w.a[j]->grapheme_begin(), t = f;
        std::vector<size_t> g = ucd::grapheme_starts(w.ma[j]);
        size_t n = w.ma[j].empty() ? 0 : g.size() - 1, ga = a % (n + 1), gb = ga + b % (n - ga + 1);
        for (size_t k = 0; k < ga && f != e; k++) f++;
        t = w.a[j]->grapheme_begin();
        for (size_t k = 0; k < gb && t != e; k++) ++t;
        w.a[i]->append(f, t);
        if (n) add(w.ma[i], w.ma[j], g[ga], g[gb]);
        return gb > ga;
      }
    case 8: { // converted UTF-32
        if (w.ma[i].size() > MAX) return false;
        range(w.mb[j], a, b, ka, kb);
        S8& r = w.a[i]->append_from_utf32ne<S32>(w.b[j]->codepoint_cbegin() + ka, w.b[j]->codepoint_cbegin() + kb);
        check(x, &r == w.a[i].get(), "append_from_utf32ne does not return its object");
        add(w.ma[i], w.mb[j], ka, kb);
        return kb > ka;
      }
    case 9: { // UTF-32 to UTF-32, itself too
        if (w.mb[i].size() > MAX) return false;
        range(w.mb[j], a, b, ka, kb);
        if (a & 1) w.b[i]->append_from_utf32ne<S32>(w.b[j]->codepoint_cbegin() + ka, w.b[j]->codepoint_cbegin() + kb);
        else w.b[i]->append(w.b[j]->codepoint_cbegin() + ka, w.b[j]->codepoint_cbegin() + kb);
        add(w.mb[i], w.mb[j], ka, kb);
        return kb > ka;
      }
    case 10: { // from a UTF-8 view
        if (w.ma[i].size() > MAX) return false;
        if (i == j) { // of the string itself
          range(w.ma[i], a, b, ka, kb);
          std::vector<size_t> o = offsets8(w.ma[i]);
          V8 own(sview(w.a[i]->native_string));
          w.a[i]->append<sview>(V8::const_iterator(own.native_cbegin() + o[ka]), V8::const_iterator(own.native_cbegin() + o[kb]));
          add(w.ma[i], w.ma[i], ka, kb);
          return kb > ka;
        }
        V8& v = w.va[j % 2];
        const Text& m = w.r8[w.of8[j % 2]];
        range(m, a, b, ka, kb);
        std::vector<size_t> o = offsets8(m);
        w.a[i]->append<sview>(V8::const_iterator(v.native_cbegin() + o[ka]), V8::const_iterator(v.native_cbegin() + o[kb]));
        add(w.ma[i], m, ka, kb);
        return kb > ka;
      }
    case 11: { // from a UTF-32 view
        V32& v = w.vb[j % 2];
        const Text& m = w.r32[w.of32[j % 2]];
        range(m, a, b, ka, kb);
        if (a & 1) {
          if (w.mb[i].size() > MAX) return false;
          w.b[i]->append<iview>(v.codepoint_cbegin() + ka, v.codepoint_cbegin() + kb);
          add(w.mb[i], m, ka, kb);
        } else {
          if (w.ma[i].size() > MAX) return false;
          w.a[i]->append_from_utf32ne<V32>(v.codepoint_cbegin() + ka, v.codepoint_cbegin() + kb);
          add(w.ma[i], m, ka, kb);
        }
        return kb > ka;
      }
    case 12: { // write through the iterator, same encoded length
        Text& m = w.ma[i];
        if (m.empty()) return false;
        size_t k = a % m.size();
        std::vector<size_t> o = offsets8(m);
        int n = o[k+1] - o[k], v = n == 1 ? 0x20 + b % 0x5F : n == 2 ? 0x80 + b % 0x780 : n == 3 ? 0x800 + b % 0xC000 : 0x10000 + b * 257;
        S8::iterator it = w.a[i]->codepoint_begin();
        for (size_t s = 0; s < k; s++) ++it;
        *it = u5e::codepoint(v);
        m[k] = v;
        return true;
      }
    case 13: { // UTF-32 codepoints are assignable
        if (w.mb[i].empty()) return false;
        size_t k = a % w.mb[i].size();
        *(w.b[i]->codepoint_begin() + k) = 'A' + b % 26;
        w.mb[i][k] = 'A' + b % 26;
        return true;
      }
    case 14: { // the storage of a view changes in place
        int k = w.of8[i % 2];
        if (w.r8[k].empty()) return false;
        std::vector<size_t> o = offsets8(w.r8[k]);
        size_t q = a % w.r8[k].size();
        if (o[q+1] - o[q] != 1) return false;
        w.raw8[k][o[q]] = 'a' + b % 26;
        w.r8[k][q] = 'a' + b % 26;
        return true;
      }
    case 15: { int k = w.of32[i % 2]; if (w.r32[k].empty()) return false; size_t q = a % w.r32[k].size(); w.raw32[k][q] = w.r32[k][q] = 0x1F600 + b % 50; return true; }
    case 16: { if (a & 1) { w.va[i % 2] = w.va[j % 2]; w.of8[i % 2] = w.of8[j % 2]; } else { V32 v(w.vb[j % 2]); w.vb[i % 2] = v; w.of32[i % 2] = w.of32[j % 2]; } return i % 2 != j % 2; }
    case 17: { if (i == j) return false; std::swap(*w.a[i], *w.a[j]); w.ma[i].swap(w.ma[j]); return true; }
    case 18: { // move out of one, give it something new
        Text t = piece(a, b);
        S8 tmp(std::move(*w.a[j]));
        *w.a[j] = S8(ucd::encode(t));
        *w.a[i] = std::move(tmp);
        Text old = w.ma[j];
        w.ma[j] = t;
        w.ma[i] = old;
        return true;
      }
    case 19: { // in a container that grows
        std::vector<S8> v;
        std::vector<Text> m;
        for (int k = 0; k < 3 + a % 4; k++) { v.push_back(*w.a[k % 3]); m.push_back(w.ma[k % 3]); }
        std::reverse(v.begin(), v.end());
        std::reverse(m.begin(), m.end());
        v.erase(v.begin());
        m.erase(m.begin());
        for (size_t k = 0; k < v.size(); k++) same(x, v[k].native_string, ucd::encode(m[k]), "a string in a vector");
        *w.a[i] = v[b % v.size()];
        w.ma[i] = m[b % v.size()];
        return true;
      }
    case 20: { // positions in one text stay while others change
        if (i == j) return false;
        auto it = w.a[j]->grapheme_begin();
        auto cp = w.a[j]->codepoint_cbegin();
        Text m = w.ma[j];
        std::vector<size_t> g = ucd::grapheme_starts(m);
        size_t n = m.empty() ? 0 : g.size() - 1, k = n ? a % n : 0;
        for (size_t q = 0; q < k; q++) { it++; }
        Text t = piece(b, a);
        *w.a[i] = S8(ucd::encode(t));
        w.ma[i] = t;
        if (n) {
          auto gr = *it;
          same(x, read_all(x, gr.codepoint_begin(), gr.codepoint_end(), m.size() + 1, "cluster"), Text(m.begin() + g[k], m.begin() + g[k+1]), "a cluster kept while another text changed");
          int v = *cp;
          check(x, v == m[0], "a position kept while another text changed");
        }
        return true;
      }
    case 21: { // normalized into another, and into UTF-32
        if (w.ma[i].size() > MAX || w.mb[i].size() > MAX || w.ma[j].size() > 600) return false;
        ucd::Form f = ucd::Form(a % 3);
        Text n = ucd::normalize(w.ma[j], f);
        if (b & 1) {
          if (i == j) return false;
          int k = norm(f, *w.a[j], *w.a[i]);
          check(x, k == int(n.size()), "codepoints counted");
          add(w.ma[i], n, 0, n.size());
        } else {
          int k = norm(f, *w.a[j], *w.b[i]);
          check(x, k == int(n.size()), "codepoints counted");
          add(w.mb[i], n, 0, n.size());
        }
        return !n.empty();
      }
    case 22: { // UTF-32 normalized into either
        if (w.ma[i].size() > MAX || w.mb[i].size() > MAX || w.mb[j].size() > 600) return false;
        ucd::Form f = ucd::Form(a % 3);
        Text n = ucd::normalize(w.mb[j], f);
        if (b & 1) {
          if (i == j) return false;
          norm(f, *w.b[j], *w.b[i]);
          add(w.mb[i], n, 0, n.size());
        } else {
          norm(f, *w.b[j], *w.a[i]);
          add(w.ma[i], n, 0, n.size());
        }
        return !n.empty();
      }
    default: { // codepoint by codepoint
        if (w.mb[i].size() > MAX) return false;
        int n = u5e::filter(w.a[j]->codepoint_cbegin(), w.a[j]->codepoint_cend(), *w.b[i], codepoint_op);
        check(x, n == int(w.ma[j].size()), "codepoints counted");
        add(w.mb[i], w.ma[j], 0, w.ma[j].size());
        return !w.ma[j].empty();
      }
    }
  }
};
PROPERTY(P)
