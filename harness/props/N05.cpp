#include "../norm.hpp"

struct P : Property {
  const char* id() const { return "N05"; }
  const char* rule() const {
    return "a text and a list of rewriting steps (decompose, decompose partly, compose an unblocked pair, swap adjacent marks of "
           "different classes, expand a compatibility character); the forms before and after rewriting are compared, and the "
           "laws between forms checked; non-trivial: the steps changed the text, or two of its forms differ";
  }
  int big() { return 5000; }
  std::vector<FieldSpec> fields() const { return { { "text", SCALARS }, { "steps", INTS } }; }
  uint64_t enum_count(bool) { return gen::scalars_count(); }
  const char* enum_what(bool) { return "every scalar value between two marks"; }
  void enum_case(uint64_t i, Case& c) {
    c[0] = { 0x301, gen::nth_scalar(i), 0x323, 0x308 };
    // decompose, swap, compose
    for (int k : { 0, 1, 2, 3, 4, 5, 6, 7 }) { c[1].push_back(k == 0 ? 0 : k < 4 ? 3 : k < 6 ? 2 : 0); c[1].push_back(k); }
  }
  void gen(Source& s, Case& c) {
    gen::text(s, c[0], s.weighted({ 3, 10, 2 }));
    for (int i = 0, n = s.range(1, 12); i < n; i++) { c[1].push_back(s.below(5)); c[1].push_back(s.below(1 << 16)); }
  }
  // One canonical step on t; false if there is nothing to do.
  static bool canonical_step(Text& t, int op, size_t at) {
    size_t n = t.size();
    for (size_t k = 0; k < n; k++) {
      size_t i = (at + k) % n;
      switch (op) {
      case 0: case 1: { // decompose, wholly or one level
          if (!ucd::has_canonical(t[i])) break;
          Text d;
          ucd::canonical_full(t[i], d);
          if (op == 1 && d.size() > 2) { // put the front back together as far as it goes
            int z;
            Text f = d;
            for (size_t j = 1; j + 1 < f.size(); ) { if (ucd::compose(f[j-1], f[j], &z)) { f[j-1] = z; f.erase(f.begin() + j); } else j++; }
            d = f;
          }
          t.erase(t.begin() + i);
          t.insert(t.begin() + i, d.begin(), d.end());
          return true;
        }
      case 2: { // compose an unblocked pair
          if (ucd::ccc(t[i]) != 0) break;
          int last = -1, z;
          for (size_t j = i + 1; j < n; j++) {
            int k2 = ucd::ccc(t[j]);
            // D115: blocked by a starter or by a class not less
            bool blocked = last >= 0 && (last == 0 || last >= k2);
            if (!blocked && ucd::compose(t[i], t[j], &z)) { t[i] = z; t.erase(t.begin() + j); return true; }
            last = std::max(last, k2);
            if (k2 == 0) break;
          }
          break;
        }
      default: // swap marks
        if (i + 1 < n && ucd::ccc(t[i]) && ucd::ccc(t[i+1]) && ucd::ccc(t[i]) != ucd::ccc(t[i+1])) { std::swap(t[i], t[i+1]); return true; }
      }
    }
    return false;
  }
  static bool compat_step(Text& t, size_t at) {
    for (size_t k = 0, n = t.size(); k < n; k++) {
      size_t i = (at + k) % n;
      if (!ucd::has_compat(t[i])) continue;
      Text d;
      ucd::compat_full(t[i], d);
      t.erase(t.begin() + i);
      t.insert(t.begin() + i, d.begin(), d.end());
      return true;
    }
    return false;
  }
  template <class S> static S form(int f, const S& in) { S o, i(in.native_string); norm(f, i, o); return o; }
  template <class S> void eq(Ctx& x, const S& got, const S& want, const char* what, const Text& t, const Text& u) {
    x.checks++;
    if (got.native_string != want.native_string) {
      Text g = text_of32(got), w = text_of32(want);
      x.fail("%s:\n  text %s\n  rewritten %s\n  got  %s\n  want %s", what, show(t).c_str(), show(u).c_str(), show(g).c_str(), show(w).c_str());
    }
  }
  static Text text_of32(const S32& s) { return text_of(s.native_string); }
  static Text text_of32(const S8& s) { Text r; for (unsigned char ch : s.native_string) r.push_back(ch); return r; }

  template <class S> void laws(Ctx& x, const Text& t, const Text& u, const Text& v, bool kc, S (*make)(const Text&)) {
    using namespace ucd;
    S s = make(t);
    S d = form(FORM_D, s), c = form(FORM_C, s), kd = form(FORM_KD, s);
    if (u != t) {
      S su = make(u);
      eq(x, form(FORM_D, su), d, "form D of a canonically equivalent text", t, u);
      eq(x, form(FORM_C, su), c, "form C of a canonically equivalent text", t, u);
      eq(x, form(FORM_KD, su), kd, "form KD of a canonically equivalent text", t, u);
    }
    if (v != t) eq(x, form(FORM_KD, make(v)), kd, "form KD of a compatibility equivalent text", t, v);
    eq(x, form(FORM_D, d), d, "form D twice", t, t);
    eq(x, form(FORM_C, c), c, "form C twice", t, t);
    eq(x, form(FORM_KD, kd), kd, "form KD twice", t, t);
    eq(x, form(FORM_C, d), c, "form C after D", t, t);
    eq(x, form(FORM_D, c), d, "form D after C", t, t);
    eq(x, form(FORM_KD, d), kd, "form KD after D", t, t);
    eq(x, form(FORM_KD, c), kd, "form KD after C", t, t);
    eq(x, form(FORM_D, kd), kd, "form D after KD", t, t);
    if (kc) {
      S k = form(FORM_KC, s);
      eq(x, form(FORM_KC, k), k, "form KC twice", t, t);
      eq(x, form(FORM_KC, d), k, "form KC after D", t, t);
      eq(x, form(FORM_KC, c), k, "form KC after C", t, t);
      eq(x, form(FORM_KC, kd), k, "form KC after KD", t, t);
      eq(x, form(FORM_C, kd), k, "form C after KD", t, t);
      eq(x, form(FORM_KD, k), kd, "form KD after KC", t, t);
    }
    if (!(d.native_string == c.native_string && c.native_string == kd.native_string)) x.nontrivial();
  }
  static S8 make8(const Text& t) { return S8(ucd::encode(t)); }
  static S32 make32(const Text& t) { return s32(t); }
  void run(const Case& c, Ctx& x) {
    const Text& t = c[0];
    Text u = t, v;
    
    for (size_t i = 0; i + 1 < c[1].size() && !u.empty() && u.size() < 4000; i += 2) {
      int op = c[1][i] % 5;
      static const char* const names[] = { "decompose", "decompose partly", "compose", "swap", "expand" };
      if (op < 4 && canonical_step(u, op, c[1][i+1])) { x.label(names[op]); }
    }
    v = u;
    for (size_t i = 0; i + 1 < c[1].size() && !v.empty() && v.size() < 4000; i += 2)
      if (c[1][i] % 5 == 4 && compat_step(v, c[1][i+1])) x.label("expand");
    // the rewriting itself, against the model
    if (ucd::normalize(u, ucd::FORM_D) != ucd::normalize(t, ucd::FORM_D) || ucd::normalize(v, ucd::FORM_KD) != ucd::normalize(t, ucd::FORM_KD)) {
      fprintf(stderr, "the check rewrote %s wrongly to %s and %s\n", show(t).c_str(), show(u).c_str(), show(v).c_str());
      _exit(3);
    }
    if (u != t || v != t) x.nontrivial();
    bool kc = true;
    if (x.excluded("kc-across-graphemes"))
      for (const Text& w : { t, ucd::normalize(t, ucd::FORM_D), ucd::normalize(t, ucd::FORM_C), ucd::normalize(t, ucd::FORM_KD), ucd::normalize(t, ucd::FORM_KC) })
        if (kc_across_graphemes(w)) kc = false;
    if (!kc) x.label("needs composition across clusters");
    laws<S8>(x, t, u, v, kc, make8);
    laws<S32>(x, t, u, v, kc, make32);
  }
};
PROPERTY(P)
