#include "../norm.hpp"
#include <u5e/canonical_decomposition.hpp>
#include <u5e/compatibility_and_canonical_decomposition.hpp>
#include <u5e/codepoint_decomposition.hpp>
#include <u5e/canonical_composition.hpp>
#include <u5e/utf8_bounds.hpp>
#include <cstdarg>
#include <new>

// The library calls what the user gave it (an operation, a resolver, an
// encoding, a storage, the allocator), and that calls the library again, on
// another text.
namespace again {
struct Inner {
  Text t, want[4], kc;
  std::string octets;
  std::vector<size_t> starts, off;
};
const Inner* inner;
bool armed, failed;
int depth, limit, period, countdown, kind, calls;
char message[400];
void bad(const char* fmt, ...) {
  if (failed) return;
  failed = true;
  va_list a;
  va_start(a, fmt);
  vsnprintf(message, sizeof message, fmt, a);
  va_end(a);
}
inline void poke();
// A storage of the user's own
template <class N> struct Storage : N {
  Storage() {}
  Storage(const N& n) : N(n) {}
  template <class It> Storage& append(It a, It b) { poke(); N::append(a, b); poke(); return *this; }
  Storage& append(const typename N::value_type* p, size_t n) { poke(); N::append(p, n); poke(); return *this; }
  Storage& append(size_t n, typename N::value_type c) { poke(); N::append(n, c); return *this; }
};
typedef u5e::basic_encodedstring<u5e::utf8, Storage<std::string>> H8;
typedef u5e::basic_encodedstring<u5e::utf32ne, Storage<istring>> H32;
Text read(S8& s);
Text read(S32& s);
Text read(H32& s);
Text read(H8& s);
template <int F, class S, class O> void form(S& s, const char* what) {
  const Inner& w = *inner;
  O o;
  int n = norm<F>(s, o);
  Text got = read(o);
  if (got == w.want[F] ? n != int(w.want[F].size()) : F != ucd::FORM_KC || got != w.kc || n != int(w.kc.size()))
    bad("form %s of the inner text, %s, is wrong (%d)", ucd::form_names[F], what, n);
}
Text read(S8& s) { Text r; for (auto i = s.codepoint_cbegin(); i != s.codepoint_cend() && r.size() < 4000; ++i) r.push_back(*i); return r; }
Text read(S32& s) { return text_of(s.native_string); }
Text read(H32& s) { return text_of(s.native_string); }
Text read(H8& s) { S8 o(s.native_string); return read(o); }
template <class S> void clusters(S& s, const std::vector<size_t>& off) {
  const Inner& w = *inner;
  size_t k = 0;
  auto e = s.grapheme_end();
  for (auto g = s.grapheme_begin(); g != e; ++g, k++) {
    if (k + 1 >= w.starts.size()) break;
    auto c = *g;
    if (!(c.codepoint_begin() == typename S::const_iterator(s.native_cbegin() + off[w.starts[k]])) || (w.starts[k + 1] < w.t.size() && !(c.codepoint_end() == typename S::const_iterator(s.native_cbegin() + off[w.starts[k + 1]]))))
      bad("cluster %zu of the inner text is wrong", k);
  }
  if (k + 1 != w.starts.size() && !w.t.empty()) bad("%zu clusters of the inner text", k);
}
void act(int what) {
  const Inner& w = *inner;
  switch (what) {
  case 0: { S8 s(w.octets); form<ucd::FORM_C, S8, S8>(s, "UTF-8"); break; }
  case 1: { S32 s = s32(w.t); form<ucd::FORM_D, S32, S8>(s, "UTF-32 to UTF-8"); break; }
  case 2: { S8 s(w.octets); form<ucd::FORM_KC, S8, S32>(s, "UTF-8 to UTF-32"); break; }
  case 3: { S32 s = s32(w.t); form<ucd::FORM_KD, S32, S32>(s, "UTF-32"); break; }
  case 4: { S8 s(w.octets); clusters(s, w.off); break; }
  case 5: { S32 s = s32(w.t); std::vector<size_t> o; for (size_t i = 0; i <= w.t.size(); i++) o.push_back(i); clusters(s, o); break; }
  case 6:
    for (size_t i = 0; i < w.t.size(); i++) {
      if (u5e::props::canonical_combining_class::resolve(w.t[i]) != ucd::ccc(w.t[i])) bad("the class of U+%04X is wrong", w.t[i]);
      S32 o;
      u5e::canonical_decomposition(u5e::codepoint(w.t[i]), o);
      if (text_of(o.native_string) != ucd::normalize({ w.t[i] }, ucd::FORM_D)) bad("the decomposition of U+%04X is wrong", w.t[i]);
    }
    break;
  case 7: {
    S32 s = s32(w.t);
    S8 d;
    d.append_from_utf32ne<istring>(s.codepoint_cbegin(), s.codepoint_cend());
    S8 e;
    e.append(d.codepoint_cbegin(), d.codepoint_cend());
    if (e.native_string != w.octets) bad("the inner text is converted wrongly");
    if (!u5e::utf8_bounds<std::string::iterator>::check(e.native_begin(), e.native_end()) || !u5e::utf8_bounds<std::string::iterator>::enforce(e.native_begin(), e.native_end())) bad("the bounds of the inner text");
    break;
  }
  case 8: { // positions from the end, one after the other
    S8 s(w.octets);
    size_t k = w.t.size();
    for (auto i = s.codepoint_cend(); k > 0;) { --i; k--; if (int(*i) != w.t[k]) { bad("codepoint %zu of the inner text is wrong", k); break; } }
    for (size_t q = 0; q < w.t.size(); q += 3) {
      u5e::basic_grapheme_iterator<S8> g(s.codepoint_cbegin(), s.codepoint_cend(), S8::const_iterator(s.native_cbegin() + w.off[q]));
      size_t c = 0;
      while (w.starts[c + 1] <= q) c++;
      if (!((*g).codepoint_begin() == S8::const_iterator(s.native_cbegin() + w.off[w.starts[c]]))) bad("a position in the inner text is wrong");
    }
    break;
  }
  case 9: { S8 s(w.octets); form<ucd::FORM_D, S8, H8>(s, "UTF-8 into a user's storage"); form<ucd::FORM_C, S8, H8>(s, "UTF-8 into a user's storage"); break; }
  case 10: { S32 s = s32(w.t); form<ucd::FORM_KC, S32, H32>(s, "UTF-32 into a user's storage"); form<ucd::FORM_KD, S32, H32>(s, "UTF-32 into a user's storage"); break; }
  case 11: { S32 s = s32(w.t); form<ucd::FORM_D, S32, H32>(s, "UTF-32 into a user's storage"); form<ucd::FORM_C, S32, H8>(s, "UTF-32 into a user's UTF-8 storage"); break; }
  case 12: {
    for (size_t i = 0; i < w.t.size(); i++) {
      H32 o;
      u5e::canonical_decomposition(u5e::codepoint(w.t[i]), o);
      if (text_of(o.native_string) != ucd::normalize({ w.t[i] }, ucd::FORM_D)) bad("the decomposition of U+%04X into a user's storage is wrong", w.t[i]);
    }
    S32 s = s32(w.t);
    H8 d;
    d.append_from_utf32ne<istring>(s.codepoint_cbegin(), s.codepoint_cend());
    if (d.native_string != w.octets) bad("the inner text is converted wrongly into a user's storage");
    break;
  }
  default: {
    S32 s = s32(w.want[ucd::FORM_D]);
    int n = 0;
    auto e = u5e::canonical_composition(s, &n);
    if (Text(s.codepoint_begin(), e) != w.want[ucd::FORM_C]) bad("the inner text composes wrongly");
    break;
  }
  }
}
const int KINDS = 14;
inline void poke() {
  if (!armed || depth >= limit || failed) return;
  if (--countdown > 0) return;
  countdown = period;
  depth++;
  calls++;
  act((kind + calls) % KINDS);
  depth--;
}
struct Armed {
  Armed() { countdown = 1; armed = true; }
  ~Armed() { armed = false; }
};

// An encoding of the user's own around one of the library's
template <class It, class Raw> class Pos {
public:
  It base;
  typedef u5e::codepoint value_type;
  typedef const u5e::codepoint reference;
  typedef const u5e::codepoint* pointer;
  typedef std::ptrdiff_t difference_type;
  typedef std::bidirectional_iterator_tag iterator_category;
  Pos(Raw r) : base(r) {}
  const u5e::codepoint operator*() const { poke(); It c(base); u5e::codepoint v = *c; poke(); return v; }
  Pos& operator++() { poke(); ++base; return *this; }
  Pos& operator--() { poke(); --base; return *this; }
  Pos operator++(int) { Pos c(*this); ++*this; return c; }
  Pos operator--(int) { Pos c(*this); --*this; return c; }
  bool operator==(const Pos& o) const { poke(); return base == o.base; }
  bool operator!=(const Pos& o) const { return !(*this == o); }
};
template <class Base> struct Encoding {
  template <class N> using const_iterator = Pos<typename Base::template const_iterator<N>, typename N::const_iterator>;
  template <class N> using iterator = Pos<typename Base::template iterator<N>, typename N::iterator>;
  template <class N> static typename N::const_iterator native_const_iterator(const_iterator<N> i) { poke(); return Base::template native_const_iterator<N>(i.base); }
  template <class In, class Out> static void append_from_utf32ne(In first, In last, Out& out) {
    for (; first != last; ++first) {
      poke();
      In next = first;
      ++next;
      Base::append_from_utf32ne(first, next, out);
    }
    poke();
  }
};
typedef u5e::basic_encodedstring<Encoding<u5e::utf8>, std::string> E8;
typedef u5e::basic_encodedstring<Encoding<u5e::utf32ne>, istring> E32;
int operation(u5e::codepoint c, Text& out) { poke(); out.push_back(c); poke(); return 1; }
template <class G> int cluster(G g, Text& out) {
  poke();
  int n = 0;
  for (auto i = g.codepoint_begin(); i != g.codepoint_end(); ++i, n++) out.push_back(int(*i));
  poke();
  return n;
}
const int* resolver(int c) { poke(); const int* r = u5e::props::canonical_decomposition_mapping::resolve(c); poke(); return r; }
void* get(size_t n) { poke(); return malloc(n ? n : 1); }
}
void* operator new(size_t n) { void* p = again::get(n); if (!p) throw std::bad_alloc(); return p; }
void* operator new[](size_t n) { void* p = again::get(n); if (!p) throw std::bad_alloc(); return p; }
void* operator new(size_t n, const std::nothrow_t&) noexcept { return again::get(n); }
void* operator new[](size_t n, const std::nothrow_t&) noexcept { return again::get(n); }
void operator delete(void* p) noexcept { again::poke(); free(p); }
void operator delete[](void* p) noexcept { again::poke(); free(p); }
void operator delete(void* p, size_t) noexcept { again::poke(); free(p); }
void operator delete[](void* p, size_t) noexcept { again::poke(); free(p); }
void operator delete(void* p, const std::nothrow_t&) noexcept { free(p); }
void operator delete[](void* p, const std::nothrow_t&) noexcept { free(p); }

struct P : Property {
  const char* id() const { return "T02"; }
  const char* rule() const {
    return "a text, and another one worked on (forms, clusters, positions, lookups, conversion, composition) from within: by the operation given to a filter, a "
           "resolver, a user's encoding and its positions, a user's storage, and the allocator, every so many calls, up to two levels deep; both the "
           "inner and the outer results must be the model's; non-trivial: the forms change either text, and there were inner calls";
  }
  int big() { return 300; }
  std::vector<FieldSpec> fields() const { return { { "text", SCALARS }, { "inner", SCALARS }, { "options", INTS } }; }
  std::vector<int> alphabet() { return { 'a', 0x301, 0x323, 0xE9, 0xAC01, 0xFB03, 0x1F1E6, 0x1F466 }; }
  uint64_t enum_count(bool thorough) { return gen::ClassWalk(alphabet(), thorough ? 4 : 3).total * again::KINDS; }
  const char* enum_what(bool t) { return t ? "every sequence of up to 4 of eight codepoints, with each kind of inner call first" : "every sequence of up to 3 of eight codepoints, with each kind of inner call first"; }
  void enum_case(uint64_t i, Case& c) {
    gen::ClassWalk(alphabet(), 4).make(i / again::KINDS, c[0]);
    c[1] = { 'o', 0x307, 0x31B, 0x212B, 0x1100, 0x1161, 0xD7A3, 0x2460 };
    c[2] = { 1 + int(i % 3), int(i % again::KINDS), int(i & 1) };
  }
  void gen(Source& s, Case& c) {
    gen::text(s, c[0], s.weighted({ 2, 4 }));
    gen::text(s, c[1], s.weighted({ 3, 2 }));
    c[2] = { int(s.chance(1, 3) ? 1 : s.range(1, 40)), s.range(0, again::KINDS - 1), s.range(0, 1) };
  }
  void settle(Ctx& x, const char* what, const Text& t) {
    x.checks++;
    if (again::failed) x.fail("%s, called from within %s of %s", again::message, what, show(t).c_str());
  }
  static Text plain(const std::string& s) { S8 o(s); return again::read(o); }
  static Text plain(const istring& s) { return text_of(s); }
  template <int F, class In, class Out> void form(Ctx& x, In& in, const Text& t, const Text& before, Out o, const char* what) {
    int n;
    { again::Armed armed; n = norm<F>(in, o); }
    settle(x, ucd::form_names[F], t);
    Text got = plain(o.native_string), want = ucd::normalize(t, ucd::Form(F));
    if (F == ucd::FORM_KC && n != int(want.size())) want = ucd::normalize_by_grapheme(t, ucd::FORM_KC);      // N04 has this one
    else if (F == ucd::FORM_KC && got.size() == before.size() + want.size() && Text(got.begin() + before.size(), got.end()) != want) want = ucd::normalize_by_grapheme(t, ucd::FORM_KC);
    x.checks++;
    Text all(before);
    all.insert(all.end(), want.begin(), want.end());
    if (got != all || n != int(want.size()))
      x.fail("form %s of %s (%s), with calls from within:\n  got  %s (%d)\n  want %s", ucd::form_names[F], show(t).c_str(), what, show(got).c_str(), n, show(all).c_str());
  }
  template <class In, class Out> void forms(Ctx& x, In& in, const Text& t, const char* what) {
    Out o;
    form<ucd::FORM_D>(x, in, t, Text(), o, what);
    form<ucd::FORM_C>(x, in, t, Text(), o, what);
    form<ucd::FORM_KD>(x, in, t, Text(), o, what);
    form<ucd::FORM_KC>(x, in, t, Text(), o, what);
  }
  // segmentation, positions, parts
  template <class S, class D> void text(Ctx& x, S& s, const Text& t, const std::vector<size_t>& g, const char* what) {
    std::vector<Text> got;
    Text cps;
    {
      again::Armed armed;
      auto e = s.grapheme_end();
      for (auto i = s.grapheme_begin(); i != e && got.size() <= t.size(); ++i) {
        auto c = *i;
        Text one;
        for (auto q = c.codepoint_begin(); q != c.codepoint_end() && one.size() <= t.size(); ++q) one.push_back(int(*q));
        got.push_back(one);
      }
      for (auto q = s.codepoint_cbegin(); q != s.codepoint_cend() && cps.size() <= t.size(); q++) cps.push_back(int(*q));
    }
    settle(x, what, t);
    x.checks += 2;
    if (cps != t) x.fail("%s, with calls from within: codepoints %s of %s", what, show(cps).c_str(), show(t).c_str());
    for (size_t k = 0; k + 1 < g.size() && !t.empty(); k++)
      if (got.size() != g.size() - 1 || got[k] != Text(t.begin() + g[k], t.begin() + g[k + 1])) x.fail("%s, with calls from within: cluster %zu of %s", what, k, show(t).c_str());
    Text sum;
    int n;
    {
      again::Armed armed;
      n = u5e::filter(s.codepoint_cbegin(), s.codepoint_cend(), sum, again::operation);
      n += u5e::filter(s.grapheme_begin(), s.grapheme_end(), sum, again::cluster<u5e::basic_grapheme<S>>);
    }
    settle(x, "a filter", t);
    Text twice(t);
    twice.insert(twice.end(), t.begin(), t.end());
    x.checks++;
    if (sum != twice || n != int(twice.size())) x.fail("%s: filters with calls from within give %s (%d)", what, show(sum).c_str(), n);
    D d;
    {
      again::Armed armed;
      d.append(s.codepoint_cbegin(), s.codepoint_cend());
      auto a = s.grapheme_begin(), b = s.grapheme_end();
      d.append(a, b);
    }
    settle(x, "append", t);
    same(x, plain(d.native_string), twice, what);
  }
  void run(const Case& c, Ctx& x) {
    const Text& t = c[0];
    again::Inner w;
    w.t = c[1];
    if (w.t.size() > 60) w.t.resize(60);
    w.octets = ucd::encode(w.t);
    for (int f = 0; f < 4; f++) w.want[f] = ucd::normalize(w.t, ucd::Form(f));
    w.kc = ucd::normalize_by_grapheme(w.t, ucd::FORM_KC);
    w.starts = ucd::grapheme_starts(w.t);
    w.off = offsets8(w.t);
    again::inner = &w;
    again::armed = again::failed = false;
    again::depth = again::calls = 0;
    static bool warm = false;
    if (!warm) {                // tables that are made when first needed are there
      warm = true;
      for (int k = 0; k < again::KINDS; k++) again::act(k);
      settle(x, "nothing", t);
    }
    again::period = std::max<int>(1, at_or(c[2], 0, 1) % 1000) + int(t.size()) * int(w.t.size() + 4) / 40;
    again::kind = at_or(c[2], 1, 0) % again::KINDS;
    again::limit = 1 + at_or(c[2], 2, 0) % 2;
    std::vector<size_t> g = ucd::grapheme_starts(t);
    label_size(x, t.size());
    std::string s8 = ucd::encode(t);
    { S8 s(s8); text<S8, S8>(x, s, t, g, "UTF-8"); forms<S8, again::H8>(x, s, t, "UTF-8 into a user's storage"); forms<S8, S32>(x, s, t, "UTF-8 to UTF-32"); }
    { S32 s = s32(t); text<S32, S32>(x, s, t, g, "UTF-32"); forms<S32, again::H32>(x, s, t, "UTF-32 into a user's storage"); forms<S32, again::H8>(x, s, t, "UTF-32 into a user's UTF-8 storage"); forms<S32, again::E8>(x, s, t, "UTF-32 into a user's encoding"); }
    { again::E8 s(s8); text<again::E8, again::E8>(x, s, t, g, "a user's encoding"); forms<again::E8, S8>(x, s, t, "a user's encoding"); }
    { again::E32 s(s32(t).native_string); text<again::E32, again::E32>(x, s, t, g, "a user's encoding of one unit"); forms<again::E32, again::E32>(x, s, t, "a user's encoding of one unit"); }
    for (size_t i = 0; i < t.size() && i < 12; i++) {
      again::H32 o;
      int n;
      { again::Armed armed; n = u5e::codepoint_decomposition(u5e::codepoint(t[i]), o, again::resolver); }
      settle(x, "a decomposition", t);
      Text want = ucd::normalize({ t[i] }, ucd::FORM_D);
      x.checks++;
      if (n != int(want.size()) || text_of(o.native_string) != want) x.fail("decomposing U+%04X with calls from within gives %s (%d)", t[i], show(text_of(o.native_string)).c_str(), n);
    }
    if (again::calls > 2 && (ucd::normalize(t, ucd::FORM_KD) != t || w.want[ucd::FORM_KD] != w.t)) x.nontrivial();
  }
};
PROPERTY(P)
