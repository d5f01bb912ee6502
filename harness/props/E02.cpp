#include "../norm.hpp"
#include <deque>
#include <iterator>

// Encodings and storages of the user's own, plugged into the library. They
// offer what the ones of the library offer, and complete iterators.
namespace mine {
// Codec: static int units(const It&)  units of the codepoint that begins there
//        static int read(It)          its value
//        static bool inner(unit)      not the first unit of a codepoint (or fixed width)
template <class It, class Codec> class Pos {
public:
  It raw;
  typedef u5e::codepoint value_type;
  typedef const u5e::codepoint reference;
  typedef const u5e::codepoint* pointer;
  typedef std::ptrdiff_t difference_type;
  typedef std::bidirectional_iterator_tag iterator_category;
  Pos() : raw() {}
  Pos(It r) : raw(r) {}
  const u5e::codepoint operator*() const { return u5e::codepoint(Codec::read(raw)); }
  Pos& operator++() { Codec::forward(raw); return *this; }
  Pos& operator--() { Codec::back(raw); return *this; }
  Pos operator++(int) { Pos c(*this); Codec::forward(raw); return c; }
  Pos operator--(int) { Pos c(*this); Codec::back(raw); return c; }
  bool operator==(const Pos& o) const { return raw == o.raw; }
  bool operator!=(const Pos& o) const { return !(raw == o.raw); }
};
template <class Codec> struct Encoding {
  template <class N> using iterator = Pos<typename N::iterator, Codec>;
  template <class N> using const_iterator = Pos<typename N::const_iterator, Codec>;
  template <class N> static typename N::const_iterator native_const_iterator(Pos<typename N::const_iterator, Codec> i) { return i.raw; }
  template <class In, class Out> static void append_from_utf32ne(In first, In last, Out& out) {
    for (; first != last; ++first) Codec::write(int(*first), out);
  }
};
struct Utf16 {
  template <class It> static int read(It i) {
    int a = *i;
    if (a < 0xD800 || a > 0xDBFF) return a;
    ++i;
    return 0x10000 + ((a - 0xD800) << 10) + (int(*i) - 0xDC00);
  }
  template <class It> static void forward(It& i) { int a = *i; ++i; if (a >= 0xD800 && a <= 0xDBFF) ++i; }
  template <class It> static void back(It& i) { --i; if (*i >= 0xDC00 && *i <= 0xDFFF) --i; }
  template <class Out> static void write(int c, Out& o) {
    char16_t b[2] = { char16_t(c), 0 };
    if (c >= 0x10000) { b[0] = char16_t(0xD800 + ((c - 0x10000) >> 10)); b[1] = char16_t(0xDC00 + (c & 0x3FF)); }
    o.append(b, b + (c >= 0x10000 ? 2 : 1));
  }
};
struct Utf32be {               // four octets each
  template <class It> static int read(It i) { unsigned v = 0; for (int k = 0; k < 4; k++, ++i) v = v << 8 | (unsigned char)*i; return int(v); }
  template <class It> static void forward(It& i) { for (int k = 0; k < 4; k++) ++i; }
  template <class It> static void back(It& i) { for (int k = 0; k < 4; k++) --i; }
  template <class Out> static void write(int c, Out& o) { char b[4] = { char(c >> 24), char(c >> 16), char(c >> 8), char(c) }; o.append(b, b + 4); }
};
int page[256];                 // what each octet means
struct Page {
  template <class It> static int read(It i) { return page[(unsigned char)*i]; }
  template <class It> static void forward(It& i) { ++i; }
  template <class It> static void back(It& i) { --i; }
  template <class Out> static void write(int c, Out& o) {
    char b = '?';
    for (int k = 0; k < 256; k++) if (page[k] == c) { b = char(k); break; }
    o.append(&b, &b + 1);
  }
};
// In pieces, not side by side. A zero lies after the end (the octet there is
// looked at, see known_findings.txt).
template <class T> class Rope {
  std::deque<T> d;
public:
  typedef T value_type;
  typedef T* pointer;
  typedef const T* const_pointer;
  typedef typename std::deque<T>::iterator iterator;
  typedef typename std::deque<T>::const_iterator const_iterator;
  typedef size_t size_type;
  typedef std::ptrdiff_t difference_type;
  Rope() : d(1) {}
  template <class C> explicit Rope(const C& c) : d(c.begin(), c.end()) { d.push_back(T()); }
  iterator begin() { return d.begin(); }
  iterator end() { return d.end() - 1; }
  const_iterator begin() const { return d.begin(); }
  const_iterator end() const { return d.end() - 1; }
  const_iterator cbegin() const { return begin(); }
  const_iterator cend() const { return end(); }
  size_t size() const { return d.size() - 1; }
  bool empty() const { return size() == 0; }
  void clear() { d.assign(1, T()); }
  void push_back(T c) { d.back() = c; d.push_back(T()); }
  void reserve(size_t) {}
  template <class It> Rope& append(It a, It b) { std::vector<T> v(a, b); d.insert(end(), v.begin(), v.end()); return *this; }
  Rope& append(const T* p, size_t n) { d.insert(end(), p, p + n); return *this; }
  Rope& append(size_t n, T c) { d.insert(end(), n, c); return *this; }
  // and what else strings have
  typedef T& reference;
  typedef const T& const_reference;
  typedef std::reverse_iterator<iterator> reverse_iterator;
  typedef std::reverse_iterator<const_iterator> const_reverse_iterator;
  template <class C> Rope& append(const C& c) { return append(c.begin(), c.end()); }
  template <class C> Rope& operator+=(const C& c) { return append(c); }
  Rope& operator+=(T c) { push_back(c); return *this; }
  template <class It> Rope& assign(It a, It b) { std::vector<T> v(a, b); clear(); return append(v.begin(), v.end()); }
  template <class It> iterator insert(const_iterator w, It a, It b) { std::vector<T> v(a, b); return d.insert(w, v.begin(), v.end()); }
  iterator insert(const_iterator w, T c) { return d.insert(w, c); }
  iterator erase(const_iterator a, const_iterator b) { return d.erase(a, b); }
  iterator erase(const_iterator a) { return d.erase(a); }
  void resize(size_t n, T c = T()) { d.pop_back(); d.resize(n, c); d.push_back(T()); }
  void pop_back() { d.pop_back(); d.back() = T(); }
  T& operator[](size_t i) { return d[i]; }
  const T& operator[](size_t i) const { return d[i]; }
  T& front() { return d.front(); }
  T& back() { return d[size() - 1]; }
  const T& front() const { return d.front(); }
  const T& back() const { return d[size() - 1]; }
  size_t length() const { return size(); }
  size_t capacity() const { return size(); }
  size_t max_size() const { return d.max_size(); }
  void shrink_to_fit() {}
  void swap(Rope& o) { d.swap(o.d); }
  reverse_iterator rbegin() { return reverse_iterator(end()); }
  reverse_iterator rend() { return reverse_iterator(begin()); }
  const_reverse_iterator crbegin() const { return const_reverse_iterator(end()); }
  const_reverse_iterator crend() const { return const_reverse_iterator(begin()); }
  bool operator==(const Rope& o) const { return d == o.d; }
  bool operator!=(const Rope& o) const { return d != o.d; }
};
}
typedef u5e::basic_encodedstring<mine::Encoding<mine::Utf16>, std::u16string> T16;
typedef u5e::basic_encodedstring<mine::Encoding<mine::Utf16>, std::experimental::u16string_view> W16;
typedef u5e::basic_encodedstring<mine::Encoding<mine::Utf32be>, std::string> TBE;
typedef u5e::basic_encodedstring<mine::Encoding<mine::Page>, std::string> TP;
typedef u5e::basic_encodedstring<mine::Encoding<mine::Page>, std::vector<char>> TPV;
typedef u5e::basic_encodedstring<u5e::utf8, mine::Rope<char>> R8;
typedef u5e::basic_encodedstring<u5e::utf32ne, mine::Rope<int>> R32;
typedef u5e::basic_encodedstring<mine::Encoding<mine::Utf16>, mine::Rope<char16_t>> R16;

static std::u16string encode16(const Text& t) { std::u16string s; for (int c : t) mine::Utf16::write(c, s); return s; }
static std::string encode_be(const Text& t) { std::string s; for (int c : t) mine::Utf32be::write(c, s); return s; }
static std::string encode_page(const Text& t) { std::string s; for (int c : t) mine::Page::write(c, s); return s; }

struct P : Property {
  const char* id() const { return "E02"; }
  const char* rule() const {
    return "a text in encodings of the user's own (native UTF-16, UTF-32 of big-endian octets, one octet for each of 256 codepoints of the case) and in "
           "storages of the user's own (in pieces; a vector): codepoints, clusters, positions, comparisons, appended parts and the four forms into every "
           "kind of text, against the model; non-trivial: a codepoint of several units, and a form that changes the text";
  }
  int big() { return 3000; }
  std::vector<FieldSpec> fields() const { return { { "text", SCALARS }, { "offsets", INTS } }; }
  uint64_t enum_count(bool thorough) { return gen::sweep_count(50) + gen::ClassWalk(gen::gcb_representatives(), thorough ? 4 : 2).total; }
  const char* enum_what(bool t) { return t ? "every scalar value, in texts of 50 of them; every sequence of up to 4 break classes" : "every scalar value, in texts of 50 of them; every sequence of up to 2 break classes"; }
  void enum_case(uint64_t i, Case& c) {
    if (i < gen::sweep_count(50)) gen::sweep(i, c[0], 50);
    else gen::ClassWalk(gen::gcb_representatives(), 4).make(i - gen::sweep_count(50), c[0]);
    c[1] = { int(i * 7919 & 0xFFFF), int(i * 104729 & 0xFFFF), 3, 1 };
  }
  void gen(Source& s, Case& c) {
    gen::text(s, c[0]);
    for (int i = 0; i < 4; i++) c[1].push_back(s.below(1 << 16));
  }
  Text plain(const S8& s) { return decode(s.native_string.begin(), s.native_string.end()); }
  Text plain(const S32& s) { return text_of(s.native_string); }
  Text plain(const R8& s) { return decode(s.native_string.begin(), s.native_string.end()); }
  Text plain(const R32& s) { return Text(s.native_string.begin(), s.native_string.end()); }
  Text plain(const T16& s) { return decode16(s.native_string.begin(), s.native_string.end()); }
  Text plain(const R16& s) { return decode16(s.native_string.begin(), s.native_string.end()); }
  Text plain(const TBE& s) { Text r; for (auto i = s.native_string.begin(); i != s.native_string.end(); i += 4) r.push_back(mine::Utf32be::read(i)); return r; }
  template <class It> static Text decode16(It b, It e) { Text r; while (b != e) { r.push_back(mine::Utf16::read(b)); mine::Utf16::forward(b); } return r; }
  // what we encoded, back: any octets that are not that make something else
  template <class It> static Text decode(It b, It e) {
    Text r;
    while (b != e) {
      unsigned char a = *b++;
      int n = ucd::seq_length(a), v = n == 1 ? a : a & (0x7F >> n);
      while (--n > 0 && b != e) v = v << 6 | (*b++ & 0x3F);
      r.push_back(v);
    }
    return r;
  }
  template <int F, class S, class O> void into(Ctx& x, S& s, const Text& t, const char* what) {
    Text want = ucd::normalize(t, ucd::Form(F));
    O o;
    int n = norm<F>(s, o);
    Text got = plain(o);
    if (F == ucd::FORM_KC && got != want) {      // N04 has this one, see known_findings.txt
      Text by = ucd::normalize_by_grapheme(t, ucd::FORM_KC);
      if (got == by) want = by;
    }
    x.checks += 2;
    if (got != want || n != int(want.size()))
      x.fail("form %s of %s (%s):\n  got  %s (%d)\n  want %s", ucd::form_names[F], show(t).c_str(), what, show(got).c_str(), n, show(want).c_str());
  }
  template <class S, class O> void forms(Ctx& x, S& s, const Text& t, const char* what) {
    into<ucd::FORM_D, S, O>(x, s, t, what);
    into<ucd::FORM_C, S, O>(x, s, t, what);
    into<ucd::FORM_KD, S, O>(x, s, t, what);
    into<ucd::FORM_KC, S, O>(x, s, t, what);
  }
  // off: the native offset of each codepoint, and the end's
  template <class S> void text(Ctx& x, S& s, const Text& t, const std::vector<size_t>& off, const Field& at, bool any_offset, const char* what) {
    typedef typename S::const_iterator I;
    typedef u5e::basic_grapheme_iterator<S> G;
    same(x, read_all(x, s.codepoint_cbegin(), s.codepoint_cend(), t.size(), what), t, what);
    same(x, read_all(x, s.codepoint_begin(), s.codepoint_end(), t.size(), what), t, what);
    std::vector<size_t> g = ucd::grapheme_starts(t);
    size_t k = 0;
    auto e = s.grapheme_end();
    for (auto i = s.grapheme_begin(); i != e; ++i, k++) {
      if (k + 1 >= g.size()) x.fail("%s: more than %zu clusters of %s", what, g.size() - 1, show(t).c_str());
      auto c = *i;
      same(x, read_all(x, c.codepoint_begin(), c.codepoint_end(), t.size(), what), Text(t.begin() + g[k], t.begin() + g[k + 1]), what);
      if (k == t.size()) break;
    }
    x.checks++;
    if (!t.empty() && k + 1 != g.size()) x.fail("%s: %zu clusters of %s", what, k, show(t).c_str());
    if (t.empty()) return;
    std::vector<G> built;
    std::vector<size_t> of;
    for (size_t n = 0; n < at.size() && n < 4; n++) {
      size_t q = at[n] % t.size(), o = off[q];
      if (any_offset) o += at[n] / 7 % (off[q + 1] - off[q]);
      size_t c = 0;
      while (g[c + 1] <= q) c++;
      G p(s.codepoint_cbegin(), s.codepoint_cend(), I(s.native_cbegin() + o));
      auto cl = *p;
      same(x, read_all(x, cl.codepoint_begin(), cl.codepoint_end(), t.size(), what), Text(t.begin() + g[c], t.begin() + g[c + 1]), what);
      built.push_back(p);
      of.push_back(c);
      x.checks++;
      if (!(p == I(s.native_cbegin() + o)) || p == s.grapheme_end()) x.fail("%s: a position at %zu of %s compares wrongly", what, o, show(t).c_str());
    }
    for (size_t a = 0; a < built.size(); a++) for (size_t b = 0; b < built.size(); b++) {
      x.checks++;
      if ((built[a] == built[b]) != (of[a] == of[b])) x.fail("%s: positions in clusters %zu and %zu of %s compare wrongly", what, of[a], of[b], show(t).c_str());
    }
  }
  // appending parts, to a text of the same encoding
  template <class S, class D, class Native> void parts(Ctx& x, S& s, const Text& t, const std::vector<size_t>& off, const Field& at, const char* what) {
    typedef typename S::const_iterator I;
    size_t a = at_or(at, 0, 0) % (t.size() + 1), b = at_or(at, 1, 0) % (t.size() + 1);
    if (a > b) std::swap(a, b);
    D d;
    d.template append<Native>(I(s.native_cbegin() + off[a]), I(s.native_cbegin() + off[b]));
    d.template append<Native>(s.codepoint_cbegin(), I(s.native_cbegin() + off[a]));
    Text want(t.begin() + a, t.begin() + b);
    want.insert(want.end(), t.begin(), t.begin() + a);
    same(x, plain(d), want, what);
    std::vector<size_t> g = ucd::grapheme_starts(t);
    size_t n = t.empty() ? 0 : g.size() - 1, ga = at_or(at, 2, 0) % (n + 1), gb = at_or(at, 3, 0) % (n + 1);
    if (ga > gb) std::swap(ga, gb);
    auto p = s.grapheme_begin(), q = s.grapheme_begin();
    for (size_t k = 0; k < ga; k++) ++p;
    for (size_t k = 0; k < gb; k++) q++;
    D f;
    f.template append<Native>(p, q);
    same(x, plain(f), n ? Text(t.begin() + g[ga], t.begin() + g[gb]) : Text(), what);
  }
  template <class D, class S> void converted(Ctx& x, S& s, size_t a, size_t b, const Text& want, const char* what) {
    D d;
    typedef typename S::const_iterator I;
    d.template append_from_utf32ne<mine::Rope<int>>(I(s.native_cbegin() + a), I(s.native_cbegin() + b));
    same(x, plain(d), want, what);
  }
  void run(const Case& c, Ctx& x) {
    const Text& t = c[0];
    const Field& at = c[1];
    bool wide = false;
    for (int v : t) wide |= v > 0xFFFF;
    if (wide && ucd::normalize(t, ucd::FORM_KD) != t) x.nontrivial();
    label_size(x, t.size());
    std::vector<size_t> o16, o4, o1 = offsets32(t), o8 = offsets8(t);
    size_t n = 0;
    for (int v : t) { o16.push_back(n); n += v > 0xFFFF ? 2 : 1; }
    o16.push_back(n);
    for (size_t i = 0; i <= t.size(); i++) o4.push_back(4 * i);
    {
      T16 s(encode16(t));
      text(x, s, t, o16, at, false, "UTF-16 string");
      parts<T16, T16, std::u16string>(x, s, t, o16, at, "UTF-16 appended");
      parts<T16, R16, std::u16string>(x, s, t, o16, at, "UTF-16 appended to pieces");
      forms<T16, T16>(x, s, t, "UTF-16 to UTF-16");
      forms<T16, S8>(x, s, t, "UTF-16 to UTF-8");
      forms<T16, S32>(x, s, t, "UTF-16 to UTF-32");
    }
    {
      std::u16string u = encode16(t);
      W16 s{ std::experimental::u16string_view(u) };
      text(x, s, t, o16, at, false, "UTF-16 view");
      parts<W16, T16, std::experimental::u16string_view>(x, s, t, o16, at, "UTF-16 appended from a view");
      forms<W16, T16>(x, s, t, "UTF-16 view to UTF-16");
    }
    {
      TBE s(encode_be(t));
      text(x, s, t, o4, at, false, "big-endian UTF-32");
      parts<TBE, TBE, std::string>(x, s, t, o4, at, "big-endian UTF-32 appended");
      forms<TBE, TBE>(x, s, t, "big-endian UTF-32 to itself");
      forms<TBE, R8>(x, s, t, "big-endian UTF-32 to UTF-8 in pieces");
    }
    {
      R8 s{ mine::Rope<char>(ucd::encode(t)) };
      text(x, s, t, o8, at, true, "UTF-8 in pieces");
      parts<R8, R8, mine::Rope<char>>(x, s, t, o8, at, "UTF-8 in pieces appended");
      parts<R8, S8, mine::Rope<char>>(x, s, t, o8, at, "UTF-8 in pieces appended to a string");
      forms<R8, R8>(x, s, t, "UTF-8 in pieces to itself");
      forms<R8, T16>(x, s, t, "UTF-8 in pieces to UTF-16");
    }
    {
      R32 s{ mine::Rope<int>(t) };
      text(x, s, t, o1, at, true, "UTF-32 in pieces");
      parts<R32, R32, mine::Rope<int>>(x, s, t, o1, at, "UTF-32 in pieces appended");
      forms<R32, R32>(x, s, t, "UTF-32 in pieces to itself");
      forms<R32, R16>(x, s, t, "UTF-32 in pieces to UTF-16 in pieces");
    }
    {
      S8 s(ucd::encode(t));
      forms<S8, T16>(x, s, t, "UTF-8 to UTF-16");
      forms<S8, TBE>(x, s, t, "UTF-8 to big-endian UTF-32");
      S32 u = s32(t);
      forms<S32, T16>(x, u, t, "UTF-32 to UTF-16");
      T16 o;
      o.append_from_utf32ne<istring>(u.codepoint_cbegin(), u.codepoint_cend());
      same(x, plain(o), t, "UTF-32 converted to UTF-16");
    }
    // converted from pieces
    {
      R32 s{ mine::Rope<int>(t) };
      size_t a = at_or(at, 0, 0) % (t.size() + 1), b = at_or(at, 1, 0) % (t.size() + 1);
      if (at_or(at, 3, 0) & 1) { a = 0; b = t.size(); }
      if (a > b) std::swap(a, b);
      Text want(t.begin() + a, t.begin() + b);
      converted<S32>(x, s, a, b, want, "UTF-32 in pieces converted to UTF-32");
      converted<R32>(x, s, a, b, want, "UTF-32 in pieces converted to itself");
      converted<S8>(x, s, a, b, want, "UTF-32 in pieces converted to UTF-8");
      converted<R8>(x, s, a, b, want, "UTF-32 in pieces converted to UTF-8 in pieces");
      converted<T16>(x, s, a, b, want, "UTF-32 in pieces converted to UTF-16");
    }
    // the first codepoints of the text make the page
    Text seen, in;
    std::fill(mine::page, mine::page + 256, 0x10FFFF);
    for (int v : t) {
      if (std::find(seen.begin(), seen.end(), v) == seen.end()) {
        if (seen.size() == 255) continue;
        mine::page[255 - seen.size()] = v;
        seen.push_back(v);
      }
      in.push_back(v);
    }
    o1 = offsets32(in);
    {
      TP s(encode_page(in));
      text(x, s, in, o1, at, true, "one octet each");
      forms<TP, S8>(x, s, in, "one octet each to UTF-8");
      forms<TP, T16>(x, s, in, "one octet each to UTF-16");
    }
    {
      std::string e = encode_page(in);
      TPV s(std::vector<char>(e.begin(), e.end()));
      text(x, s, in, o1, at, true, "one octet each in a vector");
      forms<TPV, S32>(x, s, in, "one octet each in a vector to UTF-32");
    }
  }
};
PROPERTY(P)
