// Shared pieces of the property programs. Uses only u5e's public interface.
#ifndef VERIF_COMMON_HPP
#define VERIF_COMMON_HPP
#include "pbt.hpp"
#include "ucd.hpp"
#include "gen.hpp"
#include <cstring>
#include <cstdio>
#include <cstdlib>
#include <string>
#include <vector>
#include <iterator>
#include <experimental/string_view>
#include <sys/mman.h>
#include <unistd.h>
#include <u5e/utf8_string.hpp>
#include <u5e/utf8_string_view.hpp>
#include <u5e/utf32ne_string.hpp>
#include <u5e/utf32ne_string_view.hpp>
#include <u5e/utf8_string_grapheme.hpp>
#include <u5e/utf8_string_grapheme_iterator.hpp>
#include <u5e/utf8_string_view_grapheme.hpp>
#include <u5e/utf8_string_view_grapheme_iterator.hpp>
#include <u5e/utf32ne_string_grapheme.hpp>
#include <u5e/utf32ne_string_grapheme_iterator.hpp>
#include <u5e/utf32ne_string_view_grapheme.hpp>
#include <u5e/utf32ne_string_view_grapheme_iterator.hpp>

using namespace pbt;
typedef ucd::Text Text;
typedef u5e::utf8_string S8;
typedef u5e::utf8_string_view V8;
typedef u5e::utf32ne_string S32;
typedef u5e::utf32ne_string_view V32;
typedef std::experimental::string_view sview;
typedef std::experimental::basic_string_view<int> iview;
typedef std::basic_string<int> istring;

inline S32 s32(const Text& t) { return S32(istring(t.begin(), t.end())); }
inline V32 v32(const Text& t) { return V32(iview(t.data(), t.size())); }
inline V8 v8(const std::string& s) { return V8(sview(s.data(), s.size())); }
inline Text text_of(const istring& s) { return Text(s.begin(), s.end()); }

// Memory between two inaccessible pages: reading or writing one octet too far
// on either side is a crash.
class Guarded {
  char* base;
  size_t cap;
public:
  explicit Guarded(size_t n) {
    size_t pg = 4096;
    cap = (n + pg - 1) / pg * pg;
    base = (char*)mmap(0, cap + 2 * pg, PROT_NONE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
    if (base == (char*)MAP_FAILED || mprotect(base + pg, cap, PROT_READ | PROT_WRITE)) { perror("mmap"); exit(3); }
    base += pg;
  }
  bool fits(size_t n) const { return n <= cap; }
  char* first() { return base; }
  char* last(size_t n) { return base + cap - n; }         // the last n octets
  // Places octets right before the guard page, "before" in front of them.
  char* right(const std::string& s, const std::string& before = "") {
    char* p = last(s.size());
    size_t room = p - base, k = std::min(room, before.size());
    memcpy(p - k, before.data() + before.size() - k, k);
    memcpy(p, s.data(), s.size());
    return p;
  }
  char* left(const std::string& s, const std::string& after = "") {
    memcpy(base, s.data(), s.size());
    size_t k = std::min(cap - s.size(), after.size());
    memcpy(base + s.size(), after.data(), k);
    return base;
  }
};
inline Guarded& guard(int i = 0) {
  static Guarded g0(1 << 19), g1(1 << 19);
  return i ? g1 : g0;
}

// Units that do not lie side by side: every other element of an array, with
// misleading ones in between. What is not reached through the iterator itself
// is not the text.
template <class T, class Ref = T&> class Apart {
public:
  T* p;
  typedef typename std::remove_const<T>::type value_type;
  typedef Ref reference;
  typedef T* pointer;
  typedef std::ptrdiff_t difference_type;
  typedef std::random_access_iterator_tag iterator_category;
  explicit Apart(T* q = 0) : p(q) {}
  Ref operator*() const { return *p; }
  T* operator->() const { return p; }
  Ref operator[](difference_type n) const { return p[2 * n]; }
  Apart& operator++() { p += 2; return *this; }
  Apart& operator--() { p -= 2; return *this; }
  Apart operator++(int) { Apart c(*this); p += 2; return c; }
  Apart operator--(int) { Apart c(*this); p -= 2; return c; }
  Apart& operator+=(difference_type n) { p += 2 * n; return *this; }
  Apart& operator-=(difference_type n) { p -= 2 * n; return *this; }
  friend Apart operator+(Apart a, difference_type n) { return a += n; }
  friend Apart operator+(difference_type n, Apart a) { return a += n; }
  friend Apart operator-(Apart a, difference_type n) { return a -= n; }
  friend difference_type operator-(const Apart& a, const Apart& b) { return (a.p - b.p) / 2; }
  friend bool operator==(const Apart& a, const Apart& b) { return a.p == b.p; }
  friend bool operator!=(const Apart& a, const Apart& b) { return a.p != b.p; }
  friend bool operator<(const Apart& a, const Apart& b) { return a.p < b.p; }
  friend bool operator>(const Apart& a, const Apart& b) { return a.p > b.p; }
  friend bool operator<=(const Apart& a, const Apart& b) { return a.p <= b.p; }
  friend bool operator>=(const Apart& a, const Apart& b) { return a.p >= b.p; }
};
template <class T> class Scattered {
  std::vector<T> v;
public:
  typedef Apart<T> iterator;
  typedef Apart<const T> const_iterator;
  typedef T* pointer;
  typedef const T* const_pointer;
  typedef T value_type;
  typedef T& reference;
  typedef const T& const_reference;
  typedef size_t size_type;
  typedef std::ptrdiff_t difference_type;
  typedef std::reverse_iterator<iterator> reverse_iterator;
  typedef std::reverse_iterator<const_iterator> const_reverse_iterator;
  size_t size() const { return v.size() / 2 - 2; }
  size_t length() const { return size(); }
  bool empty() const { return size() == 0; }
  T& operator[](size_t i) { return v[2 * i + 1]; }
  const T& operator[](size_t i) const { return v[2 * i + 1]; }
  T& front() { return v[1]; }
  T& back() { return (*this)[size() - 1]; }
  const T& front() const { return v[1]; }
  const T& back() const { return (*this)[size() - 1]; }
  reverse_iterator rbegin() { return reverse_iterator(end()); }
  reverse_iterator rend() { return reverse_iterator(begin()); }
  template <class C> explicit Scattered(const C& c) : v(2 * c.size() + 4) {
    static const T between[] = { T(0x80), T(0xFF), T('a'), T(0xCC), T(0x301) };
    size_t i = 1;
    v[0] = 'a';
    for (auto x : c) { v[i++] = x; v[i] = between[i / 2 % 5]; i++; }
    v[i] = 0;                   // what lies after the end
  }
  iterator begin() { return iterator(v.data() + 1); }
  iterator end() { return iterator(v.data() + v.size() - 3); }
  const_iterator cbegin() const { return const_iterator(v.data() + 1); }
  const_iterator cend() const { return const_iterator(v.data() + v.size() - 3); }
  const_iterator begin() const { return cbegin(); }
  const_iterator end() const { return cend(); }
  std::basic_string<T> content() const { return std::basic_string<T>(cbegin(), cend()); }
  bool between_kept(const Scattered& o) const {
    if (v.size() != o.v.size()) return false;
    for (size_t i = 0; i < v.size(); i += 2) if (v[i] != o.v[i]) return false;
    return v[v.size() - 3] == o.v[v.size() - 3];
  }
};
typedef Scattered<char> Sc8;
typedef u5e::basic_encodedstring<u5e::utf8, Sc8> D8;
typedef u5e::basic_encodedstring<u5e::utf32ne, Scattered<int>> D32;

// Strings of another type than std::string: with an allocator of their own.
template <class T> struct Alloc : std::allocator<T> {
  template <class U> struct rebind { typedef Alloc<U> other; };
  Alloc() {}
  template <class U> Alloc(const Alloc<U>&) {}
};
typedef std::basic_string<char, std::char_traits<char>, Alloc<char>> astring8;
typedef std::basic_string<int, std::char_traits<int>, Alloc<int>> astring32;
typedef u5e::basic_encodedstring<u5e::utf8, astring8> A8;
typedef u5e::basic_encodedstring<u5e::utf32ne, astring32> A32;

// Start offsets of the codepoints of t in UTF-8, and the total at the end.
inline std::vector<size_t> offsets8(const Text& t) {
  std::vector<size_t> r;
  size_t at = 0;
  for (int c : t) {
    r.push_back(at);
    at += c < 0x80 ? 1 : c < 0x800 ? 2 : c < 0x10000 ? 3 : 4;
  }
  r.push_back(at);
  return r;
}
inline std::vector<size_t> offsets32(const Text& t) {
  std::vector<size_t> r;
  for (size_t i = 0; i <= t.size(); i++) r.push_back(i);
  return r;
}
// Index of the codepoint containing each native offset.
inline std::vector<size_t> owner(const std::vector<size_t>& off) {
  std::vector<size_t> r(off.back());
  for (size_t k = 0; k + 1 < off.size(); k++)
    for (size_t i = off[k]; i < off[k+1]; i++) r[i] = k;
  return r;
}

// Reads codepoints between two positions; fails when they are more than max.
template <class It>
Text read_all(Ctx& x, It b, It e, size_t max, const char* what) {
  Text r;
  while (b != e) {
    if (r.size() >= max) x.fail("%s: more than %zu codepoints", what, max);
    r.push_back(*b);
    ++b;
  }
  return r;
}
inline void same(Ctx& x, const Text& got, const Text& want, const char* what) {
  x.checks++;
  if (got != want)
    x.fail("%s:\n  got  %s\n  want %s", what, show(got).c_str(), show(want).c_str());
}
inline void same(Ctx& x, const std::string& got, const std::string& want, const char* what) {
  x.checks++;
  if (got != want)
    x.fail("%s:\n  got  %s\n  want %s", what, show_octets(got).c_str(), show_octets(want).c_str());
}
inline void check(Ctx& x, bool ok, const char* what) {
  x.checks++;
  if (!ok) x.fail("%s", what);
}
inline int at_or(const Field& f, size_t i, int dflt) { return i < f.size() ? f[i] : dflt; }
inline bool mixed_lengths(const Text& t) {
  int seen = 0;
  for (int c : t) seen |= c < 0x80 ? 1 : c < 0x800 ? 2 : c < 0x10000 ? 4 : 8;
  return seen & (seen - 1);
}
inline void label_size(Ctx& x, size_t n) {
  x.label(n == 0 ? "length 0" : n <= 4 ? "length 1-4" : n <= 24 ? "length 5-24" : n <= 200 ? "length 25-200" : "length >200");
}

#define PROPERTY(P) pbt::Property* pbt::make_property() { return new P; }
#endif
