#include "../norm.hpp"
#include <u5e/canonical_composition.hpp>
#include <u5e/utf8_bounds.hpp>
#include <cstddef>
#include <new>
#include <pthread.h>

// How much memory the library asks for.
namespace heap {
size_t live, peak, calls;
inline void* get(size_t n) {
  char* p = (char*)malloc(n + 16);
  if (!p) return 0;
  *(size_t*)p = n;
  live += n;
  calls++;
  if (live > peak) peak = live;
  return p + 16;
}
inline void put(void* p) {
  if (!p) return;
  char* q = (char*)p - 16;
  live -= *(size_t*)q;
  free(q);
}
}
void* operator new(size_t n) { void* p = heap::get(n); if (!p) throw std::bad_alloc(); return p; }
void* operator new[](size_t n) { void* p = heap::get(n); if (!p) throw std::bad_alloc(); return p; }
void* operator new(size_t n, const std::nothrow_t&) noexcept { return heap::get(n); }
void* operator new[](size_t n, const std::nothrow_t&) noexcept { return heap::get(n); }
void operator delete(void* p) noexcept { heap::put(p); }
void operator delete[](void* p) noexcept { heap::put(p); }
void operator delete(void* p, size_t) noexcept { heap::put(p); }
void operator delete[](void* p, size_t) noexcept { heap::put(p); }
void operator delete(void* p, const std::nothrow_t&) noexcept { heap::put(p); }
void operator delete[](void* p, const std::nothrow_t&) noexcept { heap::put(p); }

namespace {
// A stack of its own, of which it can be said afterwards how much was used.
class Stack {
  static const size_t SIZE = 512 << 10;
  char* base;
  void (*f)(void*);
  void* arg;
  static void* enter(void* p) { Stack* s = (Stack*)p; s->f(s->arg); return 0; }
public:
  Stack() {
    base = (char*)mmap(0, SIZE + 4096, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
    if (base == (char*)MAP_FAILED || mprotect(base, 4096, PROT_NONE)) { perror("mmap"); exit(3); }
    base += 4096;
  }
  // octets used, from the place where f was called on
  size_t use(void (*g)(void*), void* a) {
    madvise(base, SIZE, MADV_DONTNEED);
    f = g;
    arg = a;
    pthread_attr_t at;
    pthread_attr_init(&at);
    pthread_attr_setstack(&at, base, SIZE);
    pthread_t t;
    if (pthread_create(&t, &at, enter, this)) { perror("thread"); exit(3); }
    pthread_join(t, 0);
    const uint64_t* w = (const uint64_t*)base;
    size_t i = 0;
    while (i < SIZE / 8 && !w[i]) i++;
    return SIZE - i * 8;
  }
};
// An output that keeps nothing.
template <class T> class Nothing {
public:
  typedef T value_type;
  typedef T* pointer;
  typedef const T* const_pointer;
  typedef T& reference;
  typedef const T& const_reference;
  typedef T* iterator;
  typedef const T* const_iterator;
  typedef std::reverse_iterator<iterator> reverse_iterator;
  typedef std::reverse_iterator<const_iterator> const_reverse_iterator;
  typedef size_t size_type;
  typedef std::ptrdiff_t difference_type;
  size_t n = 0;
  uint64_t h = 0;
  T none = T();
  iterator begin() { return &none; }
  iterator end() { return &none; }
  const_iterator cbegin() const { return &none; }
  const_iterator cend() const { return &none; }
  const_iterator begin() const { return &none; }
  const_iterator end() const { return &none; }
  size_t size() const { return n; }
  size_t length() const { return n; }
  size_t capacity() const { return n; }
  size_t max_size() const { return size_t(1) << 60; }
  bool empty() const { return !n; }
  void clear() { n = 0; }
  void reserve(size_t) {}
  void push_back(T c) { n++; h = h * 31 + uint32_t(c); }
  template <class It> Nothing& append(It a, It b) { for (; a != b; ++a) push_back(*a); return *this; }
  Nothing& append(const T* p, size_t k) { return append(p, p + k); }
  Nothing& append(size_t k, T c) { while (k--) push_back(c); return *this; }
  template <class C> Nothing& append(const C& c) { return append(c.begin(), c.end()); }
  template <class C> Nothing& operator+=(const C& c) { return append(c); }
  Nothing& operator+=(T c) { push_back(c); return *this; }
  template <class It> iterator insert(const_iterator, It a, It b) { append(a, b); return &none; }
};
typedef u5e::basic_encodedstring<u5e::utf8, Nothing<char>> O8;
typedef u5e::basic_encodedstring<u5e::utf32ne, Nothing<int>> O32;
int pass(u5e::codepoint c, uint64_t& s) { s = s * 31 + uint32_t(int(c)); return 1; }

const int OPS = 12;
const char* const names[OPS] = { "iterating", "segmentation", "positions", "appending", "conversion", "a filter", "bounds", "form D", "form C", "form KD", "form KC", "lookups" };
struct Job { V8* a; V32* b; std::string* octets; Text* t; int op; uint64_t result; size_t before, peak, after; };
template <class S> uint64_t segment(S& s) { uint64_t r = 0; auto e = s.grapheme_end(); for (auto g = s.grapheme_begin(); g != e; ++g) { auto c = *g; r = r * 31 + uint32_t(int(*c.codepoint_begin())); } return r; }
template <class S> uint64_t walk(S& s) {
  uint64_t r = 0;
  for (auto i = s.codepoint_cbegin(), e = s.codepoint_cend(); i != e; ++i) { auto j = i; r = r * 31 + uint32_t(int(*j)); }
  for (auto i = s.codepoint_cend(), b = s.codepoint_cbegin(); i != b;) { --i; auto j = i; r = r * 31 + uint32_t(int(*j)); }
  return r;
}
template <class S> uint64_t positions(S& s, size_t n) {
  uint64_t r = 0;
  for (size_t k = 1; k <= 4; k++) {
    u5e::basic_grapheme_iterator<S> g(s.codepoint_cbegin(), s.codepoint_cend(), typename S::const_iterator(s.native_cbegin() + n / 4 * k));
    r = r * 31 + (g == s.grapheme_end()) + (g != s.grapheme_begin());
  }
  return r;
}
template <class S, class O> uint64_t appended(S& s) {
  O o;
  o.append(s.codepoint_cbegin(), s.codepoint_cend());
  return o.native_string.h;
}
template <int F> uint64_t form(Job& j) {
  O8 o;
  O32 p;
  int n = norm<F>(*j.a, o);
  return o.native_string.h + 7 * norm<F>(*j.b, p) + p.native_string.h * 3 + n;
}
void work(void* p) {
  Job& j = *(Job*)p;
  uint64_t r = 0;
  j.before = heap::peak = heap::live;
  switch (j.op) {
  case 0: r = walk(*j.a) + walk(*j.b); break;
  case 1: r = segment(*j.a) + segment(*j.b); break;
  case 2: r = positions(*j.a, j.octets->size()) + positions(*j.b, j.t->size()); break;
  case 3: {
    O8 o;
    o.append<sview>(j.a->codepoint_cbegin(), j.a->codepoint_cend());
    O32 q;
    q.append<iview>(j.b->codepoint_cbegin(), j.b->codepoint_cend());
    auto g = j.a->grapheme_begin(), e = j.a->grapheme_end();
    auto g2 = j.b->grapheme_begin(), e2 = j.b->grapheme_end();
    o.append<sview>(g, e);
    q.append<iview>(g2, e2);
    r = o.native_string.h + q.native_string.h;
    break;
  }
  case 4: { O8 o; o.append_from_utf32ne<iview>(j.b->codepoint_cbegin(), j.b->codepoint_cend()); O32 q; q.append_from_utf32ne<iview>(j.b->codepoint_cbegin(), j.b->codepoint_cend()); r = o.native_string.h + q.native_string.h; break; }
  case 5: r = u5e::filter(j.a->codepoint_cbegin(), j.a->codepoint_cend(), r, pass) + r; break;
  case 6: r = u5e::utf8_bounds<const char*>::check(j.octets->data(), j.octets->data() + j.octets->size()) + 2 * u5e::utf8_bounds<char*>::enforce(&(*j.octets)[0], &(*j.octets)[0] + j.octets->size()); break;
  case 7: r = form<ucd::FORM_D>(j); break;
  case 8: r = form<ucd::FORM_C>(j); break;
  case 9: r = form<ucd::FORM_KD>(j); break;
  case 10: r = form<ucd::FORM_KC>(j); break;
  case 11:
    for (int c : *j.t) {
      O32 o;
      r += u5e::canonical_decomposition(u5e::codepoint(c), o) + u5e::props::canonical_combining_class::resolve(c) * 3 + int(u5e::props::grapheme_cluster_break::resolve(c)) * 7;
    }
    break;
  }
  j.result = r;
  j.peak = heap::peak - j.before;
  j.after = heap::live - j.before;
}
void nothing(void*) {}
}

struct P : Property {
  const char* id() const { return "L02"; }
  const char* rule() const {
    return "a text and the same one repeated, each put through every kind of operation on a stack of its own, with outputs that keep nothing, all allocations counted: no more heap "
           "than a fixed multiple of the longest cluster's decomposition (none at all kept afterwards, over a whole history of texts), no deeper stack for the longer text; non-trivial: over 500 codepoints, decomposing ones among them";
  }
  int big() { return 20000; }
  std::vector<FieldSpec> fields() const { return { { "text", SCALARS }, { "repeat", INTS } }; }
  static std::vector<Text> pieces() {
    return { { 0x301 }, { 0x301, 0x323 }, { 'a', 0x301, 0x323 }, { 'a' }, { 0x1F1E6 }, { 0x1100 }, { 0x1161 }, { 0xAC00 }, { 0xAC01 }, { 0x1F466, 0x1F3FB }, { 0x1F466, 0x200D, 0x2764, 0x200D },
             { 0x600 }, { '\r', '\n' }, { 0x344 }, { 0xFDFA }, { 0x1E69 }, { 0x338, 0x3D }, { 0x1F1E6, 0x301 }, { 'e', 0x302, 0x323, 0x301 } };
  }
  uint64_t enum_count(bool thorough) { return pieces().size() * 3 + gen::ClassWalk(gen::gcb_representatives(), thorough ? 3 : 2).total; }
  const char* enum_what(bool t) { return t ? "19 pieces repeated to 3,000, 30,000 and 120,000 codepoints; every sequence of up to 3 break classes, repeated" : "19 pieces repeated to 3,000, 30,000 and 120,000 codepoints; every sequence of up to 2 break classes, repeated"; }
  void enum_case(uint64_t i, Case& c) {
    std::vector<Text> p = pieces();
    if (i < 3 * p.size()) { c[0] = p[i / 3]; c[1] = { i % 3 == 0 ? 3000 : i % 3 == 1 ? 30000 : 120000, 1 }; return; }
    gen::ClassWalk(gen::gcb_representatives(), 3).make(i - 3 * p.size(), c[0]);
    c[1] = { 400, 0 };
  }
  void gen(Source& s, Case& c) {
    gen::text(s, c[0], s.weighted({ 4, 4, 1 }));
    c[1] = { s.chance(1, 4) ? 1 : s.range(2, 300), 0 };
  }
  static size_t longest(const Text& t, bool kd, size_t& n) {
    std::vector<size_t> g = ucd::grapheme_starts(t);
    size_t most = 0;
    for (size_t k = 0; k + 1 < g.size(); k++) most = std::max(most, ucd::normalize(Text(t.begin() + g[k], t.begin() + g[k + 1]), kd ? ucd::FORM_KD : ucd::FORM_D).size());
    n = g.size();
    return most;
  }
  static Stack& stack() { static Stack s; return s; }
  void run(const Case& c, Ctx& x) {
    static bool warm = false;
    static size_t kept;         // by all cases up to now
    Text piece(c[0]), t;
    size_t most = at_or(c[1], 1, 0) ? 120000 : 12000, k = piece.empty() ? 0 : std::max<size_t>(1, std::min<size_t>(at_or(c[1], 0, 1), most / piece.size()));
    for (size_t i = 0; i < k; i++) t.insert(t.end(), piece.begin(), piece.end());
    if (piece.size() > 12000) piece.resize(12000);
    label_size(x, t.size());
    size_t clusters, lone = longest(t, true, clusters);
    std::string o = ucd::encode(t), o1 = ucd::encode(piece);
    V8 a(sview(o.data(), o.size())), a1(sview(o1.data(), o1.size()));
    V32 b(iview(t.data(), t.size())), b1(iview(piece.data(), piece.size()));
    if (!warm) { warm = true; stack().use(nothing, 0); for (int op = 0; op < OPS; op++) { Job j = { &a1, &b1, &o1, &piece, op }; stack().use(work, &j); kept += j.after; } }
    for (int op = 0; op < OPS; op++) {
      Job j = { &a1, &b1, &o1, &piece, op }, l = { &a, &b, &o, &t, op };
      if (op == 6 && o.empty()) continue;
      size_t s1 = stack().use(work, &j), s2 = stack().use(work, &l);
      x.checks += 3;
      if (getenv("L02_MEASURE")) fprintf(stderr, "%s stack %zu %zu heap %zu %zu kept %zu of %zu (%zu)\n", names[op], s1, s2, j.peak, l.peak, l.after, t.size(), lone);
      if (s2 > s1 + 8192) x.fail("%s: %zu octets of stack for %zu codepoints, %zu for %zu; of %s repeated", names[op], s1, piece.size(), s2, t.size(), show(piece).c_str());
      if (l.peak > 8192 + 256 * lone) x.fail("%s: %zu octets of heap for %zu codepoints in %zu clusters, none of which is longer than %zu decomposed; of %s repeated", names[op], l.peak, t.size(), clusters - 1, lone, show(piece).c_str());
      kept += j.after + l.after;
      if (kept > (32 << 10) && kept < (size_t(1) << 62)) x.fail("%s keeps heap: %zu octets by now", names[op], kept);
    }
    if (t.size() > 500 && ucd::normalize(piece, ucd::FORM_KD) != piece) x.nontrivial();
  }
};
PROPERTY(P)
