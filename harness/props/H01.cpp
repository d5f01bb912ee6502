#include "../norm.hpp"
#include <u5e/utf8_bounds.hpp>
#include <u5e/canonical_composition.hpp>
#include <functional>
#include <memory>
#include <sys/mman.h>

// Texts of more than 4 Gi units, nearly all of them the same few pages of
// memory mapped again and again.
namespace {
const size_t SLOT = size_t(1) << 24;                // octets of ballast
const size_t UNITS = (size_t(1) << 32) + (size_t(1) << 24);
template <class T> class Huge {
public:
  T* base;
  // The ballast is units of one codepoint, written over and over.
  explicit Huge(const std::basic_string<T>& unit) {
    int fd = memfd_create("ballast", 0);
    std::vector<T> chunk(SLOT / sizeof(T));
    for (size_t i = 0; i < chunk.size(); i++) chunk[i] = unit[i % unit.size()];
    if (fd < 0 || write(fd, chunk.data(), SLOT) != ssize_t(SLOT)) { perror("memfd"); exit(3); }
    size_t all = UNITS * sizeof(T);
    char* p = (char*)mmap(0, all, PROT_NONE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    if (p == (char*)MAP_FAILED) { perror("mmap"); exit(3); }
    for (size_t at = 0; at < all; at += SLOT)
      if (mmap(p + at, SLOT, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_FIXED | MAP_NORESERVE, fd, 0) == MAP_FAILED) { perror("mmap"); exit(3); }
    close(fd);
    base = (T*)p;
  }
  // Something else at some place, until it is taken away.
  struct Window {
    T* at;
    std::basic_string<T> before;
    Window(T* p, const std::basic_string<T>& s) : at(p), before(p, s.size()) { std::copy(s.begin(), s.end(), at); }
    ~Window() {
      std::copy(before.begin(), before.end(), at);
      uintptr_t a = uintptr_t(at) & ~uintptr_t(4095), e = uintptr_t(at + before.size() + 1023) & ~uintptr_t(4095);
      madvise((void*)a, e - a, MADV_DONTNEED);
    }
  };
};
// A storage that only follows what it is given: so far it should be what lies
// from "want" on.
template <class T> class Follows {
public:
  typedef T value_type;
  typedef T* pointer;
  typedef const T* const_pointer;
  typedef T& reference;
  typedef const T& const_reference;
  typedef T* iterator;
  typedef const T* const_iterator;
  typedef std::reverse_iterator<iterator> reverse_iterator;
  typedef std::reverse_iterator<const_iterator> const_reverse_iterator;
  typedef size_t size_type;
  typedef std::ptrdiff_t difference_type;
  const T* want = 0;
  size_t n = 0, wrong = 0;
  T none = T();
  iterator begin() { return &none; }
  iterator end() { return &none; }
  const_iterator cbegin() const { return &none; }
  const_iterator cend() const { return &none; }
  const_iterator begin() const { return &none; }
  const_iterator end() const { return &none; }
  size_t size() const { return n; }
  size_t length() const { return n; }
  size_t capacity() const { return n; }
  size_t max_size() const { return size_t(1) << 60; }
  bool empty() const { return !n; }
  void reserve(size_t) {}
  void push_back(T c) { if (want[n] != c) wrong++; n++; }
  void piece(const T* a, const T* b, std::true_type) { if (a == want + n && b >= a) n += b - a; else for (; a != b; ++a) push_back(*a); }
  template <class It> void piece(It a, It b, std::false_type) { for (; a != b; ++a) push_back(*a); }
  template <class It> Follows& append(It a, It b) { piece(a, b, std::integral_constant<bool, std::is_convertible<It, const T*>::value>()); return *this; }
  Follows& append(const T* p, size_t k) { piece(p, p + k, std::true_type()); return *this; }
  Follows& append(size_t k, T c) { while (k--) push_back(c); return *this; }
  template <class C> Follows& append(const C& c) { return append(c.begin(), c.end()); }
  template <class C> Follows& operator+=(const C& c) { return append(c); }
  Follows& operator+=(T c) { push_back(c); return *this; }
  template <class It> iterator insert(const_iterator, It a, It b) { append(a, b); return &none; }
};
typedef u5e::basic_encodedstring<u5e::utf8, Follows<char>> F8;
typedef u5e::basic_encodedstring<u5e::utf32ne, Follows<int>> F32;
// Sums up what goes through.
struct Sum { uint64_t n = 0, h = 0; void operator()(int c) { n++; h = h * 31 + uint32_t(c); } };
int pass(u5e::codepoint c, Sum& s) { s(c); return 0; }
template <class S> int pass_cluster(u5e::basic_grapheme<S> g, Sum& s) { for (auto i = g.codepoint_begin(); i != g.codepoint_end(); ++i) s(*i); return 0; }
// h after n times c, from h
uint64_t repeated(uint64_t h, int c, uint64_t n) {
  uint64_t m = 31, a = uint32_t(c);          // h -> h * m + a
  for (; n; n >>= 1) {
    if (n & 1) h = h * m + a;
    a = a * m + a;
    m *= m;
  }
  return h;
}
const int WIDE = 0x20000;                    // four octets, nothing to anybody
const std::string WIDE8 = ucd::encode({ WIDE });
}

struct P : Property {
  const char* id() const { return "H01"; }
  const char* rule() const {
    return "a text of some 4.3 Gi units (octets of UTF-8, or 32-bit units) of ballast, with a generated text at a generated place, mostly across or right after 2^31 or 2^32 units, "
           "and the same text at a place with the same low 32 bits: positions there, their clusters, parts that begin 2^31 or 2^32 units before, appended parts, bounds checks, forms of the clusters there; "
           "and whole passes over such texts (iteration both ways, filters, encoding; the thorough tier also segmentation and forms); against the model of the place alone; "
           "non-trivial: the place is beyond 2^31 units and its text is more than letters";
  }
  std::vector<FieldSpec> fields() const { return { { "window", SCALARS }, { "options", INTS } }; }
  int big() { return 0; }
  int seconds() const { return 120; }
  uint64_t memory() const { return uint64_t(60) << 30; }
  enum { PASSES = 14, SLOW = 8 };
  std::vector<int> alphabet() { return { 'a', 0x301, 0xE9, 0xAC01, 0x1F1E6, 0x1F466, 0xD }; }
  uint64_t enum_count(bool thorough) { return (thorough ? PASSES : SLOW) + gen::ClassWalk(alphabet(), thorough ? 4 : 3).total * 4; }
  const char* enum_what(bool t) { return t ? "14 whole passes; every sequence of up to 4 of seven codepoints at four places" : "8 whole passes; every sequence of up to 3 of seven codepoints at four places"; }
  void enum_case(uint64_t i, Case& c) {
    // thorough or not, the passes come first; the numbers of the others do not matter
    if (i < SLOW) { c[0] = { 'b', 0x301, 0x1F466 }; c[1] = { 0, 0, 0, int(i) + 1 }; return; }
    i -= SLOW;
    if (i < 4 * gen::ClassWalk(alphabet(), 3).total) {
      gen::ClassWalk(alphabet(), 3).make(i / 4, c[0]);
      c[1] = { int(i % 4), int(i / 4 % 11), int(i & 1), 0 };
      return;
    }
    i -= 4 * gen::ClassWalk(alphabet(), 3).total;
    if (i < PASSES - SLOW) { c[0] = { 'b', 0x301, 0x1F466 }; c[1] = { 1, 0, 0, int(i) + 1 + SLOW }; return; }
    i -= PASSES - SLOW;
    i += 4 * gen::ClassWalk(alphabet(), 3).total;
    gen::ClassWalk(alphabet(), 4).make(i / 4, c[0]);
    c[1] = { int(i % 4), int(i / 4 % 11), int(i & 1), 0 };
  }
  void gen(Source& s, Case& c) {
    gen::text(s, c[0], s.weighted({ 4, 2 }));
    c[1] = { s.chance(4, 5) ? s.range(0, 3) : s.range(4, 40), s.range(0, 60), s.range(0, 1), 0, s.range(0, 1 << 20) };
  }
  static size_t mark(int k) {
    switch (k) {
    case 0: return size_t(1) << 31;
    case 1: return size_t(1) << 32;
    case 2: return (size_t(1) << 31) + (size_t(1) << 30);
    case 3: return (size_t(1) << 32) + (size_t(1) << 16);
    default: return k < 20 ? size_t(1) << (12 + k) : size_t(k) * 104729000 % (size_t(1) << 32) + 4096;
    }
  }
  template <class T> static Huge<T>& plain(std::basic_string<T> unit) { static Huge<T>* h = new Huge<T>(unit); return *h; }
  static Huge<char>& wide() { static Huge<char>* h = new Huge<char>(WIDE8); return *h; }

  // The place: codepoints ctx from unit "at" on, at offsets off.
  template <class S, class F, class T> void place(Ctx& x, T* base, size_t at, const Text& ctx, const std::vector<size_t>& off, const char* what) {
    typedef typename S::const_iterator I;
    typedef u5e::basic_grapheme_iterator<S> G;
    typedef std::experimental::basic_string_view<T> View;
    S whole(View(base, UNITS));
    std::vector<size_t> starts = ucd::grapheme_starts(ctx);
    size_t n = ctx.size();
    auto native = [&](size_t k) { return base + at + off[k]; };
    // forward and back
    I i(native(0)), e(native(n));
    same(x, read_all(x, i, e, n, what), ctx, what);
    I b(e);
    for (size_t k = n; k-- > 0;) { --b; x.checks++; if (int(*b) != ctx[k]) x.fail("%s at %zu: stepping back to codepoint %zu of %s reads %s", what, at, k, show(ctx).c_str(), show({ int(*b) }).c_str()); }
    check(x, b == i && i != e && whole.codepoint_cbegin() != i && i != whole.codepoint_cend() && i == I(base + at), "positions far from the ends");
    // a position with the same low bits elsewhere is another one
    for (size_t d : { size_t(1) << 32, size_t(1) << 31, size_t(1) << 16 })
      for (size_t k = 0; k < n && at >= d; k++) {
        I p(native(k)), q(native(k) - d);
        x.checks++;
        if (p == q || !(p != q)) x.fail("%s: the positions %zu and %zu are taken for the same", what, at + off[k], at + off[k] - d);
      }
    // clusters
    for (size_t k = 1, c = 0; k < n; k++) {
      while (starts[c + 1] <= k) c++;
      if (c + 2 >= starts.size() || k + 1 == n) break;     // the last one is the ballast's
      G g(whole.codepoint_cbegin(), whole.codepoint_cend(), I(native(k)));
      auto one = *g;
      auto wrong = [&](const char* how) { x.fail("%s at unit %zu of %zu: %s is not that of codepoint %zu in %s", what, at + off[k], UNITS, how, k, show(ctx).c_str()); };
      x.checks++;
      if (!(one.codepoint_begin() == I(native(starts[c]))) || !(one.codepoint_end() == I(native(starts[c + 1]))) || int(*one.codepoint_begin()) != ctx[starts[c]]) wrong("a cluster");
      x.checks += 3;
      if (!(g == I(native(k))) || g == I(base) || g == whole.grapheme_begin() || g == whole.grapheme_end() || !(g != whole.grapheme_end())) wrong("the place of a cluster");
      for (size_t d : { size_t(1) << 32, size_t(1) << 31 })
        if (at >= d) {
          I other(native(k) - d);
          G h(whole.codepoint_cbegin(), whole.codepoint_cend(), other);
          if (g == h || !(g != h) || g == other || h == I(native(k))) wrong("the equality of a cluster");
          auto two = *h;
          if (at >= d + 8192 && !(two.codepoint_begin() == I(native(starts[c]) - d))) wrong("a cluster with the same low bits");
        }
      G next(g);
      ++next;
      auto two = *next;
      x.checks++;
      if (!(two.codepoint_begin() == I(native(starts[c + 1]))) || !(two.codepoint_end() == I(native(starts[c + 2]))) || next == g) wrong("the next cluster");
      auto form = [&](int f) {
        S32 o;
        int count = f == 0 ? FormOf<ucd::FORM_D, S, S32>::f(one, o) : f == 1 ? FormOf<ucd::FORM_C, S, S32>::f(one, o) : f == 2 ? FormOf<ucd::FORM_KD, S, S32>::f(one, o) : FormOf<ucd::FORM_KC, S, S32>::f(one, o);
        static const ucd::Form forms[] = { ucd::FORM_D, ucd::FORM_C, ucd::FORM_KD, ucd::FORM_KC };
        Text want = ucd::normalize(Text(ctx.begin() + starts[c], ctx.begin() + starts[c + 1]), forms[f]);
        x.checks++;
        if (text_of(o.native_string) != want || count != int(want.size())) wrong(ucd::form_names[forms[f]]);
      };
      if (k == starts[c]) form(k % 4);
      S32 sum;
      if (k == starts[c]) {
        G to(next);
        Follows<T> fo;
        fo.want = native(starts[c]);
        F out(fo);
        out.template append<View>(g, to);
        x.checks++;
        if (out.native_string.wrong || out.native_string.n != off[starts[c + 1]] - off[starts[c]]) wrong("an appended cluster");
      }
    }
    // parts that begin far before
    for (size_t d : { size_t(1) << 32, size_t(1) << 31, (size_t(1) << 32) - 4, (size_t(1) << 31) - 4, (size_t(1) << 32) + 4, (size_t(1) << 31) + 4, at }) {
      for (size_t k : { size_t(3), n - 3 }) {
        size_t to = at + off[k];
        if (to < d || d < 64) continue;
        size_t from = to - d;
        if (sizeof(T) == 1) while (from < to && u5e::utf8_util::is_codepoint_continuation(base[from])) from++;
        I p(base + from), q(base + to);
        S part(View(base + from, to - from));
        auto wrong = [&](const char* how) { x.fail("%s: %s of the part of %zu units from %zu on", what, how, to - from, from); };
        x.checks += 8;
        if (p == q || !(p != q)) wrong("the limits");
        if (part.codepoint_cbegin() == part.codepoint_cend()) wrong("the emptiness");
        if (part.grapheme_begin() == part.grapheme_end() || !(part.grapheme_begin() != part.grapheme_end())) wrong("the emptiness in clusters");
        Follows<T> fo;
        fo.want = base + from;
        F out(fo);
        out.template append<View>(p, q);
        if (out.native_string.wrong || out.native_string.n != to - from) x.fail("%s: appending the part of %zu units from %zu on gives %zu units", what, to - from, from, out.native_string.n);
        G first(part.codepoint_cbegin(), part.codepoint_cend()), last(part.codepoint_cbegin(), part.codepoint_cend(), I(native(k - 1)));
        out.native_string.n = 0;
        auto lb = *last;
        size_t len = 0;
        for (T* z = base + from; z != base + to && I(z) != lb.codepoint_begin(); z = base + to - (off[k] - off[k - ++len])) if (len >= k) break;
        out.template append<View>(first, last);
        size_t got = out.native_string.n;
        if (out.native_string.wrong || !(I(base + from + got) == lb.codepoint_begin())) wrong("appending the clusters but the last");
        bounds(x, base + from, base + to, what);
      }
    }
    // what comes from a filter over the place
    Sum s, want;
    for (int c : ctx) want(c);
    int zero = u5e::filter(i, e, s, pass);
    x.checks++;
    if (zero || s.n != want.n || s.h != want.h) x.fail("%s: a filter over %s at %zu", what, show(ctx).c_str(), at);
  }
  void bounds(Ctx& x, int*, int*, const char*) { (void)x; }
  void bounds(Ctx& x, char* from, char* to, const char* what) {
    typedef u5e::utf8_bounds<const char*> B;
    typedef u5e::utf8_bounds<char*> E;
    auto is = [&](char* a, char* b, bool want) {
      // only the first and the last few octets can be touched
      std::string head(a, a + 8), tail(b - 8, b), whead(head), wtail(tail);
      for (size_t i = 0; i < 8 && ucd::is_cont(head[i]); i++) whead[i] = '?';
      for (size_t i = 0; i < 8; i++) if ((unsigned char)tail[i] >= 0xC0 && i + ucd::seq_length(tail[i]) > 8) wtail[i] = '?';
      bool checked = B::check(a, b), enforced = E::enforce(a, b);
      x.checks += 3;
      if (checked != want || enforced != want) x.fail("%s: the bounds of a part of %zu octets are said to be %s", what, size_t(b - a), want ? "broken" : "whole");
      std::string ghead(a, a + 8), gtail(b - 8, b);
      std::copy(tail.begin(), tail.end(), b - 8);
      std::copy(head.begin(), head.end(), a);
      if (ghead != whead || gtail != wtail) x.fail("%s: enforcing the bounds of a part of %zu octets gives %s .. %s", what, size_t(b - a), show_octets(ghead).c_str(), show_octets(gtail).c_str());
    };
    is(from, to, true);
    char* cut = to - 1;                      // the last codepoint is cut, if it is longer
    if (u5e::utf8_util::is_codepoint_continuation(*cut)) is(from, cut, false);
    char* later = from + 1;
    if (u5e::utf8_util::is_codepoint_continuation(*later)) is(later, to, false);
  }

  // Everything once. Expected: a codepoints of ballast, the window, b more.
  void whole(Ctx& x, int pass_, const Text& w) {
    size_t m = size_t(1) << 31, extra = 4096;
    auto judge = [&](const char* what, const Sum& s, int c, size_t a, const Text& mid, size_t b) {
      uint64_t h = repeated(0, c, a);
      for (int v : mid) h = h * 31 + uint32_t(v);
      h = repeated(h, c, b);
      x.checks++;
      if (s.n != a + b + mid.size() || s.h != h) x.fail("%s: %llu codepoints of %llu, or not the same ones", what, (unsigned long long)s.n, (unsigned long long)(a + b + mid.size()));
    };
    Text win(w);
    std::string w8 = ucd::encode(win);
    while (w8.size() % 4) { w8 += 'b'; win.push_back('b'); }
    Text rev(win.rbegin(), win.rend());
    istring w32(win.begin(), win.end());
    auto f8 = [&](size_t len, std::function<void(V8&, Sum&)> f, const char* what, bool back = false) {
      Huge<char>& h = wide();
      Huge<char>::Window at(h.base + m - 4, w8);
      V8 t(sview(h.base, len));
      Sum s;
      f(t, s);
      judge(what, s, WIDE, back ? (len - m + 4 - w8.size()) / 4 : (m - 4) / 4, back ? rev : win, back ? (m - 4) / 4 : (len - m + 4 - w8.size()) / 4);
    };
    auto f32 = [&](size_t len, std::function<void(V32&, Sum&)> f, const char* what, bool back = false) {
      Huge<int>& h = plain<int>(istring(1, 'a'));
      Huge<int>::Window at(h.base + m - 4, w32);
      V32 t(iview(h.base, len));
      Sum s;
      f(t, s);
      judge(what, s, 'a', back ? len - m + 4 - w32.size() : m - 4, back ? rev : win, back ? m - 4 : len - m + 4 - w32.size());
    };
    size_t half = m + extra, full = (size_t(1) << 32) + extra;
    auto forward = [](auto& t, Sum& s) { auto e = t.codepoint_cend(); for (auto i = t.codepoint_cbegin(); i != e; ++i) s(*i); };
    auto backward = [](auto& t, Sum& s) { auto b = t.codepoint_cbegin(); for (auto i = t.codepoint_cend(); i != b;) { --i; s(*i); } };
    auto filtered = [](auto& t, Sum& s) { u5e::filter(t.codepoint_cbegin(), t.codepoint_cend(), s, pass); };
    switch (pass_) {
    case 1: f8(half, [&](V8& t, Sum& s) { forward(t, s); }, "forward over 2^31 octets"); break;
    case 2: f8(half, [&](V8& t, Sum& s) { backward(t, s); }, "backward over 2^31 octets", true); break;
    case 3: f8(half, [&](V8& t, Sum& s) { filtered(t, s); }, "a filter over 2^31 octets"); break;
    case 4: f32(half, [&](V32& t, Sum& s) { filtered(t, s); }, "a filter over 2^31 units"); break;
    case 5: f32(half, [&](V32& t, Sum& s) { backward(t, s); }, "backward over 2^31 units", true); break;
    case 6: f32(full, [&](V32& t, Sum& s) { forward(t, s); }, "forward over 2^32 units"); break;
    case 7: case 13: {  // codepoints of one octet and of four, encoded
      bool four = pass_ == 13;
      size_t n = four ? (size_t(1) << 30) + 1024 : m / 2 + extra;
      Huge<int>& h = plain<int>(istring(1, 'a'));
      Huge<char>& o = four ? wide() : plain<char>(std::string(1, 'a'));
      std::basic_string<int> four_(four ? 1 : 0, WIDE);
      Follows<char> fo;
      fo.want = o.base;
      F8 out(fo);
      static Huge<int>* w4 = 0;
      if (four && !w4) w4 = new Huge<int>(four_);
      V32 t(iview(four ? w4->base : h.base, n));
      out.append_from_utf32ne<iview>(t.codepoint_cbegin(), t.codepoint_cend());
      x.checks++;
      if (out.native_string.wrong || out.native_string.n != n * (four ? 4 : 1)) x.fail("encoding %zu codepoints gives %zu octets, %zu of them wrong", n, out.native_string.n, out.native_string.wrong);
      break;
    }
    case 8: {           // a real string, grown by a part of more than 2^31 octets
      Huge<char>& h = wide();
      Huge<char>::Window at(h.base + m - 4, w8);
      S8 out(std::string("head"));
      out.native_string.reserve(half + 8);
      out.append<sview>(V8::const_iterator(h.base), V8::const_iterator(h.base + half));
      x.checks++;
      if (out.native_string.size() != half + 4 || memcmp(out.native_string.data(), "head", 4) || memcmp(out.native_string.data() + 4, h.base, half)) x.fail("a string with a part of %zu octets appended has %zu", half, out.native_string.size());
      break;
    }
    case 9: f8(full, [&](V8& t, Sum& s) { forward(t, s); }, "forward over 2^32 octets"); break;
    case 10: f8(full, [&](V8& t, Sum& s) { backward(t, s); }, "backward over 2^32 octets", true); break;
    case 11: f8(half, [&](V8& t, Sum& s) { u5e::filter(t.grapheme_begin(), t.grapheme_end(), s, pass_cluster<V8>); }, "clusters of 2^31 octets"); break;
    case 12: {          // a form over 2^31 octets
      Huge<char>& h = wide();
      V8 t(sview(h.base, half));
      Follows<char> fo;
      fo.want = h.base;
      F8 out(fo);
      int n = norm<ucd::FORM_C>(t, out);
      x.checks++;
      if (out.native_string.wrong || out.native_string.n != half || n != int(half / 4)) x.fail("form C of %zu octets has %zu (%d)", half, out.native_string.n, n);
      break;
    }
    case 14: f32(full, [&](V32& t, Sum& s) { filtered(t, s); }, "a filter over 2^32 units"); break;
    }
    x.nontrivial();
    x.label("a whole pass");
  }
  void run(const Case& c, Ctx& x) {
    int pass_ = at_or(c[1], 3, 0);
    if (pass_) { whole(x, pass_ % (PASSES + 1), c[0]); return; }
    Text w(c[0]);
    if (w.size() > 400) w.resize(400);
    bool four = at_or(c[1], 2, 0) & 1;
    int b = four ? WIDE : 'a';
    size_t m = mark(at_or(c[1], 0, 0) % 41) + at_or(c[1], 4, 0) % 8 / 7 * (at_or(c[1], 4, 0) / 8 * 4);
    size_t delta = at_or(c[1], 1, 0) % 2000;
    while (ucd::encode(w).size() % 4) w.push_back('b');
    Text ctx(3, b);
    ctx.insert(ctx.end(), w.begin(), w.end());
    ctx.insert(ctx.end(), 4, b);
    label_size(x, w.size());
    {
      Huge<char>& h = four ? wide() : plain<char>(std::string(1, 'a'));
      std::string s = ucd::encode(w);
      size_t at = (m - delta) & ~size_t(3), lead = (four ? 4 : 1) * 3;
      std::vector<std::unique_ptr<Huge<char>::Window>> windows;
      windows.emplace_back(new Huge<char>::Window(h.base + at, s));
      for (size_t d : { size_t(1) << 31, size_t(1) << 32 }) if (at >= d + 4096) windows.emplace_back(new Huge<char>::Window(h.base + at - d, s));
      place<V8, F8>(x, h.base, at - lead, ctx, offsets8(ctx), four ? "UTF-8 among wide ones" : "UTF-8");
    }
    {
      Huge<int>& h = plain<int>(istring(1, 'a'));
      Text ctx32(3, 'a');
      ctx32.insert(ctx32.end(), w.begin(), w.end());
      ctx32.insert(ctx32.end(), 4, 'a');
      istring s(w.begin(), w.end());
      size_t at = m - delta;
      std::vector<std::unique_ptr<Huge<int>::Window>> windows;
      windows.emplace_back(new Huge<int>::Window(h.base + at, s));
      for (size_t d : { size_t(1) << 31, size_t(1) << 32, size_t(1) << 30 }) if (at >= d + 4096) windows.emplace_back(new Huge<int>::Window(h.base + at - d, s));
      place<V32, F32>(x, h.base, at - 3, ctx32, offsets32(ctx32), "UTF-32");
    }
    bool letters = true;
    for (int v : w) letters &= v >= 'a' && v <= 'z';
    if (!letters && m >= size_t(1) << 31) x.nontrivial();
  }
};
PROPERTY(P)
