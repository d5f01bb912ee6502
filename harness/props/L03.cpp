#include "../norm.hpp"
#include <iterator>

// Units that know whether they were looked at.
static uint64_t work;
static uintptr_t lowest, highest;
static void seen(const void* p) {
  work++;
  uintptr_t a = (uintptr_t)p;
  if (a < lowest) lowest = a;
  if (a > highest) highest = a;
}
template <class T> class Watched {
public:
  T* p;
  typedef typename std::remove_const<T>::type value_type;
  typedef T& reference;
  typedef T* pointer;
  typedef std::ptrdiff_t difference_type;
  typedef std::random_access_iterator_tag iterator_category;
  explicit Watched(T* q = 0) : p(q) {}
  T& operator*() const { seen(p); return *p; }
  T* operator->() const { seen(p); return p; }
  T& operator[](difference_type n) const { seen(p + n); return p[n]; }
  Watched& operator++() { work++; ++p; return *this; }
  Watched& operator--() { work++; --p; return *this; }
  Watched operator++(int) { work++; Watched c(*this); ++p; return c; }
  Watched operator--(int) { work++; Watched c(*this); --p; return c; }
  Watched& operator+=(difference_type n) { work++; p += n; return *this; }
  Watched& operator-=(difference_type n) { work++; p -= n; return *this; }
  friend Watched operator+(Watched a, difference_type n) { return a += n; }
  friend Watched operator+(difference_type n, Watched a) { return a += n; }
  friend Watched operator-(Watched a, difference_type n) { return a -= n; }
  friend difference_type operator-(const Watched& a, const Watched& b) { return a.p - b.p; }
  friend bool operator==(const Watched& a, const Watched& b) { return a.p == b.p; }
  friend bool operator!=(const Watched& a, const Watched& b) { return a.p != b.p; }
  friend bool operator<(const Watched& a, const Watched& b) { return a.p < b.p; }
  friend bool operator>(const Watched& a, const Watched& b) { return a.p > b.p; }
  friend bool operator<=(const Watched& a, const Watched& b) { return a.p <= b.p; }
  friend bool operator>=(const Watched& a, const Watched& b) { return a.p >= b.p; }
};
template <class T> class Storage {
  std::vector<T> v;
public:
  typedef Watched<T> iterator;
  typedef Watched<const T> const_iterator;
  typedef T* pointer;
  typedef const T* const_pointer;
  typedef T value_type;
  typedef T& reference;
  typedef const T& const_reference;
  typedef size_t size_type;
  typedef std::ptrdiff_t difference_type;
  typedef std::reverse_iterator<iterator> reverse_iterator;
  typedef std::reverse_iterator<const_iterator> const_reverse_iterator;
  size_t size() const { return v.size() - 1; }
  size_t length() const { return size(); }
  bool empty() const { return size() == 0; }
  template <class C> explicit Storage(const C& c) : v(c.begin(), c.end()) { v.push_back(0); }
  iterator begin() { return iterator(v.data()); }
  iterator end() { return iterator(v.data() + v.size() - 1); }
  const_iterator cbegin() const { return const_iterator(v.data()); }
  const_iterator cend() const { return const_iterator(v.data() + v.size() - 1); }
  const_iterator begin() const { return cbegin(); }
  const_iterator end() const { return cend(); }
};
typedef u5e::basic_encodedstring<u5e::utf8, Storage<char>> L8;
typedef u5e::basic_encodedstring<u5e::utf32ne, Storage<int>> L32;

struct P : Property {
  const char* id() const { return "L03"; }
  const char* rule() const {
    return "a text in the middle of others many times longer, held so that every unit looked at is known; grapheme positions "
           "built, read, compared, stepped and normalized, codepoint positions read, compared and stepped both ways, and parts appended, at any "
           "places of it, must look at nothing but what surrounds them (up to the nearest boundary two neighbours decide) and take work in proportion to that; "
           "non-trivial: what surrounds is less than a tenth of the text";
  }
  int big() { return 20000; }
  std::vector<FieldSpec> fields() const { return { { "text", SCALARS }, { "around", SCALARS }, { "repeat", INTS }, { "at", INTS } }; }
  static std::vector<Text> pieces() {
    return { { 'a' }, { 'a', 0x301 }, { 0x1F1E6, 0x1F1E7, 'x' }, { 0xAC01 }, { '\r', '\n' }, { 0x1F466, 0x1F3FB }, { ' ', 'z' }, { 0x4E00 }, { 0xFDFA }, { 0x600, 'b' }, { 0x301, '\n' }, { 0 } };
  }
  std::vector<int> reps;
  void setup() { reps = gen::gcb_representatives(); }
  uint64_t enum_count(bool thorough) { return gen::ClassWalk(reps, thorough ? 3 : 2).total * pieces().size() + pieces().size() * pieces().size(); }
  const char* enum_what(bool t) { return t ? "every sequence of up to 3 break classes amid 12 kinds of text; 12 kinds of text amid each of 100,000 codepoints" : "every sequence of up to 2 break classes amid 12 kinds of text; 12 kinds of text amid each of 100,000 codepoints"; }
  void enum_case(uint64_t i, Case& c) {
    std::vector<Text> p = pieces();
    if (i < p.size() * p.size()) { c[0] = p[i % p.size()]; c[1] = p[i / p.size()]; c[2] = { 100000, 100000 }; c[3] = { 0, 1, 1 << 13, 5 }; return; }
    i -= p.size() * p.size();
    c[1] = p[i % p.size()];
    c[2] = { 60, 60 };
    gen::ClassWalk(reps, 3).make(i / p.size(), c[0]);
    for (int k = 0; k < 5; k++) c[3].push_back(k);
  }
  void gen(Source& s, Case& c) {
    gen::text(s, c[0], s.weighted({ 4, 8, 2 }));
    if (s.chance(1, 2)) c[1] = s.pick(pieces()); else gen::text(s, c[1], 0);
    c[2] = { s.range(0, 300), s.range(0, 300) };
    for (int k = 0, n = s.range(1, 6); k < n; k++) c[3].push_back(s.chance(1, 2) ? s.below(1 << 5) : s.below(1 << 16));
  }
  // a step needs a handful of each unit it has to do with
  static const uint64_t PER_UNIT = 200, FIXED = 800;
  static const size_t SLACK = 4;       // codepoints looked at besides
  struct World {
    Ctx& x; const Text& t; const char* what; bool utf8;
    std::vector<size_t> off, starts;
    uintptr_t base; size_t unit;
    size_t first_of(size_t q) { auto i = std::upper_bound(starts.begin(), starts.end(), q); return q >= t.size() ? t.size() : *--i; }
    size_t next(size_t q) { return *std::upper_bound(starts.begin(), starts.end(), q); }
    bool sure(size_t i) {
      if (i == 0 || i >= t.size()) return true;
      if (ucd::gcb(t[i - 1]) == ucd::EXTEND && ucd::gcb(t[i]) == ucd::E_MODIFIER) return false;
      return ucd::is_grapheme_break(Text(t.begin() + i - 1, t.begin() + i + 1), 1);
    }
    size_t back(size_t i) { while (!sure(i)) i--; return i; }
    void start() { work = 0; lowest = ~uintptr_t(0); highest = 0; }
    // only codepoints from a to before b, and some next to them
    void only(size_t a, size_t b, const char* op, size_t q) {
      a = a > SLACK ? a - SLACK : 0;
      b = std::min(t.size(), b + SLACK);
      x.checks += 2;
      uint64_t most = PER_UNIT * (off[b] - off[a]) + FIXED;
      if (getenv("L03_MEASURE")) fprintf(stderr, "%.3f %s\n", double(work) / (off[b] - off[a] + 4), op);
      if (work > most)
        x.fail("%s, %s at codepoint %zu of %zu: %llu reads and moves, when %zu units are concerned", what, op, q, t.size(), (unsigned long long)work, off[b] - off[a]);
      if (!highest) return;
      size_t l = (lowest - base) / unit, h = (highest - base) / unit;
      if (l < off[a] || (h >= off[b] && b < t.size()))
        x.fail("%s, %s at codepoint %zu of %zu: units %zu to %zu were looked at, when those from %zu to before %zu are concerned", what, op, q, t.size(), l, h, off[a], off[b]);
    }
  };
  template <int F, class S> static void form(u5e::basic_grapheme<S> g, World& w, size_t a, size_t b) {
    S8 o;
    w.start();
    FormOf<F, S, S8>::f(g, o);
    w.only(a, b, ucd::form_names[F], a);
  }
  template <class S, class U> void all(Ctx& x, S& s, const Text& t, const Field& at, size_t mid, size_t len, bool utf8, const char* what) {
    typedef typename S::const_iterator C;
    typedef typename S::iterator M;
    typedef u5e::basic_grapheme_iterator<S> G;
    World w{ x, t, what, utf8, utf8 ? offsets8(t) : offsets32(t), ucd::grapheme_starts(t), (uintptr_t)s.native_cbegin().p, sizeof(U) };
    size_t n = t.size();
    auto place = [&](size_t q, int v) { return C(s.native_cbegin() + (q < n ? w.off[q] + v % (w.off[q + 1] - w.off[q]) : w.off[q])); };
    for (size_t k = 0; k < at.size(); k++) {
      size_t q = std::min(n, mid + at[k] % (len + 1)), y = std::min(n, mid + at[(k + 1) % at.size()] % (len + 1));
      C pos = place(q, at[k] >> 3), other = place(y, at[k] >> 5);
      size_t a = w.first_of(q), b = q < n ? w.next(q) : n, sure = w.back(q < n ? q : n);
      if (n > 10 * (b - sure + 2 * SLACK)) x.nontrivial();
      w.start();
      G g(s.codepoint_cbegin(), s.codepoint_cend(), pos);
      w.only(sure, b, "a grapheme position", q);
      w.start();
      { auto c = *g; size_t m = 0; for (C i = c.codepoint_begin(), e = c.codepoint_end(); i != e && m <= n; ++i, m++) { C j = i; int v = *j; (void)v; } }
      w.only(a, b, "reading the cluster", q);
      w.start();
      bool is = g == other, end = g == s.grapheme_end();
      // the other may be far away
      if (y >= a && y <= b) w.only(a, b + 1, "comparing the grapheme position", q);
      check(x, is == (q >= n ? y >= n : y >= a && y < b) && end == (q >= n), "a comparison is wrong");
      {
        // with another cluster, wherever that is: what both hold
        G that(s.codepoint_cbegin(), s.codepoint_cend(), other);
        size_t ya = w.first_of(y), yb = y < n ? w.next(y) : n;
        w.start();
        bool same = g == that, differ = g != that;
        uint64_t took = work, units = w.off[b] - w.off[a] + w.off[yb] - w.off[ya] + 2 * SLACK;
        check(x, same == (a == ya) && differ != same, "a comparison of grapheme positions is wrong");
        x.checks++;
        if (took > PER_UNIT * units + FIXED)
          x.fail("%s, comparing the grapheme positions at codepoints %zu and %zu of %zu: %llu reads and moves, when %llu units are concerned", what, q, y, n, (unsigned long long)took, (unsigned long long)units);
      }
      if (q < n) {
        auto c = *g;
        form<ucd::FORM_D, S>(c, w, a, b);
        form<ucd::FORM_C, S>(c, w, a, b);
        form<ucd::FORM_KD, S>(c, w, a, b);
        form<ucd::FORM_KC, S>(c, w, a, b);
        size_t d = b < n ? w.next(b) : n;
        w.start();
        { G h(g); if (at[k] & 1) ++h; else h++; }
        w.only(a, d, "a step by grapheme", q);
        w.start();
        { C i = pos; int v = *i; (void)v; ++i; }
        w.only(q, q + 1, "a step forward", q);
        w.start();
        { M i(s.native_begin() + w.off[q]); int v = u5e::codepoint(*i); (void)v; i++; }
        w.only(q, q + 1, "a step forward, mutable", q);
      }
      if (q > 0 && q < n) {
        w.start();
        { C i = pos; --i; C j = i; int v = *j; (void)v; }
        w.only(q - 1, q + 1, "a step back", q);
      }
      if (q < n && y < n) {
        w.start();
        bool eq = pos == other;
        check(x, eq == (q == y), "a comparison of codepoint positions is wrong");
        w.only(std::min(q, y), std::max(q, y) + 1, "comparing codepoint positions", q);
      }
      size_t l = std::min(q, y), h = std::max(q, y);
      if (l < h && h < n) {
        w.start();
        { S8 o8; S32 o32; append(o8, o32, s, place(l, 0), place(h, 0)); }
        w.only(l, h, "appending codepoints", l);
        G from(s.codepoint_cbegin(), s.codepoint_cend(), place(l, 0)), to(s.codepoint_cbegin(), s.codepoint_cend(), place(h, 0));
        w.start();
        { S8 o8; S32 o32; append(o8, o32, s, from, to); }
        w.only(w.first_of(l), h, "appending graphemes", l);
      }
    }
  }
  template <class It> static void append(S8& o, S32&, L8&, It a, It b) { o.append<Storage<char>>(a, b); }
  template <class It> static void append(S8&, S32& o, L32&, It a, It b) { o.append<Storage<int>>(a, b); }
  void run(const Case& c, Ctx& x) {
    Text t, middle = c[0];
    if (middle.size() > 3000) middle.resize(3000);
    size_t before = c[1].empty() ? 0 : std::min<size_t>(at_or(c[2], 0, 0), 200000 / c[1].size()), after = c[1].empty() ? 0 : std::min<size_t>(at_or(c[2], 1, 0), 200000 / c[1].size());
    for (size_t i = 0; i < before; i++) t.insert(t.end(), c[1].begin(), c[1].end());
    size_t mid = t.size();
    t.insert(t.end(), middle.begin(), middle.end());
    for (size_t i = 0; i < after; i++) t.insert(t.end(), c[1].begin(), c[1].end());
    label_size(x, t.size());
    if (t.size() > 5000) x.label("length >5000");
    L8 a{ Storage<char>(ucd::encode(t)) };
    L32 b{ Storage<int>(t) };
    all<L8, char>(x, a, t, c[3], mid, middle.size(), true, "UTF-8");
    all<L32, int>(x, b, t, c[3], mid, middle.size(), false, "UTF-32");
  }
};
PROPERTY(P)
