#include "../norm.hpp"
#include <u5e/utf8_bounds.hpp>
#include <iterator>
#include <ctime>

// Units whose reads and moves are counted.
static uint64_t work;
template <class T> class Counting {
public:
  T* p;
  typedef typename std::remove_const<T>::type value_type;
  typedef T& reference;
  typedef T* pointer;
  typedef std::ptrdiff_t difference_type;
  typedef std::random_access_iterator_tag iterator_category;
  explicit Counting(T* q = 0) : p(q) {}
  T& operator*() const { work++; return *p; }
  T* operator->() const { work++; return p; }
  T& operator[](difference_type n) const { work++; return p[n]; }
  Counting& operator++() { work++; ++p; return *this; }
  Counting& operator--() { work++; --p; return *this; }
  Counting operator++(int) { work++; Counting c(*this); ++p; return c; }
  Counting operator--(int) { work++; Counting c(*this); --p; return c; }
  Counting& operator+=(difference_type n) { work++; p += n; return *this; }
  Counting& operator-=(difference_type n) { work++; p -= n; return *this; }
  friend Counting operator+(Counting a, difference_type n) { return a += n; }
  friend Counting operator+(difference_type n, Counting a) { return a += n; }
  friend Counting operator-(Counting a, difference_type n) { return a -= n; }
  friend difference_type operator-(const Counting& a, const Counting& b) { return a.p - b.p; }
  friend bool operator==(const Counting& a, const Counting& b) { return a.p == b.p; }
  friend bool operator!=(const Counting& a, const Counting& b) { return a.p != b.p; }
  friend bool operator<(const Counting& a, const Counting& b) { return a.p < b.p; }
  friend bool operator>(const Counting& a, const Counting& b) { return a.p > b.p; }
  friend bool operator<=(const Counting& a, const Counting& b) { return a.p <= b.p; }
  friend bool operator>=(const Counting& a, const Counting& b) { return a.p >= b.p; }
};
template <class T> class Storage {
  std::vector<T> v;
public:
  typedef Counting<T> iterator;
  typedef Counting<const T> const_iterator;
  typedef T* pointer;
  typedef const T* const_pointer;
  typedef T value_type;
  typedef T& reference;
  typedef const T& const_reference;
  typedef size_t size_type;
  typedef std::ptrdiff_t difference_type;
  typedef std::reverse_iterator<iterator> reverse_iterator;
  typedef std::reverse_iterator<const_iterator> const_reverse_iterator;
  size_t size() const { return v.size() - 1; }
  size_t length() const { return size(); }
  bool empty() const { return size() == 0; }
  template <class C> explicit Storage(const C& c) : v(c.begin(), c.end()) { v.push_back(0); }
  iterator begin() { return iterator(v.data()); }
  iterator end() { return iterator(v.data() + v.size() - 1); }
  const_iterator cbegin() const { return const_iterator(v.data()); }
  const_iterator cend() const { return const_iterator(v.data() + v.size() - 1); }
  const_iterator begin() const { return cbegin(); }
  const_iterator end() const { return cend(); }
};
typedef u5e::basic_encodedstring<u5e::utf8, Storage<char>> L8;
typedef u5e::basic_encodedstring<u5e::utf32ne, Storage<int>> L32;

struct P : Property {
  const char* id() const { return "L01"; }
  const char* rule() const {
    return "a text (plain, or one piece repeated many times), held so that every read and move is counted; forward, backward and "
           "grapheme traversal, building a position, appending and the four forms must take at most a fixed number per octet, the "
           "bounds check a fixed number altogether; non-trivial: over 500 codepoints";
  }
  int big() { return 20000; }
  std::vector<FieldSpec> fields() const { return { { "text", SCALARS }, { "repeat", INTS }, { "at", INTS } }; }
  uint64_t enum_count(bool thorough) { return gen::ClassWalk(gen::gcb_representatives(), thorough ? 3 : 2).total + pieces().size() + blocks().size(); }
  // each codepoint of them over a hundred thousand times
  static std::vector<Text> blocks() {
    return { { 'a', 0x301, 0x323 }, { 0x301, 0x316, 0x334 }, { 0x1F1E6, 0x301, 0x327 }, { 0x1100, 0x1161, 0x11A8 }, { 0x1F466, 0x308, 0x1F3FB }, { 'e', 0x302, 0x323, 0x301 } };
  }
  // repeated over a hundred thousand times
  static std::vector<Text> pieces() {
    Text down, r;
    for (int c : { 240, 230, 220, 202, 9, 1 }) if (ucd::pools.by_ccc.count(c)) down.push_back(ucd::pools.by_ccc[c][0]);
    return { { 0x301 }, { 0x301, 0x323 }, down, { 'a', 0x301, 0x323 }, { 'a' }, { 0x1F1E6 }, { 0x1100 }, { 0x1161 }, { 0x11A8 }, { 0xAC00 },
             { 0xAC01 }, { 0x1F466, 0x1F3FB }, { 0x1F466, 0x200D, 0x2764, 0x200D }, { 0x600 }, { '\r', '\n' }, { 0x344 }, { 0xFDFA }, { 0x1E69 }, { 0x1F1E6, 0x301 }, { 0x338, 0x3D } };
  }
  const char* enum_what(bool t) { return t ? "20 pieces repeated to 200,000 codepoints; six texts of a few codepoints each repeated over 100,000 times; every sequence of up to 3 break classes, repeated 1000 times" : "20 pieces repeated to 200,000 codepoints; six texts of a few codepoints each repeated over 100,000 times; every sequence of up to 2 break classes, repeated 1000 times"; }
  void enum_case(uint64_t i, Case& c) { 
    std::vector<Text> p = pieces();
    if (i < p.size()) { c[0] = p[i]; c[1] = { 200000 }; c[2] = { 170000, 1 }; return; }
    i -= p.size();
    p = blocks();
    if (i < p.size()) { c[0] = p[i]; c[1] = { 500000 }; c[2] = { 170000, 2 }; return; }
    gen::ClassWalk(gen::gcb_representatives(), 3).make(i - p.size(), c[0]); c[1] = { 1000 }; c[2] = { 700 }; }
  void gen(Source& s, Case& c) {
    gen::text(s, c[0], s.weighted({ 4, 4, 2 }));
    c[1].push_back(s.chance(1, 5) ? 1 : s.range(1, 600));
    c[2].push_back(s.below(1 << 16));
  }
  static const uint64_t PER_OCTET = 400, FIXED = 1000;
  static double cpu() { timespec t; clock_gettime(CLOCK_PROCESS_CPUTIME_ID, &t); return t.tv_sec + t.tv_nsec * 1e-9; }
  // What is done to buffers of the library's own shows in the time only: over a
  // hundred times what it takes.
  static double limit(uint64_t n) {
#ifdef PBT_SANITIZED
    return 1 + n * 50e-6;
#else
    return 0.3 + n * 5e-6;
#endif
  }
  double started;
  void start() { work = 0; started = cpu(); }
  void bounded(Ctx& x, uint64_t n, const Text& t, const char* what, uint64_t out = 0) {
    x.checks++;
    double took = cpu() - started;
    if (getenv("L01_MEASURE")) fprintf(stderr, "%.3f %.4f %s\n", double(work) / (n + 8), took / limit(n + out), what);
    if (took > limit(n + out))
      x.fail("%s: %.2f s of processor time for a text of %llu units; repeated piece %s", what, took, (unsigned long long)n, show(t).c_str());
    if (work > PER_OCTET * n + FIXED)
      x.fail("%s: %llu reads and moves for a text of %llu units, which is over %llu for each; repeated piece %s", what, (unsigned long long)work, (unsigned long long)n, (unsigned long long)PER_OCTET, show(t).c_str());
  }
  template <class S> void all(Ctx& x, S& s, uint64_t n, size_t at, const Text& t, const std::string& what) {
    typedef typename S::const_iterator C;
    typedef u5e::basic_grapheme_iterator<S> G;
    uint64_t sum = 0, out;
    auto name = [&](const char* op) { return what + ", " + op; };
    start();
    for (auto i = s.codepoint_cbegin(), e = s.codepoint_cend(); i != e; i++) sum += *i;
    bounded(x, n, t, name("forward").c_str());
    start();
    for (auto i = s.codepoint_begin(), e = s.codepoint_end(); i != e; ++i) sum += *i;
    bounded(x, n, t, name("forward, mutable").c_str());
    start();
    for (auto i = s.codepoint_cend(), b = s.codepoint_cbegin(); i != b;) { --i; C j = i; sum += *j; }
    bounded(x, n, t, name("backward").c_str());
    start();
    { G e = s.grapheme_end(); for (G i = s.grapheme_begin(); i != e; i++) { auto g = *i; sum += g.codepoint_begin() == g.codepoint_end(); } }
    bounded(x, n, t, name("by grapheme").c_str());
    start();
    { G i(s.codepoint_cbegin(), s.codepoint_cend(), C(s.native_cbegin() + at)); sum += i == s.grapheme_end(); }
    bounded(x, n, t, name("a grapheme position in the middle").c_str());
    start();
    { S8 o; norm<ucd::FORM_D>(s, o); sum += out = o.native_string.size(); }
    bounded(x, n, t, name("form D").c_str(), out);
    start();
    { S32 o; norm<ucd::FORM_C>(s, o); sum += out = o.native_string.size(); }
    bounded(x, n, t, name("form C").c_str(), out);
    start();
    { S8 o; norm<ucd::FORM_KD>(s, o); sum += out = o.native_string.size(); }
    bounded(x, n, t, name("form KD").c_str(), out);
    start();
    { S32 o; norm<ucd::FORM_KC>(s, o); sum += out = o.native_string.size(); }
    bounded(x, n, t, name("form KC").c_str(), out);
    if (sum == 1) x.label("sum of 1");
  }
  void run(const Case& c, Ctx& x) {
    Text t;
    int how = at_or(c[2], 1, 0);
    size_t most = how == 0 ? 30000 : how == 1 ? 200000 : 500000;
    size_t k = c[0].empty() ? 0 : std::max<size_t>(std::min<size_t>(at_or(c[1], 0, 1), most / c[0].size()), 1);
    if (how < 2) for (size_t i = 0; i < k; i++) t.insert(t.end(), c[0].begin(), c[0].end());
    else for (int v : c[0]) t.insert(t.end(), k, v);
    std::string s = ucd::encode(t);
    label_size(x, t.size());
    if (t.size() > 500) x.nontrivial();
    if (t.size() > 5000) x.label("length >5000");
    L8 a{ Storage<char>(s) };
    L32 b{ Storage<int>(t) };
    size_t at = at_or(c[2], 0, 0);
    all(x, a, s.size(), at % (s.size() + 1), c[0], "UTF-8");
    all(x, b, t.size(), at % (t.size() + 1), c[0], "UTF-32");
    {
      S8 o;
      start();
      o.append<Storage<char>>(a.codepoint_cbegin(), a.codepoint_cend());
      bounded(x, s.size(), c[0], "append of codepoints");
      auto i = a.grapheme_begin(), e = a.grapheme_end();
      start();
      o.append<Storage<char>>(i, e);
      bounded(x, s.size(), c[0], "append of graphemes");
      start();
      o.append_from_utf32ne<Storage<int>>(b.codepoint_cbegin(), b.codepoint_cend());
      bounded(x, t.size(), c[0], "append_from_utf32ne");
    }
    // whatever the length of the text
    start();
    bool ok = u5e::utf8_bounds<Storage<char>::const_iterator>::check(a.native_string.cbegin(), a.native_string.cend());
    bounded(x, 0, c[0], "bounds check");
    check(x, ok, "the bounds check rejects a well-formed text");
    start();
    ok = u5e::utf8_bounds<Storage<char>::iterator>::enforce(a.native_string.begin(), a.native_string.end());
    bounded(x, 0, c[0], "bounds enforcement");
    check(x, ok, "bounds enforcement changes a well-formed text");
  }
};
PROPERTY(P)
