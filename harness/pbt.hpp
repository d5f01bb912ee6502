// A small property-based testing engine: deterministic generation from
// (seed, index), forked workers, crash and hang containment, shrinking,
// replay files. The same property runs under libFuzzer (ByteSource).
#ifndef VERIF_PBT_HPP
#define VERIF_PBT_HPP
#include <cstdint>
#include <initializer_list>
#include <string>
#include <vector>

namespace pbt {
typedef std::vector<int> Field;
typedef std::vector<Field> Case;   // one Field per FieldSpec

struct Failure { std::string msg; };

// Where every random choice comes from.
class Source {
public:
  virtual ~Source() {}
  virtual uint64_t bits(int nbytes) = 0;
  virtual bool exhausted() const { return false; }
  uint64_t below(uint64_t n) {                 // 0 .. n-1
    if (n < 2) return 0;
    int b = n <= 0x100 ? 1 : n <= 0x10000 ? 2 : n <= 0x1000000 ? 3 : 8;
    return (wide() ? bits(8) : bits(b)) % n;
  }
  int range(int a, int b) { return a + int(below(uint64_t(b) - a + 1)); }
  bool chance(int num, int den) { return int(below(den)) < num; }
  template <class T> const T& pick(const std::vector<T>& v) { return v[below(v.size())]; }
  int pick(std::initializer_list<int> v) { return *(v.begin() + below(v.size())); }
  int weighted(std::initializer_list<int> w) {
    int sum = 0, i = 0;
    for (int x : w) sum += x;
    int r = below(sum);
    for (int x : w) { if (r < x) return i; r -= x; i++; }
    return 0;
  }
protected:
  virtual bool wide() const { return true; }
};

class RandomSource : public Source {
  uint64_t s[4];
public:
  RandomSource(uint64_t seed, uint64_t index);
  uint64_t bits(int) override;
};

class ByteSource : public Source {
  const uint8_t* p; const uint8_t* e;
public:
  ByteSource(const uint8_t* d, size_t n) : p(d), e(d + n) {}
  uint64_t bits(int nbytes) override {
    uint64_t v = 0;
    while (nbytes-- > 0) v = v << 8 | (p < e ? *p++ : 0);
    return v;
  }
  bool exhausted() const override { return p >= e; }
protected:
  bool wide() const override { return false; }
};

// What a running case reports.
class Ctx {
public:
  bool interesting = false;
  uint64_t checks = 0;
  bool stats = true;
  void nontrivial() { interesting = true; }
  void label(const char* name);                // distribution of the cases
  void fail(const char* fmt, ...) __attribute__((format(printf, 2, 3)));
  // Is this recorded finding to be kept out of the generated inputs?
  bool excluded(const char* finding) const;
};

enum Kind { SCALARS, OCTETS, INTS, ANYINTS };
struct FieldSpec { const char* name; Kind kind; };

class Property {
public:
  virtual ~Property() {}
  virtual const char* id() const = 0;
  virtual const char* rule() const = 0;        // how made, what is non-trivial
  virtual std::vector<FieldSpec> fields() const = 0;
  virtual void setup() {}
  virtual void gen(Source&, Case&) = 0;
  virtual uint64_t enum_count(bool /*thorough*/) { return 0; } // cases run first, by index
  virtual void enum_case(uint64_t, Case&) {}
  virtual const char* enum_what(bool) { return ""; }
  // Large inputs, run after the enumerated ones: a generated case with its
  // first field replaced by a large text or octet string of up to big() elements
  // (more for the last cluster).
  virtual int big() { return 0; }
  // More than the usual limits: how many seconds a single case may take, and
  // how much address space.
  virtual int seconds() const { return 0; }
  virtual uint64_t memory() const { return 1536ul << 20; }
  // Must accept any case: SCALARS hold scalar values, OCTETS 0..255, INTS >= 0.
  virtual void run(const Case&, Ctx&) = 0;
};
Property* make_property();

std::string show(const std::vector<int>& text);
std::string show_octets(const std::string& s);
std::string octets(const Field& f);
}
#endif
