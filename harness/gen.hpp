// Stratified generators for texts, octet strings and positions.
#ifndef VERIF_GEN_HPP
#define VERIF_GEN_HPP
#include "pbt.hpp"
#include "ucd.hpp"

namespace gen {
typedef std::vector<int> Text;
using pbt::Source;

int scalar(Source& s);              // any scalar value, interesting ones often
int starter(Source& s);
int mark(Source& s);                // ccc != 0
int any_int(Source& s);             // also outside the codespace

// A text. size: 0 tiny (<= 4), 1 small (<= ~24), 2 medium (<= ~200), 3 long.
// -1: mixed, mostly small.
void text(Source& s, Text& out, int size = -1);

// What a destination holds before: a short text, often one that has to do
// with the text t (ends as t begins, is a part of t, a form of one).
void before(Source& s, const Text& t, Text& out);

// Large texts, up to at least max codepoints: long runs of one class, long
// clusters, many clusters, sizes around powers of two.
const uint64_t BIG = 120;
void big(uint64_t i, Text& out, int max);
void big_octets(uint64_t i, std::vector<int>& out, int max);

// All scalar values, in texts of "per" of them, each between two others.
uint64_t sweep_count(int per);
void sweep(uint64_t i, Text& out, int per);

// Octets: well-formed, nearly well-formed, and noise.
void octet_string(Source& s, std::vector<int>& out, int size = -1);

// The sequences of grapheme break classes of length 0..n, each class by one
// or two representatives.
struct ClassWalk {
  std::vector<int> alphabet;
  int max_len;
  uint64_t total;
  ClassWalk(const std::vector<int>& a, int n) : alphabet(a), max_len(n), total(0) {
    uint64_t k = 1;
    for (int i = 0; i <= n; i++) { total += k; k *= alphabet.size(); }
  }
  void make(uint64_t i, Text& out) const {
    uint64_t k = 1;
    int len = 0;
    while (i >= k) { i -= k; k *= alphabet.size(); len++; }
    for (int j = 0; j < len; j++) { out.push_back(alphabet[i % alphabet.size()]); i /= alphabet.size(); }
  }
};
std::vector<int> gcb_representatives();   // one per class
uint64_t scalars_count();                 // number of scalar values
int nth_scalar(uint64_t i);
}
#endif
