// Independent reference model of the parts of Unicode 9.0 and UTF-8 that u5e
// promises. Built at start-up from the official data files in /verif/data;
// shares no code and no generated table with the code under test. Everything
// here is written to be obviously right, not fast.
#ifndef VERIF_UCD_HPP
#define VERIF_UCD_HPP
#include <cstdint>
#include <string>
#include <utility>
#include <vector>
#include <map>

namespace ucd {
typedef std::vector<int> Text;

enum Gcb { OTHER, PREPEND, CR, LF, CONTROL, EXTEND, REGIONAL_INDICATOR,
           SPACINGMARK, L, V, T, LV, LVT, E_BASE, E_MODIFIER, ZWJ,
           GLUE_AFTER_ZWJ, E_BASE_GAZ, GCB_COUNT };
extern const char* const gcb_names[GCB_COUNT];

void load(const std::string& data_dir);

// ---- character data (any int is accepted)
int ccc(int c);
Gcb gcb(int c);
bool has_canonical(int c);              // canonical mapping, Hangul included
bool has_compat(int c);                 // any mapping at all, Hangul included
bool is_hangul_syllable(int c);
void canonical_full(int c, Text& out);  // appends the full decomposition or c
void compat_full(int c, Text& out);
const std::string& tag(int c);          // "", "<compat>", ...
bool compose(int a, int b, int* c);     // primary composite
bool is_scalar(int c);                  // 0..10FFFF without surrogates

// ---- whole text operations, by definition
Text decompose(const Text& t, bool compat);
Text reorder(Text t);                   // canonical ordering algorithm
Text compose_text(const Text& t);       // canonical composition algorithm
enum Form { FORM_D, FORM_C, FORM_KD, FORM_KC };
Text normalize(const Text& t, Form f);
extern const char* const form_names[4];

bool is_grapheme_break(const Text& t, size_t i);   // boundary before t[i]?
std::vector<size_t> grapheme_starts(const Text& t); // plus t.size() at the end

// normalization applied cluster by cluster (not a definition of the standard)
Text normalize_by_grapheme(const Text& t, Form f);

// ---- UTF-8
void encode(int c, std::string& out);
std::string encode(const Text& t);
int seq_length(unsigned char lead);     // announced length; 1 if not a lead
bool is_cont(unsigned char o);

// ---- pools used by the generators
struct Pools {
  std::vector<std::vector<int>> by_gcb;           // members (sampled by range edges too)
  std::vector<int> ccc_values;                    // distinct non-zero classes
  std::map<int, std::vector<int>> by_ccc;
  std::vector<int> non_starters;
  std::vector<int> canonical;                     // with a canonical mapping
  std::vector<int> compat;                        // with a compatibility mapping
  std::map<std::string, std::vector<int>> by_tag;
  std::vector<std::string> tags;
  std::vector<std::pair<std::pair<int,int>,int>> pairs; // table composites
  std::vector<int> firsts, seconds;
  std::vector<int> excluded;                      // canonical, but never composed
  std::vector<int> singletons;
  std::vector<int> starter_seconds;               // ccc 0 codepoints that compose backward
  std::vector<int> gcb_edges;                     // first/last of each range, and neighbours
};
extern Pools pools;
}
#endif
