#include "ucd.hpp"
#include <algorithm>
#include <cstdio>
#include <cstdlib>
#include <fstream>
#include <set>
#include <sstream>
#include <unordered_map>
#include <unordered_set>

namespace ucd {
const char* const gcb_names[GCB_COUNT] = {
  "Other", "Prepend", "CR", "LF", "Control", "Extend", "Regional_Indicator",
  "SpacingMark", "L", "V", "T", "LV", "LVT", "E_Base", "E_Modifier", "ZWJ",
  "Glue_After_Zwj", "E_Base_GAZ" };
const char* const form_names[4] = { "D", "C", "KD", "KC" };
Pools pools;

static const int MAXCP = 0x110000;
static std::vector<uint8_t> ccc_tab, gcb_tab;
struct Mapping { std::string tag; Text to; };
static std::unordered_map<int, Mapping> mappings;
static std::unordered_set<int> exclusions;
static std::map<std::pair<int,int>, int> composites;
static const std::string empty_tag;

static void die(const std::string& m) {
  fprintf(stderr, "ucd: %s\n", m.c_str());
  exit(3);
}

int ccc(int c) { return (c < 0 || c >= MAXCP) ? 0 : ccc_tab[c]; }
Gcb gcb(int c) { return (c < 0 || c >= MAXCP) ? OTHER : Gcb(gcb_tab[c]); }
bool is_hangul_syllable(int c) { return c >= 0xAC00 && c < 0xAC00 + 11172; }
bool is_scalar(int c) { return c >= 0 && c < MAXCP && !(c >= 0xD800 && c <= 0xDFFF); }
const std::string& tag(int c) {
  auto it = mappings.find(c);
  return it == mappings.end() ? empty_tag : it->second.tag;
}
bool has_canonical(int c) {
  if (is_hangul_syllable(c)) return true;
  auto it = mappings.find(c);
  return it != mappings.end() && it->second.tag.empty();
}
bool has_compat(int c) {
  return is_hangul_syllable(c) || mappings.count(c);
}
static void full(int c, bool compat, Text& out) {
  if (is_hangul_syllable(c)) {
    // The Unicode Standard, 3.12
    const int LBase = 0x1100, VBase = 0x1161, TBase = 0x11A7, VCount = 21, TCount = 28;
    int s = c - 0xAC00;
    out.push_back(LBase + s / (VCount * TCount));
    out.push_back(VBase + (s % (VCount * TCount)) / TCount);
    if (s % TCount) out.push_back(TBase + s % TCount);
    return;
  }
  auto it = mappings.find(c);
  if (it == mappings.end() || (!compat && !it->second.tag.empty())) {
    out.push_back(c);
    return;
  }
  for (int x : it->second.to) full(x, compat, out);
}
void canonical_full(int c, Text& out) { full(c, false, out); }
void compat_full(int c, Text& out) { full(c, true, out); }

bool compose(int a, int b, int* c) {
  if (a >= 0x1100 && a < 0x1100 + 19 && b >= 0x1161 && b < 0x1161 + 21) {
    *c = 0xAC00 + ((a - 0x1100) * 21 + (b - 0x1161)) * 28;
    return true;
  }
  if (is_hangul_syllable(a) && (a - 0xAC00) % 28 == 0 && b > 0x11A7 && b < 0x11A7 + 28) {
    *c = a + (b - 0x11A7);
    return true;
  }
  auto it = composites.find(std::make_pair(a, b));
  if (it == composites.end()) return false;
  *c = it->second;
  return true;
}

Text decompose(const Text& t, bool compat) {
  Text out;
  for (int c : t) full(c, compat, out);
  return out;
}

Text reorder(Text t) {
  // D108/D109: exchange adjacent reorderable pairs until there is none. Done
  // by insertion, which performs exactly those exchanges.
  if (t.size() <= 3000) {
    for (size_t i = 1; i < t.size(); i++)
      for (size_t j = i; j > 0 && ccc(t[j]) != 0 && ccc(t[j-1]) > ccc(t[j]); j--)
        std::swap(t[j-1], t[j]);
    return t;
  }
  // Large: the exchanges order every run of non-starters by class and keep
  // equal classes in their order, so collect the run class by class.
  for (size_t i = 0; i < t.size();) {
    size_t j = i;
    std::map<int, Text> by;
    while (j < t.size() && ccc(t[j]) != 0) { by[ccc(t[j])].push_back(t[j]); j++; }
    for (auto& b : by) for (int c : b.second) t[i++] = c;
    i = j + 1;
  }
  return t;
}

Text compose_text(const Text& t) {
  // D117: for each character C from the second on, find the last starter L
  // before it that is not blocked from C (D115: no B between them with
  // ccc(B) == 0 or ccc(B) >= ccc(C)); if <L, C> has a primary composite,
  // replace L by it and delete C.
  const int GONE = -2000000000;
  Text w = t;
  for (size_t i = 1; i < w.size(); i++) {
    int cc = ccc(w[i]);
    size_t j = i;
    bool blocked = false, found = false;
    while (j-- > 0) {
      if (w[j] == GONE) continue;
      if (ccc(w[j]) == 0) { found = true; break; }
      if (ccc(w[j]) >= cc) { blocked = true; break; }
    }
    int p;
    if (found && !blocked && compose(w[j], w[i], &p)) {
      w[j] = p;
      w[i] = GONE;
    }
  }
  Text out;
  for (int c : w) if (c != GONE) out.push_back(c);
  return out;
}

Text normalize(const Text& t, Form f) {
  Text d = reorder(decompose(t, f == FORM_KD || f == FORM_KC));
  return (f == FORM_C || f == FORM_KC) ? compose_text(d) : d;
}

// UAX #29 revision 29 (Unicode 9.0), extended grapheme clusters. Each rule
// looks at the text around position i, in the order of the annex.
namespace { struct Look { size_t extends, indicators; }; }  // in a row, before i
static bool is_break(const Text& t, size_t i, const Look* look) {
  if (t.empty()) return false;
  if (i == 0 || i >= t.size()) return true;                       // GB1 GB2
  Gcb a = gcb(t[i-1]), b = gcb(t[i]);
  if (a == CR && b == LF) return false;                           // GB3
  if (a == CONTROL || a == CR || a == LF) return true;            // GB4
  if (b == CONTROL || b == CR || b == LF) return true;            // GB5
  if (a == L && (b == L || b == V || b == LV || b == LVT)) return false; // GB6
  if ((a == LV || a == V) && (b == V || b == T)) return false;    // GB7
  if ((a == LVT || a == T) && b == T) return false;               // GB8
  if (b == EXTEND || b == ZWJ) return false;                      // GB9
  if (b == SPACINGMARK) return false;                             // GB9a
  if (a == PREPEND) return false;                                 // GB9b
  if (b == E_MODIFIER) {                                          // GB10
    size_t j = i;
    if (look) j -= look->extends;
    else while (j > 0 && gcb(t[j-1]) == EXTEND) j--;
    if (j > 0 && (gcb(t[j-1]) == E_BASE || gcb(t[j-1]) == E_BASE_GAZ)) return false;
  }
  if (a == ZWJ && (b == GLUE_AFTER_ZWJ || b == E_BASE_GAZ)) return false; // GB11
  if (b == REGIONAL_INDICATOR) {                                  // GB12 GB13
    size_t n = 0;
    if (look) n = look->indicators;
    else while (n < i && gcb(t[i-1-n]) == REGIONAL_INDICATOR) n++;
    if (n % 2 == 1) return false;
  }
  return true;                                                    // GB999
}

bool is_grapheme_break(const Text& t, size_t i) { return is_break(t, i, 0); }
std::vector<size_t> grapheme_starts(const Text& t) {
  std::vector<size_t> r;
  // is_grapheme_break looks back only as far as it needs to; in large texts
  // that is counted on the way
  Look look = { 0, 0 };
  for (size_t i = 0; i < t.size(); i++) {
    if (is_break(t, i, t.size() > 3000 ? &look : 0)) r.push_back(i);
    Gcb g = gcb(t[i]);
    look.extends = g == EXTEND ? look.extends + 1 : 0;
    look.indicators = g == REGIONAL_INDICATOR ? look.indicators + 1 : 0;
  }
  r.push_back(t.size());
  return r;
}

Text normalize_by_grapheme(const Text& t, Form f) {
  Text out;
  std::vector<size_t> g = grapheme_starts(t);
  for (size_t k = 0; k + 1 < g.size(); k++) {
    Text n = normalize(Text(t.begin() + g[k], t.begin() + g[k+1]), f);
    out.insert(out.end(), n.begin(), n.end());
  }
  return out;
}

void encode(int c, std::string& out) {
  if (c < 0x80) {
    out += char(c);
  } else if (c < 0x800) {
    out += char(0xC0 | (c >> 6));
    out += char(0x80 | (c & 0x3F));
  } else if (c < 0x10000) {
    out += char(0xE0 | (c >> 12));
    out += char(0x80 | ((c >> 6) & 0x3F));
    out += char(0x80 | (c & 0x3F));
  } else {
    out += char(0xF0 | (c >> 18));
    out += char(0x80 | ((c >> 12) & 0x3F));
    out += char(0x80 | ((c >> 6) & 0x3F));
    out += char(0x80 | (c & 0x3F));
  }
}
std::string encode(const Text& t) {
  std::string s;
  for (int c : t) encode(c, s);
  return s;
}
bool is_cont(unsigned char o) { return o >= 0x80 && o <= 0xBF; }
int seq_length(unsigned char o) {
  if (o < 0xC0) return 1;
  if (o < 0xE0) return 2;
  if (o < 0xF0) return 3;
  if (o < 0xF8) return 4;
  if (o < 0xFC) return 5;
  if (o < 0xFE) return 6;
  if (o < 0xFF) return 7;
  return 8;
}

static std::vector<std::string> split(const std::string& s, char d) {
  std::vector<std::string> r(1);
  for (char c : s) { if (c == d) r.push_back(""); else r.back() += c; }
  return r;
}
static std::string strip(std::string s) {
  size_t h = s.find('#');
  if (h != std::string::npos) s.erase(h);
  while (!s.empty() && (s.back() == ' ' || s.back() == '\r' || s.back() == '\t')) s.pop_back();
  return s;
}

void load(const std::string& dir) {
  if (!ccc_tab.empty()) return;
  ccc_tab.assign(MAXCP, 0);
  gcb_tab.assign(MAXCP, OTHER);
  std::ifstream u(dir + "/UnicodeData.txt");
  if (!u) die("no " + dir + "/UnicodeData.txt");
  std::string line;
  while (std::getline(u, line)) {
    if (line.empty()) continue;
    std::vector<std::string> f = split(line, ';');
    if (f.size() < 6) die("bad line " + line);
    int c = strtol(f[0].c_str(), 0, 16);
    ccc_tab[c] = atoi(f[3].c_str());
    if (!f[5].empty()) {
      Mapping m;
      std::istringstream is(f[5]);
      std::string w;
      while (is >> w) {
        if (w[0] == '<') m.tag = w;
        else m.to.push_back(strtol(w.c_str(), 0, 16));
      }
      mappings[c] = m;
    }
  }
  std::ifstream x(dir + "/CompositionExclusions.txt");
  if (!x) die("no CompositionExclusions.txt");
  while (std::getline(x, line)) {
    line = strip(line);
    if (!line.empty()) exclusions.insert(strtol(line.c_str(), 0, 16));
  }
  std::ifstream g(dir + "/GraphemeBreakProperty.txt");
  if (!g) die("no GraphemeBreakProperty.txt");
  std::set<int> edges;
  while (std::getline(g, line)) {
    line = strip(line);
    if (line.empty()) continue;
    size_t semi = line.find(';');
    std::string range = line.substr(0, semi), name = line.substr(semi + 1);
    name.erase(0, name.find_first_not_of(' '));
    int a = strtol(range.c_str(), 0, 16), b = a;
    size_t dots = range.find("..");
    if (dots != std::string::npos) b = strtol(range.c_str() + dots + 2, 0, 16);
    int v = -1;
    for (int i = 0; i < GCB_COUNT; i++) if (name == gcb_names[i]) v = i;
    if (v < 0) die("unknown grapheme break value '" + name + "'");
    for (int c = a; c <= b; c++) gcb_tab[c] = v;
    edges.insert(a); edges.insert(b);
    if (a > 0) edges.insert(a - 1);
    edges.insert(b + 1);
  }
  // primary composites
  for (auto& kv : mappings) {
    int c = kv.first;
    const Mapping& m = kv.second;
    if (!m.tag.empty() || m.to.size() != 2) continue;       // singletons
    if (exclusions.count(c)) continue;
    if (ccc(c) != 0 || ccc(m.to[0]) != 0) continue;         // non-starter decompositions
    composites[std::make_pair(m.to[0], m.to[1])] = c;
  }
  // pools
  Pools& p = pools;
  p.by_gcb.resize(GCB_COUNT);
  for (int c = 0; c < MAXCP; c++) {
    if (!is_scalar(c)) continue;
    if (gcb_tab[c] != OTHER) p.by_gcb[gcb_tab[c]].push_back(c);
    if (ccc_tab[c]) {
      p.by_ccc[ccc_tab[c]].push_back(c);
      p.non_starters.push_back(c);
    }
    auto it = mappings.find(c);
    if (it == mappings.end()) continue;
    const Mapping& m = it->second;
    if (m.tag.empty()) {
      p.canonical.push_back(c);
      if (m.to.size() == 1) p.singletons.push_back(c);
      else if (!composites.count(std::make_pair(m.to[0], m.to[1]))
               || composites[std::make_pair(m.to[0], m.to[1])] != c) p.excluded.push_back(c);
    } else {
      p.compat.push_back(c);
      p.by_tag[m.tag].push_back(c);
    }
  }
  for (int c : std::initializer_list<int>{ 'a', 'b', 'x', '0', ' ', 0xE9, 0x3B1, 0x915, 0x4E00, 0x3042, 0x1F4A9, 0x10FFFD })
    if (gcb(c) == OTHER) p.by_gcb[OTHER].push_back(c);
  for (auto& kv : p.by_ccc) p.ccc_values.push_back(kv.first);
  for (auto& kv : p.by_tag) p.tags.push_back(kv.first);
  std::set<int> fs, ss;
  for (auto& kv : composites) {
    p.pairs.push_back(kv);
    fs.insert(kv.first.first);
    ss.insert(kv.first.second);
    if (ccc(kv.first.second) == 0) p.starter_seconds.push_back(kv.first.second);
  }
  p.firsts.assign(fs.begin(), fs.end());
  p.seconds.assign(ss.begin(), ss.end());
  for (int c : edges) if (is_scalar(c)) p.gcb_edges.push_back(c);
  if (p.pairs.size() < 900 || p.canonical.size() < 2000 || p.compat.size() < 3000)
    die("incomplete Unicode data");
}
}
