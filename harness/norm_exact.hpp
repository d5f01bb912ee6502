// N01 to N04: one form, on every text, in every combination of storages.
#include "norm.hpp"

struct P : Property {
  const char* id() const { return FORM_ID; }
  const char* rule() const {
    return "every scalar value alone, every sequence over a small alphabet of starters, marks, Hangul parts and composites, then "
           "texts; each normalized from UTF-8 and UTF-32, strings and views, to UTF-8 and UTF-32; non-trivial: the form of "
           "the text differs from the text";
  }
  int big() { return 70000; }
  std::vector<FieldSpec> fields() const { return { { "text", SCALARS } }; }
  std::vector<int> alphabet;
  void setup() {
    //           A     e.g. ccc 230 230    220    202    202    240    1      0      L       V       LV      T
    alphabet = { 0x41, 0x300, 0x308, 0x323, 0x327, 0x328, 0x345, 0x338, 0x6F, 0x1100, 0x1161, 0xAC00, 0x11A8,
    // composites, a non-starter that decomposes, starters that compose backward, a singleton, an exclusion
                 0xC4, 0x1ED9, 0x344, 0x9C7, 0x9BE, 0x212B, 0x958 };
    if (FORM >= ucd::FORM_KD) for (int c : { 0xFB03, 0xFDFA, 0xA8, 0x3131, 0x314F, 0xFFC2 }) alphabet.push_back(c);
  }
  int depth(bool thorough) { return thorough ? 4 : 3; }
  uint64_t enum_count(bool thorough) { return ucd_scalars() + gen::ClassWalk(alphabet, depth(thorough)).total; }
  static uint64_t ucd_scalars() { return gen::scalars_count(); }
  const char* enum_what(bool t) {
    return t ? "every scalar value; every sequence of up to 4 over an alphabet of 20 (26 for KD and KC)"
             : "every scalar value; every sequence of up to 3 over an alphabet of 20 (26 for KD and KC)";
  }
  void enum_case(uint64_t i, Case& c) {
    if (i < ucd_scalars()) c[0].push_back(gen::nth_scalar(i));
    else gen::ClassWalk(alphabet, 4).make(i - ucd_scalars(), c[0]);
  }
  void gen(Source& s, Case& c) { gen::text(s, c[0]); }

  template <class In> void both(Ctx& x, In& in, const Text& want, const std::string& want8, const Text& t, const char* from) {
    S8 o8;
    norm<FORM>(in, o8);
    x.checks++;
    if (o8.native_string != want8)
      x.fail("form %s of %s, %s to UTF-8:\n  got  %s\n  want %s", ucd::form_names[FORM], show(t).c_str(), from,
             show_octets(o8.native_string).c_str(), show_octets(want8).c_str());
    S32 o32;
    norm<FORM>(in, o32);
    Text got = content(o32);
    x.checks++;
    if (got != want)
      x.fail("form %s of %s, %s to UTF-32:\n  got  %s\n  want %s", ucd::form_names[FORM], show(t).c_str(), from, show(got).c_str(), show(want).c_str());
  }
  void run(const Case& c, Ctx& x) {
    const Text& t = c[0];
    Text want = ucd::normalize(t, FORM);
    if (FORM == ucd::FORM_KC) {
      Text by = ucd::normalize_by_grapheme(t, FORM);
      if (by != want) {
        x.label("needs composition across clusters");
        // see known_findings.txt; even so the clusters must each be right
        if (x.excluded("kc-across-graphemes")) want = by;
      }
    }
    std::string s = ucd::encode(t), want8 = ucd::encode(want);
    if (want != t) x.nontrivial();
    label_size(x, t.size());
    { S8 in(s); both(x, in, want, want8, t, "UTF-8 string"); }
    { S32 in = s32(t); both(x, in, want, want8, t, "UTF-32 string"); }
    if (guard().fits(s.size())) { V8 in(sview(guard().right(s), s.size())); both(x, in, want, want8, t, "UTF-8 view"); }
    if (guard().fits(t.size() * 4)) {
      int* p = (int*)guard().last(t.size() * 4);
      std::copy(t.begin(), t.end(), p);
      V32 in(iview(p, t.size()));
      both(x, in, want, want8, t, "UTF-32 view");
    }
  }
};
PROPERTY(P)
