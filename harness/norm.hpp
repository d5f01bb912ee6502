// Calling the normalization forms by number, and deciding them on texts.
#ifndef VERIF_NORM_HPP
#define VERIF_NORM_HPP
#include "common.hpp"
#include <u5e/filter.hpp>
#include <u5e/normalization_form_d.hpp>
#include <u5e/normalization_form_c.hpp>
#include <u5e/normalization_form_kd.hpp>
#include <u5e/normalization_form_kc.hpp>

template <int F, class In, class Out> struct FormOf;
template <class In, class Out> struct FormOf<ucd::FORM_D, In, Out> { static int f(u5e::basic_grapheme<In> g, Out& o) { return u5e::normalization_form_d<In, Out>(g, o); } };
template <class In, class Out> struct FormOf<ucd::FORM_C, In, Out> { static int f(u5e::basic_grapheme<In> g, Out& o) { return u5e::normalization_form_c<In, Out>(g, o); } };
template <class In, class Out> struct FormOf<ucd::FORM_KD, In, Out> { static int f(u5e::basic_grapheme<In> g, Out& o) { return u5e::normalization_form_kd<In, Out>(g, o); } };
template <class In, class Out> struct FormOf<ucd::FORM_KC, In, Out> { static int f(u5e::basic_grapheme<In> g, Out& o) { return u5e::normalization_form_kc<In, Out>(g, o); } };

// As the documentation does it.
template <int F, class In, class Out> int norm(In& in, Out& out) {
  return u5e::filter(in.grapheme_begin(), in.grapheme_end(), out, FormOf<F, In, Out>::f);
}
template <class In, class Out> int norm(int form, In& in, Out& out) {
  switch (form) {
  case ucd::FORM_D: return norm<ucd::FORM_D>(in, out);
  case ucd::FORM_C: return norm<ucd::FORM_C>(in, out);
  case ucd::FORM_KD: return norm<ucd::FORM_KD>(in, out);
  default: return norm<ucd::FORM_KC>(in, out);
  }
}
inline std::string content(const S8& s) { return s.native_string; }
inline Text content(const S32& s) { return text_of(s.native_string); }

// Form KC of a text that falls under the recorded finding: letters that
// compose only after their compatibility expansion, in different clusters.
inline bool kc_across_graphemes(const Text& t) {
  return ucd::normalize(t, ucd::FORM_KC) != ucd::normalize_by_grapheme(t, ucd::FORM_KC);
}
#endif
