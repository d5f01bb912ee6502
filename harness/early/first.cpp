// Linked before the library.
#include "early.hpp"
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <string>
#include <thread>
#include <vector>
#include <experimental/string_view>
#include <fcntl.h>
#include <sys/wait.h>
#include <unistd.h>
#include <u5e/utf8_string.hpp>
#include <u5e/utf8_string_view.hpp>
#include <u5e/utf32ne_string.hpp>
#include <u5e/utf32ne_string_view.hpp>
#include <u5e/utf8_bounds.hpp>
#include <u5e/filter.hpp>
#include <u5e/canonical_decomposition.hpp>
#include <u5e/compatibility_and_canonical_decomposition.hpp>
#include <u5e/normalization_form_d.hpp>
#include <u5e/normalization_form_c.hpp>
#include <u5e/normalization_form_kd.hpp>
#include <u5e/normalization_form_kc.hpp>
#include <u5e/props/grapheme_cluster_break.hpp>
#include <u5e/props/canonical_combining_class.hpp>
#include <u5e/props/canonical_composition_mapping.hpp>

typedef u5e::utf8_string S8;
typedef u5e::utf8_string_view V8;
typedef u5e::utf32ne_string S32;
typedef std::vector<int> Ints;

template <class S, class R> static int form(int f, S& s, R& o) {
  switch (f) {
  case 0: return u5e::filter(s.grapheme_begin(), s.grapheme_end(), o, u5e::normalization_form_d<S, R>);
  case 1: return u5e::filter(s.grapheme_begin(), s.grapheme_end(), o, u5e::normalization_form_c<S, R>);
  case 2: return u5e::filter(s.grapheme_begin(), s.grapheme_end(), o, u5e::normalization_form_kd<S, R>);
  default: return u5e::filter(s.grapheme_begin(), s.grapheme_end(), o, u5e::normalization_form_kc<S, R>);
  }
}
template <class S> static void clusters(S& s, Ints& r, size_t max) {
  auto e = s.grapheme_end();
  for (auto i = s.grapheme_begin(); i != e && r.size() <= max; ++i) {
    auto g = *i;
    for (auto c = g.codepoint_begin(), d = g.codepoint_end(); c != d && r.size() <= max; ++c) r.push_back(int(*c));
    r.push_back(-1);
  }
}
// one call; t: codepoints of the text, s: the same in UTF-8
static Ints result(int op, int a, int b, const Ints& t, const std::string& s) {
  using namespace u5e::props;
  Ints r;
  switch (op) {
  case 0: {
    typedef grapheme_cluster_break B;
    static const B::prop_value_type v[] = { B::OTHER, B::PREPEND, B::CR, B::LF, B::CONTROL, B::EXTEND, B::REGIONAL_INDICATOR,
      B::SPACINGMARK, B::L, B::V, B::T, B::LV, B::LVT, B::E_BASE, B::E_MODIFIER, B::ZWJ, B::GLUE_AFTER_ZWJ, B::E_BASE_GAZ };
    B::prop_value_type got = B::resolve(a);
    for (int i = 0; i < 18; i++) if (v[i] == got) r.push_back(i);
    break;
  }
  case 1: r.push_back(canonical_combining_class::resolve(a)); break;
  case 2: { int c = -7; if (canonical_composition_mapping::resolve(a, b, &c)) r.push_back(c); else r.push_back(-1); break; }
  case 3: { S32 o; r.push_back(u5e::canonical_decomposition<S32>(a, o)); r.insert(r.end(), o.native_string.begin(), o.native_string.end()); break; }
  case 4: { S32 o; r.push_back(u5e::compatibility_and_canonical_decomposition<S32>(a, o)); r.insert(r.end(), o.native_string.begin(), o.native_string.end()); break; }
  case 5: { V8 v(std::experimental::string_view(s.data(), s.size())); clusters(v, r, 2 * t.size()); break; }
  case 6: { S32 v(std::basic_string<int>(t.begin(), t.end())); clusters(v, r, 2 * t.size()); break; }
  case 7: {
    S8 v(s);
    for (auto i = v.codepoint_begin(); i != v.codepoint_end() && r.size() <= t.size(); ++i) r.push_back(u5e::codepoint(*i).value);
    auto i = v.codepoint_cend();
    while (i != v.codepoint_cbegin() && r.size() <= 2 * t.size()) { --i; r.push_back(int(*i)); }
    break;
  }
  case 8: {
    size_t k = s.empty() ? 0 : a % s.size();
    std::string part(s, k, s.empty() ? 0 : b % (s.size() - k + 1));
    r.push_back(u5e::utf8_bounds<std::string::iterator>::check(part.begin(), part.end()));
    r.push_back(u5e::utf8_bounds<std::string::iterator>::enforce(part.begin(), part.end()));
    for (unsigned char c : part) r.push_back(c);
    break;
  }
  case 9: case 10: case 11: case 12: {
    V8 v(std::experimental::string_view(s.data(), s.size()));
    S8 o;
    r.push_back(form(op - 9, v, o));
    for (unsigned char c : o.native_string) r.push_back(c);
    break;
  }
  case 13: case 14: case 15: case 16: {
    S32 v(std::basic_string<int>(t.begin(), t.end())), o;
    r.push_back(form(op - 13, v, o));
    r.insert(r.end(), o.native_string.begin(), o.native_string.end());
    break;
  }
  case 17: {
    if (s.empty()) break;
    S8 v(s);
    u5e::basic_grapheme_iterator<S8> g(v.codepoint_cbegin(), v.codepoint_cend(), S8::const_iterator(v.native_cbegin() + a % s.size()));
    auto k = *g;
    for (auto c = k.codepoint_begin(), d = k.codepoint_end(); c != d && r.size() <= t.size(); ++c) r.push_back(int(*c));
    break;
  }
  case 18: {
    S32 v(std::basic_string<int>(t.begin(), t.end()));
    S8 o;
    o.append_from_utf32ne<std::basic_string<int>>(v.codepoint_cbegin(), v.codepoint_cend());
    for (unsigned char c : o.native_string) r.push_back(c);
    break;
  }
  default: { // written through the iterator
    std::string room(s.size() + 4, '#');
    S8 v(room);
    auto i = v.codepoint_begin();
    for (int c : t) { *i = u5e::codepoint(c); ++i; }
    for (unsigned char c : v.native_string) r.push_back(c);
  }
  }
  return r;
}

namespace early {
struct State {
  Ints in;                  // phase, op, a, b, ... after the text
  Ints text;
  std::string octets;
  std::string out;
};
static State* state() {      // never destroyed
  static State* s = 0;
  if (s) return s;
  s = new State;
  const char* f = getenv("EARLY_IN");
  int fd = f ? open(f, O_RDONLY) : -1;
  if (fd < 0) _exit(9);
  int head[3];
  if (read(fd, head, sizeof head) != sizeof head) _exit(9);
  s->text.resize(head[0]);
  s->octets.resize(head[1]);
  s->in.resize(head[2]);
  if (head[0] && read(fd, s->text.data(), 4 * head[0]) != 4 * head[0]) _exit(9);
  if (head[1] && read(fd, &s->octets[0], head[1]) != head[1]) _exit(9);
  if (head[2] && read(fd, s->in.data(), 4 * head[2]) != 4 * head[2]) _exit(9);
  close(fd);
  return s;
}
static void put(State* s, int v) { s->out.append((const char*)&v, 4); }
void now(int phase) {
  State* s = state();
  for (size_t i = 0; i + 4 <= s->in.size(); i += 4) {
    if (s->in[i] != phase) continue;
    Ints r = result(s->in[i + 1], s->in[i + 2], s->in[i + 3], s->text, s->octets);
    put(s, int(i / 4));
    put(s, int(r.size()));
    for (int v : r) put(s, v);
  }
}
void finish() {
  State* s = state();
  const char* f = getenv("EARLY_OUT");
  int fd = f ? open(f, O_WRONLY | O_CREAT | O_TRUNC, 0600) : -1;
  if (fd < 0 || write(fd, s->out.data(), s->out.size()) != (ssize_t)s->out.size()) _exit(9);
  close(fd);
}
struct AtEnd { int phase; AtEnd(int p) : phase(p) {} ~AtEnd() { now(phase); } };
static Unit whole_life __attribute__((init_priority(101)))(CTOR_FIRST, DTOR_LAST, true);
static Unit unit(CTOR_UNIT_FIRST, DTOR_UNIT_FIRST);
}
using namespace early;
static void at_exit() { now(AT_EXIT); }
int main() {
  AtEnd local(MAIN_LOCAL_DTOR);
  atexit(at_exit);
  now(MAIN);
  bool in_thread = false, in_child = false;
  State* s = state();
  for (size_t i = 0; i + 4 <= s->in.size(); i += 4) {
    in_thread |= s->in[i] == THREAD || s->in[i] == THREAD_LOCAL_DTOR;
    in_child |= s->in[i] == CHILD;
  }
  if (in_thread) std::thread([]() {
    static thread_local AtEnd mine(THREAD_LOCAL_DTOR);
    (void)mine.phase;
    now(THREAD);
  }).join();
  if (in_child) {
    int p[2];
    if (pipe(p)) return 9;
    pid_t c = fork();
    if (c < 0) return 9;
    if (c == 0) {
      s->out.clear();
      now(CHILD);
      size_t at = 0;
      while (at < s->out.size()) { ssize_t n = write(p[1], s->out.data() + at, s->out.size() - at); if (n <= 0) _exit(9); at += n; }
      _exit(0);
    }
    close(p[1]);
    char buf[4096];
    for (ssize_t n; (n = read(p[0], buf, sizeof buf)) > 0;) s->out.append(buf, n);
    close(p[0]);
    int status;
    if (waitpid(c, &status, 0) != c || status != 0) return 8;
  }
  return 0;
}
