"""C02: public headers in any company. Generated programs of one to three
translation units, each including public and standard headers in any order
(some more than once, some with a user's own names around) and using what the
headers declare. Every program has to compile, link and compute the right
values; the values are written in the snippets.
"""
import glob, os, random, re, subprocess, time
from concurrent.futures import ThreadPoolExecutor

T8 = 'std::string("a\\xC3\\xA9\\xE2\\x82\\xAC\\xF0\\x9F\\x92\\xA9")'          # a U+E9 U+20AC U+1F4A9
M8 = 'std::string("q\\xCC\\x87\\xCC\\xA3\\xEF\\xAC\\x83\\xEA\\xB0\\x81")'      # q U+307 U+323 U+FB03 U+AC01
NFD8 = 'std::string("q\\xCC\\xA3\\xCC\\x87\\xEF\\xAC\\x83\\xE1\\x84\\x80\\xE1\\x85\\xA1\\xE1\\x86\\xA8")'
NFC8 = 'std::string("q\\xCC\\xA3\\xCC\\x87\\xEF\\xAC\\x83\\xEA\\xB0\\x81")'
NFKD8 = 'std::string("q\\xCC\\xA3\\xCC\\x87" "ffi\\xE1\\x84\\x80\\xE1\\x85\\xA1\\xE1\\x86\\xA8")'
NFKC8 = 'std::string("q\\xCC\\xA3\\xCC\\x87" "ffi\\xEA\\xB0\\x81")'
I32 = "const int d[] = { 'a', 0xE9, 0x20AC, 0x1F4A9 };"
M32 = "const int d[] = { 'q', 0x307, 0x323, 0xFB03, 0xAC01 };"
ISTR = "std::basic_string<int>"
IVIEW = "std::experimental::basic_string_view<int>"
SVIEW = "std::experimental::string_view"


def walk(t):
    return """%s s(n_);
  { int k = 0; unsigned sum = 0; for (%s::const_iterator i = s.codepoint_cbegin(); i != s.codepoint_cend(); ++i) { k++; sum = sum * 31 + *i; } OK(k == 4); OK(sum == ((97u * 31 + 0xE9) * 31 + 0x20AC) * 31 + 0x1F4A9); }
  { int k = 0; for (%s::iterator i = s.codepoint_begin(); i != s.codepoint_end(); i++) k += *i == 0xE9; OK(k == 1); }
  { int k = 0; %s::const_iterator i = s.codepoint_cend(); while (i != s.codepoint_cbegin()) { --i; k++; } OK(k == 4); }
  { int k = 0; for (auto g = s.grapheme_begin(); g != s.grapheme_end(); g++) k++; OK(k == 4); }""" % (t, t, t, t)


def graphemes(t):
    return """%s s(n_);
  int k = 0, c = 0; for (auto g = s.grapheme_begin(); g != s.grapheme_end(); g++) { auto p = *g; k++; for (auto i = p.codepoint_begin(); i != p.codepoint_end(); i++) c++; } OK(k == 3); OK(c == 5);""" % t


def form(f, n, fourth):
    return [(["string"], M32 + " u5e::utf32ne_string s((%s(d, 5))), o; int n = u5e::filter(s.grapheme_begin(), s.grapheme_end(), o, u5e::normalization_form_%s<u5e::utf32ne_string>); "
             "OK(n == %d); OK(o.native_string.size() == %d); OK(o.native_string[1] == 0x323); OK(o.native_string[3] == %s);" % (ISTR, f, n, n, fourth))]


# header -> [(standard headers the snippet itself needs, body)]
USE = {
    "version.hpp": [([], "OK(u5e::version::compile_time::major == u5e::version::run_time::major); OK(u5e::version::compile_time::minor == u5e::version::run_time::minor); OK(u5e::version::compile_time::patch == u5e::version::run_time::patch);")],
    "codepoint_traits.hpp": [([], "u5e::codepoint_traits::int_type v = 0x10FFFF; OK(v == 1114111); OK(sizeof(u5e::codepoint_traits::int_type) == 4);")],
    "codepoint.hpp": [([], "u5e::codepoint a, b(0x41), c = 0x41; OK(a == 0); OK(b == c); a = c; OK(a == b); a = 7; OK(a.value == 7); int v = b; OK(v == 65); OK(65 == c);")],
    "utf8_util.hpp": [([], "OK(u5e::utf8_util::codepoint_size('a') == 1); OK(u5e::utf8_util::codepoint_size((char)0xE2) == 3); OK(u5e::utf8_util::is_codepoint_continuation((char)0x82)); OK(!u5e::utf8_util::is_7bit_character((char)0x82)); OK(u5e::utf8_util::is_codepoint_start((char)0xE2));")],
    "utf8_bounds.hpp": [([], r'char t[] = "\x82" "abc\xE2\x82"; OK(!u5e::utf8_bounds<char*>::check(t, t + 6)); OK(!u5e::utf8_bounds<char*>::enforce(t, t + 6)); OK(t[0] == 63 && t[4] == 63); OK(u5e::utf8_bounds<const char*>::check(t, t + 4));'),
                        (["string"], r'std::string t("abc\xE2\x82"); OK(!u5e::utf8_bounds<std::string::const_iterator>::check(t.cbegin(), t.cend())); OK(!u5e::utf8_bounds<std::string::iterator>::enforce(t.begin(), t.end())); OK(t[3] == 63);')],
    "utf8_iterator.hpp": [([], r'const char* t = "a\xC3\xA9\xE2\x82\xAC"; typedef u5e::utf8_const_iterator<const char*> I; I b(t), e(t + 6); int k = 0; while (b != e) { u5e::codepoint c = *b; k += c; b++; } OK(k == 97 + 0xE9 + 0x20AC); --b; OK(*b == 0x20AC); OK(b == I(t + 3));'),
                          ([], r'char t[8] = { 0 }; u5e::utf8_iterator<char*> i(t); *i = u5e::codepoint(0x20AC); ++i; *i = u5e::codepoint(0x41); OK(t[0] == (char)0xE2 && t[1] == (char)0x82 && t[2] == (char)0xAC && t[3] == 0x41);'),
                          (["vector"], r'std::vector<char> v(3, (char)0x41); v[1] = (char)0xC3; v[2] = (char)0xA9; u5e::utf8_iterator<std::vector<char>::iterator> i(v.begin()); ++i; OK(*i == 0xE9); i--; OK(*i == 0x41);')],
    "iterator_assertion.hpp": [([], "u5e::iterator_assertion<char*, char> a; u5e::iterator_assertion<const int*, int> b; (void)a; (void)b;")],
    "encoding_assertion.hpp": [(["string"], "u5e::encoding_assertion<std::string, char> a; (void)a;")],
    "utf8.hpp": [(["string"], r'std::string o("x"); const int d[] = { 0x20AC, 0x41 }; u5e::utf8::append_from_utf32ne(d, d + 2, o); OK(o == "x\xE2\x82\xAC" "A"); typedef u5e::utf8::const_iterator<std::string> I; I i(o.cbegin() + 2); OK(u5e::utf8::native_const_iterator<std::string>(i) == o.cbegin() + 1);')],
    "utf32ne.hpp": [(["string"], "%s o(1, 7); const int d[] = { 0x20AC, 0x41 }; u5e::utf32ne::append_from_utf32ne(d, d + 2, o); OK(o.size() == 3 && o[1] == 0x20AC);" % ISTR)],
    "filter.hpp": [([], "struct F { static int f(int a, int& o) { o = o * 10 + a; return a % 2; } }; const int d[] = { 1, 2, 3 }; int o = 0; OK(u5e::filter(d, d + 3, o, F::f) == 2); OK(o == 123);")],
    "props/canonical_combining_class.hpp": [([], "OK(u5e::props::canonical_combining_class::resolve(0x301) == 230); OK(u5e::props::canonical_combining_class::resolve(0x41) == 0);")],
    "props/canonical_composition_mapping.hpp": [([], "int c = 0; OK(u5e::props::canonical_composition_mapping::resolve(0x41, 0x301, &c)); OK(c == 0xC1); OK(!u5e::props::canonical_composition_mapping::resolve(0x41, 0x42, &c));")],
    "props/canonical_decomposition_mapping.hpp": [([], "const int* m = u5e::props::canonical_decomposition_mapping::resolve(0xC1); OK(m && m[0] == 0x41 && m[1] == 0x301 && m[2] == 0); OK(!u5e::props::canonical_decomposition_mapping::resolve(0xFB03));")],
    "props/compatibility_and_canonical_decomposition_mapping.hpp": [([], "const int* m = u5e::props::compatibility_and_canonical_decomposition_mapping::resolve(0xFB03); OK(m && m[0] == 'f' && m[1] == 'f' && m[2] == 'i' && m[3] == 0);")],
    "props/grapheme_cluster_break.hpp": [([], "typedef u5e::props::grapheme_cluster_break G; OK(G::resolve(0x301) == G::EXTEND); OK(G::resolve(0x1F1E6) == G::REGIONAL_INDICATOR); OK(G::resolve(0x41) == G::OTHER);")],
    "canonical_combining_order.hpp": [([], "int d[] = { 'q', 0x307, 0x323, 'r', 0x301 }; u5e::canonical_reorder(d, d + 5); OK(d[1] == 0x323 && d[2] == 0x307 && d[3] == 'r'); OK(u5e::canonical_combining_order(0x323, 0x307)); OK(!u5e::canonical_combining_order(0x307, 0x323));")],
    "utf8_string.hpp": [(["string"], "std::string n_ = %s; " % T8 + walk("u5e::utf8_string")),
                        (["string"], "std::string n_ = %s; u5e::utf8_string a(n_), b; b.append(a.codepoint_cbegin(), a.codepoint_cend()); OK(b.native_string == n_); auto i = a.grapheme_begin(), j = a.grapheme_end(); b.append(i, j); OK(b.native_string == n_ + n_); b = a; OK(b.native_string == n_);" % T8)],
    "utf8_string_view.hpp": [(["string", "experimental/string_view"], "std::string t_ = %s; %s n_(t_.data(), t_.size()); " % (T8, SVIEW) + walk("u5e::utf8_string_view"))],
    "utf32ne_string.hpp": [(["string"], I32 + "%s n_(d, 4); " % ISTR + walk("u5e::utf32ne_string")),
                           (["string"], I32 + "u5e::utf32ne_string a((%s(d, 4))), b; b.append_from_utf32ne<%s>(a.codepoint_cbegin(), a.codepoint_cend()); b.append(a.codepoint_cbegin(), a.codepoint_cend()); OK(b.native_string.size() == 8);" % (ISTR, ISTR))],
    "utf32ne_string_view.hpp": [(["experimental/string_view"], I32 + "%s n_(d, 4); " % IVIEW + walk("u5e::utf32ne_string_view"))],
    "basic_encodedstring.hpp": [(["string"], I32 + "%s n_(d, 4); " % ISTR + walk("u5e::basic_encodedstring<u5e::utf32ne, %s>" % ISTR))],
    "basic_grapheme.hpp": [([], "struct S { typedef const int* const_iterator; }; const int d[] = { 1, 2 }; u5e::basic_grapheme<S> g(d, d + 2); OK(g.codepoint_begin() == d); OK(g.codepoint_end() == d + 2);")],
    "basic_grapheme_iterator.hpp": [([], "struct S { typedef const int* const_iterator; }; const int d[] = { 'a', 0x301, 'b', 13, 10 }; u5e::basic_grapheme_iterator<S> g(d, d + 5), e(d, d + 5, d + 5); int k = 0; for (; g != e; ++g) k++; OK(k == 3); u5e::basic_grapheme_iterator<S> m(d, d + 5, d + 1); OK((*m).codepoint_begin() == d); OK(m == d + 1);")],
    "utf8_string_grapheme.hpp": [(["string"], "std::string t = %s; u5e::utf8_string s(t); u5e::utf8_string_grapheme g(s.codepoint_cbegin(), s.codepoint_cend()); int k = 0; for (auto i = g.codepoint_begin(); i != g.codepoint_end(); i++) k++; OK(k == 4);" % T8)],
    "utf8_string_grapheme_iterator.hpp": [(["string"], "std::string n_ = %s; " % M8 + graphemes("u5e::utf8_string") + " u5e::utf8_string_grapheme_iterator g(s.codepoint_cbegin(), s.codepoint_cend()); OK(g == s.grapheme_begin());")],
    "utf8_string_view_grapheme.hpp": [(["string", "experimental/string_view"], "std::string t = %s; u5e::utf8_string_view s((%s(t.data(), t.size()))); u5e::utf8_string_view_grapheme g(s.codepoint_cbegin(), s.codepoint_cend()); OK(*g.codepoint_begin() == 'a');" % (T8, SVIEW))],
    "utf8_string_view_grapheme_iterator.hpp": [(["string", "experimental/string_view"], "std::string t_ = %s; %s n_(t_.data(), t_.size()); " % (M8, SVIEW) + graphemes("u5e::utf8_string_view") + " u5e::utf8_string_view_grapheme_iterator g(s.codepoint_cbegin(), s.codepoint_cend()); OK(g == s.grapheme_begin());")],
    "utf32ne_string_grapheme.hpp": [(["string"], I32 + "u5e::utf32ne_string s((%s(d, 4))); u5e::utf32ne_string_grapheme g(s.codepoint_cbegin(), s.codepoint_cend()); OK(*g.codepoint_begin() == 'a');" % ISTR)],
    "utf32ne_string_grapheme_iterator.hpp": [(["string"], M32 + "%s n_(d, 5); " % ISTR + graphemes("u5e::utf32ne_string") + " u5e::utf32ne_string_grapheme_iterator g(s.codepoint_cbegin(), s.codepoint_cend()); OK(g == s.grapheme_begin());")],
    "utf32ne_string_view_grapheme.hpp": [(["experimental/string_view"], I32 + "u5e::utf32ne_string_view s((%s(d, 4))); u5e::utf32ne_string_view_grapheme g(s.codepoint_cbegin(), s.codepoint_cend()); OK(*g.codepoint_begin() == 'a');" % IVIEW)],
    "utf32ne_string_view_grapheme_iterator.hpp": [(["experimental/string_view"], M32 + "%s n_(d, 5); " % IVIEW + graphemes("u5e::utf32ne_string_view") + " u5e::utf32ne_string_view_grapheme_iterator g(s.codepoint_cbegin(), s.codepoint_cend()); OK(g == s.grapheme_begin());")],
    "canonical_composition.hpp": [([], "struct S { int d[3]; typedef int* iterator; typedef const int* const_iterator; int* codepoint_begin() { return d; } int* codepoint_end() { return d + 3; } }; S s = { { 'o', 0x323, 0x302 } }; int n = 0; int* e = u5e::canonical_composition(s, &n); OK(n == 2); OK(e == s.d + 1); OK(s.d[0] == 0x1ED9);")],
    "codepoint_decomposition.hpp": [(["string"], "struct R { static const int* resolve(int c) { static const int m[] = { 1, 2, 0 }; return c == 'x' ? m : 0; } }; u5e::basic_encodedstring<u5e::utf32ne, %s> o; OK(u5e::codepoint_decomposition(u5e::codepoint('x'), o, R::resolve) == 2); OK(u5e::codepoint_decomposition(u5e::codepoint('y'), o, R::resolve) == 1); OK(o.native_string.size() == 3);" % ISTR)],
    "canonical_decomposition.hpp": [(["string"], "u5e::basic_encodedstring<u5e::utf32ne, %s> o; typedef u5e::basic_encodedstring<u5e::utf32ne, %s> O; OK(u5e::canonical_decomposition<O>(u5e::codepoint(0xAC01), o) == 3); OK(u5e::canonical_decomposition<O>(u5e::codepoint(0x1E69), o) == 3); OK(o.native_string[4] == 0x323);" % (ISTR, ISTR))],
    "compatibility_and_canonical_decomposition.hpp": [(["string"], "u5e::basic_encodedstring<u5e::utf32ne, %s> o; typedef u5e::basic_encodedstring<u5e::utf32ne, %s> O; OK(u5e::compatibility_and_canonical_decomposition<O>(u5e::codepoint(0xFB03), o) == 3); OK(o.native_string[2] == 'i');" % (ISTR, ISTR))],
    "normalization_form_d.hpp": form("d", 7, "0xFB03"),
    "normalization_form_c.hpp": form("c", 5, "0xFB03"),
    "normalization_form_kd.hpp": form("kd", 9, "'f'"),
    "normalization_form_kc.hpp": form("kc", 7, "'f'"),
}
# what needs several headers
TOGETHER = [(["utf8_string.hpp", "filter.hpp", "normalization_form_%s.hpp" % f], ["string"],
             "u5e::utf8_string s(%s), o; u5e::filter(s.grapheme_begin(), s.grapheme_end(), o, u5e::normalization_form_%s<u5e::utf8_string>); OK(o.native_string == %s);" % (M8, f, w))
            for f, w in (("d", NFD8), ("c", NFC8), ("kd", NFKD8), ("kc", NFKC8))]
TOGETHER += [
    (["utf8_string.hpp", "utf32ne_string.hpp"], ["string"], I32 + "u5e::utf32ne_string s((%s(d, 4))); u5e::utf8_string o; o.append_from_utf32ne<%s>(s.codepoint_cbegin(), s.codepoint_cend()); OK(o.native_string == %s);" % (ISTR, ISTR, T8)),
    (["utf8_string_view.hpp", "utf8_string.hpp"], ["string", "experimental/string_view"], "std::string t = %s; u5e::utf8_string_view v((%s(t.data(), t.size()))); u5e::utf8_string o; o.append<%s>(v.codepoint_cbegin(), v.codepoint_cend()); OK(o.native_string == t);" % (T8, SVIEW, SVIEW)),
    (["utf8_string.hpp", "utf32ne_string.hpp", "filter.hpp", "canonical_decomposition.hpp"], ["string"], "u5e::utf8_string s(%s); u5e::utf32ne_string o; OK(u5e::filter(s.codepoint_cbegin(), s.codepoint_cend(), o, u5e::canonical_decomposition<u5e::utf32ne_string>) == 7); OK(o.native_string.size() == 7);" % M8),
    (["utf8_bounds.hpp", "utf8_string_view.hpp"], ["string", "experimental/string_view"], 'std::string t("abc\\xE2\\x82"); OK(!u5e::utf8_bounds<std::string::iterator>::enforce(t.begin(), t.end())); u5e::utf8_string_view v((%s(t.data(), t.size()))); int k = 0; for (auto i = v.codepoint_cbegin(); i != v.codepoint_cend(); i++) k++; OK(k == 5);' % SVIEW),
]
STD = ["string", "vector", "algorithm", "iterator", "cmath", "cstring", "experimental/string_view", "list", "memory", "thread", "iostream", "map", "stdlib.h", "inttypes.h", "functional", "utility"]
# names of a user's own, outside any namespace, around the library's
NAMES = {"struct codepoint { int mine; };": "codepoint c; c.mine = 1; OK(c.mine == 1);", "class utf8;": "utf8* p = 0; OK(!p);", "static int filter(int a, int b) { return a + b; }": "OK(filter(1, 2) == 3);",
         "namespace version_info { const int run_time = 5; }": "OK(version_info::run_time == 5);", "struct basic_grapheme;": "basic_grapheme* p = 0; OK(!p);",
         "namespace props { inline int resolve(int c) { return c + 1; } }": "OK(props::resolve(1) == 2);",
         "enum user_break { OTHER, PREPEND, CONTROL, EXTEND, L, V, T, LV, LVT };": "OK(LVT == user_break(8)); OK(OTHER == 0);", "typedef int utf32ne;": "utf32ne i = 3; OK(i == 3);",
         "struct grapheme { int mine; };": "grapheme g; g.mine = 2; OK(g.mine == 2);", "template <class T> inline T canonical_reorder(T a, T) { return a; }": "OK(canonical_reorder(1, 2) == 1);",
         "static int ranges[3];": "ranges[1] = 4; OK(ranges[1] == 4);", "struct utf8_string { int mine; };": "utf8_string s; s.mine = 1; OK(s.mine == 1);",
         "template <class T> class basic_encodedstring;": "basic_encodedstring<int>* p = 0; OK(!p);", "struct utf8_iterator { int mine; };": "utf8_iterator i; i.mine = 1; OK(i.mine == 1);",
         "namespace version { const int major_ = 2; }": "OK(version::major_ == 2);", "struct iterator_assertion {}; struct encoding_assertion {};": "iterator_assertion a; encoding_assertion b; (void)a; (void)b;",
         "static bool normalization_form_c(const char*) { return true; }": 'OK(normalization_form_c(""));', "struct utf8_util { static int size() { return 9; } };": "OK(utf8_util::size() == 9);"}


class Unit:
    def __init__(self, lines, uses):
        self.lines, self.uses = lines, uses    # lines: headers "<...>" or names; uses: [(std headers, body)]

    def source(self, n, last, units):
        out = list(self.lines)
        for s in sorted({h for std, _ in self.uses for h in std}):
            out.append("#include <%s>" % s)
        out.append("#include <cstdio>")
        out.append('#define OK(x) do { if (!(x)) { printf("unit %d, snippet %%d: %%s\\n", k_, #x); bad_++; } } while (0)' % n)
        uses = self.uses + [([], NAMES[l]) for l in self.lines if l in NAMES]
        for k, (_, body) in enumerate(uses):
            out.append("static int use%d() {\n  const int k_ = %d; (void)k_; int bad_ = 0;\n  %s\n  return bad_;\n}" % (k, k, body))
        out.append("int unit%d() { return 0%s; }" % (n, "".join(" + use%d()" % k for k in range(len(uses)))))
        if last:
            out += ["int unit%d();" % i for i in range(units) if i != n]
            out.append("int main() { return (0%s) != 0; }" % "".join(" + unit%d()" % i for i in range(units)))
        return "\n".join(out) + "\n"


class Program:
    def __init__(self, cxx, opt, units):
        self.cxx, self.opt, self.units = cxx, opt, units

    def sources(self):
        n = len(self.units)
        return [u.source(i, i == n - 1, n) for i, u in enumerate(self.units)]

    def key(self):
        return self.cxx + " " + " ".join(self.opt) + "\n" + "\n//////\n".join(self.sources())


class Builder:
    def __init__(self, run, scratch):
        self.run, self.dir, self.error, self.lib = run, scratch, None, {}
        cmds = []
        for cxx in ("g++", "clang++"):
            self.lib[cxx] = []
            for i, f in enumerate(sorted(glob.glob(run.REPO + "/src/u5e/**/*.cpp", recursive=True))):
                o = os.path.join(scratch, "lib-%s-%d.o" % (cxx, i))
                self.lib[cxx].append(o)
                cmds.append((cxx + " " + f, [cxx, run.STD, "-w", "-O1", "-I" + run.REPO + "/include", "-c", f, "-o", o]))
        try:
            run.compile_all(cmds)
        except run.CompileError as e:
            self.error = str(e)

    def _run(self, argv, **k):
        for _ in range(3):
            p = subprocess.run(argv, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", timeout=300, **k)
            if p.returncode == 0:
                return None
            if p.returncode == 1 and re.search(r"error:|undefined reference|multiple definition", p.stdout) and not re.search(
                    r"No space left|internal compiler error|Killed|out of memory|annot allocate", p.stdout):
                return p.stdout
        raise self.run.CheckError("%s: status %s\n%s" % (argv[0], p.returncode, p.stdout[-2000:]))

    def verdict(self, sources, cxx, opt, name):
        """None if it compiles, links and runs as it should, else a message."""
        made, objs = [], []
        try:
            for i, s in enumerate(sources):
                f, o = "%s/p%s-%d.cpp" % (self.dir, name, i), "%s/p%s-%d.o" % (self.dir, name, i)
                made += [f, o]
                objs.append(o)
                open(f, "w").write(s)
                m = self._run([cxx, "-w"] + opt + ["-I" + self.run.REPO + "/include", "-c", f, "-o", o])
                if m:
                    return "unit %d does not compile with %s: %s" % (i, cxx, (re.search(r"error: .*", m) or re.search(r".*", m)).group(0)[:300])
            b = "%s/p%s" % (self.dir, name)
            made.append(b)
            m = self._run([cxx] + objs + self.lib[cxx] + ["-o", b])
            if m:
                return "does not link with %s: %s" % (cxx, (re.search(r".*(undefined reference|multiple definition).*", m) or re.search(r".*", m)).group(0)[:300])
            try:
                p = subprocess.run([b], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", timeout=60)
            except subprocess.TimeoutExpired:
                return "does not end (%s)" % cxx
            if p.returncode:
                return "runs wrongly with %s, status %d: %s" % (cxx, p.returncode, p.stdout[:300])
            return None
        finally:
            for f in made:
                if os.path.exists(f):
                    os.unlink(f)

    def judge(self, p, name):
        m = self.verdict(p.sources(), p.cxx, p.opt, name)
        if m and not self.verdict(p.sources(), p.cxx, p.opt, name):
            raise self.run.CheckError("%s does not always give the same answer: %s" % (p.cxx, m))
        return m


def inc(h):
    return "#include <u5e/%s>" % h


def unit(rng):
    """Some headers, in some order, and the snippets they allow."""
    hs, uses = [], []
    for _ in range(rng.choice([1, 1, 2, 2, 3, 4, 6])):
        if rng.random() < 0.25:
            need, std, body = rng.choice(TOGETHER)
            need = list(need)
            rng.shuffle(need)
            hs += need
            uses.append((std, body))
        else:
            h = rng.choice(list(USE))
            hs.append(h)
            uses.append(rng.choice(USE[h]))
    if rng.random() < 0.3:
        hs.append(rng.choice(hs))
    if rng.random() < 0.15:
        hs = list(USE)
    rng.shuffle(hs)
    lines = [inc(h) for h in hs]
    for _ in range(rng.choice([0, 0, 0, 1, 2, 4])):
        lines.insert(rng.randrange(len(lines) + 1), "#include <%s>" % rng.choice(STD))
    names = []
    if rng.random() < 0.3:
        names = rng.sample(list(NAMES), rng.randint(1, 4))
        for n in names:
            lines.insert(rng.randrange(len(lines) + 1), n)
    return Unit(lines, uses)


def options(rng, i):
    r = rng or random.Random(i)
    return ["-std=" + r.choice(["c++1y", "c++1y", "c++14", "gnu++14"]), r.choice(["-O0", "-O0", "-O1"])]


def programs(rng, n):
    """Every header alone, with its snippets, twice in a program; every header
    before and after all others; then n random programs."""
    for cxx in ("g++", "clang++"):
        for h in USE:
            yield Program(cxx, ["-std=c++1y", "-O0"], [Unit([inc(h)], USE[h]), Unit([inc(h), inc(h)], USE[h])])
        every = [inc(h) for h in USE]
        all_uses = [u for h in USE for u in USE[h]] + [(s, b) for _, s, b in TOGETHER]
        yield Program(cxx, ["-std=c++1y", "-O0"], [Unit(every, all_uses), Unit(every[::-1], all_uses), Unit(list(NAMES) + every, all_uses), Unit(every + list(NAMES), all_uses)])
    for i in range(n):
        yield Program(rng.choice(["g++", "g++", "clang++"]), options(rng, i), [unit(rng) for _ in range(rng.choice([1, 2, 2, 3]))])


def shrink(b, p):
    def tries(p):
        for i in range(len(p.units)):
            if len(p.units) > 1:
                yield Program(p.cxx, p.opt, p.units[:i] + p.units[i + 1:])
        for i, u in enumerate(p.units):
            for k in range(len(u.uses)):
                yield Program(p.cxx, p.opt, p.units[:i] + [Unit(u.lines, u.uses[:k] + u.uses[k + 1:])] + p.units[i + 1:])
            if not u.uses:
                for k in range(len(u.lines)):
                    yield Program(p.cxx, p.opt, p.units[:i] + [Unit(u.lines[:k] + u.lines[k + 1:], u.uses)] + p.units[i + 1:])
            else:
                for k in range(len(u.lines)):
                    # only what no snippet needs may go
                    if not u.lines[k].startswith("#include <u5e") or u.lines.count(u.lines[k]) > 1:
                        yield Program(p.cxx, p.opt, p.units[:i] + [Unit(u.lines[:k] + u.lines[k + 1:], u.uses)] + p.units[i + 1:])
    t0, n, changed = time.time(), 0, True
    while changed and time.time() - t0 < 60:
        changed = False
        for q in tries(p):
            n += 1
            if b.verdict(q.sources(), q.cxx, q.opt, "s"):
                p, changed = q, True
                break
    return p


def check(run, cfg, tier, seed, scratch):
    t0 = time.time()
    rng = random.Random("C02 %d" % seed)
    b = Builder(run, scratch)
    labels, seen, samples, failure, count = {}, set(), [], None, 0
    if b.error:
        failure = (None, "the library does not compile: " + b.error[:500])
    else:
        todo = list(programs(rng, cfg[tier]["programs"]))
        with ThreadPoolExecutor(8) as ex:
            for at in range(0, len(todo), 64):
                part = todo[at:at + 64]
                for p, msg in zip(part, ex.map(lambda a: b.judge(a[1], a[0]), [(at + i, q) for i, q in enumerate(part)])):
                    count += 1
                    for k in (p.cxx, p.opt[0], "%d units" % len(p.units)) + (("names of a user's own",) if any(n in u.lines for n in NAMES for u in p.units) else ()):
                        labels[k] = labels.get(k, 0) + 1
                    for u in p.units:
                        for h in set(u.lines):
                            if h.startswith("#include <u5e"):
                                labels[h[13:-1]] = labels.get(h[13:-1], 0) + 1
                    if len(p.units) > 1 or len(p.units[0].lines) > 1:
                        seen.add(p.key())
                        if len(samples) < 8 and count % 23 == 7:
                            samples.append({"compiler": p.cxx, "options": p.opt, "units": [{"lines": u.lines[:12], "snippets": len(u.uses)} for u in p.units]})
                    if msg and not failure:
                        failure = (p, msg)
                if failure:
                    break
    path = None
    if failure:
        p, msg = failure
        path = os.path.join(run.REPLAYS, "C02-%d.txt" % os.getpid())
        if p:
            p = shrink(b, p)
            msg = b.verdict(p.sources(), p.cxx, p.opt, "v") or msg
            open(path, "w").write("# property C02 %s %s\n# %s\n%s" % (p.cxx, " ".join(p.opt), msg.replace("\n", " "), "\n//////\n".join(p.sources())))
        else:
            open(path, "w").write("# property C02\n" + msg)
        run.log(msg)
    cov = {"evaluations": count, "distinct_nontrivial": len(seen),
           "rule": "the program has several units, or several headers in one; distinct by source text",
           "samples": samples or ["(stopped before the first)"], "labels": labels,
           "enumerated": {"what": "each of the %d public headers alone, in two units of a program; all of them in both orders and below a user's own names; g++ and clang++" % len(USE)}}
    if failure:
        cov["failure"] = msg[:2000]
    run.write_evidence("C02", tier, seed, cov, time.time() - t0, 1 if failure else 0, cfg.get("assumptions", []))
    if failure:
        print("VIOLATION property=C02 replay=%s" % path, flush=True)
        return 1
    run.log("C02 %s: held on %d programs in %.1f s" % (tier, count, time.time() - t0))
    return 0


def replay(run, path, scratch):
    text = open(path).read()
    m = re.match(r"# property C02 (\S+) (.*)\n# .*\n", text)
    b = Builder(run, scratch)
    if b.error or not m:
        print(b.error or "nothing to run")
        return 1 if b.error else 0
    msg = b.verdict(text[m.end():].split("\n//////\n"), m.group(1), m.group(2).split(), "r")
    print(msg or "passes")
    return 1 if msg else 0
