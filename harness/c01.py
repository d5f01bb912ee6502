"""C01: which programs compile. Generated programs against a typing model.

A program is a list of statements over text objects of known encoding and
storage. Legal statements only ever join texts of one encoding or use the
explicit conversion; an illegal one joins two encodings, or wraps a unit of
another width as UTF-8. A program of legal statements has to compile; the same
program with one illegal statement must not.
"""
import os, random, re, subprocess, time
from concurrent.futures import ThreadPoolExecutor

PRE = r"""
#ifndef C01_PRE
#define C01_PRE
#include <algorithm>
#include <deque>
#include <list>
#include <string>
#include <vector>
#include <experimental/string_view>
#include <u5e/utf8_string.hpp>
#include <u5e/utf8_string_view.hpp>
#include <u5e/utf8_string_grapheme.hpp>
#include <u5e/utf8_string_grapheme_iterator.hpp>
#include <u5e/utf8_string_view_grapheme.hpp>
#include <u5e/utf8_string_view_grapheme_iterator.hpp>
#include <u5e/utf32ne_string.hpp>
#include <u5e/utf32ne_string_view.hpp>
#include <u5e/utf32ne_string_grapheme.hpp>
#include <u5e/utf32ne_string_grapheme_iterator.hpp>
#include <u5e/utf32ne_string_view_grapheme.hpp>
#include <u5e/utf32ne_string_view_grapheme_iterator.hpp>
#include <u5e/utf8_bounds.hpp>
#include <u5e/filter.hpp>
#include <u5e/canonical_decomposition.hpp>
#include <u5e/compatibility_and_canonical_decomposition.hpp>
#include <u5e/normalization_form_d.hpp>
#include <u5e/normalization_form_c.hpp>
#include <u5e/normalization_form_kd.hpp>
#include <u5e/normalization_form_kc.hpp>
struct Tr : std::char_traits<char> {};
typedef std::string N8;
typedef std::experimental::string_view NV8;
typedef std::basic_string<char, Tr> NB8;
typedef std::basic_string<int> N32;
typedef std::experimental::basic_string_view<int> NV32;
typedef std::u32string NU32;
typedef std::u16string N16;
typedef u5e::utf8_string S8;
typedef u5e::utf8_string_view V8;
typedef u5e::basic_encodedstring<u5e::utf8, NB8> B8;
typedef u5e::utf32ne_string S32;
typedef u5e::utf32ne_string_view V32;
typedef u5e::basic_encodedstring<u5e::utf32ne, NU32> U32;
struct octet { char c; };
enum class octet_enum : char { a };
#endif
"""

# name of the text type: (encoding, owning, native type)
TYPES = {"S8": (8, True, "N8"), "V8": (8, False, "NV8"), "B8": (8, True, "NB8"),
         "S32": (32, True, "N32"), "V32": (32, False, "NV32"), "U32": (32, True, "NU32")}
OBJ = {}  # the objects every program has: two of each type
for t in TYPES:
    OBJ[t.lower() + "a"] = t
    OBJ[t.lower() + "b"] = t
FORMS = ["d", "c", "kd", "kc"]
DECS = ["canonical_decomposition", "compatibility_and_canonical_decomposition"]
UNITS_OK = ["char*", "const char*", "unsigned char*", "const signed char*", "std::string::iterator", "std::string::const_iterator",
            "std::vector<char>::iterator", "std::vector<unsigned char>::const_iterator", "std::deque<signed char>::iterator", "std::experimental::string_view::const_iterator", "NB8::iterator"]
UNITS_BAD = ["int*", "const int*", "char16_t*", "const char16_t*", "wchar_t*", "char32_t*", "short*", "long long*", "float*", "double*",
             "octet*", "const octet*", "octet_enum*", "u5e::codepoint*", "const u5e::codepoint*", "void**",
             "std::u16string::iterator", "std::u32string::const_iterator", "std::vector<int>::iterator", "std::list<unsigned short>::iterator",
             "std::deque<long>::const_iterator", "std::vector<std::string>::iterator", "N32::const_iterator", "NV32::const_iterator",
             "std::wstring::iterator"]


def enc(o):
    return TYPES[o][0]


# Each rule: (name, legal types or None, text). a, b: objects; A, B their text types; NA, NB natives.
# A rule applied to (a, b) is legal, illegal or unspecified: decided by the function.
def r_append(a, b, A, B):
    if not TYPES[A][1]:
        return None
    return "%s.append<%s>(%s.codepoint_cbegin(), %s.codepoint_cend());" % (a, TYPES[B][2], b, b), enc(A) == enc(B)


def r_append_own(a, b, A, B):  # without naming the storage
    if not TYPES[A][1] or (A != B and enc(A) == enc(B)):
        return None
    return "%s.append(%s.codepoint_cbegin(), %s.codepoint_cend());" % (a, b, b), A == B


def r_append_own_storage(a, b, A, B):  # naming the storage of the destination
    if not TYPES[A][1] or (A != B and enc(A) == enc(B)):
        return None
    return "%s.append<%s>(%s.codepoint_cbegin(), %s.codepoint_cend());" % (a, TYPES[A][2], b, b), A == B


def r_append_mutable(a, b, A, B):
    if not TYPES[A][1] or enc(A) == enc(B):
        return None
    return "%s.append(%s.codepoint_begin(), %s.codepoint_end());" % (a, b, b), False


def r_append_native(a, b, A, B):
    if not TYPES[A][1] or enc(A) == enc(B):
        return None
    return "%s.append(%s.native_cbegin(), %s.native_cend());" % (a, b, b), False


def r_append_native_storage(a, b, A, B):
    if not TYPES[A][1] or enc(A) == enc(B):
        return None
    return "%s.append<%s>(%s.native_cbegin(), %s.native_cend());" % (a, TYPES[B][2], b, b), False


def r_append_half(a, b, A, B):  # begin of one, end of the other
    if not TYPES[A][1] or enc(A) == enc(B):
        return None
    return "%s.append(%s.codepoint_cbegin(), %s.codepoint_cend());" % (a, a, b), False


def r_convert(a, b, A, B):
    if not TYPES[A][1]:
        return None
    return "%s.append_from_utf32ne<%s>(%s.codepoint_cbegin(), %s.codepoint_cend());" % (a, TYPES[B][2], b, b), enc(B) == 32


def r_convert_native(a, b, A, B):
    if not TYPES[A][1] or enc(B) == 32:
        return None
    return "%s.append_from_utf32ne<%s>(%s.native_cbegin(), %s.native_cend());" % (a, TYPES[B][2], b, b), False


def r_append_graphemes(a, b, A, B):
    if not TYPES[A][1]:
        return None
    return "{ auto i = %s.grapheme_begin(), j = %s.grapheme_end(); %s.append<%s>(i, j); }" % (b, b, a, TYPES[B][2]), enc(A) == enc(B)


def r_append_graphemes_own(a, b, A, B):
    if not TYPES[A][1] or (A != B and enc(A) == enc(B)):
        return None
    return "{ auto i = %s.grapheme_begin(), j = %s.grapheme_end(); %s.append(i, j); }" % (b, b, a), A == B


def r_compare(op, f, g):
    def r(a, b, A, B):
        if A != B and enc(A) == enc(B):
            return None
        return "(void)(%s.%s() %s %s.%s());" % (a, f, op, b, g), A == B
    r.__name__ = "compare_%s_%s_%s" % (f, {"==": "eq", "!=": "ne"}[op], g)
    return r


def r_compare_cross_only(op, f, g):
    def r(a, b, A, B):
        if enc(A) == enc(B):
            return None
        return "(void)(%s.%s() %s %s.%s());" % (a, f, op, b, g), False
    r.__name__ = "compare_%s_%s_%s" % (f, {"==": "eq", "!=": "ne"}[op], g)
    return r


def r_compare_texts(a, b, A, B):
    return ("(void)(%s == %s);" % (a, b), False) if enc(A) != enc(B) else None


def r_compare_graphemes(a, b, A, B):
    return ("(void)(*%s.grapheme_begin() == *%s.grapheme_begin());" % (a, b), False) if enc(A) != enc(B) else None


def r_assign(a, b, A, B):
    return None if A != B and enc(A) == enc(B) else ("%s = %s;" % (a, b), A == B)


def r_assign_native(a, b, A, B):
    return ("%s = %s.native_string;" % (a, b), False) if enc(A) != enc(B) else None


def r_construct(a, b, A, B):
    return None if A != B and enc(A) == enc(B) else ("{ %s x(%s); (void)x; }" % (A, b), A == B)


def r_construct_native(a, b, A, B):
    return None if A != B and enc(A) == enc(B) else ("{ %s x(%s.native_string); (void)x; }" % (A, b), A == B)


def r_swap(a, b, A, B):
    if A != B and enc(A) == enc(B):
        return None
    return "std::swap(%s, %s);" % (a, b), A == B


def r_iterator_from(kind):
    def r(a, b, A, B):
        if A != B and enc(A) == enc(B):
            return None
        return "{ %s::%s x(%s.codepoint_%sbegin()); (void)x; }" % (A, kind, b, "c" if kind == "const_iterator" else ""), A == B
    r.__name__ = kind + "_from"
    return r


def r_grapheme_iterator_from(a, b, A, B):
    if A != B and enc(A) == enc(B):
        return None
    return "{ u5e::basic_grapheme_iterator<%s> x(%s.codepoint_cbegin(), %s.codepoint_cend()); (void)x; }" % (A, b, b), A == B


def r_grapheme_from(a, b, A, B):
    if A != B and enc(A) == enc(B):
        return None
    return "{ u5e::basic_grapheme<%s> x(*%s.grapheme_begin()); (void)x; }" % (A, b), A == B


def r_norm(form):  # through the type of the input, into another text
    def r(a, b, A, B):
        if not TYPES[A][1]:
            return None
        return "u5e::filter(%s.grapheme_begin(), %s.grapheme_end(), %s, u5e::normalization_form_%s<%s, %s>);" % (b, b, a, form, B, A), True
    r.__name__ = "normalize_" + form
    return r


def r_norm_same(form):
    def r(a, b, A, B):
        if not TYPES[A][1] or (A != B and enc(A) == enc(B)):
            return None
        # the function of the destination's type on the graphemes of the other
        return "u5e::filter(%s.grapheme_begin(), %s.grapheme_end(), %s, u5e::normalization_form_%s<%s>);" % (b, b, a, form, A), A == B
    r.__name__ = "normalize_same_" + form
    return r


def r_norm_wrong_output(form):
    def r(a, b, A, B):
        if not TYPES[A][1] or not TYPES[B][1] or enc(A) == enc(B):
            return None
        return "u5e::filter(%s.grapheme_begin(), %s.grapheme_end(), %s, u5e::normalization_form_%s<%s>);" % (b, b, a, form, B), False
    r.__name__ = "normalize_wrong_output_" + form
    return r


def r_norm_direct(form):
    def r(a, b, A, B):
        if not TYPES[A][1] or (A != B and enc(A) == enc(B)):
            return None
        return "u5e::normalization_form_%s<%s, %s>(*%s.grapheme_begin(), %s);" % (form, A, A, b, a), A == B
    r.__name__ = "normalize_direct_" + form
    return r


def r_filter_half(a, b, A, B):
    if not TYPES[A][1] or enc(A) == enc(B):
        return None
    return "u5e::filter(%s.grapheme_begin(), %s.grapheme_end(), %s, u5e::normalization_form_c<%s>);" % (a, b, a, A), False


def r_decompose(f):
    def r(a, b, A, B):
        if not TYPES[A][1]:
            return None
        if A == "B8":
            return None
        return "u5e::filter(%s.codepoint_cbegin(), %s.codepoint_cend(), %s, u5e::%s<%s>);" % (b, b, a, f, A), enc(A) == 32
    r.__name__ = f
    return r


def r_walk(a, b, A, B):
    return "for (auto i = %s.codepoint_cbegin(); i != %s.codepoint_cend(); i++) { u5e::codepoint c = *i; (void)c; }" % (a, a), True


def r_walk_graphemes(a, b, A, B):
    return ("for (auto g = %s.grapheme_begin(); g != %s.grapheme_end(); g++) { auto p = *g; "
            "for (auto i = p.codepoint_begin(); i != p.codepoint_end(); i++) { u5e::codepoint c = *i; (void)c; } }" % (a, a)), True


def r_walk_across(a, b, A, B):
    return ("for (auto i = %s.codepoint_cbegin(); i != %s.codepoint_cend(); i++) { }" % (a, b), False) if enc(A) != enc(B) else None


PAIR = [r_append, r_append_own, r_append_own_storage, r_append_mutable, r_append_native, r_append_native_storage, r_append_half, r_convert, r_convert_native,
        r_append_graphemes, r_append_graphemes_own, r_compare_texts, r_compare_graphemes, r_assign, r_assign_native, r_construct,
        r_construct_native, r_swap, r_iterator_from("const_iterator"), r_iterator_from("iterator"), r_grapheme_iterator_from, r_grapheme_from,
        r_filter_half, r_walk, r_walk_graphemes, r_walk_across]
PAIR += [r_compare(op, f, g) for op in ("==", "!=") for f, g in
         (("codepoint_cbegin", "codepoint_cend"), ("codepoint_begin", "codepoint_end"), ("grapheme_begin", "grapheme_end"),
          ("grapheme_begin", "codepoint_cend"))]
PAIR += [r_compare_cross_only(op, f, g) for op in ("==", "!=") for f, g in
         (("codepoint_cbegin", "native_cend"), ("grapheme_begin", "native_cend"), ("native_cbegin", "codepoint_cend"),
          ("codepoint_begin", "codepoint_cend"), ("codepoint_cbegin", "grapheme_end"), ("native_cbegin", "native_cend"))]
PAIR += [f(x) for f in (r_norm, r_norm_same, r_norm_wrong_output, r_norm_direct) for x in FORMS]
PAIR += [r_decompose(f) for f in DECS]


class Stmt:
    def __init__(self, text, legal, rule, two):
        self.text, self.legal, self.rule, self.two = text, legal, rule, two


def wraps():
    r = []
    for k in ("utf8_iterator", "utf8_const_iterator"):
        for u in UNITS_OK:
            r.append(Stmt("{ %s p{}; u5e::%s<%s> i(p), j(p); ++i; i++; --i; (void)(i == j); (void)(i != j); u5e::codepoint c = *j; (void)c; }" % (u, k, u), True, "wrap_" + k, False))
        for u in UNITS_BAD:
            r.append(Stmt("{ %s p{}; u5e::%s<%s> i(p); (void)i; }" % (u, k, u), False, "wrap_" + k, False))
    for n in ("N16", "N32", "NV32", "std::wstring", "NU32", "std::vector<int>"):
        for f in ("codepoint_begin", "codepoint_cbegin", "codepoint_end", "codepoint_cend", "grapheme_begin", "grapheme_end"):
            if n == "std::vector<int>" and f.startswith("g"):
                continue
            r.append(Stmt("{ u5e::basic_encodedstring<u5e::utf8, %s> s; (void)s.%s(); }" % (n, f), False, "wrap_text", False))
    for n in ("N16",):
        for o in ("s32a", "u32a"):
            r.append(Stmt("{ %s u; %s.append<%s>(u.cbegin(), u.cend()); }" % (n, o, n), False, "append_16", False))
    return r


def pair_stmt(rule, a, b):
    x = rule(a, b, OBJ[a], OBJ[b])
    if x is None:
        return None
    return Stmt(x[0], x[1], rule.__name__, re.search(r"\b%s\b" % a, x[0]) and re.search(r"\b%s\b" % b, x[0]))


# the places a statement can be in
PARAMS = ", ".join("%s& %s" % (t, o) for o, t in OBJ.items())
CONTEXTS = {
    "function": lambda body: "void f(%s) {\n%s\n}\n" % (PARAMS, body),
    "method": lambda body: "struct K { %s void f() {\n%s\n} };\n" % (" ".join("%s %s;" % (t, o) for o, t in OBJ.items()), body),
    "template": lambda body: "template <%s> void f(%s) {\n%s\n}\nvoid g(%s) { f(%s); }\n" % (
        ", ".join("class P%d" % i for i in range(len(OBJ))), ", ".join("P%d& %s" % (i, o) for i, o in enumerate(OBJ)), re.sub(r"\.(append\w*)<", r".template \1<", body), PARAMS, ", ".join(OBJ)),
    "lambda": lambda body: "void f(%s) {\nauto l = [&]() {\n%s\n}; l(); }\n" % (PARAMS, body),
    "generic lambda": lambda body: "void f(%s) {\nauto l = [](%s) {\n%s\n}; l(%s); }\n" % (
        PARAMS, ", ".join("auto& " + o for o in OBJ), re.sub(r"\.(append\w*)<", r".template \1<", body), ", ".join(OBJ)),
    "struct template": lambda body: "template <class T> struct K { %s void f() {\n%s\n} };\nvoid g() { K<int> k; k.f(); }\n" % (
        " ".join("%s %s;" % (t, o) for o, t in OBJ.items()), body),
    "branch": lambda body: "int f(%s, int n) {\nif (n) {\n%s\n} else { do {\n} while (--n); }\nreturn n;\n}\n" % (PARAMS, body),
}


class Program:
    def __init__(self, context, stmts):
        self.context, self.stmts = context, stmts

    def legal(self):
        return all(s.legal for s in self.stmts)

    def source(self):
        return '#include "pre.hpp"\n' + CONTEXTS[self.context]("\n".join("  " + s.text for s in self.stmts))

    def without(self, keep):
        return Program(self.context, [s for i, s in enumerate(self.stmts) if i in keep])


class Compiler:
    def __init__(self, run, scratch, cxx):
        self.run, self.scratch, self.cxx, self.n = run, scratch, cxx, 0
        self.dir = os.path.join(scratch, cxx)
        os.makedirs(self.dir, exist_ok=True)
        open(self.dir + "/pre.hpp", "w").write(PRE)
        self.pch_error = None
        ok, out = self._run([cxx, run.STD, "-w", "-I" + run.REPO + "/include", "-x", "c++-header", self.dir + "/pre.hpp", "-o",
                             self.dir + ("/pre.hpp.gch" if cxx == "g++" else "/pre.pch")])
        if not ok:
            self.pch_error = out

    def _run(self, argv):
        for _ in range(3):
            p = subprocess.run(argv, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", timeout=300)
            if p.returncode == 0:
                return True, p.stdout
            # only a message about the program is an answer
            if p.returncode == 1 and "error:" in p.stdout and not re.search(r"No space left|internal compiler error|Killed|out of memory|annot allocate", p.stdout):
                return False, p.stdout
        raise self.run.CheckError("%s: status %s\n%s" % (argv[0], p.returncode, p.stdout[-2000:]))

    def compiles(self, source, name):
        path = os.path.join(self.dir, "p%s.cpp" % name)
        open(path, "w").write(source)
        argv = [self.cxx, self.run.STD, "-w", "-fsyntax-only", "-I" + self.run.REPO + "/include"]
        if self.cxx != "g++":
            argv += ["-include-pch", self.dir + "/pre.pch"]
        try:
            return self._run(argv + [path])
        finally:
            os.unlink(path)


def verdict(c, p, name):
    """None if as it should be, else a message."""
    ok, out = c.compiles(p.source(), name)
    if ok == p.legal():
        return None
    # the same answer twice
    if c.compiles(p.source(), name)[0] != ok:
        raise c.run.CheckError("%s does not always give the same answer" % c.cxx)
    if ok:
        return "compiles, but must not: " + next(s.text for s in p.stmts if not s.legal)
    m = re.search(r"error: .*", out)
    return "does not compile, but must: " + (m.group(0)[:300] if m else "")


def shrink(c, p):
    changed = True
    while changed:
        changed = False
        for k in range(len(p.stmts)):
            q = p.without([i for i in range(len(p.stmts)) if i != k])
            if q.legal() == p.legal() and verdict(c, q, "s"):
                p, changed = q, True
                break
        if not changed and p.context != "function":
            q = Program("function", p.stmts)
            if verdict(c, q, "s"):
                p, changed = q, True
    return p


def programs(rng, n):
    """The small ones completely, then n random ones."""
    legal, illegal = [], []
    for s in wraps():
        (legal if s.legal else illegal).append(s)
    objs = list(OBJ)
    for rule in PAIR:
        for A in TYPES:
            for B in TYPES:
                s = pair_stmt(rule, A.lower() + "a", B.lower() + "b")
                if s:
                    (legal if s.legal else illegal).append(s)
    for i in range(0, len(legal), 25):
        yield Program("function", legal[i:i + 25])
    for s in illegal:
        yield Program("function", [s])
    wr = wraps()

    def one(want):
        while True:
            if rng.random() < 0.12:
                s = rng.choice(wr)
            else:
                s = pair_stmt(rng.choice(PAIR), rng.choice(objs), rng.choice(objs))
            if s and s.legal == want:
                return s
    for i in range(n):
        body = [one(True) for _ in range(rng.choice([1, 1, 2, 3, 4, 6, 9]))]
        ctx = rng.choice(list(CONTEXTS))
        if rng.random() < 0.7:
            body.insert(rng.randrange(len(body) + 1), one(False))
        yield Program(ctx, body)


def check(run, cfg, tier, seed, scratch):
    t0 = time.time()
    rng = random.Random("C01 %d" % seed)
    compilers = ["g++", "clang++"]
    counts = {"evaluations": 0, "interesting": set(), "labels": {}, "samples": []}
    failure = None
    for cxx in compilers:
        c = Compiler(run, scratch, cxx)
        if c.pch_error:
            failure = (cxx, Program("function", []), "the public headers do not compile: " + c.pch_error[:500])
            break
        n = cfg[tier][cxx]
        todo = list(programs(rng, n))
        if cxx != "g++" and tier == "quick":
            todo = [p for p in todo if p.legal() or rng.random() < 0.5]
        with ThreadPoolExecutor(8) as ex:
            step = 400
            for at in range(0, len(todo), step):
                part = todo[at:at + step]
                for p, msg in zip(part, ex.map(lambda a: verdict(c, a[1], a[0]), [(at + i, q) for i, q in enumerate(part)])):
                    counts["evaluations"] += 1
                    for s in p.stmts:
                        k = ("legal " if s.legal else "illegal ") + s.rule
                        counts["labels"][k] = counts["labels"].get(k, 0) + 1
                    k = "program in a " + p.context
                    counts["labels"][k] = counts["labels"].get(k, 0) + 1
                    if not p.legal() or any(s.two for s in p.stmts):
                        counts["interesting"].add(p.source())
                        if len(counts["samples"]) < 12 and counts["evaluations"] % 97 == 5:
                            counts["samples"].append({"compiler": cxx, "must": "compile" if p.legal() else "be rejected", "context": p.context, "statements": [s.text for s in p.stmts]})
                    if msg and not failure:
                        failure = (cxx, p, msg)
                if failure:
                    break
        if failure:
            q = shrink(c, failure[1])
            failure = (cxx, q, verdict(c, q, "v") or failure[2])
            break
    cov = {"evaluations": counts["evaluations"], "distinct_nontrivial": len(counts["interesting"]),
           "rule": "the program has a statement that joins two texts, or a statement that must be rejected; distinct by source text",
           "samples": counts["samples"] or [failure[1].source() if failure else ""],
           "labels": counts["labels"],
           "enumerated": {"what": "every rule over every pair of the six text types, and every unit type, once per compiler (illegal ones one per program)"}}
    path = None
    if failure:
        cxx, p, msg = failure
        path = os.path.join(run.REPLAYS, "C01-%d.cpp" % os.getpid())
        open(path, "w").write("// property C01 compiler %s must %s\n// %s\n%s\n%s" % (
            cxx, "compile" if p.legal() else "be-rejected", msg.replace("\n", " "), PRE, p.source().replace('#include "pre.hpp"\n', "")))
        cov["failure"] = msg[:2000]
    run.write_evidence("C01", tier, seed, cov, time.time() - t0, 1 if failure else 0, cfg.get("assumptions", []))
    if failure:
        run.log(failure[2])
        print("VIOLATION property=C01 replay=%s" % path, flush=True)
        return 1
    run.log("C01 %s: held on %d programs in %.1f s" % (tier, cov["evaluations"], time.time() - t0))
    return 0


def replay(run, path, scratch):
    m = re.match(r"// property C01 compiler (\S+) must (\S+)", open(path).readline())
    p = subprocess.run([m.group(1), run.STD, "-w", "-fsyntax-only", "-I" + run.REPO + "/include", path], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace")
    if p.returncode not in (0, 1):
        raise run.CheckError(p.stdout[-2000:])
    bad = (p.returncode == 0) != (m.group(2) == "compile")
    print("%s, and must %s" % ("compiles" if p.returncode == 0 else "is rejected: " + p.stdout[:1500], m.group(2)))
    return 1 if bad else 0
