"""X01: the table generators, on generated Unicode character databases.

A database is made up first as facts (classes, mappings, exclusions, breaks);
the three files are written from the facts in the official layout, and what
the tables must hold is computed from the facts, not from the files.
"""
import glob, os, random, re, shutil, subprocess, time
from concurrent.futures import ThreadPoolExecutor

TAGS = ["font", "noBreak", "initial", "medial", "final", "isolated", "circle", "super", "sub", "vertical", "wide", "narrow", "small",
        "square", "fraction", "compat"]
BREAKS = ["CR", "LF", "Control", "Extend", "Prepend", "SpacingMark", "Regional_Indicator", "L", "V", "T", "LV", "LVT", "E_Base",
          "E_Modifier", "ZWJ", "Glue_After_Zwj", "E_Base_GAZ"]
CLASSES = [1, 7, 8, 9, 10, 18, 84, 91, 103, 107, 122, 129, 130, 132, 202, 214, 216, 218, 220, 222, 224, 226, 228, 230, 232, 233, 234, 240, 254]
TABLES = ["canonical_combining_class", "canonical_decomposition_mapping", "compatibility_and_canonical_decomposition_mapping",
          "canonical_composition_mapping", "grapheme_cluster_break"]


def hangul(c):  # what the library computes, whatever the tables say
    return 0x1100 <= c <= 0x11FF or 0xAC00 <= c <= 0xD7A3


class Db:
    def __init__(self):
        self.chars = {}     # cp -> (ccc, tag or None, [decomposition])
        self.excl = []      # cp, in file order; may be commented out
        self.dead_excl = []
        self.breaks = []    # (first, last, value), in file order
        self.spans = []     # (first, last) of "<..., First>" pairs
        self.style = 0

    def copy(self):
        d = Db()
        d.chars, d.excl, d.dead_excl, d.breaks, d.spans, d.style = dict(self.chars), list(self.excl), list(self.dead_excl), list(self.breaks), list(self.spans), self.style
        return d

    def facts(self):
        return [("c", k) for k in self.chars] + [("e", k) for k in self.excl] + [("x", k) for k in self.dead_excl] + \
            [("b", k) for k in self.breaks] + [("s", k) for k in self.spans]

    def only(self, facts):
        keep, d = set(facts), self.copy()
        d.chars = {k: v for k, v in self.chars.items() if ("c", k) in keep}
        d.excl = [k for k in self.excl if ("e", k) in keep]
        d.dead_excl = [k for k in self.dead_excl if ("x", k) in keep]
        d.breaks = [k for k in self.breaks if ("b", k) in keep]
        d.spans = [k for k in self.spans if ("s", k) in keep]
        return d

    def files(self):
        u = []
        for c in self.chars:
            ccc, tag, dec = self.chars[c]
            f = (("<%s> " % tag) if tag else "") + " ".join("%04X" % x for x in dec)
            u.append((c, "%04X;NAME %X;%s;%d;%s;%s;;;;N;;;;;" % (c, c, "Mn" if ccc else "Lo", ccc, "NSM" if ccc else "L", f)))
        for a, b in self.spans:
            u.append((a, "%04X;<Some Ideograph, First>;Lo;0;L;;;;;N;;;;;" % a))
            u.append((b, "%04X;<Some Ideograph, Last>;Lo;0;L;;;;;N;;;;;" % b))
        u.sort()
        e = ["# CompositionExclusions-X.txt", "#", ""]
        for c in self.excl:
            pad = [" " * (4 if c < 0x10000 else 3), " ", "  ", "", "\t"][self.style % 5]
            e.append("%04X%s#  SOME LETTER %04X%s" % (c, pad, c, "; 0041 # 0042" if c % 3 == 0 else ""))
        e += ["", "# Total code points: %d" % len(self.excl), "", "# (3) Singleton Decompositions", "#"]
        for c in self.dead_excl:
            e.append("# %04X     SOME SIGN" % c)
        e += ["", "# EOF", ""]
        g = ["# GraphemeBreakProperty-X.txt", "# @missing: 0000..10FFFF; Other", "", "# ================================================", ""]
        for v in BREAKS:
            rows = [(a, b) for a, b, w in self.breaks if w == v]
            for a, b in rows:
                r = "%04X" % a if a == b else "%04X..%04X" % (a, b)
                n = "  [%d] " % (b - a + 1) if a != b else "       "
                g.append(["%-14s; %s # Lo %s SOME NAME; ANOTHER..NAME #; 0041" if len(g) % 3 == 0 else "%-14s; %s # Lo %s SOME NAME..OTHER NAME", "%s; %s # Lo %s SOME NAME", "%-26s; %s # Lo %s SOME NAME", "%s ;%s#%s", "%s;  %s  # %s"][self.style // 5 % 5] % (r, v, n))
            if rows:
                g += ["", "# Total code points: %d" % sum(b - a + 1 for a, b in rows), "", "# ================================================", ""]
        g += ["# EOF", ""]
        return {"UnicodeData.txt": "\n".join(x for _, x in u) + "\n", "CompositionExclusions.txt": "\n".join(e), "GraphemeBreakProperty.txt": "\n".join(g)}

    def tables(self):
        ccc = {c: v[0] for c, v in self.chars.items()}

        def full(c, compat):
            v = self.chars.get(c)
            if not v or not v[2] or (v[1] and not compat):
                return [c]
            return [y for x in v[2] for y in full(x, compat)]
        comp = {}
        for c, (k, tag, dec) in self.chars.items():
            if dec and not tag and len(dec) == 2 and k == 0 and ccc.get(dec[0], 0) == 0 and c not in self.excl:
                comp[tuple(dec)] = c
        return {
            "canonical_combining_class": {(c,): (k,) for c, k in ccc.items() if k},
            "canonical_decomposition_mapping": {(c,): tuple(full(c, False)) for c, v in self.chars.items() if v[2] and not v[1]},
            "compatibility_and_canonical_decomposition_mapping": {(c,): tuple(full(c, True)) for c, v in self.chars.items() if v[2]},
            "canonical_composition_mapping": {k: (c,) for k, c in comp.items()},
            "grapheme_cluster_break": {(a, b): (v.upper(),) for a, b, v in self.breaks},
        }


def make(rng):
    d = Db()
    d.style = rng.choice([0, 0, 0, rng.randrange(25)])
    size = rng.choice([3, 8, 20, 20, 60, 200, 600])
    pools = [(0x41, 0x7A), (0xA0, 0x24F), (0x300, 0x36F), (0x900, 0xDFF), (0x1E00, 0x1FFF), (0x2100, 0x2FFF), (0x3041, 0x30FF),
             (0xF900, 0xFFFD), (0x10000, 0x10FFF), (0x1D100, 0x1D7FF), (0x2F800, 0x2FA1D), (0xF0000, 0xF0FFF), (0x10FF00, 0x10FFFD)]
    used = rng.sample(pools, rng.randrange(1, len(pools)))
    cps = set()
    for _ in range(size):
        a, b = rng.choice(used)
        c = rng.randrange(a, b + 1)
        for _ in range(rng.choice([1, 1, 1, 3])):
            cps.add(c)
            c += 1
    cps = [c for c in cps if not hangul(c)]
    rng.shuffle(cps)
    done, pairs, weight = [], set(), {}
    for c in cps:  # a mapping refers to characters that came before: never in a circle
        ccc = rng.choice(CLASSES) if rng.random() < 0.3 else 0
        tag, dec = None, []
        x = rng.random()
        if done and x < 0.45:
            n = 1 if x < 0.08 else 2
            dec = [rng.choice(done[-20:] if rng.random() < 0.6 else done) for _ in range(n)]
            if n == 2 and (tuple(dec) in pairs):
                dec = []
            if any(d.chars[y][1] for y in dec):  # canonical mappings of compatibility characters exist, but rarely
                if rng.random() < 0.5:
                    dec = []
            if n == 2 and dec:
                pairs.add(tuple(dec))
        elif done and x < 0.65:
            tag = rng.choice(TAGS)
            dec = [rng.choice(done[-20:] if rng.random() < 0.6 else done) for _ in range(rng.choice([1, 1, 2, 3, 4, 8, 18]))]
        w = sum(weight[y] for y in dec) if dec else 1
        if w > 18:
            pairs.discard(tuple(dec))
            tag, dec, w = None, [], 1
        weight[c] = w
        d.chars[c] = (ccc, tag, dec)
        done.append(c)
    comp = [c for c, v in d.chars.items() if v[2] and not v[1]]
    p = rng.choice([0, 0.1, 0.5])
    for c in comp:
        if rng.random() < p:
            d.excl.append(c)
        elif rng.random() < 0.1:
            d.dead_excl.append(c) if len(d.chars[c][2]) == 1 else None
    if rng.random() < 0.2:
        d.excl += [c for c in rng.sample(done, min(2, len(done))) if c not in d.excl]
    # break ranges, disjoint
    at, out = rng.choice([0, 0, 0x20, 0x300]), []
    for _ in range(rng.choice([1, 2, 5, 30, 150])):
        n = rng.choice([1, 1, 1, 2, 3, 5, 15, 16, 17, 100, 4096])
        if at + n > 0x110000:
            break
        out.append((at, at + n - 1, rng.choice(BREAKS)))
        at += n + rng.choice([0, 0, 1, 2, 7, 100, 4000, 40000])
    # as in the official file: by value, ascending within it
    d.breaks = out
    if rng.random() < 0.4:
        a = rng.choice([0x3400, 0x4E00, 0x17000, 0x20000])
        d.spans.append((a, a + rng.randrange(1, 5000)))
    return d


GENERATORS = [(t, ["sh", t + "_data.sh"] if t == "grapheme_cluster_break" else ["perl", t + "_data.pl"]) for t in TABLES]


def generate(run, d, work):
    """Runs the scripts; returns {table: text}."""
    src = run.REPO + "/src/u5e/props"
    shutil.rmtree(work, ignore_errors=True)
    os.makedirs(work)
    for f in glob.glob(src + "/*"):
        if os.path.isdir(f):
            shutil.copytree(f, os.path.join(work, os.path.basename(f)))
        elif not f.endswith("_data.hpp") and (d is None or not f.endswith(".txt")):
            shutil.copy(f, work)
    if d is not None:
        for n, t in d.files().items():
            open(os.path.join(work, n), "w").write(t)
    out = {}
    for t, argv in GENERATORS:
        e = dict(os.environ)
        e["LC_ALL"] = "C"
        # a database as large as the shipped one takes a tenth of a second
        try:
            p = subprocess.run(argv, cwd=work, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", timeout=60)
        except subprocess.TimeoutExpired:
            return t, "%s did not end within 60 s" % argv[-1]
        path = os.path.join(work, t + "_data.hpp")
        if p.returncode != 0:
            return t, "%s ended with status %d: %s" % (argv[-1], p.returncode, p.stdout[-300:])
        if not os.path.exists(path):
            return t, "%s wrote no table" % argv[-1]
        out[t] = open(path).read()
    return out


def parse(text):
    """[(numbers and names of a row)] or None when it is laid out differently."""
    text = re.sub(r"//.*|/\*.*?\*/", "", text)
    rest = re.sub(r"\{[^{}]*\}", "", text)
    if re.sub(r"[\s,]", "", rest):
        return None
    rows = []
    for m in re.findall(r"\{([^{}]*)\}", text):
        row = []
        for x in m.split(","):
            x = x.strip().split("::")[-1]
            if not x:
                continue
            row.append(int(x, 0) if re.match(r"(0[xX][0-9a-fA-F]+|[1-9]\d*|0)$", x) else x)
        rows.append(row)
    return rows


def differs(table, want, text):
    """None if the rows are as they must be; else where they are not."""
    rows = parse(text)
    if rows is None:
        return "unknown layout"
    got, last = {}, None
    for r in rows:
        if table == "canonical_composition_mapping":
            k, v = tuple(r[:2]), tuple(r[2:])
        elif table == "grapheme_cluster_break":
            k, v = tuple(r[:2]), tuple(r[2:])
        elif table == "canonical_combining_class":
            k, v = tuple(r[:1]), tuple(r[1:])
        else:
            if len(r) < 3 or r[-1] != 0:
                return "row %s has no end mark" % r
            k, v = tuple(r[:1]), tuple(r[1:-1])
        if last is not None and not last < k:
            return "row %s comes after %s" % (k, last)
        last = k
        got[k] = v
    for k in sorted(set(got) | set(want)):
        if got.get(k) != want.get(k):
            return "row %s: %s, must be %s" % (["%04X" % x for x in k], got.get(k), want.get(k))
    return None


DRIVER = r"""
#include <cstdio>
#include <cstring>
#include <u5e/props/canonical_combining_class.hpp>
#include <u5e/props/canonical_composition_mapping.hpp>
#include <u5e/props/canonical_decomposition_mapping.hpp>
#include <u5e/props/compatibility_and_canonical_decomposition_mapping.hpp>
#include <u5e/props/grapheme_cluster_break.hpp>
using namespace u5e::props;
int main() {
  char k[8]; int a, b;
  while (scanf("%7s %d %d", k, &a, &b) == 3) {
    if (!strcmp(k, "ccc")) printf("%d", canonical_combining_class::resolve(a));
    else if (!strcmp(k, "gcb")) printf("%d", (int)grapheme_cluster_break::resolve(a));
    else if (!strcmp(k, "comp")) { int r = 0; if (canonical_composition_mapping::resolve(a, b, &r)) printf("%d", r); else printf("-"); }
    else {
      int const* p = !strcmp(k, "can") ? canonical_decomposition_mapping::resolve(a) : compatibility_and_canonical_decomposition_mapping::resolve(a);
      if (!p) printf("-"); else for (; *p; p++) printf("%d ", *p);
    }
    printf("\n");
  }
}
"""
GCB = ["OTHER", "PREPEND", "CR", "LF", "CONTROL", "EXTEND", "REGIONAL_INDICATOR", "SPACINGMARK", "L", "V", "T", "LV", "LVT", "E_BASE",
       "E_MODIFIER", "ZWJ", "GLUE_AFTER_ZWJ", "E_BASE_GAZ"]


def lookups(run, d, work):
    """Compiles the lookups around the generated tables; None or a message."""
    src = run.REPO + "/src/u5e/props"
    for f in glob.glob(src + "/*.[ch]pp"):
        if not os.path.exists(os.path.join(work, os.path.basename(f))):
            shutil.copy(f, work)
    open(work + "/driver.cc", "w").write(DRIVER.replace("(int)grapheme_cluster_break::resolve(a)", "gcb(a)").replace(
        "int main", "static int gcb(int a) { switch (grapheme_cluster_break::resolve(a)) {\n%s default: return -1; } }\nint main" %
        "\n".join("case grapheme_cluster_break::%s: return %d;" % (n, i) for i, n in enumerate(GCB)), 1))
    cmds = [(f, ["g++", run.STD, "-w", "-O0", "-I" + run.REPO + "/include", "-c", f, "-o", f + ".o"]) for f in sorted(glob.glob(work + "/*.cpp")) + [work + "/driver.cc"]]
    try:
        run.compile_all(cmds)
        run.compile_all([("link", ["g++"] + [f + ".o" for f, _ in cmds] + ["-o", work + "/driver"])])
    except run.CompileError as e:
        return "the lookups do not compile with the generated tables: " + str(e)[:500]
    t = d.tables()
    cps = set([0, 1, 0x10FFFF])
    for a, b, _ in d.breaks:
        cps |= {a, b, a + 1, b + 1, max(0, a - 1), (a + b) // 2}
    for c in d.chars:
        cps |= {c, c + 1, max(0, c - 1)}
    cps = sorted(c for c in cps if c <= 0x10FFFF)
    if len(cps) > 4000:
        cps = random.Random(1).sample(cps, 4000)
    q, want = [], []
    br = sorted(d.breaks)
    import bisect
    starts = [a for a, _, _ in br]
    for c in cps:
        q.append("ccc %d 0" % c)
        want.append(str(t["canonical_combining_class"].get((c,), (0,))[0]))
        i = bisect.bisect_right(starts, c) - 1
        q.append("gcb %d 0" % c)
        want.append(str(GCB.index(br[i][2].upper()) if i >= 0 and c <= br[i][1] else 0))
        if not hangul(c):
            for n, k in (("can", "canonical_decomposition_mapping"), ("com", "compatibility_and_canonical_decomposition_mapping")):
                v = t[k].get((c,))
                if v is None or 0 not in v:
                    q.append("%s %d 0" % (n, c))
                    want.append("-" if v is None else " ".join(map(str, v)))
    comp = t["canonical_composition_mapping"]
    for c, v in list(d.chars.items())[:3000]:
        for p in ([tuple(v[2])] if len(v[2]) == 2 else []) + [(c, c), (c, next(iter(d.chars)))]:
            q.append("comp %d %d" % p)
            want.append(str(comp[p][0]) if p in comp else "-")
    try:
        p = subprocess.run([work + "/driver"], input="\n".join(q) + "\n", stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", timeout=60)
    except subprocess.TimeoutExpired:
        return "the lookups did not end"
    got = [x.strip() for x in p.stdout.split("\n")]
    for a, w, g in zip(q, want, got):
        if w != g:
            return "lookup %s: %s, must be %s" % (a, g, w)
    if len(got) < len(q):
        return "the lookups stopped early: status %d" % p.returncode
    return None


def verdict(run, d, work, compiled=False):
    try:
        out = generate(run, d, work)
        if isinstance(out, tuple):
            return "%s: %s" % out
        bad = None
        for t, want in d.tables().items():
            bad = differs(t, want, out[t])
            if bad:
                bad = "%s: %s" % (t, bad)
                break
        # rows only matter as the lookups read them
        if bad or compiled:
            msg = lookups(run, d, work)
            return (bad + "; " if bad else "") + msg if msg else None
        return None
    finally:
        shutil.rmtree(work, ignore_errors=True)


def shipped(run, work):
    """The database next to the scripts must give the committed tables."""
    try:
        out = generate(run, None, work)
        if isinstance(out, tuple):
            return "%s: %s" % out
        for t in TABLES:
            a, b = parse(out[t]), parse(open(run.REPO + "/src/u5e/props/" + t + "_data.hpp").read())
            if a != b:
                if a is None or b is None:
                    # another layout: compare the text
                    if out[t].split() == open(run.REPO + "/src/u5e/props/" + t + "_data.hpp").read().split():
                        continue
                    return "%s: the committed table is not what the script writes" % t
                n = next((i for i, (x, y) in enumerate(zip(a, b)) if x != y), min(len(a), len(b)))
                return "%s: row %d of the committed table is %s, the script writes %s" % (t, n, b[n] if n < len(b) else None, a[n] if n < len(a) else None)
        return None
    finally:
        shutil.rmtree(work, ignore_errors=True)


def shrink(run, d, work):
    facts, n, t0 = d.facts(), 2, time.time()
    while len(facts) > 1 and time.time() - t0 < 60:
        size = max(1, len(facts) // n)
        for i in range(0, len(facts), size):
            part = facts[:i] + facts[i + size:]
            if any(k == "b" for k, _ in part) and verdict(run, d.only(part), work):
                facts, n = part, max(2, n - 1)
                break
        else:
            if size == 1:
                break
            n = min(len(facts), n * 2)
    return d.only(facts)


def check(run, cfg, tier, seed, scratch):
    t0 = time.time()
    rng = random.Random("X01 %d" % seed)
    failure, replay_text = None, None
    seen, samples, labels, evaluations = set(), [], {}, 1
    msg = shipped(run, scratch + "/shipped")
    if msg and shipped(run, scratch + "/shipped"):
        failure, replay_text = msg, "# property X01 shipped\n# %s\n" % msg
    todo = [make(rng) for _ in range(cfg[tier]["databases"])]
    every = cfg[tier]["compiled_every"]
    if not failure:
        with ThreadPoolExecutor(8) as ex:
            for at in range(0, len(todo), 160):
                part = todo[at:at + 160]
                for i, (d, msg) in enumerate(zip(part, ex.map(lambda a: verdict(run, a[1], "%s/w%d" % (scratch, a[0]), a[0] % every == 0),
                                                              [(at + i, d) for i, d in enumerate(part)]))):
                    evaluations += 1
                    t = d.tables()
                    one = {"combining classes": len(t["canonical_combining_class"]), "composites": len(t["canonical_composition_mapping"]),
                           "canonical mappings": len(t["canonical_decomposition_mapping"]),
                           "compatibility mappings": sum(1 for v in d.chars.values() if v[1]),
                           "mappings that recurse": sum(1 for c, v in d.chars.items() if v[2] and t["compatibility_and_canonical_decomposition_mapping"][(c,)] != tuple(v[2])),
                           "exclusions": len(d.excl), "singletons": sum(1 for v in d.chars.values() if len(v[2]) == 1 and not v[1]),
                           "break ranges": len(d.breaks)}
                    for k, v in one.items():
                        if v:
                            labels["databases with " + k] = labels.get("databases with " + k, 0) + 1
                    if one["canonical mappings"] or one["break ranges"] > 1:
                        seen.add(repr(sorted(d.files().items())))
                        if len(samples) < 6 and len(d.chars) < 25:
                            samples.append({"counts": one, "UnicodeData.txt": d.files()["UnicodeData.txt"][:600]})
                    if msg and not failure:
                        failure = (d, msg)
                if failure:
                    break
        if failure:
            d, msg = failure
            if verdict(run, d, scratch + "/again", True):
                d = shrink(run, d, scratch + "/s")
                msg = verdict(run, d, scratch + "/s", True) or msg
            else:
                raise run.CheckError("a failure of X01 did not come back: " + msg)
            replay_text = "# property X01 database\n# %s\n# %r\n" % (msg.replace("\n", " "), (d.chars, d.excl, d.dead_excl, d.breaks, d.spans, d.style))
            for n, t in d.files().items():
                replay_text += "===== %s\n%s" % (n, t)
            failure = msg
    cov = {"evaluations": evaluations, "distinct_nontrivial": max(1, len(seen)),
           "rule": "the database has a canonical mapping or more than one break range; distinct by file contents",
           "samples": samples or ["the shipped database"], "labels": labels,
           "compiled": "every %dth database also through the compiled lookups; the shipped database against the committed tables" % every}
    if failure:
        cov["failure"] = failure[:2000]
    run.write_evidence("X01", tier, seed, cov, time.time() - t0, 1 if failure else 0, cfg.get("assumptions", []))
    if failure:
        path = os.path.join(run.REPLAYS, "X01-%d.txt" % os.getpid())
        open(path, "w").write(replay_text)
        run.log(failure)
        print("VIOLATION property=X01 replay=%s" % path, flush=True)
        return 1
    run.log("X01 %s: held on %d databases in %.1f s" % (tier, evaluations, time.time() - t0))
    return 0


def replay(run, path, scratch):
    lines = open(path).read().split("\n")
    if lines[0].endswith("shipped"):
        msg = shipped(run, scratch + "/r")
    else:
        import ast
        d = Db()
        d.chars, d.excl, d.dead_excl, d.breaks, d.spans, d.style = ast.literal_eval(lines[2][2:])
        msg = verdict(run, d, scratch + "/r", True)
    print(msg or "as it must be")
    return 1 if msg else 0
