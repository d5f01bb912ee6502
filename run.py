#!/usr/bin/env python3
"""Decides one property of u5e against /repo's current working tree.

  run.py ID [quick|thorough]      the check (VERIF_SEED, VERIF_TIER)
  run.py --replay FILE.case       runs a saved case again (plain and sanitized)
  run.py --setup                  builds the parts that do not depend on /repo

Exit 0: held on everything explored. Exit 1 and a VIOLATION line: broken.
Anything else: the check itself could not do its work.
"""
import glob, hashlib, importlib, json, os, re, shutil, subprocess, sys, time

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
HARNESS = os.path.join(VERIF, "harness")
BUILD = os.path.join(VERIF, "build")
DATA = os.path.join(VERIF, "data")
REPLAYS = os.path.join(VERIF, "replays")
FINDINGS = os.path.join(VERIF, "known_findings.txt")
STD = "-std=c++1y"

sys.path.insert(0, HARNESS)
from config import CONFIG  # noqa: E402

BUILDS = {
    # how a user builds it
    "plain": ("g++", ["-O2", "-DNDEBUG"], {}),
    "asan": ("clang++", ["-O1", "-g", "-fsanitize=address", "-fno-omit-frame-pointer", "-DPBT_SANITIZED"],
             {"ASAN_OPTIONS": "exitcode=98:hard_rss_limit_mb=2500:detect_leaks=0:allocator_may_return_null=0:symbolize=0:detect_stack_use_after_return=1"}),
    # nothing optimized away
    "asan0": ("clang++", ["-O0", "-g", "-fsanitize=address", "-fno-omit-frame-pointer", "-DPBT_SANITIZED"],
              {"ASAN_OPTIONS": "exitcode=98:hard_rss_limit_mb=2500:detect_leaks=0:allocator_may_return_null=0:symbolize=0"}),
    # other ways to build it (K01)
    "uchar": ("g++", ["-O2", "-funsigned-char"], {}),
    "clang-uchar": ("clang++", ["-O2", "-funsigned-char", "-ftrivial-auto-var-init=pattern"], {"MALLOC_PERTURB_": "165"}),
    "O0-pattern": ("g++", ["-O0", "-ftrivial-auto-var-init=pattern"], {"MALLOC_PERTURB_": "90"}),
    "clang-O0-zero": ("clang++", ["-O0", "-ftrivial-auto-var-init=zero"], {}),
    "O3": ("g++", ["-O3", "-fstrict-aliasing"], {"MALLOC_PERTURB_": "255"}),
    "clang-O3": ("clang++", ["-O3", "-fstrict-aliasing"], {"MALLOC_PERTURB_": "127"}),
    "Os-zero": ("g++", ["-Os", "-ftrivial-auto-var-init=zero"], {}),
    "clang-O1-pattern": ("clang++", ["-O1", "-ftrivial-auto-var-init=pattern"], {"MALLOC_PERTURB_": "1"}),
    "native": ("g++", ["-O3", "-march=native", "-std=gnu++14", "-DNDEBUG", "-flto", "-fno-semantic-interposition"], {"MALLOC_PERTURB_": "33"}),
    "clang-native": ("clang++", ["-O2", "-march=native", "-std=gnu++14", "-fno-builtin", "-fPIC"], {}),
    "checks": ("g++", ["-O1", "-D_GLIBCXX_ASSERTIONS", "-D_FORTIFY_SOURCE=2", "-fstack-protector-all", "-fPIC", "-pthread", "-fwrapv"], {}),
    "tsan": ("clang++", ["-O1", "-g", "-fsanitize=thread", "-DPBT_SANITIZED"],
             {"TSAN_OPTIONS": "exitcode=98:halt_on_error=1:report_signal_unsafe=0"}),
    "fuzz": ("clang++", ["-O1", "-g", "-fsanitize=fuzzer,address", "-DPBT_SANITIZED", "-DPBT_FUZZ"],
             {"ASAN_OPTIONS": "exitcode=98:detect_leaks=0:symbolize=0:handle_abort=0"}),
}


class CheckError(Exception):
    pass


class CompileError(Exception):
    pass


def log(*a):
    print(*a, file=sys.stderr, flush=True)


def run_parallel(cmds):
    """[(name, argv)] -> [(name, rc, output)], at most 8 at a time."""
    left, live, done = list(cmds), [], []
    while left or live:
        while left and len(live) < 8:
            name, argv = left.pop(0)
            live.append((name, subprocess.Popen(argv, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace")))
        name, p = live.pop(0)
        out, _ = p.communicate()
        done.append((name, p.returncode, out))
    return done


def compile_all(cmds):
    bad = [r for r in run_parallel(cmds) if r[1] != 0]
    if bad:  # once more: only what fails twice is believed
        again = dict(cmds)
        bad = [r for r in run_parallel([(n, again[n]) for n, _, _ in bad]) if r[1] != 0]
    if bad:
        text = "\n".join("$ %s\n%s" % (" ".join(dict(cmds)[n]), o) for n, _, o in bad)
        # a message of the compiler about the sources, not a compiler in trouble
        if re.search(r"(error:|undefined reference)", text) and not re.search(
                r"(No space left|internal compiler error|Killed|cannot allocate|out of memory)", text):
            raise CompileError(text)
        raise CheckError("cannot compile:\n" + text)


def engine_objects(kinds):
    """Objects that do not depend on /repo, kept under a hash of their contents."""
    h = hashlib.sha256()
    for f in sorted(glob.glob(HARNESS + "/*.[ch]pp")):
        h.update(open(f, "rb").read())
    h.update(repr([(k, v[0], v[1]) for k, v in BUILDS.items()]).encode())
    d = os.path.join(BUILD, "engine-" + h.hexdigest()[:16])
    want = {"ucd": ("plain", "ucd.cpp"), "gen": ("plain", "gen.cpp")}
    for k in kinds:
        want["pbt-" + k] = (k, "pbt.cpp")
        if k == "tsan":
            want["ucd-tsan"] = ("tsan", "ucd.cpp")
            want["gen-tsan"] = ("tsan", "gen.cpp")
    cmds, todo = [], []
    os.makedirs(d, exist_ok=True)
    for name, (k, src) in want.items():
        out = os.path.join(d, name + ".o")
        if not os.path.exists(out):
            cxx, flags, _ = BUILDS[k]
            flags = [f.replace("fuzzer,", "fuzzer-no-link,") for f in flags]
            if name.startswith("pbt") and k == "fuzz":  # do not steer the fuzzer by the engine
                flags = [f for f in flags if not f.startswith("-fsanitize")]
            tmp = out + ".%d" % os.getpid()
            cmds.append((name, [cxx, STD] + flags + ["-c", os.path.join(HARNESS, src), "-o", tmp]))
            todo.append((tmp, out))
    return d, cmds, todo


# run by the check with arguments; each must compile as it stands
EXAMPLES = ["simple_iteration", "smallest_code", "grapheme_iteration", "truncate_on_codepoint", "truncate_on_grapheme"] + [
    "normalization_form_" + f + e for f in ("d", "c", "kd", "kc") for e in ("", "_utf32")]


def build(prop, kinds, scratch):
    src = os.path.join(HARNESS, "props", prop + ".cpp")
    d, ecmds, etodo = engine_objects(kinds)
    cmds, objs = [], {}
    lib = sorted(glob.glob(REPO + "/src/u5e/**/*.cpp", recursive=True))
    for k in kinds:
        cxx, flags, _ = BUILDS[k]
        cflags = [f.replace("fuzzer,", "fuzzer-no-link,") for f in flags]
        objs[k] = []
        for i, f in enumerate([src] + lib):
            o = os.path.join(scratch, "%s-%d.o" % (k, i))
            objs[k].append(o)
            cmds.append(("%s %s" % (k, f), [cxx, STD] + cflags + ["-w", "-I" + REPO + "/include", "-I" + HARNESS, "-c", f, "-o", o]))
        if CONFIG[prop].get("examples"):
            for n in EXAMPLES:
                o = os.path.join(scratch, "%s-%s.o" % (k, n))
                cmds.append((k + " example " + n, [cxx, STD] + cflags + ["-w", "-I" + REPO + "/include", "-c", REPO + "/examples/" + n + ".cpp", "-o", o]))
        if CONFIG[prop].get("early"):
            for n in ("first", "last"):
                o = os.path.join(scratch, "%s-early-%s.o" % (k, n))
                cmds.append((k + " early " + n, [cxx, STD] + cflags + ["-w", "-I" + REPO + "/include", "-c", HARNESS + "/early/" + n + ".cpp", "-o", o]))
    cmds.sort(key=lambda c: prop + ".cpp" not in c[0])
    try:
        compile_all(ecmds)
    except CompileError as e:
        raise CheckError(str(e))
    for tmp, out in etodo:
        os.rename(tmp, out)
    compile_all(cmds)
    links, bins = [], {}
    for k in kinds:
        cxx, flags, _ = BUILDS[k]
        sfx = "-tsan" if k == "tsan" else ""
        bins[k] = os.path.join(scratch, "check-" + k)
        links.append((k, [cxx] + flags + objs[k] + [os.path.join(d, n + ".o") for n in ("ucd" + sfx, "gen" + sfx, "pbt-" + k)]
                      + ["-lpthread", "-o", bins[k]]))
        if CONFIG[prop].get("examples"):
            d2 = os.path.join(scratch, "examples-" + k)
            os.makedirs(d2, exist_ok=True)
            for n in EXAMPLES:
                links.append((k + " example " + n, [cxx] + flags + [os.path.join(scratch, "%s-%s.o" % (k, n))] + objs[k][1:] + ["-o", os.path.join(d2, n)]))
            BUILDS[k][2]["PBT_EXAMPLES"] = d2
        if CONFIG[prop].get("early"):  # the library between the two units of the program
            d2 = os.path.join(scratch, "early-" + k)
            os.makedirs(d2, exist_ok=True)
            links.append((k + " early", [cxx] + flags + [os.path.join(scratch, k + "-early-first.o")] + objs[k][1:]
                          + [os.path.join(scratch, k + "-early-last.o"), "-lpthread", "-o", os.path.join(d2, "early")]))
            BUILDS[k][2]["PBT_EXAMPLES"] = d2
    compile_all(links)
    return bins


def findings(prop):
    """The findings listed for this property: [(id, case file, text)]"""
    r = []
    if os.path.exists(FINDINGS):
        for line in open(FINDINGS):
            m = re.match(r"finding: property=(\S+) id=(\S+) case=(\S+) (.*)", line.strip())
            if m and m.group(1) == prop:
                r.append((m.group(2), os.path.join(VERIF, m.group(3)), m.group(4)))
    return r


def exclude_args(prop, but=None):
    a = []
    for fid, _, _ in findings(prop):
        if fid != but:
            a += ["--exclude", fid]
    return a


def numbers(text):
    """The integers a piece of C++ is written with, and what neighbours among
    them give multiplied, shifted or added."""
    text = re.sub(r'//[^\n]*|/\*.*?\*/|"(?:\\.|[^"\\\n])*"', " ", text, flags=re.S)
    one = r"(?<![\w.])(?:0[xX][0-9a-fA-F']+|0[bB][01']+|\d[\d']*)(?=[uUlL]*(?![\w.]))"

    def value(d):
        d = d.replace("'", "")
        try:
            return int(d, 0) if d[:2] in ("0x", "0X", "0b", "0B") else int(d, 8) if len(d) > 1 and d[0] == "0" else int(d)
        except ValueError:
            return 0
    r = set(value(d) for d in re.findall(one, text))
    for x, op, y in re.findall(r"(?=(%s)[uUlL]*\s*(\*|<<|\+|-)\s*(%s))" % (one, one), text):
        x, y = value(x), value(y)
        r.add(x * y if op == "*" else x + y if op == "+" else x - y if op == "-" else x << min(y, 40))
    for u, c in re.findall(r"\\[uU]([0-9a-fA-F]{4,8})|(?<!\w)[uUL]?'([^'\\\n])'", text):
        r.add(int(u, 16) if u else ord(c))
    return set(v for v in r if 2 < v < 1 << 31)


def all_numbers():
    r = set()
    for f in sorted(glob.glob(REPO + "/include/u5e/**/*.hpp", recursive=True)) + sorted(glob.glob(REPO + "/src/u5e/**/*.cpp", recursive=True)):
        r |= numbers(open(f, errors="replace").read())
    return r


def literals():
    """The integers that the code under test is written with: the generators
    use some of them as codepoints and as lengths, and those that are not in
    numbers.txt (what it was written with when the checks were) as often as all
    others together. What is judged does not depend on them."""
    r = sorted(all_numbers())[:2000]
    try:
        old = set(int(v) for v in open(os.path.join(VERIF, "harness", "numbers.txt")).read().split())
    except OSError:
        old = set(r)
    new = [v for v in r if v not in old]
    if new:
        r += new * max(1, min(200, len(r) // len(new)))
    return ",".join(str(v) for v in r)


def env_for(kind):
    e = dict(os.environ)
    e["VERIF_LITERALS"] = literals()
    e.update(BUILDS[kind][2])
    return e


def replay_once(prop, binary, kind, path, but=None):
    p = subprocess.run([binary, "--data", DATA, "--replay", path] + exclude_args(prop, but),
                       env=env_for(kind), stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, errors="replace", timeout=600)
    if p.returncode not in (0, 1):
        raise CheckError("replay of %s: status %d\n%s" % (path, p.returncode, p.stderr[-2000:]))
    return p.returncode == 1, (p.stdout + p.stderr).strip()


def confirm(prop, binary, kind, path):
    """Three failures in three fresh processes; for failures that do not come
    back every time (they do happen: threads, wild reads), one of ten."""
    n = sum(replay_once(prop, binary, kind, path)[0] for _ in range(3))
    if n == 3:
        return True
    for _ in range(10):
        if replay_once(prop, binary, kind, path)[0]:
            n += 1
            if n >= 2:
                return True
    return n > 0


def run_kind(prop, binary, kind, tier, seed, cases, no_enum, scratch, workers=8):
    out = os.path.join(scratch, "result-%s.json" % kind)
    argv = [binary, "--data", DATA, "--tier", tier, "--seed", str(seed), "--cases", str(cases), "--workers", str(workers),
            "--out", out, "--replays", REPLAYS] + exclude_args(prop)
    if no_enum:
        argv.append("--no-enum")
    p = None
    for attempt in range(2):
        p = subprocess.run(argv, env=env_for(kind), stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, errors="replace")
        if p.returncode in (0, 1) and os.path.exists(out):
            r = json.load(open(out))
            r["kind"] = kind
            if p.returncode == 1:
                r["confirmed"] = confirm(prop, binary, kind, r["replay"])
                if not r["confirmed"]:
                    if attempt == 0:
                        continue
                    # The same run failed twice, with the same inputs.
                    r["confirmed"] = True
                    r["message"] += " (seen in two runs of the whole check, but not in its replay)"
            return r
    raise CheckError("%s build of %s: status %s\n%s" % (kind, prop, p.returncode, p.stderr[-3000:]))


def run_fuzz(prop, bins, seed, seconds, scratch):
    """Coverage-guided search with the same generator and oracle."""
    procs = []
    t0 = time.time()
    ex = " ".join(f for f, _, _ in findings(prop))
    for i in range(8):
        d = os.path.join(scratch, "fuzz%d" % i)
        os.makedirs(d + "/corpus")
        e = env_for("fuzz")
        e.update({"PBT_DATA": DATA, "PBT_EXCLUDED": ex, "PBT_REPLAYS": d})
        argv = [bins["fuzz"], "-seed=%d" % (seed * 100 + i + 1), "-max_total_time=%d" % seconds, "-timeout=25", "-rss_limit_mb=2500",
                "-max_len=%d" % (256 if i < 4 else 2048), "-len_control=%d" % (100 if i % 2 else 20), "-print_final_stats=1", "-verbosity=0",
                "-artifact_prefix=%s/" % d, d + "/corpus"]
        procs.append((d, subprocess.Popen(argv, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", cwd=d)))
    execs, units, bad = 0, 0, []
    for d, p in procs:
        out, _ = p.communicate()
        m = re.search(r"number_of_executed_units:\s*(\d+)", out)
        execs += int(m.group(1)) if m else 0
        units += len(os.listdir(d + "/corpus"))
        if p.returncode != 0:
            bad.append((d, out))
    r = {"kind": "fuzz", "evaluations": execs, "corpus_units": units, "wall_s": time.time() - t0, "violation": False}
    for d, out in bad:
        cases = glob.glob(d + "/fuzz-*.case")
        arts = [a for a in glob.glob(d + "/*") if os.path.basename(a).startswith(("crash-", "timeout-", "oom-"))]
        if not cases and arts:
            c = d + "/decoded.case"
            subprocess.run([bins[[k for k in bins if k.startswith("asan")][0]], "--data", DATA, "--decode", arts[0], "--out", c], env=env_for("asan"), check=False)
            cases = [c] if os.path.exists(c) else []
        for c in cases:
            for kind in [k for k in bins if k != "fuzz"]:
                if replay_once(prop, bins[kind], kind, c)[0] and confirm(prop, bins[kind], kind, c):
                    p = subprocess.run([bins[kind], "--data", DATA, "--shrink", c, "--replays", REPLAYS] + exclude_args(prop),
                                       env=env_for(kind), stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, text=True, errors="replace")
                    lines = p.stdout.splitlines()
                    path = lines[0] if p.returncode == 1 and lines else None
                    if not path or not os.path.exists(path):
                        path = os.path.join(REPLAYS, "%s-fuzz-%d.case" % (prop, os.getpid()))
                        shutil.copy(c, path)
                    r.update(violation=True, confirmed=True, replay=path, message="\n".join(lines[1:]))
                    return r
        log("a fuzzer stopped without a failure that comes back:\n" + out[-1500:])
        r["unconfirmed_stops"] = r.get("unconfirmed_stops", 0) + 1
    return r


def write_evidence(prop, tier, seed, coverage, wall, violations, assumptions):
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    path = os.path.join(VERIF, "evidence", prop + ".json")
    tmp = path + ".%d" % os.getpid()
    json.dump({"property": prop, "tier": tier, "seed": seed, "level": "exploration", "coverage": coverage,
               "assumptions": assumptions, "wall_s": round(wall, 2), "violations": violations},
              open(tmp, "w"), indent=1)
    os.rename(tmp, path)


def report_findings(prop, bins):
    for fid, case, text in findings(prop):
        # an optimizing build may drop a read whose value is not used
        if any(replay_once(prop, b, k, case, but=fid)[0] for k, b in bins.items() if k != "fuzz"):
            print("KNOWN-FINDING: property=%s %s: %s" % (prop, fid, text), flush=True)
        else:
            log("note: the recorded finding %s of %s does not show any more" % (fid, prop))


def check_cpp(prop, cfg, tier, seed, scratch):
    t0 = time.time()
    kinds = list(cfg.get("builds", ["plain", "asan"]))
    if tier == "thorough" and cfg.get("fuzz", True):
        kinds.append("fuzz")
    assumptions = cfg.get("assumptions", [])
    try:
        bins = build(prop, kinds, scratch)
    except CompileError as e:
        path = os.path.join(REPLAYS, prop + "-compile.txt")
        open(path, "w").write("The program of this property, which uses the public interface only, does not compile:\n" + str(e))
        log(str(e)[:4000])
        write_evidence(prop, tier, seed, {"evaluations": 1, "distinct_nontrivial": 1, "rule": "the program of the property compiles",
                                          "samples": ["harness/props/%s.cpp" % prop]}, time.time() - t0, 1, assumptions)
        print("VIOLATION property=%s replay=%s" % (prop, path), flush=True)
        return 1
    results, violation = [], None
    for kind in kinds:
        if kind == "fuzz":
            r = run_fuzz(prop, bins, seed, cfg.get("fuzz_s", 120), scratch)
        else:
            n = cfg[tier].get(kind)
            if not n:
                continue
            # different cases under each build
            r = run_kind(prop, bins[kind], kind, tier, seed * 16 + list(BUILDS).index(kind), n,
                         kind != "plain" and not cfg.get("enum_" + kind, True), scratch, cfg.get("workers", 8))
        results.append(r)
        if r["violation"]:
            violation = r
            break
    if "cold" in cfg and not violation:
        # many fresh processes: each worker's first case is the first use of the library
        kind, n = cfg["cold"]
        for i in range(n if tier == "quick" else 10 * n):
            r = run_kind(prop, bins[kind], kind, tier, seed * 16 + 1000003 * (i + 1), 8, True, scratch, 8)
            r["kind"] = kind + " cold"
            if i == 0:
                results.append(r)
            else:
                for k in ("evaluations", "interesting", "distinct", "checks", "wall_s"):
                    results[-1][k] += r[k]
            if r["violation"]:
                violation = r
                break
    main = results[0]
    cov = {
        "evaluations": sum(r["evaluations"] for r in results),
        "distinct_nontrivial": main["distinct"],
        "rule": main["rule"] + ". Distinct by content; counted in the plain build's run only.",
        "samples": main["samples"] or ["(none: stopped before the first non-trivial case)"],
        "comparisons": sum(r.get("checks", 0) for r in results),
        "labels": main["labels"],
        "enumerated": {"what": main["enum_what"], "cases": main["enumerated"]},
        "runs": [{k: r[k] for k in ("kind", "evaluations", "interesting", "distinct", "enumerated", "large", "large_size", "slowest_s", "wall_s", "corpus_units", "unconfirmed_stops") if k in r} for r in results],
    }
    if violation:
        cov["failure"] = violation["message"][:2000]
    write_evidence(prop, tier, seed, cov, time.time() - t0, 1 if violation else 0, assumptions)
    report_findings(prop, bins)
    if violation:
        log(violation["message"])
        print("VIOLATION property=%s replay=%s" % (prop, violation["replay"]), flush=True)
        return 1
    log("%s %s: held on %d cases (%d distinct non-trivial) in %.1f s" % (prop, tier, cov["evaluations"], cov["distinct_nontrivial"], time.time() - t0))
    return 0


def main():
    if sys.argv[1:] == ["--setup"]:
        _, cmds, todo = engine_objects(["plain", "asan", "tsan"])
        compile_all(cmds)
        for tmp, out in todo:
            os.rename(tmp, out)
        return 0
    os.makedirs(REPLAYS, exist_ok=True)
    if sys.argv[1] == "--replay":
        path = os.path.abspath(sys.argv[2])
        m = re.match(r"(?:#|//) property (\S+)", open(path).readline())
        prop = m.group(1)
        tier = None
    else:
        prop = sys.argv[1]
        tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    cfg = CONFIG[prop]
    scratch = os.path.join(BUILD, "%s-%d" % (prop, os.getpid()))
    shutil.rmtree(scratch, ignore_errors=True)
    os.makedirs(scratch)
    try:
        if "module" in cfg:
            mod = importlib.import_module(cfg["module"])
            if tier is None:
                return mod.replay(sys.modules[__name__], path, scratch)
            return mod.check(sys.modules[__name__], cfg, tier, seed, scratch)
        if tier is None:
            rc = 0
            bins = build(prop, cfg.get("builds", ["plain", "asan"]), scratch)
            for kind, b in bins.items():
                failed, msg = replay_once(prop, b, kind, path)
                print("%s: %s" % (kind, msg))
                rc |= failed
            return rc
        return check_cpp(prop, cfg, tier, seed, scratch)
    except CheckError as e:
        log("ERROR:", e)
        return 2
    finally:
        shutil.rmtree(scratch, ignore_errors=True)


if __name__ == "__main__":
    sys.exit(main())
