"""X03: the table generators under injected faults.

Whatever goes wrong with the files (missing, not a file, failing to be read at
any octet, no room for the table at any octet, lost when closed), a generator
ends with success only when the table it leaves is the one it writes when
nothing goes wrong; and when nothing goes wrong it ends with success.
"""
import ast, glob, os, random, shutil, subprocess, time
from concurrent.futures import ThreadPoolExecutor
import x01

NEEDS = {t: ["UnicodeData.txt"] for t in x01.TABLES}
NEEDS["canonical_composition_mapping"] = ["UnicodeData.txt", "CompositionExclusions.txt"]
NEEDS["grapheme_cluster_break"] = ["GraphemeBreakProperty.txt"]
STALE = "{ 1, 2, 3 },\n"


def prepare(run, d, work):
    src = run.REPO + "/src/u5e/props"
    shutil.rmtree(work, ignore_errors=True)
    os.makedirs(work)
    for f in glob.glob(src + "/*"):
        if os.path.isdir(f):
            shutil.copytree(f, os.path.join(work, os.path.basename(f)))
        elif not f.endswith("_data.hpp") and (d is None or not f.endswith(".txt")):
            shutil.copy(f, work)
    if d is not None:
        for n, t in d.files().items():
            open(os.path.join(work, n), "w").write(t)


def clear(path):
    if os.path.isdir(path) and not os.path.islink(path):
        shutil.rmtree(path)
    elif os.path.lexists(path):
        os.unlink(path)


def start(table, work, shim, fault):
    """(status, table or None) of one run of a generator."""
    kind, name, at = fault
    argv = dict(x01.GENERATORS)[table]
    out = os.path.join(work, table + "_data.hpp")
    clear(out)
    e = dict(os.environ)
    e["LC_ALL"] = "C"
    limit, saved = None, None
    target = os.path.join(work, name) if name else None
    if kind == "missing" or kind == "directory":
        saved = target + ".saved"
        os.rename(target, saved)
        if kind == "directory":
            os.mkdir(target)
    elif kind == "read" or kind == "close":
        e.update(LD_PRELOAD=shim, VERIF_FAULT=kind, VERIF_FAULT_PATH=target or out, VERIF_FAULT_AT=str(at))
    elif kind == "room":
        limit = at
    elif kind == "no file":
        os.symlink(os.path.join(work, "nowhere", "table"), out)
    elif kind == "stale":
        open(out, "w").write(STALE * 2000)
    if kind in ("missing", "directory", "read"):
        open(out, "w").write(STALE)   # from the last time

    if limit is not None:   # as on a full disk: writing fails, nothing is killed
        argv = ["sh", "-c", 'trap "" XFSZ; exec prlimit --fsize="$0" "$@"', str(limit)] + argv
    try:
        p = subprocess.run(argv, cwd=work, env=e, stdin=subprocess.DEVNULL, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL,
                           timeout=60)
        status = p.returncode
    except subprocess.TimeoutExpired:
        status = "none within 60 s"
    finally:
        if saved:
            clear(target)
            os.rename(saved, target)
    text = open(out, errors="replace").read() if os.path.isfile(out) else None
    clear(out)
    return status, text


def equal(a, b):
    if a == b:
        return True
    if a is None or b is None:
        return False
    x, y = x01.parse(a), x01.parse(b)
    return (x is not None and x == y) or a.split() == b.split()


def whole(table, work, shim):
    """The table when nothing goes wrong."""
    return start(table, work, shim, ("none", None, 0))


def judge(table, work, shim, fault, full):
    """(message or None, whether the fault mattered)"""
    status, text = start(table, work, shim, fault)
    good = status == 0 and equal(text, full)
    kind, name, at = fault
    what = "%s with %s" % (dict(x01.GENERATORS)[table][-1], {
        "missing": "%s missing" % name, "directory": "a directory for %s" % name, "read": "%s failing to be read from octet %d on" % (name, at),
        "room": "room for %d of %d octets of the table" % (at, len(full)), "close": "all but %d of %d octets of the table lost when it is closed" % (at, len(full)),
        "no file": "a link to nowhere for the table", "stale": "a longer table from the last time", "none": "nothing wrong"}[kind])
    if status == 0 and not good:
        return "%s ends with success, and leaves %s" % (what, "no table" if text is None else "%d octets that are not the table" % len(text)), True
    # sort and the like may write a little besides the table: leave room
    if not good and (kind in ("none", "stale") or kind == "room" and at >= 4 * len(full) + 65536):
        return "%s ends with status %s" % (what, status), True
    return None, not good


def faults(rng, work, table, full, n):
    r = [("none", None, 0), ("stale", None, 0), ("no file", None, 0), ("room", None, 4 * len(full) + 65536)]
    for name in NEEDS[table]:
        size = os.path.getsize(os.path.join(work, name))
        r += [("missing", name, 0), ("directory", name, 0)]
        for at in {0, size, max(0, size - 1), rng.randrange(size + 1), rng.randrange(size + 1), 4096 * rng.randrange(size // 4096 + 1), 8192 * rng.randrange(size // 8192 + 1)}:
            r.append(("read", name, at))
    for at in sorted({0, 1, len(full) - 1, len(full) // 2, rng.randrange(len(full) + 1), 4096 * rng.randrange(len(full) // 4096 + 1), 8192 * rng.randrange(len(full) // 8192 + 1)}):
        if 0 <= at < len(full):
            r += [("room", None, at), ("close", None, at)]
    rng.shuffle(r)
    return r[:n]


def one(run, d, work, shim, seed, n):
    """[(table, fault, message, mattered)]"""
    rng, done = random.Random(seed), []
    prepare(run, d, work)
    try:
        for table in x01.TABLES:
            status, full = whole(table, work, shim)
            if status != 0 or full is None:
                done.append((table, ("none", None, 0), "%s ends with status %s, and %s table" % (table, status, "no" if full is None else "a"), True))
                continue
            for f in faults(rng, work, table, full, n):
                msg, mattered = judge(table, work, shim, f, full)
                done.append((table, f, msg, mattered))
        return done
    finally:
        shutil.rmtree(work, ignore_errors=True)


def again(run, d, work, shim, table, fault):
    prepare(run, d, work)
    try:
        status, full = whole(table, work, shim)
        if status != 0 or full is None:
            return "%s ends with status %s when nothing is wrong" % (table, status)
        return judge(table, work, shim, fault, full)[0]
    finally:
        shutil.rmtree(work, ignore_errors=True)


def build(scratch):
    os.makedirs(scratch, exist_ok=True)
    so = scratch + "/fault.so"
    subprocess.run(["gcc", "-O1", "-shared", "-fPIC", "-o", so, os.path.join(os.path.dirname(os.path.abspath(__file__)), "x03_shim.c"), "-ldl"], check=True)
    return so


def check(run, cfg, tier, seed, scratch):
    t0 = time.time()
    shim = build(scratch)
    rng = random.Random("X03 %d" % seed)
    todo = [None] + [x01.make(rng) for _ in range(cfg[tier]["databases"])]
    each = cfg[tier]["faults"]
    seen, samples, labels, evaluations, failure = set(), [], {}, 0, None
    with ThreadPoolExecutor(8) as ex:
        for at in range(0, len(todo), 80):
            part = list(enumerate(todo))[at:at + 80]
            for (i, d), res in zip(part, ex.map(lambda a: one(run, a[1], "%s/w%d" % (scratch, a[0]), shim, "X03 %d %d" % (seed, a[0]), each if a[1] else 1000), part)):
                for table, f, msg, mattered in res:
                    evaluations += 1
                    labels[f[0] + (", it mattered" if mattered else "")] = labels.get(f[0] + (", it mattered" if mattered else ""), 0) + 1
                    if mattered:
                        seen.add((i, table, f))
                        if len(samples) < 8 and evaluations % 7 == 0:
                            samples.append({"database": "the shipped one" if d is None else "%d characters, %d break ranges" % (len(d.chars), len(d.breaks)),
                                            "generator": table, "fault": f})
                    if msg and not failure:
                        failure = (d, table, f, msg)
            if failure:
                break
    if failure:
        d, table, f, msg = failure
        if not again(run, d, scratch + "/again", shim, table, f):
            raise run.CheckError("a failure of X03 did not come back: " + msg)
        kind, name, at = f
        # smaller: an earlier fault, a smaller database
        for a in (0, 1, 2, at // 2):
            if a < at and kind in ("read", "room", "close") and again(run, d, scratch + "/s", shim, table, (kind, name, a)):
                f = (kind, name, a)
                break
        t1 = time.time()
        step = len(d.facts()) // 2 if d else 0
        while step and time.time() - t1 < 40:
            i = 0
            while i < len(d.facts()) and time.time() - t1 < 40:
                facts = d.facts()
                smaller = d.only(facts[:i] + facts[i + step:])
                if smaller.breaks and again(run, smaller, scratch + "/s", shim, table, f):
                    d = smaller
                else:
                    i += step
            step //= 2
        msg = again(run, d, scratch + "/s", shim, table, f) or msg
        replay_text = "# property X03 %s\n# %s\n# %r\n" % (table, msg, (f, d and (d.chars, d.excl, d.dead_excl, d.breaks, d.spans, d.style)))
    cov = {"evaluations": evaluations, "distinct_nontrivial": max(1, len(seen)),
           "rule": "the fault kept the generator from success; distinct by database, generator, fault and place",
           "samples": samples or ["the shipped database"], "labels": labels,
           "enumerated": "every generator; every input missing, a directory, failing at the beginning, at the end and in between; every kind of failure of the table"}
    if failure:
        cov["failure"] = msg[:2000]
    run.write_evidence("X03", tier, seed, cov, time.time() - t0, 1 if failure else 0, cfg.get("assumptions", []))
    if failure:
        path = os.path.join(run.REPLAYS, "X03-%d.txt" % os.getpid())
        open(path, "w").write(replay_text)
        run.log(msg)
        print("VIOLATION property=X03 replay=%s" % path, flush=True)
        return 1
    run.log("X03 %s: held on %d runs in %.1f s" % (tier, evaluations, time.time() - t0))
    return 0


def replay(run, path, scratch):
    lines = open(path).read().split("\n")
    table = lines[0].split()[3]
    f, facts = ast.literal_eval(lines[2][2:])
    d = None
    if facts:
        d = x01.Db()
        d.chars, d.excl, d.dead_excl, d.breaks, d.spans, d.style = facts
    msg = again(run, d, scratch + "/r", build(scratch), table, f)
    print(msg or "as it must be")
    return 1 if msg else 0
