#!/usr/bin/env python3
"""Seeded simulation of librrb: runs the checks, minimises and replays failures.

  check.py check PROP [--tier quick|thorough] [--secs N]   decide one property
  check.py replay FILE                                     run one replay file again
  check.py determinism [N]                                 same seeds, different workers: same traces?
  check.py build                                           build every variant

Exit status of `check`: 0 held, 1 violated (VIOLATION line printed), 2 no answer.
"""
import array, concurrent.futures as cf, hashlib, json, os, re, resource, shutil, subprocess, sys, tempfile, time

ROOT = os.path.dirname(os.path.abspath(__file__))
SIM = os.path.join(ROOT, "sim")
TARGET = os.path.join(ROOT, "target")
OUT = os.path.join(ROOT, "out")
WORKERS = 8

# name -> (cargo arguments, RUSTFLAGS, directory of the binary, rustc wrapper)
# `fine` has a scheduling point at every basic block, load and store of the library's code.
VARIANTS = {
    "narrow": (["--profile", "dbg"], "--cfg librrb_sim_narrow", "narrow/dbg", None),
    "wide": (["--profile", "dbg"], "", "wide/dbg", None),
    "rel": (["--release"], "", "rel/release", None),
    "fine": (["--release"], "--cfg librrb_sim_narrow", "fine/release", os.path.join(ROOT, "vendor", "instrument.sh")),
}
MEMORY = 3 << 30

# Simulated runs per variant in the quick tier; the thorough tier runs until its time is up.
QUICK = {
    "C01": (300000, 250000, 100000, 60000),
    "C02": (300000, 250000, 100000, 60000),
    "C03": (300000, 250000, 100000, 60000),
    "C04": (300000, 250000, 100000, 60000),
    "C05": (300000, 250000, 100000, 60000),
    "C06": (300000, 250000, 100000, 60000),
    "C07": (300000, 250000, 100000, 60000),
    "C08": (240000, 130000, 50000, 40000),
    "C09": (300000, 250000, 100000, 60000),
    "C10": (300000, 250000, 100000, 60000),
    "C13": (100000, 40000, 40000, 6000),
    "C14": (200000, 120000, 60000, 30000),
    "C11": (300000, 250000, 100000, 60000),
}
QUICK_SECS = 260       # cap on the exploration of a quick check
THOROUGH_SECS = 1500
MINIMISE_SECS = 60

GROUP = {
    "edit": {"C02"}, "read": {"C03"}, "fmut": {"C04"}, "iter": {"C09"}, "sort": {"C08"},
    "life": {"C01", "C02", "C05"},
}


def props_of(v):
    """The properties a violation breaks."""
    cls, grp, fault = v["cls"], v["grp"], v["fault"]
    g = set(GROUP.get(grp, set()))
    p = set()
    if cls in ("uaf", "double_drop", "double_free", "crash"):
        p = {"C05", "C01"} | g
        if v["iterops"]:
            p.add("C09")
        if cls == "crash" and grp == "sort":
            p.add("C11")
        if fault:
            p |= {"C06", "C07"}
    elif cls == "content" or cls == "retval":
        p = g
    elif cls == "readpath":
        p = {"C03", "C09"}
    elif cls == "bystander":
        p = {"C01"} | g
    elif cls == "leak":
        p = {"C05"}
        if v["iterops"]:
            p.add("C09")
        if fault:
            p.add("C06")
    elif cls == "release":
        p = {"C09", "C05"}
    elif cls == "after_panic":
        p = {"C07", "C06"}
    elif cls == "swallowed":
        p = {"C06"}
    elif cls == "misuse":
        p = {"C06"} | (g or {"C02"})
    elif cls == "sorted":
        p = {"C08"}
    elif cls == "copies":
        p = {"C10"}
    elif cls in ("depth", "work"):
        p = {"C13"}
    elif cls == "memory":
        p = {"C14"}
    elif cls == "calls":
        p = {"C11"}
    elif cls in ("steps", "hang"):
        p = {"C11"} | g
    elif cls == "panic":
        p = g
        if fault:
            p |= {"C06", "C07"}
    elif cls == "search":
        p = {"C03"}
    if fault and cls in ("bystander", "content", "retval", "sorted"):
        p |= {"C06", "C07"}
    return p


class Harness(Exception):
    pass


def log(msg):
    print(msg, flush=True)


def build_one(name):
    args, flags, _, wrapper = VARIANTS[name]
    env = dict(os.environ, CARGO_NET_OFFLINE="true", RUSTFLAGS=flags)
    env.pop("CARGO_TARGET_DIR", None)
    env.pop("RUSTC_WRAPPER", None)
    if wrapper:
        env["RUSTC_WRAPPER"] = wrapper
    cmd = ["cargo", "build", "-q", "--offline", "--target-dir", os.path.join(TARGET, name)] + args
    r = subprocess.run(cmd, cwd=SIM, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode != 0:
        errs = re.findall(r"^error.*?(?=^\S|\Z)", r.stdout, re.S | re.M)
        raise Harness("building %s failed:\n%s" % (name, "".join(errs)[-4000:] or r.stdout[-4000:]))


def build(variants=None):
    with cf.ThreadPoolExecutor(4) as pool:
        list(pool.map(build_one, variants or VARIANTS))


def binary(variant):
    return os.path.join(TARGET, VARIANTS[variant][2], "sim")


def limits():
    resource.setrlimit(resource.RLIMIT_AS, (MEMORY, MEMORY))
    resource.setrlimit(resource.RLIMIT_CORE, (0, 0))


def call(cmd, timeout):
    try:
        r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=timeout, preexec_fn=limits)
        return r.returncode, r.stdout.decode(errors="replace"), r.stderr.decode(errors="replace")
    except subprocess.TimeoutExpired as e:
        return "timeout", (e.stdout or b"").decode(errors="replace"), ""


def parse(out, code, idx=0):
    """(violation or None, stats)"""
    viol, stats = None, {}
    for line in out.splitlines():
        if line.startswith("VIOL "):
            viol = json.loads(line[5:])
        elif line.startswith("STATS "):
            stats = json.loads(line[6:])
        elif line.startswith("HARNESS "):
            raise Harness(line)
    if viol is None and code != 0:
        # ended without a word: by a signal it could not report, or for want of memory
        if code == 3:
            raise Harness("the simulator gave up: " + out[-300:])
        viol = dict(idx=idx, cls="hang" if code == "timeout" else "crash", grp="", op="?", opn=0, thread=0,
                    fault=False, multi=False, iterops=False, msg="the process ended with %s" % code)
    return viol, stats


def gen(variant, prop, seed, idx):
    code, out, err = call([binary(variant), "gen", "--prop", prop, "--seed", str(seed), "--idx", str(idx)], 60)
    if code != 0:
        raise Harness("gen: " + err)
    return out


def play(variant, text, watchdog=30):
    with tempfile.NamedTemporaryFile("w", suffix=".case", dir=OUT, delete=False) as f:
        f.write(text)
    try:
        code, out, err = call([binary(variant), "replay", f.name, "--watchdog", str(watchdog)], watchdog + 120)
        return parse(out, code)[0]
    finally:
        os.unlink(f.name)


def widen(v, text):
    """A crash that could not say where it happened: judge by what the case does."""
    if v["cls"] == "crash" and not v["grp"]:
        v["fault"] = " !" in text
        v["iterops"] = bool(re.search(r"^(t\d|pre) (iter|itermut|intoiter)", text, re.M))
        kinds = set(re.findall(r"^t\d (\w+)", text, re.M))
        if kinds & {"sort", "sortrange", "dual"}:
            v["grp"] = "sort"
    return v


# ---------------------------------------------------------------- exploration

def worker(variant, prop, seed, k, end, deadline, work):
    """Runs indices k, k+8, .. below end. Returns (stats, violations, restarts)."""
    total, viols, foreign = {}, None, []
    i = k
    prog = os.path.join(work, "p%s%d" % (variant, k))
    hashes = os.path.join(work, "h%s%d" % (variant, k))
    seen = []
    while i < end:
        left = deadline - time.time()
        if left < 1:
            break
        with open(prog, "wb") as f:
            f.write(i.to_bytes(8, "little"))
        code, out, err = call([binary(variant), "run", "--prop", prop, "--seed", str(seed), "--start", str(i),
                               "--step", str(WORKERS), "--end", str(end), "--secs", str(int(left)),
                               "--progress", prog, "--hashes", hashes, "--watchdog", "30"], left + 90)
        with open(prog, "rb") as f:
            at = int.from_bytes(f.read(8), "little")
        v, stats = parse(out, code, at)
        for n, c in stats.items():
            total[n] = total.get(n, 0) + c
        if os.path.exists(hashes):
            with open(hashes, "rb") as f:
                seen.append(f.read())
            os.unlink(hashes)
        if v is None:
            m = re.search(r"^DONE (\d+)", out, re.M)
            i = int(m.group(1)) if m else end
            if i < end:
                break
            continue
        v["idx"] = at
        v["variant"] = variant
        if v["cls"] in ("hang", "crash"):
            # confirm on its own, with nothing else to slow it down
            text = gen(variant, prop, seed, at)
            again = play(variant, text, 45 if v["cls"] == "hang" else 30)
            if again is None:
                total["unconfirmed_" + v["cls"]] = total.get("unconfirmed_" + v["cls"], 0) + 1
                i = at + WORKERS
                continue
            again.update(idx=at, variant=variant)
            v = widen(again, text)
        if prop in props_of(v):
            viols = v
            break
        foreign.append(v)
        i = at + WORKERS
    return total, viols, foreign, b"".join(seen)


def explore(prop, seed, plan, secs, work):
    """plan: [(variant, runs)]. Stops at the first violation of the property."""
    totals, per, foreign, sched, full = {}, {}, [], set(), set()
    t_end = time.time() + secs
    weight = sum(n for _, n in plan)
    for variant, n in plan:
        t0 = time.time()
        share = secs * n / weight
        deadline = min(t_end, t0 + max(20, share * 1.3)) if weight else t_end
        found = []
        with cf.ThreadPoolExecutor(WORKERS) as ex:
            jobs = [ex.submit(worker, variant, prop, seed, k, n, deadline, work) for k in range(WORKERS)]
            for j in jobs:
                st, v, fo, hs = j.result()
                for name, c in st.items():
                    totals[name] = totals.get(name, 0) + c
                per.setdefault(variant, [0, 0.0])
                per[variant][0] += st.get("runs", 0)
                foreign += fo
                a = array.array("Q", hs)
                sched.update(a[0::2])
                full.update(a[1::2])
                if v:
                    found.append(v)
        per[variant][1] = time.time() - t0
        if found:
            v = min(found, key=lambda v: v["idx"])
            return v, totals, per, foreign, sched, full
    return None, totals, per, foreign, sched, full


# ---------------------------------------------------------------- minimising

def same(v, ref, prop):
    return v is not None and v["cls"] == ref["cls"] and prop in props_of(v)


def minimise(variant, text, ref, prop, secs):
    t_end = time.time() + secs
    tried = [0]

    def fails(t):
        if time.time() > t_end:
            return False
        tried[0] += 1
        v = play(variant, t, 8)
        return same(widen(v, t) if v else v, ref, prop)

    lines = [l for l in text.splitlines() if l.strip()]
    if not fails("\n".join(lines) + "\n"):
        return text, tried[0]

    def ddmin(lines, movable):
        n = 2
        while True:
            idx = [i for i, l in enumerate(lines) if movable(l)]
            if not idx:
                return lines
            size = max(1, len(idx) // n)
            progress = False
            for s in range(0, len(idx), size):
                drop = set(idx[s:s + size])
                cand = [l for i, l in enumerate(lines) if i not in drop]
                if fails("\n".join(cand) + "\n"):
                    lines, progress = cand, True
                    break
                if time.time() > t_end:
                    return lines
            if not progress:
                if size == 1:
                    return lines
                n = min(len(idx), n * 2)
            else:
                n = max(2, n - 1)

    isop = lambda l: re.match(r"(pre|t\d+) ", l) is not None
    for _ in range(3):
        before = list(lines)
        lines = ddmin(lines, isop)
        # the order of the threads, and annotations of single operations
        for i in range(len(lines)):
            l = lines[i]
            if l.startswith("order "):
                toks = l.split()
                for cut in (["order"], toks[:len(toks) // 2], toks[:-1]):
                    cand = lines[:i] + [" ".join(cut)] + lines[i + 1:]
                    if cand[i] != lines[i] and fails("\n".join(cand) + "\n"):
                        lines = cand
                        break
                continue
            if not isop(l):
                continue
            again = True
            while again and time.time() < t_end:
                again = False
                l = lines[i]
                spans = [m.span() for m in re.finditer(r" (\[[^\]]*\]|@\S+|!\S+|~\d+)", l)]
                for a, b in reversed(spans):
                    cand = lines[:i] + [l[:a] + l[b:]] + lines[i + 1:]
                    if fails("\n".join(cand) + "\n"):
                        lines, again = cand, True
                        break
        # smaller numbers
        for i in range(len(lines)):
            if not isop(lines[i]):
                continue
            for pos in range(2, 9):
                while time.time() < t_end:
                    toks = lines[i].split(" ")
                    if pos >= len(toks) or not toks[pos].isdigit() or toks[pos] == "0":
                        break
                    x = int(toks[pos])
                    done = True
                    for y in (0, x // 2, x - 1) if x < 1 << 20 else (0, 7, x >> 20):
                        if y == x:
                            continue
                        t2 = toks[:pos] + [str(y)] + toks[pos + 1:]
                        cand = lines[:i] + [" ".join(t2)] + lines[i + 1:]
                        if fails("\n".join(cand) + "\n"):
                            lines, done = cand, False
                            break
                    if done:
                        break
        if lines == before or time.time() > t_end:
            break
    return "\n".join(lines) + "\n", tried[0]


def write_replay(prop, variant, text, v, seed, note):
    body = ["# property: %s" % prop, "# variant: %s" % variant,
            "# violation: %s" % json.dumps({k: v[k] for k in ("cls", "grp", "op", "msg")}),
            "# seed: %s index: %s" % (seed, v.get("idx")), "# %s" % note,
            "# replay: python3 check.py replay <this file>"]
    text = "\n".join(body) + "\n" + text
    name = "%s-%s.replay" % (prop, hashlib.sha256(text.encode()).hexdigest()[:12])
    path = os.path.join(OUT, name)
    with open(path, "w") as f:
        f.write(text)
    return path


def header(path, key):
    with open(path) as f:
        m = re.search(r"^# %s: (.*)$" % key, f.read(), re.M)
    return m.group(1).strip() if m else None


# ---------------------------------------------------------------- known findings and old failures

def findings():
    """Entries of known_findings.txt: finding: property=.. replay=.. cls=.. <text>"""
    res = []
    with open(os.path.join(ROOT, "known_findings.txt")) as f:
        for line in f:
            m = re.match(r"finding: property=(\w+) replay=(\S+) cls=(\S+) (.*)", line.strip())
            if m:
                res.append(m.groups())
    return res


def corpus(prop):
    """Replays of failures that were repaired, and must not return. They are run in every check:
    a few milliseconds each."""
    d = os.path.join(ROOT, "corpus")
    known = {os.path.basename(f[1]) for f in findings()}
    for name in sorted(os.listdir(d)):
        if name.endswith(".replay") and name not in known:
            yield os.path.join(d, name)


def run_corpus(prop):
    n = 0
    for path in corpus(prop):
        with open(path) as f:
            text = f.read()
        for variant in VARIANTS:
            n += 1
            v = play(variant, text)
            if v is not None and prop in props_of(widen(v, text)):
                v["variant"] = variant
                return v, text, path, n
    return None, None, None, n


def known(prop):
    hit = []
    for p, replay, cls, what in findings():
        if p != prop:
            continue
        path = os.path.join(ROOT, replay)
        variant = header(path, "variant") or "wide"
        with open(path) as f:
            v = play(variant, f.read())
        if v is not None and (cls == "*" or v["cls"] in cls.split(",")):
            log("KNOWN-FINDING: property=%s %s" % (prop, what))
            hit.append(what)
        elif v is not None and prop in props_of(v):
            return hit, (v, path)
    return hit, None


# ---------------------------------------------------------------- commands

RULE = ("A case is drawn from (seed, property, index): a number of threads, a program of operations for each "
        "over a handful of handles, preemption points inside operations, stalls, panics thrown from callbacks, "
        "inconsistent comparators, operations nested in callbacks, pivots. It is distinct when the hash of "
        "its scheduling and callback history differs from every other run's, and non-trivial because a run "
        "without library operations is never generated.")


def check(prop, tier, secs_override=None):
    t0 = time.time()
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    os.makedirs(OUT, exist_ok=True)
    os.makedirs(os.path.join(ROOT, "evidence"), exist_ok=True)
    log("property %s, tier %s, seed %d" % (prop, tier, seed))
    build()
    t_built = time.time()
    work = tempfile.mkdtemp(prefix="work-", dir=OUT)
    try:
        v = None
        kf, other = known(prop)
        cv, ctext, cpath, ncorpus = run_corpus(prop)
        if other:
            cv, cpath = other
            with open(cpath) as f:
                ctext = f.read()
            cv["variant"] = header(cpath, "variant") or "wide"
        if cv:
            v, text = cv, ctext
            v["idx"] = os.path.basename(cpath)
            totals, per, foreign, sched, full = {}, {}, [], set(), set()
        else:
            counts = QUICK[prop]
            if tier == "quick":
                secs = secs_override or QUICK_SECS
                plan = list(zip(VARIANTS, counts))
            else:
                secs = secs_override or THOROUGH_SECS
                plan = [(x, c * 1000) for x, c in zip(VARIANTS, counts)]
            v, totals, per, foreign, sched, full = explore(prop, seed, plan, secs, work)
            text = gen(v["variant"], prop, seed, v["idx"]) if v else None
        t_explored = time.time()
        code = 0
        samples = []
        for variant, i in (("wide", 0), ("narrow", 3)):
            samples.append({"variant": variant, "index": i, "case": gen(variant, prop, seed, i).splitlines()})
        violation = None
        if v:
            small, tried = minimise(v["variant"], text, v, prop, MINIMISE_SECS)
            final = play(v["variant"], small, 20)
            if not same(widen(final, small) if final else None, v, prop):
                small, final = text, play(v["variant"], text, 20)
            if final is None or play(v["variant"], small, 20) is None:
                raise Harness("the violation does not repeat: %s" % v)
            final.update(idx=v["idx"], variant=v["variant"])
            path = write_replay(prop, v["variant"], small, final, seed,
                                "minimised in %d replays from %d to %d lines" % (tried, len(text.splitlines()), len(small.splitlines())))
            log("%s: %s in %s (%s)" % (final["cls"], final["msg"], final["op"], v["variant"]))
            log("VIOLATION property=%s replay=%s" % (prop, path))
            violation = {"class": final["cls"], "operation": final["op"], "message": final["msg"], "replay": path}
            code = 1
        runs = totals.get("runs", 0)
        wall = t_explored - t_built
        ev = {
            "property": prop, "tier": tier, "seed": seed, "level": "exploration",
            "coverage": {
                "evaluations": runs,
                "distinct_nontrivial": len(full),
                "rule": RULE,
                "samples": samples,
                "distinct_schedules": len(sched),
                "distinct_schedules_rule": "hash of every switch between threads: from, operation, position inside it, to",
                "runs_per_hour": int(runs * 3600 / wall) if wall > 0 else 0,
                "seeds_per_hour": int(runs * 3600 / wall) if wall > 0 else 0,
                "runs_by_build": {k: {"runs": p[0], "seconds": round(p[1], 1)} for k, p in per.items()},
                "simulated_time": "none: the library reads no clock and sets no timer",
                "events": {k: c for k, c in sorted(totals.items()) if not k.startswith(("fault_", "probe_"))},
                "faults_injected": {k[6:]: c for k, c in sorted(totals.items()) if k.startswith("fault_")},
                "rare_conditions_hit": {k[6:]: c for k, c in sorted(totals.items()) if k.startswith("probe_")},
                "replays_of_repaired_failures": ncorpus,
                "violations_of_other_properties_skipped": len(foreign),
                "real_code": ["all of librrb's vector, focus, sort, circular buffer, size table and basic node code",
                              "the allocator's bookkeeping, Rust's unwinding"],
                "stubs": ["archery's Rc and Arc counts (same protocol, each step a scheduling point)",
                          "rand_xoshiro's seeding (the generator itself is real unless a pivot pattern is asked for)",
                          "element type, comparators, predicates, source iterators (the simulated callers)"],
            },
            "assumptions": [
                "one thread runs at a time: sequentially consistent interleavings, no weak memory effects",
                "switches happen at reference-count operations, callbacks and operation boundaries; in the build "
                "`fine` at every basic block, load and store of the library's code as well",
                "sampled, not enumerated: a clean batch is evidence, not proof",
            ],
            "wall_s": round(time.time() - t0, 1),
            "violations": 1 if v else 0,
        }
        if violation:
            ev["violation"] = violation
        if kf:
            ev["coverage"]["known_findings"] = kf
        with open(os.path.join(ROOT, "evidence", prop + ".json"), "w") as f:
            json.dump(ev, f, indent=1)
        log("%d runs (%s), %d distinct histories, %d distinct schedules, %.0f s exploring, %.0f s in all" % (
            runs, ", ".join("%s %d in %.0f s" % (k, p[0], p[1]) for k, p in per.items()), len(full), len(sched), wall, time.time() - t0))
        if foreign:
            log("skipped %d violations of other properties, e.g. %s" % (len(foreign), json.dumps(foreign[0])))
        return code
    finally:
        shutil.rmtree(work, ignore_errors=True)


def replay(path):
    variant = header(path, "variant") or "wide"
    os.makedirs(OUT, exist_ok=True)
    build([variant])
    with open(path) as f:
        text = f.read()
    v = play(variant, text, 60)
    if v is None:
        log("no violation")
        return 0
    v = widen(v, text)
    prop = header(path, "property")
    log(json.dumps(v))
    props = sorted(props_of(v))
    log("VIOLATION property=%s replay=%s" % (prop if prop in props else (props or ["?"])[0], path))
    return 1


def determinism(n):
    """Every seed twice and more: different worker counts, different processes, loaded and not."""
    build()
    bad = 0
    for variant in VARIANTS:
        for prop in QUICK:
            ref = None
            for seed in (1, 2):
                res = []
                for step in (1, 3, 8, 32):
                    with cf.ThreadPoolExecutor(16) as ex:
                        jobs = [ex.submit(call, [binary(variant), "run", "--prop", prop, "--seed", str(seed), "--start", str(k),
                                                 "--step", str(step), "--end", str(n), "--trace"], 600) for k in range(step)]
                        lines = []
                        for j in jobs:
                            code, out, err = j.result()
                            if code != 0:
                                raise Harness("run failed: %s %s" % (code, out[-300:]))
                            lines += [l for l in out.splitlines() if l.startswith("T ")]
                    res.append(sorted(lines, key=lambda l: int(l.split()[1])))
                for r in res[1:]:
                    d = sum(a != b for a, b in zip(res[0], r)) + abs(len(res[0]) - len(r))
                    bad += d
                    if d:
                        log("%s %s seed %d: %d of %d differ" % (variant, prop, seed, d, n))
            log("%s %s: 2 seeds x %d runs x 4 ways of dividing them: %s" % (variant, prop, n, "ok" if not bad else "DIFFER"))
    return 1 if bad else 0


def main(argv):
    if len(argv) < 2:
        print(__doc__)
        return 2
    try:
        if argv[1] == "check":
            tier = os.environ.get("VERIF_TIER", "quick")
            if "--tier" in argv:
                tier = argv[argv.index("--tier") + 1]
            secs = int(argv[argv.index("--secs") + 1]) if "--secs" in argv else None
            return check(argv[2], tier, secs)
        if argv[1] == "replay":
            return replay(argv[2])
        if argv[1] == "determinism":
            return determinism(int(argv[2]) if len(argv) > 2 else 2000)
        if argv[1] == "build":
            build()
            return 0
    except Harness as e:
        log("NO ANSWER: %s" % e)
        return 2
    print(__doc__)
    return 2


if __name__ == "__main__":
    sys.exit(main(sys.argv))
