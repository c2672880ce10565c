#!/usr/bin/env python3
"""check.py PROP [--tier quick|thorough] [--seed N] [--time S]   run the simulated search for a property
check.py replay FILE [-v]                                    reproduce a recorded violation
Exit: 0 nothing found, 1 violation (line "VIOLATION property=... replay=..."), 2 error of the check."""
import concurrent.futures, json, os, re, shutil, struct, subprocess, sys, tempfile, time

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(HERE, "tools"))
import build as B
from props import PROPS

ENV = dict(os.environ, ASAN_OPTIONS="detect_leaks=0:abort_on_error=0:detect_stack_use_after_return=1:allocator_may_return_null=1",
           UBSAN_OPTIONS="print_stacktrace=1")
# shards with sanitizers, and shards without (several times as many runs in the same time)
SAN, FAST = 3, 5
SHARDS = SAN + FAST
FAST_SEED = 1 << 32     # added to the seed of the fast shards, so that they make other plans
OUT = os.path.join(HERE, "out")

def sh(args, timeout):
    p = subprocess.run(args, stdout=subprocess.PIPE, stderr=subprocess.PIPE, env=ENV, timeout=timeout)
    return p.returncode, p.stdout.decode(errors="replace"), p.stderr.decode(errors="replace")

def run_plan(binary, prop, plan, verbose=False):
    rc, o, e = sh([binary, "run", prop, plan] + (["-v"] if verbose else []), 180)
    lines = o.strip().splitlines()
    if not lines:
        raise RuntimeError("no verdict for %s: %s" % (plan, e[-2000:]))
    r = json.loads(lines[-1])
    r["trace"] = "\n".join(lines[:-1])
    return r

def header(text):
    h = {}
    for l in text.splitlines():
        m = re.match(r"# (\w+): (.*)", l)
        if m:
            h[m.group(1)] = m.group(2)
    return h

def replay(path, verbose):
    text = open(path).read()
    h = header(text)
    prop = h.get("property")
    if prop not in PROPS:
        print("not a replay file: %s" % path)
        return 2
    kind = h.get("build", "san")
    binary = B.build([PROPS[prop]["bin"]], (kind,))[PROPS[prop]["bin"]]
    r = run_plan(binary, prop, path, True)
    print(r["trace"])
    print("recorded: class=%s log=%s" % (h.get("class"), h.get("log")))
    print("now:      class=%s log=%s  %s" % (r["class"], r["hash"], r["detail"]))
    if r["status"] == "ok":
        return 0
    print("VIOLATION property=%s replay=%s" % (prop, path))
    return 1

def load_known():
    p = os.path.join(HERE, "known_findings.json")
    return json.load(open(p)) if os.path.exists(p) else {"findings": []}

def main(argv):
    if len(argv) >= 2 and argv[0] == "replay":
        return replay(argv[1], True)
    prop = argv[0]
    tier = os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1") or "1")
    budget = None
    it = iter(argv[1:])
    for a in it:
        if a == "--tier":
            tier = next(it)
        elif a == "--seed":
            seed = int(next(it))
        elif a == "--time":
            budget = float(next(it))
    P = PROPS[prop]
    t0 = time.time()
    name = P["bin"]
    built = B.build([name], ("san", "fast"))
    binary, fast = built[name, "san"], built[name, "fast"]
    B.prune()
    build_s = time.time() - t0
    # P["quick"] / P["thorough"]: runs that eight shards with sanitizers make in the time of the tier
    count = P["quick"] if tier == "quick" else P["thorough"]
    counts = dict(san=count * SAN // 8, fast=int(count * FAST / 8 * P["fast"]))
    cap = budget if budget else (150 if tier == "quick" else 620)
    if budget:
        counts = dict(san=10**9, fast=10**9)
    os.makedirs(OUT, exist_ok=True)
    work = tempfile.mkdtemp(prefix="run_%s_" % prop, dir=OUT)
    found, errors = [], []
    t1 = time.time()

    # earlier failures (of repaired defects and of planted bugs) first: they are cheap
    corpus = os.path.join(HERE, "corpus", prop)
    ncorpus = 0
    if os.path.isdir(corpus):
        files = [os.path.join(corpus, f) for f in sorted(os.listdir(corpus)) if f.endswith(".plan")]
        with concurrent.futures.ThreadPoolExecutor(SHARDS) as ex:
            for f, r in zip(files, ex.map(lambda f: run_plan(binary, prop, f), files)):
                ncorpus += 1
                if r["status"] != "ok":
                    found.append(dict(index=-1, **{"class": r["class"]}, detail=r["detail"], plan=f, kind="san"))
    shards = []
    if not found:
        os.makedirs(work + "/san")
        os.makedirs(work + "/fast")
        def shard(i):
            k = "san" if i < SAN else "fast"
            return sh([built[name, k], "shard", prop, str(seed + (FAST_SEED if k == "fast" else 0)), str(i if k == "san" else i - SAN),
                       str(SAN if k == "san" else FAST), str(counts[k]), str(cap), os.path.join(work, k), "1" if tier == "thorough" else "0"],
                      cap + 200)
        with concurrent.futures.ThreadPoolExecutor(SHARDS) as ex:
            for i, (rc, o, e) in enumerate(ex.map(shard, range(SHARDS))):
                try:
                    d = json.loads(o)
                    d["kind"] = "san" if i < SAN else "fast"
                    for v in d["violations"]:
                        v["kind"] = d["kind"]
                    shards.append(d)
                except ValueError:
                    errors.append("shard ended with %d: %s %s" % (rc, o[-500:], e[-3000:]))
    search_s = time.time() - t1

    agg = dict(runs=0, nontrivial=0, sim_ns=0, yields=0, gate=0, gate_bad=0)
    fired, runs_with, kinds = {}, {}, {}
    timeup = False
    by_build = dict(san=0, fast=0)
    slowest, longest = (0, "", 0), (0, "", 0)
    for s in shards:
        by_build[s["kind"]] += s["runs"]
        for k in agg:
            agg[k] += s[k]
        for d, n in ((fired, "fired"), (runs_with, "runs_with"), (kinds, "yield_kinds")):
            for k, v in s[n].items():
                d[k] = d.get(k, 0) + v
        timeup = timeup or s["timeup"]
        slowest = max(slowest, (s["slowest"]["seconds"], s["kind"], s["slowest"]["index"]))
        longest = max(longest, (s["longest"]["steps"], s["kind"], s["longest"]["index"]))
        found += s["violations"]
    def union(kind):
        u = set()
        for i in range(SHARDS):
            f = os.path.join(work, "san" if i < SAN else "fast", "%s_%d.bin" % (kind, i if i < SAN else i - SAN))
            if os.path.exists(f):
                b = open(f, "rb").read()
                u.update(struct.unpack("<%dQ" % (len(b) // 8), b))
        return u
    distinct, states = union("hashes"), union("states")

    # gate and minimise: one report per class
    known = [k for k in load_known()["findings"] if k["property"] == prop and k.get("status") == "open"]
    reported, unreproduced, classes = [], [], set()
    for v in sorted(found, key=lambda v: (v["kind"] != "san", v["index"])):
        if v["class"] in classes or len(classes) >= 4 or len(unreproduced) >= 12:
            continue
        use, kind = binary, "san"
        rs = [run_plan(use, prop, v["plan"]) for _ in range(3)]
        if v["kind"] == "fast" and all(r["status"] == "ok" for r in rs):
            use, kind = fast, "fast"
            rs = [run_plan(use, prop, v["plan"]) for _ in range(3)]
        same = [r for r in rs if r["status"] != "ok"]
        if len(same) < 2:
            unreproduced.append(v)
            continue
        classes.add(v["class"])
        cls = same[0]["class"]
        exact = all(r["hash"] == rs[0]["hash"] and r["class"] == rs[0]["class"] for r in rs)
        mini = os.path.join(work, "min.plan")
        hang = cls in ("hang",)
        try:
            sh([use, "min", prop, v["plan"], mini, cls, "25" if not hang else "40"], 200)
            m = run_plan(use, prop, mini)
            if m["status"] == "ok" or m["class"] != cls:
                raise RuntimeError("not reproduced")
            plan, res = open(mini).read(), m
        except Exception:
            plan, res = open(v["plan"]).read(), same[0]
        f = os.path.join(OUT, "%s-%s.replay" % (prop, re.sub(r"[^A-Za-z0-9]+", "-", cls)[:50]))
        with open(f, "w") as o:
            o.write("# property: %s\n# class: %s\n# build: %s\n# seed: %d\n# index: %d\n# log: %s\n# exact: %s\n# detail: %s\n" %
                    (prop, cls, kind, seed + (FAST_SEED if v["kind"] == "fast" else 0), v["index"], res["hash"], exact, res["detail"].replace("\n", " | ")[:1500]))
            o.write("\n".join(l for l in plan.splitlines() if not l.startswith("#")) + "\n")
        reported.append(dict(cls=cls, detail=res["detail"], replay=f, index=v["index"], exact=exact))

    # recorded findings: each is a plan that shows the defect; nothing else is excused
    for k in known:
        r = run_plan(binary, prop, os.path.join(HERE, k["plan"]))
        if r["status"] != "ok":
            if r["class"] == k["class"]:
                print("KNOWN-FINDING: property=%s %s" % (prop, k["what"]))
            else:
                reported.append(dict(cls=r["class"], detail=r["detail"], replay=os.path.join(HERE, k["plan"]), index=-1, exact=True))

    samples = []
    for i in range(3):
        rc, o, e = sh([binary, "gen", prop, str(seed), str(i), "1" if tier == "thorough" else "0"], 60)
        samples.append({"index": i, "plan": o.strip().splitlines()[:40]})
    if agg["runs"] == 0 and not found:
        errors.append("no run was made")
    if agg["gate_bad"]:
        errors.append("%d of %d repeated runs differed from the first: the simulation is not deterministic" % (agg["gate_bad"], agg["gate"]))
    unreproduced = [v for v in unreproduced if v["class"] not in classes]
    if unreproduced:
        errors.append("failures that do not replay: " + "; ".join("%s (run %d)" % (v["class"], v["index"]) for v in unreproduced))
    rate = 3600.0 / max(search_s, 1e-6)
    ev = dict(property=prop, tier=tier, seed=seed, level=P["level"], wall_s=round(time.time() - t0, 2), violations=len(reported),
              coverage=dict(
                  evaluations=agg["runs"] + ncorpus, distinct_nontrivial=len(distinct),
                  rule=P["rule"] + " Distinct: different hash of the full event log (schedule, faults, clock reads, results).",
                  samples=samples, recorded_plans_replayed=ncorpus, runs=agg["runs"], nontrivial_runs=agg["nontrivial"],
                  runs_per_hour=int(agg["runs"] * rate), seeds_per_hour=int(agg["runs"] * rate),
                  seed_scheme="one generated plan per (seed, index): seed VERIF_SEED with indices 0..%d in %d shards with sanitizers, "
                              "seed VERIF_SEED + 2^32 with indices 0..%d in %d shards without; stopped by time: %s" %
                              (counts["san"] - 1, SAN, counts["fast"] - 1, FAST, timeup),
                  runs_with_sanitizers=by_build["san"], runs_without_sanitizers=by_build["fast"],
                  simulated_seconds=agg["sim_ns"] / 1e9, yield_points=agg["yields"], yield_points_by_kind=kinds,
                  faults_injected=fired, runs_with_fault=runs_with,
                  distinct_event_logs=len(distinct), distinct_states=len(states), state_measure=P["states"],
                  determinism_gate=dict(plans_run_twice=agg["gate"], differing=agg["gate_bad"]),
                  real_components=P["real"], stubs=P["stubs"], build_s=round(build_s, 1), search_s=round(search_s, 1),
                  reports=[dict(cls=r["cls"], detail=r["detail"][:600], replay=r["replay"], replays_exactly=r["exact"]) for r in reported],
                  errors=errors),
              assumptions=P["assumptions"])
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    with open(os.path.join(HERE, "evidence", prop + ".json"), "w") as o:
        json.dump(ev, o, indent=1)
    shutil.rmtree(work, ignore_errors=True)
    print("slowest run %.2f s (%s %d), longest %d steps (%s %d)" % (slowest + longest))
    print("%s %s: %d + %d runs (%d distinct non-trivial) in %.1f s + %.1f s build, faults %s" %
          (prop, tier, by_build["san"], by_build["fast"], len(distinct), search_s, build_s, json.dumps(fired)))
    for r in reported:
        print("  %s: %s" % (r["cls"], r["detail"][:700].replace("\n", " | ")))
        print("VIOLATION property=%s replay=%s" % (prop, r["replay"]))
    for e in errors:
        print("ERROR: " + e, file=sys.stderr)
    if reported:
        return 1
    return 2 if errors else 0

if __name__ == "__main__":
    try:
        sys.exit(main(sys.argv[1:]))
    except Exception as e:
        import traceback
        traceback.print_exc()
        sys.exit(2)
