#!/usr/bin/env python3
"""Decides one property: check.py PROPERTY [quick|thorough]

Builds the simulator from /repo's working tree, searches schedules and faults on all cores, minimises
what fails, checks that the minimised plan replays exactly, and writes evidence/<PROPERTY>.json.
Exit 0: held on everything explored. 1: violation. 2: no verdict."""
import glob, json, os, re, shutil, subprocess, sys, time
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import build as builder
import config

VERIF = builder.VERIF
WORKERS = int(os.environ.get("SIM_WORKERS", str(os.cpu_count() or 4)))
ENV = dict(os.environ, ASAN_OPTIONS="detect_leaks=0:abort_on_error=0:handle_abort=0:allocator_may_return_null=0:symbolize=1",
           UBSAN_OPTIONS="print_stacktrace=1")


def known_findings(prop):
    known, fixed = [], []
    path = os.path.join(VERIF, "known_findings.txt")
    for line in open(path) if os.path.exists(path) else []:
        m = re.match(r"(known|fixed): property=(\S+) (.*)", line.strip())
        if m and m.group(2) == prop:
            (known if m.group(1) == "known" else fixed).append(m.group(3))
    return known, fixed


def replay(exe, plan):
    r = subprocess.run([exe, "replay", plan], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", env=ENV, timeout=400)
    m = re.search(r"^steps (\d+) log (\S+)", r.stdout, re.M)
    c = re.search(r"^FAIL class (.*)$", r.stdout, re.M)
    return r.returncode, (m.groups() if m else None), (c.group(1) if c else None), r.stdout


def main():
    prop = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    cfg = config.PROPERTIES[prop]
    t0 = time.time()
    work = os.path.join(VERIF, "build", "run-" + prop + "-" + str(os.getpid()))
    shutil.rmtree(work, ignore_errors=True)
    os.makedirs(work)
    os.makedirs(os.path.join(VERIF, "evidence", "replays"), exist_ok=True)
    exes, outs, errors = {}, [], []
    for variant, share in cfg["variants"]:
        exes[variant] = builder.build(variant, prop, WORKERS)
    build_s = time.time() - t0
    total = cfg["seconds"][0 if tier == "quick" else 1] * float(os.environ.get("SIM_SECONDS_FACTOR", "1"))
    search_t0 = time.time()
    for variant, share in cfg["variants"]:
        ps = []
        for w in range(WORKERS):
            out = os.path.join(work, "%s.%d.json" % (variant, w))
            ps.append((out, subprocess.Popen([exes[variant], "batch", prop, str(seed), str(w), str(WORKERS), str(10 ** 9), str(total * share), out],
                                             stdout=subprocess.DEVNULL, stderr=subprocess.PIPE, env=ENV)))
        for out, p in ps:
            try:
                _, err = p.communicate(timeout=total * share + 400)
            except subprocess.TimeoutExpired:
                p.kill()
                _, err = p.communicate()
            if p.returncode != 0 or not os.path.exists(out):
                errors.append("worker ended with %s: %s" % (p.returncode, err.decode(errors="replace")[-500:]))
            else:
                outs.append((variant, json.load(open(out))))
    search_s = time.time() - search_t0
    runs = sum(d["runs"] for _, d in outs)
    nerr = sum(d["errors"] for _, d in outs)
    counters, sigs, states, blocks, samples, classes = {}, set(), {}, {}, [], {}
    for variant, d in outs:
        for k, v in d["counters"].items():
            counters[k] = counters.get(k, 0) + v
        sigs.update(d["sigs"])
        states.setdefault(variant, set()).update(d["states"])
        b = blocks.setdefault(variant, {})
        for i, m in d["blocks"]:
            b[i] = b.get(i, 0) | m
        samples += d["samples"]
        for v in d["violations"]:
            v["variant"] = variant
            v["size"] = os.path.getsize(v["plan"])
            classes.setdefault(v["class"], []).append(v)
    for _, d in outs:
        if d["error_text"]:
            errors.append(d["error_text"][:1500])

    # ---- violations: minimise, check that they replay
    reported, unreproduced = [], []
    order = sorted(classes, key=lambda c: min(v["size"] for v in classes[c]))
    budget = 60 if tier == "quick" else 180
    procs = []
    for c in order[:6]:
        v = min(classes[c], key=lambda v: v["size"])
        mini = v["plan"] + ".min"
        procs.append((c, v, mini, subprocess.Popen([exes[v["variant"]], "minimize", v["plan"], mini, str(budget)], stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL, env=ENV)))
    for c, v, mini, p in procs:
        try:
            p.wait(timeout=budget + 300)
        except subprocess.TimeoutExpired:
            p.kill()
            p.wait()
        exe, ok = exes[v["variant"]], None
        for cand in [mini, v["plan"]]:
            if not os.path.exists(cand):
                continue
            try:
                a, b = replay(exe, cand), replay(exe, cand)
            except subprocess.TimeoutExpired:
                continue
            if a[0] == 1 and b[0] == 1 and a[1] and b[1] and a[1][1] == b[1][1] and a[2] == b[2]:
                ok = (cand, a)
                break
        if not ok:
            unreproduced.append(c)
            continue
        name = "%s-%s.plan" % (prop, re.sub(r"[^A-Za-z0-9_.-]+", "_", c)[:60].strip("_"))
        dest = os.path.join(VERIF, "evidence", "replays", name)
        with open(dest, "w") as f:
            f.write("# property %s\n# variant %s\n# class %s\n# seed %d run %d\n# steps %s log %s\n" % (prop, v["variant"], ok[1][2], seed, v["index"], *ok[1][1]))
            f.writelines(l for l in open(ok[0]) if not l.startswith("#"))
        reported.append((c, dest, ok[1][3], v))

    known, fixed = known_findings(prop)
    unlisted, listed = [], []
    for r in reported:
        hit = None
        for k in known:
            m = re.match(r"class=(\S+)", k)
            if m and re.fullmatch(m.group(1), r[0].replace(" ", "_")):
                hit = k
        (listed if hit else unlisted).append((r, hit))

    evidence = {
        "property": prop, "tier": tier, "seed": seed, "level": "exploration",
        "coverage": {
            "evaluations": runs,
            "distinct_nontrivial": len(sigs),
            "nontrivial": sum(d["nontrivial"] for _, d in outs),
            "rule": cfg["rule"],
            "samples": samples[:3] or ["(no sample)"],
            "runs_per_hour": int(runs / max(search_s, 0.001) * 3600),
            "seeds": "one seed per run, derived from VERIF_SEED=%d, the property and the run index" % seed,
            "seeds_per_hour": int(runs / max(search_s, 0.001) * 3600),
            "simulated_time": {"unit": "basic blocks of the code under test", "covered": sum(d["steps"] for _, d in outs)},
            "events_and_injected_faults": counters,
            "distinct_states": {"measure": "distinct sets of basic blocks reached by a run (hashed to %d slots)" % 65536, **{k: len(s) for k, s in states.items()}},
            "distinct_blocks_reached": {k: sum(bin(m).count("1") for m in b.values()) for k, b in blocks.items()},
            "runs_executed_twice_with_identical_log": sum(d["repeated"] for _, d in outs),
            "runs_without_verdict": nerr,
            "real_components": cfg["real"],
            "stubbed_components": cfg["stub"],
            "build_variants": [v for v, _ in cfg["variants"]],
            "build_s": round(build_s, 1), "search_s": round(search_s, 1),
        },
        "assumptions": cfg["assumptions"],
        "wall_s": round(time.time() - t0, 1),
        "violations": len(unlisted),
    }
    with open(os.path.join(VERIF, "evidence", prop + ".json"), "w") as f:
        json.dump(evidence, f, indent=1)
    shutil.rmtree(work, ignore_errors=True)

    print("%s %s: %d runs, %d distinct non-trivial, %.0f s, faults and events: %s" % (prop, tier, runs, len(sigs), time.time() - t0, json.dumps(counters)))
    for e in errors:
        print("note:", e.strip()[:1500])
    for (c, dest, text, v), k in listed:
        print("KNOWN-FINDING: property=%s %s" % (prop, k))
    for (c, dest, text, v), _ in unlisted:
        print("violation class: %s (seed %d, run %d, %s build)" % (c, seed, v["index"], v["variant"]))
        print("\n".join(text.splitlines()[:25])[:3000])
        print("replay: python3 tools/replay.py %s" % dest)
        print("VIOLATION property=%s replay=%s" % (prop, dest))
    if unlisted:
        return 1
    if unreproduced:
        print("not reproducible:", unreproduced)
        return 2
    # A run without verdict is tolerated only as a rare exception (an overloaded machine).
    if not outs or runs == 0 or nerr * 200 > runs or any("not repeatable" in e for e in errors) or any(e.startswith("worker") for e in errors):
        return 2
    return 0


if __name__ == "__main__":
    sys.exit(main())
