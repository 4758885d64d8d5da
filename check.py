#!/usr/bin/env python3
"""Driver: builds one property's simulation from /repo's working tree, searches seeds, writes evidence.

  check.py ID [--tier quick|thorough] [--seed N]     run the check of one property
  check.py --setup                                    build the simulator runtime
  check.py --replay FILE                              replay a violation exactly
  check.py ID --dump RUN [--seed N] [--build NAME]    print one run
Exit: 0 held, 1 violation (VIOLATION line), 2 no verdict (build or machinery problem).
"""
import argparse, concurrent.futures as cf, hashlib, json, os, re, shutil, subprocess, sys, time

V = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("SIM_REPO", "/repo")
BUILD = os.environ.get("SIM_BUILD", os.path.join(V, "build"))
REPLAYS = os.path.join(V, "replays")
RT_SRC = ["core", "wrap_pthread", "tsan", "wrap_io", "net", "misc"]
RT_FLAGS = "-std=c++17 -g -O1 -fno-strict-aliasing -U_FORTIFY_SOURCE -D_GNU_SOURCE -w".split()
SUT_FLAGS = "-std=c++17 -g -O1 -U_FORTIFY_SOURCE -D_FILE_OFFSET_BITS=64 -march=x86-64-v2 -w".split()

sys.path.insert(0, V)
from props import PROPS  # noqa: E402


def sh(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)


def rt_key():
    h = hashlib.sha256()
    for f in sorted(os.listdir(os.path.join(V, "sim"))):
        h.update(f.encode()); h.update(open(os.path.join(V, "sim", f), "rb").read())
    h.update(" ".join(RT_FLAGS).encode())
    return h.hexdigest()[:16]


def wraps():
    names = set()
    for f in RT_SRC:
        names |= set(re.findall(r"__wrap_([A-Za-z0-9_]+)", open(os.path.join(V, "sim", f + ".cpp")).read()))
    return ["-Wl,--wrap=" + n for n in sorted(names)]


def build_rt(variant, log):
    """runtime objects for variant T (compiler memory hooks) or A (AddressSanitizer)"""
    d = os.path.join(BUILD, "rt-%s-%s" % (variant, rt_key()))
    if os.path.exists(os.path.join(d, "ok")):
        return d
    tmp = d + ".tmp%d" % os.getpid()
    os.makedirs(tmp, exist_ok=True)
    fl = list(RT_FLAGS) + (["-DSIM_ASAN"] if variant == "A" else [])
    def one(f):
        return sh(["g++"] + fl + ["-c", os.path.join(V, "sim", f + ".cpp"), "-o", os.path.join(tmp, f + ".o")])
    with cf.ThreadPoolExecutor(8) as ex:
        for r in ex.map(one, RT_SRC):
            if r.returncode:
                print(r.stdout[-4000:]); raise SystemExit(2)
    open(os.path.join(tmp, "ok"), "w").close()
    if os.path.exists(d):
        shutil.rmtree(tmp)
    else:
        try:
            os.rename(tmp, d)
        except OSError:
            shutil.rmtree(tmp, ignore_errors=True)
    return d


def build_one(pid, b, outdir):
    variant = b.get("variant", "T")
    rt = build_rt(variant, None)
    os.makedirs(outdir, exist_ok=True)
    exe = os.path.join(outdir, "%s-%s" % (pid, b["name"]))
    objs = []
    for i, src in enumerate(b["src"]):
        o = exe + "-%d.o" % i
        inst = ["-fsanitize=thread"] if variant == "T" else ["-fsanitize=address", "-fsanitize-coverage=trace-pc"]
        if b.get("preempt") is False and variant == "T":
            inst = []
        fl = list(SUT_FLAGS) + inst + ["-I" + os.path.join(V, "sim"), "-I" + os.path.join(V, "scen"), "-I" + os.path.join(REPO, "include")] + b.get("flags", [])
        r = sh(["g++"] + fl + ["-c", os.path.join(V, "scen", src), "-o", o])
        if r.returncode:
            print("BUILD-FAILED %s %s\n%s" % (pid, b["name"], r.stdout[-6000:]))
            return None
        objs.append(o)
    link = ["g++", "-static-libstdc++"] + (["-fsanitize=address"] if variant == "A" else []) + wraps() + objs + [os.path.join(rt, f + ".o") for f in RT_SRC] + ["-o", exe]
    link += b.get("libs", []) + ["-lpthread", "-ldl"]
    r = sh(link)
    if r.returncode:
        print("LINK-FAILED %s %s\n%s" % (pid, b["name"], r.stdout[-6000:]))
        return None
    return exe


def known():
    res = {}
    p = os.path.join(V, "known_findings.txt")
    if os.path.exists(p):
        for l in open(p):
            m = re.match(r"known: property=(\S+) key=(\S+) (.*)", l)
            if m:
                res.setdefault(m.group(1), []).append((m.group(2), m.group(3).strip()))
    return res


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("id", nargs="?")
    ap.add_argument("--tier", default=None)
    ap.add_argument("--seed", type=int, default=None)
    ap.add_argument("--setup", action="store_true")
    ap.add_argument("--replay")
    ap.add_argument("--dump", type=int)
    ap.add_argument("--build")
    ap.add_argument("--scenario")
    ap.add_argument("--wall", type=float)
    ap.add_argument("--runs", type=int)
    ap.add_argument("--workers", type=int, default=min(8, os.cpu_count() or 8))
    a = ap.parse_args()
    os.makedirs(BUILD, exist_ok=True); os.makedirs(REPLAYS, exist_ok=True)
    if a.setup:
        for v in "TA":
            build_rt(v, None)
        print("runtime built"); return 0
    t0 = time.time()
    if a.replay:
        txt = open(a.replay).read()
        pid = re.search(r"^property (\S+)", txt, re.M).group(1)
        name = re.search(r"-([A-Za-z0-9]+)@", os.path.basename(a.replay))
        name = name.group(1) if name else PROPS[pid]["builds"][0]["name"]
        b = [x for x in PROPS[pid]["builds"] if x["name"] == name][0]
        exe = build_one(pid, b, os.path.join(BUILD, "bin"))
        if not exe:
            return 2
        r = subprocess.run([exe, "--replay", a.replay])
        return r.returncode
    pid = a.id
    tier = a.tier or os.environ.get("VERIF_TIER") or "quick"
    if tier not in ("quick", "thorough"):
        tier = "quick"
    seed = a.seed if a.seed is not None else int(os.environ.get("VERIF_SEED") or 1)
    P = PROPS[pid]
    outdir = os.path.join(BUILD, "bin-%s-%d" % (pid, os.getpid()))
    for v in sorted(set(b.get("variant", "T") for b in P["builds"])):
        build_rt(v, None)
    builds = [b for b in P["builds"] if not a.build or b["name"] == a.build]
    with cf.ThreadPoolExecutor(8) as ex:
        exes = list(ex.map(lambda b: build_one(pid, b, outdir), builds))
    try:
        if any(e is None for e in exes):
            return 2
        tb = time.time() - t0
        if a.dump is not None:
            for b, e in zip(builds, exes):
                print("==", b["name"])
                subprocess.run([e, "--seed", str(seed), "--dump", str(a.dump)] + (["--scenario", a.scenario] if a.scenario else []))
            return 0
        return explore(pid, P, builds, exes, tier, seed, a, t0, tb, outdir)
    finally:
        shutil.rmtree(outdir, ignore_errors=True)


def explore(pid, P, builds, exes, tier, seed, a, t0, tb, outdir):
    kn = known().get(pid, [])
    res, errors = [], []
    rc = 0
    wsum = sum(b.get("weight", 1.0) for b in builds)
    for b, e in zip(builds, exes):
        share = b.get("weight", 1.0) / wsum
        wall = (a.wall or (P.get("quick_wall", 45) if tier == "quick" else P.get("thorough_wall", 600))) * share
        runs = a.runs or int((P.get("quick_runs", 150000) if tier == "quick" else P.get("thorough_runs", 20000000)) * share)
        out = os.path.join(outdir, b["name"] + ".json")
        rd = os.path.join(outdir, "rp"); os.makedirs(rd, exist_ok=True)
        cmd = [e, "--seed", str(seed), "--runs", str(runs), "--max-wall", "%.1f" % wall, "--workers", str(a.workers), "--out", out, "--replay-dir", rd,
               "--selfcheck", "100" if tier == "quick" else "1000", "--shrink", "15" if tier == "quick" else "60"]
        if a.scenario:
            cmd += ["--scenario", a.scenario]
        for k, _ in kn:
            cmd += ["--known", k]
        r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace")
        try:
            j = json.load(open(out))
        except Exception as ex:
            print("CHECK-ERROR property=%s build=%s rc=%d %s\n%s" % (pid, b["name"], r.returncode, ex, r.stdout[-2000:]))
            return 2
        j["build"] = b
        res.append(j)
        if j["rc"] == 1:
            src = j["violation"]["replay"]
            dst = os.path.join(REPLAYS, "%s-%s@%s" % (pid, b["name"], os.path.basename(src)[len(pid) + 1:]))
            shutil.copy(src, dst)
            j["violation"]["replay"] = dst
            rc = 1
            break
        if j["rc"] != 0:
            errors.append("CHECK-ERROR property=%s build=%s %s" % (pid, b["name"], j["error"]))
            rc = 2 # another build (the one that checks memory accesses) may still show what is wrong
    if rc == 2:
        print("\n".join(errors))
    wall = time.time() - t0
    write_evidence(pid, P, tier, seed, res, wall, tb)
    hit = set()
    for j in res:
        hit |= set(j["known_hit"])
    for k, d in kn:
        print("KNOWN-FINDING: property=%s %s%s" % (pid, d, "" if k in hit else " (not met in this run)"))
    for j in res:
        if j["stall"]:
            print("note: stalled and repeated (%d): %s" % (j["stalls"], j["stall"]))
    tot = sum(j["runs"] for j in res)
    print("%s tier=%s seed=%d runs=%d distinct=%d build=%.1fs wall=%.1fs" % (pid, tier, seed, tot, sum(j["distinct"] for j in res), tb, wall))
    if rc == 1:
        v = res[-1]["violation"]
        print("key: %s\n%s" % (v["key"], v["msg"]))
        print("VIOLATION property=%s replay=%s" % (pid, v["replay"]))
    return rc


def write_evidence(pid, P, tier, seed, res, wall, tb):
    def addc(name):
        d = {}
        for j in res:
            for k, n in j[name].items():
                d[k] = d.get(k, 0) + n
        return dict(sorted(d.items()))
    runs = sum(j["runs"] for j in res)
    ew = sum(j["explore_wall"] for j in res) or 1e-9
    samples = []
    for j in res:
        for s in j["samples"]:
            samples.append({"build": j["build"]["name"], **s})
    ev = {
        "property": pid, "tier": tier, "seed": seed, "level": P.get("level", "exploration"),
        "coverage": {
            "evaluations": runs,
            "distinct_nontrivial": sum(j["distinct_nontrivial"] for j in res),
            "rule": "one evaluation = one simulated run (one seed) of the real code; counted as distinct and non-trivial when the hash of its complete event log (every scheduling decision, simulated call with its result, fault, clock advance and delivery) is new and the run contained at least one context switch, injected fault or clock advance",
            "samples": samples[:6],
            "runs_per_hour": int(runs / ew * 3600),
            "explore_wall_s": round(ew, 2),
            "simulated_seconds": round(sum(j["sim_seconds"] for j in res), 3),
            "distinct_event_logs": sum(j["distinct"] for j in res),
            "scheduler_steps": sum(j["steps"] for j in res),
            "memory_access_points": sum(j["mem_accesses"] for j in res),
            "context_switches": sum(j["switches"] for j in res),
            "events": sum(j["events"] for j in res),
            "faults_injected": addc("faults"),
            "probes_reached": addc("probes"),
            "runs_per_scenario": addc("scenarios"),
            "budget_stopped_runs": sum(j["budget_stopped"] for j in res),
            "stalled_runs_repeated": {"count": sum(j["stalls"] for j in res), "first": [j["stall"] for j in res if j["stall"]]},
            "determinism_selfcheck": {"rerun": sum(j["selfcheck"] for j in res), "different": sum(j["selfcheck_bad"] for j in res)},
            "real_components": sorted(set(j["real"] for j in res)),
            "stub_components": sorted(set(j["stub"] for j in res)),
            "builds": [{k: v for k, v in j["build"].items()} | {"runs": j["runs"]} for j in res],
            "seed_range": [{"build": j["build"]["name"], "verif_seed": seed, "run_indices": [0, j["runs"]]} for j in res],
            "build_s": round(tb, 1),
        },
        "assumptions": P.get("assumptions", []) + COMMON_ASSUMPTIONS,
        "wall_s": round(wall, 2),
        "violations": [j["violation"] for j in res if j["rc"] == 1],
    }
    os.makedirs(os.path.join(V, "evidence"), exist_ok=True)
    tmp = os.path.join(V, "evidence", ".%s.%d" % (pid, os.getpid()))
    json.dump(ev, open(tmp, "w"), indent=1)
    os.rename(tmp, os.path.join(V, "evidence", pid + ".json"))


COMMON_ASSUMPTIONS = [
    "the code runs on x86-64 Linux with gcc; threads interleave at simulated calls and at compiler-inserted memory-access points, under sequential consistency",
    "the simulated kernel follows POSIX/Linux semantics as described in DESIGN.md; a violation needs a history that kernel can produce",
    "seeded search, not exhaustive: silence means no violation in the runs counted here",
]

if __name__ == "__main__":
    sys.exit(main())
