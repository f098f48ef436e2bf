#!/usr/bin/env python3
"""check.py PROPERTY [quick|thorough]   decide one property on /repo's current working tree
   check.py replay FILE                re-execute a replay file (exit 1 if the violation happens again)
   check.py setup                      build everything once and run a self test of the simulator

Builds the simulator and /repo's client and server from their current sources in a scratch directory,
explores simulated executions until the time budget of the tier is used, and writes evidence/<id>.json."""
import json, os, re, shutil, subprocess, sys, tempfile, time

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
SIM = os.path.join(HERE, "sim")
TIME = {"quick": 24.0, "thorough": 600.0}
sys.path.insert(0, HERE)
import props_meta as M


def build(out):
    r = subprocess.run([os.path.join(SIM, "build_nodes.sh"), REPO, out], stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
    if r.returncode:
        sys.stdout.write(r.stdout.decode(errors="replace")[-6000:])
        print("cannot build the nodes from %s" % REPO)
        return False
    r = subprocess.run([os.path.join(SIM, "build_sim.sh"), out], stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
    if r.returncode:
        sys.stdout.write(r.stdout.decode(errors="replace")[-6000:])
        print("cannot build the simulator")
        return False
    return True


def known():
    out = []
    p = os.path.join(HERE, "known_findings.txt")
    if os.path.exists(p):
        for line in open(p):
            m = re.match(r"known: property=(\S+) demo=(\S+) class=(\S+) (.*)", line.strip())
            if m:
                out.append(dict(property=m[1], demo=m[2], cls=m[3], what=m[4]))
    return out


def main():
    if len(sys.argv) < 2:
        print(__doc__)
        return 3
    out = tempfile.mkdtemp(prefix="pdcsim.", dir=os.environ.get("VERIF_SCRATCH", "/tmp"))
    try:
        if sys.argv[1] == "setup":
            if not build(out):
                return 3
            print("built; %d properties" % len(M.PROPS))
            return 0
        if sys.argv[1] == "replay":
            if not build(out):
                return 3
            return subprocess.run([out + "/simrun", "--lib", out, "--replay", sys.argv[2]]).returncode
        return check(sys.argv[1], sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick"), out)
    finally:
        shutil.rmtree(out, ignore_errors=True)


def check(pid, tier, out):
    t0 = time.time()
    seed = int(os.environ.get("VERIF_SEED", "1") or "1")
    meta = M.PROPS[pid]
    jobs = os.cpu_count() or 8
    if not build(out):
        return 3
    evdir = os.path.join(HERE, "evidence")
    repdir = os.path.join(evdir, "replay")
    os.makedirs(repdir, exist_ok=True)
    total = float(os.environ.get("VERIF_TIME", TIME.get(tier, 24.0)))
    rc, viol, runs = 0, 0, []
    # findings that are recorded, not repaired: show that they still are there
    for k in known():
        if k["property"] != pid:
            continue
        r = subprocess.run([out + "/simrun", "--prop", pid, "--lib", out, "--seed", "1", "--set", "demo=" + k["demo"]], stdout=subprocess.PIPE, text=True, errors="replace")
        if re.search(r"violated=1 class=%s " % re.escape(k["cls"]), r.stdout):
            print("KNOWN-FINDING: property=%s %s" % (pid, k["what"]))
        else:
            print("the recorded finding '%s' of %s does not show any more" % (k["what"], pid))
    parts = meta.get("parts", [pid])
    for i, part in enumerate(parts):
        share = total / len(parts)
        ev = os.path.join(out, "ev.%s.json" % part)
        cmd = [out + "/simrun", "--prop", part, "--lib", out, "--base", str(seed), "--time", str(share), "--mintime", "60", "--jobs", str(jobs), "--out", repdir, "--evidence", ev]
        r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace")
        sys.stdout.write(r.stdout[-8000:])
        e = json.load(open(ev)) if os.path.exists(ev) else {}
        e["part"] = part
        runs.append(e)
        m = re.search(r"^REPLAY (.*)$", r.stdout, re.M)
        if r.returncode == 1 and m:
            # the replay file must reproduce the violation in a fresh process
            g = subprocess.run([out + "/simrun", "--lib", out, "--replay", m[1]], stdout=subprocess.PIPE, text=True, errors="replace")
            sys.stdout.write(g.stdout)
            if g.returncode == 1:
                viol += 1
                rc = 1
                print("VIOLATION property=%s replay=%s" % (pid, m[1]))
                break
            print("the replay file did not reproduce the violation")
            rc = rc or 4
        elif r.returncode != 0:
            rc = rc or (r.returncode if r.returncode != 1 else 4)
    tot = lambda k: sum(e.get(k, 0) for e in runs)
    stats, probes = {}, {}
    for e in runs:
        for k, v in e.get("stats", {}).items():
            stats[k] = stats.get(k, 0) + v
        for k, v in e.get("probes", {}).items():
            probes[k] = probes.get(k, 0) + v
    wall = max(tot("wall"), 1e-9)
    faults = {k: stats.get(k, 0) for k in ("crashes", "restarts", "slow_msgs", "stalls", "clock_jumps", "short_writes", "short_reads", "eintrs", "io_errors", "enospc", "torn", "malloc_fails", "spurious", "preempts")}
    samples = []
    for p in parts:
        r = subprocess.run([out + "/simrun", "--prop", p, "--lib", out, "--sample", str(seed)], stdout=subprocess.PIPE, text=True, errors="replace")
        samples.append({"part": p, "plan of the first seed": r.stdout.strip().splitlines()[:60]})
    ev = {
        "property": pid, "tier": tier if tier in ("quick", "thorough") else "quick", "seed": seed, "level": "exploration",
        "coverage": {
            "evaluations": tot("runs"), "distinct_nontrivial": tot("distinct"),
            "rule": "Each evaluation is one complete simulated execution, its workload, cluster shape, schedule, delays and faults drawn from one seed. " + meta["rule"] +
                    " Two executions are distinct when the hash over their whole event history (every scheduling decision, message, disk operation and returned value) differs.",
            "samples": samples,
            "runs_per_hour": int(tot("runs") / wall * 3600), "simulated_seconds": round(tot("virtual_s"), 3), "explored_wall_s": round(wall, 2),
            "faults_and_perturbations_injected": faults, "kernel_counters": stats, "rare_conditions_reached": probes,
            "code_coverage_points_reached": max([e.get("cov", 0) for e in runs] + [0]),
            "determinism": {"seeds_run_twice": tot("det_checked"), "differing": tot("det_bad")},
            "harness_errors": tot("harness_errors"),
            "real_components": meta["real"], "stubbed_components": meta["stub"],
        },
        "assumptions": meta["assume"],
        "wall_s": round(time.time() - t0, 2),
        "violations": viol,
    }
    if viol:
        ev["coverage"]["violation"] = [e.get("violation") for e in runs if e.get("violation")]
    with open(os.path.join(evdir, pid + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
    return rc


sys.exit(main())
