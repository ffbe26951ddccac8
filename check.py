#!/usr/bin/env python3
"""Driver of the deterministic-simulation checks.

  check.py C09 [quick|thorough]     decide one property against /repo's working tree
  check.py --replay FILE            replay a violation file (rebuilds the engine first)
  check.py --setup                  build every engine once

Exit 0: the property held on everything explored. Exit 1: violated (VIOLATION line printed).
Exit 2: the check itself failed.
"""
import fcntl, json, os, re, subprocess, sys, time
from concurrent.futures import ThreadPoolExecutor

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(HERE, "tools"))
from plan import PLAN, ENGINES  # noqa: E402

REPO = "/repo"
BUILD = os.path.join(HERE, ".build")
CORES = min(8, os.cpu_count() or 1)


class CheckError(Exception):
    pass


def log(*a):
    print(*a, file=sys.stderr, flush=True)


def build(engine):
    """Build an engine from /repo's working tree; returns the command that starts it."""
    e = ENGINES[engine]
    os.makedirs(BUILD, exist_ok=True)
    env = dict(os.environ)
    env.update(CARGO_NET_OFFLINE="true", CARGO_TARGET_DIR=os.path.join(BUILD, "target"), CARGO_TERM_COLOR="never")
    for k in ("RUSTFLAGS", "CARGO_ENCODED_RUSTFLAGS", "RUSTC_WRAPPER", "CARGO_BUILD_TARGET"):
        env.pop(k, None)
    with open(os.path.join(BUILD, "lock"), "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        for step in e["build"]:
            t0 = time.time()
            p = subprocess.run(step, cwd=HERE, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
            if p.returncode != 0:
                raise CheckError("building engine %s failed: %s\n%s" % (engine, " ".join(step), p.stdout[-6000:]))
            log("built %s in %.1fs" % (engine, time.time() - t0))
    return [os.path.join(HERE, c) if c.startswith(".build/") or c.startswith("simjs/") else c for c in e["cmd"]]


def known_findings():
    """Entries of known-findings.txt: {property: {class key: text}}; 'fixed:' lines suppress nothing."""
    out = {}
    try:
        for line in open(os.path.join(HERE, "known-findings.txt")):
            m = re.match(r"known: property=(\S+) class=(\S+) (.*)", line)
            if m:
                out.setdefault(m.group(1), {})[m.group(2)] = m.group(3).strip()
    except FileNotFoundError:
        pass
    return out


class Enough:
    """Once a violation has been found, the other workers get a little longer and are then ended."""
    GRACE = 10

    def __init__(self):
        self.at = None

    def found(self):
        self.at = self.at or time.time() + self.GRACE

    def over(self):
        return self.at is not None and time.time() > self.at


def run_worker(cmd, comp, prop, seed, k, n, runs, limit, known, audit, outdir, tag, enough):
    if enough.over():
        return None
    out = os.path.join(outdir, "%s_%s_%s_%d.json" % (prop, comp, tag, k))
    args = cmd + ["run", "--component", comp, "--seed", str(seed), "--worker", "%d/%d" % (k, n), "--runs", str(runs),
                  "--time", str(limit), "--out", out, "--replay-dir", os.path.join(HERE, "replays"),
                  "--property", prop, "--known", "\n".join(known), "--audit", str(audit)]
    if os.path.exists(out):
        os.remove(out)
    p = subprocess.Popen(args, cwd=HERE, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, errors="replace")
    end = time.time() + limit * 2 + 400
    while True:
        try:
            o, e = p.communicate(timeout=1)
            break
        except subprocess.TimeoutExpired:
            if enough.over() or time.time() > end:
                p.kill()
                p.communicate()
                if time.time() > end:
                    raise CheckError("worker %s %d/%d did not end" % (comp, k, n))
                return None
    if p.returncode not in (0, 1) or not os.path.exists(out):
        raise CheckError("worker %s %d/%d ended with %d\n%s\n%s" % (comp, k, n, p.returncode, o[-2000:], e[-3000:]))
    r = json.load(open(out))
    os.remove(out)
    if r["violations"]:
        enough.found()
    return r


def check(prop, tier, seed):
    t0 = time.time()
    known = known_findings().get(prop, {})
    outdir = os.path.join(BUILD, "out")
    os.makedirs(outdir, exist_ok=True)
    os.makedirs(os.path.join(HERE, "replays"), exist_ok=True)
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    comps = PLAN[prop]["components"]
    errors, cmds = [], {}
    for eng in dict.fromkeys(c["engine"] for c in comps):
        try:
            cmds[eng] = build(eng)
        except CheckError as e:
            errors.append(str(e))
    results = []
    jobs = []
    enough = Enough()
    with ThreadPoolExecutor(max_workers=CORES) as ex:
        for c in comps:
            if c["engine"] not in cmds:
                continue
            runs, limit = c[tier]
            n = min(CORES, max(1, runs))
            cmd = cmds[c["engine"]]
            for k in range(n):
                jobs.append((c, ex.submit(run_worker, cmd, c["name"], prop, seed, k, n, runs, limit, list(known), 3, outdir, "w", enough), "w"))
            a = min(24, runs)
            jobs.append((c, ex.submit(run_worker, cmd, c["name"], prop, seed, 0, 1, a, limit, list(known), a, outdir, "audit", enough), "audit"))
        for c, f, kind in jobs:
            try:
                r = f.result()
                if r is not None:
                    results.append((c, r, kind))
            except CheckError as e:
                errors.append(str(e))
    # the same run in another process, under another split over workers, has the same event log
    hashes = {}
    for c, r, kind in results:
        for i, h in r["audit_hashes"]:
            hashes.setdefault((c["name"], i), set()).add(h)
    audited = sum(1 for v in hashes.values() if v)
    bad = [k for k, v in hashes.items() if len(v) > 1]
    if bad:
        errors.append("not deterministic across processes: %s" % bad[:5])
    viols, known_hits = [], {}
    for c, r, kind in results:
        for v in r["violations"]:
            viols.append((c, v))
        for v in r["known"]:
            known_hits.setdefault(v["class"], v["detail"])
    # replay every violation in a fresh process
    confirmed, seen = [], set()
    for c, v in viols:
        if v["class"] in seen:
            continue
        seen.add(v["class"])
        if len(confirmed) >= 8:
            break
        p = subprocess.run(cmds[c["engine"]] + ["replay", v["replay"]], cwd=HERE, stdout=subprocess.PIPE,
                           stderr=subprocess.STDOUT, text=True, errors="replace", timeout=600)
        if p.returncode == 1:
            confirmed.append((c, v))
        else:
            errors.append("violation %s (%s) did not replay exactly (exit %d): %s" % (v["class"], v["replay"], p.returncode, p.stdout[-1500:]))
    wall = time.time() - t0
    write_evidence(prop, tier, seed, results, audited, wall, len(confirmed), known, known_hits, comps)
    for k in sorted(known_hits):
        print("KNOWN-FINDING: property=%s %s [%s]" % (prop, known[k], k))
    if confirmed:
        for c, v in confirmed:
            print("violated: %s (%s): %s" % (v["class"], c["name"], v["detail"].split("\n")[0][:400]))
        print("VIOLATION property=%s replay=%s" % (prop, confirmed[0][1]["replay"]))
        for e in errors:
            log("note:", e)
        return 1
    if errors:
        for e in errors:
            log("ERROR:", e)
        return 2
    runs = sum(r["runs"] for _, r, _ in results)
    print("property=%s held on %d simulated runs (%s, seed %d, %.1fs)" % (prop, runs, tier, seed, wall))
    return 0


def write_evidence(prop, tier, seed, results, audited, wall, nviol, known, known_hits, comps):
    tr, sc, nt = set(), set(), set()
    faults, probes, per, samples = {}, {}, {}, []
    tot = dict(runs=0, evaluations=0, sim_ns=0, syscalls=0, context_switches=0)
    busy = 0.0
    for c, r, kind in results:
        for k in tot:
            tot[k] += r[k]
        name = c["name"]
        tr.update(name + h for h in r["trace_hashes"])
        sc.update(name + h for h in r["schedule_hashes"])
        nt.update(name + h for h in r["nontrivial_hashes"])
        for k, v in r["faults"].items():
            faults[k] = faults.get(k, 0) + v
        for k, v in r["probes"].items():
            probes[k] = probes.get(k, 0) + v
        p = per.setdefault(name, dict(runs=0, evaluations=0, cpu_s=0.0))
        p["runs"] += r["runs"]
        p["evaluations"] += r["evaluations"]
        p["cpu_s"] = round(p["cpu_s"] + r["wall_s"], 2)
        busy += r["wall_s"]
        for s in r["samples"]:
            if sum(1 for x in samples if x.startswith(name + ":")) < 2:
                samples.append(name + ": " + s)
    runwall = max(busy / CORES, 1e-3)
    ev = {
        "property": prop, "tier": tier, "seed": seed, "level": "exploration",
        "coverage": {
            "evaluations": tot["evaluations"],
            "distinct_nontrivial": len(nt),
            "rule": PLAN[prop]["rule"],
            "samples": samples[:10],
            "simulated_runs": tot["runs"],
            "runs_per_hour": int(tot["runs"] / runwall * 3600),
            "seeds": "run i of component c uses hash(VERIF_SEED, c, i); every run is one seed",
            "simulated_time_s": round(tot["sim_ns"] / 1e9, 3),
            "simulated_system_calls_or_events": tot["syscalls"],
            "context_switches": tot["context_switches"],
            "faults_injected": dict(sorted(faults.items())),
            "probes": dict(sorted(probes.items())),
            "distinct_event_logs": len(tr),
            "distinct_schedules": len(sc),
            "distinctness_measure": "64-bit FNV hash over the complete event log of a run (distinct_event_logs) and over the sequence of (process, kind of step) pairs (distinct_schedules)",
            "determinism_audit_runs": audited,
            "determinism_audit": "each audited run was executed at least twice, in different processes under different worker counts, with identical event-log hashes",
            "components": per,
            "real_code": PLAN[prop]["real"],
            "stubs": PLAN[prop]["stubs"],
            "known_findings_seen": sorted(known_hits),
            "exhaustive": False,
        },
        "assumptions": PLAN[prop]["assumptions"],
        "wall_s": round(wall, 2),
        "violations": nviol,
    }
    with open(os.path.join(HERE, "evidence", prop + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
        f.write("\n")


def main():
    a = sys.argv[1:]
    for k in ("RUST_BACKTRACE", "RUST_LIB_BACKTRACE", "RUST_LOG", "NODE_OPTIONS"):
        os.environ.pop(k, None)  # the runs do not depend on who starts them
    try:
        if a and a[0] == "--setup":
            for e in ENGINES:
                build(e)
            print("built", ", ".join(ENGINES))
            return 0
        if a and a[0] == "--replay":
            v = json.load(open(a[1]))
            cmd = build(v["engine"])
            return subprocess.run(cmd + ["replay", a[1]], cwd=HERE).returncode
        prop = a[0]
        tier = a[1] if len(a) > 1 else os.environ.get("VERIF_TIER", "quick")
        return check(prop, tier, int(os.environ.get("VERIF_SEED", "1")))
    except CheckError as e:
        log("ERROR:", e)
        return 2
    except Exception as e:  # noqa: BLE001
        import traceback
        traceback.print_exc()
        return 2


if __name__ == "__main__":
    sys.exit(main())
