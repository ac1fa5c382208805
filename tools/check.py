#!/usr/bin/env python3
"""Decides one property by simulation.

  check.py <property>                  tier and seed from VERIF_TIER and VERIF_SEED
  check.py --replay <replay file>      runs a recorded violation again (exit 1 if it fails again)
"""
import json, os, re, subprocess, sys, time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(VERIF, "tools"))
import table


def die(msg):
    print("ERROR: " + msg)
    sys.exit(2)


def exe(kind):
    return os.path.join(VERIF, "build", "dst_" + kind)


def build(kind):
    r = subprocess.run([sys.executable, os.path.join(VERIF, "tools", "build.py"), kind], capture_output=True, text=True)
    if r.returncode != 0:
        die("the simulator does not build:\n" + r.stdout + r.stderr)


def known(pid):
    """Signatures of known findings: lines '<property> <signature> <description>'."""
    out = {}
    path = os.path.join(VERIF, "known_findings.txt")
    if os.path.exists(path):
        for line in open(path):
            m = re.match(r"known: property=(\S+) sig=(\S+) (.*)", line)
            if m and m.group(1) == pid:
                out[m.group(2)] = m.group(3)
    return out


def replay_once(kind, pid, choices, tag):
    f = os.path.join(VERIF, "build", "replay-%s-%s-%d.txt" % (pid, tag, os.getpid()))
    with open(f, "w") as h:
        h.write(" ".join(map(str, choices)) + "\n")
    try:
        r = subprocess.run([exe(kind), "replay", pid, f], capture_output=True, text=True, errors="replace", timeout=300)
    finally:
        os.unlink(f)
    m = re.match(r"violated (\d+)\nhash (\S+)\nsig (.*)\n", r.stdout)
    if not m:
        return None, r.stdout + r.stderr
    return (m.group(1) == "1", m.group(2), m.group(3)), r.stdout


def do_replay(path):
    d = json.load(open(path))
    kind = table.T[d["property"]]["exe"]
    build(kind)
    res, text = replay_once(kind, d["property"], d["choices"], "r")
    print(text)
    if res is None:
        die("replay failed to run")
    same = res == (True, d["hash"], d["signature"])
    print("recorded: sig %s hash %s -> %s" % (d["signature"], d["hash"],
          "reproduced exactly" if same else "violated, differently" if res[0] else "not violated"))
    return 1 if res[0] else 0


def hashes(kind, pid, seed, n, workers):
    r = subprocess.run([exe(kind), "hashes", pid, "--seed", str(seed), "--runs", str(n), "--workers", str(workers),
                        "--seconds", "300"], capture_output=True, text=True)
    if r.returncode != 0:
        die("determinism sample failed: " + r.stderr[-2000:])
    return r.stdout


def main():
    if len(sys.argv) == 3 and sys.argv[1] == "--replay":
        return do_replay(sys.argv[2])
    pid = sys.argv[1]
    t = table.T[pid]
    tier = os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1"))
    i = 1 if tier == "thorough" else 0
    print("property %s tier %s seed %d" % (pid, tier, seed))
    t0 = time.time()
    kind = t["exe"]
    build(kind)
    tb = time.time() - t0
    workers = max(2, min(8, os.cpu_count() or 8))
    kn = known(pid)
    out = os.path.join(VERIF, "build", "stats-%s-%d.json" % (pid, os.getpid()))
    cmd = [exe(kind), "explore", pid, "--seed", str(seed), "--runs", str(t["runs"][i]), "--seconds",
           str(t["seconds"][i]), "--workers", str(workers), "--out", out, "--minimise", "60"]
    for k in kn:
        cmd += ["--known", k]
    r = subprocess.run(cmd, capture_output=True, text=True, errors="replace")
    if r.returncode not in (0, 1) or not os.path.exists(out):
        die("the simulator failed (exit %d): %s" % (r.returncode, (r.stdout + r.stderr)[-3000:]))
    s = json.load(open(out))
    os.unlink(out)
    v = s["violation"]
    # determinism: the same seeds again, another number of workers, fresh processes
    ndet = 0
    if v is None:
        ndet = min(48 if tier == "quick" else 400, s["runs"])
        a = hashes(kind, pid, seed, ndet, 3)
        b = hashes(kind, pid, seed, ndet, workers)
        if a != b:
            da = [x for x, y in zip(a.splitlines(), b.splitlines()) if x != y]
            die("runs are not repeatable: " + "; ".join(da[:5]))
    wall = time.time() - t0
    cov = {
        "evaluations": s["runs"],
        "distinct_nontrivial": s["distinct_nontrivial"],
        "rule": t["rule"],
        "samples": s["samples"] or (["run seed %d" % v["run_seed"]] if v else []),
        "distinct_final_states": s["distinct_states"],
        "seeds_per_hour": int(s["runs"] / max(s["explore_s"], 1e-3) * 3600),
        "simulated_seconds": s["simulated_s"],
        "faults_injected": s["faults"],
        "operations_simulated": s["operations"],
        "determinism_runs_repeated": ndet,
        "real_components": table.REAL[kind],
        "simulated_components": table.STUB[kind],
        "build_s": round(tb, 2),
    }
    names = table.PROBES.get(pid, {})
    reached = {names.get(k, "probe%d" % k): n for k, n in enumerate(s["probes"]) if n or k in names}
    if reached:
        cov["reached"] = reached
    ev = {"property": pid, "tier": tier, "seed": seed, "level": "exploration", "coverage": cov,
          "assumptions": t["assume"], "wall_s": round(wall, 3), "violations": 0 if v is None else 1}
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    def write_evidence():
        with open(os.path.join(VERIF, "evidence", pid + ".json"), "w") as f:
            json.dump(ev, f, indent=1)
            f.write("\n")
    write_evidence()
    print("%d simulated runs, %d distinct non-trivial, %.1f s (build %.1f s); faults %s" %
          (s["runs"], s["distinct_nontrivial"], wall, tb, s["faults"]))
    for k in s["known_seen"]:
        print("KNOWN-FINDING: property=%s %s" % (pid, kn[k]))
    if v is None:
        return 0
    # Gate: the violation must come again from the same seed and from its recorded choices, twice, in fresh processes.
    if not v["same_seed_twice"]:
        die("a violation did not repeat from its seed: %s" % v["msg"])
    chosen = None
    for choices, h in ((v["choices"], v["hash"]), (v["raw"], None)):
        a, _ = replay_once(kind, pid, choices, "g")
        b, _ = replay_once(kind, pid, choices, "g")
        if a is not None and a == b and a[0] and (h is None or a[1] == h):
            chosen = (choices, a)
            break
    if chosen is None:
        die("a violation did not replay in a fresh process: %s" % v["msg"])
    rep = {"property": pid, "seed": seed, "run": v["run"], "run_seed": v["run_seed"], "signature": chosen[1][2],
           "message": v["msg"], "hash": chosen[1][1], "choices": chosen[0], "choices_before_minimising": len(v["raw"]),
           "history": v["steps"], "faults": v["trace"],
           "how_to_replay": "cd /verif && python3 tools/check.py --replay <this file>"}
    os.makedirs(os.path.join(VERIF, "replays"), exist_ok=True)
    path = os.path.join(VERIF, "replays", "%s-seed%d-run%d.json" % (pid, seed, v["run"]))
    with open(path, "w") as f:
        json.dump(rep, f, indent=1)
        f.write("\n")
    print("violated: " + v["msg"])
    for x in v["steps"]:
        print("  step  " + x)
    for x in v["trace"][:40]:
        print("  fault " + json.dumps(x))
    ev["coverage"]["violation"] = {"signature": rep["signature"], "message": v["msg"], "replay": path,
                                   "minimiser_runs": v["minimiser_runs"]}
    ev["wall_s"] = round(time.time() - t0, 3)
    write_evidence()
    print("VIOLATION property=%s replay=%s" % (pid, path))
    return 1


if __name__ == "__main__":
    sys.exit(main())
