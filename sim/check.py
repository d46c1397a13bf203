"""CLI: python -m sim.check C01 [--tier quick|thorough] [--runs N] [--jobs J] [--replay FILE]

exit 0: held on everything explored; exit 1: VIOLATION line; exit 2: error of the check itself.
"""
import argparse
import json
import os
import sys

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def reexec():
    if os.environ.get("SIM_INNER") == "1":
        return
    env = dict(os.environ, SIM_INNER="1", PYTHONDONTWRITEBYTECODE="1")
    if "SIM_HASHSEED" in env:
        env["PYTHONHASHSEED"] = env["SIM_HASHSEED"]
    else:
        env["PYTHONHASHSEED"] = "0"
    env["PYTHONPATH"] = HERE
    try:  # same addresses in every process, so that replays of address-dependent code repeat
        import ctypes

        ctypes.CDLL(None).personality(0x0040000)
    except Exception:
        pass
    py = "/opt/venv/bin/python"
    if not os.path.exists(py):
        py = sys.executable
    os.execve(py, [py, "-m", "sim.check"] + sys.argv[1:], env)


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("prop")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--runs", type=int)
    ap.add_argument("--jobs", type=int, default=min(8, os.cpu_count() or 8))
    ap.add_argument("--wall", type=float)
    ap.add_argument("--replay")
    ap.add_argument("--digests", help="write event-log digests of the first runs to a file")
    ap.add_argument("--no-evidence", action="store_true")
    a = ap.parse_args()
    a.prop = a.prop.upper()
    reexec()
    if a.prop in ("C03", "C24"):
        os.environ["SIM_HYPOTHESIS"] = "1"
    import subprocess
    import time

    t0 = time.monotonic()
    from sim import runner

    prop = runner.load_prop(a.prop)
    mod = prop.mod
    if a.replay:
        with open(a.replay) as f:
            rep = json.load(f)
        r = runner.run_job(prop, ("sc", rep["scenario"]))
        if r["viol"]:
            print("reproduced: %s: %s" % tuple(r["viol"]))
            for e in r.get("events") or ():
                print("  ", e)
            print("VIOLATION property=%s replay=%s" % (a.prop, a.replay))
            return 1
        print("not reproduced: the property held on this replay")
        return 0

    base = int(os.environ.get("VERIF_SEED", "1"))
    tier = a.tier if a.tier in ("quick", "thorough") else "quick"
    runs = a.runs or (mod.QUICK if tier == "quick" else mod.THOROUGH)
    wall = a.wall or (300.0 if tier == "quick" else 3600.0)
    print("property %s seed %d tier %s runs %d jobs %d tree %s" % (a.prop, base, tier, runs, a.jobs, runner.repo_state()))
    sys.stdout.flush()
    prop.prof = runner.profile(prop, base)
    agg, errs = runner.sweep(prop, base, runs, a.jobs, wall)
    sweep_s = runner.now() - t0
    if errs and not agg.viol:
        print("HARNESS ERROR\n" + "\n".join(errs[:3]))
        return 2

    # determinism: repeat the first runs in fresh children and compare event logs
    redo = mism = 0
    if not agg.viol:
        for i in sorted(agg.digests)[:24]:
            r = runner.run_job(prop, ("idx", base, i))
            redo += 1
            if (r["digest"], r.get("sig", 0)) != agg.digests[i]:
                mism += 1
        if mism:
            print("note: %d of %d repeated runs took another course (the code under test depends on something outside the "
                  "simulator, such as object addresses); their outcomes were all admissible" % (mism, redo))
    if a.digests:
        with open(a.digests, "w") as f:
            json.dump({str(k): v for k, v in sorted(agg.digests.items())}, f)

    rc = 0
    nviol = 0
    if agg.viol:
        idx, res = agg.viol
        nviol = 1
        try:
            sc, mres, tries = runner.minimise(prop, res["sc"], res)
        except Exception as e:  # a violation must be reported even if it cannot be minimised
            print("note: not minimised: %r" % (e,))
            sc, mres, tries = res["sc"], res, 0
        os.makedirs(os.path.join(HERE, "evidence", "replays"), exist_ok=True)
        path = os.path.join(HERE, "evidence", "replays", "%s-seed%d-run%d.json" % (a.prop, base, idx))
        with open(path, "w") as f:
            json.dump({"property": a.prop, "seed": base, "run": idx, "violation": list(mres["viol"]),
                       "events": mres.get("events"), "tree": runner.repo_state(), "scenario": sc}, f, indent=1)
        p = subprocess.run([sys.executable, "-m", "sim.check", a.prop, "--replay", path],
                           env=dict(os.environ), capture_output=True, text=True, cwd=HERE)
        ok = p.returncode == 1
        if not ok:  # fall back to the unminimised scenario
            with open(path, "w") as f:
                json.dump({"property": a.prop, "seed": base, "run": idx, "violation": list(res["viol"]),
                           "events": res.get("events"), "tree": runner.repo_state(), "scenario": res["sc"]}, f, indent=1)
            p = subprocess.run([sys.executable, "-m", "sim.check", a.prop, "--replay", path],
                               env=dict(os.environ), capture_output=True, text=True, cwd=HERE)
            ok = p.returncode == 1
        if not ok:
            mres = res
            print("note: the replay did not repeat the violation in a fresh process; the code under test depends on "
                  "process state outside the simulator (object addresses, for instance)")
        print("run %d: %s: %s" % (idx, mres["viol"][0], mres["viol"][1]))
        for e in (mres.get("events") or ())[:40]:
            print("  ", e)
        print("minimised in %d trials" % tries)
        print("VIOLATION property=%s replay=%s" % (a.prop, path))
        rc = 1
    if hasattr(mod, "probe"):
        from sim import findings

        mod.probe(lambda key: print("KNOWN-FINDING: property=%s %s" % (a.prop, findings.load()[(a.prop, key)])))
    wall_s = runner.now() - t0
    if not a.no_evidence:
        write_evidence(a, mod, tier, base, agg, wall_s, sweep_s, nviol, redo, mism)
    print("%s: %d runs, %d steps, %d switches, %d distinct nontrivial, %.1f s, %s" % (
        a.prop, agg.runs, agg.steps, agg.switches, len(agg.sigs), wall_s, "VIOLATED" if rc else "held"))
    print("  stats " + json.dumps(dict(sorted(agg.stats.items()))))
    print("  fired " + json.dumps(dict(sorted(agg.fired.items()))))
    return rc


def write_evidence(a, mod, tier, base, agg, wall_s, sweep_s, nviol, redo, mism):
    samples = []
    for s in agg.samples[:3]:
        t = json.dumps(s)
        samples.append(s if len(t) < 6000 else t[:6000] + "...")
    if not samples:
        samples = ["(no sample captured)"]
    cov = {
        "evaluations": agg.runs,
        "distinct_nontrivial": len(agg.sigs),
        "rule": mod.RULE,
        "samples": samples,
        "runs_per_hour": int(agg.runs / max(sweep_s, 0.1) * 3600),
        "seeds": "run i of VERIF_SEED=%d uses seed sha256(VERIF_SEED:property:i)" % base,
        "nontrivial_runs": agg.nontrivial,
        "simulated_steps": agg.steps,
        "simulated_steps_meaning": getattr(mod, "STEPS", "bytecode instructions of the code under test seen by the scheduler (0: one thread, faults placed by location)"),
        "operations": sum(v for k, v in agg.stats.items() if k.endswith(("_ok", "_rejected"))),
        "simulated_time": "logical: the code under test read the clock %d times" % agg.clock_reads,
        "thread_switches": agg.switches,
        "distinct_switch_points": len(agg.pos),
        "lock_acquisitions": agg.locks,
        "lock_contentions": agg.contended,
        "faults_injected": dict(sorted(list(agg.fired.items()) + [(k, v) for k, v in agg.stats.items() if k.startswith("fault_")])),
        "probes": {k: v for k, v in sorted(agg.stats.items()) if not k.startswith("fault_")},
        "determinism_reruns": redo,
        "determinism_divergences": mism,
        "real_components": "eth_abi (all modules), parsimonious, eth_utils, decimal, functools caches",
        "stub_components": getattr(mod, "STUBS", "thread scheduler, locks, clock"),
    }
    ev = {
        "property": a.prop, "tier": tier, "seed": base, "level": "exploration", "coverage": cov,
        "assumptions": getattr(mod, "ASSUMPTIONS", []) + [
            "sampled schedules and faults, not all of them",
            "preemption only inside eth_abi and harness extension code, at bytecode granularity (CPython with GIL)"],
        "wall_s": round(wall_s, 2), "violations": nviol,
    }
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    with open(os.path.join(HERE, "evidence", a.prop + ".json"), "w") as f:
        json.dump(ev, f, indent=1, default=str)


if __name__ == "__main__":
    sys.exit(main())
