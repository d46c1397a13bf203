import json, os
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(os.path.join(HERE, "properties.jsonl"))]
T = {
 "C01": "simulated threads preempted at bytecode instructions, reference codec as oracle",
 "C02": "simulated threads changing and using one registry; history explained by registry states (linearizability-style)",
 "C03": "seeded call histories with failing calls against an executable registry model",
 "C04": "seeded histories and thread schedules over registry copies, one model per copy",
 "C05": "seeded histories and thread schedules of strict/lenient decodes against a reference decoder",
 "C06": "exceptions injected at seeded points of library code, follow-up calls checked against reference and registry model",
 "C07": "injected payload damage (truncation, bit flips, splices, ...) against an independent reference decoder",
 "C08": "injected payload damage, lenient decode against an independent reference decoder and strict decode",
 "C09": "injected damage of size and offset words under a simulator step budget and memory cap",
 "C10": "simulated threads with hostile decimal contexts and injected interrupts, exact rational arithmetic as oracle",
 "C11": "injected stream faults (I/O errors, short reads) and seeded stream histories against a list model",
 "C12": "injected failures of user callbacks and bad inputs, later calls against reference and registry model",
 "C13": "simulated buffer writers and aliasing probes, set of admissible reference results",
 "C14": "simulated threads and histories over shared parsed types against an independent parser",
 "C15": "calls injected inside other calls (callbacks, streams, signal-handler points) against reference and registry model",
 "C16": "seeded long call histories against a reference codec",
 "C24": "random choices of drawn strategies decided by the simulator, histories, decimal contexts and interrupts, reference codec as oracle",
}
NA = {
 "C20": "a pure input-to-output law: no schedule, fault, history or environment enters it, so simulation decides nothing about it; encode and decode are both compared with a reference codec inside C01, C07 and C16",
 "C21": "a pure input-to-output law: no schedule, fault, history or environment enters it; the reference codec used as oracle in C01/C16 covers it in passing",
 "C22": "a pure relation between two functions of the same input; nothing to schedule or inject",
 "C23": "a pure law about the grammar of one string; nothing to schedule or inject (C14 covers the shared, cached side)",
 "C25": "a pure input-to-output law: no schedule, fault, history or environment enters it",
}
checks = []
for p in props:
    i = p["id"]
    if i in NA:
        continue
    checks.append({"property": i, "quick_cmd": "python3 -m sim.check " + i,
                   "thorough_cmd": "python3 -m sim.check %s --tier thorough" % i,
                   "technique": "deterministic simulation: " + T[i], "level": "exploration",
                   "level_note": "seeded search over schedules, faults and histories (thousands of runs, each exactly repeatable from its seed); "
                                 "a sample, not a proof; trusts the simulator's seams and the independent reference model"})
m = {"version": 1, "setup_cmd": "python3 -m sim.selftest", "checks": checks,
     "not_applicable": [{"property": k, "reason": v} for k, v in NA.items()],
     "notes": "No hooks in /repo: every seam used (sys.monitoring, threading primitives, stream_class, registry callbacks, payload buffers) exists outside the code or in its public API. Fix commits are listed in known_findings.txt."}
json.dump(m, open(os.path.join(HERE, "MANIFEST.json"), "w"), indent=1)
