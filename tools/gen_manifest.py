"""Writes /verif/MANIFEST.json from the list of implemented property modules."""
import os, json
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
NOTE = {
    "P29": "Seeded random search over transfers, latencies and message faults with the real JavaScript classes of the browser application in node; every violation is minimised and replayed exactly. Both ends are the browser bridge (the device end is only shipped compiled); sampled, not exhaustive.",
    "P30": "Seeded random search over controllers, latencies and user histories with the real JavaScript classes of the browser application in node; every violation is minimised and replayed exactly. Both ends are the browser bridge (the device end is only shipped compiled); sampled, not exhaustive.",
}
checks, na = [], []
for l in open(os.path.join(H, "properties.jsonl")):
    p = json.loads(l)
    i = p["id"]
    if os.path.exists(os.path.join(H, "dst/props/%s.py" % i.lower())):
        checks.append({
            "property": i, "quick_cmd": "python3 check.py %s --tier quick" % i, "thorough_cmd": "python3 check.py %s --tier thorough" % i,
            "evidence_file": "evidence/%s.json" % i,
            "technique": "deterministic simulation with fault injection: seeded search over simulated runs of the whole %s, judged by a reference model" % ("file transfer between simulated MIDI ports" if i in ("P29", "P30") else "firmware"),
            "level": "exploration",
            "level_note": NOTE.get(i, "Seeded random search over configurations, schedules and fault sequences of the real firmware in a simulator; every violation is minimised and replayed exactly. Assumes the CircuitPython stubs and the simulated device behave like the real ones; sampled, not exhaustive.")})
    else:
        na.append({"property": i, "reason": "no check yet (work in progress; the simulation does apply to it)"})
m = {"version": 1, "setup_cmd": "python3 -c \"import sys; sys.path.insert(0, '.'); import dst.build\"", "checks": checks, "not_applicable": na,
     "notes": "No hooks in /repo: the simulator replaces the CircuitPython hardware modules the firmware imports. Replay: python3 check.py <ID> --replay <file>."}
json.dump(m, open(os.path.join(H, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks", len(na), "not yet")
