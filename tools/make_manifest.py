"""Writes /verif/MANIFEST.json for the properties whose check exists."""
import json, os

here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
TECHNIQUE = {
    "C29": "runtime monitoring: threads under injected delays, offline exactly-once and order checker over the recorded log streams",
    "C30": "runtime monitoring: loopback HTTP server records every request, offline checker compares it with the call",
    "C31": "runtime monitoring: scripted faulty loopback server, outcome and connection monitors",
    "C32": "runtime monitoring: digests of every argument, result and table around each call",
    "C33": "runtime monitoring: interleaved and threaded instances checked against each history alone in a new process",
    "C34": "runtime monitoring: save and restore at random points, differential against the uninterrupted run",
    "C35": "runtime monitoring: fault injection of rejected calls, differential against an undisturbed twin",
    "C36": "runtime monitoring: differential observation over argument presentations",
    "C03": "runtime monitoring: differential observation of split and whole call histories",
}
DEFAULT = "runtime monitoring: random call histories checked by an online reference-model oracle"
checks, na = [], []
for line in open(os.path.join(here, "properties.jsonl")):
    p = json.loads(line)
    c = p["id"]
    if os.path.exists(os.path.join(here, "vm", "props", c.lower() + ".py")):
        checks.append(dict(
            property=c,
            quick_cmd=f"VERIF_TIER=quick bash check.sh {c}",
            thorough_cmd=f"VERIF_TIER=thorough bash check.sh {c}",
            evidence_file=f"evidence/{c}.json",
            technique=TECHNIQUE.get(c, DEFAULT),
            level="exploration",
            level_note="The oracle judges every observed call of seeded random workloads on the real code; it shows no violation on what it "
                       "observed (counted in the evidence file) and is no proof beyond it. Trusts numpy/scipy double-precision references within stated tolerances."))
    else:
        na.append(dict(property=c, reason="check not built yet"))
m = dict(version=1, setup_cmd="bash setup.sh", checks=checks, not_applicable=na,
         notes="No hooks in /repo: the monitors wrap public calls from outside, so the code runs as shipped.")
json.dump(m, open(os.path.join(here, "MANIFEST.json"), "w"), indent=1)
print(len(checks), len(na))
