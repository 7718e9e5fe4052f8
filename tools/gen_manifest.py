"""Writes MANIFEST.json from budgets.py and properties.jsonl."""
import json, os, sys
ROOT = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..")
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from budgets import BUDGET
TECH = {
    "C01": "property-based testing: random level lists and start/end/pause histories of the blind package in virtual time against a reference schedule",
    "C22": "stateful property-based testing: random histories over several competitions through the manager, differential against the same calls on stand-alone engines",
    "C23": "property-based concurrency testing: random batches of concurrent operations against a linearizability oracle (sequential reference model)",
    "C25": "property-based testing: random table states handed to player runners, checked against an independent redaction model",
    "C26": "stateful property-based testing: random game-state histories to a player runner in virtual time against a reference model of its automation",
    "C27": "stateful property-based testing: random game states to bots, every move checked against the legal moves",
    "C29": "stateful property-based testing: random competition histories on a simulated table backend in virtual time; the state rebuilt from the announcements is compared with the competition at every quiet moment",
    "C30": "property-based testing: random competition settings, backend refusals and follow-up calls against an executable specification of creation",
    "C31": "property-based testing: generated competition states, every query compared with a recount and a JSON round trip",
    "C28": "property-based end-to-end simulation: random competitions on the bundled backend in virtual time against invariants over the whole history",
}
DEF = "stateful property-based testing (rapid): random competition histories on a simulated table backend in virtual time, checked step by step against a reference model / history invariant, with shrinking to a replayable plan"
NOTE = "Holds on every generated history of the run (counts, non-trivial share and samples in the evidence file); not exhaustive. Backend is a model of pokertable v0.1.83 with scripted hands except where stated."
NOTES = {}
props = [json.loads(l)["id"] for l in open(os.path.join(ROOT, "properties.jsonl"))]
checks, na = [], []
for p in props:
    if p in BUDGET:
        checks.append({"property": p, "quick_cmd": "python3 check.py %s" % p, "thorough_cmd": "python3 check.py %s --thorough" % p,
                       "evidence_file": "/verif/evidence/%s.json" % p, "technique": TECH.get(p, DEF), "level": "exploration", "level_note": NOTES.get(p, NOTE)})
    else:
        na.append({"property": p, "reason": "check not built yet"})
json.dump({"version": 1, "setup_cmd": "python3 tools/setup.py", "checks": checks, "not_applicable": na,
           "hooks": {"guard": "verif", "enable": "no hooks were needed: the checks use the public API only (the guard is reserved)", "source_commits": []},
           "notes": "Known and fixed findings: known_findings.json. Replay: python3 check.py <ID> --replay <file>."}, open(os.path.join(ROOT, "MANIFEST.json"), "w"), indent=1)
