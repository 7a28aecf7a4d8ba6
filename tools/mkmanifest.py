#!/usr/bin/env python3-vt
"""Writes /verif/MANIFEST.json and validates it."""
import json, jsonschema
T = "deterministic simulation with fault injection: "
checks = {
 "C01": ("seeded histories, coefficient panics and failing allocations inside *=, %=, <<=, >>=",
         "All-or-nothing and retry checked against the value before the call and an exact reference model."),
 "C02": ("seeded histories, coefficient panics and natural overflow inside element-wise updates",
         "At each degree old-or-new against the model; every interrupted update is also retried."),
 "C03": ("seeded histories of accepted, rejected and interrupted term updates",
         "Acceptance, error value, exact effect and unchanged state per polynomial type; signed, unsigned and field coefficients."),
 "C04": ("simulated term streams and term sinks that end, reject and panic",
         "Call-by-call history check of what was read and offered; exact prefix in real sinks."),
 "C05": ("simulated text sinks that fail, tear and panic",
         "Prefix, error-iff-failure and nothing-after-failure; complete text against an independent formatter."),
 "C06": ("seeded interleaving of tasks at coefficient-operation granularity, re-entrancy, faults",
         "Refinement against an exact reference model; borrowed operands compared bit by bit."),
 "C07": ("coefficient-operation budget and watchdog under faults, retries after faults",
         "Liveness as progress within a bound polynomial in the operand sizes; truncating, rounding and exact division."),
 "C08": ("seeded faulty histories, then every observer against a freshly built value",
         "All observers of all five types."),
 "C09": ("failing allocations, live-memory conservation over whole runs",
         "Allocation failure surfaces as a panic; inside BTreeMap only while the map is one node."),
 "C10": ("formatting onto a simulated disk, crash and storage faults, recovery by parsing",
         "Intact text exact for all 14 built-in number types; damaged text against an independent strict reader."),
}
na = {
 "C20": "Roots are a pure function of the coefficients: no schedule, fault, crash point or history can change the answer, so there is nothing for a simulator to decide.",
 "C21": "Pure function of the coefficients, as C20.",
 "C24": "Pure function of one string. The part that storage faults can reach (text the library wrote, intact or damaged) is C10.",
 "C25": "A numerical error bound on a pure function; it needs numerical analysis, not a schedule or fault search. Exactly representable float cases are covered by C06.",
}
m = {
 "version": 1,
 "setup_cmd": "bash build.sh",
 "hooks": {
  "guard": "--cfg rustnomial_sim",
  "enable": "RUSTFLAGS='--cfg rustnomial_sim' (build.sh); makes the numeric trait module public, so that the simulated coefficient type can implement its traits",
  "source_commits": ["5ac9540"],
 },
 "checks": [
  {"property": p, "quick_cmd": f"bash check.sh {p}", "thorough_cmd": f"VERIF_TIER=thorough bash check.sh {p}",
   "technique": T + t, "level": "exploration",
   "level_note": n + " Seeded search, not exhaustive: assurance is what the evidence file counts. Assumes zero(), one(), is_zero() and == of a coefficient type do not panic, and a build with overflow checks."}
  for p, (t, n) in checks.items()],
 "not_applicable": [{"property": p, "reason": r} for p, r in na.items()],
 "notes": "check.sh C01..C10 [quick|thorough]; replay.sh FILE repeats a reported execution; known_findings.txt lists genuine defects.",
}
jsonschema.validate(m, json.load(open("/root/.vp/MANIFEST.schema.json")))
ids = [json.loads(l)["id"] for l in open("/verif/properties.jsonl")]
assert sorted(ids) == sorted(list(checks) + list(na))
json.dump(m, open("/verif/MANIFEST.json", "w"), indent=1)
open("/verif/MANIFEST.json", "a").write("\n")
