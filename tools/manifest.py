#!/usr/bin/env python3
"""Writes MANIFEST.json from the list of properties below."""
import json, os
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
NOTE = {}
CLAIMED = ["C01", "C02", "C03", "C04", "C05", "C06", "C07", "C08", "C09", "C10", "C11", "C12", "C13", "C14", "C15", "C16", "C17", "C18", "C19", "C22", "C23"]
COMMON = ("Seeded random search over schedules and faults: finds violations with the probability the sampled schedules give, proves nothing. "
          "The real program runs unmodified on a simulated operating system (threads serialised, so weak-memory effects are not explored).")
NA = {
    "C20": "pure functions of their input, with no concurrency, time, I/O or second party: nothing to simulate (their use on the wire is covered by C03 and C07)",
    "C21": "a pure function from file contents to records: nothing to simulate (zones as served are covered by C07, faults while loading by C08)",
}
props = [json.loads(l) for l in open(os.path.join(here, "properties.jsonl")) if l.strip()]
checks = [{
    "property": p["id"],
    "quick_cmd": f"sh ./check.sh {p['id']} quick",
    "thorough_cmd": f"sh ./check.sh {p['id']} thorough",
    "technique": "deterministic simulation with fault injection: seeded search over schedules and faults of the real program",
    "level": "exploration",
    "level_note": (NOTE.get(p["id"], "") + " " + COMMON).strip(),
} for p in props if p["id"] in CLAIMED]
na = [{"property": p["id"], "reason": NA.get(p["id"], "not built yet")} for p in props if p["id"] not in CLAIMED]
m = {"version": 1,
     "setup_cmd": "cargo build --release --offline --manifest-path dst/Cargo.toml",
     "checks": checks, "not_applicable": na,
     "notes": "No hooks in /repo: the seam is the libc boundary of the simulator binary in dst/ (see DESIGN.md)."}
json.dump(m, open(os.path.join(here, "MANIFEST.json"), "w"), indent=1)
open(os.path.join(here, "MANIFEST.json"), "a").write("\n")
