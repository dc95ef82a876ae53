#!/usr/bin/env python3
"""Write MANIFEST.json from the list of properties the simulator knows."""
import json, subprocess, sys
ids = subprocess.run(["/verif/sim/target/release/sim", "list"], capture_output=True, text=True).stdout.split()
NOTE = ("Seeded search: holds on every simulated run of this tier; no claim beyond the histories drawn. "
        "Trusts the reference model and tolerances in sim/src/props/%s.rs and the scripted callbacks and clock.")
checks = [{
    "property": i,
    "quick_cmd": f"bash check.sh {i} quick",
    "thorough_cmd": f"bash check.sh {i} thorough",
    "evidence_file": f"evidence/{i}.json",
    "technique": "deterministic simulation with fault injection, seeded search",
    "level": "exploration",
    "level_note": NOTE % i.lower(),
} for i in ids]
pure = "pure function of its arguments: no schedule, fault, history or second party for a simulator to vary"
na = [{"property": p, "reason": pure} for p in ("N01", "N02", "N03")]
known = [json.loads(l)["id"] for l in open("/verif/properties.jsonl")]
todo = [p for p in known if p not in ids and not p.startswith("N")]
na += [{"property": p, "reason": "no check built yet"} for p in todo]
m = {
    "version": 1,
    "setup_cmd": "bash build.sh",
    "hooks": {"guard": "cargo feature sim_clock",
              "enable": "the simulator crate depends on /repo with features = [\"serde_support\", \"sim_clock\"]",
              "source_commits": ["6eac34391a6dead56b5430c3b35e67f3ea364e81"]},
    "checks": checks,
    "not_applicable": na,
    "notes": "One simulator crate (sim/), one seed per run; replay a reported violation with sim/target/release/sim replay FILE.",
}
json.dump(m, open("/verif/MANIFEST.json", "w"), indent=1)
print(len(checks), "checks;", "not built:", todo)
