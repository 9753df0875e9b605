"""Writes /verif/MANIFEST.json."""
import json
import subprocess

log = subprocess.run(["git", "-C", "/repo", "log", "--format=%h %s"], capture_output=True, text=True).stdout.splitlines()
hooks = [l.split()[0] for l in log if l.split(" ", 1)[1].startswith("hooks:")][::-1]
props = [json.loads(l) for l in open("/verif/properties.jsonl")]
NOTE = {
    "C03": "No panic, abort or hang on the calls made (hostile texts and numbers, systematic tables); exploration of an unbounded space, judged by the trace specification.",
    "C15": "Every event of shuffled, concurrent and racing runs refines the memoryless object of History.tla; schedules are those that happened.",
}
STD = "The TLA+ specification gives the result of every call; TLC validates the recorded events of the real code against it, systematically over all plans and pseudo-randomly inside them. Trusted: TLC, the reader of the XML and its patterns, the driver."
checks = [{"property": p["id"], "quick_cmd": "./check %s quick" % p["id"], "thorough_cmd": "./check %s thorough" % p["id"],
           "technique": {"C15": "TLA+: trace validation of histories with TLC against a memoryless object; interleaving model of the pattern cache, its schedules imposed on the code, its safety proved with TLAPS (thorough)"}.get(
               p["id"], "TLA+ specification with TLC: states of Explore.tla checked and replayed on the code; recorded calls over published and enumerated plans validated against it"),
           "level": "model_checking", "level_note": NOTE.get(p["id"], STD)} for p in props]
json.dump({"version": 1, "setup_cmd": "./setup.sh",
           "hooks": {"guard": "cfg(vp_hooks)", "enable": "RUSTFLAGS=\"--cfg vp_hooks\" (set by gen/runner.py when it builds the driver)", "source_commits": hooks},
           "checks": checks, "not_applicable": [],
           "notes": "One TLA+ specification (spec/) for all properties; see DESIGN.md. Fixed defects are listed in known_findings.json."},
          open("/verif/MANIFEST.json", "w"), indent=1)
