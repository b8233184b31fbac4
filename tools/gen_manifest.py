#!/usr/bin/env python3
"""Generates MANIFEST.json: every property with a registered check is claimed."""
import json, os, subprocess, sys
here = os.path.dirname(os.path.abspath(__file__)); root = os.path.join(here, "..")
sys.path.insert(0, os.path.join(root, "lib"))
import props
ids = [json.loads(l)["id"] for l in open(os.path.join(root, "properties.jsonl"))]
checks, na = [], []
for i in ids:
    if i in props.PROPS:
        m = props.META.get(i, {})
        checks.append({
            "property": i,
            "quick_cmd": f"python3 check.py {i}",
            "thorough_cmd": f"python3 check.py {i} --tier thorough",
            "evidence_file": f"evidence/{i}.json",
            "technique": m.get("technique", props.TECH_REPLAY),
            "level": "model_checking",
            "level_note": m.get("note", props.NOTE_REPLAY)})
    else:
        na.append({"property": i, "reason": props.NOT_APPLICABLE.get(i, "its check is not built yet")})
hooks = {"guard": "cfg otel_verif",
         "enable": "RUSTFLAGS='--cfg otel_verif' (set by lib/vlib.py when it builds the harness)",
         "source_commits": props.HOOK_COMMITS}
json.dump({"version": 1,
  "setup_cmd": "python3 check.py --setup",
  "hooks": hooks, "checks": checks, "not_applicable": na,
  "notes": "TLA+ specifications in spec/, checked with TLC; conformance harness in harness/ (see DESIGN.md)."},
  open(os.path.join(root, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "claimed,", len(na), "not claimed")
