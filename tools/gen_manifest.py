#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from properties.jsonl and the table below."""
import json, os, subprocess
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(f"{root}/properties.jsonl")]
notes = json.load(open(f"{root}/tools/levels.json"))
hook = subprocess.run(["git", "-C", "/repo", "log", "--format=%H", "--grep=^verif: hook"], capture_output=True, text=True).stdout.split()
checks, na = [], []
for p in props:
    i = p["id"]
    if i in notes:
        checks.append({
            "property": i,
            "quick_cmd": f"./run.sh {i}",
            "thorough_cmd": f"VERIF_TIER=thorough ./run.sh {i}",
            "evidence_file": f"evidence/{i}.json",
            "technique": notes[i]["technique"],
            "level": "exploration",
            "level_note": notes[i]["note"],
        })
    else:
        na.append({"property": i, "reason": "its check is not built yet"})
json.dump({
    "version": 1,
    "setup_cmd": "./run.sh build",
    "hooks": {
        "guard": "--cfg zkp_verif",
        "enable": "run.sh builds the harness crate /verif/harness, which depends on /repo's crates by path, with RUSTFLAGS='--cfg zkp_verif' and its feature 'hooks'; a tree without the hook is built without both, and only the sub-checks that need the Merkle module are left out",
        "source_commits": hook,
    },
    "checks": checks,
    "not_applicable": na,
    "notes": "Exit codes of run.sh: 0 held, 1 violated, 2 the check itself failed (for example /repo does not build). './run.sh replay FILE' runs one recorded case. VERIF_SEED, VERIF_TIER=quick|thorough, VERIF_SCALE (factor on the numbers of cases), VERIF_SUB (one sub-check).",
}, open(f"{root}/MANIFEST.json", "w"), indent=1)
