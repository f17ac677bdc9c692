#!/usr/bin/env python3
"""Generates /verif/MANIFEST.json from properties.jsonl and the properties the checker knows ('mc list')."""
import json, subprocess, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(V + "/properties.jsonl")]
have = dict(l.split() for l in subprocess.check_output([V + "/.target/debug/mc", "list"], text=True).splitlines())
log = subprocess.check_output(["git", "-C", "/repo", "log", "--format=%h %s"], text=True).splitlines()
hooks = [l.split()[0] for l in log if l.split(" ", 1)[1].startswith("hook:")]
T = json.load(open(V + "/tools/techniques.json"))
checks, na = [], []
for p in props:
    i = p["id"]
    if i in have and i in T:
        checks.append({
            "property": i,
            "quick_cmd": f"./check.sh {i} quick",
            "thorough_cmd": f"./check.sh {i} thorough",
            "technique": T[i]["technique"],
            "level": have[i],
            "level_note": T[i]["note"],
        })
    else:
        na.append({"property": i, "reason": T.get("_na", {}).get(i, "no check has been built for it")})
m = {
    "version": 1,
    "setup_cmd": "./setup.sh",
    "hooks": {
        "guard": "cfg(fledger_mc)",
        "enable": "mc/.cargo/config.toml sets rustflags = --cfg fledger_mc for the checker crate, which uses /repo's crates by path",
        "source_commits": hooks,
    },
    "checks": checks,
    "not_applicable": na,
    "notes": "One explorer (mc/) drives the real code of /repo; see DESIGN.md.",
}
json.dump(m, open(V + "/MANIFEST.json", "w"), indent=1)
print(len(checks), "checks,", len(na), "not applicable")
