#!/usr/bin/env python3
# Generates MANIFEST.json.
import json, os, subprocess
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
hook = subprocess.run(["git", "-C", "/repo", "log", "--format=%H", "--grep=Guarded switch"], text=True, stdout=subprocess.PIPE).stdout.split()
C = {}
def claim(p, technique, note, level="proof"):
    C[p] = {"property": p, "quick_cmd": "python3-vt checks/run.py %s" % p, "thorough_cmd": "python3-vt checks/run.py %s" % p,
            "evidence_file": "evidence/%s.json" % p, "technique": technique, "level": level, "level_note": note}
NA = {}
exec(open(os.path.join(ROOT, "tools", "claims.py")).read())
props = [json.loads(l)["id"] for l in open(os.path.join(ROOT, "properties.jsonl"))]
for p in props:
    assert (p in C) != (p in NA), p
m = {"version": 1, "setup_cmd": "python3-vt checks/setup.py",
     "hooks": {"guard": "SLINKY_VERIF_NO_LEARN_FROM_MIN_MAX",
               "enable": "clang++-18 -DSLINKY_VERIF_NO_LEARN_FROM_MIN_MAX (vlib/build.py compiles /repo's sources itself, see lib_pair)",
               "source_commits": hook},
     "checks": [C[p] for p in props if p in C],
     "not_applicable": [{"property": p, "reason": NA[p]} for p in props if p in NA],
     "notes": "See DESIGN.md. Every check rebuilds what it needs from /repo's working tree into /verif/build (ignored by git)."}
json.dump(m, open(os.path.join(ROOT, "MANIFEST.json"), "w"), indent=1)
print(len(m["checks"]), "claimed")
