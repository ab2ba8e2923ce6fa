#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from the table of claimed checks below and properties.jsonl."""
import json, os
D = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ids = [json.loads(l)["id"] for l in open(D + "/properties.jsonl")]
CL = {}
def c(id, level, technique, note):
    CL[id] = dict(property=id, quick_cmd=f"bash check.sh {id} quick", thorough_cmd=f"bash check.sh {id} thorough",
                  evidence_file=f"evidence/{id}.json", technique=technique, level=level, level_note=note)
exec(open(D + "/tools/claims.py").read())
NA = {}
m = dict(version=1, setup_cmd="bash build.sh", checks=[CL[i] for i in ids if i in CL],
         not_applicable=[dict(property=i, reason=NA.get(i, "check not built yet")) for i in ids if i not in CL])
open(D + "/MANIFEST.json", "w").write(json.dumps(m, indent=1) + "\n")
