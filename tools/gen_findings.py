"""Regenerates the "fixed" list of KNOWN_FINDINGS.json from /repo's history."""
import json, subprocess
P = "/verif/KNOWN_FINDINGS.json"
d = json.load(open(P))
props = json.load(open("/verif/tools/fixed_props.json"))
out = subprocess.run(["git", "-C", "/repo", "log", "--reverse", "--format=%h %s", "90d3d0e..HEAD"], capture_output=True, text=True).stdout
d["fixed"] = []
for line in out.splitlines():
    h, msg = line.split(" ", 1)
    if not msg.startswith("fix:"):
        continue
    for p in props[msg].split():
        d["fixed"].append("fixed: property={} {} {}".format(p, h, msg[5:]))
json.dump(d, open(P, "w"), indent=1)
