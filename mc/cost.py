"""Records the cost of the last quick runs (evidence/*.json) in cost.json, shown in DESIGN.md."""
import glob
import json
import os

HERE = os.path.dirname(os.path.abspath(__file__))
p = os.path.join(HERE, "cost.json")
c = json.load(open(p)) if os.path.exists(p) else {}
for f in glob.glob(os.path.join(os.path.dirname(HERE), "evidence", "*.json")):
    e = json.load(open(f))
    if e["tier"] == "quick" and e["coverage"]["exhaustive"]:
        v = e["coverage"]
        c[e["property"]] = "about %d s, %d states, %d transitions, %d runs of the real code compared." % (round(e["wall_s"], -1) or 5, v["states"], v["transitions"], v["traces_validated_against_impl"])
json.dump(dict(sorted(c.items())), open(p, "w"), indent=1)
