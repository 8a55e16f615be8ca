"""writes MANIFEST.json from sim/props.py and properties.jsonl"""
import json, os, sys

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
from sim.props import PROPS  # noqa: E402

NA = json.load(open(os.path.join(V, "tools", "not_applicable.json")))
ids = [json.loads(l)["id"] for l in open(os.path.join(V, "properties.jsonl"))]
PY = "/opt/venv/bin/python -B check.py"
m = dict(
    version=1,
    setup_cmd="/opt/venv/bin/python -B -c \"import greenlet, sys; sys.path.insert(0, '/repo'); import salabim\"",
    checks=[
        dict(
            property=p,
            quick_cmd="%s %s quick" % (PY, p),
            thorough_cmd="%s %s thorough" % (PY, p),
            technique="deterministic simulation with fault injection: seeded search over simulated runs, " + PROPS[p][2].get("technique", "refinement against an executable reference model"),
            level="exploration",
            level_note=PROPS[p][2].get("note", "sampled runs of the real code; every run replays exactly from its seed"),
        )
        for p in ids
        if p in PROPS
    ],
    not_applicable=[dict(property=p, reason=NA.get(p, "no check built yet")) for p in ids if p not in PROPS],
)
with open(os.path.join(V, "MANIFEST.json"), "w") as f:
    json.dump(m, f, indent=1)
    f.write("\n")
print(len(m["checks"]), "checks", len(m["not_applicable"]), "not applicable")
