"""Writes properties.jsonl and MANIFEST.json from the entries in meta/props.py (only those whose check exists)."""
import json, os, sys
here = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, here)
from props import P
V = os.path.dirname(here)
checks = []
with open(os.path.join(V, "properties.jsonl"), "w") as f:
    for p in P:
        assert len(p["title"]) <= 80, p["id"]
        assert os.path.exists(os.path.join(V, "checks", p["check"] + ".py")), p["check"]
        f.write(json.dumps(dict(id=p["id"], title=p["title"], statement=p["statement"],
                                quantifier=dict(over=p["over"], text=p["qtext"]), why_tests_cant=p["why"],
                                anchors=dict(files=p["files"], mechanism=[dict(name=a, where=b) for a, b in p["mech"]],
                                             observe_at=p.get("observe", []), hook_needed=None))) + "\n")
        checks.append(dict(property=p["id"], quick_cmd="./run.sh %s --tier quick" % p["check"],
                           thorough_cmd="./run.sh %s --tier thorough" % p["check"],
                           technique="property-based testing: " + p["tech"], level=p.get("level", "exploration"), level_note=p["note"]))
json.dump(dict(version=1, setup_cmd="true", checks=checks, not_applicable=[],
               notes="One check program per property in checks/; see DESIGN.md. No hooks in /repo."),
          open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
print(len(P), "properties")
