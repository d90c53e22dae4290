"""Rewrite MANIFEST.json from properties.jsonl and the checks that exist."""
import ast
import json
import os

root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(line) for line in open(os.path.join(root, "properties.jsonl"))]
checks, missing = [], []
for p in props:
    path = os.path.join(root, "checks", p["id"] + ".py")
    if not os.path.exists(path):
        missing.append({"property": p["id"], "reason": "check not built yet"})
        continue
    tree = ast.parse(open(path).read())
    technique = "property-based testing (Hypothesis): "
    note = ("Generated-input search with shrinking; no claim beyond the explored "
            "cases. Trusts the reference model in the check, numpy and the "
            "file-format libraries. ")
    level = "exploration"
    for node in tree.body:
        if isinstance(node, ast.Assign) and isinstance(node.value, ast.Constant):
            name = node.targets[0].id
            if name == "TECHNIQUE":
                technique += node.value.value
            elif name == "NOTE":
                note += node.value.value
            elif name == "LEVEL":
                level = node.value.value
    if technique.endswith(": "):
        technique += "reference model and metamorphic relations"
    checks.append({
        "property": p["id"], "quick_cmd": "./check " + p["id"],
        "thorough_cmd": "./check " + p["id"],
        "evidence_file": "evidence/%s.json" % p["id"],
        "technique": technique, "level": level, "level_note": note.strip()})
manifest = {"version": 1, "setup_cmd": "./setup.sh", "checks": checks,
            "not_applicable": missing,
            "notes": "No hooks in /repo: all checks drive the public functions. "
                     "VERIF_REPO selects another source tree, VERIF_JOBS the number "
                     "of parallel facets."}
with open(os.path.join(root, "MANIFEST.json"), "w") as f:
    json.dump(manifest, f, indent=1)
    f.write("\n")
print(len(checks), "checks,", len(missing), "not claimed")
