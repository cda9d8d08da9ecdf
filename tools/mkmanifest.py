"""Writes MANIFEST.json from properties.jsonl and the checks that exist."""
import json
import os

here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
NOTE = {}
DEFAULT_NOTE = ("seeded generated-input search with Hypothesis (no database): nothing is established beyond the cases "
                "generated; evidence counts them")
checks, missing = [], []
for line in open(os.path.join(here, "properties.jsonl")):
    p = json.loads(line)
    i = p["id"]
    if os.path.exists(os.path.join(here, "checks", i.lower() + ".py")):
        checks.append({
            "property": i,
            "quick_cmd": "python3 run.py %s --tier quick" % i,
            "thorough_cmd": "python3 run.py %s --tier thorough" % i,
            "evidence_file": "evidence/%s.json" % i,
            "level": "exploration",
            "level_note": NOTE.get(i, DEFAULT_NOTE),
        })
    else:
        missing.append({"property": i, "reason": "check not built yet"})
TECHS = {
    "C01": "property-based testing: generated YANG module sets, an independent resolution of the schema as oracle",
    "C02": "metamorphic property-based testing: generated module sets and meaning-preserving rewrites compared",
    "C03": "property-based testing: generated numeric types and boundary values against a reference type checker",
    "C04": "property-based testing: generated string and binary types and near-miss values against a reference type checker",
    "C05": "property-based testing: generated enumerations, identity graphs and bits against a reference type checker",
    "C06": "property-based testing: generated unions and typedef chains against a reference type checker",
    "C07": "stateful property-based testing: defaults over set/unset histories against a reference model",
    "C08": "stateful property-based testing: refused writes injected into histories, whole-tree snapshots as oracle",
    "C09": "model-based stateful property-based testing over generated schemas and histories",
    "C10": "model-based stateful property-based testing over generated nestings of choices",
    "C11": "model-based stateful property-based testing of presence with encode/decode round trips",
    "C12": "model-based stateful property-based testing of lists against an ordered map",
    "C13": "model-based stateful property-based testing of leaf-lists against a list model",
    "C14": "property-based round-trip testing with an independent encoder as oracle",
    "C15": "property-based round-trip testing with an independent RFC 7951 encoder as oracle",
    "C16": "property-based round-trip testing with an independent namespaced reading of the XML as oracle",
    "C17": "property-based testing of dump options against a reference model",
    "C18": "property-based testing of merging and overwriting loads against a reference model",
    "C19": "model-based stateful property-based testing of the path registry",
    "C20": "model-based stateful property-based testing of references",
    "C21": "property-based testing of generated extension uses and method paths",
    "C22": "model-based stateful property-based testing of several instances in turn",
    "C23": "property-based testing of generated annotations in generated documents",
}
for c in checks:
    c["technique"] = TECHS[c["property"]]
out = {
    "version": 1,
    "setup_cmd": "python3 tools/setup_check.py",
    "checks": checks,
    "not_applicable": missing,
    "notes": "run.py re-executes itself with /opt/venv/bin/python; every check compiles generated YANG with the plugin in "
             "/repo's working tree and imports pyangbind from there. See DESIGN.md.",
}
with open(os.path.join(here, "MANIFEST.json"), "w") as f:
    json.dump(out, f, indent=1)
    f.write("\n")
print(len(checks), "checks;", [m["property"] for m in missing])
