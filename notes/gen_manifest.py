"""MANIFEST.json from the contracts present and NOT_APPLICABLE below."""
import importlib, json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
NA = {"C22": "the optimality of a solution returned by an external solver (OR-Tools, sklearn CART) is a property of that "
             "dependency, not of code in /repo: no contract on /repo's functions can express it and nothing here assumes it",
      }
props = [json.loads(l) for l in open(os.path.join(V, "properties.jsonl"))]
checks, na = [], []
TECH = "contract-based deductive verification of the real Python source (VCs extracted by pyvc, discharged by z3/cvc5)"
for p in props:
    i = p["id"]
    if os.path.exists(os.path.join(V, "contracts", i.lower() + ".py")) and i not in NA:
        m = importlib.import_module("contracts." + i.lower())
        lvl = getattr(m, "LEVEL", "proof")
        checks.append({"property": i, "quick_cmd": "python3-vt check.py %s" % i, "thorough_cmd": "VERIF_TIER=thorough python3-vt check.py %s" % i,
                       "technique": getattr(m, "TECHNIQUE", TECH), "level": lvl,
                       "level_note": getattr(m, "LEVEL_NOTE", "every obligation generated from the current source is "
                                             "discharged for all inputs; assumptions and undischarged obligations are in the evidence file"),
                       "evidence_file": "evidence/%s.json" % i})
    else:
        na.append({"property": i, "reason": NA.get(i, "no check yet: contracts for this property are not written")})
json.dump({"version": 1, "setup_cmd": "python3-vt -c \"import z3; print(z3.get_version_string())\"", "checks": checks,
           "not_applicable": na}, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks", len(na), "na")
