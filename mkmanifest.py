"""regenerates MANIFEST.json from properties.jsonl and the contracts/harness present"""
import json, os, importlib, sys
V = os.path.dirname(os.path.abspath(__file__)); sys.path.insert(0, V)
props = [json.loads(l) for l in open(V + "/properties.jsonl")]
NA = {}
if os.path.exists(V + "/not_applicable.json"): NA = json.load(open(V + "/not_applicable.json"))
checks, na = [], []
for p in props:
    i = p["id"]
    hasc = os.path.exists("%s/contracts/%s.py" % (V, i)); hash_ = os.path.exists("%s/harness/%s.py" % (V, i))
    if i in NA or not (hasc and hash_):
        na.append(dict(property=i, reason=NA.get(i, "check not built yet"))); continue
    doc = ""
    m = importlib.import_module("contracts." + i)
    doc = (m.__doc__ or "").strip()
    note = getattr(m, "LEVEL_NOTE", "Every obligation generated from the current source of the functions under contract is discharged for all sizes and inputs over mathematical reals/integers; numpy/scipy are trusted through assumed contracts; executable contracts on the real code are a bounded complement.")
    checks.append(dict(property=i, quick_cmd="python3-vt check.py %s --tier quick" % i, thorough_cmd="python3-vt check.py %s --tier thorough" % i, evidence_file="evidence/%s.json" % i,
        technique="contract-based deductive verification of the real source (pyvc VC generator + normal-form prover + z3), counterexample replay on the real code", level=getattr(m, "LEVEL", "proof"), level_note=note))
json.dump(dict(version=1, setup_cmd="true", checks=checks, not_applicable=na), open(V + "/MANIFEST.json", "w"), indent=1)
print(len(checks), "checks", len(na), "n/a")
