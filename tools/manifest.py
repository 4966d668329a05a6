"""writes MANIFEST.json"""
import json, sys
sys.path.insert(0, "/verif")
TLA = "TLA+ specification, TLC, "
LEV = {}
def m(p, tech, note, level="model_checking"):
    LEV[p] = (TLA + tech, note, level)

ACC = ("The design is model checked for small constants; conformance of the code is checked on every behaviour replayed and "
       "every history validated (counts in the evidence), mostly over a transparent toy group plugged into the generic scheme, with a sample on BLS12-381. "
       "Trusts TLC, the toy group, and the harness's report of call outcomes.")
for p in ("C01", "C02", "C03", "C04", "C05", "C06", "C10", "C11"):
    m(p, "exhaustive small design + replay of TLC behaviours in the engine + trace validation of engine histories (Abe.tla)", ACC)
exec(open("/verif/tools/manifest_more.py").read()) if __import__("os").path.exists("/verif/tools/manifest_more.py") else None
props = [json.loads(l)["id"] for l in open("/verif/properties.jsonl")]
man = {"version": 1, "setup_cmd": "python3 setup.py",
       "checks": [{"property": p, "quick_cmd": "python3 check.py %s" % p, "thorough_cmd": "VERIF_TIER=thorough python3 check.py %s" % p,
                   "evidence_file": "evidence/%s.json" % p, "technique": LEV[p][0], "level": LEV[p][2], "level_note": LEV[p][1]}
                  for p in props if p in LEV],
       "not_applicable": [{"property": p, "reason": "check not built yet"} for p in props if p not in LEV],
       "notes": "Specifications in spec/, harness (path dependency on /repo) in harness/, drivers in checks/ and lib/. No hooks in /repo are needed: the generic engine accepts a transparent group."}
json.dump(man, open("/verif/MANIFEST.json", "w"), indent=1)
import jsonschema
jsonschema.validate(man, json.load(open("/root/.vp/MANIFEST.schema.json")))
print(len(man["checks"]), "checks")
