"""Validate MANIFEST.json, properties.jsonl and evidence against the schemas (python3-vt)."""
import glob, json, jsonschema
S = "/root/.vp/%s.schema.json"
jsonschema.validate(json.load(open("/verif/MANIFEST.json")), json.load(open(S % "MANIFEST")))
for f in glob.glob("/verif/evidence/C*.json"):
    jsonschema.validate(json.load(open(f)), json.load(open(S % "EVIDENCE")))
P = json.load(open(S % "PROPERTIES"))
rows = [json.loads(l) for l in open("/verif/properties.jsonl")]
for r in rows:
    try:
        jsonschema.validate(r, P)
    except jsonschema.ValidationError:
        jsonschema.validate(rows, P)
print("valid")
