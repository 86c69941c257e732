#!/bin/bash
python3-vt - <<'P'
import json,jsonschema,glob
s=json.load(open('/root/.vp/PROPERTIES.schema.json'))
ids=[]
for l in open('/verif/properties.jsonl'):
    p=json.loads(l); jsonschema.validate(p,s); ids.append(p["id"])
    n=p["statement"].count(". ")+1
    if n>3: print(p["id"],"has",n,"sentences")
m=json.load(open('/verif/MANIFEST.json'))
jsonschema.validate(m,json.load(open('/root/.vp/MANIFEST.schema.json')))
got={c["property"] for c in m["checks"]}|{c["property"] for c in m["not_applicable"]}
assert got==set(ids),got^set(ids)
e=json.load(open('/root/.vp/EVIDENCE.schema.json'))
for f in glob.glob('/verif/evidence/*.json'): jsonschema.validate(json.load(open(f)),e)
print(len(ids),"properties ok")
P
