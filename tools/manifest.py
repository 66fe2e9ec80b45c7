#!/usr/bin/env python3
"""Writes MANIFEST.json from the tables below."""
import json
import claims
props=[json.loads(l)['id'] for l in open('/verif/properties.jsonl')]
m={"version":1,"setup_cmd":"./setup.sh","checks":[],"not_applicable":[]}
for i in props:
    if i in claims.CLAIMS:
        tech,note=claims.CLAIMS[i]
        m["checks"].append({"property":i,"quick_cmd":"./check.sh "+i,"thorough_cmd":"./check.sh "+i,"technique":tech,"level":"other","level_note":note})
    else:
        m["not_applicable"].append({"property":i,"reason":claims.NOT.get(i,"no check built yet")})
json.dump(m,open('/verif/MANIFEST.json','w'),indent=1)
