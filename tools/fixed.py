#!/usr/bin/env python3
# fixed.py PROP COMMIT WHAT: adds a "fixed:" entry to known_findings.json
import json,sys
f='/verif/known_findings.json'; d=json.load(open(f))
d["fixed"].append(f"fixed: property={sys.argv[1]} {sys.argv[2]} {sys.argv[3]}")
json.dump(d,open(f,'w'),indent=1)
