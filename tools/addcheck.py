#!/usr/bin/env python3
"""addcheck.py ID 'technique' 'level note' [json of extra keys] [harness json]"""
import json, sys
p='/verif/checks.json'; c=json.load(open(p)); i=sys.argv[1]
d={"harness":[{"name":"main","variant":"plain","src":i.lower()+".cpp"}],"technique":sys.argv[2],"level_note":sys.argv[3]}
if len(sys.argv)>4: d.update(json.loads(sys.argv[4]))
c[i]=d
json.dump(dict(sorted(c.items())),open(p,'w'),indent=1)
