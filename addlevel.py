#!/usr/bin/env python3
# addlevel.py ID technique note: record a claimed property
import json, sys
p='/verif/levels.json'
d=json.load(open(p))
d[sys.argv[1]]={"technique":sys.argv[2],"note":sys.argv[3]}
open(p,'w').write('{\n'+',\n'.join(' "%s": {\n  "technique": %s,\n  "note": %s\n }'%(k,json.dumps(v["technique"]),json.dumps(v["note"])) for k,v in sorted(d.items()))+'\n}\n')
