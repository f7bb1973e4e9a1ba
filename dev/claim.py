#!/usr/bin/env python3
"""Development aid: claim.py ID 'technique' 'level note' [level] - move a property to the claimed checks."""
import json, sys, subprocess
f='/verif/claims.json'; c=json.load(open(f))
pid,tech,note=sys.argv[1:4]; lvl=sys.argv[4] if len(sys.argv)>4 else 'other'
c['not_applicable']=[n for n in c['not_applicable'] if n['property']!=pid]
c['checks']=[n for n in c['checks'] if n['property']!=pid]+[{'property':pid,'technique':tech,'level':lvl,'level_note':note}]
c['checks'].sort(key=lambda n:n['property'])
json.dump(c,open(f,'w'),indent=1,ensure_ascii=False); open(f,'a').write('\n')
subprocess.check_call(['python3','/verif/mkmanifest.py'])
