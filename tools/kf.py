#!/usr/bin/env python3
"""kf.py fixed|known PROPERTY KEY-or-COMMIT WHAT   -- append to known-findings.json"""
import json,sys,os
p=os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))),'known-findings.json')
l=json.load(open(p)) if os.path.exists(p) else []
st,prop,k,what=sys.argv[1:5]
if st=='fixed': l.append(dict(property=prop,status='fixed',key='',commit=k,what=what,line=f'fixed: property={prop} {k} {what}'))
else: l.append(dict(property=prop,status='known',key=k,what=what))
json.dump(l,open(p,'w'),indent=1,ensure_ascii=False); open(p,'a').write('\n')
