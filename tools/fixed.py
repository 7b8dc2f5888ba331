#!/usr/bin/env python3
"""Adds the repairs of /repo to known-findings.json (run by hand after a fix commit)."""
import json,subprocess,os
here=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
p=os.path.join(here,'known-findings.json')
k=json.load(open(p))
FIX=json.load(open(os.path.join(here,'tools','fixes.json')))
log=subprocess.check_output(['git','-C','/repo','log','--format=%h %s'],text=True).splitlines()
by={}
for l in log:
    h,s=l.split(' ',1); by[s]=h
k['findings']=[e for e in k['findings'] if not e.get('fixed')]
for subj,(prop,what) in FIX.items():
    h=by['fix: '+subj]
    k['findings'].append({"property":prop,"fixed":f"fixed: property={prop} {h} {what}"})
missing=[s for s in by if s.startswith('fix: ') and s[5:] not in FIX]
if missing: print('no entry for',missing)
json.dump(k,open(p,'w'),indent=1); open(p,'a').write('\n')
