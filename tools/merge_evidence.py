#!/usr/bin/env python3
"""Joins the evidence of the stages of one check (target/ev/<id>.<stage>.json) into evidence/<id>.json."""
import glob,json,sys
i=sys.argv[1]
main=f'/verif/target/ev/{i}.main.json'
try: e=json.load(open(main))
except OSError: sys.exit(f'no evidence written for {i}')
c=e['coverage']
for f in sorted(glob.glob(f'/verif/target/ev/{i}.*.json')):
    if f==main: continue
    n=f.split('.')[-2]; s=json.load(open(f)); d=s['coverage']
    for k in ('states','transitions','traces_validated_against_impl'): c[k]+=d[k]
    c.setdefault('stages',{})[n]={k:d[k] for k in ('states','transitions','traces_validated_against_impl','sections') if k in d}
    c['exhaustive']=c['exhaustive'] and d['exhaustive']
    e['violations']+=s.get('violations',0); e['wall_s']=round(e['wall_s']+(0 if n.startswith('miri-') and n!='miri-0' else s['wall_s']),1)
sk=[json.load(open(f)) for f in sorted(glob.glob(f'/verif/target/ev/{i}.skip-*'))]
if sk: c['stages_skipped']=sk
json.dump(e,open(f'/verif/evidence/{i}.json','w'),indent=1,ensure_ascii=False)
