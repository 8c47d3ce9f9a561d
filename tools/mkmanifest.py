#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl and the properties the harness implements."""
import json,re
props=[json.loads(l) for l in open('/verif/properties.jsonl')]
impl=set(re.findall(r'c\d\d "(C\d\d)"',open('/verif/mc/src/props/mod.rs').read()))
T={
 'C12':'exhaustive enumeration of operation sequences on the real histogram against a set/weight model',
 'C13':'exhaustive enumeration of setter values and call sequences against a reference model',
 'C14':'exhaustive enumeration of abort points of every explored pipeline',
 'C15':'exhaustive enumeration of operation sequences on one result against a reference table',
 'C16':'stateless model checking: all schedules of the real parallel code under a controlled scheduler up to a preemption bound',
 'C17':'exhaustive enumeration of C calls x handle kinds and of pipelines, compared with the Rust interface',
 'C18':'exhaustive enumeration of C object histories against an ownership model with a recording free function',
 'C19':'exhaustive bounded enumeration of call sequences and configurations under assertion/Miri monitors',
 'C20':'exhaustive bounded enumeration of configurations, outcomes compared between builds',
 'C27':'exhaustive enumeration of callback registration/copy/use/destruction histories against a reference model',
 'C21':'exhaustive enumeration of sizes, strides, lengths and gammas against an acceptance rule',
}
D='exhaustive enumeration of bounded inputs and deviation-bounded configurations on the real code against a reference model'
N={
 'C16':'Bounds: 2-3 workers, scheduling points at work-item and thread-local granularity, preemption bound in the evidence; plus every memory access both workers share (none on this tree) and one suspension of a whole quantization at every/each kind of memory access; data races also looked at by a free-running Miri stage.',
 'C19':'Bounds: enumerated configurations/sequences only; memory-safety monitors (Miri) on the smallest part of the space.',
 'C25':'Competitiveness thresholds are calibrated constants; image families are finite.',
 'C28':'"Materially"/"noticeably" are calibrated constants; image families are finite.',
 'C26':'Average thresholds are calibrated constants; image families are finite.',
}
G='Everything within the stated alphabet and deviation bound is executed on the real code; nothing is claimed about pixel data or settings outside the enumerated alphabet.'
ch=[];na=[]
for p in props:
    i=p['id']
    if i in impl: ch.append(dict(property=i,quick_cmd=f'./check {i} quick',thorough_cmd=f'./check {i} thorough',technique=T.get(i,D),level='model_checking',level_note=N.get(i,G),evidence_file=f'evidence/{i}.json'))
    else: na.append(dict(property=i,reason='check not built yet'))
m=dict(version=1,setup_cmd='./setup.sh',hooks=dict(guard='none: the thread pool is substituted at the dependency level (cargo [patch] in /verif/mc/Cargo.toml), no change to /repo is needed',enable='cargo build in /verif/mc',source_commits=[]),checks=ch,not_applicable=na)
json.dump(m,open('/verif/MANIFEST.json','w'),indent=1,ensure_ascii=False); open('/verif/MANIFEST.json','a').write('\n')
