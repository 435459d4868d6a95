#!/usr/bin/env python3
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
B = 'bounded symbolic execution of the LLVM bitcode of /repo (symx, z3 decides every branch and assertion), counterexamples replayed on the natively built code'
notes = json.load(open(V + '/tools/notes.json'))
ps = [json.loads(l) for l in open(V + '/properties.jsonl')]
na = notes['_na']
m = {'version': 1, 'setup_cmd': 'true', 'checks': [], 'not_applicable': [{'property': k, 'reason': v} for k, v in na.items()]}
for p in ps:
    i = p['id']
    if i in na: continue
    m['checks'].append({'property': i, 'quick_cmd': './check %s --tier quick' % i, 'thorough_cmd': './check %s --tier thorough' % i, 'technique': B, 'level': 'model_checking', 'level_note': notes[i], 'evidence_file': 'evidence/%s.json' % i})
json.dump(m, open(V + '/MANIFEST.json', 'w'), indent=1)
