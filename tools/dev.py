#!/usr/bin/env python3
"""dev.py HARNESS PROP k=v... [-t SECS] [-n SAMPLES]: explore one case, replay what it reports"""
import sys, os, json, collections
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import vlib
a = sys.argv[1:]; t = 60; n = 8; opts = []
if '-t' in a: i = a.index('-t'); t = int(a[i+1]); del a[i:i+2]
if '-n' in a: i = a.index('-n'); n = int(a[i+1]); del a[i:i+2]
if '-o' in a: i = a.index('-o'); opts = a[i+1].split(); del a[i:i+2]
h, prop = a[0], int(a[1]); ps = dict(x.split('=') for x in a[2:])
e = vlib.build_engine(); b = vlib.build_bc(h); nat = vlib.build_native(h)
case = {'params': ps, 'opts': opts, 'maxviol': 200}
r = vlib.explore(e, b, case, t, 1, n, prop)
if 'engine_error' in r: print(r); sys.exit(1)
for k in ['paths','completed','states','forks','steps','killed','assumed_out','incomplete','incomplete_reasons','wall','rss_mb','solver','reach','asserts_symbolic','asserts_concrete']: print(k, r.get(k))
seen = collections.OrderedDict()
for v in r['violations']: seen.setdefault((v['kind'], v['msg'], v['stack'].split('\n')[0] if v['kind']!='assert' else ''), []).append(v)
for k, v in seen.items():
    print('**', k, len(v)); print('   ', v[0]['stack'][:500].replace('\n', ' < '))
    print('   ', ' ; '.join(l for l in v[0]['inputs'].splitlines() if l[0]!='U')[:700])
    print('    native:', [vlib.replay(nat, case, x['inputs'], prop)[:2] for x in v[:2]])
bad = 0
for s in r['samples']:
    i, _, tr = s.partition('=\n')
    k, txt, t2 = vlib.replay(nat, case, i, prop)
    tr = '\n'.join(l for l in tr.splitlines() if l.startswith('T '))
    if k != 'ok' or t2 != tr: bad += 1; print('SAMPLE', k, txt, '\n', i.replace('\n',' ; ')[:500], '\n', tr[:300], '\n', t2[:300])
print('samples', len(r['samples']), 'bad', bad)
