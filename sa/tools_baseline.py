#!/usr/bin/env python3
"""developer tool: record the data members of the analysed tree (only names and types; used to see through member renames)"""
import sys, os, json
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path[:0] = [os.path.join(HERE, 'lib')]
import prep
f = prep.load()
b = {n: [[x['n'], x['t']] for x in r['fields']] for n, r in sorted(f['records'].items()) if n.startswith('cyclus::') and r['fields']}
g = {}
for n, x in sorted(f['globals'].items()):
    if n.startswith('cyclus::') and not x['file'].startswith('agents'):
        g.setdefault(n.rsplit('::', 1)[0], []).append([n.rsplit('::', 1)[1], x['t']])
json.dump(g, open(os.path.join(HERE, 'baseline', 'globals.json'), 'w'), indent=0)
json.dump(b, open(os.path.join(HERE, 'baseline', 'fields.json'), 'w'), indent=0)
print(len(b))

from engine import notmpl
fn = sorted({notmpl(x['n']) for x in f['functions'].values()})
json.dump(fn, open(os.path.join(HERE, 'baseline', 'functions.json'), 'w'), indent=0)
print(len(fn))

# accessors and plain forwarders: functions that are one return
import engine, summ
os.environ['CYCSA_NOTRIV'] = '1'
P = engine.Prog(f)
P.noeffect = summ.QUERY
tr = sorted({x['sn'] for x in P.F.values() if P.trivial(x['key']) is not None})
fw = sorted({P.F[k]['sn'] for k in P.forwards})
tk = sorted(x['key'] for x in P.F.values() if P.trivial(x['key']) is not None and x['sn'].startswith('cyclus::') and not x['file'].startswith('agents'))
json.dump({'trivial': tr, 'forwards': fw, 'keys': tk}, open(os.path.join(HERE, 'baseline', 'trivial.json'), 'w'), indent=0)
print(len(tr), len(fw))
