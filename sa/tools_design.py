#!/usr/bin/env python3
"""developer tool: regenerate the per-property part of DESIGN.md (between the markers) from props.py and the spec files"""
import os, re, sys
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path[:0] = [HERE]
import props
V = os.path.dirname(HERE)
out = []
for q in props.P:
    f = '%s/rules/%s.spec' % (HERE, q['id'].lower())
    n = l = 0
    if os.path.exists(f):
        t = open(f).read()
        n = len(re.findall(r'(?m)^fn', t))
        l = len(re.findall(r'(?m)^  ', t))
    out.append('### %s %s\n' % (q['id'], q['title']))
    how = []
    if n:
        how.append('%d function contracts, %d stated effects (`sa/rules/%s.spec`)' % (n, l, q['id'].lower()))
    if os.path.exists('%s/rules/%s.py' % (HERE, q['id'].lower())):
        how.append('program-wide rule `sa/rules/%s.py`' % q['id'].lower())
    out.append('*Decided by*: %s. %s\n' % ('; '.join(how), q['rule']))
    out.append('*Anchors*: %s.\n' % '; '.join('%s (%s)' % (b, a) for a, b in q['mech']))
    out.append('*Beyond tests*: %s; quantified over %s.\n' % (q['why'], q['text']))
s = open(V + '/DESIGN.md').read()
a, b = '<!-- properties -->', '<!-- /properties -->'
i, j = s.index(a) + len(a), s.index(b)
na = ['### Not applicable\n'] + ['* %s %s: %s\n' % (q['id'], q['title'], q['reason']) for q in getattr(props, 'NA', [])] if getattr(props, 'NA', []) else []
open(V + '/DESIGN.md', 'w').write(s[:i] + '\n' + '\n'.join(out + na) + s[j:])
