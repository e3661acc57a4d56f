#!/usr/bin/env python3
"""developer tool: draft rules/cXX.spec for the given properties (all without a file if none given) from props.py"""
import os, subprocess, sys
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path[:0] = [HERE]
import props


def terms(ln):
    """the balanced sub-terms of a line"""
    st, q = [], False
    for i, ch in enumerate(ln):
        if ch == '"':
            q = not q
        elif q:
            continue
        elif ch in '([{':
            st.append(i)
        elif ch in ')]}' and st:
            j = st.pop()
            while j > 0 and (ln[j - 1].isalnum() or ln[j - 1] in '_.:$'):
                j -= 1
            if i - j > 60:
                yield ln[j:i + 1]


def abbrev(text):
    """name long repeated sub-terms (`let n = term`, used as <<n>>)"""
    lets = []
    for n in range(12):
        c = {}
        for ln in sorted(text.split('\n'), key=len)[::-9][:600]:
            if len(ln) > 200:
                for t in set(terms(ln)):
                    c[t] = c.get(t, 0) + ln.count(t)
        first = len(lets)
        for t in sorted(c, key=lambda t: -(c[t] - 1) * len(t))[:40]:
            for k in range(first, len(lets)):
                t = t.replace(lets[k], '\u00ab%d\u00bb' % k)
            if len(t) > 40 and text.count(t) * (len(t) - 6) > 20000:
                text = text.replace(t, '\u00ab%d\u00bb' % len(lets))
                lets.append(t)
        if len(lets) == first:
            break
    return '\n'.join('let %d = %s' % (i, t) for i, t in enumerate(lets)) + '\n' + text


for q in props.P:
    f = '%s/rules/%s.spec' % (HERE, q['id'].lower())
    if (q['id'] in sys.argv[1:] or not sys.argv[1:] and not os.path.exists(f)) and q['pats']:
        r = subprocess.run([sys.executable, HERE + '/tools_spec.py'] + q['pats'], stdout=subprocess.PIPE, text=True)
        if len(r.stdout) > 1000000:
            r.stdout = abbrev(r.stdout)
        open(f, 'w').write(r.stdout)
        print(q['id'], r.stdout.count('\nfn ') + 1, 'contracts', r.stdout.count('\n'), 'lines', max([len(l) for l in r.stdout.split('\n')]))
