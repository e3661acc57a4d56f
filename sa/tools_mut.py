#!/usr/bin/env python3
"""developer tool: run checks against source variants in scratch copies.
usage: tools_mut.py VARIANTS.py [name-regex] [-p C01,C02]
VARIANTS.py defines V = [(name, expect, [(file, old, new), ...])], expect = set of properties that must fire or None (quiet)"""
import os, re, subprocess, sys, tempfile, shutil, runpy
from concurrent.futures import ThreadPoolExecutor
HERE = os.path.dirname(os.path.abspath(__file__))


def props():
    sys.path[:0] = [HERE]
    import props as q
    return [x['id'] for x in q.P]


def one(v, ps):
    name, expect, edits = v
    d = tempfile.mkdtemp(prefix='mut_', dir='/var/tmp')
    try:
        r = os.path.join(d, 'r')
        subprocess.run(['git', 'clone', '-q', '-s', '/repo', r], check=True)
        for f, old, new in edits:
            p = os.path.join(r, f)
            s = open(p).read()
            if old not in s:
                return name, expect, None, 'edit does not apply: %s %r' % (f, old[:60])
            s = s.replace(old, new, 1)
            open(p, 'w').write(s)
        env = dict(os.environ, CYCSA_REPO=r, CYCSA_MEMO=os.path.join(HERE, 'cache'), CYCSA_CACHE=os.path.join(d, 'cache'), CYCSA_EVID=os.path.join(d, 'ev'))
        p = subprocess.run([sys.executable, os.path.join(HERE, 'check_all.py')] + ps, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        return name, expect, p.stdout, None
    finally:
        shutil.rmtree(d)


def main():
    a = sys.argv[1:]
    ps = props()
    if '-p' in a:
        i = a.index('-p')
        ps = a[i + 1].split(',')
        del a[i:i + 2]
    V = runpy.run_path(a[0])['V']
    if len(a) > 1:
        V = [v for v in V if re.search(a[1], v[0])]
    bad = 0
    with ThreadPoolExecutor(5) as ex:
        for name, expect, out, err in ex.map(lambda v: one(v, ps), V):
            if err:
                print('ERR  ', name, err)
                bad += 1
                continue
            fired = set(re.findall(r'^VIOLATION property=(\w+)', out, re.M))
            broken = set(re.findall(r'^ANALYSIS-BROKEN property=(\w+)', out, re.M))
            okk = (not fired and not broken) if expect is None else bool(fired & set(expect)) and not broken
            print('ok   ' if okk else 'BAD  ', name, 'fired', sorted(fired), 'broken', sorted(broken), 'expect', expect)
            if not okk or os.environ.get('V'):
                bad += not okk
                print('\n'.join('      ' + l[:400] for l in out.splitlines() if ': rule ' in l or 'BROKEN' in l or 'Error' in l or 'error' in l)[:3000])
            sys.stdout.flush()
    print('bad', bad)


main()
