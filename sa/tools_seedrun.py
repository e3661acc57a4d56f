#!/usr/bin/env python3
"""developer tool: which checks fire on each seeded change. usage: tools_seedrun.py [id ...] [-a all properties]"""
import json, os, re, shutil, subprocess, sys, tempfile
from concurrent.futures import ThreadPoolExecutor
HERE = os.path.dirname(os.path.abspath(__file__))
S = os.path.join(os.path.dirname(HERE), 'seeded')


def one(i):
    d = tempfile.mkdtemp(prefix='mut_', dir='/var/tmp')
    try:
        r = d + '/r'
        prop = json.load(open('%s/%s/meta.json' % (S, i)))['property']
        subprocess.run(['git', 'clone', '-q', '-s', '/repo', r], check=True)
        q = subprocess.run(['git', '-C', r, 'apply', '%s/%s/patch.diff' % (S, i)])
        if q.returncode:
            return i, prop, 'DOES NOT APPLY', ''
        env = dict(os.environ, CYCSA_REPO=r, CYCSA_MEMO=os.path.join(HERE, 'cache'), CYCSA_CACHE=d + '/cache', CYCSA_EVID=d + '/ev')
        a = [sys.executable, HERE + '/check_all.py'] + ([prop] if '-1' in sys.argv else [])
        p = subprocess.run(a, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        f = sorted(set(re.findall(r'^VIOLATION property=(\w+)', p.stdout, re.M)))
        b = sorted(set(re.findall(r'^ANALYSIS-BROKEN property=(\w+)', p.stdout, re.M)))
        return i, prop, 'fired %s %s' % (f, 'BROKEN %s' % b if b else ''), p.stdout
    finally:
        shutil.rmtree(d)


ids = [a for a in sys.argv[1:] if a[0] != '-'] or sorted(os.listdir(S))
n = 0
with ThreadPoolExecutor(5) as ex:
    for i, p, t, o in ex.map(one, ids):
        ok = "'%s'" % p in t
        n += ok
        print('caught' if ok else 'MISSED', i, p, t, flush=True)
        if os.environ.get('V'):
            print('\n'.join('   ' + l[:300] for l in o.splitlines() if ': rule ' in l or 'Error' in l))
print(n, 'of', len(ids))
