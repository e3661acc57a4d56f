#!/usr/bin/env python3
"""developer tool: mutation sweep.  tools_sweep.py OUT N [seed] [file-regex]
Mutates single lines of the functions under contract, runs the checks that own them, prints survivors."""
import os, re, sys, random, subprocess, tempfile, shutil, threading, json
from concurrent.futures import ThreadPoolExecutor
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path[:0] = [os.path.join(HERE, 'lib'), HERE]
import prep, engine, props

OPS = [(r'==', '!='), (r'!=', '=='), (r'(?<![<\-])<(?![<=\w:])', '<='), (r'(?<![>\-])>(?![>=(\w:;.])', '>='), (r'<=', '<'), (r'>=', '>'),
       (r'&&', '||'), (r'\|\|', '&&'), (r' \+ ', ' - '), (r' - ', ' + '), (r' \* ', ' + '), (r' / ', ' * '), (r'\+=', '-='), (r'-=', '+='),
       (r'\btrue\b', 'false'), (r'\bfalse\b', 'true'), (r'(?<=[ (,])0(?=[ ;),])', '1'), (r'(?<=[ (,])1(?=[ ;),])', '2'), (r'!(?=[\w(])', ''),
       (r'"([^"%\\]+)"', r'"\1x"'), (r'\bbegin\(\)', 'end()'), (r'\bmin\b(?=\()', 'max'), (r'\bmax\b(?=\()', 'min'), (r'\.first\b', '.second'), (r'->second\b', '->first'),
       (r'\bcontinue;', 'break;'), (r'\bbreak;', 'continue;'), (r'\bbreak;', ';'), (r'\breturn;', ';')]


def owners():
    o = {}
    for q in props.P:
        p = os.path.join(HERE, 'rules', q['id'].lower() + '.spec')
        if os.path.exists(p):
            for l in open(p):
                if l.startswith('fn '):
                    o.setdefault(l[3:].split('|')[0].strip(), set()).add(q['id'])
    return o


def lines_of(x, acc):
    if isinstance(x, dict):
        if isinstance(x.get('l'), int):
            acc.append(x['l'])
        for v in x.values():
            lines_of(v, acc)
    elif isinstance(x, list):
        for v in x:
            lines_of(v, acc)


def cands(rx):
    P = engine.Prog(prep.load())
    own = owners()
    out, seen = [], set()
    for k, f in P.F.items():
        if not f.get('body') or rx and not re.search(rx, f['file']):
            continue
        ps = own.get(f['sn']) or own.get(f['n']) or own.get(re.sub(r'<[^<>]*>', '', f['n'])) or next((v for n, v in own.items() if re.sub(r'<.*>', '', n) == re.sub(r'<.*>', '', f['n'])), None)
        if not ps or not f['file'].startswith('src/'):
            continue
        acc = []
        lines_of(f['body'], acc)
        lo, hi = f['l'], max(f.get('le') or 0, f['l'])
        src = open(os.path.join('/repo', f['file'])).read().split('\n')
        if hi - lo > 900:
            continue
        for i in range(lo, hi + 1):
            t = src[i - 1] if i <= len(src) else ''
            if re.match(r'\s*(//|\*|#)', t) or re.search(r'LOG\(|Warn<|assert', t) or '<<' in t:
                continue
            code = t.split('//')[0].rstrip()
            if re.match(r'^\s+[\w\->.\[\]():*&+]+(\s*(=|\+=|-=)\s*[^;]*|\([^;]*\)|\+\+)?;$', code) and not re.match(r'\s*(return|break|continue|throw|else|case|delete|using)\b', code) \
                    and not re.match(r'\s*[\w:<>,* &]+\s+\w+\s*(=[^=].*)?;$', code) and re.search(r'[;{})]\s*$|^\s*$|^\s*//|:$', src[i - 2]):
                key = (f['file'], i, 'del')
                if key not in seen:
                    seen.add(key)
                    out.append((f['file'], i, 'del', re.match(r'\s*', t).group(0) + ';', sorted(ps), f['sn']))
            for rxo, rep in OPS:
                for m in list(re.finditer(rxo, code))[:2]:
                    if rxo[0] != '"' and code[:m.start()].count('"') % 2:
                        continue
                    new = code[:m.start()] + m.expand(rep) + code[m.end():]
                    key = (f['file'], i, new)
                    if key not in seen and new != code:
                        seen.add(key)
                        out.append((f['file'], i, '%s -> %s' % (m.group(0), m.expand(rep)), new, sorted(ps), f['sn']))
    return out


def one(c):
    f, i, op, new, ps, fn = c
    d = tempfile.mkdtemp(prefix='mut_', dir='/var/tmp')
    try:
        r = os.path.join(d, 'r')
        subprocess.run(['git', 'clone', '-q', '-s', '/repo', r], check=True)
        p = os.path.join(r, f)
        s = open(p).read().split('\n')
        old = s[i - 1]
        s[i - 1] = new
        open(p, 'w').write('\n'.join(s))
        env = dict(os.environ, CYCSA_REPO=r, CYCSA_MEMO=os.path.join(HERE, 'cache'), CYCSA_CACHE=os.path.join(d, 'cache'), CYCSA_EVID=os.path.join(d, 'ev'))
        p = subprocess.run([sys.executable, os.path.join(HERE, 'check_all.py')] + ps, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if re.search(r'^VIOLATION', p.stdout, re.M):
            return 'killed', c, old
        if 'ANALYSIS-BROKEN' in p.stdout or 'rror' in p.stdout:
            return 'broken', c, old
        return 'SURVIVED', c, old
    except Exception as ex:
        return 'exc %r' % ex, c, ''
    finally:
        shutil.rmtree(d)


def main():
    out, n = sys.argv[1], int(sys.argv[2])
    seed = int(sys.argv[3]) if len(sys.argv) > 3 else 1
    cs = cands(sys.argv[4] if len(sys.argv) > 4 else None)
    print(len(cs), 'candidates')
    random.Random(seed).shuffle(cs)
    cs = cs[:n]
    cnt = {}
    with open(out, 'w') as fh, ThreadPoolExecutor(int(os.environ.get('J', '6'))) as ex:
        for st, c, old in ex.map(one, cs):
            cnt[st] = cnt.get(st, 0) + 1
            fh.write('%s %s:%d %s [%s] %s\n      %s\n' % (st, c[0], c[1], c[5], ','.join(c[4]), c[2], old.strip()))
            fh.flush()
    print(cnt)


threading.stack_size(512 * 1024 * 1024)
t = threading.Thread(target=main)
t.start()
t.join()
