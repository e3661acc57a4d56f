#!/usr/bin/env python3
"""developer tool: print the guarded-event summary of functions as contract text
tools_gen.py [-f] [-s STOPREGEX] REGEX...    (-f: regexes select files; one output per file in /tmp/dumps)"""
import sys, os, re, threading, time
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path[:0] = [os.path.join(HERE, 'lib')]
import prep, engine, summ, spec, seqs
from summ import B, effect


# calls outside the program's own code that a contract keeps
KEEP = re.compile(r'^(sqlite3_|H5|mem(cpy|move|set)$|str(n?cpy|n?cat)$|dl(open|close|sym)|xmlRelaxNG|xmlpp(?!.*::(get_\w+|find)$)|(Osi|Coin|Cbc|Clp)(?!.*::(setLogLevel|get\w+|messageHandler|logLevel|isInteger)$)|Json::Value::append|pyne::(?!nucname|atomic_mass|decay_const))|'
                  r'std::.*::(resize|assign|swap|push|pop|merge|splice|sort|reset|seed|discard|unique|reverse|precision)$|boost::.*::(reset|swap|seed|process_bytes)$|std::(sort|stable_sort|reverse|swap)')


def gen(P, f, stop=None, lim=100000):
    L = []
    S = spec.summarise(P, f, stop)
    amb = len([x for x in P.fns(f['sn']) if x.get('body')]) > 1
    nm = f['n'] if '<' in f['n'] else f['sn']
    if amb and f['key'].startswith(f['n'] + '<'):
        nm = f['key'][:f['key'].index('>(') + 1] if '>(' in f['key'] else nm
    L.append('fn %s%s' % (nm, ' | ' + ('; '.join(p['t'] for p in f['ps']) + (' const' if f.get('const') else '')).strip() if amb else ''))
    if stop:
        L.append('  stop: ' + stop)
    for i, v in spec.defaults(S):
        L.append('  default %d = %s' % (i, v))
    seen, nodes, rep = {}, {}, set()
    evs = S.evs()
    for e in evs:
        if e.kind in ('ctor', 'new'):
            continue
        if e.kind in ('call', 'set', 'put', 'add', 'del') and effect(P, e) == 0:
            continue
        if e.kind == 'call' and effect(P, e) == 1 and not KEEP.search(e.name):
            continue
        if e.kind == 'break' and not spec.world(None, S, e, evs):
            continue
        kk = (e.loops, e.sig())
        seen[kk] = B.Or(seen.get(kk, 0), e.guard)
        for x in nodes.setdefault(kk, []):
            if x.node is not e.node and not summ.disjoint(x.guard, e.guard) and (e.kind in ('add', 'delete') or e.kind == 'call' and effect(P, e) == 2):
                rep.add(kk)
        nodes[kk].append(e)
    if ((), 'ret return(true)') in seen and ((), 'ret return(false)') in seen and not any(lp and sg.startswith('ret ') for lp, sg in seen):
        del seen[((), 'ret return(false)')]
    sq = ['%d<%d' % (i, j) for i, j, why in seqs.pairs(S, [nodes[k] for k in seen])]
    for (lp, sg), g in seen.items():
        L.append('  %s%s%s IF %s' % ('* ' if (lp, sg) in rep else '', ''.join('[for %s] ' % x for x in lp), sg, B.s(g, lim)))
    txt = '\n'.join(L)
    for t in sorted(S.carries()):
        if t not in txt and len(t) < 3000:
            L.append('  carry ' + t)
    for t in sorted({B.s(g, lim) for g, _ in S.leavings()}):
        L.append('  leave ' + t)
    oq = spec.opaque(spec.codetext(S)) - spec.opaque('\n'.join(L))
    if oq:
        L.append('  opaque ' + ' '.join(sorted(oq)))
    if sq:
        L.append('  seq ' + ' '.join(sq))
    return L


def body():
    P = engine.Prog(prep.load())
    args = sys.argv[1:]
    byfile = '-f' in args
    args = [a for a in args if a != '-f']
    stop = None
    if '-s' in args:
        i = args.index('-s')
        stop = args[i + 1]
        del args[i:i + 2]
    outs = {}
    for pat in args:
        for k, f in sorted(P.F.items(), key=lambda kv: (kv[1]['file'], kv[1]['l'])):
            if not f.get('body') or not re.search(pat, f['file'] if byfile else k):
                continue
            if byfile and f['file'].startswith('src/hdf5_back'):
                continue
            L = gen(P, f, stop)
            if byfile:
                outs.setdefault(f['file'], []).extend(L)
            else:
                print('\n'.join(L))
                sys.stdout.flush()
    if byfile:
        os.makedirs('/tmp/dumps', exist_ok=True)
        for fl, L in outs.items():
            with open('/tmp/dumps/' + fl.replace('/', '_') + '.txt', 'w') as fh:
                fh.write('\n'.join(L) + '\n')


if __name__ == '__main__':
    threading.stack_size(512 * 1024 * 1024)
    t = threading.Thread(target=body)
    t.start()
    t.join()
