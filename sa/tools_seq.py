#!/usr/bin/env python3
"""developer tool: (re)compute the seq lines of the given rules/*.spec files (all if none given) in place"""
import glob, os, re, sys, threading
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path[:0] = [os.path.join(HERE, 'lib')]
import prep, engine, spec, seqs


def body():
    P = engine.Prog(prep.load())

    class C:
        pass
    c = C()
    c.P, c.prop, c.fns, c.undecided = P, 'x', {}, []
    for fn in [os.path.join(HERE, 'rules', a.lower() + '.spec') for a in sys.argv[1:]] or sorted(glob.glob(HERE + '/rules/*.spec')):
        out = []
        cur = []

        def flush():
            if not cur:
                return
            b = spec.parse('\n'.join(cur))
            if b:
                S = spec.summary(c, b[0])
                if S is not None:
                    gs = [[e for e in S.evs() if l.rx.fullmatch(e.sig()) and e.loops == l.loops] for l in b[0]['lines']]
                    sq = ['%d<%d' % (i, j) for i, j, why in seqs.pairs(S, gs)]
                    if sq:
                        cur.append('  seq ' + ' '.join(sq))
            out.extend(cur)
            del cur[:]
        for l in open(fn).read().split('\n'):
            if l.startswith('fn'):
                flush()
            if l.strip().startswith('seq '):
                continue
            cur.append(l)
        while cur and not cur[-1].strip():
            cur.pop()
        flush()
        open(fn, 'w').write('\n'.join(out) + '\n')


threading.stack_size(512 * 1024 * 1024)
t = threading.Thread(target=body)
t.start()
t.join()
