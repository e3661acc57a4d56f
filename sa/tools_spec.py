#!/usr/bin/env python3
"""developer tool: draft a spec file: tools_spec.py C04 PATTERN[@STOPREGEX] ... > rules/c04.spec
PATTERN is matched (fullmatch) against the unqualified-template function name without `cyclus::`; Product instantiations are skipped
unless the pattern starts with '='"""
import sys, os, re, threading
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path[:0] = [os.path.join(HERE, 'lib'), HERE]
import prep, engine, tools_gen, spec


def body():
    P = engine.Prog(prep.load())
    seen = set()
    for pat in sys.argv[1:]:
        stop = None
        if pat.startswith('%'):
            for n in sorted(P.G):
                if re.fullmatch(pat[1:], n.replace('cyclus::', '')):
                    v = spec.initval(P, n)
                    if v is not None:
                        print('init %s = %s' % (n, v))
            continue
        both = pat.startswith('=')
        pat = pat.lstrip('=')
        if '@' in pat:
            pat, stop = pat.split('@')
        hit = 0
        cut = None
        if '#' in pat:
            pat, cut = pat.split('#', 1)
        for k, f in sorted(P.F.items(), key=lambda kv: (kv[1]['file'], kv[1]['l'], kv[0])):
            if not f.get('body') or not re.fullmatch(pat, f['sn'].replace('cyclus::', '')):
                continue
            hit += 1
            if cut is not None:
                for lb in engine.slice_labels(f):
                    if re.fullmatch(cut, lb):
                        print('\n'.join(tools_gen.gen(P, engine.slice_of(P, f, lb), stop)))
                continue
            if '<' in k.split('(')[0] and not both:
                kk = (f['file'], f['l'])
                if kk in seen:
                    continue
                seen.add(kk)
            print('\n'.join(tools_gen.gen(P, f, stop)))
        if not hit:
            print('### NOTHING MATCHES', pat, file=sys.stderr)


threading.stack_size(512 * 1024 * 1024)
t = threading.Thread(target=body)
t.start()
t.join()
