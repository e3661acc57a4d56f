#!/usr/bin/env python3
"""check.py --property Cxx [--tier quick|thorough]   decides one property of /repo's current tree.

exit 0: every obligation discharged (or listed as a known finding)
exit 1: VIOLATION property=<id> replay=<file>
exit 2: the analysis could not be carried out (does not parse, anchor vanished)
"""
import argparse
import importlib
import json
import os
import sys
import threading
import time
import traceback

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
sys.path[:0] = [os.path.join(HERE, 'lib'), os.path.join(HERE, 'rules'), HERE]


def known():
    p = os.path.join(VERIF, 'known_findings.json')
    if os.path.exists(p):
        with open(p) as f:
            return json.load(f)
    return {'findings': [], 'fixed': []}


CONTRACT = ('Function contracts (%d) compared with guarded-event summaries computed from the current source: for each function, with the '
            'helpers it calls inlined and loops recognised as traversals, the exact condition (a Boolean function over canonical atoms) under '
            'which each effect happens - field and container writes, calls with effects, output rows, exceptions, returned values - must equal '
            'the condition the contract states, each effect must happen at most once where stated, and effects, exceptions or early exits '
            'the contract does not state are violations.  ')


def explain(meta, mod, blocks):
    t = meta['rule'] or getattr(mod, 'RULE', '')
    return ((CONTRACT % blocks) if blocks else '') + t


def run(prop, tier, facts=None, quiet=False):
    import prep
    import engine
    import rule
    t0 = time.time()
    if facts is None:
        facts = prep.load()
    P = engine.Prog(facts)
    import props
    import spec
    meta = {q['id']: q for q in props.P}[prop]
    mod = None
    if os.path.exists('%s/rules/%s.py' % (HERE, prop.lower())):
        mod = importlib.import_module(prop.lower())
    c = rule.Ctx(P, prop, tier)
    c.facts = facts
    mn, blocks = getattr(mod, 'MIN_OBLIGATIONS', 0), 0
    if not (mod and getattr(mod, 'pre', lambda c: False)(c)) and os.path.exists('%s/rules/%s.spec' % (HERE, prop.lower())):
        blocks = spec.apply_file(c, prop.lower() + '.spec')
        mn += 1
    if mod:
        mod.check(c)
    broken = None
    bad = [o for o in c.obs if not o.ok]
    if not bad and len(c.obs) < mn:
        raise rule.AnalysisBroken('%s: only %d rule instances found, %d were confirmed by hand' % (prop, len(c.obs), mn))
    kf = [k for k in known().get('findings', []) if k['property'] == prop]
    kk = {k['key']: k for k in kf}
    lines = []
    hit = set()
    viol = []
    for o in bad:
        if o.key() in kk:
            hit.add(o.key())
        else:
            viol.append(o)
    for k in kf:
        if k['key'] in hit:
            lines.append('KNOWN-FINDING: property=%s %s' % (prop, k['what']))
    ev = {
        'property': prop, 'tier': tier, 'seed': int(os.environ.get('VERIF_SEED', '1')), 'level': 'other',
        'coverage': {
            'explanation': explain(meta, mod, blocks),
            'obligations': len(c.obs), 'discharged': len(c.obs) - len(bad),
            'functions_analysed': len(c.fns), 'program_functions': len(P.F), 'translation_units': len(facts.get('units', [])),
            'rules': sorted({o.rule for o in c.obs}),
            'samples': [{'rule': o.rule, 'instance': o.inst, 'ok': o.ok, 'where': o.loc, 'detail': o.detail[:300]} for o in c.obs[:400]],
            'functions': sorted('%s @ %s' % kv for kv in c.fns.items())[:200],
            'undecided': c.undecided, 'known_findings': sorted(hit), 'notes': c.notes,
            'tree_digest': facts.get('digest', ''),
        },
        'assumptions': list(meta['assume']) + getattr(mod, 'ASSUMPTIONS', []) + [
            'distinct object expressions (parameters, fields, call results) do not alias one another',
            'calls that are not looked into do not change the fields the rule speaks about, other than by their documented effect',
        ],
        'violations': len(viol), 'wall_s': round(time.time() - t0, 2),
    }
    ed = os.environ.get('CYCSA_EVID') or os.path.join(VERIF, 'evidence')
    os.makedirs(ed, exist_ok=True)
    with open(os.path.join(ed, prop + '.json'), 'w') as f:
        json.dump(ev, f, indent=1)
    rp = os.path.join(ed, prop + '.violations.txt')
    if viol:
        with open(rp, 'w') as f:
            for o in viol:
                f.write('%s\n  rule %s, instance %s\n  %s\n' % (o.loc, o.rule, o.inst, o.detail))
    elif os.path.exists(rp):
        os.unlink(rp)
    if not quiet:
        for l in lines:
            print(l)
        print('%s: %d obligations, %d discharged, %d functions of %d analysed, %.1f s' % (
            prop, len(c.obs), len(c.obs) - len(bad), len(c.fns), len(P.F), time.time() - t0))
        for o in viol[:40]:
            print('  %s: rule %s [%s]: %s' % (o.loc, o.rule, o.inst, o.detail))
        if viol:
            print('VIOLATION property=%s replay=%s' % (prop, rp))
    return viol, c


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('--property', required=True)
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
    a = ap.parse_args()
    if a.tier not in ('quick', 'thorough'):
        a.tier = 'quick'
    res = {}

    def body():
        try:
            v, c = run(a.property, a.tier)
            res['rc'] = 1 if v else 0
        except Exception as ex:
            traceback.print_exc()
            print('ANALYSIS-BROKEN property=%s %s' % (a.property, ex))
            res['rc'] = 2
    threading.stack_size(512 * 1024 * 1024)
    t = threading.Thread(target=body)
    t.start()
    t.join()
    sys.stdout.flush()
    sys.exit(res.get('rc', 2))


if __name__ == '__main__':
    main()
