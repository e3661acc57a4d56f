from rule import *

MIN_OBLIGATIONS = 12
COUNTERS = {
    'cyclus::Agent::next_id_': ('cyclus::Agent::Agent',),
    'cyclus::Resource::nextstate_id_': ('cyclus::Resource::Resource', 'cyclus::Resource::BumpStateId'),
    'cyclus::Resource::nextobj_id_': ('cyclus::Resource::Resource',),
    'cyclus::Composition::next_id_': ('cyclus::Composition::Composition',),
    'cyclus::Product::next_qualid_': ('cyclus::Product::Create', 'cyclus::Product::CreateUntracked'),
    'cyclus::Context::trans_id_': ('cyclus::Context::NextTransactionID', 'cyclus::Context::Context'),
    'cyclus::CapacityConstraint::next_id_': ('cyclus::CapacityConstraint::CapacityConstraint',),
}
RESTORE = 'cyclus::SimInit::LoadNextIds'


def names(x):
    x = strip(x)
    if x['k'] in ('Ref', 'Mem'):
        return notmpl(x.get('n') or '')
    if x['k'] == 'Deref' or x['k'] == 'Addr':
        return names(x['e'])
    return ''


def check(c):
    P = c.P
    callers = {}
    for k, f in P.F.items():
        for x in walk(f.get('body') or {}):
            if x.get('k') in ('Call', 'Ctor') and x.get('f'):
                callers.setdefault(x['f'], set()).add(k)

    def roots(k, seen):
        """functions of the reference tree a function that is new to it works for"""
        f = P.F[k]
        if not P.basefns or f['sn'] in P.basefns or f.get('lambda'):
            return {notmpl(f['sn'])}
        out = set()
        for q in callers.get(k, ()):
            if q not in seen:
                seen.add(q)
                out |= roots(q, seen)
        return out or {notmpl(f['sn'])}

    sites = {n: [] for n in COUNTERS}
    for k, f in P.F.items():
        if f['file'].endswith('_tests.cc') or 'tests/' in f['file']:
            continue
        for x in walk(f.get('body') or {}):
            pass
        todo = [f.get('body')] + [i.get('e') for i in f.get('inits', []) or []]
        for i in f.get('inits', []) or []:
            if notmpl(i.get('m') or '') in COUNTERS:
                sites[notmpl(i['m'])].append((f, i, 'init'))
        for b in todo:
            for x in walk(b or {}):
                if x.get('k') == 'Asg' and names(x['x']) in COUNTERS:
                    sites[names(x['x'])].append((f, x, 'asg'))
                elif x.get('k') == 'Inc' and names(x['e']) in COUNTERS:
                    sites[names(x['e'])].append((f, x, x['op']))
                elif x.get('k') in ('Call', 'Ctor'):
                    # handed out by reference
                    ts = [p['t'] for p in P.F[x['f']].get('ps', [])] if x.get('f') in P.F else []
                    for i, a in enumerate(x.get('a', [])):
                        if i < len(ts) and ts[i].rstrip().endswith('&') and 'const' not in ts[i] and names(a) in COUNTERS:
                            sites[names(a)].append((f, x, 'ref'))
    for n, l in sites.items():
        c.ob('counter.drawn', n, any(o in ('++', 'asg') for _, _, o in l), 'nothing advances this counter', '')
        for f, x, o in l:
            ok = False
            rs = roots(f['key'], {f['key']})
            allowed = set(COUNTERS[n]) | {RESTORE}
            if n == 'cyclus::Context::trans_id_':
                allowed.add('cyclus::Context::Context')
            ok = rs <= allowed
            c.fns[f['key']] = f['file']
            c.ob('counter.writer', '%s in %s' % (n, notmpl(f['sn'])), ok, '%s changes the counter (%s); only %s may' % (
                ', '.join(sorted(rs)), o, ', '.join(sorted(allowed))), '%s:%s' % (f['file'], x.get('l', f['l'])))
