from rule import *

RULE = ('Guarded-event summary of Timer::RunSim with every Timer method inlined.  For each phase of a time step the rule requires: '
        'the phase event (virtual call of the agent hook / exchange manager) occurs in exactly one complete traversal of the registered '
        'objects per iteration of the step loop, under no condition beyond the loop condition time<duration; the phases are ordered '
        'build<tick<exchange<tock<decision<decommission<clock advance; nothing leaves the traversals or the step loop early except the '
        'kill request after the clock advanced; snapshot and Finish row as specified.')
MIN_OBLIGATIONS = 30


def check(c):
    S = c.S('cyclus::Timer::RunSim')
    T = c.field('cyclus::Timer::time')
    D = c.field('cyclus::Timer::dur')
    ct = '~' + T
    LC = ge(D, ladd(ct, '1'), True)
    # the step loop is the loop around the clock write
    tw = S.find('set', re.escape(T))
    c.once('clock-advance', 'RunSim', S, tw, LC, loops=('while',))
    for e in tw:
        c.ob('clock-advance.value', 'RunSim', e.args == [ladd(ct, '1')], 'time becomes %s' % e.args, e.loc())

    def calls(name):
        return S.find('call', name)
    tick, tock = calls('cyclus::TimeListener::Tick'), calls('cyclus::TimeListener::Tock')
    dec = calls('cyclus::TimeListener::Decision')
    build, decom = calls('cyclus::Agent::Build'), calls('cyclus::Agent::Decommission')
    ex = [e for e in calls('cyclus::ExchangeManager::Execute')]
    # exchange: both resource kinds exactly once
    for kind in ('Material', 'Product'):
        k = [e for e in ex if '<%s>' % kind in e.obj or '<cyclus::%s>' % kind in e.obj]
        c.once('exchange', kind, S, k, LC, loops=('while',))
    c.ob('exchange.only', 'RunSim', len(ex) == 2, '%d exchange executions per step' % len(ex), ex[0].loc() if ex else '')
    # registration containers
    R = c.S('cyclus::Timer::RegisterTimeListener')
    adds = [e for e in R.evs() if e.kind in ('add', 'put') and e.args and e.args[-1] == '$0']
    conts = sorted({e.obj for e in adds})
    for nm, evs in (('Tick', tick), ('Tock', tock), ('Decision', dec)):
        by = {}
        for e in evs:
            key = e.loops[-1] if e.loops else '<none>'
            by.setdefault(key, []).append(e)
        for cont, l in by.items():
            c.once('phase-delivery', '%s over %s' % (nm, cont), S, l, LC, loops=('while', cont))
            for e in l:
                c.ob('phase-target', '%s over %s' % (nm, cont), e.obj in ('elem(%s)' % cont, 'elem(%s).second' % cont),
                     'called on %s' % e.obj, e.loc())
            c.ob('phase-source', '%s over %s' % (nm, cont), cont in conts, '%s is not filled by RegisterTimeListener %s' % (cont, conts), l[0].loc())
        # the traversed containers partition the registered listeners
        tot = 0
        dis = True
        for cont in by:
            g = c.cond_total([e for e in adds if e.obj == cont])
            dis = dis and disjoint(tot, g)
            tot = Or(tot, g)
        c.ob('phase-complete', nm, equiv(tot, 1), 'listeners reached by %s: registered if [%s]' % (nm, B.s(tot)), evs[0].loc() if evs else S_loc(S))
        c.ob('phase-unique', nm, dis, 'a listener can be in two traversed containers', evs[0].loc() if evs else S_loc(S))
    # scheduled builds / decommissions of this step
    BQ = sorted({e.obj.split('[')[0] for e in c.S('cyclus::Timer::SchedBuild').evs() if e.kind == 'add'})
    DQ = sorted({e.obj.split('[')[0] for e in c.S('cyclus::Timer::SchedDecom').evs() if e.kind == 'add'})
    if len(BQ) != 1 or len(DQ) != 1:
        raise AnalysisBroken('C01: schedule queues not identified %s %s' % (BQ, DQ))
    c.once('phase-build', 'Build', S, build, LC, loops=('while', '%s[%s]' % (BQ[0], ct)))
    c.once('phase-decommission', 'Decommission', S, decom, LC, loops=('while', '%s[%s]' % (DQ[0], ct)))
    # order
    seq = [('build', build), ('tick', tick), ('exchange', ex), ('tock', tock), ('decision', dec), ('decommission', decom), ('clock', tw)]
    for (a, x), (b, y) in zip(seq, seq[1:]):
        c.order('phase-order', '%s<%s' % (a, b), S, x, y)
    # early exits
    for e in S.evs():
        if e.kind in ('break', 'ret', 'throw') and e.loops and e.loops[0] == 'while':
            if e.kind == 'break' and e.loops == ('while',):
                kill = kills(c)
                c.ob('kill-exit', 'RunSim', equiv(e.guard, And(LC, A(kill))), 'leaves the step loop if [%s]' % B.s(e.guard), e.loc())
                c.order('kill-exit.after-step', 'RunSim', S, tw, [e])
            elif set(e.loops[1:]) & set(x.loops[-1] for x in tick + tock + dec + build + decom):
                c.ob('no-early-exit', e.kind, False, '%s inside a phase traversal if [%s]' % (e.kind, B.s(e.guard)), e.loc())
    kb = [e for e in S.evs() if e.kind == 'break' and e.loops == ('while',)]
    c.ob('kill-honoured', 'RunSim', len(kb) == 1, 'the step loop has %d early exits' % len(kb), S_loc(S))
    # snapshots
    sn = S.find('call', 'cyclus::SimInit::Snapshot')
    start = [e for e in sn if e.loops == ('while',)]
    end = [e for e in sn if e.loops == ()]
    want = wants(c)
    c.once('snapshot-on-request', 'RunSim', S, start, And(LC, A('~' + want)), loops=('while',))
    clr = [e for e in S.find('set', re.escape(want))]
    c.once('snapshot-request-cleared', 'RunSim', S, clr, And(LC, A('~' + want)))
    c.ob('snapshot-request-cleared.value', 'RunSim', all(e.args == ['false'] for e in clr), '', clr[0].loc() if clr else '')
    c.order('snapshot-before-phases', 'RunSim', S, start, build)
    c.once('snapshot-final', 'RunSim', S, end, 1, loops=())
    # Finish row
    r = rows(S, 'Finish')
    c.once('finish-row', 'Finish', S, r.rec, 1, loops=())
    c.ob('finish-earlyterm', 'Finish', list(r.col('EarlyTerm')) == [kills(c)], 'EarlyTerm = %s' % list(r.col('EarlyTerm')), S_loc(S))
    if r.rec:
        n = r.rec[0].node
        now = {t: g for g, t in S.vat(('M', T), n, T, 0)}
        want = sorted(ladd(t, '1', -1) for t in now)
        got = sorted(r.col('EndTime'))
        c.ob('finish-endtime', 'Finish', got == want, 'EndTime = %s, required time-1 = %s' % (got, want), r.rec[0].loc())
        c.order('finish-order', 'Finish<Snapshot', S, r.rec, end)


def kills(c):
    S = c.S('cyclus::Timer::KillSim')
    w = [e for e in S.evs() if e.kind == 'set']
    if len(w) != 1:
        raise AnalysisBroken('C01: kill flag not identified')
    return w[0].name


def wants(c):
    S = c.S('cyclus::Timer::Snapshot')
    w = [e for e in S.evs() if e.kind == 'set']
    if len(w) != 1:
        raise AnalysisBroken('C01: snapshot flag not identified')
    return w[0].name
