"""Obligation bookkeeping and the rule vocabulary shared by all properties."""
import re
import time
from engine import notmpl, short, walk, strip
from summ import (Summary, B, rel_bdd, truth, equiv, implies, disjoint, one_s, ladd, lin_of, lmul, care)


class AnalysisBroken(Exception):
    pass


class Ob:
    __slots__ = ('rule', 'inst', 'ok', 'detail', 'loc')

    def __init__(self, rule, inst, ok, detail, loc):
        self.rule, self.inst, self.ok, self.detail, self.loc = rule, inst, ok, detail, loc

    def key(self):
        return '%s|%s' % (self.rule, self.inst)


def ge(a, b, i=False):
    return rel_bdd('>=', a, b, i)


def gt(a, b, i=False):
    return rel_bdd('>', a, b, i)


def lt(a, b, i=False):
    return rel_bdd('<', a, b, i)


def le(a, b, i=False):
    return rel_bdd('<=', a, b, i)


def eq(a, b):
    return rel_bdd('==', a, b, False)


def A(s):
    return truth(s)


And, Or, Not = B.And, B.Or, B.Not


class Ctx:
    def __init__(self, prog, prop, tier):
        self.P = prog
        self.prop = prop
        self.tier = tier
        self.obs = []
        self.fns = {}
        self.undecided = []
        self.notes = []
        self._s = {}
        self.sites = 0

    # ---- program access
    def fn(self, name, pred=None, need=True):
        c = [f for f in self.P.fns(name) if f.get('body') and (pred is None or pred(f))]
        if len(c) != 1:
            if need:
                raise AnalysisBroken('%s: expected one definition of %s, found %d' % (self.prop, name, len(c)))
            return c[0] if c else None
        return c[0]

    def fnp(self, name, *types):
        """definition whose parameter types contain the given substrings in order"""
        def ok(f):
            ps = f.get('ps', [])
            return len(ps) == len(types) and all(t in p['t'] for t, p in zip(types, ps))
        return self.fn(name, ok)

    def S(self, f, **kw):
        if isinstance(f, str):
            f = self.fn(f)
        k = (f['key'], tuple(sorted((a, str(b)) for a, b in kw.items())))
        if k not in self._s:
            self._s[k] = Summary(self.P, f, **kw)
            self._s[k].evs()
            self.fns[f['key']] = '%s:%s' % (f['file'], f['l'])
            for i in self._s[k].g.inlined:
                g = self.P.F.get(i)
                if g:
                    self.fns.setdefault(i, '%s:%s' % (g['file'], g['l']))
        return self._s[k]

    def field(self, accessor, base='this'):
        """canonical term an accessor returns (role of a private member)"""
        S = self.S(accessor)
        r = [e for e in S.evs() if e.kind == 'ret']
        if len(r) != 1:
            raise AnalysisBroken('%s: accessor %s is not a plain accessor any more' % (self.prop, accessor))
        t = r[0].args[0]
        return re.sub(r'\bthis\b', base, t) if base != 'this' else t

    # ---- obligations
    def ob(self, rule, inst, ok, detail='', loc=''):
        self.obs.append(Ob(rule, inst, bool(ok), detail, loc))
        return bool(ok)

    def und(self, what):
        self.undecided.append(what)

    def guard(self, rule, inst, ev, want, mode='equiv'):
        """condition of an event"""
        f = {'equiv': equiv, 'implies': implies}[mode]
        ok = f(ev.guard, want)
        return self.ob(rule, inst, ok, '%s happens if [%s], required %s[%s]' % (ev.sig()[:200], B.s(ev.guard)[:400],
                       '' if mode == 'equiv' else 'to imply ', B.s(want)[:400]), ev.loc())

    def rows(self, S, table):
        return rows(S, table)

    def cond_total(self, evs):
        r = 0
        for e in evs:
            r = Or(r, e.guard)
        return r

    def once(self, rule, inst, S, evs, want, loops=None, loc=None):
        """the events together happen exactly once whenever `want` holds, and never otherwise"""
        loc = evs[0].loc() if evs else (loc or S_loc(S))
        if not evs:
            return self.ob(rule, inst, False, 'no such event in %s' % S.root['sn'], loc)
        tot = self.cond_total(evs)
        ok = equiv(tot, want)
        self.ob(rule, inst, ok, 'happens if [%s], required [%s]' % (B.s(tot)[:400], B.s(want)[:400]), loc)
        for i in range(len(evs)):
            for j in range(i):
                if not disjoint(evs[i].guard, evs[j].guard) and evs[i].loops == evs[j].loops and evs[i].node is not evs[j].node:
                    self.ob(rule + '.once', inst, False, 'can happen twice: %s and %s' % (evs[j].loc(), evs[i].loc()), evs[i].loc())
                    ok = False
        if loops is not None:
            for e in evs:
                if e.loops != tuple(loops):
                    self.ob(rule + '.traversal', inst, False, 'runs in loops %s, required %s' % (list(e.loops), list(loops)), e.loc())
                    ok = False
        return ok

    def order(self, rule, inst, S, first, second):
        bad = None
        for a in first:
            for b in second:
                if not S.before(a, b) and not disjoint(a.guard, b.guard):
                    bad = (a, b)
        if not first or not second:
            return self.ob(rule, inst, False, 'event missing in %s' % S.root['sn'], S_loc(S))
        return self.ob(rule, inst, bad is None, '' if bad is None else '%s (%s) is not ordered before %s (%s)' % (
            bad[0].sig()[:120], bad[0].loc(), bad[1].sig()[:120], bad[1].loc()), (bad[1] if bad else second[0]).loc())

    def throws(self, rule, inst, S, want, exc=None, what=''):
        """S throws (exc) exactly when want (over the entry state)"""
        t = S.find('throw', exc)
        return self.once(rule, inst, S, t, want)


def S_loc(S):
    return '%s:%s (%s)' % (S.root['file'], S.root['l'], S.root['sn'])


class Row:
    def __init__(self, table, new, cols, rec):
        self.table, self.new, self.cols, self.rec = table, new, cols, rec

    def col(self, name):
        """{value: guard}"""
        d = {}
        for e in self.cols:
            if e.args[0] == '"%s"' % name:
                v = e.args[1] if len(e.args) > 1 else '?'
                d[v] = Or(d.get(v, 0), e.guard)
        return d

    def names(self):
        out = []
        for e in self.cols:
            if e.args[0] not in out:
                out.append(e.args[0])
        return out

    def guard(self):
        r = 0
        for e in self.rec:
            r = Or(r, e.guard)
        return r


NEWD = re.compile(r'NewDatum\((".*?")\)$')


def rows(S, table):
    """output rows of a table written by S (all NewDatum/AddVal/Record of that table merged)"""
    q = '"%s"' % table
    new = [e for e in S.evs() if e.kind == 'call' and e.name.endswith('Recorder::NewDatum') and e.args and e.args[0] == q]
    cols = [e for e in S.evs() if e.kind == 'call' and e.name == 'cyclus::Datum::AddVal' and e.obj.endswith('NewDatum(%s)' % q)]
    rec = [e for e in S.evs() if e.kind == 'call' and e.name == 'cyclus::Datum::Record' and e.obj.endswith('NewDatum(%s)' % q)]
    return Row(table, new, cols, rec)
