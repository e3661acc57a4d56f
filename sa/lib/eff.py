"""Transitive read / write effects of functions, as access paths.

An effect is (root, path, field): `root` is 'this', 'p<i>' (a parameter passed by reference or pointer), 'g' (a global) or '?'
(some object the analysis does not name); `path` the member path from the root ('tracker_.parent1_'), `field` the qualified
name of the last member.  Calls are followed through the call graph, virtual ones through every override.
"""
import re
from engine import strip, short, notmpl, MUTATORS, STDNS

DEPTH = 3
STDEFF = {'sort', 'stable_sort', 'reverse', 'random_shuffle', 'shuffle', 'transform', 'copy', 'fill', 'swap', 'iter_swap', 'unique',
          'remove', 'remove_if', 'rotate', 'partition', 'nth_element', 'generate'}
PTR = re.compile(r'[*&]\s*$|\b(?:shared_ptr|intrusive_ptr|unique_ptr|weak_ptr)<|\bPtr$')
UNK = ('?', ())


class Eff:
    def __init__(self, P):
        self.P = P
        self.loc = {}
        self.res = {}
        self.types = {}
        self.callers = {}
        self._static = None

    # ------------------------------------------------------------- paths
    def path(self, e, env, d=0):
        """(root, (m, ...), field or None) of an lvalue / pointer expression"""
        if e is None or d > 12:
            return UNK + (None,)
        e = strip(e)
        k = e['k']
        if k in ('This', 'ThisPtr'):
            return ('this', (), None)
        if k in ('Deref', 'Addr', 'Cast'):
            return self.path(e['e'], env, d + 1)
        if k == 'Mem':
            r, p, _ = self.path(e['b'], env, d + 1)
            self.types.setdefault(e['n'], e.get('t', ''))
            if r in ('?', 'l') or len(p) >= DEPTH or p and p[-1] == '[]':
                return ('l' if r == 'l' else '?', (), e['n'])
            return (r, p + (e['m'],), e['n'])
        if k == 'Idx':
            r, p, f = self.path(e['b'], env, d + 1)
            if p and p[-1] == '[]':
                return (r, p, f)
            return (r, p + ('[]',), f)
        if k == 'Ref':
            if e.get('s') == 'global' or e.get('s') == 'static':
                return ('g', (e['n'],), e['n'])
            v = env.get(e.get('d'))
            if v is None:
                return UNK + (None,)
            if v[0] == 'p':
                return (v[1], (), None)
            if v[0] == 'i':
                if v[1] is None:
                    return ('l', (), None)
                env2 = dict(env)
                env2.pop(e.get('d'), None)
                return self.path(v[1], env2, d + 1)
            if v[0] == 'l':
                return ('l', (), None)      # a local object
            return UNK + (None,)
        if k == 'Call':
            f = e.get('f')
            n = short(e.get('n') or '')
            if (e.get('n') or '').startswith(STDNS):
                if e.get('o') is not None and n in ('get', 'operator->', 'operator*'):
                    return self.path(e['o'], env, d + 1)
                if e.get('o') is not None and n in ('begin', 'end', 'at', 'find', 'front', 'back', 'rbegin', 'rend', 'lower_bound', 'upper_bound'):
                    r, p, f = self.path(e['o'], env, d + 1)
                    if p and p[-1] == '[]':
                        return (r, p, f)
                    return (r, p + ('[]',), f)
                if 'pointer_cast' in n and e.get('a'):
                    return self.path(e['a'][0], env, d + 1)
                return UNK + (None,)
            t = self.P.trivial(f) if f in self.P.F and not (e.get('virt') and not e.get('qual') and len(self.P.impls(f)) != 1) else None
            if t is not None:
                tf, te = t
                env2 = {}
                for i, q in enumerate(tf.get('ps', [])):
                    env2[q['d']] = ('p', 'p%d' % i)
                r, p, q = self.path(te, env2, d + 1)
                return self.subst((r, p, q), e, env, d)
            return UNK + (None,)
        return UNK + (None,)

    def subst(self, eff, call, env, d=0):
        """a callee's effect in the caller's terms"""
        r, p, f = eff
        if r == 'this':
            o = call.get('o')
            b = self.path(o, env, d + 1) if o is not None else ('this', (), None)
        elif r[0] == 'p':
            i = int(r[1:])
            a = call.get('a', [])
            b = self.path(a[i], env, d + 1) if i < len(a) else UNK + (None,)
        else:
            return eff
        if not p and not f:
            return b
        if b[0] == 'l':
            return ('l', (), f)
        if b[0] == '?' or b[1] and b[1][-1] == '[]' or len(b[1]) + len(p) > DEPTH:
            return ('?', (), f)
        return (b[0], b[1] + p, f or b[2])

    # ------------------------------------------------------------- one function
    def local(self, key):
        f = self.P.F[key]
        env = {}
        for i, q in enumerate(f.get('ps', [])):
            env[q['d']] = ('p', 'p%d' % i) if PTR.search(q['t']) else ('l',)
        R, W, C = set(), set(), []

        def rd(e):
            x = self.path(e, env)
            if x[2] and x[0] != 'l':
                R.add((x[0], tuple(m for m in x[1] if m != '[]'), x[2]))

        def wr(e):
            x = self.path(e, env)
            if x[0] == 'l':
                return
            if x[2]:
                W.add((x[0], tuple(m for m in x[1] if m != '[]'), x[2]))
            elif x[0][0] == 'p' and f['ps'][int(x[0][1:])]['t'].rstrip().endswith('&'):
                W.add((x[0], (), None))

        def rec(x):
            if isinstance(x, list):
                for v in x:
                    rec(v)
                return
            if not isinstance(x, dict):
                return
            k = x.get('k')
            if k == 'Decl':
                for v in x.get('v', []):
                    rec(v.get('i'))
                    if PTR.search(v.get('t', '')) or 'iterator' in v.get('t', '').lower():
                        env[v['d']] = ('i', v.get('i'))
                    else:
                        env[v['d']] = ('l',)
                    for b in v.get('binds') or []:
                        env[b.get('d') if isinstance(b, dict) else b] = ('u',)
                return
            if k == 'RFor':
                rec(x.get('r'))
                v = x.get('v') or {}
                for q in (v if isinstance(v, list) else [v]):
                    if isinstance(q, dict) and 'd' in q:
                        env[q['d']] = ('u',)
                        for b in q.get('binds') or []:
                            env[b.get('d') if isinstance(b, dict) else b] = ('u',)
                rec(x.get('b'))
                return
            if k == 'Asg':
                wr(x['x'])
                if x.get('op') != '=':
                    rd(x['x'])
                rec(strip(x['x']).get('b'))
                rec(strip(x['x']).get('i'))
                rec(x['y'])
                return
            if k == 'Inc':
                wr(x['e'])
                rd(x['e'])
                rec(strip(x['e']).get('b'))
                return
            if k == 'Mem':
                rd(x)
                rec(x.get('b'))
                return
            if k == 'Ref' and x.get('s') in ('global', 'static'):
                rd(x)
                return
            if k == 'Call':
                full = x.get('n') or ''
                n = short(full)
                if full.startswith(STDNS):
                    if x.get('o') is not None and n in MUTATORS and not (n == 'str' and not x.get('a')):
                        wr(x['o'])
                    elif x.get('o') is None and n in STDEFF:
                        for a in x.get('a', []):
                            wr(a)
                elif x.get('f'):
                    C.append(x)
                for a in x.get('a', []):
                    rec(a)
                rec(x.get('o'))
                rec(x.get('fe'))
                return
            if k == 'Ctor' and x.get('f') in self.P.F:
                C.append(dict(x, o={'k': 'Int', 'v': '0'}))
            for v in x.values():
                if isinstance(v, (dict, list)):
                    rec(v)
        for i in f.get('inits') or []:
            rec(i.get('e'))
        rec(f.get('body'))
        return R, W, C, env

    def callees(self, x, file):
        P = self.P
        k = x.get('f')
        if k not in P.F:
            if k + '@' + file in P.F:
                k = k + '@' + file
        if x.get('virt') and not x.get('qual'):
            return [f['key'] for f in P.impls(k) if f.get('body')]
        return [k] if k in P.F and P.F[k].get('body') else []

    # ------------------------------------------------------------- closure
    def of(self, key):
        """(reads, writes) of a function, transitively"""
        if key in self.res:
            return self.res[key]
        # collect the reachable part and iterate
        order, st = [], [key]
        seen = set()
        cal = {}
        while st:
            k = st.pop()
            if k in seen or k in self.res:
                continue
            seen.add(k)
            if k not in self.loc:
                self.loc[k] = self.local(k)
            R, W, C, env = self.loc[k]
            cs = []
            for x in C:
                for c in self.callees(x, self.P.F[k].get('file') or ''):
                    cs.append((x, c))
                    st.append(c)
            cal[k] = cs
            order.append(k)
        cur = {k: (set(self.loc[k][0]), set(self.loc[k][1])) for k in order}
        users = {}
        for k in order:
            for x, c in cal[k]:
                users.setdefault(c, set()).add(k)
        work = list(reversed(order))
        inw = set(work)
        memo = {}
        while work:
            k = work.pop(0)
            inw.discard(k)
            R, W = cur[k]
            n0 = len(R), len(W)
            env = self.loc[k][3]
            for x, c in cal[k]:
                src = cur.get(c) or self.res.get(c)
                if not src:
                    continue
                for i in (0, 1):
                    for ef in list(src[i]):
                        if ef[0] in ('?', 'g'):
                            cur[k][i].add(ef)
                            continue
                        mk = (id(x), ef)
                        y = memo.get(mk)
                        if y is None:
                            y = self.subst(ef, x, env)
                            y = memo[mk] = (y[0], tuple(m for m in y[1] if m != '[]'), y[2])
                        if y[0] == 'l' or not y[2]:
                            if y[0][0] == 'p' and y[0] != '?' and i == 1:
                                cur[k][i].add((y[0], (), None))
                            continue
                        cur[k][i].add(y)
            if (len(R), len(W)) != n0:
                for u in users.get(k, ()):
                    if u not in inw:
                        inw.add(u)
                        work.append(u)
        for k in order:
            self.res[k] = cur[k]
        return self.res[key]

    def call(self, x, file):
        """(reads, writes) of a call expression, in the callee's terms, over all its targets"""
        R, W = set(), set()
        for k in self.callees(x, file):
            r, w = self.of(k)
            R |= r
            W |= w
        return R, W
