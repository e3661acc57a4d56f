"""Guarded-event summaries: gated value numbering over the inlined CFG.

For a root function the summary is the set of its observable events (calls that
are not looked into, writes to state that outlives the call, throws, returns),
each with
  * its canonical operands, expressed over the function's entry state
    (parameters $0,$1,..., fields this.f, results of calls),
  * the condition under which it happens, as a BDD over canonical atoms,
  * the complete traversals (loops) it is inside of.
Values are obtained by (demand-driven) reaching definitions with gated joins;
loops are not unrolled: a loop-carried value is the opaque symbol `~`.
Nothing is executed and no solver is involved.
"""
import re
import sys
from collections import defaultdict
from engine import (esc, lam_id, Graph, Frame, strip, short, notmpl, walk, MUTATORS, STDNS, is_intty, _isstmt, fmtc)

sys.setrecursionlimit(100000)


# ------------------------------------------------------------------ BDD
class Bdd:
    def __init__(self):
        self.nodes = [(1 << 30, 0, 0), (1 << 30, 1, 1)]
        self.uniq = {}
        self.atoms = []
        self.aidx = {}
        self.memo = {}
        self._txt = {}
        self._sups = {}
        self._isops = {}

    def mk(self, v, lo, hi):
        if lo == hi:
            return lo
        k = (v, lo, hi)
        r = self.uniq.get(k)
        if r is None:
            r = len(self.nodes)
            if r > 3000000:
                raise MemoryError('bdd too large')
            self.nodes.append(k)
            self.uniq[k] = r
        return r

    def var(self, s):
        i = self.aidx.get(s)
        if i is None:
            i = len(self.atoms)
            self.atoms.append(s)
            self.aidx[s] = i
        return self.mk(i, 0, 1)

    def ite(self, f, g, h):
        if f == 1:
            return g
        if f == 0:
            return h
        if g == h:
            return g
        if g == 1 and h == 0:
            return f
        k = (f, g, h)
        r = self.memo.get(k)
        if r is not None:
            return r
        N = self.nodes
        v = min(N[f][0], N[g][0], N[h][0])
        f0, f1 = (N[f][1], N[f][2]) if N[f][0] == v else (f, f)
        g0, g1 = (N[g][1], N[g][2]) if N[g][0] == v else (g, g)
        h0, h1 = (N[h][1], N[h][2]) if N[h][0] == v else (h, h)
        r = self.mk(v, self.ite(f0, g0, h0), self.ite(f1, g1, h1))
        self.memo[k] = r
        return r

    def And(self, *a):
        r = 1
        for x in a:
            r = self.ite(r, x, 0)
        return r

    def Or(self, *a):
        r = 0
        for x in a:
            r = self.ite(r, 1, x)
        return r

    def Not(self, a):
        return self.ite(a, 0, 1)

    def support(self, f):
        seen, st, out = set(), [f], set()
        while st:
            x = st.pop()
            if x < 2 or x in seen:
                continue
            seen.add(x)
            v, lo, hi = self.nodes[x]
            out.add(self.atoms[v])
            st += [lo, hi]
        return out

    def restrict(self, f, v, val):
        """cofactor by variable index"""
        memo = {}

        def rec(x):
            if x < 2:
                return x
            if x in memo:
                return memo[x]
            w, lo, hi = self.nodes[x]
            if w == v:
                r = hi if val else lo
            elif w > v:
                r = x
            else:
                r = self.mk(w, rec(lo), rec(hi))
            memo[x] = r
            return r
        return rec(f)

    def constrain(self, f, c):
        """f simplified by care set c: decided by the functions and the atoms' names only"""
        if c == 0 or c == 1 or f < 2:
            return f
        return self._isop(self.And(f, c), self.Or(f, self.Not(c)))[0]

    def s(self, f, lim=6):
        """readable, order-independent-ish text (sum of products over sorted atoms)"""
        if f == 1:
            return 'T'
        if f == 0:
            return 'F'
        c = self._txt.get(f)
        if c is None:
            c = self._txt[f] = ' | '.join(' & '.join(l) or 'T' for l in self.isop(f))
        return c

    def isop(self, f):
        return sorted(self._isop(f, f)[1])

    def _isop(self, L, U):
        """irredundant sum of products between L and U (Minato/Morreale), decided by the functions and the atoms' names only"""
        if L == 0:
            return 0, ()
        if U == 1:
            return 1, ((),)
        k = (L, U)
        r = self._isops.get(k)
        if r is not None:
            return r
        at = min(self._sup(L) | self._sup(U))
        v = self.aidx[at]
        L0, L1 = self.restrict(L, v, 0), self.restrict(L, v, 1)
        U0, U1 = self.restrict(U, v, 0), self.restrict(U, v, 1)
        f0, c0 = self._isop(self.And(L0, self.Not(U1)), U0)
        f1, c1 = self._isop(self.And(L1, self.Not(U0)), U1)
        Ld = self.Or(self.And(L0, self.Not(f0)), self.And(L1, self.Not(f1)))
        fd, cd = self._isop(Ld, self.And(U0, U1))
        x = self.mk(v, 0, 1)
        r = self.Or(self.And(self.Not(x), f0), self.And(x, f1), fd)
        out = tuple((at,) + t for t in c1) + tuple(('!' + at,) + t for t in c0) + cd
        self._isops[k] = (r, out)
        return r, out

    def _sup(self, f):
        r = self._sups.get(f)
        if r is None:
            r = self._sups[f] = frozenset(self.support(f))
        return r


B = Bdd()

# ------------------------------------------------------------------ linear terms
_LIN = {}


def lin_of(t):
    """({term: coef}, const) of a canonical term"""
    r = _LIN.get(t)
    if r is not None:
        return r
    try:
        return {}, float(t)
    except ValueError:
        return {t: 1.0}, 0.0


def lin_term(terms, const):
    terms = {k: c for k, c in terms.items() if c}
    if not terms:
        return fmtc(const)
    if len(terms) == 1 and not const and list(terms.values())[0] == 1:
        return list(terms)[0]
    out = []
    for t in sorted(terms):
        c = terms[t]
        out.append('+' + t if c == 1 else '-' + t if c == -1 else '%+g*%s' % (c, t))
    s = ''.join(out)
    if const:
        s += ('+' if const > 0 else '-') + fmtc(abs(const))
    s = '(' + (s[1:] if s.startswith('+') else s) + ')'
    _LIN[s] = (terms, const)
    return s


def ladd(a, b, sg=1):
    A, ac = lin_of(a)
    C, bc = lin_of(b)
    r = dict(A)
    for t, c in C.items():
        r[t] = r.get(t, 0) + sg * c
    return lin_term(r, ac + sg * bc)


def lmul(a, b):
    A, ac = lin_of(a)
    C, bc = lin_of(b)
    if not A:
        return lin_term({t: c * ac for t, c in C.items()}, ac * bc)
    if not C:
        return lin_term({t: c * bc for t, c in A.items()}, ac * bc)
    # flatten products
    fa = []
    for x in (a, b):
        m = _PROD.get(x)
        fa += m if m else [x]
    fa.sort()
    s = '(' + '*'.join(fa) + ')'
    _PROD[s] = fa
    return s


_PROD = {}
_DIV = {}


def ldiv(a, b, integer=False):
    C, bc = lin_of(b)
    if not C and bc and not integer:
        A, ac = lin_of(a)
        if A:
            return lin_term({t: c / bc for t, c in A.items()}, ac / bc)
    s = '(%s/%s)' % (a, b)
    _DIV[s] = (a, b)
    return s


def rel_bdd(op, a, b, integer):
    """BDD of a relation between two canonical terms"""
    if op in ('<', '<='):
        return rel_bdd('>' if op == '<' else '>=', b, a, integer)
    A, ac = lin_of(a)
    C, bc = lin_of(b)
    if op in ('==', '!='):
        if a == b:
            return 1 if op == '==' else 0
        for x, y in ((a, b), (b, a)):
            if x in _FIND and y in (_FIND[x][0] + '.end()', _FIND[x][0] + '.cend()') and not x.startswith('remove('):
                r = B.var('has(%s,%s)' % _FIND[x])
                return B.Not(r) if op == '==' else r
            if x in _FINDIF and y in (_FINDIF[x][0] + '.end()', _FINDIF[x][0] + '.cend()'):
                return B.Not(_FINDIF[x][1]) if op == '==' else _FINDIF[x][1]
            if x.startswith('size(') and y == '0':
                r = B.var('empty(' + x[5:])
                return r if op == '==' else B.Not(r)
            if y == '""':
                r = B.var('empty(%s)' % x)
                return r if op == '==' else B.Not(r)
            if x.startswith('has(') and y in ('0', '1'):
                r = B.var(x)
                return r if (op == '==') == (y == '1') else B.Not(r)
            if y in ('true', 'false'):
                r = truth(x)
                return r if (op == '==') == (y == 'true') else B.Not(r)
            if y == 'NULL' or (y == '0' and (x.startswith(('dyn<', 'new ')))):
                r = truth(x)
                return B.Not(r) if op == '==' else r
        if is_const(a) and is_const(b):
            return 0 if op == '==' else 1
        if is_const(a):
            a, b = b, a
        elif not is_const(b) and a > b:
            a, b = b, a
        if not A and not C or (a in _LIN or b in _LIN):
            pass
        if a in _LIN or b in _LIN:
            t = dict(lin_of(a)[0])
            for k, c in lin_of(b)[0].items():
                t[k] = t.get(k, 0) - c
            const = lin_of(a)[1] - lin_of(b)[1]
            t = {k: c for k, c in t.items() if c}
            if not t:
                return (1 if const == 0 else 0) if op == '==' else (0 if const == 0 else 1)
            t, const = possign(t, const)
            if len(t) == 1 and list(t.values())[0] == 1:
                a, b = list(t)[0], fmtc(-const)
            else:
                a, b = lin_term(t, 0), fmtc(-const)
        if a.startswith('idx(') and re.fullmatch(r'-[0-9.]+', b) and closes(a):
            return 0 if op == '==' else 1      # an index is not negative
        r = B.var('%s == %s' % (a, b))
        return r if op == '==' else B.Not(r)
    t = dict(A)
    for k, c in C.items():
        t[k] = t.get(k, 0) - c
    t = {k: c for k, c in t.items() if c}
    const = ac - bc
    if not t:
        ok = const > 0 if op == '>' else const >= 0
        return 1 if ok else 0
    if len(t) == 1:
        (k, c), = t.items()
        if k.startswith('size('):
            e = B.var('empty(' + k[5:])
            if c > 0 and ((op == '>' and const == 0) or (op == '>=' and const == -1)):
                return B.Not(e)
            if c < 0 and ((op == '>' and const == 1) or (op == '>=' and const == 0)):
                return e
        if k.startswith('idx(') and closes(k):
            if c > 0 and (const > 0 or const == 0 and op == '>='):
                return 1
            if c < 0 and (const < 0 or const == 0 and op == '>'):
                return 0
        if k.startswith('has(') and c > 0 and ((op == '>' and const == 0) or (op == '>=' and const == -1)):
            return B.var(k)
        if k.startswith('has(') and c < 0 and ((op == '>' and const == 1) or (op == '>=' and const == 0)):
            return B.Not(B.var(k))
    if op == '>' and integer:
        op, const = '>=', const - 1
    # leading coefficient positive: x >= 0 or x > 0
    lead = t[sorted(t)[0]]
    if lead < 0:
        # -x + k >= 0  ==  !( x - k > 0 )
        t = {k: -c for k, c in t.items()}
        const = -const
        nop = '>' if op == '>=' else '>='
        if nop == '>' and integer:
            nop, const = '>=', const - 1
        return B.Not(B.var(relatom(t, const, nop, integer)))
    return B.var(relatom(t, const, op, integer))


def possign(t, const):
    if t[sorted(t)[0]] < 0:
        return {k: -c for k, c in t.items()}, -const
    return t, const


_REL = {}
_FINDIF = {}


def anyatom(cont, c):
    """some element of cont satisfies c"""
    if c == 0:
        return 0
    if c == 1:
        return B.Not(B.var('empty(%s)' % cont))
    if cont.startswith('rev('):
        cont = cont[4:-1]
    el = 'elem(%s)' % re.sub(r'^(?:part|tail|never)\((.*)\)$', r'\1', cont, flags=re.S)
    sup = B.support(c)
    if len(sup) == 1:
        a = list(sup)[0]
        if c == B.var(a) and ' == ' in a:
            for e2 in (el, el + '.first'):
                for x, y in ((a[:len(e2) + 4], a[len(e2) + 4:]), (a[-len(e2) - 4:], a[:-len(e2) - 4])):
                    if x in (e2 + ' == ', ' == ' + e2) and el not in y:
                        return B.var('has(%s,%s)' % (cont, y))
    # whatever does not speak about an element moves out
    ix = 'idx' + el[4:]
    free = [a for a in sorted(sup) if el not in a and ix not in a and '~' not in a]
    out = 1
    for a in free:
        v = B.var(a)
        for lit in (v, B.Not(v)):
            if B.And(c, B.Not(lit)) == 0:
                out = B.And(out, lit)
                c = B.restrict(c, B.aidx[a], 1 if lit == v else 0)
                break
    if out != 1:
        return B.And(out, anyatom(cont, c))
    cubes = B._isop(c, c)[1]
    if len(cubes) > 1:
        r = 0
        for cu in cubes:
            x = 1
            for a in cu:
                x = B.And(x, B.Not(B.var(a[1:])) if a[0] == '!' else B.var(a))
            r = B.Or(r, anyatom(cont, x))
        return r
    return B.var('ANY(%s: %s)' % (cont, B.s(c)))


def closes(t):
    """the first parenthesis of t closes at its end"""
    n = 0
    for i, ch in enumerate(t):
        n += (ch == '(') - (ch == ')')
        if n == 0 and ch == ')':
            return i == len(t) - 1
    return False


def relatom(t, const, op, integer):
    s = '%s %s %s' % (lin_term(t, 0), op, fmtc(-const))
    _REL[s] = (lin_term(t, 0), op, -const, integer)
    return s


def is_const(s):
    if re.match(r'^-?[0-9.]+(e[-+]?\d+)?$', s) or s.startswith('"') or s.startswith("'"):
        return True
    return bool(re.match(r'^[A-Za-z_:]+$', s)) and s in ENUMC


ENUMC = set()


def truth(t):
    if t == 'true':
        return 1
    if t in ('false', 'NULL'):
        return 0
    if t.startswith('new '):
        return 1
    try:
        return 1 if float(t) else 0
    except ValueError:
        pass
    if t.startswith('!'):
        return B.Not(truth(t[1:]))
    return B.var(t)


def care(*fs):
    """conjunction of facts relating the atoms: distinct constants, order"""
    sup = set()
    for f in fs:
        sup |= B.support(f)
    eqs = defaultdict(list)
    rels = defaultdict(list)
    for a in sup:
        m = re.match(r'^(.*) == (\S+|".*")$', a)
        if m and is_const(m.group(2)):
            eqs[m.group(1)].append((m.group(2), a))
        r = _REL.get(a)
        if r:
            rels[r[0]].append((r[1], r[2], a, r[3]))
    c = 1
    for a in sup:
        if a.startswith('empty('):
            x = a[6:-1]
            for b in sup:
                if b.startswith('has(%s,' % x) or b.startswith('ANY(%s: ' % x):
                    c = B.And(c, B.Not(B.And(B.var(a), B.var(b))))
                if b.startswith('size(%s) ' % x):
                    m = re.fullmatch(r'(==|>=|>) (\d+)', b[len(x) + 7:])
                    if m and int(m.group(2)) >= (0 if m.group(1) == '>' else 1):
                        c = B.And(c, B.Not(B.And(B.var(a), B.var(b))))
    for k, l in eqs.items():
        for i in range(len(l)):
            for j in range(i):
                c = B.And(c, B.Not(B.And(B.var(l[i][1]), B.var(l[j][1]))))
    for k, l in rels.items():
        for i in range(len(l)):
            for j in range(len(l)):
                if i == j:
                    continue
                (o1, c1, a1, _), (o2, c2, a2, _) = l[i], l[j]
                # a1 stronger => a2
                if c1 > c2 or (c1 == c2 and o1 == '>' and o2 == '>='):
                    c = B.And(c, B.Or(B.Not(B.var(a1)), B.var(a2)))
        for v, a in eqs.get(k, []):
            try:
                x = float(v)
            except ValueError:
                continue
            for o, cc, ra, _ in l:
                holds = x > cc if o == '>' else x >= cc
                r = B.var(ra)
                c = B.And(c, B.Or(B.Not(B.var(a)), r if holds else B.Not(r)))
            # x >= v and !(x > v)  => x == v
            for o, cc, ra, _ in l:
                for o2, cc2, ra2, it in l:
                    if cc == cc2 == x and o == '>=' and o2 == '>':
                        c = B.And(c, B.Or(B.Not(B.var(ra)), B.var(ra2), B.var(a)))
                    if it and cc == x and o == '>=' and o2 == '>=' and cc2 == x + 1:
                        c = B.And(c, B.Or(B.Not(B.var(ra)), B.var(ra2), B.var(a)))
    return c


def equiv(a, b):
    return B.And(B.ite(a, B.Not(b), b), care(a, b)) == 0


def implies(a, b):
    return B.And(a, B.Not(b), care(a, b)) == 0


def disjoint(a, b):
    return B.And(a, b, care(a, b)) == 0


# ------------------------------------------------------------------ values
TRUE = [(1, 'true')]


def merge(val, lim=8):
    d = {}
    for g, t in val:
        if g == 0:
            continue
        d[t] = B.Or(d.get(t, 0), g)
    if len(d) == 1:
        return [(1, list(d)[0])]
    if len(d) > lim:
        return [(1, 'phi{%s}' % '|'.join(sorted(d)))]
    if len(d) > 1:
        # what a handler yields replaces what the normal way yields
        h = [(g, t) for t, g in d.items() if hascaught(g)]
        if h and len(h) < len(d):
            r = 0
            for g, t in h:
                r = B.Or(r, g)
            d = {t: g if hascaught(g) else B.And(g, B.Not(r)) for t, g in d.items()}
            d = {t: g for t, g in d.items() if g}
    return [(g, t) for t, g in d.items()]


CAUGHT = {}


def hascaught(g):
    if g < 2:
        return False
    r = CAUGHT.get(g)
    if r is None:
        r = any(a.startswith('caught(') for a in B.support(g))
        CAUGHT[g] = r
    return r


def app(f, *vals):
    out = [(1, ())]
    for v in vals:
        nxt = []
        for g, ts in out:
            for g2, t in v:
                gg = B.And(g, g2)
                if gg:
                    nxt.append((gg, ts + (t,)))
        out = nxt
        if len(out) > 24:
            # collapse
            vals = [[(1, one_s(v))] for v in vals]
            return [(1, f(*[v[0][1] for v in vals]))]
    return merge([(g, f(*ts)) for g, ts in out])


def one_s(val):
    if len(val) == 1:
        return val[0][1]
    if not val:
        return '<undef>'
    return 'phi{%s}' % '|'.join(sorted(t for _, t in val))


def frombdd(b):
    return merge([(b, 'true'), (B.Not(b), 'false')])


def tobdd(val):
    r = 0
    for g, t in val:
        r = B.Or(r, B.And(g, truth(t)))
    return r


REFT = re.compile(r'&\s*$')


_PRIME = re.compile(r"(@[^()\[\]'\";{}]*)'+")


_FILLED = re.compile(r"fold\([^;]*; (@[^()\[\]'\";{}]*); ~(?:'|; ~')*\)")


SCALAR = re.compile(r'^(?:const )?(?:unsigned |long |signed )*(?:int|double|float|bool|long|short|char|std::string|std::basic_string<char>|unsigned|uint\w+|boost::uuids::uuid)$')


class Event:
    __slots__ = ('kind', 'name', 'obj', 'args', 'guard', 'loops', 'node', 'g', 'val', 'fn', 'extra')

    def __init__(self, kind, name, obj, args, guard, loops, node, g):
        self.kind, self.name, self.obj, self.args = kind, name, obj, args
        self.guard, self.loops, self.node, self.g = guard, loops, node, g
        self.extra = {}

    def sig(self):
        t = '%s %s%s(%s)' % (self.kind, (self.obj + '.') if self.obj else '', self.name, ', '.join(self.args))
        if "'" in t and '@' in t:
            t = _PRIME.sub(r'\1', t)
            while True:     # a local container filled by a traversal is named by its type
                u = _FILLED.sub(r'\1', t)
                if u == t:
                    break
                t = u
        return t

    def loc(self):
        return self.node.loc()

    def __repr__(self):
        return '%s  %s IF %s @%s' % (''.join('[for %s] ' % l for l in self.loops), self.sig(), B.s(self.guard), self.node.line)


TMPLSHOW = re.compile(r'^cyclus::(Hdf5Back::\w+|QueryResult::GetVal|Query|OptionalQuery|Context::CreateAgent|Warn)$|(^|::)(cast|any_cast|as|lexical_cast|dynamic_pointer_cast)$')


def tmplargs(e):
    """which instantiation of a function template runs, where its arguments do not tell"""
    n, f = e.get('n') or '', e.get('f') or ''
    if not f.startswith(n + '<') or not TMPLSHOW.search(notmpl(n)):
        return []
    d, out, cur = 0, [], ''
    for ch in f[len(n):]:
        d += (ch == '<') - (ch == '>')
        if ch == '<' and d == 1:
            continue
        if ch == ',' and d == 1 or d == 0:
            out.append(cur.strip())
            cur = ''
            if d == 0:
                break
            continue
        cur += ch
    if short(n) in ('lexical_cast', 'dynamic_pointer_cast'):
        out = out[:1]
    return ['of(%s)' % ', '.join(out)]


class Summary:
    def __init__(self, prog, root, stop=None, depth=5, follow=None, inline_virtual=False, extra_follow=None, binds=None):
        self.P = prog
        prog.noeffect = QUERY
        self._handed = None
        self._handedraw = None
        self._newno = None
        if not ENUMC:
            for k, en in prog.E.items():
                for c in en.get('cs', en.get('c', [])) or []:
                    n = c.get('n') if isinstance(c, dict) else (c[0] if isinstance(c, list) else c)
                    if n:
                        ENUMC.add(n)
        self.root = root
        cls = root.get('cls')
        fam = set(notmpl(c) for c in prog.ancestors(cls)) if cls else set()
        if cls:
            fam.add(notmpl(cls))
        self.fam = fam
        xf = extra_follow or (lambda f: False)

        def dfollow(f):
            if f['file'].endswith('_api.h') or 'pyhooks' in f['file'] or f['file'].endswith('logger.h'):
                return False
            if xf(f):
                return True
            if prog.trivial(f['key']) is None and f['key'] in prog.forwards:
                return True
            if prog.basetriv and f['key'] in prog.basetriv['keys'] and prog.trivial(f['key']) is None:
                return True     # an accessor of the reference tree, written out
            if prog.basefns and f['sn'] not in prog.basefns:
                return True     # not a function of the reference tree: a helper some change introduced
            if f.get('cls'):
                return notmpl(f['cls']) in fam or f['file'] == root['file'] and f.get('access') == 'private'
            return f['file'] == root['file'] or f['file'].rsplit('.', 1)[0] == root['file'].rsplit('.', 1)[0]
        self.g = Graph(prog, root, stop=stop, depth=depth, follow=follow or dfollow, inline_virtual=inline_virtual)
        self.g.summ = self
        g = self.g
        self._order()
        self._index_defs()
        self._cond = {}
        self._vm = {}
        self.carry = set()
        self._bdd = {}
        self._edgec = {}
        self.events = None

    # ---------------------------------------------------------- CFG facts
    def _order(self):
        """topological order ignoring back edges; natural loops"""
        g = self.g
        color = {}
        back = set()
        post = []
        st = [(g.entry.id, 0)]
        color[g.entry.id] = 1
        while st:
            n, i = st[-1]
            su = g.nodes[n].succ
            if i < len(su):
                st[-1] = (n, i + 1)
                m = su[len(su) - 1 - i][0]
                c = color.get(m, 0)
                if c == 0:
                    color[m] = 1
                    st.append((m, 0))
                elif c == 1:
                    back.add((n, m))
            else:
                color[n] = 2
                post.append(n)
                st.pop()
        self.back = back
        self.topo = post[::-1]
        self.tpos = {n: i for i, n in enumerate(self.topo)}
        # natural loops by header
        self.loops = {}
        for (u, h) in back:
            body = self.loops.setdefault(h, {h})
            st = [u]
            while st:
                x = st.pop()
                if x in body:
                    continue
                body.add(x)
                st.extend(p for p, _ in g.nodes[x].pred)
        for h, body in self.loops.items():
            r = g.nodes[h].x.get('range')
            if r:
                body.update(i for i in range(r[0], r[1]) if i in self.tpos)
        self.inloops = defaultdict(list)    # node -> headers, outermost first
        for h, body in sorted(self.loops.items(), key=lambda kv: -len(kv[1])):
            for n in body:
                self.inloops[n].append(h)

    def iterhead(self, h):
        """(container string) of a natural loop header, or None if it is no full traversal"""
        n = self.g.nodes[h]
        if n.kind == 'iter':
            c = self.str1(n.e, n.fr, n)
            if c in _MAP:
                c = _MAP[c][0]
            i = n.x.get('idiom')
            if i in ('itail', 'inever'):
                return '%s(%s)' % (i[1:], c)
            c = self.nest(c, h)
            return 'part(%s)' % c if i == 'ipart' else 'rev(%s)' % c if i in ('riter', 'rindex') else c
        return None

    def nest(self, c, h):
        """a traversal inside a traversal of the same things gets a name of its own"""
        n = self.inloops.get(h, ())
        if len(n) < 2 or c in _MAP:
            return c
        k = 1
        for o in n:
            if o == h:
                continue
            m = self.g.nodes[o]
            if m.kind == 'iter' and h in self.loops[o] and o not in self.loops[h]:
                key = ('ithead', o)
                if key not in self._vm:
                    self._vm[key] = None
                    self._vm[key] = self.str1(m.e, m.fr, m)
                if self._vm[key] == c:
                    k += 1
        return c if k == 1 else '%s#%d' % (c, k)

    # ---------------------------------------------------------- definitions
    def lval(self, e, fr, node, depth=0):
        """('V', frame id, decl) | ('M', string) | None"""
        e = strip(e)
        k = e['k']
        if depth > 20:
            return None
        if k in ('Deref', 'Addr') or (k == 'Cast' and e.get('ck') != 'dynamic'):
            return self.lval(e['e'], fr, node, depth + 1)
        if k == 'Ref':
            if e.get('s') in ('global', 'func', 'enum'):
                return ('M', e['n'])
            d = e.get('d')
            f = self.g.owner(fr, d)
            it = self.iterof((f.id, d), node)
            if it:
                if it[2] != 'range' and depth == 0:
                    return ('V', f.id, d)
                return ('M', self.str1(e, fr, node))
            if d in f.binds:
                a, af = f.binds[d]
                p = next((p for p in f.fn.get('ps', []) if p['d'] == d), None)
                t = p['t'] if p else ''
                if REFT.search(t) or t.rstrip().endswith('*') or 'ptr' in t:
                    return self.lval(a, af, node, depth + 1)
                return ('V', f.id, d)
            v = self.g.vars.get((f.id, d))
            if v is not None and v.get('i') is not None and REFT.search(v.get('t', '')) and not v.get('binds'):
                return self.lval(v['i'], f, node, depth + 1)
            if v is not None:
                return ('V', f.id, d)
            return ('V', f.id, d)
        if k in ('This', 'ThisPtr'):
            return ('M', self.str1(e, fr, node))
        if k in ('Mem', 'Idx') or k == 'Call':
            return ('M', self.lstr(e, fr, node))
        if k == 'Cond':
            return None
        return None

    def lstr(self, e, fr, node):
        """lvalue path string: bases resolved, the last step kept as location"""
        e = strip(e)
        if e['k'] == 'Mem':
            return self.lstr(e['b'], fr, node) + '.' + e['m']
        if e['k'] in ('Deref', 'Addr'):
            return self.lstr(e['e'], fr, node)
        if e['k'] == 'Ref':
            l = self.lval(e, fr, node)
            if l and l[0] == 'M':
                return l[1]
        return self.str1(e, fr, node)

    def lvals(self, e, fr, node, depth=0):
        """guarded lvalue paths"""
        e = strip(e)
        k = e['k']
        if k in ('Deref', 'Addr') or (k == 'Cast' and e.get('ck') != 'dynamic'):
            return self.lvals(e['e'], fr, node, depth + 1)
        if depth < 20:
            if k == 'Cond':
                return self.ite_val(self.bool(e['c'], fr, node), self.lvals(e['x'], fr, node, depth + 1), self.lvals(e['y'], fr, node, depth + 1))
            if k == 'Mem':
                b = self.lvals(e['b'], fr, node, depth + 1)
                if len(b) > 1:
                    return [(g, t + '.' + e['m']) for g, t in b]
            if k == 'Ref' and e.get('s') not in ('global', 'func', 'enum'):
                d = e.get('d')
                f = self.g.owner(fr, d)
                if self.iterof((f.id, d), node) is None:
                    if d in f.binds:
                        a, af = f.binds[d]
                        p = next((p for p in f.fn.get('ps', []) if p['d'] == d), None)
                        t = p['t'] if p else ''
                        if REFT.search(t) or t.rstrip().endswith('*'):
                            return self.lvals(a, af, node, depth + 1)
                    v = self.g.vars.get((f.id, d))
                    if v is not None and v.get('i') is not None and REFT.search(v.get('t', '')) and not v.get('binds'):
                        return self.lvals(v['i'], f, node, depth + 1)
                    if v is not None and (v.get('t', '').rstrip().endswith('*') or CONTT.match(v.get('t', ''))):
                        r = self.val(e, fr, node)
                        if len(r) > 1:
                            return r
            if k == 'Call':
                r = self.val(e, fr, node)
                if len(r) > 1:
                    return r
        return [(1, self.lstr(e, fr, node))]

    def _index_defs(self):
        g = self.g
        self.defs = defaultdict(dict)    # var -> {node id: AST def}
        self.mutlocal = set()
        self.mapped = set()
        self.soft = defaultdict(set)     # var -> nodes that may change it (a call's effect)
        self._memready = False
        self._recs = None
        self._vm = {}
        self.carry = set()
        self._cond = {}
        self._edgec = {}
        self._bdd = {}
        mem = []
        for nid in self.topo:
            n = g.nodes[nid]
            if n.kind == 'decl':
                self.defs[('V', n.fr.id, n.e['d'])][nid] = n
            elif n.kind == 'write':
                mem.append(n)
            elif n.kind in ('call', 'stream'):
                mem.append(n)
        # phase 1: writes to plain locals (no memory strings needed)
        elw = set()
        later = []
        for n in mem:
            for tgt in self._targets(n):
                x = strip(tgt)
                y = x
                while y['k'] in ('Deref', 'Addr') or (y['k'] == 'Cast' and y.get('ck') != 'dynamic'):
                    y = strip(y['e'])
                if y['k'] == 'Ref' and y.get('s') not in ('global',):
                    l = self.lval(y, n.fr, n)
                    if l and l[0] == 'V':
                        self.defs[l][n.id] = n
                        continue
                if y['k'] == 'Idx' and n.kind == 'write':
                    # an element of a local container
                    b = strip(y['b'])
                    l = self.lval(b, n.fr, n) if b['k'] == 'Ref' and b.get('s') not in ('global',) else None
                    v = self.g.vars.get(l[1:]) if l and l[0] == 'V' else None
                    if v is not None and CONTT.match(v.get('t', '')):
                        self.defs[l][n.id] = n
                        elw.add((n.id, l))
                later.append((tgt, n))
        # objects (locals) changed through members / mutators
        for tgt, n in later:
            b = strip(tgt)
            while b['k'] in ('Mem', 'Idx', 'Deref', 'Addr', 'Cast'):
                b = strip(b.get('b') or b.get('e'))
            if b['k'] == 'Ref':
                l = self.lval(b, n.fr, n)
                if l and l[0] == 'V' and (n.id, l) not in elw:
                    self.mutlocal.add(l)
        # phase 2: memory
        self._memready = False
        tmp = defaultdict(dict)
        for tgt, n in later:
            l = self.lval(tgt, n.fr, n)
            if l:
                tmp[l][n.id] = n
        # a call that is not looked into: what it may write through its receiver and arguments
        for n in mem:
            if n.kind == 'call':
                for loc in self._callwrites(n):
                    if n.id not in tmp[('M', loc)]:
                        tmp[('M', loc)][n.id] = n
                        self.soft[('M', loc)].add(n.id)
        for l, d in tmp.items():
            self.defs[l].update(d)
        self._memready = True
        self._vm = {}
        self.carry = set()
        self._cond = {}
        self._edgec = {}
        self._bdd = {}

    def _callwrites(self, n):
        """named scalar locations a call may write"""
        import seqs
        x = n.e
        if not x.get('f') or (x.get('n') or '').startswith(STDNS):
            return
        E = seqs.E(self.P)
        R, W = E.call(x, n.fr.fn.get('file') or '')
        memo = {}
        for root, p, f in W:
            if root in ('?', 'g') or f is None or not p:
                continue
            if root not in memo:
                if root == 'this':
                    o = x.get('o')
                    memo[root] = self.lstr(o, n.fr, n) if o is not None else 'this'
                else:
                    a = x.get('a', [])
                    i = int(root[1:])
                    memo[root] = self.lstr(a[i], n.fr, n) if i < len(a) else '?'
            yield '.'.join((memo[root],) + p)

    def _targets(self, n):
        """lvalue expressions node n may change"""
        e = n.e
        if n.kind == 'write':
            return [e['x'] if e['k'] == 'Asg' else e['e']]
        if n.kind == 'stream':
            out = []
            if e['op'] == '>>':
                out.append(e['y'])
            x = e
            while x['k'] == 'Bin' and x.get('ov') and x['op'] in ('<<', '>>'):
                x = strip(x['x'])
            out.append(x)
            return out
        out = []
        nm = short(e.get('n', '') or '')
        if e.get('o') is not None:
            full = e.get('n', '') or ''
            if full.startswith(STDNS):
                if nm in MUTATORS and not (nm in ('reset', 'str') and not e.get('a')):
                    out.append(e['o'])
                elif nm in MUTATORS:
                    out.append(e['o'])
        # non-const reference / pointer-to-local arguments
        ps = param_types(e.get('f') or '')
        if nm == 'OptionalQuery':
            return out      # asks its first argument, changes nothing
        for i, a in enumerate(e.get('a', [])):
            a2 = strip(a)
            t = ps[i] if i < len(ps) else ''
            if a2['k'] == 'Addr' and strip(a2['e'])['k'] in ('Ref',) and (re.match(r'const [^*]*\*$', t) or
                    e.get('f') and not (e.get('n') or '').startswith(STDNS) and not self.P.argwritten(e['f'], i, bool(e.get('virt') and not e.get('qual')))):
                pass
            elif a2['k'] == 'Addr' and strip(a2['e'])['k'] in ('Ref',):
                out.append(a2['e'])
            elif REFT.search(t) and 'const' not in t and a2['k'] == 'Ref' and not (e.get('n') or '').startswith(STDNS):
                out.append(a2)
            elif (e.get('n') or '') in ('std::swap', 'std::sort', 'std::getline') and a2['k'] == 'Ref':
                out.append(a2)
        return out

    # ---------------------------------------------------------- conditions
    def cond(self, nid):
        """reaching condition of a node (per iteration inside loops)"""
        c = self._cond.get(nid)
        if c is not None:
            return c
        # iterative over topological order up to nid to avoid deep recursion
        for m in self.topo[:self.tpos[nid] + 1]:
            if m not in self._cond:
                self._cond[m] = self._cond1(m)
        return self._cond[nid]

    def _cond1(self, nid):
        if nid == self.g.entry.id:
            return 1
        n = self.g.nodes[nid]
        r = 0
        out_of = set()
        loop_in = 0
        left = {}
        for p, l in n.pred:
            if (p, nid) in self.back:
                continue
            lv = self.left(p, nid)
            if lv and (nid != self._after(lv[0]) or l == 'brk' or self.g.nodes[p].x.get('brk')):
                pn = self.g.nodes[p]
                left[lv[0]] = B.Or(left.get(lv[0], 0), B.And(self.cond(p), self._local(pn, nid, l)))
                continue
            r = B.Or(r, self.econd(p, nid, l))
        for h, c in left.items():     # some iteration leaves the loop this way
            r = B.Or(r, B.And(self._headcond(h), self._any(h, c)))
        return r

    def left(self, p, nid):
        """loop headers left by edge p->nid (innermost last)"""
        ins = self.inloops.get(nid, ())
        return [h for h in self.inloops.get(p, ()) if h not in ins]

    def econd(self, p, nid, label):
        k = (p, nid, label if not isinstance(label, tuple) else label)
        r = self._edgec.get(k)
        if r is None:
            r = self._econd(p, nid, label)
            self._edgec[k] = r
        return r

    def _headcond(self, h):
        c = 0
        for p, l in self.g.nodes[h].pred:
            if (p, h) not in self.back:
                c = B.Or(c, self.econd(p, h, l))
        return c

    def _econd(self, p, nid, label):
        pn = self.g.nodes[p]
        lv = self.left(p, nid)
        c = self.cond(p)
        local = self._local(pn, nid, label)
        c = B.And(c, local)
        if lv:
            n = self.g.nodes[nid]
            h = lv[0]                      # outermost loop left
            after = self._after(h)
            base = self._headcond(h)
            if nid == after or self._leads_after(nid, after, lv):
                if label == 'brk' or pn.x.get('brk'):
                    return B.And(base, self._any(h, c))
                ex = self._exits(h)
                return B.And(base, B.Not(self._any(h, ex))) if ex else base
            # return / throw out of the loop
            return B.And(base, self._any(h, c))
        return c

    def _leads_after(self, nid, after, lv):
        return nid == after

    def _after(self, h):
        n = self.g.nodes[h]
        return n.x.get('after', n.x.get('doafter'))

    def _exits(self, h):
        """condition (within an iteration) of leaving loop h other than by exhaustion"""
        key = ('ex', h)
        if key in self._edgec:
            return self._edgec[key]
        self._edgec[key] = 0
        body = self.loops[h]
        after = self._after(h)
        r = 0
        for m in sorted(body, key=lambda x: self.tpos[x]):
            mn = self.g.nodes[m]
            for t, l in mn.succ:
                if t in body:
                    continue
                if t == after and not mn.x.get('brk'):
                    continue
                if l == 'exc':
                    continue
                r = B.Or(r, B.And(self.cond(m), self._local(mn, t, l)))
        self._edgec[key] = r
        return r

    def _any(self, h, c):
        base = self._headcond(h)
        c = B.constrain(c, base) if base else c
        if c in (0, 1) and c == 0:
            return 0
        cont = self.iterhead(h)
        if cont is None:
            # plain loop: the header condition itself is not information
            return B.var('ANY(while: %s)' % B.s(c)) if c != 1 else 1
        if c == 1:
            return B.Not(B.var('empty(%s)' % cont))
        return anyatom(cont, c)

    def _local(self, pn, nid, label):
        if pn.kind == 'cond' and label in (True, False):
            b = self.cbdd(pn)
            return b if label else B.Not(b)
        if pn.kind == 'switch':
            return self._case(pn, nid)
        n = self.g.nodes[nid]
        if pn.kind == 'call' and short(pn.e.get('n') or '') == 'at' and iskeyed(pn.e.get('o') or {'k': ''}) and len(pn.e.get('a', [])) == 1:
            has = B.var('has(%s,%s)' % (self.str1(pn.e['o'], pn.fr, pn), self.str1(pn.e['a'][0], pn.fr, pn)))
            if label == 'exc':
                return B.Not(has)
            if any(l == 'exc' for _, l in pn.succ):
                return has
        if n.kind == 'catch' and label == 'exc' and pn.kind != 'throw':
            return B.var('caught(%s)' % (n.e.get('t') or '...'))
        return 1

    def _case(self, sw, nid):
        v = self.val(sw.e, sw.fr, sw)
        n = self.g.nodes[nid]

        def eq(cn):
            r = 0
            cv = self.val(cn.e, cn.fr, cn)
            for g, t in v:
                for g2, t2 in cv:
                    r = B.Or(r, B.And(g, g2, rel_bdd('==', t, t2, True)))
            return r
        if n.kind == 'case' and not n.x.get('default'):
            return eq(n)
        r = 1
        for m, l in sw.succ:
            mn = self.g.nodes[m]
            if mn.kind == 'case' and not mn.x.get('default'):
                r = B.And(r, B.Not(eq(mn)))
        # cases nested behind other labels
        for m in self.g.nodes:
            if m.kind == 'case' and m.x.get('sw') == sw.id and not m.x.get('default') and m.id in self.tpos:
                r = B.And(r, B.Not(eq(m)))
        return r

    def cbdd(self, n):
        r = self._bdd.get(n.id)
        if r is None:
            r = self.bool(n.e, n.fr, n)
            self._bdd[n.id] = r
        return r

    # ---------------------------------------------------------- values
    def str1(self, e, fr, node):
        return one_s(self.val(e, fr, node))

    def bool(self, e, fr, node):
        return tobdd(self.val(e, fr, node))

    def val(self, e, fr, node, d=0):
        if e is None:
            return [(1, '<none>')]
        if d > 60:
            return [(1, '<deep>')]
        e = strip(e)
        k = e['k']
        if k in ('Call', 'Asg', 'Inc'):
            # the value such an expression had when it was evaluated
            en = self.g.exprnode.get((id(e), fr.id))
            if en is not None and en.id in self.tpos:
                node = en
        V = lambda x: self.val(x, fr, node, d + 1)
        if k == 'Ref':
            return self.vref(e, fr, node, d)
        if k == 'Term':
            return [(1, e['v'])]
        if k == 'Int':
            return [(1, e['v'])]
        if k == 'Flt':
            v = float(e['v'])
            return [(1, str(int(v)) if v == int(v) and abs(v) < 1e15 else repr(v))]
        if k == 'Str':
            return [(1, '"%s"' % esc(e['v']))]
        if k == 'Chr':
            return [(1, "'%s'" % e['v'])]
        if k == 'Bool':
            return [(1, 'true' if e['v'] else 'false')]
        if k == 'Null':
            return [(1, 'NULL')]
        if k == 'Zero':
            return [(1, '0')]
        if k in ('This', 'ThisPtr'):
            if fr.this is not None:
                return self.val(fr.this[0], fr.this[1], node, d + 1)
            return [(1, 'this')]
        if k in ('Deref', 'Addr'):
            return V(e['e'])
        if k == 'Mem':
            return self.vmem(e, fr, node, d)
        if k == 'Idx':
            i = strip(e['i'])
            if i['k'] == 'Ref':
                it = self._iter(i, fr, node)
                if it and it[2] in ('index', 'rindex'):
                    b = one_s(V(e['b']))
                    if self.str1(it[0], it[1], node) == b:
                        return [(1, elem(self.nest(b, it[3])))]
            r = app(idxname, V(e['b']), V(e['i']))
            return self.memread(r, node)
        if k == 'Cast':
            if e['ck'] == 'dynamic':
                t = e['t'].replace(' *', '').replace(' &', '')
                st = re.sub(r'\bconst\b|[*&]', '', strip(e['e']).get('t') or '').strip()
                if strip(e['e'])['k'] in ('This', 'ThisPtr'):
                    st = fr.fn.get('cls') or ''
                tn = t.replace('const ', '').strip()
                if st and st != tn and any(notmpl(q) == notmpl(tn) for q in self.P.ancestors(st)):
                    return V(e['e'])        # towards a base class: no question
                return app(lambda x: 'dyn<%s>(%s)' % (t, x), V(e['e']))
            if e['ck'] == 'reinterpret' and re.fullmatch(r'(?:const )?(?:bool|int|float|double|(?:unsigned )?(?:int|short|long)) \*', e.get('t') or ''):
                t = e['t'].replace('const ', '')[:-2]
                return app(lambda x: 'asptr(%s,%s)' % (t, x), V(e['e']))
            return V(e['e'])
        if k == 'Call':
            return self.vcall(e, fr, node, d)
        if k == 'Ctor':
            a = [x for x in e.get('a', []) if not x.get('dflt')]
            n = short(e['n'])
            if e['n'].startswith('cyclus::') and '<' in (e.get('t') or ''):
                n = tyname(e['t']).rstrip(' &')
            if not a and n in ('basic_string',):
                return [(1, '""')]
            if n == 'pair' and len(a) == 2:
                return app(mkpair, V(a[0]), V(a[1]))
            if n in ('vector', 'list', 'deque') and len(a) == 2:
                def mkr(x, y):
                    m = re.fullmatch(r'(.*)\.c?begin\(\)', x, re.S)
                    if m and y in (m.group(1) + '.end()', m.group(1) + '.cend()'):
                        return m.group(1)
                    if re.fullmatch(r'[1-4]', x) and not m and n == 'vector' and not is_intty(eltype(e)):
                        s = '[%s]' % ', '.join([y] * int(x))
                        _LITS[s] = [y] * int(x)
                        return s
                    if m and y.startswith(x + ' ++ '):
                        return 'take(%s,%s)' % (m.group(1), y[len(x) + 4:])
                    return '%s{%s,%s}' % (n, x, y)
                return app(mkr, V(a[0]), V(a[1]))
            return app(lambda *t: '%s{%s}' % (n, ','.join(t)), *[V(x) for x in a])
        if k == 'New':
            i = e.get('i')
            if i is not None and i['k'] == 'Ctor':
                a = [x for x in i.get('a', []) if not x.get('dflt')]
                return app(lambda *t: 'new %s{%s}' % (short(notmpl(i['n'])), ','.join(t)), *[V(x) for x in a])
            if i is not None:
                return app(lambda x: 'new ' + x, V(i))
            if e.get('n') is not None:
                if self._newno is None:
                    self._newno, cnt = {}, {}
                    for x in self.g.nodes:
                        if x.kind == 'new' and x.e.get('n') is not None and id(x.e) not in self._newno:
                            cnt[x.e['t']] = self._newno[id(x.e)] = cnt.get(x.e['t'], 0) + 1
                no = self._newno.get(id(e), 1)
                return app(lambda x: 'new %s[%s]%s' % (e['t'], x, '@%d' % no if no > 1 else ''), V(e['n']))
            return [(1, 'new ' + e['t'])]
        if k == 'Bin':
            return self.vbin(e, fr, node, d)
        if k == 'Un':
            if e['op'] == '-':
                return app(lambda x: lmul('-1', x), V(e['e']))
            if e['op'] == '!':
                return frombdd(B.Not(tobdd(V(e['e']))))
            return app(lambda x: '%s(%s)' % (e['op'], x), V(e['e']))
        if k == 'Cond':
            c = self.bool(e['c'], fr, node)
            x, y = V(e['x']), V(e['y'])
            return self.ite_val(c, x, y)
        if k == 'Asg':
            if e['op'] == '=':
                return V(e['y'])
            return self.vasg(e, fr, node, d)
        if k == 'Inc':
            if e.get('post'):
                return V(e['e'])
            return app(lambda x: ladd(x, '1', 1 if e['op'] == '++' else -1), V(e['e']))
        if k == 'List':
            if e.get('a') and len(e['a']) <= 12 and ('initializer_list' in e.get('t', '') or SEQT.match(e.get('t', '')) or e.get('t', '').endswith(']')):
                def ml(*t):
                    s = '[%s]' % ', '.join(t)
                    _LITS[s] = list(t)
                    return s
                return app(ml, *[V(x) for x in e['a']])
            return app(lambda *t: '{%s}' % ','.join(t), *[V(x) for x in e.get('a', [])])
        if k == 'Sizeof':
            return [(1, 'sizeof(%s)' % e.get('st'))]
        if k == 'Typeid' and e.get('st'):
            return [(1, 'typeid(%s)' % e['st'])]
        if k == 'Lambda':
            return [(1, self.fnval(e, fr, node, d))]
        if k == 'Throw':
            return [(1, 'throw')]
        if k == 'Range':
            return app(lambda x, y: rangestr(x, y, e), V(e['x']), V(e['y']))
        return [(1, '<%s>' % k)]

    def fnval(self, lam, fr, node, d):
        """what a function object computes, in terms of its parameters %1, %2, ...: independent of whether it is written as a lambda, a
        bind expression or the name of a function"""
        key = ('fn', id(lam))
        r = self.P.fnvals.get(key)
        if r is None:
            self.P.fnvals[key] = lam_id(lam)
            r = self.P.fnvals[key] = self._fnval(lam, fr)
        return r

    def _fnval(self, lam, fr):
        if not lam.get('body') or getattr(self, '_infn', 0) > 2:
            return lam_id(lam)
        f = fr
        while f is not None and f.fn.get('lambda'):
            f = f.parent
        fn = {'key': 'lambda@%d' % id(lam), 'n': 'lambda', 'sn': 'lambda', 'file': fr.fn['file'], 'l': lam.get('l', 0), 'ps': lam['ps'], 't': '',
              'body': lam['body']}
        c = self.root.get('cls')
        if c:
            fn['cls'] = c

        def small(q):
            return q.get('t') not in (None, 'void') and sum(1 for _ in walk(q.get('body'))) < 120
        try:
            S = Summary(self.P, fn, depth=3, extra_follow=small)
            S._infn = getattr(self, '_infn', 0) + 1
            S._fnbase = self
            evs = S.evs()
        except RecursionError:
            return lam_id(lam)
        bits = []
        bo, isb = 0, True
        for ev in evs:
            if ev.kind == 'ret':
                v = S.val(ev.node.e, ev.node.fr, ev.node)
                if not all(t in ('true', 'false') or frombdd(tobdd([(1, t)])) == [(1, t)] and re.search(r'[<>=!&|]|^(has|empty)\(|^any', t) for _, t in v):
                    isb = False
                for g, t in v:
                    bits.append('%s:%s' % (B.s(B.And(g, ev.guard), 40), t))
                bo = B.Or(bo, B.And(ev.guard, tobdd(v)))
            elif effect(self.P, ev) and ev.kind not in ('new', 'ctor'):
                isb = False
                bits.append('%s:%s %s' % (B.s(ev.guard, 40), '/'.join(str(x) for x in ev.loops or ()), ev.sig()))
        if (lam.get('rt') or '') == 'bool' or isb:
            t = B.s(bo, 40)
        else:
            t = ' | '.join(sorted(set(bits)))
        t = re.sub(r'\$(\d+)', lambda m: '%%%d' % (int(m.group(1)) + 1), t)
        if '?' in re.sub(r'"[^"]*"', '', t):
            return lam_id(lam)
        return 'fn{%s}' % t

    def ite_val(self, c, x, y):
        r = merge([(B.And(c, g), t) for g, t in x] + [(B.And(B.Not(c), g), t) for g, t in y])
        if len(r) == 2 and len(x) == 1 and len(y) == 1:
            m = minmax(c, x[0][1], y[0][1]) or ordefault(c, x[0][1], y[0][1]) or ordefault(B.Not(c), y[0][1], x[0][1])
            if m:
                return [(1, m)]
        elif 2 < len(r) <= 8:
            r = mmsplit(r)
        return r

    def vbin(self, e, fr, node, d):
        op = e['op']
        V = lambda x: self.val(x, fr, node, d + 1)
        if op in ('&&', '||') and not e.get('ov'):
            a, b = tobdd(V(e['x'])), tobdd(V(e['y']))
            return frombdd(B.And(a, b) if op == '&&' else B.Or(a, b))
        if op in ('<', '>', '<=', '>=', '==', '!='):
            return frombdd(self.vrel(e, fr, node, d))
        X, Y = V(e['x']), V(e['y'])
        if e.get('ov'):
            if op == '+':
                return app(lambda a, b: cat(a, b), X, Y)
            return app(lambda a, b: '(%s %s %s)' % (a, op, b), X, Y)
        if op == '+':
            return app(lambda a, b: ladd(a, b), X, Y)
        if op == '-':
            return app(lambda a, b: ladd(a, b, -1), X, Y)
        if op == '*':
            return app(lmul, X, Y)
        if op == '/':
            it = is_intty(e.get('t', ''))
            return app(lambda a, b: ldiv(a, b, it), X, Y)
        if op == ',':
            return Y
        return app(lambda a, b: '(%s %s %s)' % (a, op, b), X, Y)

    def chasecall(self, q, fr, node, n=0):
        """follow a local to the call expression defining it"""
        q = strip(q)
        f = fr
        while q['k'] == 'Ref' and q.get('s') in ('local', 'param') and n < 10:
            n += 1
            o = self.g.owner(f, q.get('d'))
            if q.get('d') in o.binds:
                q, f = o.binds[q['d']]
                q = strip(q)
                continue
            ds = self.defs.get(('V', o.id, q.get('d')), {})
            dn = [x for x in ds.values()]
            if len(dn) != 1:
                r = self.reaching(('V', o.id, q.get('d')), node)
                dn = [x for x in r]
                if len(dn) != 1 or dn[0] is None:
                    break
            x = dn[0]
            if x.kind == 'decl' and x.e.get('i') is not None:
                q, f = strip(x.e['i']), x.e.get('argframe', x.fr)
            elif x.kind == 'write' and x.e['k'] == 'Asg' and x.e['op'] == '=':
                q, f = strip(x.e['y']), x.fr
            else:
                break
        return q, f

    def reaching(self, key, node):
        ds = self.defs.get(key, {})
        out, seen = set(), set()
        st = [p for p, _ in node.pred]
        while st:
            x = st.pop()
            if x in seen:
                continue
            seen.add(x)
            if x in ds:
                out.add(x)
                continue
            if x == self.g.entry.id:
                out.add(-1)
            st.extend(p for p, _ in self.g.nodes[x].pred)
        return [self.g.nodes[i] if i >= 0 else None for i in out]

    def vrel(self, e, fr, node, d):
        op = e['op']
        x, y = strip(e['x']), strip(e['y'])
        if op in ('==', '!='):
            for a, b in ((x, y), (y, x)):
                a2, af = self.chasecall(a, fr, node)
                b2, bf = self.chasecall(b, fr, node)
                if a2['k'] == 'Call' and b2['k'] == 'Call' and short(b2.get('n', '') or '') in ('end', 'cend'):
                    an = short(a2.get('n', '') or '')
                    r = None
                    if an == 'find':
                        if a2.get('o') is not None and len(a2.get('a', [])) == 1:
                            r = B.var('has(%s,%s)' % (self.str1(a2['o'], af, node), self.str1(a2['a'][0], af, node)))
                        elif len(a2.get('a', [])) == 3 and b2.get('o') is not None:
                            r = B.var('has(%s,%s)' % (self.str1(b2['o'], bf, node), self.str1(a2['a'][2], af, node)))
                        if r is not None:
                            return r if op == '!=' else B.Not(r)
                    if an in ('begin', 'cbegin') and a2.get('o') is not None and b2.get('o') is not None:
                        r = B.var('empty(%s)' % self.str1(a2['o'], af, node))
                        return r if op == '==' else B.Not(r)
        X = self.val(x, fr, node, d + 1)
        Y = self.val(y, fr, node, d + 1)
        it = self.isint(x) and self.isint(y)
        # unsigned against the ends of its range
        if it and op in ('<', '>', '<=', '>='):
            u, k, o2 = (x, Y, op) if self.isuns(x) else (y, X, {'<': '>', '>': '<', '<=': '>=', '>=': '<='}[op])
            if self.isuns(u) and len(k) == 1 and k[0][1] in ('0', '1'):
                w = {('>', '0'): '!=', ('>=', '1'): '!=', ('<', '1'): '==', ('<=', '0'): '=='}.get((o2, k[0][1]))
                if w or (o2, k[0][1]) in (('>=', '0'), ('<', '0')):
                    if not w:
                        return 1 if o2 == '>=' else 0
                    r = 0
                    for g, a in self.val(u, fr, node, d + 1):
                        r = B.Or(r, B.And(g, rel_bdd(w, a, '0', True)))
                    return r
        bx, by = self.isbool(x), self.isbool(y)
        if op in ('==', '!=') and bx and by:
            a, b = tobdd(X), tobdd(Y)
            r = B.ite(a, b, B.Not(b))
            return r if op == '==' else B.Not(r)
        r = 0
        if e.get('ov') and op not in ('==', '!='):
            for g, a in X:
                for g2, b in Y:
                    a1, b1 = (a, b) if op in ('<', '>=') else (b, a)
                    t = B.var('lt(%s,%s)' % (a1, b1))
                    r = B.Or(r, B.And(g, g2, t if op in ('<', '>') else B.Not(t)))
            return r
        for g, a in X:
            for g2, b in Y:
                gg = B.And(g, g2)
                if gg:
                    r = B.Or(r, B.And(gg, rel_bdd(op, a, b, it)))
        return r

    def isbool(self, e):
        return e['k'] == 'Bool' or e.get('t', '').replace('const ', '').strip() == 'bool'

    def isuns(self, e):
        t = (strip(e).get('t') or '').replace('const ', '').replace(' &', '').strip()
        return t.startswith('unsigned') or t in ('size_t', 'std::size_t') or re.match(r'u?int\d+_t$', t) is not None and t[0] == 'u' or t.endswith('size_type')

    def isint(self, e):
        e = strip(e)
        if e['k'] == 'Int':
            return True
        if e['k'] == 'Flt':
            return False
        if e['k'] == 'Bin':
            return self.isint(e['x']) and self.isint(e['y'])
        if e['k'] == 'Un':
            return self.isint(e['e'])
        return is_intty(e.get('t', '').replace('const ', '').replace(' &', '').strip())

    def iterof(self, key, node):
        """the traversal whose element / index variable key is at node"""
        best = None
        for it in self.g.allit.get(key, ()):
            if it[2] == 'range':
                return it
            b = self.loops.get(it[3], ())
            if node.id in b and (best is None or len(b) < best[0]):
                best = (len(b), it)
        return best[1] if best else None

    def _iter(self, e, fr, node):
        f = fr
        d = e.get('d')
        while f is not None:
            it = self.iterof((f.id, d), node)
            if it:
                return it
            f = f.parent if f.fn.get('lambda') else None
        return None

    def vref(self, e, fr, node, d):
        s = e.get('s')
        if s in ('enum', 'func'):
            return [(1, e['n'])]
        if s == 'global':
            return self.memread([(1, e['n'])], node)
        dd = e.get('d')
        f = self.g.owner(fr, dd)
        it = self.iterof((f.id, dd), node)
        if it:
            h = self.g.nodes[it[3]]
            c = self.nest(self.str1(it[0], it[1], h), it[3])
            if it[2] == 'count':
                return [(1, ladd('idx(%s)' % c, self.str1(it[0]['x'], it[1], h)))]
            if it[2] in ('index', 'rindex'):
                return [(1, 'idx(%s)' % (_MAP[c][0] if c in _MAP else c))]
            return [(1, elem(c))]
        if dd in f.binds:
            a, af = f.binds[dd]
            p = next((p for p in f.fn.get('ps', []) if p['d'] == dd), None)
            t = p['t'] if p else ''
            en = getattr(f, 'enter', None)
            at = node
            if en is not None and not (REFT.search(t) and self.lvk(a)):
                at = self.g.nodes[en]
            return self.val(a, af, at, d + 1)
        for i, p in enumerate(f.fn.get('ps', [])):
            if p['d'] == dd and (f.id, dd) not in self.g.vars:
                return self.vat(('V', f.id, dd), node, '$%d' % i if f.depth == 0 else '$%d~%d' % (i, f.depth), d)
        v = self.g.vars.get((f.id, dd))
        if v is None:
            # structured binding or unknown
            b = self.binding(f, dd, node, d)
            if b is not None:
                return b
            return [(1, '?%s' % e.get('n'))]
        if REFT.search(v.get('t', '')) and v.get('i') is not None and self.lvk(v['i']):
            return self.val(v['i'], f, node, d + 1)
        if v.get('static'):
            return [(1, 'static:%s' % v['n'])]
        return self.vat(('V', f.id, dd), node, '<undef>', d)

    def binding(self, f, dd, node, d):
        for (fid, vd), v in self.g.vars.items():
            if fid != f.id:
                continue
            for i, b in enumerate(v.get('binds') or []):
                bd = b.get('d') if isinstance(b, dict) else b
                if bd == dd:
                    nm = ('first', 'second')[i] if i < 2 else str(i)
                    it = self.iterof((f.id, vd), node)
                    if it:
                        return [(1, '%s.%s' % (elem(self.nest(self.str1(it[0], it[1], self.g.nodes[it[3]]), it[3])), nm))]
                    return app(lambda x: x + '.' + nm, self.val(v.get('i'), f, node, d + 1))
        return None

    def lvk(self, e):
        e = strip(e)
        while e['k'] in ('Deref', 'Addr'):
            e = strip(e['e'])
        return e['k'] in ('Ref', 'Mem', 'Idx')

    def vmem(self, e, fr, node, d):
        m = e['m']
        b = self.val(e['b'], fr, node, d + 1)

        def f(x):
            # iterator from find(): ->second / ->first
            if x in _INS and m == 'second':
                return '!has(%s,%s)' % _INS[x]
            if x in _FIND and not x.startswith('remove('):
                c, k = _FIND[x]
                if m == 'second':
                    return '%s[%s]' % (c, k)
                if m == 'first':
                    return k
            p = _PAIR.get(x)
            if p and m in ('first', 'second'):
                return p[0 if m == 'first' else 1]
            return x + '.' + m
        r = app(f, b)
        # the lvalue path (for locals whose fields are written)
        lb = strip(e['b'])
        while lb['k'] in ('Deref', 'Addr'):
            lb = strip(lb['e'])
        l = None
        if lb['k'] in ('Ref', 'This', 'ThisPtr', 'Mem'):
            try:
                l = self.lval(e, fr, node)
            except RecursionError:
                l = None
        if l is not None and l in self.defs and self._memready:
            return self.vat(l, node, one_s(r), d)
        return self.memread(r, node)

    def recval(self, val, node, typ=''):
        """a local record handed on as a whole: what its fields hold"""
        if not any(t.startswith('@') for _, t in val):
            return val
        if self._recs is None:
            self._recs = defaultdict(set)
            for l, ds in self.defs.items():
                m = re.fullmatch(r'(@.*)\.(\w+)', l[1], re.S) if l[0] == 'M' else None
                if m and any(x not in self.soft.get(l, ()) for x in ds):
                    self._recs[m.group(1)].add(m.group(2))
        out = []
        for g, t in val:
            b = t.rstrip("'")
            fs = sorted(self._recs.get(b, ())) if t.startswith('@') else []
            if not fs:
                out.append((g, t))
                continue
            vs = [self.vat(('M', '%s.%s' % (b, f)), node, '%s.%s' % (b, f), 0) for f in fs]
            for g2, ts in prod(vs):
                s = '%s{%s}' % (t, '; '.join('%s=%s' % (f, x) for f, x in zip(fs, ts)))
                _RECV[s] = (b, dict(zip(fs, ts)))
                out.append((B.And(g, g2), s))
        return merge(out)

    def _recput(self, kind, loc, args, t):
        """storing a record: a store to each of its fields"""
        b, d = _RECV[t]
        r = self.P.R.get(b[1:]) or self.P.R.get('cyclus::' + b[1:])
        fs = sorted({x['n'] for x in r['fields']} | set(d)) if r else sorted(d)
        return [('set', '%s.%s' % (loc, f), '', [d.get(f, '<init>')]) for f in fs]

    def memread(self, val, node):
        """apply reaching writes to memory terms"""
        if not getattr(self, '_memready', False):
            return val
        if not any(('M', t) in self.defs for _, t in val):
            return val
        out = []
        for g, t in val:
            for g2, t2 in self.vat(('M', t), node, t, 0):
                out.append((B.And(g, g2), t2))
        return merge(out)

    # --- value of a variable at a node: gated reaching definitions
    def vat(self, var, node, init, d):
        if var not in self.defs or not self.defs[var]:
            return [(1, init)]
        key = (var, node.id)
        r = self._vm.get(key)
        if r is None:
            self._vm[key] = [(1, '~' + (var[1] if var[0] == 'M' else ''))]      # cyclic use
            r = self._vat(var, node, init, d)
            self._vm[key] = r
        return r

    def _vat(self, var, node, init, d):
        """value before executing node"""
        g = self.g
        cur = node
        ds = self.defs[var]
        while True:
            preds = [(p, l) for p, l in cur.pred if (p, cur.id) not in self.back]
            isback = any((p, cur.id) in self.back for p, l in cur.pred)
            if cur.id == g.entry.id or not preds:
                return [(1, init)]
            if isback and self.carried(var, cur.id):
                # loop header: loop-carried
                fl = cur.x.get('flags')
                if fl and var[0] == 'V' and var[1:] in fl:
                    return [(1, fl[var[1:]])]     # a flag whose change ends the loop
                if self._allsoft(var, cur.id):
                    return [(1, self._prime(self._entry(var, cur.id, init, d)))]
                c = self._counter(var, cur.id)
                if c is not None:
                    return [(1, ladd(self._entry(var, cur.id, init, d), 'idx(%s)' % c))]
                if var[0] == 'V':
                    if self.iterhead(cur.id) is None:
                        ins = [n for x, n in ds.items() if x in self.loops[cur.id]]
                        if len(ins) == 1 and ins[0].kind == 'write' and ins[0].e['k'] == 'Asg' and ins[0].e.get('op') == '=' and not elwrite(ins[0]):
                            rv = self.val(ins[0].e['y'], ins[0].fr, ins[0])
                            if len(rv) == 1 and '~' not in rv[0][1] and '(' in rv[0][1] and self._entry(var, cur.id, init, d) in (rv[0][1], '<uninit>'):
                                return rv       # drawn anew before each test
                    self.carry.add((var, cur.id, init))
                return [(1, '~' + (var[1] if var[0] == 'M' else ''))]
            if len(preds) == 1:
                p, l = preds[0]
                v = self._edgeval(var, p, cur.id, l, init, d)
                if v is not None:
                    return v
                cur = g.nodes[p]
                continue
            break
        alts = []
        vals = {}
        for p, l in preds:
            v = self._edgeval(var, p, cur.id, l, init, d)
            if v is None:
                v = self.vat(var, g.nodes[p], init, d)
            if var[0] == 'V' and (l == 'brk' or g.nodes[p].x.get('brk')) and self.left(p, cur.id) and self.g.vars.get(var[1:], {}).get('t') == 'bool':
                # a loop is left on this value: it is what the test says
                c = self.cond(p)
                v = [(gg, t if t in ('true', 'false') or not c else 'true' if B.And(c, B.Not(truth(t))) == 0 else 'false' if B.And(c, truth(t)) == 0 else t) for gg, t in v]
            alts.append((p, l, v))
        terms = set(t for _, _, v in alts for _, t in v)
        if len(terms) == 1:
            return [(1, list(terms)[0])]
        if var in self.soft:
            terms = set(t for p, l, v in alts if self.econd(p, cur.id, l) != 0 for _, t in v) or terms
            if len(terms) == 1:
                return [(1, list(terms)[0])]
        if var in self.soft and len({t.rstrip("'") for t in terms}) == 1 and not SPLITV:
            return [(1, self._prime(sorted(terms)[0]))]
        out = []
        for p, l, v in alts:
            ec = self.econd(p, cur.id, l)
            for gg, t in v:
                out.append((B.And(ec, gg), t))
        # gates are relative to reaching this join
        cc = self.cond(cur.id)
        out = merge([(B.constrain(gg, cc) if cc else gg, t) for gg, t in out])
        if len(out) == 2:
            (g1, t1), (g2, t2) = out
            m = minmax(g1, t1, t2) or ordefault(g1, t1, t2) or ordefault(g2, t2, t1)
            if m:
                return [(1, m)]
        elif 2 < len(out) <= 8:
            out = mmsplit(out)
        return out

    def _edgeval(self, var, p, nid, l, init, d):
        """value carried along edge p->nid if decided here, else None (look further up)"""
        g = self.g
        pn = g.nodes[p]
        ds = self.defs[var]
        lv = self.left(p, nid)
        if lv:
            h = lv[0]
            if any(x in self.loops[h] for x in ds):
                if not self.carried(var, h) and not (pn.x.get('brk') or l == 'brk' or pn.kind in ('ret', 'throw')):
                    return None
                if not (pn.x.get('brk') or l == 'brk' or pn.kind in ('ret', 'throw')) or nid == self._after(h) and not pn.x.get('brk'):
                    return self.fold(var, h, init, d)
                if p in ds:
                    return self.defval(var, ds[p], init, d)
                return None
        if p in ds:
            return self.defval(var, ds[p], init, d)
        return None

    def _allsoft(self, var, h):
        sf = self.soft.get(var)
        return bool(sf) and all(x in sf for x in self.defs[var] if x in self.loops.get(h, ()))

    def _periter(self, loc, h):
        c = self.iterhead(h)
        return '~' in loc or bool(c) and 'elem(%s)' % c in loc or re.search(r'\w\(', loc.replace('elem(', '')) is not None

    def carried(self, var, h):
        """some definition inside loop h can reach the next iteration"""
        key = ('carried', var, h)
        r = self._vm.get(key)
        if r is None:
            body = self.loops.get(h, ())
            if not hasattr(self, '_tolatch'):
                self._tolatch = {}
            tl = self._tolatch.get(h)
            if tl is None:
                tl = set()
                st = [u for (u, hh) in self.back if hh == h]
                while st:
                    x = st.pop()
                    if x in tl or x == h:
                        continue
                    tl.add(x)
                    st.extend(p for p, _ in self.g.nodes[x].pred if p in body)
                self._tolatch[h] = tl
            ds = [x for x in self.defs.get(var, ()) if x in tl]
            r = bool(ds)
            if r and self._allsoft(var, h) and self._periter(var[1], h):
                r = False       # another object in each iteration
            if r and var[0] == 'M' and 'elem(' in var[1]:
                c = self.iterhead(h)
                if c and 'elem(%s)' % c in var[1]:
                    r = False
            self._vm[key] = r
        return r

    @staticmethod
    def _prime(t):
        return t if t.endswith("'") else t + "'"

    def _entry(self, var, h, init, d):
        """value on entry of loop h"""
        hn = self.g.nodes[h]
        ins = []
        for p, l in hn.pred:
            if (p, h) in self.back:
                continue
            v = self._edgeval(var, p, h, l, init, d)
            if v is None:
                v = self.vat(var, self.g.nodes[p], init, d)
            ec = self.econd(p, h, l)
            ins += [(B.And(ec, gg), t) for gg, t in v] if len(hn.pred) > 2 else v
        ins = merge(ins)
        if len(ins) > 1:
            hc = self._headcond(h)
            ins = [(gg, t) for gg, t in ins if not disjoint(gg, hc)] or ins
        return one_s(ins)

    def fold(self, var, h, init, d):
        key = ('fold', var, h)
        r = self._vm.get(key)
        if r is not None:
            return r
        self._vm[key] = [(1, '~')]
        hn = self.g.nodes[h]
        fl = hn.x.get('flags')
        if fl and var[0] == 'V' and var[1:] in fl:
            r = self._vm[key] = [(1, fl[var[1:]])]
            return r
        iv = self._entry(var, h, init, d)
        if self._allsoft(var, h):
            r = self._vm[key] = [(1, self._prime(iv))]
            return r
        outs = []
        for p, l in hn.pred:
            if (p, h) not in self.back:
                continue
            v = self._edgeval(var, p, h, l, init, d)
            if v is None:
                v = self.vat(var, self.g.nodes[p], init, d)
            outs += v
        hc = self._headcond(h)
        c = self.iterhead(h) or 'while'
        body = merge(outs)
        if len(body) == 2 and iv in ('true', 'false'):
            # a flag raised by some iteration
            d1 = {t: B.constrain(gg, hc) if hc else gg for gg, t in body}
            o = 'true' if iv == 'false' else 'false'
            if set(d1) == {'~', o}:
                a = self._any(h, d1[o])
                r = frombdd(a if o == 'true' else B.Not(a))
                self._vm[key] = r
                return r
        ct = self._counter(var, h)
        if ct is not None and not self._leaves(h):
            m = re.fullmatch(r'r?range\((.*)\)', ct, re.S)
            r = self._vm[key] = [(1, ladd(iv, m.group(1) if m else 'size(%s)' % ct))]
            return r
        if hn.kind != 'iter' and not self._leaves(h):
            n = self._once(var, h)
            if n is not None and n.kind == 'write' and not elwrite(n) and var[0] == 'V' and isinc(n.e):
                r = self._vm[key] = [(1, ladd(iv, 'iters(%s)' % c))]
                return r
            if n is not None and n.kind == 'call' and short(n.e.get('n') or '') in ('push_back', 'emplace_back') and n.e.get('o') is not None \
                    and len(body) == 1 and body[0][1].endswith("'") and re.match(r'@[\w:]+(<[^{]*)?(\.\w+)?$', iv):
                t = 'filled(%s; %s)' % (c, iv)
                _FILL[t] = 'iters(%s)' % c
                r = self._vm[key] = [(1, t)]
                return r
        m = self._mapped(var, h, iv, body, d)
        if m is not None:
            r = self._vm[key] = [(1, m)]
            return r
        if len(body) == 1:
            bs = body[0][1]
        else:
            bs = ' ; '.join(sorted('%s:%s' % (B.s(B.constrain(gg, hc)), t) for gg, t in body))
        if var[0] == 'M':
            bs = bs.replace('~' + var[1], '~')
        if c == 'while' and len(body) == 1 and '~' not in bs and iv in (bs, '<uninit>') and not self._leavesearly(var, h):
            # drawn anew before each test
            r = self._vm[key] = [(1, bs)]
            return r
        r = [(1, mkfold(c, iv, bs, [t for _, t in body], '~' + var[1] if var[0] == 'M' else '~'))]
        self._vm[key] = r
        return r

    def _leavesearly(self, var, h):
        """is the loop left from inside before the definition of var in its body?"""
        ds = set(self.defs.get(var, ()))
        hn = self.g.nodes[h]
        seen, st = set(), [h]
        while st:
            x = st.pop()
            if x in seen or x not in self.loops[h]:
                continue
            seen.add(x)
            for t, l in self.g.nodes[x].succ:
                if t not in self.loops[h] and l != 'exc' and x != h and self.g.nodes[x].x.get('brk'):
                    return True
            if x in ds:
                continue
            st.extend(t for t, _ in self.g.nodes[x].succ)
        return False

    def _once(self, var, h):
        """the one definition of var inside loop h, if every completed iteration executes it"""
        ds = [n for x, n in self.defs[var].items() if x in self.loops[h]]
        if len(ds) != 1 or self.inloops.get(ds[0].id, ())[-1:] != [h]:
            return None
        lat = [u for (u, hh) in self.back if hh == h]
        if any(not B_implies(self.cond(u), self.cond(ds[0].id)) for u in lat):
            return None
        return ds[0]

    def carries(self):
        """what the local scalars an iteration takes over from the one before start with and become"""
        self.evs()
        out = {}
        done = set()
        while self.carry - done:        # (asking for a fold can find the loop around it carrying as well)
            for var, h, init in sorted(self.carry - done, key=str):
                done.add((var, h, init))
                v = self.g.vars.get(var[1:])
                if v is None or not (SCALAR.match(v.get('t', '')) or v.get('t', '').endswith('*')):
                    continue
                for g, t in self.fold(var, h, init, 0):
                    if 'fold(' in t:
                        out[t] = self.g.nodes[h]
        return out

    def leavings(self):
        """when a loop that is no traversal ends: {(kind, guard text): guard}"""
        self.evs()
        self.carries()
        old = self._bdd, self._cond
        self._bdd, self._cond = {}, {}          # (without what was asked while a fold was being found)
        try:
            return self._leavings()
        finally:
            self._bdd, self._cond = old

    def _leavings(self):
        out = []
        for h in sorted(self.loops):
            if self.iterhead(h) is not None:
                continue
            hc = self._headcond(h)
            if hc == 0:
                continue
            r = 0
            for m in self.loops[h]:
                n = self.g.nodes[m]
                for t, l in n.succ:
                    if t not in self.loops[h] and self.g.nodes[t].kind not in ('catch',) and l != 'exc':
                        r = B.Or(r, B.And(self.cond(m), self._local(n, t, l)))
            out.append((B.constrain(r, hc), self.g.nodes[h]))
        return out

    def _leaves(self, h):
        after = self._after(h)
        return any(self.g.nodes[m].x.get('brk') and any(t == after for t, _ in self.g.nodes[m].succ) for m in self.loops[h])

    def _counter(self, var, h):
        """a local that every completed iteration of a traversal increments by one: counts along with it"""
        key = ('ctr', var, h)
        if key in self._vm:
            return self._vm[key]
        self._vm[key] = None
        if var[0] != 'V' or var in self.mutlocal:
            return None
        hn = self.g.nodes[h]
        if hn.kind != 'iter' or hn.x.get('idiom') in ('ipart', 'itail', 'inever') or any(k[0] == 'V' and k[1:] == var[1:] for k in [('V',) + tuple(x) for x in hn.x.get('flags') or ()]):
            return None
        v = self.g.vars.get(var[1:])
        if v is None or not re.match(r'(const )?(unsigned )?(int|long|size_t|std::size_t|unsigned)\b', v.get('t', '')):
            return None
        n = self._once(var, h)
        if n is None or n.kind != 'write' or not isinc(n.e):
            return None
        c = self.iterhead(h)
        if c is None or '~' in c or c.startswith(('part(', 'tail(', 'never(', 'times(')):
            return None
        self._vm[key] = _MAP[c][0] if c in _MAP else c
        return self._vm[key]

    def _mapped(self, var, h, iv, body, d):
        """a local sequence that a complete traversal of C fills with one element f per iteration: map(C; f)"""
        if var[0] != 'V' or len(body) != 1 or body[0][1] != "~'" or var in self.mutlocal:
            return None
        pre = re.match(r'@vector<[^{]*\{(?:vector\{)?(.*?)(,[^,]*)?\}\}?$', iv, re.S)
        if not re.match(r'@(vector|list|deque)<[^{]*$', iv) and not pre:
            return None
        hn = self.g.nodes[h]
        if hn.kind != 'iter' or hn.x.get('idiom') in ('ipart', 'itail', 'inever', 'count') or len(self.inloops.get(h, ())) > 1:
            return None
        v = self.g.vars.get(var[1:])
        et = eltype({'k': '', 't': v.get('t', '')}) if v else ''
        if not et or not (ptrlike(et) or re.match(r'(const )?(int|double|float|bool|std::(__cxx11::)?(basic_)?string\b.*)$', et)):
            return None
        ds = [n for x, n in self.defs[var].items() if x in self.loops[h]]
        if len(ds) != 1:
            return None
        n = ds[0]
        if pre:
            # made of the traversal's length, and each iteration stores at its own position
            c = self.iterhead(h)
            if not elwrite(n) or n.e['k'] != 'Asg' or n.e['op'] != '=' or c is None:
                return None
            m = re.fullmatch(r'r?range\((.*)\)', c, re.S)
            if pre.group(1) not in ('size(%s)' % c, m.group(1) if m else '') or self.str1(strip(n.e['x'])['i'], n.fr, n) != 'idx(%s)' % c or c.startswith('r'):
                return None
            a = [n.e['y']]
        elif n.kind != 'call' or short(n.e.get('n') or '') not in ('push_back', 'emplace_back'):
            return None
        else:
            a = [x for x in n.e.get('a', []) if not x.get('dflt')]
        if len(a) != 1 or self.inloops.get(n.id, ())[-1:] != [h]:
            return None
        if self._leaves(h):
            return None
        # every iteration that completes has added
        lat = [u for (u, hh) in self.back if hh == h]
        if any(not B_implies(self.cond(u), self.cond(n.id)) for u in lat):
            return None
        f = self.val(a[0], n.fr, n, d + 1)
        if len(f) != 1 or '~' in f[0][1]:
            return None
        c = self.iterhead(h)
        if c is None or '~' in c or c.startswith(('part(', 'tail(', 'never(')):
            return None
        t = 'map(%s; %s)' % (c, f[0][1])
        _MAP[t] = (c, f[0][1])
        self.mapped.add(n.id)
        return t

    def defval(self, var, dn, init, d):
        e = dn.e
        if dn.kind == 'decl':
            if (var in self.mutlocal or CONTT.match(e.get('t', '')) and any(n.kind == 'call' or elwrite(n) for n in self.defs[var].values())) and not ptrlike(e.get('t', '')):
                # a local object that is changed step by step: its type and what it starts as
                i = strip(e['i']) if e.get('i') is not None else None
                if i is None or e.get('dfltctor') or i['k'] == 'Ctor' and not [a for a in i.get('a', []) if not a.get('dflt')] or i['k'] == 'List' and not i.get('a'):
                    return [(1, '@%s' % tyname(e.get('t', '')))]
                return app(lambda x: '@%s{%s}' % (tyname(e.get('t', '')), x), self.val(e['i'], e.get('argframe', dn.fr), dn, d + 1))
            if e.get('i') is None:
                return [(1, '<uninit>')]
            af = e.get('argframe', dn.fr)
            i = e['i']
            if i['k'] == 'Ctor' and i.get('imp') and not i.get('copy') and not ptrlike(e.get('t', '')) and \
                    re.match(r'(const )?(Json::Value$|std::(vector|deque|list)<)', e.get('t', '')):
                a = [x for x in i.get('a', []) if not x.get('dflt')]
                if len(a) == 1 and (i['n'].startswith('Json::') or is_intty(a[0].get('t', '') or '') or self.isint(a[0])) and tyname(a[0].get('t', '') or '') != tyname(e.get('t', '')):
                    return app(lambda x: '%s{%s}' % (short(notmpl(i['n'])), x), self.val(a[0], af, dn, d + 1))
            if i['k'] == 'Ctor' and i.get('imp') and i.get('n', '').startswith('cyclus::') and not i.get('copy') and not REFT.search(e.get('t', '')) \
                    and not ptrlike(e.get('t', '')) and notmpl(i.get('at', '') or '') != notmpl(e.get('t', '')) and e.get('direct', 1):
                a = [x for x in i.get('a', []) if not x.get('dflt')]
                if len(a) == 1 and tyname(a[0].get('t', '') or '') != tyname(e.get('t', '')):
                    if len(self.defs[var]) > 1:
                        return app(lambda x: '@%s{%s}' % (tyname(e.get('t', '')), x), self.val(a[0], af, dn, d + 1))
                    return app(lambda x: '%s{%s}' % (tyname(e.get('t', '')), x), self.val(a[0], af, dn, d + 1))
            i = strip(e['i'])
            if e.get('dfltctor') or (i['k'] == 'Ctor' and not [a for a in i.get('a', []) if not a.get('dflt')]):
                if i['k'] == 'Ctor' and short(i['n']) == 'basic_string':
                    return [(1, '""')]
                if i['k'] == 'Ctor' and SEQT.match(e.get('t', '')) and len(self.defs[var]) == 1:
                    return [(1, '%s{}' % short(notmpl(i['n'])))]
                return [(1, '@%s' % tyname(e.get('t', '')))]
            return self.val(e['i'], af, dn, d + 1)
        if var[0] == 'V' and elwrite(dn):
            v = self.g.vars.get(var[1:])
            if v is not None and CONTT.match(v.get('t', '')):
                return [(1, self._prime(one_s(self.vat(var, dn, init, d))))]
        if dn.kind == 'write':
            if e['k'] == 'Asg':
                if e['op'] == '=':
                    return self.val(e['y'], dn.fr, dn, d + 1)
                return self.vasg(e, dn.fr, dn, d)
            # ++/--
            cur = self.vat(var, dn, init, d)
            sg = 1 if e['op'] == '++' else -1
            return app(lambda x: ladd(x, '1', sg), cur)
        # opaque update
        if dn.kind == 'call':
            nm = short(e.get('n', '') or '')
            tn = self._trunc(e, dn.fr, dn) if var[0] == 'V' else None
            if tn is not None:
                def tk(b, n):
                    m = re.fullmatch(r'@[^{]*\{(.*)\}', b, re.S)
                    return 'take(%s,%s)' % (m.group(1) if m else b, n)
                return app(tk, self.vat(var, dn, init, d), tn)
            if nm == 'assign' and var[0] == 'V' and e.get('o') is not None and len(e['a']) == 2:
                return self.val({'k': 'Ctor', 'n': 'std::vector', 'a': e['a'], 'l': e.get('l', 0)}, dn.fr, dn, d + 1)
            lit = self._seqlit(var, dn, nm, init, d)
            if lit is not None:
                return lit
            base = self.vat(var, dn, init, d)
            if nm == 'clear':
                return app(lambda b: 'cleared(%s)' % re.sub(r"'+$", '', b), base)
            return app(lambda b: b if b.endswith("'") else b + "'", base)
        if dn.kind == 'stream':
            r = self._stream(var, dn, init, d)
            if r is not None:
                return r
        return [(1, 'in(%s)' % dn.kind)]

    def _stream(self, var, dn, init, d):
        """text put into / taken from a local string stream"""
        e = dn.e
        x = e
        while x['k'] == 'Bin' and x.get('ov') and x['op'] in ('<<', '>>'):
            x = strip(x['x'])
        root = self.lval(x, dn.fr, dn) if x['k'] == 'Ref' and x.get('s') != 'global' else None
        if root is None or root[0] != 'V' or 'stream' not in (x.get('t') or (self.g.vars.get(root[1:]) or {}).get('t', '')):
            return None
        st = self.vat(root, dn, '@stream', d)
        if e['op'] == '>>':
            if var == root:
                return app(lambda t: 'next(%s)' % t, st)
            return app(lambda t: 'read(%s)' % t, st)
        if var != root:
            return None
        y = strip(e['y'])
        v = [(1, '"\\n"')] if y['k'] == 'Ref' and y.get('n') == 'std::endl' else self.val(y, dn.fr, dn, d + 1)
        return app(lambda t, u: u if re.fullmatch(r'@[^{]*', t) else cat(t, u), st, v)

    def _seqlit(self, var, dn, nm, init, d):
        """a local sequence built step by step outside loops: the list of its elements"""
        v = self.g.vars.get(var[1:]) if var[0] == 'V' else None
        if v is None or nm not in ('push_back', 'emplace_back', 'clear', 'pop_back') or var in self.mutlocal or not SEQT.match(v.get('t', '')):
            return None
        e = dn.e
        if e.get('o') is None or not (e.get('n') or '').startswith(STDNS):
            return None
        if nm == 'clear':
            return [(1, '@%s' % tyname(v.get('t', '')).rstrip(' &'))]
        b = self.vat(var, dn, init, d)
        out = []
        a = [x for x in e.get('a', []) if not x.get('dflt')]
        if nm != 'pop_back' and len(a) != 1:
            return None
        el = self.recval(self.val(a[0], dn.fr, dn, d + 1), dn) if a else [(1, '')]
        for g, (t, x) in prod([b, el]):
            l = [] if re.fullmatch(r'@(vector|list|deque)<[^{]*', t) else _LITS.get(t)
            if l is None or nm == 'pop_back' and not l:
                return None
            l = l[:-1] if nm == 'pop_back' else l + [x]
            if len(l) > 12:
                return None
            s = '[%s]' % ', '.join(l) if l else '@%s' % tyname(v.get('t', '')).rstrip(' &')
            _LITS[s] = l
            out.append((g, s))
        return merge(out)

    def _trunc(self, e, fr, node):
        """the length a call cuts a sequence to: x.resize(n), x.erase(x.begin() + n, x.end())"""
        o = e.get('o')
        nm = short(e.get('n', '') or '')
        a = [x for x in e.get('a', []) if not x.get('dflt')]
        if o is None or not (e.get('n') or '').startswith(STDNS):
            return None
        if nm == 'resize' and len(a) == 1:
            return self.val(a[0], fr, node)
        if nm == 'erase' and len(a) == 2:
            b, c = one_s(self.val(a[0], fr, node)), one_s(self.val(a[1], fr, node))
            if c.endswith('.end()') and 'phi{' not in b + c:
                m = lin_of(b)[0]
                k = c[:-6] + '.begin()'
                if m.get(k) == 1:
                    return [(1, ladd(b, k, -1))]
            # through a joined value: compare syntactically
            x, y = strip(a[0]), strip(a[1])
            if x['k'] == 'Bin' and x['op'] == '+' and y['k'] == 'Call' and short(y.get('n') or '') in ('end', 'cend'):
                q = strip(x['x'])
                if q['k'] == 'Call' and short(q.get('n') or '') in ('begin', 'cbegin') and self.lval(q['o'], fr, node) == self.lval(y['o'], fr, node) == self.lval(o, fr, node):
                    return self.val(x['y'], fr, node)
        return None

    def vasg(self, e, fr, node, d):
        x = self.lval(e['x'], fr, node)
        if x is not None and x in self.defs:
            init = x[1] if x[0] == 'M' else None
            if init is None:
                cur = self.val(e['x'], fr, node, d + 1)
            else:
                cur = self.vat(x, node, init, d)
        else:
            cur = self.val(e['x'], fr, node, d + 1)
        y = self.val(e['y'], fr, node, d + 1)
        op = e['op'][:-1]
        if e.get('ov') and op == '+':
            return app(cat, cur, y)
        if e.get('ov'):
            return app(lambda a, b: '(%s %s %s)' % (a, op, b), cur, y)
        if op == '+':
            return app(lambda a, b: ladd(a, b), cur, y)
        if op == '-':
            return app(lambda a, b: ladd(a, b, -1), cur, y)
        if op == '*':
            return app(lmul, cur, y)
        if op == '/':
            return app(lambda a, b: ldiv(a, b), cur, y)
        return app(lambda a, b: '(%s %s %s)' % (a, op, b), cur, y)

    def _algo(self, n, nd, fr, node, d):
        """standard algorithms over a whole container with a predicate lambda of one return"""
        V = lambda x: self.val(x, fr, node, d + 1)
        xs = [one_s(V(x)) for x in nd[:2]]
        m = re.fullmatch(r'(.*)\.c?begin\(\)', xs[0], re.S)
        if not m or xs[1] not in (m.group(1) + '.end()', m.group(1) + '.cend()'):
            return None
        cont = m.group(1)
        el = elem(cont)
        if cont in _MAP:
            cont = _MAP[cont][0]
        if n == 'accumulate' and len(nd) == 3:
            return app(lambda i: mkfold(cont, i, ladd('~', el), [ladd('~', el)]), V(nd[2]))
        lx = strip(nd[-1])
        lam = (lx, fr) if lx['k'] == 'Lambda' else self.g._lambda_of({'opcall': 1, 'o': lx}, fr)
        if lam is None:
            return None
        lx, lfr = lam
        b = [q for q in lx['body']['b'] if q['k'] != 'NullS'] if lx.get('body') else []
        if len(b) != 1 or b[0]['k'] != 'Return' or not b[0].get('e'):
            return None
        fn = dict(lfr.fn, lambda_=1)
        nfr = Frame({'key': lfr.fn['key'] + '::lambda', 'n': 'lambda', 'sn': lfr.fn['sn'], 'file': lfr.fn['file'], 'l': 0, 'ps': lx['ps'], 'lambda': 1,
                     't': '', 'body': lx['body']}, lfr, ({'k': 'This'}, lfr), {}, None)
        ps = lx['ps']
        if n == 'accumulate':
            if len(ps) != 2:
                return None
            nfr.binds[ps[0]['d']] = ({'k': 'Term', 'v': '~'}, fr)
            nfr.binds[ps[1]['d']] = ({'k': 'Term', 'v': el}, fr)
            bv = self.val(b[0]['e'], nfr, node, d + 2)
            bs = bv[0][1] if len(bv) == 1 else ' ; '.join(sorted('%s:%s' % (B.s(gg), t) for gg, t in bv))
            return app(lambda i: mkfold(cont, i, bs, [t for _, t in bv]), V(nd[2]))
        if len(ps) != 1:
            return None
        nfr.binds[ps[0]['d']] = ({'k': 'Term', 'v': el}, fr)
        c = self.bool(b[0]['e'], nfr, node)
        if n == 'all_of':
            return frombdd(B.Not(anyatom(cont, B.Not(c))))
        a = anyatom(cont, c)
        if n == 'any_of':
            return frombdd(a)
        if n == 'none_of':
            return frombdd(B.Not(a))
        t = 'findif(%s; %s)' % (cont, B.s(c))
        _FINDIF[t] = (cont, a)
        return [(1, t)]

    # --- calls as values
    def vcall(self, e, fr, node, d):
        n = short(e.get('n', '')) if e.get('n') else '<fp>'
        a = e.get('a', [])
        nd = [x for x in a if not x.get('dflt')]
        o = e.get('o')
        full = e.get('n', '') or ''
        V = lambda x: self.val(x, fr, node, d + 1)
        if o is not None and full.startswith(STDNS):
            if n in ('get', 'c_str', 'data', 'str') and not nd and ('ptr' in full or 'string' in full or n == 'c_str'):
                return V(o)
            if n.startswith('operator ') or n in ('operator bool',):
                return V(o)
            if n == 'empty':
                r = V(o)
                if len(r) == 1 and r[0][1] in _FILL:
                    return frombdd(rel_bdd('==', _FILL[r[0][1]], '0', True))
                return app(mkempty, r)
            if n in ('size', 'length') and not nd:
                return app(mksize, V(o))
            if n in ('count', 'contains') and len(nd) == 1:
                return app(lambda x, y: 'has(%s,%s)' % (x, y), V(o), V(nd[0]))
            if n == 'find' and len(nd) == 1 and not re.match(r'std::(__cxx11::)?(basic_)?string', full):
                def mkfind(x, y):
                    s = 'find(%s,%s)' % (x, y)
                    _FIND[s] = (x, y)
                    return s
                return app(mkfind, V(o), V(nd[0]))
            if n == 'erase' and len(nd) == 1 and iskeyed(o) and 'terator' not in (nd[0].get('t') or ''):
                return app(lambda x, y: 'has(%s,%s)' % (x, y), V(o), V(nd[0]))
            if n in ('insert', 'emplace') and iskeyed(o) and 'multi' not in full and nd and 'terator' not in (nd[0].get('t') or ''):
                def mkins(x, *y):
                    k = y[0]
                    if len(y) == 1 and k in _PAIR and isassoc(o):
                        k = _PAIR[k][0]
                    s = 'ins(%s,%s)' % (x, k)
                    _INS[s] = (x, k)
                    _FIND[s + '.first'] = (x, k)
                    return s
                return app(mkins, V(o), *[V(x) for x in nd])
            if n == 'front' and not nd:
                return self.memread(app(lambda x: idxname(x, '0'), V(o)), node)
            if n == 'at' and len(nd) == 1:
                return self.val({'k': 'Idx', 'b': o, 'i': nd[0], 'l': e.get('l', 0)}, fr, node, d + 1)
        if full in ('std::move', 'std::forward') and len(nd) == 1:
            return V(nd[0])
        if full in ('std::find', 'std::remove', 'std::count') and len(nd) == 3:
            def mkf(b, e2, y):
                if not (b.endswith('.begin()') and e2 == b[:-8] + '.end()' or b.endswith('.cbegin()') and e2 == b[:-9] + '.cend()'):
                    return '%s(%s)' % (full, ','.join((b, e2, y)))
                cc = b[:b.rindex('.')]
                if n == 'count':
                    return 'count(%s,%s)' % (cc, y)
                t = '%s(%s,%s)' % (n, cc, y)
                _FIND[t] = (cc, y)
                return t
            return app(mkf, V(nd[0]), V(nd[1]), V(nd[2]))
        if full in ('std::any_of', 'std::all_of', 'std::none_of', 'std::find_if', 'std::accumulate') and len(nd) >= 3:
            r = self._algo(n, nd, fr, node, d)
            if r is not None:
                return r
        if n == 'replace_all_copy' and len(nd) == 3:
            return app(lambda x, y, z: replall(full, x, y, z), V(nd[0]), V(nd[1]), V(nd[2]))
        if full in ('std::make_pair',) and len(nd) == 2:
            return app(mkpair, V(nd[0]), V(nd[1]))
        if 'pointer_cast' in n and len(nd) == 1:
            if n.startswith('dynamic'):
                m = re.search(r'shared_ptr<(.*)>', e.get('t', ''))
                t = m.group(1) if m else '?'
                return app(lambda x: 'dyn<%s>(%s)' % (t, x), V(nd[0]))
            return V(nd[0])
        if full in ('std::min', 'std::max', 'std::fmin', 'std::fmax', 'fmin', 'fmax') and len(nd) == 2:
            nm = 'min' if 'min' in n else 'max'
            return app(lambda x, y: mm(nm, x, y), V(nd[0]), V(nd[1]))
        if full in ('std::min', 'std::max') and len(nd) == 1:
            return app(lambda x: mm(n, *_LITS[x]) if x in _LITS else 'std::%s(%s)' % (n, x), V(nd[0]))
        if full in ('std::fabs', 'fabs', 'std::abs', 'abs') and len(nd) == 1:
            return app(lambda x: 'abs(%s)' % x, V(nd[0]))
        cv = getattr(self.g, 'callvals', {}).get((id(e), fr.id))
        if cv is not None:
            if cv[0] != 'multi':
                rn = self.g.retnodes.get((id(e), fr.id))
                return self.val(cv[0], cv[1], rn[0] if rn else node, d + 1)
            rn = [x for x in self.g.retnodes.get((id(e), fr.id), []) if x.id in self.tpos]
            out = []
            tot = 0
            en = self.inloops.get(node.id, ())
            hv = {}
            for r in rn:
                h = next((x for x in self.inloops.get(r.id, ()) if x not in en), None)
                if h is not None:
                    hv.setdefault(h, set()).update(t for _, t in self.val(r.e, r.fr, r, d + 1))
            hc = {}
            for r in rn:
                h = next((x for x in self.inloops.get(r.id, ()) if x not in en), None)
                if h is not None and len(hv[h]) == 1:
                    hc[h] = B.Or(hc.get(h, 0), self.cond(r.id))
            for r in rn:
                c = self.cond(r.id)
                h = next((x for x in self.inloops.get(r.id, ()) if x not in en), None)
                if h is not None and len(hv[h]) == 1:
                    c = B.And(self._headcond(h), self._any(h, hc[h]))
                tot = B.Or(tot, c)
                for g, t in self.val(r.e, r.fr, r, d + 1):
                    out.append((B.And(g, c), t))
            return merge([(B.constrain(g, tot) if tot else g, t) for g, t in out])
        key = e.get('f')
        if full in CHAIN and o is not None:
            return V(o)
        if key in self.P.F and not (e.get('virt') and not e.get('qual') and len(self.P.impls(key)) != 1):
            t = self.P.trivial(key)
            if t is not None:
                tf, te = t
                nfr = Frame(tf, fr, (o, fr) if o is not None else None)
                nfr.enter = None
                if o is None and tf.get('cls') and not tf.get('static'):
                    nfr.this = ({'k': 'This'}, fr)
                for i, p in enumerate(tf.get('ps', [])):
                    if i < len(a):
                        nfr.binds[p['d']] = (a[i], fr)
                return self.val(te, nfr, node, d + 2)
        vs = [V(x) for x in nd] + [[(1, t)] for t in tmplargs(e)]
        if full.startswith('std::numeric_limits'):
            return [(1, key or full)]
        if o is not None:
            r = app(lambda b, *t: '%s.%s(%s)' % (b, n, ','.join(t)), V(o), *vs)
            if self._memready and key in self.P.F and full.startswith('cyclus::') and self._touched(e, fr, node, d):
                r = app(self._prime, r)
            return r
        nm = notmpl(full) if full else one_s(V(e.get('fe')))
        return app(lambda *t: '%s(%s)' % (nm, ','.join(t)), *vs)

    def _touched(self, e, fr, node, d):
        """some state of the receiver that the called query reads may have changed since entry"""
        import seqs
        q = self.P.qual.get(e['f'])
        if q is None:
            q = self.P.qual[e['f']] = self.P.isquery(notmpl(e.get('n') or ''))
        if not q:
            return False
        key = ('touched', id(e), fr.id, node.id)
        r = self._vm.get(key)
        if r is None:
            self._vm[key] = False
            r = False
            base = self.lstr(e['o'], fr, node)
            for root, p, f in seqs.E(self.P).call(e, fr.fn.get('file') or '')[0]:
                if root == 'this' and p:
                    loc = '.'.join((base,) + p)
                    if ('M', loc) in self.defs:
                        v = self.vat(('M', loc), node, loc, d + 1)
                        if any(t != loc for _, t in v):
                            r = True
                            break
            self._vm[key] = r
        return r

    # ---------------------------------------------------------- events
    def loopctx(self, nid):
        out = []
        for h in self.inloops.get(nid, ()):
            if h == nid and self.g.nodes[h].kind == 'iter':
                continue
            out.append(self.iterhead(h) or 'while')
        return tuple(out)

    def loopctx_brk(self, n):
        # the loop this break leaves
        tgt = [m for m, l in n.succ if l == 'brk']
        if not any(self._after(h) in tgt for h in self.loops):
            return None
        return self.loopctx(n.id)

    def evs(self):
        if self.events is not None:
            return self.events
        out = []
        for nid in self.topo:
            n = self.g.nodes[nid]
            if n.kind in ('call', 'write', 'throw', 'ret', 'new', 'delete', 'ctor', 'stream'):
                out += self._ev(n)
            elif n.x.get('brk') and self.cond(nid) != 0:
                # `break` out of a loop (a switch's break is no event)
                ev = Event('break', 'break', '', [], self.cond(nid), self.loopctx_brk(n), n, self)
                if ev.loops is not None:
                    out.append(ev)
        out = [e for e in out if not (e.kind in ('add', 'put') and e.node.id in self.mapped)]
        # what a stream handed in by reference has been given when the function returns
        g = self.g
        if g.exit.pred and self.cond(g.exit.id) != 0:
            for i, p in enumerate(g.entry.fr.fn.get('ps', [])):
                v = ('V', g.entry.fr.id, p['d'])
                if STREAMT.match(p['t']) and any(x.kind == 'stream' for x in self.defs.get(v, {}).values()):
                    for gg, t in self.vat(v, g.exit, '$%d' % i, 0):
                        if t != '$%d' % i:
                            out.append(Event('set', '$%d' % i, '', [t], B.And(gg, self.cond(g.exit.id)), (), g.exit, self))
        # what a handler returns replaces what the guarded code would have returned
        rets = [e for e in out if e.kind == 'ret' and not e.loops]
        for b in rets:
            for c in [x for x in B.support(b.guard) if x.startswith('caught(')]:
                cv = B.var(c)
                if B.And(b.guard, B.Not(cv)) == 0:
                    for a in rets:
                        if a is not b and c not in B.support(a.guard) and a.node is not b.node and B.And(a.guard, b.guard) != 0:
                            a.guard = B.And(a.guard, B.Not(cv))
        out = self._vjoin(self._mmjoin(self._netwrites(self._accums(self._searches(self._erase1(out))))))
        fn = self.root
        if fn.get('ctor') or fn.get('k') == 'ctor' or short(fn['sn']) == short(fn['sn'].rsplit('::', 1)[0]):
            # an object whose constructor throws never existed
            thr = 0
            for e in out:
                if e.kind == 'throw' and not e.loops:
                    thr = B.Or(thr, e.guard)
            if thr != 0 and thr != 1:
                keep = []
                for e in out:
                    if e.kind == 'set' and not e.loops and re.fullmatch(r'this\.\w+', e.name):
                        e.guard = B.constrain(e.guard, B.Not(thr))
                        if e.guard == 0:
                            continue
                    keep.append(e)
                out = keep
        if re.fullmatch(r'(const )?bool', (fn.get('t') or '').split('(')[0].strip()):
            for e in out:
                if e.kind == 'ret' and not e.loops and len(e.args) == 1 and e.args[0] not in ('true', 'false'):
                    try:
                        t = truth(e.args[0])
                    except Exception:
                        continue
                    z = B.var(e.args[0] + ' == 0')
                    if B.And(e.guard, B.Not(t)) == 0 or B.And(e.guard, z) == 0:
                        e.args = ['true']
                    elif B.And(e.guard, t) == 0 or B.And(e.guard, B.Not(z)) == 0:
                        e.args = ['false']
        self.events = out
        return self.events

    def _erase1(self, evs):
        """search a container for X, remove that element and stop: the first X is removed"""
        out, gone = [], set()
        for e in evs:
            r = None
            if e.kind == 'del' and e.name == 'erase' and e.loops and len(e.args) == 1 and e.loops[-1] != 'while':
                D = e.loops[-1]
                C = e.obj.strip("~'")
                m = e.args[0]
                if C == D.strip("~'") and (m == 'elem(%s)' % D or re.fullmatch(r"[~']*%s[~']*\.c?begin\(\) \+\+ idx\(%s\)" % (re.escape(C), re.escape(D)), m)):
                    h = next((h for h in reversed(self.inloops.get(e.node.id, ())) if self.iterhead(h) == D), None)
                    el = 'elem(%s)' % D
                    x = None
                    for a in B.support(e.guard):
                        if ' == ' in a and implies(e.guard, B.var(a)):
                            l = a.split(' == ', 1)
                            if a.startswith(el + ' == '):
                                x = a[len(el) + 4:]
                            elif a.endswith(' == ' + el):
                                x = a[:-len(el) - 4]
                    if h is not None and x is not None and not self._again(e.node.id, h):
                        inl = [y for y in evs if h in self.inloops.get(y.node.id, ()) and y is not e]
                        if all(y.kind == 'break' or effect(self.P, y) == 0 and y.kind != 'ret' for y in inl) and self._any(h, e.guard) == self._any(h, B.var(sorted(a for a in B.support(e.guard) if el in a)[0])):
                            r = Event('del', 'erase', C, [x], B.And(self._headcond(h), self._any(h, e.guard)), e.loops[:-1], e.node, self)
                            gone.update(id(y) for y in inl if y.kind == 'break' and y.loops == e.loops)
            out.append(r or e)
        return [e for e in out if id(e) not in gone]

    def _again(self, nid, h):
        """node nid can be followed by another iteration of loop h"""
        body = self.loops[h]
        seen, st = set(), [nid]
        while st:
            q = st.pop()
            for t, l in self.g.nodes[q].succ:
                if t == h:
                    return True
                if t in body and t not in seen and not (q in self.tpos and self.cond(q) == 0):
                    seen.add(t)
                    st.append(t)
        return False

    def handed(self, loc):
        """a local object (by type) is returned, stored, or passed on"""
        if loc.startswith('new ') or loc.endswith(']') and not re.match(r'@[\w:]+(?:<[^{}]*>)?(?:\{.*\})?\.\w', loc, re.S):
            # raw memory
            if self._handedraw is None:
                self._handedraw = ' '.join(' '.join(e.args) for e in self.evs() if e.kind == 'ret' or e.kind == 'call' and effect(self.P, e) >= 1 or
                                           e.kind in ('put', 'add', 'set') and not (e.obj or e.name).startswith(('@', 'new ')))
            return loc in self._handedraw
        m = re.match(r'@[\w:]+', loc)
        if not m or re.match(r'@(?:[\w:]*stream|Datum|string|basic_string|pair)\b', loc):
            return False
        t = m.group(0)
        if self._handed is None:
            s = set()
            for e in self.evs():
                if e.kind in ('ret', 'set', 'put', 'add', 'call'):
                    o = e.obj + ' ' if e.kind == 'call' and effect(self.P, e) == 2 else ''
                    if e.kind == 'call' and not o and effect(self.P, e) != 2 or e.kind in ('put', 'add', 'set') and (e.obj or e.name).startswith('@'):
                        continue
                    s.update(re.findall(r'@[\w:]+', o + ' '.join(e.args)))
            n = -1
            while n != len(s):
                # what goes into a local that is handed out is handed out
                n = len(s)
                for e in self.evs():
                    if e.kind in ('put', 'add', 'set') and (e.obj or e.name).startswith('@') and re.match(r'@[\w:]+', e.obj or e.name).group(0) in s:
                        s.update(re.findall(r'@[\w:]+', ' '.join(e.args)))
            self._handed = s
        return t in self._handed

    def _searches(self, evs):
        """`return v` inside a traversal, v the same whatever the element: a search"""
        out = []
        for e in evs:
            if e.kind == 'ret' and e.loops == ('while',):
                # the only way out of an endless loop: what comes after it
                hs = [h for h in self.inloops.get(e.node.id, ()) if self.iterhead(h) is None]
                if len(hs) == 1 and sum(1 for m in self.loops[hs[0]] for t, l in self.g.nodes[m].succ if t not in self.loops[hs[0]] and l != 'exc') == 1 \
                        and not any(x is not e and x.kind in ('ret', 'throw') and hs[0] in self.inloops.get(x.node.id, ()) for x in evs):
                    out.append(Event('ret', e.name, '', e.args, self._headcond(hs[0]), (), e.node, self))
                    continue
            if e.kind == 'ret' and len(e.loops) == 1 and e.loops[0] != 'while' and e.args and 'elem(%s)' % e.loops[0] not in e.args[0] and '~' not in e.args[0]:
                hs = [h for h in self.inloops.get(e.node.id, ()) if self.iterhead(h) == e.loops[0]]
                if hs:
                    h = hs[0]
                    same = [x for x in evs if x.kind in ('ret', 'throw', 'break') and x.loops and h in self.inloops.get(x.node.id, ())]
                    eff = [x for x in evs if h in self.inloops.get(x.node.id, ()) and x.kind != 'ret' and effect(self.P, x) == 2]
                    if all(x.kind == 'ret' and x.args == e.args for x in same) and not eff:
                        if not any(x.kind == 'ret' and x.extra.get('h') == h for x in out):
                            tot = 0
                            for x in same:
                                tot = B.Or(tot, x.guard)
                            base = self._headcond(h)
                            e2 = Event('ret', e.name, '', e.args, B.And(base, self._any(h, tot)), (), e.node, self)
                            e2.extra['h'] = h
                            if e2.guard:
                                out.append(e2)
                        continue
            out.append(e)
        return out

    def _accums(self, evs):
        """a member that a complete traversal accumulates into: one write of the accumulated value after the traversal"""
        groups = {}
        for e in evs:
            if e.kind == 'set' and e.loops and e.loops[-1] != 'while' and 'elem(' not in e.name and ('~' + e.name) in ' '.join(e.args):
                hs = [h for h in self.inloops.get(e.node.id, ()) if self.iterhead(h) == e.loops[-1]]
                if len(hs) == 1:
                    groups.setdefault((hs[0], e.name), []).append(e)
        rep, last = {}, {}
        for (h, name), l in groups.items():
            inl = [x for x in evs if h in self.inloops.get(x.node.id, ())]
            if any(x.kind == 'set' and x.name == name and x not in l or x.kind in ('ret', 'throw', 'break') or x.kind == 'call' and effect(self.P, x) == 2 for x in inl):
                continue
            if len({x.loops for x in l}) != 1 or not self.carried(('M', name), h):
                continue
            v = self.fold(('M', name), h, name, 0)
            if len(v) != 1 or 'fold(' not in v[0][1]:
                continue
            g = self._headcond(h)
            e2 = Event('set', name, '', [v[0][1]], g, l[0].loops[:-1], l[-1].node, self)
            for x in l:
                rep[id(x)] = None
            rep[id(l[-1])] = e2
        if not rep:
            return evs
        out = []
        for e in evs:
            if id(e) in rep:
                if rep[id(e)] is not None:
                    out.append(rep[id(e)])
            else:
                out.append(e)
        return out

    def _mmjoin(self, evs):
        """the larger / smaller of two values chosen by branches"""
        by = defaultdict(list)
        for e in evs:
            if e.kind in ('set', 'ret', 'put') and e.args:
                by[(e.kind, e.name, e.obj, e.loops, tuple(e.args[:-1]))].append(e)
        drop = set()
        for k, l in by.items():
            if len(l) != 2:
                continue
            a, b = l
            if a.args == b.args or not disjoint(a.guard, b.guard):
                continue
            tot = B.Or(a.guard, b.guard)
            m = minmax(B.constrain(a.guard, tot), a.args[-1], b.args[-1]) or minmax(B.constrain(b.guard, tot), b.args[-1], a.args[-1])
            if m:
                b.args = list(b.args[:-1]) + [m]
                b.guard = tot
                drop.add(id(a))
        return [e for e in evs if id(e) not in drop]

    def _vjoin(self, evs):
        """the same event on exclusive branches, of a value read before an update in one and after it in the other: one
        event of the current value (a read after a join of such branches is named the same way)"""
        by = defaultdict(list)
        for e in evs:
            if e.kind in ('call', 'ret', 'add', 'put', 'set') and "'" in e.sig():
                by[(e.kind, e.loops, unprime(e.sig()))].append(e)
        drop = set()
        if by:
            for e in evs:
                l = by.get((e.kind, e.loops, unprime(e.sig())))
                if l and e not in l:
                    l.append(e)
        for k, l in by.items():
            if len({e.sig() for e in l}) < 2 or not all(disjoint(a.guard, b.guard) for i, a in enumerate(l) for b in l[:i]):
                continue
            r = max(l, key=lambda e: (e.sig().count("'"), e.sig(), self.tpos[e.node.id]))
            for e in l:
                if e is not r:
                    r.guard = B.Or(r.guard, e.guard)
                    drop.add(id(e))
        return [e for e in evs if id(e) not in drop]

    def _netwrites(self, evs):
        """a scalar write that is overwritten before anything can observe it counts only where it survives;
        writing back the entry value is no event"""
        out = []
        for i, e in enumerate(evs):
            if e.kind != 'set':
                out.append(e)
                continue
            g = e.guard
            for f in evs[i + 1:]:
                if f.kind == 'call' and f.loops == e.loops and effect(self.P, f) == 2 and not disjoint(g, f.guard):
                    break
                if f.kind == 'set' and f.name == e.name and f.loops == e.loops and f.node is not e.node:
                    g = B.And(g, B.Not(f.guard))
                    if g == 0:
                        break
            if g == 0 or e.args == [e.name] and not e.loops:
                # a restored value matters only if something else was written before
                if g == 0 or not any(x.kind == 'set' and x.name == e.name for x in out):
                    continue
            e.guard = g
            out.append(e)
        return out

    def _ev(self, n):
        e = n.e
        c = self.cond(n.id)
        if c == 0:
            return []
        lp = self.loopctx(n.id)
        fr = n.fr
        mk = []
        if n.kind == 'call':
            name = e.get('n') or '<fp>'
            if self.isacc(e):
                return []
            nd = [x for x in e.get('a', []) if not x.get('dflt')]
            o = e.get('o')
            nm = short(name)
            vs = [self.recval(self.val(x, fr, n), n) for x in nd]
            ov = self.val(o, fr, n) if o is not None else [(1, '')]
            kind = 'call'
            if name.startswith(STDNS) and o is not None:
                if nm in ('push_back', 'emplace_back', 'push_front') or nm in ('insert', 'emplace') and len(nd) == 1 and not isassoc(o):
                    kind, name = 'add', 'add'
                elif nm in ('insert', 'emplace') and isassoc(o):
                    kind, name = 'put', 'put'
                elif nm in ('erase', 'clear', 'pop_back', 'pop_front'):
                    kind, name = 'del', nm
                elif nm in ('insert',):
                    kind, name = 'add', 'addrange'
                if (self.lval(o, fr, n) or ('M',))[0] == 'V' and (nm == 'assign' and len(nd) == 2 or self._trunc(e, fr, n) is not None):
                    return []       # a local: part of its value
                lv = self.lval(o, fr, n) or ('M',)
                if lv[0] == 'V' and nm in ('push_back', 'emplace_back', 'clear', 'pop_back') and self._seqlit(lv, n, nm, '<undef>', 0) is not None:
                    return []
                if nm == 'clear' and self.g.entry.fr.fn.get('kind') == 'dtor' and all(t.startswith('this.') for _, t in ov):
                    return []       # about to go anyway
                ov = self.lvals(o, fr, n) if kind != 'call' else ov
                if kind != 'call' and lv[0] == 'V':
                    ov = [(g, self._recvname(lv, t)) for g, t in ov]
            for g, ts in prod([ov] + vs):
                args = list(ts[1:])
                if kind == 'put' and len(args) == 1 and args[0] in _PAIR:
                    args = list(_PAIR[args[0]])
                if kind == 'add' and nm in ('emplace_back', 'emplace') and len(args) > 1:
                    et = eltype(o)
                    args = [mkpair(*args)] if et.startswith('std::pair<') and len(args) == 2 else ['%s{%s}' % (short(notmpl(et)), ','.join(args))]
                nm2 = name
                if kind in ('add', 'put') and nm in ('insert', 'emplace') and args and iskeyed(o) and 'multi' not in (strip(o).get('t') or o.get('t') or '') \
                        and name in ('add', 'put') and len(args) == (2 if kind == 'put' else 1):
                    # inserting a key that is there does nothing (an object just made is in no container)
                    if not FRESH.match(args[0]):
                        g = B.And(g, B.Not(B.var('has(%s,%s)' % (ts[0], args[0]))))
                if kind == 'del' and name == 'erase':
                    # erasing what is not there does nothing: erase(key), erase(find(key)) and the
                    # erase-remove idiom are one event, conditional on presence
                    if len(args) == 1 and args[0] in _FIND and _FIND[args[0]][0] == ts[0]:
                        args = [_FIND[args[0]][1]]
                        g = B.And(g, B.var('has(%s,%s)' % (ts[0], args[0])))
                    elif len(args) == 1 and iskeyed(o) and 'iterator' not in (nd[0].get('t') or '') and 'Iterator' not in (nd[0].get('t') or ''):
                        g = B.And(g, B.var('has(%s,%s)' % (ts[0], args[0])))
                    elif len(args) == 2 and args[0].startswith('remove(') and args[0] in _FIND and args[1] in (ts[0] + '.end()', ts[0] + '.cend()'):
                        args = [_FIND[args[0]][1]]
                        nm2 = 'eraseall'
                        g = B.And(g, B.var('has(%s,%s)' % (ts[0], args[0])))
                    mk.append((kind, nm2, ts[0], args, g))
                    continue
                mk.append((kind, name, ts[0], args + tmplargs(e), g))
        elif n.kind == 'write':
            x = e['x'] if e['k'] == 'Asg' else e['e']
            l = self.lval(x, fr, n)
            sx = strip(x)
            if l is None and sx['k'] in ('Cond', 'Ref', 'Deref', 'Mem'):
                lv = [(g, t) for g, t in self.lvals(x, fr, n) if not t.startswith(('@', '<'))]
                if len(lv) > 1:
                    for g, t in lv:
                        v = self.val(e['y'], fr, n) if e['k'] == 'Asg' and e['op'] == '=' else None
                        for g2, ts in prod([v]) if v else [(1, ('?',))]:
                            mk.append(('set', t, '', [ts[0]], B.And(g, g2)))
                    return self._mkev(mk, c, lp, n)
            if l is None or l[0] != 'M':
                return []
            if e['k'] == 'Asg':
                v = self.recval(self.val(e['y'], fr, n), n) if e['op'] == '=' else self.vasg(e, fr, n, 0)
            else:
                v = app(lambda t: ladd(t, '1', 1 if e['op'] == '++' else -1), self.vat(l, n, l[1], 0))
            cur = self.vat(l, n, l[1], 0) if sx['k'] != 'Idx' else []
            cur2 = cur if sx['k'] != 'Idx' else self.val(x, fr, n)
            for g, ts in prod([v]):
                # nor is storing what a test found to be there
                for pg, pt in cur2:
                    if pt != ts[0]:
                        r = rel_bdd('==', pt, ts[0], False)
                        if r not in (0, 1) and B.support(r) <= B.support(B.And(c, g)):
                            g = B.And(g, B.Not(B.And(pg, r)))
                if sx['k'] != 'Idx':
                    # storing what is there already is no event; keeping the larger / smaller is a guarded store
                    for pg, pt in cur:
                        if pt == ts[0] and '~' not in pt:
                            g = B.And(g, B.Not(pg))
                    if ts[0] in _MM and len(_MM[ts[0]][1]) == 2:
                        nm, xs = _MM[ts[0]]
                        for pg, pt in cur:
                            if pt in xs:
                                o = xs[0] if xs[1] == pt else xs[1]
                                mk.append(('set', l[1], '', [o], B.And(g, pg, rel_bdd('>' if nm == 'max' else '<', o, pt, self.isint(x)))))
                                g = B.And(g, B.Not(pg))
                    if g == 0:
                        continue
                if sx['k'] == 'Idx':
                    if ts[0] in _RECV:
                        mk += [x + (g,) for x in self._recput('put', idxname(self.lstr(sx['b'], fr, n), self.str1(sx['i'], fr, n)), None, ts[0])]
                        continue
                    mk.append(('put', 'put', self._recvname(self.lval(sx['b'], fr, n) or ('M',), self.lstr(sx['b'], fr, n)), [self.str1(sx['i'], fr, n), ts[0]], g))
                elif ts[0] in _RECV:
                    mk += [x + (g,) for x in self._recput('set', l[1], None, ts[0])]
                else:
                    mk.append(('set', l[1], '', [ts[0]], g))
        elif n.kind == 'throw':
            if n.succ and all(self.g.nodes[m].kind == 'catch' for m, _ in n.succ):
                return []       # handled right here
            t = strip(e['e']) if e.get('e') is not None else None
            name = 'rethrow'
            if t is not None:
                name = t.get('n') or t.get('t') or '?'
                while t['k'] in ('Ctor', 'Cast') and False:
                    pass
            mk.append(('throw', name, '', [], 1))
        elif n.kind == 'ret':
            if not n.x.get('top') or e is None:
                return []       # leaving a void function: the guards of what follows say so
            for g, ts in prod([self.recval(self.val(e, fr, n), n)] if e is not None else []):
                mk.append(('ret', 'return', '', list(ts), g))
        elif n.kind == 'new':
            for g, ts in prod([self.val(e, fr, n)]):
                mk.append(('new', e.get('t', ''), '', list(ts), g))
        elif n.kind == 'delete':
            for g, ts in prod([self.val(e['e'], fr, n)]):
                mk.append(('delete', 'delete', '', list(ts), B.And(g, truth(ts[0]))))
        elif n.kind == 'ctor':
            if e.get('n', '').startswith(STDNS):
                return []
            nd = [x for x in e.get('a', []) if not x.get('dflt')]
            for g, ts in prod([self.recval(self.val(x, fr, n), n) for x in nd]):
                mk.append(('ctor', e.get('n', ''), '', list(ts), g))
        elif n.kind == 'stream':
            return []
        return self._mkev(mk, c, lp, n)

    def _recvname(self, lv, t):
        """a local container or a parameter by reference that changes round by round is named by its type / position"""
        if lv[0] != 'V' or not re.fullmatch(r"~'?", t):
            return t
        v = self.g.vars.get(lv[1:])
        if v:
            return '@' + tyname(v['t']).rstrip(' &') if CONTT.match(v.get('t', '')) else t
        if lv[1] == self.g.entry.fr.id:
            for i, p in enumerate(self.g.entry.fr.fn.get('ps', [])):
                if p['d'] == lv[2]:
                    return '$%d' % i
        return t

    def _mkev(self, mk, c, lp, n):
        out = []
        for kind, name, obj, args, g in mk:
            gg = B.And(c, g)
            if gg == 0:
                continue
            out.append(Event(kind, notmpl(name) if kind in ('call', 'ctor') else name, obj, args, gg, lp, n, self))
        return out

    def isacc(self, e):
        key = e.get('f')
        full = e.get('n') or ''
        if full in PUREFN:
            return True
        if full.startswith(STDNS) and e.get('o') is not None and short(full) in PURE:
            return True
        return key in self.P.F and not (e.get('virt') and not e.get('qual') and len(self.P.impls(key)) != 1) and \
            self.P.trivial(key) is not None

    def find(self, kind=None, name=None, obj=None, args=None):
        r = []
        for e in self.evs():
            if kind and e.kind != kind:
                continue
            if name is not None and not (re.fullmatch(name, e.name) if isinstance(name, str) else name(e.name)):
                continue
            if obj is not None and not re.fullmatch(obj, e.obj):
                continue
            if args:
                ok = True
                for i, a in args.items():
                    if i >= len(e.args) or not re.fullmatch(a, e.args[i]):
                        ok = False
                if not ok:
                    continue
            r.append(e)
        return r

    def before(self, a, b):
        """every execution runs node a's event before node b's (never after), ignoring loops' back edges"""
        return self.tpos[a.node.id] < self.tpos[b.node.id] and not self.canreach(b.node.id, a.node.id)

    def canreach(self, x, y):
        seen, st = set(), [x]
        while st:
            q = st.pop()
            for t, _ in self.g.nodes[q].succ:
                if (q, t) in self.back:
                    t = self._after(t)
                    if t is None:
                        continue
                if t == y:
                    return True
                if t not in seen:
                    seen.add(t)
                    st.append(t)
        return False

    def dump(self):
        return '\n'.join(repr(e) for e in self.evs())


# ------------------------------------------------------------------ effects
QUERY = re.compile(r'(::Composition::(mass|atom)|::Material::comp|::Package::unpackaged|::TransportUnit::unrestricted|'
                   r'::(units|type|id|kind|str|what|begin|end|size|count|empty|find|c_str|spec|name|quantity|package_name)|'
                   r'compmath::(Sub|Add|AlmostEq|ValidNucs|AllPositive|Sum)|AlmostEq|::what|::Recorder::NewDatum|::DbInit::NewDatum|'
                   r'::OptionalQuery|cyclus::CmpCond|cyclus::NewBlankMaterial|::(Material|Product)::CreateUntracked|::Context::(NewDatum|sim_info|time|logger|GetRecipe|GetPackage|GetTransportUnit)|'
                   r'::InfileTree::\w+|::XMLQueryEngine::\w+|::QueryEngine::\w+|::QueryResult::\w+|::QueryableBackend::\w+|'
                   r'::SqlStatement::(Get\w+|Step)|std::numeric_limits.*)$')
STDEFF = {'sort', 'stable_sort', 'reverse', 'random_shuffle', 'shuffle', 'transform', 'copy', 'copy_if', 'fill', 'swap', 'iter_swap',
          'unique', 'remove_if', 'rotate', 'partition', 'nth_element', 'memcpy', 'memset', 'generate'}


def effect(P, e):
    """0: no effect of its own (a query, a local), 1: outside the program's own code, 2: an effect"""
    if e.kind in ('set', 'put', 'add', 'del'):
        loc = e.name if e.kind == 'set' else e.obj
        if loc.startswith('elem(') or loc.startswith('~elem('):
            r = re.sub(r'^[~]*(?:(?:elem|part|rev)\()*', '', loc)
            if r.startswith('@'):
                return 1 if e.kind != 'set' and e.g.handed(r) else 0
        if loc.startswith('@'):
            # a local object matters when the function hands it out
            return 1 if e.kind != 'set' and e.g.handed(loc) else 0
        if loc.startswith('new ') and e.kind == 'put' and re.fullmatch(r'new [\w: *]+\[.*\](@\d)?', loc):
            return 1 if e.g.handed(loc) else 0
        if loc.startswith('~') and '.' not in loc:
            return 0
        # strip indices and final call results; a field that the reference tree does not have is bookkeeping of a change
        t = re.sub(r'\[.*\]$', '', loc)
        m = re.search(r'([A-Za-z_]\w*)$', t)
        nm = m.group(1) if m else None
        if nm in ('first', 'second') and ('(' in t or '[' in t):
            return 2
        if nm and ('.' in t or '::' in t) and P.basefields and nm not in P.basefields:
            return 0
        if nm and '.' not in t and '::' not in t and not t.startswith('$') and t != 'this':
            return 0
        return 2
    if e.kind == 'delete':
        return 2
    if e.kind == 'call':
        n = e.name
        if n.startswith(STDNS) or n.startswith('boost::'):
            if e.obj:
                return 1 if short(n) == 'precision' and e.args else 0 if 'stream' in n or short(n) in ('reserve', 'shrink_to_fit', 'str') else 1
            return 2 if short(n) in STDEFF else 0
        if not n.startswith('cyclus::'):
            return 1
        if QUERY.search(n):
            return 0
        q = P.qual.get(n)
        if q is None:
            q = P.qual[n] = P.isquery(n)
        return 0 if q else 2
    return 0


STREAMT = re.compile(r'^std::(?:basic_)?\w*stream(?:<char>)? &$')
CONTT = re.compile(r'^(?:const )?std::(?:vector|map|set|list|deque|multimap|multiset|unordered_\w+)<')
SEQT = re.compile(r'^(?:const )?std::(?:vector|list|deque)<')
_FIND = {}
SPLITV = False
_INS = {}
_PAIR = {}
PURE = {'begin', 'end', 'cbegin', 'cend', 'rbegin', 'rend', 'size', 'empty', 'length', 'count', 'find', 'get', 'c_str', 'data', 'at',
        'front', 'back', 'operator bool', 'contains', 'substr', 'lower_bound', 'upper_bound', 'key_comp'}
PUREFN = {'std::find', 'std::remove', 'std::make_pair', 'std::min', 'std::max', 'std::abs', 'std::fabs', 'fabs', 'std::count', 'std::distance',
          'std::to_string', 'std::move', 'std::forward', 'std::begin', 'std::end', 'std::next', 'std::prev', 'boost::uuids::nil_uuid'}
CHAIN = {'cyclus::Datum::AddVal'}     # return *this / this: fluent interfaces


def eltype(o):
    """element type of a sequence expression"""
    t = ctype(o)
    i = t.find('<')
    if i < 0:
        return ''
    d = 0
    for j in range(i + 1, len(t)):
        if t[j] in '<(':
            d += 1
        elif t[j] in '>)':
            if d == 0:
                return t[i + 1:j].strip()
            d -= 1
        elif t[j] == ',' and d == 0:
            return t[i + 1:j].strip()
    return ''


def unprime(t):
    return re.sub(r"(?<=[\w)\]}])'", '', t)


def B_implies(a, b):
    return B.And(a, B.Not(b)) == 0


def mkempty(x):
    if x in _LITS:
        return 'false' if _LITS[x] else 'true'
    return 'empty(%s)' % (_MAP[x][0] if x in _MAP else x)


def mksize(x):
    if x in _LITS:
        return str(len(_LITS[x]))
    if x in _FILL:
        return _FILL[x]
    return 'size(%s)' % (_MAP[x][0] if x in _MAP else x)


_FILL = {}


FRESH = re.compile(r'(new [\w:]+\{[^{}]*\}|[\w:]+::Create\((?:[^()]|\([^()]*\))*\))$')


def mkfold(c, iv, bs, body, self_='~'):
    """fold; a sum is the start plus the sum from nothing"""
    if bs == '~':
        return iv
    if iv != '<uninit>' and c != 'while' and '"' not in iv and any(t != self_ for t in body):
        for t in body:
            if t == self_:
                continue
            ts, k = lin_of(t)
            if ts.get(self_) != 1 or any('~' in outerpart(y) for y in ts if y != self_):
                break
        else:
            # (a sum of negated things is the negated sum)
            ng = sorted(t for t in body if t != self_)[0]
            ts = {k: x for k, x in lin_of(ng)[0].items() if k != self_}
            lead = ts[sorted(ts)[0]] if ts else lin_of(ng)[1]
            if lead < 0:
                alts = []
                for t in body:
                    ts, k = lin_of(t)
                    alts.append((t, lin_term({x: (y if x == self_ else -y) for x, y in ts.items()}, -k)))
                if len(body) == 1 and bs == body[0].replace(self_, '~'):
                    return ladd(iv, 'fold(%s; 0; %s)' % (c, alts[0][1].replace(self_, '~')), -1)
            return ladd(iv, 'fold(%s; 0; %s)' % (c, bs))
    return 'fold(%s; %s; %s)' % (c, iv, bs)


def outerpart(t):
    """t without the bodies of folds in it (their ~ is their own)"""
    if 'fold(' not in t:
        return t
    i = t.index('fold(')
    dep, j, cut = 0, i + 4, []
    while j < len(t):
        ch = t[j]
        if ch in '([{':
            dep += 1
        elif ch in ')]}':
            dep -= 1
            if dep == 0:
                break
        elif ch == ';' and dep == 1:
            cut.append(j)
        j += 1
    if len(cut) < 2:
        return t
    return t[:i] + t[i + 5:cut[1]] + outerpart(t[j + 1:])


def isinc(e):
    return e['k'] == 'Inc' and e['op'] == '++' or e['k'] == 'Asg' and e['op'] == '+=' and strip(e['y'])['k'] == 'Int' and strip(e['y']).get('v') == '1'


def elwrite(n):
    """a write to an element of an indexed object"""
    if n.kind != 'write':
        return False
    x = strip(n.e['x'] if n.e['k'] == 'Asg' else n.e['e'])
    return x['k'] == 'Idx'


_LITS = {}
_MAP = {}
_RECV = {}


def elem(c):
    return _MAP[c][1] if c in _MAP else 'elem(%s)' % c


def rangestr(x, y, e):
    if e.get('un'):
        return 'times(%s)' % ladd(y, x, -1)
    return '%s(%s)' % ('rrange' if e.get('rev') else 'range', ladd(y, x, -1))


def idxname(b, i):
    if i.startswith('elem(') and i.endswith(').first'):
        c = i[5:-7]
        if b.strip("~'") == c.strip("~'"):
            return 'elem(%s).second' % c        # the entry the traversal is at
    return '%s[%s]' % (b, i)


_REPL = {}


def replall(f, x, y, z):
    """replacing one literal after another: in one order where they do not meddle"""
    base, l = _REPL.get(x, (x, []))
    l = l + [(y, z)]
    lits = [a.strip('"') for p in l for a in p]
    if all(re.fullmatch(r'"[^"]"', a) and re.fullmatch(r'"[^"]*"', b) for a, b in l) and len({a for a, _ in l}) == len(l) \
            and not any(a.strip('"') in b.strip('"') for a, _ in l for _, b in l):
        l = sorted(l)
    r = base
    for a, b in l:
        r = '%s(%s,%s,%s)' % (f, r, a, b)
    _REPL[r] = (base, l)
    return r


def mkpair(x, y):
    s = 'pair(%s,%s)' % (x, y)
    _PAIR[s] = (x, y)
    return s


_CAT = {}


def cat(a, b):
    """concatenation, flattened; neighbouring literals are one"""
    l = []
    for x in _CAT.get(a, [a]) + _CAT.get(b, [b]):
        if x == '""':
            continue
        if l and _LIT.fullmatch(l[-1]) and _LIT.fullmatch(x):
            l[-1] = l[-1][:-1] + x[1:]
        else:
            l.append(x)
    if not l:
        return '""'
    t = ' ++ '.join(l)
    _CAT[t] = l
    return t


_LIT = re.compile(r'"(?:[^"\\]|\\.)*"', re.S)


def prod(vals):
    out = [(1, ())]
    for v in vals:
        if len(out) * len(v) > 32:
            v = [(1, one_s(v))]
        out = [(B.And(g, g2), ts + (t,)) for g, ts in out for g2, t in v]
    return [(g, ts) for g, ts in out if g]


_MM = {}


def mm(nm, *xs):
    """n-ary min / max, flattened and sorted"""
    l = []
    for x in xs:
        l += _MM[x][1] if x in _MM and _MM[x][0] == nm else [x]
    l = sorted(set(l))
    if nm == 'min' and len(l) > 1:
        l = [x for x in l if not x.startswith('std::numeric_limits<double>::max(')] or l[:1]
    if len(l) == 1:
        return l[0]
    t = '%s(%s)' % (nm, ','.join(l))
    _MM[t] = (nm, l)
    return t


def minmax(g, a, b):
    """value a under g, else b"""
    sup = B.support(g)
    if len(sup) != 1:
        return None
    at = list(sup)[0]
    r = _REL.get(at)
    if not r:
        return None
    pos = g == B.var(at)
    # condition: lin op const
    L, lc = lin_of(r[0])
    D, dc = lin_of(ladd(a, b, -1))
    for sg in (1, -1):
        if {k: sg * c for k, c in D.items()} == L and abs(-r[2] - sg * dc) <= (1 if r[3] else 0):
            # g true means sg*(a-b) > 0  (if pos)
            big = (sg == 1) == pos
            return mm('max' if big else 'min', a, b)
    return None


def mmsplit(out):
    """merge guarded alternatives  x if x < y, else y  (within the case of y) to min / max"""
    out = list(out)
    again = True
    while again and len(out) > 1:
        again = False
        for i in range(len(out)):
            for j in range(len(out)):
                if i == j:
                    continue
                (gi, ti), (gj, tj) = out[i], out[j]
                for at in sorted(B.support(gj) & B.support(gi)):
                    if at not in _REL:
                        continue
                    for s in (0, 1):
                        if B.restrict(gj, B.aidx[at], 1 - s) != 0:
                            continue
                        G = B.restrict(gj, B.aidx[at], s)
                        lit = B.var(at) if s == 0 else B.Not(B.var(at))
                        if B.And(B.And(G, lit), B.Not(gi)) != 0:
                            continue
                        m = minmax(lit, ti, tj)
                        if not m:
                            continue
                        rest = B.And(gi, B.Not(G))
                        out = [o for k, o in enumerate(out) if k not in (i, j)] + [(G, m)] + ([(rest, ti)] if rest != 0 else [])
                        out = merge(out)
                        again = True
                        break
                    if again:
                        break
                if again:
                    break
            if again:
                break
    return out


def ordefault(g, a, b):
    """M[k] where M has k, else an empty value: what M[k] yields"""
    if not (b.startswith('@') or b in ('0', 'false', '""', 'NULL')) or not a.endswith(']'):
        return None
    sup = B.support(g)
    if len(sup) != 1:
        return None
    at = list(sup)[0]
    if g == B.var(at) and at.startswith('has('):
        i = 4 + len(a)
        for j in range(len(a)):
            if a[j] == '[' and at == 'has(%s,%s)' % (a[:j], a[j + 1:-1]):
                return a
    return None


def ptrlike(t):
    t = t.strip()
    return t.endswith('*') or t.endswith('&') or 'ptr<' in t.split(',')[0] and not CONTT.match(t) or t.endswith('::Ptr')


def tyname(t):
    t = t.replace('const ', '').replace('std::', '').replace('cyclus::', '').replace('class ', '')
    return re.sub(r'\[[A-Za-z_]\w*\]$', '[]', t)


def ctype(o):
    """type of a container expression, seen through pointers"""
    t = o.get('t') or ''
    o = strip(o)
    t = o.get('t') or t
    while not t and o['k'] in ('Deref', 'Addr') or o['k'] == 'Deref' and not t:
        o = strip(o['e'])
        t = o.get('t') or ''
    m = re.match(r'^(?:const )?(?:boost::|std::)(?:shared|unique|weak)_ptr<(.*)>', t, re.S)
    return m.group(1) if m else t


def isassoc(o):
    t = ctype(o)
    return bool(re.match(r'^(const )?(std::|boost::)?(unordered_)?(multi)?map<', t)) or 'std::map<' in t.split('*')[0][:40]


def iskeyed(o):
    t = ctype(o)
    return isassoc(o) or bool(re.search(r'(std::|boost::)?(unordered_)?(multi)?set<', t.split('*')[0][:40]))


def param_types(key):
    """parameter types from a function key 'name(t1, t2) const@file'"""
    i = key.find('(')
    # operator()(...)
    if key[:i].endswith('operator'):
        i = key.find('(', i + 1)
    if i < 0:
        return []
    d = 0
    out, cur = [], ''
    for ch in key[i + 1:]:
        if ch in '<(':
            d += 1
        if ch in '>)':
            if ch == ')' and d == 0:
                break
            d -= 1
        if ch == ',' and d == 0:
            out.append(cur.strip())
            cur = ''
        else:
            cur += ch
    if cur.strip():
        out.append(cur.strip())
    return out
