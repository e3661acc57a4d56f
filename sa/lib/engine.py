"""Rule engine over the resolved program: program index, canonical expressions,
inlined control-flow graphs, dataflow.  No code of /repo is executed and no
solver is used: everything is syntax tree + CFG + joins over finite lattices.

Design for robustness against behaviour-preserving edits:
  * calls to repo functions are inlined (helper extraction is invisible),
  * locals with one reaching definition are substituted (introduced / removed
    temporaries are invisible),
  * trivial accessors are substituted by what they return,
  * pointer/smart-pointer dereference, implicit conversions and copies vanish,
  * comparisons are normalised to linear relations, container emptiness /
    membership tests to one form each,
  * every recognised complete traversal (range-for, iterator loop, index loop,
    while-iterator loop, std::for_each) becomes the same ITER node.
"""
import json
import os
import re
from collections import defaultdict

LOGN = ('cyclus::Logger',)

MUTATORS = {'push_back', 'push_front', 'pop_back', 'pop_front', 'insert', 'erase', 'clear', 'swap', 'resize', 'assign',
            'emplace', 'emplace_back', 'emplace_front', 'reset', 'splice', 'merge', 'remove', 'remove_if', 'sort', 'push',
            'pop', 'append', 'try_emplace', 'insert_or_assign', 'reserve', 'emplace_hint', 'str', 'extract', 'reverse', 'unique'}
# overridden outside the C++ sources (Cython shims)
NOTRIVIAL = {'IsShim'}
# standard algorithms whose function arguments the analysis looks into
ALGOS = {'for_each', 'sort', 'stable_sort', 'min_element', 'max_element', 'accumulate', 'any_of', 'all_of', 'none_of', 'find_if', 'count_if',
         'copy_if', 'remove_if', 'transform', 'partition', 'stable_partition', 'nth_element', 'lower_bound', 'upper_bound', 'unique'}
NOTHROW = {'begin', 'end', 'cbegin', 'cend', 'rbegin', 'rend', 'size', 'empty', 'length', 'count', 'find', 'get', 'c_str', 'data', 'front', 'back'}
INPLACE = {'boost::' + q + n for q in ('', 'algorithm::') for n in ('trim', 'trim_left', 'trim_right', 'trim_if', 'to_lower', 'to_upper', 'replace_all',
          'replace_first', 'erase_all', 'split')}
STDNS = ('std::', 'boost::', '__gnu_cxx::')


def walk(e):
    """all nested dict nodes of an AST (not descending into lambdas' bodies twice)."""
    st = [e]
    while st:
        x = st.pop()
        if isinstance(x, dict):
            if 'k' in x:
                yield x
            for v in x.values():
                if isinstance(v, (dict, list)):
                    st.append(v)
        elif isinstance(x, list):
            for v in x:
                if isinstance(v, (dict, list)):
                    st.append(v)


def short(n):
    """last component of a qualified name, template arguments aside"""
    d = 0
    out = []
    for ch in n:
        if ch == '<':
            d += 1
        elif ch == '>':
            d -= 1
        elif d == 0:
            out.append(ch)
    s = ''.join(out)
    return s.split('::')[-1]


def esc(s):
    return s.replace('\\', '\\\\').replace('"', '\\"').replace('\n', '\\n').replace('\t', '\\t').replace('\r', '\\r')


def notmpl(n):
    d = 0
    out = []
    i = 0
    while i < len(n):
        if n.startswith('operator', i):
            out.append(n[i:])
            break
        ch = n[i]
        if ch == '<':
            d += 1
        elif ch == '>':
            d -= 1
        elif d == 0:
            out.append(ch)
        i += 1
    return ''.join(out)


def _baseline():
    d = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'baseline')
    out = []
    for n in ('functions.json', 'fields.json'):
        p = os.path.join(d, n)
        if not os.path.exists(p):
            out.append(None)
            continue
        with open(p) as f:
            j = json.load(f)
        out.append(set(j) if n == 'functions.json' else {x[0] for fs in j.values() for x in fs})
    p = os.path.join(d, 'trivial.json')
    tr = None
    if os.path.exists(p):
        with open(p) as f:
            tr = {k: set(v) for k, v in json.load(f).items()}
    p = os.path.join(d, 'globals.json')
    if out[1] and os.path.exists(p):
        with open(p) as f:
            out[1] |= {x[0] for fs in json.load(f).values() for x in fs}
    return out + [tr]


SLICE = 20       # dispatches with fewer branches are read whole


def _case_label(e):
    e = strip(e) if e else None
    return short(e.get('n') or str(e.get('v'))) if e else None


def _type_test(c):
    """the type a condition of the form `x == typeid(T)` tests for"""
    if c is None:
        return None
    ty = [x['st'] for x in walk(c) if x['k'] == 'Typeid' and x.get('st')]
    if len(ty) != 1 or any(x['k'] in ('Log', 'Not') or x.get('op') in ('&&', '||', '!', '!=') for x in walk(c)):
        return None
    return ty[0].replace(' ', '')


def dispatch(f):
    """the wide dispatch of a function: a switch, or an if-else chain of type tests; (node, [(labels, branch)], other)"""
    if 'disp' in f:
        return f['disp']
    f['disp'] = None
    for x in walk(f['body']):
        if x['k'] == 'Switch' and x['b'] and x['b']['k'] == 'Block':
            groups, cur = [], None
            for st in x['b']['b']:
                if st is None:
                    continue
                if st['k'] in ('Case', 'Default'):
                    labels, y = [], st
                    while y is not None and y['k'] in ('Case', 'Default'):
                        labels.append('default' if y['k'] == 'Default' else _case_label(y.get('e')))
                        y = y.get('s')
                    cur = (labels, [st])
                    groups.append(cur)
                elif cur is not None:
                    cur[1].append(st)
            if len(groups) >= SLICE:
                f['disp'] = (x, groups)
                return f['disp']
        if x['k'] == 'If' and _type_test(x['c']):
            groups, y = [], x
            while y is not None and y['k'] == 'If' and _type_test(y['c']):
                groups.append(([_type_test(y['c'])], y))
                y = y.get('el')
                while y is not None and y['k'] == 'Block' and len(y['b']) == 1:
                    y = y['b'][0]
            if len(groups) >= SLICE:
                f['disp'] = (x, groups + [(['default'], y)])
                return f['disp']
    return None


def _ends(st):
    if st is None:
        return False
    if st['k'] in ('Break', 'Return', 'Continue', 'Goto') or strip(st)['k'] == 'Throw':
        return True
    if st['k'] == 'Block':
        return bool(st['b']) and _ends(st['b'][-1])
    if st['k'] in ('Case', 'Default', 'Label'):
        return _ends(st.get('s'))
    return st['k'] == 'If' and bool(st.get('el')) and _ends(st['th']) and _ends(st['el'])


def _rebuild(x, old, new):
    """the same tree with the node `old` replaced; shares everything off the path to it"""
    if x is old:
        return new
    if isinstance(x, list):
        for i, v in enumerate(x):
            if isinstance(v, (dict, list)):
                y = _rebuild(v, old, new)
                if y is not v:
                    return x[:i] + [y] + x[i + 1:]
        return x
    for k, v in x.items():
        if isinstance(v, (dict, list)):
            y = _rebuild(v, old, new)
            if y is not v:
                r = dict(x)
                r[k] = y
                return r
    return x


def slice_labels(f):
    d = dispatch(f) if f.get('body') else None
    return [] if not d else sorted({l for ls, _ in d[1] for l in ls if l} | {'default'})


def slice_of(P, f, label):
    """the function with only one branch of its wide dispatch: what it does when the dispatched value selects `label`"""
    d = dispatch(f)
    if not d:
        return None
    ck = (f['key'], label)
    if ck in P.slices:
        return P.slices[ck]
    x, groups = d
    hit = next((i for i, g in enumerate(groups) if label in g[0]), None)
    dflt = hit is None
    if dflt:
        hit = next((i for i, g in enumerate(groups) if 'default' in g[0]), None)
    if x['k'] == 'If':
        y = groups[hit][1] if hit is not None else None
        if 'default' not in (groups[hit][0] if hit is not None else ['default']):
            y = dict(y)
            y.pop('el', None)
        new = y or {'k': 'Block', 'b': [], 'l': x['l']}
    else:
        body = []
        if hit is not None:
            j = hit
            first = groups[hit][1][0]
            inner = first
            while inner is not None and inner['k'] in ('Case', 'Default'):
                last = inner
                if label in ('default' if inner['k'] == 'Default' else _case_label(inner.get('e')),):
                    break
                inner = inner.get('s')
            case = dict(inner if inner is not None and inner['k'] in ('Case', 'Default') else last)
            y = case.get('s')
            while y is not None and y['k'] in ('Case', 'Default'):
                y = y.get('s')
            case['s'] = y
            body.append(case)
            body += groups[hit][1][1:]
            while not _ends(body[-1]) and j + 1 < len(groups):
                j += 1
                y = groups[j][1][0]
                while y is not None and y['k'] in ('Case', 'Default'):
                    y = y.get('s')
                body += [y] + groups[j][1][1:]
        blk = dict(x['b'])
        blk['b'] = body
        new = dict(x)
        new['b'] = blk
    g = dict(f)
    g['body'] = _rebuild(f['body'], x, new)
    g['n'] = f['n'] + '#' + label
    g['sn'] = f['sn'] + '#' + label
    P.slices[ck] = g
    return g


class Prog:
    def __init__(self, facts):
        self.slices = {}
        self.facts = facts
        self.F = facts['functions']
        self.R = facts['records']
        self.E = facts['enums']
        self.G = facts['globals']
        self.byname = defaultdict(list)
        for k, f in self.F.items():
            self.byname[f['n']].append(f)
            f['sn'] = notmpl(f['n'])
            if f['sn'] != f['n']:
                self.byname[f['sn']].append(f)
        # class hierarchy
        self.subs = defaultdict(set)
        self.bases = defaultdict(set)
        for n, r in self.R.items():
            for b in r['bases']:
                bt = b['t']
                self.subs[bt].add(n)
                self.bases[n].add(bt)
        # overriders (direct 'over' facts, transitively)
        self.over = defaultdict(set)
        for n, r in self.R.items():
            for m in r['methods']:
                for o in m['over']:
                    self.over[o].add(m['key'])
        self._trivial = {}
        self.forwards = set()
        self.noeffect = re.compile('(?!)')
        self.sums = {}
        self.fnvals = {}
        self.qual = {}
        self.basefns, self.basefields, self.basetriv = _baseline()
        self._strip_logs()
        self._bind_lambdas()
        self.renamed = self._undo_renames()

    # ------------------------------------------------------------- helpers
    def _islog(self, s):
        if not isinstance(s, dict) or s.get('k') != 'If':
            return False
        for x in walk(s.get('c')):
            if x.get('k') == 'Ref' and x.get('n', '').startswith('cyclus::Logger::'):
                return True
            if x.get('k') == 'Call' and x.get('n', '').startswith('cyclus::Logger::'):
                return True
        return False

    def _strip_logs(self):
        nop = {'k': 'NullS', 'l': 0}

        def rec(x):
            if isinstance(x, dict):
                for k, v in list(x.items()):
                    if self._islog(v):
                        x[k] = dict(nop, l=v.get('l', 0))
                    elif isinstance(v, (dict, list)):
                        rec(v)
            elif isinstance(x, list):
                for i, v in enumerate(x):
                    if self._islog(v):
                        x[i] = dict(nop, l=v.get('l', 0))
                    elif isinstance(v, (dict, list)):
                        rec(v)
        if not self.facts.get('_nolog'):
            for f in self.F.values():
                if f.get('body'):
                    rec(f['body'])
            self.facts['_nolog'] = True

    def _bind_lambdas(self):
        """std::bind / boost::lambda::bind of a function, and a function named as the argument of a standard algorithm, become the
        lambda expression they stand for"""
        if self.facts.get('_nobind'):
            return
        self.facts['_nobind'] = True
        for f in self.F.values():
            if not f.get('body'):
                continue
            for x in walk(f['body']):
                if x['k'] == 'Bin' and x.get('ov') in self.F and x['ov'] != f['key'] and self.F[x['ov']]['sn'] == f['sn'] and not f.get('cls'):
                    # one overload of an operator that uses another
                    a, ov, l, t = [x['x'], x['y']], x['ov'], x.get('l', 0), x.get('t')
                    x.clear()
                    x.update({'k': 'Call', 'f': ov, 'n': self.F[ov]['n'], 'a': a, 'l': l, 't': t})
                if x['k'] == 'Call' and x.get('o') is not None and short(x.get('n') or '') == 'reset' and '_ptr' in (x.get('n') or '') \
                        and x['n'].startswith(STDNS):
                    # p.reset(q): p = q
                    a = [y for y in x.get('a', []) if not y.get('dflt')]
                    if len(a) <= 1:
                        o, l = x['o'], x.get('l', 0)
                        x.clear()
                        x.update({'k': 'Asg', 'op': '=', 'x': o, 'y': a[0] if a else {'k': 'Null', 't': '', 'l': l}, 'l': l, 't': o.get('t', '')})
                        continue
                if x['k'] != 'Call' or x.get('o') is not None:
                    continue
                n = x.get('n') or ''
                if n in ('std::bind', 'boost::bind', 'boost::lambda::bind') or n.startswith('boost::lambda::bind'):
                    self._bindlam(x)
                elif n.startswith('std::') and short(n) in ALGOS:
                    for i, a in enumerate(x.get('a', [])):
                        q = strip(a)
                        while q['k'] == 'Addr':
                            q = strip(q['e'])
                        if q['k'] == 'Ref' and q.get('s') == 'func' and q.get('f'):
                            ts = ptypes(q['f'])
                            b = {'k': 'Call', 'n': 'std::bind', 'l': x.get('l', 0), 't': '', 'a': [q] + [
                                {'k': 'Ref', 's': 'global', 'n': 'std::placeholders::_%d' % (j + 1)} for j in range(len(ts))]}
                            if self._bindlam(b):
                                x['a'][i] = b

    def _bindlam(self, x):
        a = x.get('a', [])
        if not a:
            return False
        q = strip(a[0])
        while q['k'] == 'Addr':
            q = strip(q['e'])
        if q['k'] != 'Ref' or q.get('s') != 'func' or not q.get('f'):
            return False
        rest = [strip(y) for y in a[1:]]
        ts = ptypes(q['f'])
        obj = None
        if len(rest) == len(ts) + 1:
            obj, rest = rest[0], rest[1:]
            if obj['k'] == 'Addr':
                obj = strip(obj['e'])
            if obj['k'] == 'ThisPtr':
                obj = {'k': 'This'}
        if len(rest) != len(ts):
            return False
        ps, args = {}, []
        l = x.get('l', 0)

        def ph(y):
            while y['k'] in ('Addr', 'Ctor', 'Cast') and (y.get('e') or y.get('a')):
                y = strip(y['e'] if y.get('e') else y['a'][0])
            m = re.search(r'::_(\d)$', y.get('n') or '') if y['k'] == 'Ref' else None
            return int(m.group(1)) if m and ('placeholders' in y['n'] or 'lambda' in y['n']) else None
        for y, t in zip(rest, ts):
            i = ph(y)
            if i is None:
                args.append(y)
                continue
            d = 'bind%d_%d' % (id(x), i)
            ps.setdefault(i, {'n': '_%d' % i, 'd': d, 't': t})
            args.append({'k': 'Ref', 's': 'param', 'd': d, 'n': '_%d' % i, 't': t, 'l': l})
        if obj is not None:
            i = ph(obj)
            if i is not None:
                d = 'bind%d_%d' % (id(x), i)
                ps.setdefault(i, {'n': '_%d' % i, 'd': d, 't': ''})
                obj = {'k': 'Ref', 's': 'param', 'd': d, 'n': '_%d' % i, 't': '', 'l': l}
        if sorted(ps) != list(range(1, len(ps) + 1)):
            return False
        rt = (q.get('t') or 'void').split('(')[0].strip()
        call = {'k': 'Call', 'n': q['n'], 'f': q['f'], 'a': args, 'l': l, 't': rt}
        if obj is not None:
            call['o'] = obj
        fn = self.F.get(q['f'])
        if obj is not None and any(m['key'] == q['f'] and m.get('virt') for r in [self.R.get(q['n'].rsplit('::', 1)[0])] if r for m in r['methods']):
            call['virt'] = 1
        st = {'k': 'Expr', 'e': call, 'l': l} if rt == 'void' else {'k': 'Return', 'e': call, 'l': l}
        x.clear()
        x.update({'k': 'Lambda', 'l': l, 't': '', 'bound': 1, 'ps': [ps[i] for i in sorted(ps)], 'body': {'k': 'Block', 'b': [st], 'l': l}})
        return True

    def _undo_renames(self):
        """a data member that only changed its name gets its old name back"""
        p = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'baseline', 'fields.json')
        if self.facts.get('_unren') or not os.path.exists(p):
            return self.facts.get('_unren') or {}
        with open(p) as f:
            base = json.load(f)
        ren = {}
        for n, fs in base.items():
            r = self.R.get(n)
            if not r:
                continue
            cur = {x['n']: x['t'] for x in r['fields']}
            old = {x[0]: x[1] for x in fs}
            gone = [k for k in old if k not in cur]
            new = [k for k in cur if k not in old]
            for g in gone:
                c = [k for k in new if cur[k] == old[g]]
                if len(c) == 1 and len([q for q in gone if old[q] == old[g]]) == 1:
                    ren[n + '::' + c[0]] = g
        p = os.path.join(os.path.dirname(p), 'globals.json')
        gren = {}
        if os.path.exists(p):
            with open(p) as f:
                base = json.load(f)
            cur = {}
            for n, x in self.G.items():
                if '::' in n:
                    cur.setdefault(n.rsplit('::', 1)[0], {})[n.rsplit('::', 1)[1]] = x['t']
            for sc, gs in base.items():
                c, old = cur.get(sc, {}), dict(gs)
                for k in old:
                    if k not in c:
                        m = [q for q in c if q not in old and c[q] == old[k]]
                        if len(m) == 1 and len([q for q in old if q not in c and old[q] == old[k]]) == 1:
                            gren[sc + '::' + m[0]] = sc + '::' + k
        self.facts['_unren'] = ren
        for f in self.F.values() if gren else ():
            for x in walk(f.get('body')):
                if x.get('k') in ('Ref', 'Mem') and x.get('n') in gren:
                    x['n'] = gren[x['n']]
                    if x.get('m'):
                        x['m'] = x['n'].rsplit('::', 1)[1]
        for a, b in gren.items():
            self.G[b] = self.G.pop(a)
        if not ren:
            return ren
        tail = {notmpl(k): v for k, v in ren.items()}
        for f in self.F.values():
            for x in walk(f.get('body')):
                self._ren1(x, tail)
            for i in f.get('inits') or []:
                if i.get('m') and notmpl(i['m']) in tail:
                    i['m'] = i['m'].rsplit('::', 1)[0] + '::' + tail[notmpl(i['m'])]
                for x in walk(i.get('e')):
                    self._ren1(x, tail)
        for k, v in ren.items():
            rec, fld = k.rsplit('::', 1)
            for x in self.R[rec]['fields']:
                if x['n'] == fld:
                    x['n'] = v
        return ren

    def _ren1(self, x, tail):
        if x.get('k') == 'Mem' and x.get('n') and notmpl(x['n']) in tail:
            v = tail[notmpl(x['n'])]
            x['n'] = x['n'].rsplit('::', 1)[0] + '::' + v
            x['m'] = v

    def isquery(self, name):
        """const member functions that return a value have no effect of their own"""
        d = [f for f in self.fns(name)]
        cls = name.rsplit('::', 1)[0]
        ms = [m for n, r in self.R.items() if notmpl(n) == cls for m in r['methods'] if notmpl(m['key']).startswith(name + '(')]
        if d:
            return all(f.get('const') and f.get('t', 'x') != 'void' for f in d)
        if ms:
            return all(m['key'].endswith(' const') and m.get('t', 'x') != 'void' for m in ms)
        return False

    def fns(self, name):
        if '#' in name:
            base, label = name.split('#', 1)
            return [x for x in (slice_of(self, f, label) for f in self.byname.get(base, []) if f.get('body')) if x]
        return self.byname.get(name, [])

    def fn(self, name, pred=None):
        """the unique function of that qualified name (optionally filtered)"""
        c = [f for f in self.fns(name) if pred is None or pred(f)]
        return c[0] if len(c) == 1 else None

    def derived(self, cls):
        out, st = set(), [cls]
        while st:
            c = st.pop()
            if c in out:
                continue
            out.add(c)
            st.extend(self.subs.get(c, ()))
        return out

    def ancestors(self, cls):
        out, st = set(), [cls]
        while st:
            c = st.pop()
            if c in out:
                continue
            out.add(c)
            st.extend(self.bases.get(c, ()))
        return out

    def impls(self, key):
        """all functions a virtual call to key may run (CHA)"""
        out, st, seen = [], [key], set()
        while st:
            k = st.pop()
            if k in seen:
                continue
            seen.add(k)
            if k in self.F:
                out.append(self.F[k])
            st.extend(self.over.get(k, ()))
        return out

    def argwritten(self, key, i, virt=True, depth=0):
        """may a call to key change what its i-th (reference or pointer) argument refers to (the object itself)?"""
        memo = self.__dict__.setdefault('_argw', {})
        k = (key, i, virt)
        if k in memo:
            return memo[k]
        memo[k] = False      # recursion: decided by the rest
        fs = self.impls(key) if virt else [self.F[key]] if key in self.F else []
        fs = [f for f in fs if not f.get('pure')]
        r = not fs or depth > 6
        for f in fs:
            if r:
                break
            if i >= len(f.get('ps', [])):
                r = True
                break
            q = f['ps'][i]
            if re.match(r'const [^*&]*[*&]$', q['t'].strip()) or not re.search(r'[*&]\s*$', q['t']):
                continue
            if not f.get('body'):
                r = bool(f.get('kind') != 'ctor')
                continue
            r = self._argw1(f, q['d'], depth)
        memo[k] = r
        return r

    def _argw1(self, f, d, depth):
        def base(x):
            x = strip(x)
            while x['k'] in ('Deref', 'Addr', 'Cast', 'Idx', 'Mem'):
                x = strip(x.get('e') or x.get('b'))
            return x['k'] == 'Ref' and x.get('d') == d

        def direct(x):
            x = strip(x)
            while x['k'] in ('Deref', 'Addr', 'Cast'):
                x = strip(x['e'])
            return x['k'] == 'Ref' and x.get('d') == d
        for x in walk(f['body']):
            k = x['k']
            if k == 'Asg' and base(x['x']) or k == 'Inc' and base(x['e']):
                return True
            if k == 'Lambda':
                return True
            if x.get('t') and 'i' in x and 'd' in x and isinstance(x.get('i'), dict) and re.search(r'[*&]\s*$', x['t']) and 'const' not in x['t'] and base(x['i']):
                return True
            if k == 'Call':
                if x.get('o') is not None and base(x['o']):
                    n = short(x.get('n') or '')
                    if (x.get('n') or '').startswith(STDNS):
                        if n in MUTATORS:
                            return True
                    elif not (x.get('f') or '').rstrip().endswith('const') and ') const' not in (x.get('f') or ''):
                        return True
                std = (x.get('n') or '').startswith(STDNS)
                for j, a in enumerate(x.get('a', [])):
                    if direct(a):
                        if std or x.get('o') is None and not x.get('f') or self.argwritten(x.get('f'), j, not x.get('qual'), depth + 1):
                            return True
            if k == 'Ctor' and not (x.get('n') or '').startswith(STDNS):
                for a in x.get('a', []):
                    if direct(a) and not x.get('copy'):
                        return True
        return False

    def trivial(self, key):
        """expression returned by a non-virtual accessor whose body is one return"""
        if key in self._trivial:
            return self._trivial[key]
        self._trivial[key] = None
        f = self.F.get(key)
        r = None
        if f and f.get('body') and f.get('kind') not in ('ctor', 'dtor'):
            b = [s for s in f['body']['b'] if s['k'] != 'NullS']
            if len(b) == 1 and b[0]['k'] == 'Return' and b[0].get('e'):
                e = b[0]['e']
                ok = short(f['n']) not in NOTRIVIAL
                n = 0
                for x in walk(e):
                    n += 1
                    if x['k'] in ('Asg', 'Inc', 'New', 'Delete', 'Throw', 'Lambda', 'Cond'):
                        z = strip(x['x']) if x['k'] == 'Asg' and x is strip(e) and not x.get('ov') else {}
                        if not (z.get('k') == 'Ref' and any(q['d'] == z.get('d') and not re.search('[&*]', q['t']) for q in f.get('ps', []))):
                            ok = False      # (return p += x with p a parameter passed by value is a plain sum)
                if ok and n < 14:
                    r = (f, e)
                    bt = self.basetriv
                    known = bt is not None and self.basefns and f['sn'] in self.basefns and not os.environ.get('CYCSA_NOTRIV')
                    acts = any(x['k'] == 'Call' and self._acts(x) for x in walk(e))
                    if known and (f['sn'] not in bt['forwards' if acts else 'trivial'] or key not in bt['keys'] and any(
                            k in self.F and self.F[k]['sn'] == f['sn'] for k in bt['keys'])):
                        r = None        # a function of the reference tree that is known by its name
                    elif acts:
                        self.forwards.add(key)      # hands its arguments on to something that does something
                        r = None
        self._trivial[key] = r
        return r

    def _acts(self, x):
        """a call to a function of the program that is neither an accessor nor a query"""
        n = notmpl(x.get('n') or '')
        k = x.get('f')
        if not n.startswith('cyclus::'):
            return bool(x.get('o') is not None and n.startswith(STDNS) and short(n) in
                        ('push_back', 'insert', 'emplace', 'emplace_back', 'erase', 'clear', 'pop_back', 'pop_front', 'push_front', 'assign', 'resize'))
        if self.noeffect.search(n) or self.trivial(k) is not None:
            return False
        return not self.isquery(n)


# ---------------------------------------------------------------- frames
class Frame:
    _n = 0

    def __init__(self, fn, parent=None, this=None, binds=None, call=None):
        Frame._n += 1
        self.id = Frame._n
        self.fn = fn
        self.parent = parent
        self.this = this          # (ast, frame) or None
        self.binds = binds if binds is not None else {}  # decl id -> (ast, frame)
        self.call = call
        self.depth = parent.depth + 1 if parent else 0
        self.enter = None
        self.retval = None        # (ast, frame) if single return

    def stack(self):
        f, out = self, []
        while f:
            out.append(f.fn['key'])
            f = f.parent
        return out


class Node:
    __slots__ = ('id', 'kind', 'e', 'fr', 'line', 'succ', 'pred', 'x', 'fn')

    def __init__(self, id, kind, e, fr, line):
        self.id = id
        self.kind = kind
        self.e = e
        self.fr = fr
        self.line = line
        self.succ = []   # (node id, label)
        self.pred = []
        self.x = {}
        self.fn = fr.fn if fr else None

    def loc(self):
        return '%s:%s (%s)' % (self.fn['file'], self.line, self.fn['sn']) if self.fn else '?'

    def __repr__(self):
        return '<%d %s %s>' % (self.id, self.kind, self.line)


class Graph:
    """Inlined CFG of one root function.

    stop(call_ast, graph, frame) -> True: keep the call atomic.
    """

    def __init__(self, prog, root, stop=None, depth=6, inline_virtual=False, this=None, maxnodes=60000, exc_calls=False,
                 follow=None):
        self.P = prog
        self.root = root
        self.stop = stop or (lambda e, g, fr: False)
        self.depth = depth
        self.iv = inline_virtual
        self.follow = follow      # optional: only inline when follow(fn) true
        self.nodes = []
        self.maxnodes = maxnodes
        self.exc_calls = exc_calls
        self.defs = defaultdict(list)   # (frame id, decl) -> [node]
        self.vars = {}
        self.fr0 = Frame(root)
        self.inlined = set()
        self.retnodes = {}
        self.exprnode = {}
        self._handlers = []
        self._keep, self._lstack, self._dloop = [], [], {}
        self.allit = defaultdict(list)
        self.entry = self.new('entry', None, self.fr0, root['l'])
        self.exit = self.new('exit', None, self.fr0, root.get('le', root['l']))
        self.excexit = self.new('excexit', None, self.fr0, root.get('le', root['l']))
        cur = self.entry
        cur = self._ctor_inits(root, self.fr0, cur)
        end = self._stmt(root.get('body'), self.fr0, cur, Ctx(None, None, [self.exit, None]))
        if end is not None:
            self.edge(end, self.exit)
        self._rd = None
        self._prune()

    # ------------------------------------------------------------ building
    def new(self, kind, e, fr, line, **x):
        if len(self.nodes) > self.maxnodes:
            raise RuntimeError('graph of %s too large' % self.root['key'])
        n = Node(len(self.nodes), kind, e, fr, line)
        n.x.update(x)
        self.nodes.append(n)
        if kind in ('write', 'call') and e is not None:
            self.exprnode[(id(e), fr.id)] = n
        return n

    def edge(self, a, b, label=None):
        if a is None or b is None:
            return
        a.succ.append((b.id, label))
        b.pred.append((a.id, label))

    def _prune(self):
        """drop nodes unreachable from entry from pred lists"""
        seen = {self.entry.id}
        st = [self.entry.id]
        while st:
            for t, _ in self.nodes[st.pop()].succ:
                if t not in seen:
                    seen.add(t)
                    st.append(t)
        self.reach = seen
        for n in self.nodes:
            n.pred = [(p, l) for p, l in n.pred if p in seen]
        for k in list(self.defs):
            self.defs[k] = [n for n in self.defs[k] if n.id in seen]

    def live(self):
        return [n for n in self.nodes if n.id in self.reach]

    def _ctor_inits(self, f, fr, cur):
        for i in f.get('inits', []) or []:
            b = i.get('e') if i.get('base') or i.get('deleg') else None
            if b is not None and b['k'] == 'Ctor' and b.get('f') in self.P.F and self.P.F[b['f']].get('body') and fr.depth < self.depth and \
                    self.P.F[b['f']]['n'].startswith('cyclus::'):
                for a in b.get('a', []):
                    cur = self._expr(a, fr, cur)
                    if cur is None:
                        return None
                cur = self._inline(b, self.P.F[b['f']], fr, cur)
                if cur is None:
                    return None
                continue
            if i.get('e') is not None:
                cur = self._expr(i['e'], fr, cur)
                if cur is None:
                    return None
            if i.get('m'):
                n = self.new('write', {'k': 'Asg', 'op': '=', 'x': {'k': 'Mem', 'n': i['m'], 'm': short(i['m']), 'b': {'k': 'This'}}, 'y': i.get('e'), 'l': i['l'], 'init': 1}, fr, i['l'])
                self.edge(cur, n)
                cur = n
        return cur

    def _seq(self, nodes_fn, cur):
        return nodes_fn(cur)

    # --- statements: return the node control falls out of (None if it does not)
    def _stmt(self, s, fr, cur, ctx):
        if s is None or cur is None:
            return cur
        k = s['k']
        if k == 'Block':
            for c in s['b']:
                cur = self._stmt(c, fr, cur, ctx)
                if cur is None:
                    return None
            return cur
        if k == 'Expr':
            x = strip(s['e'])
            if x['k'] == 'Call' and x.get('n') == 'std::swap' and len(x.get('a', [])) == 2:
                p, q = strip(x['a'][0]), strip(x['a'][1])
                t = (p.get('t') or '').replace('const ', '')
                if p['k'] in ('Ref', 'Mem') and q['k'] in ('Ref', 'Mem') and (is_intty(t) or t in ('double', 'float', 'std::string') or t.endswith('*')):
                    mk, l = self._mk, s.get('l', 0)
                    d = 'sw%d' % id(x)
                    self._keep.append(x)
                    tmp = mk(k='Ref', s='local', d=d, n='swap', t=t, l=l)
                    for c in (mk(k='Decl', v=[mk(n='swap', d=d, t=t, i=p, l=l)], l=l),
                              mk(k='Expr', e=mk(k='Asg', op='=', x=p, y=q, t=t, l=l), l=l), mk(k='Expr', e=mk(k='Asg', op='=', x=q, y=tmp, t=t, l=l), l=l)):
                        cur = self._stmt(c, fr, cur, ctx)
                    return cur
            if x['k'] == 'Call' and x.get('n') == 'std::advance' and len(x.get('a', [])) == 2 and strip(x['a'][0])['k'] in ('Ref', 'Mem'):
                mk, l, p = self._mk, s.get('l', 0), strip(x['a'][0])
                y = mk(k='Bin', op='+', x=p, y=x['a'][1], t=p.get('t') or '', l=l)
                return self._expr(mk(k='Asg', op='=', x=p, y=y, t=p.get('t') or '', l=l), fr, cur)
            if x['k'] == 'Call' and x.get('n') in INPLACE and x.get('a'):
                # in-place string algorithms: the argument becomes the result
                p = strip(x['a'][0])
                if p['k'] in ('Ref', 'Mem'):
                    mk, l = self._mk, s.get('l', 0)
                    y = mk(k='Call', n=x['n'] + '_copy', a=(x['a'][1:] if x['n'].endswith('split') else x['a']), t=p.get('t') or '', l=l)
                    return self._expr(mk(k='Asg', op='=', x=p, y=y, t=p.get('t') or '', l=l), fr, cur)
            return self._expr(s['e'], fr, cur)
        if k == 'Decl':
            for v in s['v']:
                cur = self._decl(v, fr, cur)
                if cur is None:
                    return None
            return cur
        if k == 'NullS':
            return cur
        if k == 'If':
            if s.get('init'):
                cur = self._stmt(s['init'], fr, cur, ctx)
            if s.get('cv'):
                cur = self._decl(s['cv'], fr, cur)
            if cur is None:
                return None
            t = self.new('nop', None, fr, s['l'])
            f = self.new('nop', None, fr, s['l'])
            self._cond(s['c'], fr, cur, t, f)
            te = self._stmt(s['th'], fr, t, ctx) if t.pred else None
            fe = (self._stmt(s['el'], fr, f, ctx) if s.get('el') else f) if f.pred else None
            if te is None and fe is None:
                return None
            j = self.new('nop', None, fr, s['l'])
            self.edge(te, j)
            self.edge(fe, j)
            return j
        if k in ('While', 'For', 'Do', 'RFor'):
            return self._loop(s, fr, cur, ctx)
        if k == 'Return':
            n = cur
            if ctx.condret is not None and s.get('e') is not None:
                self._cond(s['e'], fr, cur, ctx.condret[0], ctx.condret[1])
                return None
            if s.get('e') is not None:
                n = self._expr(s['e'], fr, cur)
                if n is None:
                    return None
            r = self.new('ret', s.get('e'), fr, s['l'], top=(fr is self.fr0))
            self.edge(n, r)
            if ctx.rets is not None:
                ctx.rets.append((s.get('e'), fr))
                ctx.retn.append(r)
            self.edge(r, ctx.ret[0])
            return None
        if k == 'Break':
            n = self.new('nop', None, fr, s['l'], brk=1)
            self.edge(cur, n)
            if ctx.brk is not None:
                self.edge(n, ctx.brk, 'brk')
            return None
        if k == 'Continue':
            if ctx.cont is not None:
                self.edge(cur, ctx.cont, 'cont')
            return None
        if k == 'Switch':
            return self._switch(s, fr, cur, ctx)
        if k == 'Try':
            return self._try(s, fr, cur, ctx)
        if k == 'Label':
            return self._stmt(s.get('s'), fr, cur, ctx)
        if k == 'OtherS':
            for c in s.get('b', []):
                cur = self._stmt(c, fr, cur, ctx)
                if cur is None:
                    return None
            return cur
        if k in ('Case', 'Default'):
            return self._stmt(s.get('s'), fr, cur, ctx)
        if k == 'Goto':
            return None
        # bare expression node
        return self._expr(s, fr, cur)

    def _decl(self, v, fr, cur):
        if v.get('i') is not None and not v.get('static'):
            cur = self._expr(v['i'], fr, cur)
            if cur is None:
                return None
        n = self.new('decl', v, fr, v['l'])
        self.edge(cur, n)
        self.vars[(fr.id, v['d'])] = v
        self._dloop[(fr.id, v['d'])] = tuple(self._lstack)
        self.defs[(fr.id, v['d'])].append(n)
        return n

    def _switch(self, s, fr, cur, ctx):
        cur = self._expr(s['c'], fr, cur)
        if cur is None:
            return None
        sw = self.new('switch', s['c'], fr, s['l'])
        self.edge(cur, sw)
        after = self.new('nop', None, fr, s['l'])
        c2 = ctx.sub(brk=after)
        body = s['b']['b'] if s['b'] and s['b']['k'] == 'Block' else [s['b']]
        fall = None
        hasdef = False

        def enter(case, fall):
            nonlocal hasdef
            n = self.new('case', case.get('e'), fr, case['l'], default=(case['k'] == 'Default'), sw=sw.id)
            self.edge(sw, n, ('case', None))
            if case['k'] == 'Default':
                hasdef = True
            if fall is not None:
                self.edge(fall, n)
            sub = case.get('s')
            if sub and sub['k'] in ('Case', 'Default'):
                return enter(sub, n)
            return self._stmt(sub, fr, n, c2)
        for st in body:
            if st is None:
                continue
            if st['k'] in ('Case', 'Default'):
                fall = enter(st, fall)
            elif fall is not None:
                fall = self._stmt(st, fr, fall, c2)
        if fall is not None:
            self.edge(fall, after)
        if not hasdef:
            self.edge(sw, after, ('case', 'none'))
        return after if after.pred else None

    def _try(self, s, fr, cur, ctx):
        hs = []
        for h in s['h']:
            hn = self.new('catch', h, fr, h['l'])
            hs.append((h, hn))
        self._handlers.append([hn for _, hn in hs])
        start = self.new('nop', None, fr, s['l'])
        self.edge(cur, start)
        end = self._stmt(s['b'], fr, start, ctx)
        self._handlers.pop()
        outs = [end] if end is not None else []
        for h, hn in hs:
            if h.get('d') is not None:
                self.vars[(fr.id, h['d'])] = {'n': 'exc', 'd': h['d'], 't': h.get('t')}
            self._handlers_rethrow = hn
            e = self._stmt(h['b'], fr, hn, ctx)
            if e is not None:
                outs.append(e)
        if not outs:
            return None
        j = self.new('nop', None, fr, s['l'])
        for o in outs:
            self.edge(o, j)
        return j

    def _throw_edges(self, n, kind='exc'):
        """n may transfer to the innermost handlers (and, if they may not match, out)"""
        if n.kind == 'throw' and n.e.get('e') is not None and self._handlers:
            t = strip(n.e['e'])
            t = t.get('n') or t.get('t') or ''
            if t.startswith('cyclus::'):
                fam = {notmpl(x) for x in self.P.ancestors(t)} | {t, 'std::exception'}
                for hs in reversed(self._handlers):
                    for h in hs:
                        ht = re.sub(r'\b(const|class|struct)\b|[&*]', '', h.e.get('t') or '').strip()
                        if not ht or ht in fam or 'cyclus::' + ht in fam:
                            self.edge(n, h, kind)
                            return
                self.edge(n, self.excexit, kind)
                return
        if self._handlers:
            for h in self._handlers[-1]:
                self.edge(n, h, kind)
            # a handler list without catch(...) / std::exception can be missed
            types = [h.e.get('t') for h in self._handlers[-1]]
            if all(t for t in types) and not any('std::exception' in t for t in types):
                if len(self._handlers) > 1:
                    for h in self._handlers[-2]:
                        self.edge(n, h, kind)
                else:
                    self.edge(n, self.excexit, kind)
        else:
            self.edge(n, self.excexit, kind)

    # --- loops
    def _full_iter(self, s, fr):
        """(container ast, element var decl or None, idiom) when the loop header is a
        complete traversal of a container"""
        k = s['k']
        if k == 'RFor':
            return s['r'], s['v'], 'range'
        if k == 'For':
            init, c, inc = s.get('init'), s.get('c'), s.get('inc')
            if not c:
                return None
            vs = []
            if init and init['k'] == 'Decl':
                vs = init['v']
            elif init and init['k'] == 'Expr' and init['e']['k'] == 'Asg' and init['e']['op'] == '=' and init['e']['x']['k'] == 'Ref':
                r = init['e']['x']
                vs = [{'n': r['n'], 'd': r.get('d'), 't': r.get('t', ''), 'i': init['e']['y'], 'l': init['l']}]
            steps = set()
            if inc:
                for x in walk(inc):
                    if x['k'] == 'Inc' and x['op'] == '++' and x['e']['k'] == 'Ref':
                        steps.add(x['e'].get('d'))
                    if x['k'] == 'Asg' and x['op'] == '+=' and x['x']['k'] == 'Ref' and x['y'].get('v') == '1':
                        steps.add(x['x'].get('d'))
            if not init and len(steps) == 1:
                # iterator declared before the loop and changed nowhere but in its step
                d = next(iter(steps))
                v = self.vars.get((fr.id, d))
                if v and v.get('i') is not None and _nmod(fr.fn, d) == 1:
                    vs = [v]
            r = self._rindex(vs, c, inc, s, fr)
            if r is not None:
                return r
            r = self._iter_idiom(vs, c, steps, s, fr)
            if r is None:
                r = self._count(vs, c, inc, s, fr)
            return r
        if k == 'While':
            # iterator declared before, advanced once in the body: handled only when the
            # body's last statement advances it
            c = s.get('c')
            b = s.get('b')
            if c:
                r = self._countdown(c, s, fr)
                if r is not None:
                    return r
            if not c or not b or b['k'] != 'Block' or not b['b']:
                return None
            last = b['b'][-1]
            if last['k'] == 'Expr' and last['e']['k'] == 'Inc' and last['e']['op'] == '++' and last['e']['e']['k'] == 'Ref':
                d = last['e']['e'].get('d')
                v = self.vars.get((fr.id, d))
                if v and v.get('i') is not None:
                    # no 'continue' in the body (it would skip the advance)
                    if not any(x['k'] == 'Continue' for x in walk(b)):
                        r = self._iter_idiom([v], c, {d}, s, fr)
                        if r is None:
                            r = self._count([v], c, last['e'], s, fr)
                        return r
        return None

    def _countdown(self, c, s, fr):
        """while (n-- > 0) / while (n > 0) { ...; --n; } with n not used otherwise from there on: n times"""
        c = strip(c)
        if c['k'] == 'Bin' and c['op'] in ('>', '!=') and strip(c['y']).get('v') == '0' and not c.get('ov'):
            c = strip(c['x'])
        last = None
        b = s.get('b') or {}
        if c['k'] == 'Ref' and b.get('k') == 'Block' and b.get('b') and not any(x['k'] == 'Continue' for x in walk(b)):
            last = b['b'][-1]
            q = strip(last['e']) if last['k'] == 'Expr' else {}
            if not (q.get('k') == 'Inc' and q['op'] == '--' and strip(q['e']).get('d') == c.get('d')):
                return None
            ref, exp = c, 1
        elif c['k'] == 'Inc' and c['op'] == '--' and c.get('post'):
            ref, exp = strip(c['e']), 0
        else:
            return None
        if ref['k'] != 'Ref' or ref.get('s') not in ('local', 'param') or not is_intty((ref.get('t') or '').replace('const ', '').strip()):
            return None
        d = ref.get('d')
        if sum(1 for q in walk(b) if q['k'] == 'Ref' and q.get('d') == d) != exp or self._lstack[:-1]:
            return None
        if not _unused_after(fr.fn.get('body'), s, d):
            return None
        v = {'n': '_', 'd': 'cd%d' % id(s), 't': 'int'}
        return self._mk(k='Range', x=self._mk(k='Int', v='0', l=s['l'], t='int'), y=ref, l=s['l'], rev=0, un=True), v, 'count', None, exp == 0

    def _count(self, vs, c, inc, s, fr):
        """for (i = A; i < B; ++i) (also <=, != and the descending form) with i and B left alone by the body: a walk over the range A..B-1"""
        c = strip(c)
        if inc is None or c['k'] != 'Bin' or c.get('ov'):
            return None
        inc = strip(inc)
        if inc['k'] == 'Inc':
            up = inc['op'] == '++'
            ref = strip(inc['e'])
        elif inc['k'] == 'Asg' and inc['op'] in ('+=', '-=') and strip(inc['y']).get('v') == '1':
            up = inc['op'] == '+='
            ref = strip(inc['x'])
        else:
            return None
        if ref['k'] != 'Ref':
            return None
        d = ref.get('d')
        v = next((q for q in vs if q.get('d') == d and q.get('i') is not None), None)
        if v is None or not is_intty((v.get('t') or '').replace('const ', '').strip()):
            return None
        op, x, y = c['op'], strip(c['x']), strip(c['y'])
        if not (x['k'] == 'Ref' and x.get('d') == d):
            x, y = y, x
            op = {'<': '>', '>': '<', '<=': '>=', '>=': '<=', '!=': '!=', '==': '=='}.get(op)
        if not (x['k'] == 'Ref' and x.get('d') == d) or op is None:
            return None
        never = op == '=='      # runs only when there is nothing to run over
        if never:
            op = '!='
        if up and op not in ('<', '<=', '!=') or not up and op not in ('>', '>=', '!='):
            return None
        body = {'body': s.get('b')}
        if _nmod(body, d) != (1 if s['k'] == 'While' else 0):
            return None
        init = s.get('init') if s['k'] == 'For' else None
        if not (init and init['k'] == 'Decl'):
            # the counter must not be used after the loop
            tot = sum(1 for q in walk(fr.fn.get('body')) if q['k'] == 'Ref' and q.get('d') == d)
            ins = sum(1 for q in walk(s) if q['k'] == 'Ref' and q.get('d') == d)
            if tot != ins:
                return None
        muts = set()
        for q in walk(s.get('b')):
            if q['k'] in ('Asg', 'Inc'):
                z = strip(q['x'] if q['k'] == 'Asg' else q['e'])
                muts.add(z.get('d') if z['k'] == 'Ref' else z.get('m'))
            elif q['k'] == 'Call' and q.get('o') is not None and short(q.get('n') or '') in MUTATORS:
                z = strip(q['o'])
                while z['k'] in ('Deref', 'Addr'):
                    z = strip(z['e'])
                muts.add(z.get('d') if z['k'] == 'Ref' else z.get('m'))
        for q in walk(y):
            if q['k'] == 'Ref' and q.get('s') in ('local', 'param') and q.get('d') in muts or q['k'] == 'Mem' and q.get('m') in muts:
                return None
            if q['k'] in ('Asg', 'Inc', 'Lambda') or q['k'] == 'Call' and not (
                    (q.get('n') or '').startswith(STDNS) or self.P.trivial(self._callee_key(q)) or (q.get('f') or '').endswith('const') or self._size_of(q, fr) is not None):
                return None
        l = s['l']
        one = self._mk(k='Int', v='1', l=l, t='int')
        plus = lambda e: self._mk(k='Bin', op='+', x=e, y=one, l=l, t=e.get('t', 'int'))
        i = v['i']
        used = 2 if s['k'] == 'While' else 0
        un = sum(1 for q in walk(s.get('b')) if q['k'] == 'Ref' and q.get('d') == d) == (1 if s['k'] == 'While' else 0)
        if up:
            r = self._mk(k='Range', x=i, y=plus(y) if op == '<=' else y, l=l, rev=0, un=un)
        else:
            r = self._mk(k='Range', x=plus(y) if op in ('>', '!=') else y, y=plus(i), l=l, rev=1, un=un)
        return r, v, 'inever' if never else 'count'

    def _rindex(self, vs, c, inc, s, fr):
        """for (int i = X.size() - 1; i >= 0; --i)"""
        if inc is None or c['k'] != 'Bin':
            return None
        inc = strip(inc)
        if not (inc['k'] == 'Inc' and inc['op'] == '--' and strip(inc['e'])['k'] == 'Ref'):
            return None
        x, y = strip(c['x']), strip(c['y'])
        yv = y.get('v') if y['k'] == 'Int' else '-1' if y['k'] == 'Un' and y['op'] == '-' and strip(y['e']).get('v') == '1' else None
        if x['k'] != 'Ref' or (c['op'], yv) not in (('>=', '0'), ('>', '-1'), ('!=', '-1')):
            return None
        for v in vs:
            if v.get('d') != x.get('d') or v.get('d') != strip(inc['e']).get('d') or v.get('i') is None:
                continue
            i = strip(v['i'])
            if i['k'] == 'Bin' and i['op'] == '-' and strip(i['y']).get('v') == '1' and not _nmod({'body': s.get('b')}, v['d']):
                o = self._size_of(strip(i['x']), fr)
                if o is not None:
                    return o, v, 'rindex'
        return None

    def _iter_idiom(self, vs, c, steps, s, fr):
        if c['k'] == 'Bin' and c['op'] == '==':
            # runs only while the end is reached: no element
            r = self._iter_idiom(vs, dict(c, op='!='), steps, s, fr)
            return r and (r[0], r[1], 'inever') + tuple(r[3:])
        if c['k'] != 'Bin' or c['op'] not in ('!=', '<', '>'):
            return None
        if c['op'] == '>':
            c = dict(c, op='<', x=c['y'], y=c['x'])
        for v in vs:
            if v.get('d') not in steps or v.get('i') is None:
                continue
            i = strip(v['i'])
            x, y = strip(c['x']), strip(c['y'])
            if not (x['k'] == 'Ref' and x.get('d') == v['d']):
                if c['op'] == '!=' and y['k'] == 'Ref' and y.get('d') == v['d']:
                    x, y = y, x
                else:
                    continue
            # modified elsewhere in the body -> not a plain traversal
            for q in walk(s.get('b')):
                if q['k'] in ('Inc',) and q['e']['k'] == 'Ref' and q['e'].get('d') == v['d']:
                    if s['k'] != 'While':
                        return None
                if q['k'] == 'Asg' and q['x']['k'] == 'Ref' and q['x'].get('d') == v['d']:
                    return None
            yc = self._end_of(y, vs, fr)
            if yc is not None:
                i2 = self._chase1(i, fr)
                if i2['k'] == 'Call' and i2.get('o') is not None and self.canon(i2['o'], fr) == self.canon(yc['o'], fr):
                    pr = short(i2.get('n', '')), short(yc.get('n', ''))
                    if pr[0] in ('begin', 'cbegin') and pr[1] in ('end', 'cend'):
                        return yc['o'], v, 'iter'
                    if pr[0] in ('rbegin', 'crbegin') and pr[1] in ('rend', 'crend'):
                        return yc['o'], v, 'riter'
                    if pr[0] in ('end', 'cend') and pr[1] in ('end', 'cend'):
                        return yc['o'], v, 'inever'
                # ++C.begin(), C.begin() + 1, next(C.begin()): all but the first
                j = i2
                if j['k'] == 'Inc' and j['op'] == '++' and not j.get('post'):
                    j = strip(j['e'])
                elif j['k'] == 'Bin' and j['op'] == '+' and strip(j['y']).get('v') == '1':
                    j = strip(j['x'])
                elif j['k'] == 'Call' and short(j.get('n', '')) == 'next' and len([q for q in j.get('a', []) if not q.get('dflt')]) == 1:
                    j = strip(j['a'][0])
                else:
                    j = None
                if j is not None and j['k'] == 'Call' and j.get('o') is not None and short(j.get('n', '')) in ('begin', 'cbegin') and short(yc.get('n', '')) in ('end', 'cend') \
                        and self.canon(j['o'], fr) == self.canon(yc['o'], fr):
                    return yc['o'], v, 'itail'
                if c['op'] == '!=' and 'terator' in (v.get('t', '') + c['x'].get('t', '')) or i2['k'] == 'Call' and short(i2.get('n', '')) in ('lower_bound', 'upper_bound', 'next'):
                    return yc['o'], v, 'ipart'
            if i['k'] == 'Call' and short(i.get('n', '')) in ('begin', 'cbegin') and i.get('o') is not None:
                yy = y
                if yy['k'] == 'Ref' and yy.get('s') == 'local':
                    for w in vs:
                        if w.get('d') == yy.get('d') and w.get('i'):
                            yy = strip(w['i'])
                    vv = self.vars.get((fr.id, yy.get('d')))
                    if yy['k'] == 'Ref' and vv and vv.get('i'):
                        yy = strip(vv['i'])
                if yy['k'] == 'Call' and short(yy.get('n', '')) in ('end', 'cend') and yy.get('o') is not None:
                    if self.canon(i['o'], fr) == self.canon(yy['o'], fr):
                        return i['o'], v, 'iter'
            if i['k'] == 'Int':
                yy = y
                if yy['k'] == 'Ref' and yy.get('s') == 'local':
                    for w in vs:
                        if w.get('d') == yy.get('d') and w.get('i'):
                            yy = strip(w['i'])
                    vv = self.vars.get((fr.id, yy.get('d')))
                    if yy['k'] == 'Ref' and vv and vv.get('i') and _nmod(fr.fn, yy.get('d')) == 0:
                        yy = strip(vv['i'])
                o = self._size_of(yy, fr)
                if o is not None and i['v'] == '0':
                    return o, v, 'index', y
        return None

    def _chase1(self, i, fr):
        i = strip(i)
        if i['k'] == 'Ref' and i.get('s') == 'local':
            vv = self.vars.get((fr.id, i.get('d')))
            if vv and vv.get('i') and _nmod(fr.fn, i.get('d')) == 0:
                return strip(vv['i'])
        return i

    def _end_of(self, y, vs, fr):
        y = strip(y)
        if y['k'] == 'Ref' and y.get('s') == 'local':
            for w in vs:
                if w.get('d') == y.get('d') and w.get('i'):
                    y = strip(w['i'])
            y = self._chase1(y, fr)
        if y['k'] == 'Call' and short(y.get('n', '')) in ('end', 'cend', 'rend', 'crend') and y.get('o') is not None:
            return y
        return None

    def _size_of(self, y, fr):
        """the container whose size an expression is: X.size(), or a method of this object that returns a member's size"""
        y = strip(y)
        if y['k'] != 'Call':
            return None
        if short(y.get('n', '')) in ('size', 'length') and y.get('o') is not None and not self.P.F.get(self._callee_key(y)):
            return y['o']
        g = self.P.F.get(self._callee_key(y))
        if not g or not g.get('body') or y.get('a') or (y.get('o') is not None and strip(y['o'])['k'] != 'This'):
            return None
        rets = [q for q in walk(g['body']) if q['k'] == 'Return']
        if len(rets) != 1 or not rets[0].get('e'):
            return None
        r = strip(rets[0]['e'])
        if r['k'] == 'Ref' and r.get('s') == 'local' and _nmod(g, r.get('d')) == 0:
            for q in walk(g['body']):
                if q['k'] == 'Decl':
                    for v in q['v']:
                        if v.get('d') == r.get('d') and v.get('i') is not None:
                            r = strip(v['i'])
        if r['k'] == 'Call' and short(r.get('n', '')) == 'size' and r.get('o') is not None:
            o = strip(r['o'])
            if o['k'] == 'Mem' and (o.get('b') is None or strip(o['b'])['k'] == 'This'):
                return o
        return None

    def _brkif(self, st):
        """condition c of a statement `if (c) break;`"""
        if st['k'] != 'If' or st.get('el') or st.get('init') or st.get('cv'):
            return None
        th = st['th']
        while th['k'] == 'Block' and len(th['b']) == 1:
            th = th['b'][0]
        return st['c'] if th['k'] == 'Break' else None

    def _mk(self, **x):
        self._keep.append(x)
        return x

    def _flagvar(self, e, fr, s):
        """(decl, value while the loop runs) of a condition `!f` / `f` on a boolean local that holds that value
        before the loop and is assigned in the loop only"""
        e = strip(e)
        pol = 'true'
        while e['k'] == 'Un' and e['op'] == '!':
            e = strip(e['e'])
            pol = 'false' if pol == 'true' else 'true'
        if e['k'] == 'Bin' and e['op'] in ('==', '!=') and strip(e['y'])['k'] == 'Bool':
            if (e['op'] == '==') != bool(strip(e['y'])['v']):
                pol = 'false' if pol == 'true' else 'true'
            e = strip(e['x'])
        if e['k'] != 'Ref' or e.get('s') != 'local':
            return None
        d = e.get('d')
        v = self.vars.get((fr.id, d))
        if not v or v.get('i') is None or v.get('t') != 'bool':
            return None
        i = strip(v['i'])
        if i['k'] != 'Bool' or ('true' if i['v'] else 'false') != pol:
            return None
        if self._dloop.get((fr.id, d)) != tuple(self._lstack) or _nmod(fr.fn, d) != _nmod({'body': s['b']}, d):
            return None
        return d, pol, e

    def _desugar(self, s, fr):
        """canonical form of a loop statement: while (true) { if (c) break; B } is while (!c) B; `while (!f && c)` with a flag f that
        only the body raises is a loop over c left by `if (f) break` at the end of an iteration"""
        k = s['k']
        flags = []
        if k == 'While' and s.get('c') is not None:
            # while (!f) { if (c) f = true; else B }, f used nowhere else: while (!c) B
            fv = self._flagvar(s['c'], fr, s)
            b = s.get('b')
            one = [x for x in b['b'] if x['k'] != 'NullS'] if b and b['k'] == 'Block' else []
            if fv and len(one) == 1 and one[0]['k'] == 'If' and not one[0].get('init') and not one[0].get('cv') and sum(1 for q in walk(fr.fn['body']) if q['k'] == 'Ref' and q.get('d') == fv[0]) == 2:
                def only(x):
                    while x is not None and x['k'] == 'Block' and len(x['b']) == 1:
                        x = x['b'][0]
                    if x is not None and x['k'] not in STMTK and isinstance(x.get('e'), dict) and x['k'] != 'Asg':
                        x = x['e']
                    y = strip(x) if x is not None and x['k'] not in STMTK else x
                    return y is not None and y['k'] == 'Asg' and y['op'] == '=' and strip(y['x']).get('d') == fv[0] and strip(y['x'])['k'] == 'Ref'
                th, el = one[0].get('th'), one[0].get('el')
                if isinstance(th, dict) and isinstance(el, dict):
                    c0 = one[0]['c']
                    if only(th):
                        return self._desugar(self._mk(**dict(s, c=self._mk(k='Un', op='!', e=c0, l=c0.get('l', s['l'])), b=el)), fr)
                    if only(el):
                        return self._desugar(self._mk(**dict(s, c=c0, b=th)), fr)
        if k in ('While', 'For'):
            c = s.get('c')
            always = c is None or strip(c)['k'] == 'Bool' and strip(c)['v'] or strip(c)['k'] == 'Int' and strip(c)['v'] == '1'
            b = s.get('b')
            if always and b and b['k'] == 'Block' and b['b']:
                q = self._brkif(b['b'][0])
                if q is not None:
                    s = self._mk(**dict(s, c=self._mk(k='Un', op='!', e=q, l=q.get('l', s['l'])), b=self._mk(**dict(b, b=b['b'][1:]))))
                    c = s['c']
                    x = strip(q)
                    if x['k'] == 'Bin' and x['op'] in ('==', '!=', '<', '>=', '>', '<=') and not (x.get('ov') and x['op'] not in ('==', '!=')):
                        neg = {'==': '!=', '!=': '==', '<': '>=', '>=': '<', '>': '<=', '<=': '>'}[x['op']]
                        c = s['c'] = self._mk(**dict(x, op=neg))
            if c is not None:
                parts, st = [], [c]
                while st:
                    x = st.pop()
                    y = strip(x)
                    if y['k'] == 'Bin' and y['op'] == '&&' and not y.get('ov'):
                        st += [y['y'], y['x']]
                    else:
                        parts.append(x)
                rest = []
                for x in parts:
                    fv = self._flagvar(x, fr, s)
                    if fv:
                        flags.append(fv + (True,))
                    else:
                        rest.append(x)
                if flags:
                    nc = None
                    for x in rest:
                        nc = x if nc is None else self._mk(k='Bin', op='&&', x=nc, y=x, l=x.get('l', s['l']), t='bool')
                    s = self._mk(**dict(s, c=nc if nc is not None else self._mk(k='Bool', v=1, l=s['l'])))
        b = s.get('b')
        if b and b['k'] == 'Block' and b['b']:
            q = self._brkif(b['b'][-1])
            if q is not None and not any(x['k'] == 'Continue' for x in walk(b)):
                fv = self._flagvar(self._mk(k='Un', op='!', e=q), fr, s)
                if fv:
                    flags.append(fv + (False,))
        return s, flags

    def _latch(self, flags, fr, cont, after, line):
        for d, pol, ref, mv in flags:
            if mv:
                go = self.new('nop', None, fr, line)
                out = self.new('nop', None, fr, line, brk=1)
                n = self.new('cond', ref, fr, line)
                self.edge(cont, n)
                self.edge(n, out if pol == 'false' else go, True)
                self.edge(n, go if pol == 'false' else out, False)
                self.edge(out, after, 'brk')
                cont = go
        return cont

    def _loop(self, s, fr, cur, ctx):
        s, flags = self._desugar(s, fr)
        self._lstack.append(id(s))
        self._keep.append(s)
        try:
            return self._loop_(s, fr, cur, ctx, flags)
        finally:
            self._lstack.pop()

    def _loop_(self, s, fr, cur, ctx, flags):
        k = s['k']
        if k == 'For' and s.get('init'):
            cur = self._stmt(s['init'], fr, cur, ctx)
            if cur is None:
                return None
        if k == 'RFor':
            cur = self._expr(s['r'], fr, cur)
            if cur is None:
                return None
            self.vars[(fr.id, s['v']['d'])] = s['v']
        fi = self._full_iter(s, fr)
        after = self.new('nop', None, fr, s['l'])
        if fi:
            c, v, idiom = fi[:3]
            if len(fi) > 3 and fi[3] is not None and strip(fi[3])['k'] == 'Call' and self.P.F.get(self._callee_key(strip(fi[3]))):
                cur = self._expr(fi[3], fr, cur)        # the bound is evaluated (it may throw)
                if cur is None:
                    return None
            head = self.new('iter', c, fr, s['l'], var=v, idiom=idiom, stmt=s)
            self.edge(cur, head)
            body = self.new('nop', None, fr, s['l'], loopbody=head.id)
            self.edge(head, body, 'next')
            self.edge(head, after, 'done')
            # bind the element variable
            self.bind_iter(fr, v, c, idiom, head)
            cont = self.new('nop', None, fr, s['l'], latch=head.id)
            head.x['body'] = body.id
            head.x['latch'] = cont.id
            head.x['after'] = after.id
            bstmt = s['b']
            if k == 'While' and not (len(fi) > 4 and fi[4]):
                bstmt = dict(s['b'], b=s['b']['b'][:-1])
            lo = len(self.nodes)
            head.x['flags'] = {(fr.id, f[0]): f[1] for f in flags}
            be = self._stmt(bstmt, fr, body, ctx.sub(brk=after, cont=cont))
            self.edge(be, cont)
            if cont.pred:
                ce = self._latch(flags, fr, cont, after, s['l'])
                head.x['range'] = (lo, len(self.nodes))
                self.edge(ce, head, 'back')
            head.x['range'] = (lo, len(self.nodes))
            return after
        head = self.new('nop', None, fr, s['l'], loop=1)
        head.x['body'] = None
        body = self.new('nop', None, fr, s['l'], loopbody=head.id)
        cont = self.new('nop', None, fr, s['l'], latch=head.id)
        head.x.update(body=body.id, latch=cont.id, after=after.id, generic=1)
        if k == 'Do':
            self.edge(cur, body)
            lo = len(self.nodes)
            be = self._stmt(s['b'], fr, body, ctx.sub(brk=after, cont=cont))
            body.x['range'] = (lo, len(self.nodes))
            body.x['doafter'] = after.id
            self.edge(be, cont)
            if cont.pred:
                self.edge(cont, head)
                self._cond(s['c'], fr, head, body, after)
            return after if after.pred else None
        self.edge(cur, head)
        if s.get('cv'):
            h2 = self._decl(s['cv'], fr, head)
        else:
            h2 = head
        if s.get('c') is not None:
            self._cond(s['c'], fr, h2, body, after)
        else:
            self.edge(h2, body)
        lo = len(self.nodes)
        head.x['flags'] = {(fr.id, f[0]): f[1] for f in flags}
        be = self._stmt(s['b'], fr, body, ctx.sub(brk=after, cont=cont)) if body.pred else None
        head.x['range'] = (lo, len(self.nodes))
        self.edge(be, cont)
        if cont.pred:
            ce = self._latch(flags, fr, cont, after, s['l'])
            head.x['range'] = (lo, len(self.nodes))
            if k == 'For' and s.get('inc'):
                ce = self._expr(s['inc'], fr, cont)
            self.edge(ce, head, 'back')
        return after if after.pred else None

    def bind_iter(self, fr, v, c, idiom, head):
        key = (fr.id, v['d'])
        self.iters = getattr(self, 'iters', {})
        self.iters[key] = (c, fr, idiom, head.id)
        self.allit[key].append(self.iters[key])

    # --- conditions
    def _cond(self, e, fr, cur, t, f):
        e0 = e
        e = strip(e)
        if e['k'] == 'Un' and e['op'] == '!':
            return self._cond(e['e'], fr, cur, f, t)
        if e['k'] == 'Bin' and e['op'] == '&&' and not e.get('ov'):
            m = self.new('nop', None, fr, e.get('l', 0))
            self._cond(e['x'], fr, cur, m, f)
            if m.pred:
                self._cond(e['y'], fr, m, t, f)
            return
        if e['k'] == 'Bin' and e['op'] == '||' and not e.get('ov'):
            m = self.new('nop', None, fr, e.get('l', 0))
            self._cond(e['x'], fr, cur, t, m)
            if m.pred:
                self._cond(e['y'], fr, m, t, f)
            return
        if e['k'] == 'Bool':
            self.edge(cur, t if e['v'] else f)
            return
        if e['k'] == 'Int' and e['v'] in ('0', '1'):
            self.edge(cur, t if e['v'] == '1' else f)
            return
        if e['k'] == 'Cond':
            a = self.new('nop', None, fr, e.get('l', 0))
            b = self.new('nop', None, fr, e.get('l', 0))
            self._cond(e['c'], fr, cur, a, b)
            self._cond(e['x'], fr, a, t, f)
            self._cond(e['y'], fr, b, t, f)
            return
        if e['k'] == 'Call' and self._inlinable(e, fr):
            fn = self.P.F[self._callee_key(e)]
            if fn['t'] == 'bool':
                r = self._inline(e, fn, fr, cur, condret=(t, f))
                return
        cur = self._expr(e, fr, cur)
        if cur is None:
            return
        n = self.new('cond', e, fr, e.get('l', cur.line))
        self.edge(cur, n)
        self.edge(n, t, True)
        self.edge(n, f, False)

    # --- expressions: emit events in evaluation order
    def _expr(self, e, fr, cur):
        if e is None or cur is None:
            return cur
        k = e['k']
        if k in ('Ref', 'Int', 'Flt', 'Str', 'Chr', 'Bool', 'Null', 'This', 'ThisPtr', 'Zero', 'Sizeof', 'Typeid', 'Lambda'):
            return cur
        if k == 'Bin' and e['op'] in ('&&', '||') and not e.get('ov'):
            if self._has_effects(e['y']):
                j = self.new('nop', None, fr, e.get('l', 0))
                cur = self._expr(e['x'], fr, cur)
                if cur is None:
                    return None
                n = self.new('cond', e['x'], fr, e.get('l', cur.line))
                go = self.new('nop', None, fr, e.get('l', 0))
                self.edge(cur, n)
                self.edge(n, go, e['op'] == '&&')
                self.edge(n, j, e['op'] != '&&')
                self.edge(self._expr(e['y'], fr, go), j)
                return j
            cur = self._expr(e['x'], fr, cur)
            return self._expr(e['y'], fr, cur)
        if k == 'Cond':
            a = self.new('nop', None, fr, e['c'].get('l', cur.line))
            b = self.new('nop', None, fr, e['c'].get('l', cur.line))
            self._cond(e['c'], fr, cur, a, b)
            ae = self._expr(e['x'], fr, a) if a.pred else None
            be = self._expr(e['y'], fr, b) if b.pred else None
            if ae is None and be is None:
                return None
            j = self.new('nop', None, fr, cur.line)
            self.edge(ae, j)
            self.edge(be, j)
            return j
        if k == 'Asg':
            cur = self._expr(e['y'], fr, cur)
            cur = self._expr(e['x'], fr, cur)
            if cur is None:
                return None
            n = self.new('write', e, fr, e.get('l', cur.line))
            self.edge(cur, n)
            x = strip(e['x'])
            if x['k'] == 'Ref' and x.get('d') is not None:
                self._adddef(fr, x['d'], n)
            return n
        if k == 'Inc':
            cur = self._expr(e['e'], fr, cur)
            if cur is None:
                return None
            n = self.new('write', e, fr, e.get('l', cur.line))
            self.edge(cur, n)
            x = strip(e['e'])
            if x['k'] == 'Ref' and x.get('d') is not None:
                self._adddef(fr, x['d'], n)
            return n
        if k == 'Throw':
            if e.get('e') is not None:
                cur = self._expr(e['e'], fr, cur)
                if cur is None:
                    return None
            n = self.new('throw', e, fr, e.get('l', cur.line))
            self.edge(cur, n)
            self._throw_edges(n)
            return None
        if k == 'Call':
            return self._call(e, fr, cur)
        if k == 'Ctor':
            for a in e.get('a', []):
                cur = self._expr(a, fr, cur)
                if cur is None:
                    return None
            if e['f'] in self.P.F or not e.get('imp'):
                n = self.new('ctor', e, fr, e.get('l', cur.line))
                self.edge(cur, n)
                return n
            return cur
        if k == 'New':
            if e.get('n') is not None:
                cur = self._expr(e['n'], fr, cur)
            if e.get('i') is not None:
                cur = self._expr(e['i'], fr, cur)
            if cur is None:
                return None
            n = self.new('new', e, fr, e.get('l', cur.line))
            self.edge(cur, n)
            return n
        if k == 'Delete':
            cur = self._expr(e['e'], fr, cur)
            if cur is None:
                return None
            n = self.new('delete', e, fr, e.get('l', cur.line))
            self.edge(cur, n)
            return n
        # generic: children in order
        for key in ('c', 'b', 'x', 'e', 'o', 'i', 'y'):
            v = e.get(key)
            if isinstance(v, dict) and 'k' in v:
                cur = self._expr(v, fr, cur) if not _isstmt(v) else self._stmt(v, fr, cur, Ctx(None, None, [self.exit, None]))
                if cur is None:
                    return None
        for v in e.get('a', []) if isinstance(e.get('a'), list) else []:
            if isinstance(v, dict):
                cur = self._expr(v, fr, cur) if not _isstmt(v) else cur
                if cur is None:
                    return None
        if k == 'Bin' and e.get('ov') and e['op'] in ('<<', '>>'):
            n = self.new('stream', e, fr, e.get('l', cur.line))
            self.edge(cur, n)
            return n
        if k == 'Idx' and e.get('ov'):
            n = self.new('index', e, fr, e.get('l', cur.line))
            self.edge(cur, n)
            return n
        return cur

    def _adddef(self, fr, d, n):
        # find the frame owning the declaration (lambda bodies see outer frames)
        f = fr
        while f is not None:
            if (f.id, d) in self.vars or d in f.binds or f.parent is None:
                break
            if d in [p['d'] for p in f.fn.get('ps', [])]:
                break
            if not f.fn.get('lambda'):
                break
            f = f.parent
        self.defs[(f.id, d)].append(n)

    def _has_effects(self, e):
        for x in walk(e):
            if x['k'] in ('Asg', 'Inc', 'New', 'Delete', 'Throw'):
                return True
            if x['k'] == 'Call' and not x.get('f', '').endswith(' const'):
                return True
        return False

    def _callee_key(self, e):
        k = e.get('f')
        if k in self.P.F:
            return k
        if k:
            for suf in ('@' + (self.root.get('file') or ''),):
                if k + suf in self.P.F:
                    return k + suf
            # static function of some file
            c = [x for x in self.P.byname.get(e.get('n', ''), []) if x['key'].startswith(k + '@')]
            if c:
                return c[0]['key']
        return k

    def _inlinable(self, e, fr):
        k = self._callee_key(e)
        if k not in self.P.F:
            return False
        f = self.P.F[k]
        if not f.get('body'):
            return False
        if fr.depth >= self.depth:
            return False
        if e.get('virt') and not e.get('qual') and not self._single_impl(e, f):
            return False
        if k in fr.stack():
            return False
        if self.stop(e, self, fr):
            return False
        if self.follow is not None and not self.follow(f):
            return False
        return True

    def _single_impl(self, e, f):
        return bool(self.iv)

    def _lambda_of(self, e, fr):
        """Lambda AST the callee expression denotes"""
        o = e.get('o') if e.get('opcall') else e.get('fe')
        o = strip(o) if o else None
        if o is None:
            return None
        if o['k'] == 'Lambda':
            return o, fr
        if o['k'] == 'Ref':
            f = fr
            while f is not None:
                v = self.vars.get((f.id, o.get('d')))
                if v and v.get('i'):
                    i = strip(v['i'])
                    if i['k'] == 'Lambda':
                        return i, f
                b = f.binds.get(o.get('d'))
                if b:
                    i = strip(b[0])
                    if i['k'] == 'Lambda':
                        return i, b[1]
                    if i['k'] == 'Ref':
                        return self._lambda_of({'opcall': 1, 'o': i}, b[1])
                f = f.parent if f.fn.get('lambda') else None
        return None

    def _call(self, e, fr, cur):
        if e.get('o') is not None:
            cur = self._expr(e['o'], fr, cur)
        if e.get('fe') is not None:
            cur = self._expr(e['fe'], fr, cur)
        for a in e.get('a', []):
            cur = self._expr(a, fr, cur)
            if cur is None:
                return None
        if cur is None:
            return None
        lam = self._lambda_of(e, fr)
        if lam is not None and fr.depth < self.depth:
            return self._inline_lambda(lam[0], lam[1], e.get('a', []), fr, cur)
        n = short(e.get('n', ''))
        if n == 'for_each' and len(e.get('a', [])) == 3:
            r = self._for_each(e, fr, cur)
            if r is not None:
                return r
        if (e.get('n') or '') in ('std::copy_if', 'std::transform', 'std::copy') and len(e.get('a', [])) == (3 if n == 'copy' else 4):
            r = self._for_each(e, fr, cur)
            if r is not None:
                return r
        if n == 'insert' and e.get('o') is not None and (e.get('n') or '').startswith(STDNS) and len(e.get('a', [])) in (2, 3):
            # X.insert(Y.begin(), Y.end()) and X.insert(X.end(), Y.begin(), Y.end())
            aa = [strip(q) for q in e['a']]
            if len(aa) == 2 or aa[0]['k'] == 'Call' and short(aa[0].get('n') or '') in ('end', 'cend') and aa[0].get('o') is not None and \
                    self.canon(aa[0]['o'], fr) == self.canon(e['o'], fr):
                e2 = self._mk(k='Call', n='std::copy', l=e.get('l', 0), a=aa[-2:] + [
                    self._mk(k='Call', n='std::inserter', l=e.get('l', 0), a=[e['o'], e['o']])])
                r = self._for_each(e2, fr, cur)
                if r is not None:
                    return r
        if self._inlinable(e, fr):
            fn = self.P.F[self._callee_key(e)]
            return self._inline(e, fn, fr, cur)
        nd = self.new('call', e, fr, e.get('l', cur.line))
        self.edge(cur, nd)
        if (self._handlers or self.exc_calls) and not (e.get('o') is not None and (e.get('n') or '').startswith(STDNS) and n in NOTHROW):
            self._throw_edges(nd)
        if e.get('noret'):
            return None
        return nd

    def _inline(self, e, fn, fr, cur, condret=None):
        self.inlined.add(fn['key'])
        binds = {}
        nfr = Frame(fn, fr, None, binds, e)
        if fn.get('cls') and not fn.get('static'):
            o = e.get('o')
            nfr.this = (o, fr) if o is not None else ({'k': 'This'}, fr)
        args = e.get('a', [])
        reass = _reassigned(fn)
        c = self.new('enter', e, fr, e.get('l', cur.line), callee=fn['key'])
        self.edge(cur, c)
        cur = c
        nfr.enter = c.id
        for i, p in enumerate(fn.get('ps', [])):
            if i < len(args):
                if p['d'] in reass and not p['t'].rstrip().endswith('&'):
                    v = {'n': p['n'], 'd': p['d'], 't': p['t'], 'l': e.get('l', 0), 'i': args[i], 'argframe': fr}
                    n = self.new('decl', v, nfr, e.get('l', cur.line))
                    self.edge(cur, n)
                    self.vars[(nfr.id, p['d'])] = v
                    self.defs[(nfr.id, p['d'])].append(n)
                    cur = n
                else:
                    binds[p['d']] = (args[i], fr)
        out = self.new('leave', e, fr, e.get('l', cur.line), callee=fn['key'])
        ctx = Ctx(None, None, [out, None])
        ctx.rets = []
        ctx.condret = condret
        if fn.get('kind') == 'ctor':
            cur = self._ctor_inits(fn, nfr, cur)
        end = self._stmt(fn['body'], nfr, cur, ctx)
        if end is not None:
            self.edge(end, out)
        if condret is None:
            self.callvals = getattr(self, 'callvals', {})
            self.retnodes[(id(e), fr.id)] = ctx.retn
            if len(ctx.rets) == 1 and ctx.rets[0][0] is not None:
                self.callvals[(id(e), fr.id)] = ctx.rets[0]
            elif len(ctx.rets) > 1:
                self.callvals[(id(e), fr.id)] = ('multi', ctx.rets)
            return out if out.pred else None
        return None

    def _inline_lambda(self, lam, lfr, args, fr, cur, elem=None):
        fn = {'key': lfr.fn['key'] + '::lambda@%s' % lam.get('l'), 'n': 'lambda', 'sn': lfr.fn['sn'] + '::lambda', 'file': lfr.fn['file'],
              'l': lam.get('l', 0), 'ps': lam['ps'], 'lambda': 1, 't': '', 'body': lam['body']}
        nfr = Frame(fn, lfr, ({'k': 'This'}, lfr), {}, None)
        nfr.depth = fr.depth + 1
        for i, p in enumerate(lam['ps']):
            if i < len(args):
                nfr.binds[p['d']] = (args[i], fr)
        out = self.new('leave', None, fr, lam.get('l', 0))
        ctx = Ctx(None, None, [out, None])
        ctx.rets = []
        end = self._stmt(lam['body'], nfr, cur, ctx)
        if end is not None:
            self.edge(end, out)
        return out if out.pred else None

    def _for_each(self, e, fr, cur):
        """for_each / copy / copy_if / transform over a whole container, the latter into a back_inserter: the loop they stand for"""
        alg = short(e['n'])
        a, b, fnx = [strip(e['a'][i]) for i in (0, 1, -1)]
        if not (a['k'] == 'Call' and short(a.get('n', '')) in ('begin', 'cbegin') and b['k'] == 'Call' and short(b.get('n', '')) in ('end', 'cend')):
            return None
        if a.get('o') is None or b.get('o') is None or self.canon(a['o'], fr) != self.canon(b['o'], fr):
            return None
        dst = None
        if alg != 'for_each':
            dst = strip(e['a'][2])
            if dst['k'] != 'Call' or dst.get('n') not in ('std::back_inserter', 'std::inserter') or not dst.get('a'):
                return None
            dst = dst['a'][0]
        if alg == 'copy':
            lam, lfr = None, fr
        elif fnx['k'] == 'Lambda':
            lam, lfr = fnx, fr
        else:
            r = self._lambda_of({'opcall': 1, 'o': fnx}, fr)
            if r is None:
                return None
            lam, lfr = r
        v = {'n': '_', 'd': 'it%d' % id(e), 't': ''}
        if lam is not None and lam['ps']:
            v = {'n': lam['ps'][0]['n'], 'd': lam['ps'][0]['d'], 't': lam['ps'][0]['t']}
        body = self._mk(k='Block', b=[], l=e.get('l', 0))
        if lam is not None:
            body = lam['body']
        if alg != 'for_each':
            el = self._mk(k='Ref', s='local', d=v['d'], n=v['n'], t=v['t'], l=e.get('l', 0))
            val, cond = el, None
            if lam is not None:
                q = [x for x in lam['body']['b'] if x['k'] != 'NullS']
                if len(q) != 1 or q[0]['k'] != 'Return':
                    return None
                if alg == 'transform':
                    val = q[0]['e']
                else:
                    cond = q[0]['e']
            t = (strip(dst).get('t') or '')
            push = 'insert' if re.search(r'\b(set|map)<', t.split('*')[0][:40]) else 'push_back'
            st = self._mk(k='Expr', l=e.get('l', 0), e=self._mk(k='Call', n='std::vector::' + push, o=dst, a=[val], l=e.get('l', 0)))
            if cond is not None:
                st = self._mk(k='If', c=cond, th=st, l=e.get('l', 0))
            body = self._mk(k='Block', b=[st], l=e.get('l', 0))
        after = self.new('nop', None, fr, e.get('l', 0))
        head = self.new('iter', a['o'], fr, e.get('l', 0), var=v, idiom='range')
        self.edge(cur, head)
        bn = self.new('nop', None, fr, e.get('l', 0), loopbody=head.id)
        cont = self.new('nop', None, fr, e.get('l', 0), latch=head.id)
        head.x.update(body=bn.id, latch=cont.id, after=after.id)
        self.edge(head, bn, 'next')
        self.edge(head, after, 'done')
        ll = lam.get('l', 0) if lam is not None else e.get('l', 0)
        fn = {'key': lfr.fn['key'] + '::lambda@%s' % ll, 'n': 'lambda', 'sn': lfr.fn['sn'] + '::lambda', 'file': lfr.fn['file'],
              'l': ll, 'ps': lam['ps'] if lam is not None else [], 'lambda': 1, 't': '', 'body': body}
        nfr = Frame(fn, lfr, ({'k': 'This'}, lfr), {}, None)
        nfr.depth = fr.depth + 1
        self.iters = getattr(self, 'iters', {})
        self.iters[(nfr.id, v['d'])] = (a['o'], fr, 'range', head.id)
        self.allit[(nfr.id, v['d'])].append(self.iters[(nfr.id, v['d'])])
        ctx = Ctx(None, None, [cont, None])
        ctx.rets = []
        lo = len(self.nodes)
        end = self._stmt(body, nfr, bn, ctx)
        head.x['range'] = (lo, len(self.nodes))
        self.edge(end, cont)
        if cont.pred:
            self.edge(cont, head, 'back')
        return after

    # ------------------------------------------------------ canonical forms
    def owner(self, fr, d):
        f = fr
        while f is not None:
            if (f.id, d) in self.vars or d in f.binds or (f.id, d) in getattr(self, 'iters', {}):
                return f
            if any(p['d'] == d for p in f.fn.get('ps', [])):
                return f
            f = f.parent if f.fn.get('lambda') else None
        return fr

    def canon(self, e, fr, node=None, lim=40):
        return Canon(self, node).s(e, fr, lim)

    # reaching definitions for multi-def locals
    def reaching(self, key, node):
        """definition nodes of local `key` reaching `node` (backward search)"""
        ds = set(n.id for n in self.defs.get(key, ()))
        out = set()
        seen = set()
        st = [p for p, _ in node.pred]
        while st:
            x = st.pop()
            if x in seen:
                continue
            seen.add(x)
            if x in ds:
                out.add(x)
                continue
            if x == self.entry.id:
                out.add(-1)
            st.extend(p for p, _ in self.nodes[x].pred)
        return [self.nodes[i] if i >= 0 else None for i in out]


class Ctx:
    def __init__(self, brk, cont, ret):
        self.brk, self.cont, self.ret = brk, cont, ret
        self.rets = None
        self.retn = []
        self.condret = None

    def sub(self, brk=None, cont=None):
        c = Ctx(brk if brk is not None else self.brk, cont if cont is not None else self.cont, self.ret)
        c.rets = self.rets
        c.retn = self.retn
        c.condret = self.condret
        return c


STMTK = {'Block', 'If', 'While', 'For', 'Do', 'RFor', 'Return', 'Break', 'Continue', 'Switch', 'Case', 'Default', 'Try', 'NullS', 'Decl', 'Goto', 'Label', 'OtherS'}


def _isstmt(v):
    return v.get('k') in STMTK or (v.get('k') == 'Expr')


def strip(e):
    """drop implicit one-argument conversions and numeric casts"""
    while isinstance(e, dict):
        if e['k'] == 'Ctor' and e.get('imp') and e.get('a') and (len(e['a']) == 1 or all(a.get('dflt') for a in e['a'][1:])) and not e['a'][0].get('dflt'):
            e = e['a'][0]
            continue
        if e['k'] == 'Cast' and e.get('ck') == 'num':
            e = e['e']
            continue
        if e['k'] == 'Ctor' and e.get('n', '') in ('std::basic_string', 'boost::shared_ptr', 'boost::intrusive_ptr', 'std::shared_ptr') and len([a for a in e.get('a', []) if not a.get('dflt')]) == 1:
            e = e['a'][0]
            continue
        return e
    return e


def _nmod(fn, d):
    n = 0
    for x in walk(fn.get('body')):
        if x['k'] in ('Asg', 'Inc'):
            y = strip(x['x'] if x['k'] == 'Asg' else x['e'])
            if y['k'] == 'Ref' and y.get('d') == d:
                n += 1
    return n


def _unused_after(body, s, d):
    """nothing after statement s (which is in no loop of this function) mentions variable d"""
    def rec(x):
        # None: s is not in here; True / False
        if x is s:
            return True
        if isinstance(x, dict):
            for v in x.values():
                if isinstance(v, (dict, list)):
                    r = rec(v)
                    if r is not None:
                        return r and x.get('k') not in ('For', 'While', 'Do', 'RFor')
        elif isinstance(x, list):
            for i, v in enumerate(x):
                if isinstance(v, (dict, list)):
                    r = rec(v)
                    if r is not None:
                        return r and not any(q['k'] == 'Ref' and q.get('d') == d for q in walk(x[i + 1:]))
        return None
    return bool(rec(body))


def _reassigned(fn):
    if '_reass' in fn:
        return fn['_reass']
    r = set()
    for x in walk(fn.get('body')):
        if x['k'] == 'Asg':
            y = strip(x['x'])
            if y['k'] == 'Ref':
                r.add(y.get('d'))
        elif x['k'] == 'Inc':
            y = strip(x['e'])
            if y['k'] == 'Ref':
                r.add(y.get('d'))
    fn['_reass'] = r
    return r


class Canon:
    """canonical, frame-resolved text of an expression"""

    def __init__(self, g, node=None):
        self.g = g
        self.node = node
        self.P = g.P

    def s(self, e, fr, lim=40):
        if e is None:
            return '<none>'
        if lim <= 0:
            return '<deep>'
        e = strip(e)
        k = e['k']
        if k == 'Ref':
            return self.ref(e, fr, lim)
        if k in ('Int',):
            return e['v']
        if k == 'Flt':
            v = float(e['v'])
            return str(int(v)) if v == int(v) and abs(v) < 1e15 else repr(v)
        if k == 'Str':
            return '"%s"' % esc(e['v'])
        if k == 'Chr':
            return "'%s'" % e['v']
        if k == 'Bool':
            return 'true' if e['v'] else 'false'
        if k in ('Null',):
            return 'NULL'
        if k in ('This', 'ThisPtr'):
            if fr.this is not None:
                return self.s(fr.this[0], fr.this[1], lim - 1)
            return 'this'
        if k in ('Deref', 'Addr'):
            return self.s(e['e'], fr, lim - 1)
        if k == 'Mem':
            return self.s(e['b'], fr, lim - 1) + '.' + e['m']
        if k == 'Idx':
            b = e['b']
            # c[i] in an index loop over c is the element
            i = strip(e['i'])
            if i['k'] == 'Ref':
                it = self._iter(i, fr)
                if it and it[2] in ('index', 'rindex') and self.s(it[0], it[1], lim - 1) == self.s(b, fr, lim - 1):
                    return 'elem(%s)' % self.s(b, fr, lim - 1)
            return '%s[%s]' % (self.s(b, fr, lim - 1), self.s(e['i'], fr, lim - 1))
        if k == 'Cast':
            if e['ck'] == 'dynamic':
                return 'dyn<%s>(%s)' % (e['t'].replace(' *', '').replace(' &', ''), self.s(e['e'], fr, lim - 1))
            return self.s(e['e'], fr, lim - 1)
        if k == 'Call':
            return self.call(e, fr, lim)
        if k == 'Ctor':
            return '%s{%s}' % (short(e['n']), ','.join(self.s(a, fr, lim - 1) for a in e.get('a', []) if not a.get('dflt')))
        if k == 'New':
            if e.get('i') is not None:
                return 'new ' + self.s(e['i'], fr, lim - 1)
            return 'new ' + e['t']
        if k == 'Bin':
            return rel_or_lin(self, e, fr, lim)
        if k == 'Un':
            if e['op'] == '-':
                return lin_str(*self.lin(e, fr, lim))
            if e['op'] == '!':
                return neg(self.s(e['e'], fr, lim - 1))
            return '%s(%s)' % (e['op'], self.s(e['e'], fr, lim - 1))
        if k == 'Cond':
            c, x, y = self.s(e['c'], fr, lim - 1), self.s(e['x'], fr, lim - 1), self.s(e['y'], fr, lim - 1)
            m = minmax(c, x, y)
            return m or '(%s?%s:%s)' % (c, x, y)
        if k == 'Asg':
            return '(%s%s%s)' % (self.s(e['x'], fr, lim - 1), e['op'], self.s(e['y'], fr, lim - 1))
        if k == 'Inc':
            return '(%s%s%s)' % (e['op'] if not e.get('post') else '', self.s(e['e'], fr, lim - 1), e['op'] if e.get('post') else '')
        if k == 'List':
            return '{%s}' % ','.join(self.s(a, fr, lim - 1) for a in e.get('a', []))
        if k == 'Zero':
            return '0'
        if k == 'Sizeof':
            return 'sizeof(%s)' % e.get('st')
        if k == 'Typeid' and e.get('st'):
            return 'typeid(%s)' % e['st']
        if k == 'Range':
            return 'range(%s,%s)' % (self.s(e['x'], fr, lim - 1), self.s(e['y'], fr, lim - 1))
        if k == 'Lambda':
            return lam_id(e)
        if k == 'Throw':
            return 'throw'
        return '<%s:%s>' % (k, ','.join(self.s(a, fr, lim - 1) for a in e.get('a', []) if isinstance(a, dict) and not _isstmt(a)))

    def _iter(self, e, fr):
        its = getattr(self.g, 'iters', {})
        d = e.get('d')
        f = fr
        while f is not None:
            if (f.id, d) in its:
                return its[(f.id, d)]
            f = f.parent if f.fn.get('lambda') else None
        return None

    def ref(self, e, fr, lim):
        s = e.get('s')
        if s == 'enum' or s == 'func' or s == 'global':
            return e['n']
        d = e.get('d')
        f = self.g.owner(fr, d)
        it = getattr(self.g, 'iters', {}).get((f.id, d))
        if it:
            if it[2] in ('index', 'rindex', 'count'):
                return 'idx(%s)' % self.s(it[0], it[1], lim - 1)
            return 'elem(%s)' % self.s(it[0], it[1], lim - 1)
        if d in f.binds:
            a, af = f.binds[d]
            return self.s(a, af, lim - 1)
        v = self.g.vars.get((f.id, d))
        if v is not None:
            defs = self.g.defs.get((f.id, d), [])
            dn = None
            if len(defs) == 1:
                dn = defs[0]
            elif self.node is not None and len(defs) > 1:
                r = self.g.reaching((f.id, d), self.node)
                if len(r) == 1 and r[0] is not None:
                    dn = r[0]
            if dn is not None:
                if dn.kind == 'decl':
                    i = dn.e.get('i')
                    af = dn.e.get('argframe', dn.fr)
                    if i is not None and not (dn.e.get('dfltctor')) and not dn.e.get('binds') and not mutated_obj(self.g, (f.id, d), v):
                        old = self.node
                        self.node = dn
                        r = self.s(i, af, lim - 1)
                        self.node = old
                        return r
                elif dn.kind == 'write' and dn.e['k'] == 'Asg' and dn.e['op'] == '=':
                    old = self.node
                    self.node = dn
                    r = self.s(dn.e['y'], dn.fr, lim - 1)
                    self.node = old
                    return r
            return '%s' % v['n'] if f.depth == 0 else '%s~%d' % (v['n'], f.depth)
        return '$%s' % e['n'] if f.depth == 0 else '$%s~%d' % (e['n'], f.depth)

    def call(self, e, fr, lim):
        n = short(e.get('n', '')) if e.get('n') else '<fp>'
        a = e.get('a', [])
        nd = [x for x in a if not x.get('dflt')]
        o = e.get('o')
        full = e.get('n', '')
        stdm = o is not None and full.startswith(STDNS)
        if stdm:
            if n in ('get', 'c_str', 'data', 'str') and not nd and ('ptr' in full or 'string' in full and n != 'str' or n == 'c_str'):
                return self.s(o, fr, lim - 1)
            if n == 'empty':
                return 'empty(%s)' % self.s(o, fr, lim - 1)
            if n in ('size', 'length') and not nd:
                return 'size(%s)' % self.s(o, fr, lim - 1)
            if n in ('count', 'contains') and len(nd) == 1:
                return 'has(%s,%s)' % (self.s(o, fr, lim - 1), self.s(nd[0], fr, lim - 1))
            if n == 'at' and len(nd) == 1:
                i = strip(nd[0])
                b = self.s(o, fr, lim - 1)
                if i['k'] == 'Ref':
                    it = self._iter(i, fr)
                    if it and it[2] in ('index', 'rindex') and self.s(it[0], it[1], lim - 1) == b:
                        return 'elem(%s)' % b
                return '%s[%s]' % (b, self.s(nd[0], fr, lim - 1))
        if full in ('std::move', 'std::forward') and len(nd) == 1:
            return self.s(nd[0], fr, lim - 1)
        if 'pointer_cast' in n and len(nd) == 1:
            kind = 'dyn' if n.startswith('dynamic') else ''
            s = self.s(nd[0], fr, lim - 1)
            if kind:
                m = re.search(r'shared_ptr<(.*)>', e.get('t', ''))
                return 'dyn<%s>(%s)' % (m.group(1) if m else '?', s)
            return s
        if full in ('std::min', 'std::max', 'std::fmin', 'std::fmax', 'fmin', 'fmax') and len(nd) == 2:
            return '%s(%s)' % (n.replace('f', ''), ','.join(sorted(self.s(x, fr, lim - 1) for x in nd)))
        if full in ('std::fabs', 'fabs', 'std::abs', 'abs') and len(nd) == 1:
            return 'abs(%s)' % self.s(nd[0], fr, lim - 1)
        # value of an inlined helper with a single return
        cv = getattr(self.g, 'callvals', {}).get((id(e), fr.id))
        if cv is not None and cv[0] != 'multi':
            return self.s(cv[0], cv[1], lim - 1)
        # trivial accessor
        key = e.get('f')
        if key in self.P.F and not (e.get('virt') and not e.get('qual') and len(self.P.impls(key)) != 1):
            t = self.P.trivial(key)
            if t is not None:
                tf, te = t
                nfr = Frame(tf, fr, (o, fr) if o is not None else None)
                if o is None and tf.get('cls') and not tf.get('static'):
                    nfr.this = ({'k': 'This'}, fr)
                for i, p in enumerate(tf.get('ps', [])):
                    if i < len(a):
                        nfr.binds[p['d']] = (a[i], fr)
                return self.s(te, nfr, lim - 4)
        args = ','.join(self.s(x, fr, lim - 1) for x in nd)
        if full.startswith('std::numeric_limits'):
            return (e.get('f') or full + '()')
        if o is not None:
            return '%s.%s(%s)' % (self.s(o, fr, lim - 1), n, args)
        return '%s(%s)' % (notmpl(full) if full else self.s(e.get('fe'), fr, lim - 1), args)

    # linear form: ({term: coef}, const)
    def lin(self, e, fr, lim=40):
        e = strip(e)
        k = e['k']
        if k == 'Int':
            return {}, float(e['v'])
        if k == 'Flt':
            return {}, float(e['v'])
        if k == 'Cast' and e['ck'] != 'dynamic':
            return self.lin(e['e'], fr, lim - 1)
        if k == 'Bin' and not e.get('ov') and e['op'] in ('+', '-'):
            a, ac = self.lin(e['x'], fr, lim - 1)
            b, bc = self.lin(e['y'], fr, lim - 1)
            sgn = 1 if e['op'] == '+' else -1
            r = dict(a)
            for t, c in b.items():
                r[t] = r.get(t, 0) + sgn * c
            return {t: c for t, c in r.items() if c}, ac + sgn * bc
        if k == 'Un' and e['op'] == '-':
            a, ac = self.lin(e['e'], fr, lim - 1)
            return {t: -c for t, c in a.items()}, -ac
        if k == 'Bin' and not e.get('ov') and e['op'] == '*':
            a, ac = self.lin(e['x'], fr, lim - 1)
            b, bc = self.lin(e['y'], fr, lim - 1)
            if not a:
                return {t: c * ac for t, c in b.items() if c * ac}, ac * bc
            if not b:
                return {t: c * bc for t, c in a.items() if c * bc}, ac * bc
            fs = sorted([lin_str(a, ac), lin_str(b, bc)])
            return {'(%s*%s)' % tuple(fs): 1.0}, 0.0
        if k == 'Bin' and not e.get('ov') and e['op'] == '/':
            b, bc = self.lin(e['y'], fr, lim - 1)
            a, ac = self.lin(e['x'], fr, lim - 1)
            return {'(%s/%s)' % (lin_str(a, ac), lin_str(b, bc)): 1.0}, 0.0
        if k == 'Bin' and not e.get('ov') and e['op'] == '%':
            b, bc = self.lin(e['y'], fr, lim - 1)
            a, ac = self.lin(e['x'], fr, lim - 1)
            return {'(%s%%%s)' % (lin_str(a, ac), lin_str(b, bc)): 1.0}, 0.0
        # chase single-def locals / accessors whose value is itself linear
        ch = self.chase(e, fr)
        if ch is not None and lim > 0:
            old = self.node
            if ch[2] is not None:
                self.node = ch[2]
            r = self.lin(ch[0], ch[1], lim - 1)
            self.node = old
            return r
        s = self.s(e, fr, lim - 1)
        try:
            return {}, float(s)
        except ValueError:
            pass
        return {s: 1.0}, 0.0

    def chase(self, e, fr):
        """one substitution step of a local/param/inlined call, or None"""
        if e['k'] == 'Ref' and e.get('s') in ('local', 'param'):
            f = self.g.owner(fr, e.get('d'))
            d = e.get('d')
            if (f.id, d) in getattr(self.g, 'iters', {}):
                return None
            if d in f.binds:
                return f.binds[d] + (None,)
            v = self.g.vars.get((f.id, d))
            if v is not None:
                defs = self.g.defs.get((f.id, d), [])
                dn = None
                if len(defs) == 1:
                    dn = defs[0]
                elif self.node is not None and len(defs) > 1:
                    r = self.g.reaching((f.id, d), self.node)
                    if len(r) == 1 and r[0] is not None:
                        dn = r[0]
                if dn is not None and dn.kind == 'decl' and dn.e.get('i') is not None and not dn.e.get('dfltctor'):
                    return dn.e['i'], dn.e.get('argframe', dn.fr), dn
                if dn is not None and dn.kind == 'write' and dn.e['k'] == 'Asg' and dn.e['op'] == '=':
                    return dn.e['y'], dn.fr, dn
        if e['k'] == 'Call':
            cv = getattr(self.g, 'callvals', {}).get((id(e), fr.id))
            if cv is not None and cv[0] != 'multi':
                return cv[0], cv[1], None
            key = e.get('f')
            if key in self.P.F and not (e.get('virt') and not e.get('qual') and len(self.P.impls(key)) != 1):
                t = self.P.trivial(key)
                if t is not None:
                    tf, te = t
                    o = e.get('o')
                    nfr = Frame(tf, fr, (o, fr) if o is not None else None)
                    if o is None and tf.get('cls') and not tf.get('static'):
                        nfr.this = ({'k': 'This'}, fr)
                    for i, p in enumerate(tf.get('ps', [])):
                        if i < len(e.get('a', [])):
                            nfr.binds[p['d']] = (e['a'][i], fr)
                    return te, nfr, None
        return None


def mutated_obj(g, key, v):
    """local object (not pointer/reference/scalar) that is later changed through
    mutating members: its initialiser is not its value"""
    t = v.get('t', '')
    if t.rstrip().endswith(('*', '&')) or 'ptr<' in t.split(',')[0]:
        return False
    m = getattr(g, '_mut', None)
    if m is None:
        m = g._mut = set()
        for n in g.nodes:
            if n.kind == 'call' and n.e.get('o') is not None:
                o = strip(n.e['o'])
                if o['k'] == 'Ref' and short(n.e.get('n', '')) in MUTATORS:
                    f = g.owner(n.fr, o.get('d'))
                    m.add((f.id, o.get('d')))
            if n.kind == 'write':
                x = strip(n.e.get('x') or n.e.get('e'))
                while x['k'] in ('Idx', 'Mem') and 'b' in x:
                    x = strip(x['b'])
                    if x['k'] == 'Ref':
                        f = g.owner(n.fr, x.get('d'))
                        m.add((f.id, x.get('d')))
    return key in m


def fmtc(c):
    return str(int(c)) if c == int(c) and abs(c) < 1e15 else repr(c)


def lin_str(terms, const):
    if not terms:
        return fmtc(const)
    out = []
    for t in sorted(terms):
        c = terms[t]
        if c == 1:
            out.append('+' + t)
        elif c == -1:
            out.append('-' + t)
        else:
            out.append('%+g*%s' % (c, t))
    s = ''.join(out)
    if const:
        s += ('+' if const > 0 else '-') + fmtc(abs(const))
    if s.startswith('+'):
        s = s[1:]
    if len(terms) == 1 and not const and list(terms.values())[0] == 1:
        return list(terms)[0]
    return '(' + s + ')'


def minmax(c, x, y):
    """(a<b?a:b) -> min"""
    for op in ('<', '<='):
        for a, b in ((x, y), (y, x)):
            pass
    m = re.match(r'^\{(.*)\} (>|>=) 0$', c)
    return None


RELS = {'<', '>', '<=', '>=', '==', '!='}


def is_intty(t):
    return t in ('int', 'unsigned int', 'long', 'unsigned long', 'size_t', 'short', 'bool', 'char', 'unsigned char', 'long long', 'unsigned long long')


def rel_or_lin(C, e, fr, lim):
    op = e['op']
    if op in RELS:
        return rel(C, e, fr, lim)
    if op in ('&&', '||') and not e.get('ov'):
        return '(%s)' % (' %s ' % op).join([C.s(e['x'], fr, lim - 1), C.s(e['y'], fr, lim - 1)])
    if e.get('ov') or op in ('<<', '>>', '&', '|', '^', ','):
        a, b = C.s(e['x'], fr, lim - 1), C.s(e['y'], fr, lim - 1)
        if op == '+' and e.get('ov'):
            return '%s ++ %s' % (a, b)
        return '(%s %s %s)' % (a, op, b)
    return lin_str(*C.lin(e, fr, lim))


def neg(s):
    """negation of a canonical boolean"""
    if s.startswith('!'):
        return s[1:]
    m = re.match(r'^(.*) (==|!=|>=|>) (.*)$', s)
    if m and not s.startswith(('(', 'empty(', 'has(')) or (m and m.group(3) == '0'):
        op = m.group(2)
        if op == '==':
            return '%s != %s' % (m.group(1), m.group(3))
        if op == '!=':
            return '%s == %s' % (m.group(1), m.group(3))
        # t > 0  ->  -t >= 0
        if m.group(3) == '0':
            t = m.group(1)
            return ('%s >= 0' if op == '>' else '%s > 0') % neglin(t)
    return '!' + s


def neglin(t):
    """negate the canonical linear string produced by relstr"""
    parts = parse_lin(t)
    if parts is None:
        return '-' + t
    terms, const = parts
    return linkey({k: -v for k, v in terms.items()}, -const)


_lincache = {}


def linkey(terms, const):
    s = 'L[' + ';'.join('%s*%s' % (fmtc(terms[t]), t) for t in sorted(terms)) + ';' + fmtc(const) + ']'
    _lincache[s] = (dict(terms), const)
    return s


def parse_lin(s):
    return _lincache.get(s)


def rel(C, e, fr, lim):
    """canonical relation.  ordering: `L[...] > 0` or `L[...] >= 0`; equality: sorted"""
    op = e['op']
    x, y = strip(e['x']), strip(e['y'])

    def endcall(q):
        while q['k'] == 'Ref' and q.get('s') == 'local':
            ch = C.chase(q, fr)
            if ch is None:
                return q
            q = strip(ch[0])
        return q
    # membership: m.find(k) ==/!= m.end();  std::find(b,e,k) ==/!= e
    if op in ('==', '!='):
        for a, b in ((x, y), (y, x)):
            a2, b2 = endcall(a), endcall(b)
            if a2['k'] == 'Call' and b2['k'] == 'Call' and short(b2.get('n', '')) in ('end', 'cend'):
                if short(a2.get('n', '')) == 'find':
                    if a2.get('o') is not None and len(a2.get('a', [])) == 1:
                        r = 'has(%s,%s)' % (C.s(a2['o'], fr, lim - 1), C.s(a2['a'][0], fr, lim - 1))
                        return r if op == '!=' else '!' + r
                    if len(a2.get('a', [])) == 3 and b2.get('o') is not None:
                        r = 'has(%s,%s)' % (C.s(b2['o'], fr, lim - 1), C.s(a2['a'][2], fr, lim - 1))
                        return r if op == '!=' else '!' + r
                if short(a2.get('n', '')) in ('begin', 'cbegin') and a2.get('o') is not None and b2.get('o') is not None:
                    r = 'empty(%s)' % C.s(a2['o'], fr, lim - 1)
                    return r if op == '==' else '!' + r
    sx, sy = None, None
    if op in ('==', '!='):
        sx, sy = C.s(x, fr, lim - 1), C.s(y, fr, lim - 1)
        for a, b in ((sx, sy), (sy, sx)):
            if a.startswith('size(') and b == '0':
                r = 'empty(' + a[5:]
                return r if op == '==' else '!' + r
            if a.startswith('has(') and b in ('0', '1'):
                return a if (op == '==') == (b == '1') else '!' + a
            if b == '""':
                r = 'empty(%s)' % a
                return r if op == '==' else '!' + r
            if b in ('true', 'false'):
                return a if (op == '==') == (b == 'true') else neg(a)
        if sx > sy:
            sx, sy = sy, sx
        return '%s %s %s' % (sx, op, sy)
    if e.get('ov'):
        a, b = C.s(x, fr, lim - 1), C.s(y, fr, lim - 1)
        if op in ('>', '<='):
            a, b = b, a
        return ('lt(%s,%s)' if op in ('<', '>') else '!lt(%s,%s)') % ((a, b) if op in ('<', '>') else (b, a))
    a, ac = C.lin(x, fr, lim - 1)
    b, bc = C.lin(y, fr, lim - 1)
    # size(x) > 0, size(x) < 1 ...
    if op in ('<', '<='):
        a, ac, b, bc = b, bc, a, ac
        op = '>' if op == '<' else '>='
    r = dict(a)
    for t, c in b.items():
        r[t] = r.get(t, 0) - c
    r = {t: c for t, c in r.items() if c}
    const = ac - bc
    if len(r) == 1:
        (t, c), = r.items()
        if t.startswith('size(') and ((c == 1 and ((op == '>' and const == 0) or (op == '>=' and const == -1)))):
            return '!empty(' + t[5:]
        if t.startswith('size(') and c == -1 and ((op == '>' and const == 1) or (op == '>=' and const == 0)):
            return 'empty(' + t[5:]
        if t.startswith('has(') and c == 1 and ((op == '>' and const == 0) or (op == '>=' and const == -1)):
            return t
    # integers: normalise > to >= 
    tx, ty_ = x.get('t', ''), y.get('t', '')
    allint = _intexpr(C, x, fr) and _intexpr(C, y, fr)
    if op == '>' and allint:
        const -= 1
        op = '>='
    return '%s %s 0' % (linkey(r, const), op)


def _intexpr(C, e, fr):
    e = strip(e)
    if e['k'] == 'Int':
        return True
    if e['k'] == 'Flt':
        return False
    if e['k'] == 'Bin':
        return _intexpr(C, e['x'], fr) and _intexpr(C, e['y'], fr)
    if e['k'] == 'Un':
        return _intexpr(C, e['e'], fr)
    t = e.get('t', '').replace('const ', '').replace(' &', '').strip()
    return is_intty(t)


def ptypes(key):
    """parameter types from a function key 'name(t1, t2) const@file'"""
    i = key.find('(')
    # operator()(...)
    if key[:i].endswith('operator'):
        i = key.find('(', i + 1)
    if i < 0:
        return []
    d = 0
    out, cur = [], ''
    for ch in key[i + 1:]:
        if ch in '<(':
            d += 1
        if ch in '>)':
            if ch == ')' and d == 0:
                break
            d -= 1
        if ch == ',' and d == 0:
            out.append(cur.strip())
            cur = ''
        else:
            cur += ch
    if cur.strip():
        out.append(cur.strip())
    return out


def lam_id(e):
    """position-independent name of a lambda"""
    ids = {}

    def rec(x):
        if isinstance(x, dict):
            return {k: (ids.setdefault(v, len(ids)) if k == 'd' else rec(v)) for k, v in sorted(x.items()) if k not in ('l', 'c', 'n') or k == 'n' and x.get('k') != 'Ref'
                    and not ('d' in x and 't' in x)}
        if isinstance(x, list):
            return [rec(v) for v in x]
        return x
    import hashlib
    t = json.dumps(rec({'ps': e.get('ps'), 'body': e.get('body')}), sort_keys=True, default=str)
    return 'lambda#' + hashlib.md5(t.encode()).hexdigest()[:8]
