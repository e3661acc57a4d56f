"""Function contracts: text blocks compared with guarded-event summaries.

  fn NAME [| parameter-type substrings ...]
    [label:] [+][for CONT] KIND SIGNATURE IF GUARD
    order a < b
    seq i<j ...      lines i and j (counted from 0) of the block do not commute (seqs.py): i comes first

A line states: exactly under GUARD (a sum of products over canonical atoms,
compared as Boolean functions modulo order / distinctness of constants) the
event happens, once, in those complete traversals.  `<*>` matches any text.
A location mentioned by a block is closed: every other event on the same
location (field, container, callee, table column, throw, return) in that
function is reported.  `+` leaves it open.
"""
import os
import re
from engine import notmpl, short, walk
from summ import Summary, effect, B, rel_bdd, truth, equiv, implies, disjoint, lin_term, _LIN, _REL, lin_of
from rule import AnalysisBroken, S_loc, Or
import seqs

OPEN, CLOSE = '([{', ')]}'


def split0(s, sep):
    """split at bracket depth 0, outside string literals"""
    out, d, q, cur, i = [], 0, False, '', 0
    while i < len(s):
        ch = s[i]
        if ch == '"' and (i == 0 or s[i - 1] != '\\'):
            q = not q
        if not q:
            if ch in OPEN:
                d += 1
            elif ch in CLOSE:
                d -= 1
            elif d == 0 and s.startswith(sep, i):
                out.append(cur)
                cur = ''
                i += len(sep)
                continue
        cur += ch
        i += 1
    out.append(cur)
    return out


def reg_lin(t):
    """register a printed linear term so that order facts apply"""
    if t in _LIN or not (t.startswith('(') and t.endswith(')')):
        return
    s = t[1:-1]
    parts, cur, d, q = [], '', 0, False
    for i, ch in enumerate(s):
        if ch == '"':
            q = not q
        if not q:
            if ch in OPEN:
                d += 1
            elif ch in CLOSE:
                d -= 1
        if d == 0 and not q and ch in '+-' and cur and not re.search(r'\de$', cur):
            parts.append(cur)
            cur = ch
        else:
            cur += ch
    parts.append(cur)
    terms, const = {}, 0.0
    for p in parts:
        sg = 1.0
        if p[0] in '+-':
            sg = -1.0 if p[0] == '-' else 1.0
            p = p[1:]
        m = re.match(r'^(\d+(?:\.\d+)?(?:e[-+]?\d+)?)\*(.*)$', p)
        if m:
            sg *= float(m.group(1))
            p = m.group(2)
        try:
            const += sg * float(p)
        except ValueError:
            terms[p] = terms.get(p, 0) + sg
    if lin_term(terms, const) != t:
        return


def atom(s):
    if s == 'T':
        return 1
    if s == 'F':
        return 0
    if s.startswith('!'):
        return B.Not(atom(s[1:]))
    m = re.match(r'^(.*) (>=|>) (-?[\d.e+-]+)$', s)
    if m:
        reg_lin(m.group(1))
        if s not in _REL:
            _REL[s] = (m.group(1), m.group(2), float(m.group(3)), m.group(2) == '>=')
    return B.var(s)


def guard(s):
    r = 0
    for p in split0(s.strip(), ' | '):
        x = 1
        for a in split0(p.strip(), ' & '):
            x = B.And(x, atom(a.strip()))
        r = B.Or(r, x)
    return r


class Line:
    pass


def parse(text):
    blocks = []
    lets = {}
    for raw in text.splitlines():
        ln = raw.strip()
        if not ln or ln.startswith('#'):
            continue
        if lets:
            ln = re.sub('\u00ab(\\d+)\u00bb', lambda m: lets[m.group(1)], ln)
        if ln.startswith('let '):
            n, v = ln[4:].split(' = ', 1)
            lets[n] = v
            continue
        m = re.match(r'^fn([+?]*) (.*)$', ln)
        if m:
            parts = [x.strip() for x in (m.group(2) + ' ').split(' | ')]
            cst = None
            if len(parts) > 1:
                cst = parts[1].endswith(' const') or parts[1] == 'const'
                if cst:
                    parts[1] = parts[1][:-5].strip()
            blocks.append({'fn': parts[0], 'ps': [x.strip() for x in parts[1].split(';') if x.strip()] if len(parts) > 1 else None, 'const': cst,
                           'lines': [], 'dflt': [], 'carry': [], 'leave': [], 'order': [], 'seq': [], 'opq': set(), 'open': '+' in m.group(1), 'opt': '?' in m.group(1), 'stop': None})
            continue
        if ln.startswith('init '):
            n, v = ln[5:].split(' = ', 1)
            blocks.append({'fn': n, 'init': v, 'opt': False})
            continue
        m = re.match(r'^default (\d+) = (.*)$', ln)
        if m:
            blocks[-1]['dflt'].append((int(m.group(1)), m.group(2)))
            continue
        if ln.startswith(('carry ', 'leave ')):
            blocks[-1][ln[:5]].append(ln[6:])
            continue
        if ln.startswith('stop: '):
            blocks[-1]['stop'] = ln[6:].strip()
            continue
        if ln.startswith('seq '):
            blocks[-1]['seq'] += [tuple(int(y) for y in x.split('<')) for x in ln[4:].split()]
            continue
        if ln.startswith('opaque '):
            blocks[-1]['opq'] |= set(ln[7:].split())
            continue
        if ln.startswith('order '):
            blocks[-1]['order'].append([x.strip() for x in ln[6:].split('<')])
            continue
        l = Line()
        l.text = ln
        m = re.match(r'^([a-z][a-z0-9_-]*): (.*)$', ln)
        l.label = None
        if m:
            l.label, ln = m.group(1), m.group(2)
        l.open = l.multi = False
        while ln[:1] in '+*':
            l.open |= ln[0] == '+'
            l.multi |= ln[0] == '*'
            ln = ln[1:].strip()
        loops = []
        while ln.startswith('[for '):
            d, i = 0, 0
            for i, ch in enumerate(ln):
                if ch == '[':
                    d += 1
                elif ch == ']':
                    d -= 1
                    if d == 0:
                        break
            loops.append(ln[5:i])
            ln = ln[i + 1:].strip()
        l.loops = tuple(loops)
        i = ln.rfind(' IF ')
        l.sig, g = ln[:i], ln[i + 4:]
        l.guard = guard(g)
        l.gtext = g
        l.rx = re.compile('.*'.join(re.escape(x) for x in l.sig.split('<*>')), re.S)
        blocks[-1]['lines'].append(l)
    return blocks


def lockey(e):
    if e.kind == 'set':
        return ('set', e.name)
    if e.kind in ('put', 'add', 'del'):
        return ('c', e.obj.rstrip("'"))
    if e.kind == 'call':
        if e.name == 'cyclus::Datum::AddVal':
            return ('col', e.obj, e.args[0] if e.args else '')
        if e.name in ('cyclus::Datum::Record', 'cyclus::Recorder::NewDatum'):
            return ('row', e.name, e.obj, tuple(e.args))
        return ('call', e.name)
    if e.kind in ('throw', 'ret', 'delete'):
        return (e.kind,)
    if e.kind in ('new', 'ctor'):
        return (e.kind, e.name)
    return (e.kind, e.name)


def select(c, b):
    """the definition a block speaks about; None when it is gone"""
    ps = b['ps']
    fn = b['fn']
    cand = [f for f in c.P.fns(fn) if f.get('body')]
    if '<' in fn and not cand or len(cand) > 1:
        ex = [f for f in c.P.F.values() if f.get('body') and f['key'].startswith((fn + '(', fn + '<'))]
        cand = ex or cand
        if not cand:
            cand = [f for f in c.P.fns(notmpl(fn)) if f.get('body')]
    if len(cand) != 1 and ps is not None:
        for test in (lambda f: len(f.get('ps', [])) == len(ps),
                     lambda f: [norm_t(q['t']) for q in f['ps']] == [norm_t(t) for t in ps],
                     lambda f: [q['t'] for q in f['ps']] == ps,
                     lambda f: bool(f.get('const')) == b['const']):
            ex = [f for f in cand if test(f)]
            cand = ex or cand
        if len({(f['file'], f['l']) for f in cand}) == 1:
            cand = sorted(cand, key=lambda f: f['key'])[:1]     # instantiations of one template
    elif len(cand) > 1:
        ex = [f for f in cand if not f.get('ps')]
        cand = ex if len(ex) == 1 else cand
    if len(cand) != 1:
        if not cand:
            return None
        raise AnalysisBroken('%s: expected one definition of %s, found %d' % (c.prop, b['fn'], len(cand)))
    return cand[0]


def norm_t(t):
    return re.sub(r'\s+', '', re.sub(r'\bconst\b|&', '', t))


def stopper(rx):
    if not rx:
        return None
    r = re.compile(rx)
    return lambda e, g, fr: bool(r.search(notmpl(e.get('n') or '')))


def summarise(P, f, stop):
    """the summary of a function; of a slice, what it has beyond the slice of the default branch"""
    k = (f['key'], stop, f['n'])
    if k not in P.sums:
        S = Summary(P, f, stop=stopper(stop))
        S.evs()
        base, _, label = f['n'].partition('#')
        if label and label != 'default':
            d = [g for g in P.fns(base + '#default') if g['key'] == f['key']]
            if d:
                have = {(e.loops, e.sig(), e.guard) for e in summarise(P, d[0], stop).evs()}
                S.events = [e for e in S.events if (e.loops, e.sig(), e.guard) not in have]
        P.sums[k] = S
    return P.sums[k]


def summary(c, b):
    f = select(c, b)
    if f is None:
        return None
    S = summarise(c.P, f, b['stop'])
    c.fns[f['key']] = '%s:%s' % (f['file'], f['l'])
    for i in S.g.inlined:
        g = c.P.F.get(i)
        if g:
            c.fns.setdefault(i, '%s:%s' % (g['file'], g['l']))
    return S





def initval(P, name):
    """canonical text of the initial value of a global or static member"""
    g = P.G.get(name)
    if not g or g.get('i') is None:
        return None
    f = {'key': 'init@' + name, 'n': name, 'sn': name, 'ps': [], 'body': {'k': 'Block', 'b': [{'k': 'Return', 'e': g['i'], 'l': g['l']}], 'l': g['l']}, 't': g['t'], 'file': g['file'], 'l': g['l']}
    try:
        r = [e for e in Summary(P, f).evs() if e.kind == 'ret']
    except Exception:
        return None
    return r[0].args[0] if len(r) == 1 and r[0].args else None


def defaults(S):
    """default arguments of the summarised function: [(index, canonical text)]"""
    en = S.g.entry
    out = []
    for i, p in enumerate(en.fr.fn.get('ps', [])):
        if p.get('dv') is not None:
            v = S.val(p['dv'], en.fr, en)
            if len(v) == 1:
                out.append((i, v[0][1]))
    return out


def apply(c, text):
    """discharge all contracts of a spec text"""
    n, gone = 0, []
    bs = parse(text)
    err = []
    for b in bs:
        n0 = len(c.obs)
        if 'init' in b:
            v = initval(c.P, b['fn'])
            if v is None:
                c.undecided.append('%s: no longer an initialised global of that name' % b['fn'])
            else:
                g = c.P.G[b['fn']]
                c.ob('contract.init', b['fn'], v == b['init'], 'starts as %s, required %s' % (v, b['init']), '%s:%s' % (g['file'], g['l']))
            continue
        try:
            S = summary(c, b)
            if S is None:
                if not b['opt']:
                    gone.append(b['fn'])
                continue
            block(c, S, b)
        except Exception as ex:     # a construct the engine does not know: this contract is not decided, the others are
            if os.environ.get('CYCSA_DEBUG'):
                raise
            del c.obs[n0:]
            err.append(b['fn'])
            c.undecided.append('%s: not analysed (%s: %s)' % (b['fn'], type(ex).__name__, str(ex)[:200]))
            continue
        n += 1
    if len(err) > max(2, len(bs) // 2):
        raise AnalysisBroken('%s: %d of %d contracts could not be analysed: %s' % (c.prop, len(err), len(bs), c.undecided[-1]))
    # a helper that was renamed or folded into its callers is covered there; losing more than that is no answer
    for g in gone:
        c.undecided.append('%s: no such function in the current tree' % g)
    if len(gone) > max(3, len(bs) // 2):
        raise AnalysisBroken('%s: %d of %d functions under contract are gone: %s' % (c.prop, len(gone), len(bs), gone[:5]))
    return n


def apply_file(c, name):
    p = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'rules', name)
    with open(p) as f:
        return apply(c, f.read())


OPQ = re.compile(r'lambda|<fp>|\bwhile\b|phi\{|caught\(')


def opaque(txt):
    """constructs the engine does not see through, in a text"""
    return set(OPQ.findall(txt))


def peeled(txt):
    """a traversal whose first round is written out before the loop"""
    for m in re.finditer(r'\btail\(|range\(\(size\(', txt):
        i = m.end()
        d = 0
        for j in range(i, len(txt)):
            if txt[j] == '(':
                d += 1
            elif txt[j] == ')':
                if d == 0:
                    break
                d -= 1
        c = txt[i:j]
        if m.group(0)[0] == 'r' and not txt.startswith(')-1)', j):
            continue
        if c + '[0]' in txt or c + '.begin().' in txt:
            return True
    return False


def codetext(S):
    return '\n'.join(' '.join(e.loops) + ' ' + e.sig() + ' ' + B.s(e.guard) for e in S.evs()
                     if not (e.kind in ('ctor', 'new') or e.kind in ('call', 'set', 'put', 'add', 'del') and effect(S.P, e) == 0))


def block(c, S, b):
    """one contract; when it fails and the code now holds a construct the engine cannot see through (a hand-written
    loop, a stored function, a join it cannot resolve) that the reference does not have, the block is undecided, not violated"""
    n0 = len(c.obs)
    block_(c, S, b)
    bad = [o for o in c.obs[n0:] if not o.ok]
    if not bad:
        return
    ref = '\n'.join(l.text for l in b['lines'])
    got = codetext(S)
    new = sorted(opaque(got) - opaque(ref) - b['opq'])
    if not new and peeled(ref) != peeled(got):
        new = ['a first round written out']
    if new and not os.environ.get('CYCSA_STRICT'):
        del c.obs[n0:]
        c.undecided.append('%s: not decided, the code uses %s: %s' % (b['fn'], ', '.join(new), bad[0].detail[:200]))


def plain(S):
    """the function (with what is written out in it) repeats nothing: no loop, no stored function, no function of its own that the reference lacks"""
    if S.loops:
        return False
    for n in S.g.nodes if isinstance(S.g.nodes, list) else S.g.nodes.values():
        if not isinstance(n.e, dict):
            continue
        for q in walk(n.e):
            if q['k'] == 'Lambda':
                return False
            if q['k'] == 'Call':
                f = S.P.F.get(q.get('f') or '')
                nm = q.get('n') or ''
                if nm.startswith('std::') and (any(strip_fn(a) for a in q.get('a', [])) or short(nm) in ALGO):
                    return False
                if f is not None and (f['key'] == S.root['key'] or S.P.basefns and f['sn'] not in S.P.basefns):
                    return False
    return True


ALGO = set('''accumulate inner_product partial_sum adjacent_difference iota for_each find find_if find_if_not count count_if any_of all_of none_of
transform copy copy_if copy_n remove remove_if remove_copy_if generate generate_n fill fill_n max_element min_element minmax_element sort stable_sort
lower_bound upper_bound equal_range binary_search search mismatch equal lexicographical_compare unique partition set_union set_intersection set_difference
reverse rotate merge replace replace_if swap_ranges nth_element partial_sort'''.split())


def strip_fn(a):
    return any(q['k'] in ('Lambda',) or q['k'] == 'Ref' and q.get('s') == 'fn' for q in walk(a))


def block_(c, S, b):
    evs = S.evs()
    used = set()
    closed = {}
    lab = {}
    hits = []
    fnm = b['fn'].replace('cyclus::', '')
    if b['ps'] is not None:
        fnm += '/%d%s' % (len(b['ps']), 'c' if b['const'] else '')
    if b['carry']:
        have = S.carries()
        for t in b['carry']:
            hd = t.split(';')[0]
            rest = [x for x in have if x not in b['carry'] and x.split(';')[0] == hd]
            if t in have or rest or plain(S):
                c.ob('contract.carry', '%s: %s' % (fnm, t[:120]), t in have, 'no value is carried through the loop as %s; instead %s' % (t[:300], [x[:200] for x in rest][:2]), S_loc(S))
            else:
                c.undecided.append('%s: no loop with the value %s' % (b['fn'], t[:100]))
    if b['leave']:
        have = S.leavings()
        for t in b['leave']:
            g = guard(t)
            ok = any(equiv(x, g) for x, _ in have)
            if ok or len(have) == len(b['leave']) or plain(S):
                c.ob('contract.leave', '%s: %s' % (fnm, t[:120]), ok, 'no loop ends exactly when %s; they end when %s' % (t[:300], [B.s(x)[:200] for x, _ in have]), S_loc(S))
            else:
                c.undecided.append('%s: the loop ending when %s is written differently' % (b['fn'], t[:100]))
    dv = dict(defaults(S)) if b['dflt'] else {}
    for i, v in b['dflt']:
        if i in dv:
            c.ob('contract.default', '%s: argument %d' % (fnm, i), dv[i] == v, 'defaults to %s, required %s' % (dv[i], v), S_loc(S))
    for l in b['lines']:
        m = [e for e in evs if l.rx.fullmatch(e.sig()) and e.loops == l.loops]
        alt = []
        if not m:
            alt = [e for e in evs if l.rx.fullmatch(e.sig())]
            m2 = alt
        inst = '%s: %s' % (fnm, l.sig[:160])
        for e in m:
            used.add(id(e))
            if not l.open:
                closed[lockey(e)] = l
        hits.append(m)
        if l.label:
            lab.setdefault(l.label, []).extend(m)
        if not m:
            # what is there instead on the same location?
            near = nearest(l, evs)
            if alt:
                near = '; it runs in loops %s, required %s' % (list(alt[0].loops), list(l.loops))
            elif near:
                near = '; instead: ' + ' // '.join(repr(e)[:300] for e in near[:3])
            else:
                near = ''
            c.ob('contract', inst, False, 'required "%s" has no counterpart in the code%s' % (l.text[:300], near), S_loc(S))
            for k in keys_of(l):
                closed.setdefault(k, l)
            continue
        tot = 0
        for e in m:
            tot = Or(tot, e.guard)
        ok = equiv(tot, l.guard)
        c.ob('contract', inst, ok, 'happens if [%s], required [%s]' % (B.s(tot)[:500], l.gtext[:500]), m[0].loc())
        if not l.multi and (m[0].kind in ('add', 'delete') or m[0].kind == 'call' and effect(S.P, m[0]) == 2):
            for i in range(len(m)):
                for j in range(i):
                    if m[i].node is not m[j].node and not disjoint(m[i].guard, m[j].guard):
                        c.ob('contract.once', inst, False, 'can happen twice (%s and %s)' % (m[j].loc(), m[i].loc()), m[i].loc())
    for e in evs:
        if id(e) in used:
            continue
        k = lockey(e)
        if e.kind == 'ret' and e.args in (['false'], ['true']) and not e.loops and any(l.sig == 'ret return(%s)' % ('true' if e.args == ['false'] else 'false') and not l.loops for l in b['lines']):
            continue        # the other outcome of a yes/no function
        if k in closed:
            if e.kind == 'call' and effect(S.P, e) == 0:
                continue
            c.ob('contract.closed', '%s: %s' % (fnm, str(k)), False, 'additional event on a specified location: %s' % repr(e)[:500], e.loc())
            continue
        if b['open']:
            continue
        why = world(c, S, e, evs)
        if why:
            c.ob('contract.world', '%s: %s' % (fnm, e.sig()[:120]), False, '%s: %s' % (why, repr(e)[:500]), e.loc())
    for i, j in b['seq']:
        if i >= len(hits) or j >= len(hits) or not hits[i] or not hits[j]:
            continue
        bad = None
        for x in hits[i]:
            for y in hits[j]:
                if x.node is not y.node and not S.before(x, y) and not disjoint(x.guard, y.guard):
                    w = seqs.conflict(S, x, y)
                    if w:
                        bad = (x, y, w)
        c.ob('contract.seq', '%s: %s < %s' % (fnm, b['lines'][i].sig[:80], b['lines'][j].sig[:80]), bad is None, '' if bad is None else
             '%s (%s) must come before %s (%s): both concern %s' % (bad[0].sig()[:160], bad[0].loc(), bad[1].sig()[:160], bad[1].loc(), bad[2][0 if bad[2][0] != '?' else 1]),
             (bad[1] if bad else hits[j][0]).loc())
    for o in b['order']:
        for x, y in zip(o, o[1:]):
            if x not in lab or y not in lab:
                raise AnalysisBroken('spec label %s/%s missing in %s' % (x, y, fnm))
            if lab[x] and lab[y]:
                c.order('contract.order', '%s: %s<%s' % (fnm, x, y), S, lab[x], lab[y])


def keys_of(l):
    """location keys a (missing) line speaks about"""
    kind = l.sig.split(' ', 1)[0]
    rest = l.sig.split(' ', 1)[1] if ' ' in l.sig else ''
    if kind == 'set':
        i = rest.rfind('(') if rest.endswith(')') else -1
        # name ends where the argument list starts: find the matching paren
        d = 0
        for j in range(len(rest) - 1, -1, -1):
            if rest[j] == ')':
                d += 1
            elif rest[j] == '(':
                d -= 1
                if d == 0:
                    return [('set', rest[:j])]
    if kind in ('ret', 'throw', 'delete'):
        return [(kind,)]
    return []


def nearest(l, evs):
    kind = l.sig.split(' ', 1)[0]
    out = []
    import difflib
    for e in evs:
        if e.kind == kind:
            out.append((difflib.SequenceMatcher(None, e.sig()[:200], l.sig[:200]).quick_ratio(), e))
    out.sort(key=lambda x: -x[0])
    return [e for r, e in out if r > 0.7]


def world(c, S, e, evs):
    """an event no line of the block speaks about: why it matters, or None"""
    P = S.P
    if e.kind == 'throw':
        return 'unspecified exception'
    if e.kind == 'break' or e.kind == 'ret' and e.loops:
        # leaving a traversal early matters if the traversal has effects
        lp = e.loops
        for x in evs:
            if x is not e and x.loops[:len(lp)] == lp and effect(P, x) == 2:
                return 'unspecified early exit of a traversal with effects'
        return None
    if e.kind in ('set', 'put', 'add', 'del', 'delete', 'call'):
        if effect(P, e) == 2:
            return 'unspecified effect'
    return None
