"""Which events of a summary do not commute: conflict of (transitive) effects."""
import re
from eff import Eff
from engine import notmpl, short, strip
from summ import effect, disjoint

# recording, caches and id counters: their order is not part of any property unless the function belongs to that class
SOFT = re.compile(r'^cyclus::(Recorder|Datum|Hdf5Back|SqliteBack|SqliteDb|SqlStatement|MemBack|Sha1|Blob|Logger|Env|Cond|CondInjector|RandomNumberGenerator|Timer::(start|end)_time_)::|'
                  r'next_?\w*id_?$|::(recorded_|next_\w*id_|nextid_|nextstate_id_)$|^cyclus::Composition::(mass_|atom_|recorded_|decay_line_|id_)$|'
                  r'::cycpp_shape_|^std::|^cyclus::(type_map|warn_\w+)$|^cyclus::(report_level|cyclus_rng_seed)')


# never
NEVER = re.compile(r'next_?\w*id_?$|^cyclus::(Package::unpackaged_|TransportUnit::unrestricted_|type_map|warn_\w+)|::name_$|^std::|^boost::')


def E(P):
    if not hasattr(P, '_eff'):
        P._eff = Eff(P)
    return P._eff


def fx(S, e):
    """(reads, writes): {(location string or '?', field)}"""
    r = e.extra.get('fx')
    if r is None:
        r = e.extra['fx'] = _fx(S, e) if e.node.kind != 'exit' else (set(), set())
    return r


def fieldname(loc):
    m = re.search(r'([A-Za-z_]\w*)$', re.sub(r"\[[^\]]*\]$|'+$", '', loc))
    return m.group(1) if m else loc


def _fx(S, e):
    if e.kind in ('set', 'put', 'add', 'del'):
        x = e.node.e
        x = strip(x['x'] if x['k'] == 'Asg' else x['e'] if x['k'] == 'Inc' else x.get('o') or x)
        while x['k'] in ('Idx', 'Deref', 'Addr'):
            x = strip(x['b'] if x['k'] == 'Idx' else x['e'])
        o = (e.name if e.kind == 'set' else e.obj).rstrip("'")
        f = notmpl(x['n']) if x['k'] == 'Mem' or x['k'] == 'Ref' and x.get('s') == 'global' else fieldname(o)
        return set(), {(o, f)} if not NEVER.search(f) else set()
    if e.kind != 'call' or e.node.kind != 'call':
        return set(), set()
    x = e.node.e
    R, W = E(S.P).call(x, e.node.fr.fn.get('file') or '')
    cls = S.root.get('cls')
    own = tuple(c + '::' for c in S.fam)
    out = []
    memo = {}

    def base(root):
        if root not in memo:
            if root == 'this':
                o = x.get('o')
                memo[root] = S.lstr(o, e.node.fr, e.node) if o is not None else 'this'
            else:
                i = int(root[1:])
                a = x.get('a', [])
                memo[root] = S.lstr(a[i], e.node.fr, e.node) if i < len(a) else '?'
        return memo[root]
    for s in (R, W):
        q = set()
        for root, p, f in s:
            if f is None:
                q.add((base(root), '*'))
                continue
            nf = notmpl(f)
            if SOFT.search(nf) and not nf.startswith(own) or NEVER.search(nf):
                continue
            if root == '?':
                q.add(('?', nf))
            elif root == 'g':
                q.add((f, nf))
            else:
                b = base(root).rstrip("'")
                q.add(('.'.join((b,) + p), nf))
        out.append(q)
    return out[0], out[1]


def clash(A, B, named=False):
    """a location in both sets (named alike, or one of them unnamed with the same field)"""
    if len(A) > len(B):
        A, B = B, A
    if named:
        nb = {l for l, f in B if l != '?'}
        for l, f in A:
            if l in nb:
                return (l, f)
        return None
    qb = {f for l, f in B if l == '?'}
    fb = {f for l, f in B}
    nb = {l for l, f in B if l != '?'}
    for l, f in A:
        if l in nb or f in qb or l == '?' and f in fb:
            return (l, f)
    return None


# queries that are not declared const, or fill caches
LIKEQUERY = re.compile(r'::MatQuery::|::SnapshotInv$|Function::value$|::compmath::|::SqliteBack::(SqlType|Type)$|::Composition::(Decay|CreateFrom\w+)$')
CALLBACK = re.compile(r'^cyclus::(RecBackend|FullBackend|TimeListener|Agent|Trader)::(Notify|Flush|Close|Tick|Tock|Decision|Build|Decommission|EnterNotify|'
                      r'BuildNotify|DecomNotify|(Get|Accept|Adjust)\w+(Requests|Bids|Trades|Prefs))$')


def croot(o):
    """the container a (nested) container lives in"""
    o = o.strip("~'")
    while True:
        p = o
        if o.startswith('elem('):
            d = 0
            for i, ch in enumerate(o):
                d += ch == '('
                d -= ch == ')'
                if ch == ')' and d == 0:
                    o = o[5:i]
                    break
        elif o.endswith(']'):
            d = 0
            for i in range(len(o) - 1, -1, -1):
                d += o[i] == ']'
                d -= o[i] == '['
                if d == 0:
                    o = o[:i]
                    break
        o = o.strip("~'")
        if o == p:
            return o


def conflict(S, a, b):
    """why a and b do not commute (one of them is a call that is not looked into), or None"""
    if a.kind != 'call' and b.kind != 'call':
        ks = {a.kind, b.kind}
        if 'del' in ks and ks & {'add', 'put'} and effect(S.P, a) == effect(S.P, b) == 2 and croot(a.obj) == croot(b.obj):
            return (croot(a.obj), 'contents')
        return None
    if effect(S.P, a) != 2 or effect(S.P, b) != 2:
        return None
    ra, wa = fx(S, a)
    rb, wb = fx(S, b)
    nm = a.kind == b.kind == 'call'
    if nm and (LIKEQUERY.search(a.name) or LIKEQUERY.search(b.name)):
        return None
    c = clash(wa, wb, nm) or clash(wa, rb, nm) or clash(ra, wb, nm)
    if c:
        return c
    if nm and CALLBACK.match(a.name) and CALLBACK.match(b.name) and a.name != b.name and a.node.e.get('virt') and b.node.e.get('virt'):
        return ('callbacks', b.name)
    # code of users (backends, agents) may throw or call back: the state it finds is part of the contract
    for x, y in ((a, b), (b, a)):
        if x.kind == 'call' and y.kind in ('set', 'put', 'add', 'del') and CALLBACK.match(x.name) and x.node.e.get('virt') \
                and not (y.name if y.kind == 'set' else y.obj).startswith('@'):
            return ('callback', x.name)
    return None


def pairs(S, groups):
    """groups: lists of events (one per contract line); [(i, j, why)] with every i-event before every j-event"""
    out = []
    for i, A in enumerate(groups):
        for j, Bs in enumerate(groups):
            if i == j:
                continue
            why = None
            ok = True
            for a in A:
                for b in Bs:
                    if a.node is b.node or disjoint(a.guard, b.guard):
                        continue
                    w = conflict(S, a, b)
                    if not w:
                        continue
                    if not S.before(a, b):
                        ok = False
                    why = why or w
            if why and ok:
                out.append((i, j, why))
    return out
