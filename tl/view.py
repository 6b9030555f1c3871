"""Canonical, address-free views of results and errors."""
from .terms import *


def canon(m, st, t, keep=('data', 'type', 'L', 'module', 'class'), depth=0, ordered=False):
    """term where objects made during the run are replaced by their structure"""
    if isinstance(t, (tuple, frozenset)):
        return type(t)(canon(m, st, x, keep, depth, ordered) for x in t)
    if not isinstance(t, Term) or not refs_of(t):
        return t
    if depth > 12:
        return mk('deep')

    def go(x):
        return canon(m, st, x, keep, depth + 1, ordered)
    if t.op == 'ref':
        o = m.obj(st, t)
        if o is None:
            return mk('gone', str(t.args[0]))
        if o.owner in keep:
            return t
        if o.kind in ('list', 'dict', 'set', 'frozenset'):
            segs = tuple(go(x) for x in o.data)
            if o.kind == 'dict' and ordered:
                return mk('dict>', segs)
            if o.kind != 'list':
                return mk(o.kind + '*', frozenset(segs))
            return mk('list*', segs)
        if o.kind == 'inst':
            return mk('obj*', o.cls, tuple(sorted((k, go(v)) for k, v in o.data if isinstance(v, Term) and not k.startswith('#'))))
        return mk(o.kind + '*')
    if t.op == 'starseg':
        S, aid = t.args
        alts = st.alts.get(aid, {})
        return mk('each*', S, frozenset((tuple(go(i) for i in items), frozenset((go(k), v) for k, v in phi))
                                        for items, phi in alts.items()))
    na = tuple(go(a) if isinstance(a, (Term, tuple, frozenset)) else a for a in t.args)
    if any(x is not y for x, y in zip(na, t.args)):
        return lin(*na) if t.op == 'lin' else mk(t.op, *na)
    return t


def segs(m, st, t):
    """(kind, segments) of a container term, or None"""
    if t.op == 'tuple':
        return 'tuple', t.args
    if t.op == 'ref':
        o = m.obj(st, t)
        if o is not None and o.kind in ('list', 'dict', 'set', 'frozenset'):
            return o.kind, o.data
    return None


def alts(st, seg):
    return st.alts.get(seg.args[1], {})


def describe(m, st, cond=True):
    """the conditions of a path, for reports"""
    out = []
    for k, v in st.facts.items():
        if k.op == 'hit':
            continue
        out.append(('' if v else 'not ') + show(k))
    for k, v in st.kinds.items():
        if k.op in ('elem', 'par', 'at') and len(v) < 14:
            out.append('%s is %s' % (show(k), '/'.join(sorted(v))))
    for k, v in st.ranges.items():
        out.append('%s in %s' % ('+'.join(show(a) if n == 1 else '%d*%s' % (n, show(a)) for a, n in k), list(v)))
    return out


def exc_info(m, st):
    """(class, attributes) of the exception a path ends with"""
    k, x = st.outcome
    o = m.obj(st, x)
    return o.cls, o.map()
