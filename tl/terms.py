"""Hash-consed terms: the abstract values of the analysis.

A term names a value by how the program obtained it (its provenance); two
occurrences of one term denote the same value on a path.  Terms stay finite:
an element met in a loop is named by the collection it comes from
(``elem(S, level)``), not by the iteration.
"""

_pool = {}


class Term:
    __slots__ = ('op', 'args', 'id')

    def __repr__(self):
        return show(self)

    def __hash__(self):
        return self.id

    def __eq__(self, other):
        return self is other

    def __lt__(self, other):
        return skey(self) < skey(other)


def mk(op, *args):
    k = (op, args)
    t = _pool.get(k)
    if t is None:
        t = Term.__new__(Term)
        t.op = op
        t.args = args
        t.id = len(_pool)
        _pool[k] = t
    return t


def const(v):
    if isinstance(v, float):
        return mk('const', 'float', repr(v))
    if isinstance(v, tuple):
        return mk('tuple', *(const(i) for i in v))
    if isinstance(v, frozenset):
        return mk('fset', frozenset(const(i) for i in v))
    return mk('const', type(v).__name__, v)


NONE = const(None)
TRUE = const(True)
FALSE = const(False)
ELL = const(Ellipsis)
NULL = mk('null')
UNBOUND = mk('unbound')


def boolt(b):
    return TRUE if b else FALSE


def glob(q):
    return mk('glob', q)


def cval(t):
    if t.args[0] == 'float':
        return float(t.args[1])
    return t.args[1]


def is_const(t):
    return t.op == 'const'


# ---- linear integers: c + sum(coef * atom), atoms are non-negative
def lin(c, atoms):
    atoms = tuple(sorted(((a, k) for a, k in atoms if k), key=lambda p: p[0].id))
    if not atoms:
        return const(c)
    return mk('lin', c, atoms)


def as_lin(t):
    if t.op == 'lin':
        return t.args[0], dict(t.args[1])
    if t.op == 'const' and t.args[0] in ('int', 'bool'):
        return int(t.args[1]), {}
    return None


def lin_add(a, b, sign=1):
    ca, da = as_lin(a)
    cb, db = as_lin(b)
    d = dict(da)
    for k, v in db.items():
        d[k] = d.get(k, 0) + sign * v
    return lin(ca + sign * cb, d.items())


def card(S):
    return mk('card', S)


def pos(S, l):
    return mk('pos', S, l)


def show(t, depth=0):
    if isinstance(t, (tuple, list)):
        return '(' + ', '.join(show(x, depth) for x in t) + ')'
    if isinstance(t, (frozenset, set)):
        return '{' + ', '.join(sorted(show(x, depth) for x in t)) + '}'
    if not isinstance(t, Term):
        return str(t)
    if depth > 8:
        return '..'
    d = depth + 1
    op, a = t.op, t.args
    if op == 'const':
        return a[1] if a[0] == 'float' else repr(a[1])
    if op == 'glob':
        return a[0].replace('builtins.', '')
    if op in ('par', 'name', 'star', 'dflt'):
        return str(a[0])
    if op == 'attr':
        return '%s.%s' % (show(a[0], d), a[1])
    if op == 'list*':
        return '[' + ', '.join(show(x, d) for x in a[0]) + ']'
    if op in ('set*', 'frozenset*', 'dict*'):
        return op[:-1] + show(a[0], d)
    if op == 'obj*':
        return '%s(%s)' % (show(a[0], d), ', '.join('%s=%s' % (k, show(v, d)) for k, v in a[1]))
    if op == 'each*':
        return '*' + '|'.join(sorted(show(i, d) + ('' if not p else ' if ' + show(p, d)) for i, p in a[1]))
    if op == 'ent':
        return '%s: %s' % (show(a[0], d), show(a[1], d))
    if op == 'val':
        return 'value(%s %s)' % (show(a[0], d), show(a[1], d))
    if op == 'at' and len(a) == 2:
        return '%s[%s]' % (show(a[0], d), show(a[1], d))
    if op == 'elem':
        return 'each(%s)' % show(a[0], d)
    if op == 'bnd':
        return 'each(%s)' % show(a[0], d)
    if op == 'old':
        return 'earlier(%s)' % show(a[0], d)
    if op == 'typeof':
        return 'type(%s)' % show(a[0], d)
    if op == 'form':
        return '<%s>' % a[0]
    if op == 'cls':
        return a[0].rsplit('.', 1)[-1]
    if op == 'call':
        return '%s(%s)' % (show(a[0], d), ', '.join(show(x, d) for x in a[1:]))
    if op == 'kw':
        return '%s=%s' % (a[0], show(a[1], d))
    if op == 'loaded':
        return 'load(%s, %s)' % (show(a[0], d), show(a[1], d))
    if op == 'dumped':
        return 'dump(%s)' % show(a[0], d)
    if op == 'func':
        return a[0].name
    if op == 'tuple':
        return '(' + ', '.join(show(x, d) for x in a) + ')'
    if op == 'nt':
        return '%s(%s)' % (show(a[0], d), ', '.join(show(x, d) for x in a[1:]))
    if op == 'ref':
        return 'obj:%s#%s' % (a[0], a[1])
    if op == 'lin':
        return '+'.join([str(a[0])] + ['%s*%s' % (k, show(x, d)) for x, k in a[1]])
    return '%s(%s)' % (op, ', '.join(show(x, d) for x in a))


_sk = {}


def skey(t):
    r = _sk.get(t)
    if r is None:
        r = _sk[t] = show(t)
    return r


def walk(t):
    """all subterms, including those inside tuples and frozensets"""
    if isinstance(t, Term):
        yield t
        for a in t.args:
            if isinstance(a, (Term, tuple, frozenset)):
                yield from walk(a)
    elif isinstance(t, (tuple, frozenset)):
        for a in t:
            if isinstance(a, (Term, tuple, frozenset)):
                yield from walk(a)


_loopy = {}
LOOPOPS = ('elem', 'bnd', 'pos', 'old')


def loopterms(t):
    """the elem/bnd/pos/old leaves of a term"""
    r = _loopy.get(t)
    if r is None:
        r = frozenset(x for x in walk(t) if x.op in LOOPOPS)
        _loopy[t] = r
    return r


_refs = {}


def refs_of(t):
    r = _refs.get(t)
    if r is None:
        r = frozenset(x for x in walk(t) if x.op in ('ref', 'starseg'))
        _refs[t] = r
    return r


def rebuild(t, f):
    """bottom-up rewrite; f(term)->term, applied to every rebuilt subterm"""
    if isinstance(t, Term):
        if not t.args:
            return f(t)
        na = tuple(rebuild(a, f) if isinstance(a, (Term, tuple, frozenset)) else a for a in t.args)
        if any(x is not y for x, y in zip(na, t.args)):
            if t.op == 'lin':
                t = lin(*na)
            else:
                t = mk(t.op, *na)
        return f(t)
    if isinstance(t, tuple):
        n = tuple(rebuild(a, f) if isinstance(a, (Term, tuple, frozenset)) else a for a in t)
        if all(x is y for x, y in zip(n, t)):
            return t
        return n
    if isinstance(t, frozenset):
        return frozenset(rebuild(a, f) if isinstance(a, (Term, tuple, frozenset)) else a for a in t)
    return t


def subst(t, a, b):
    """replace subterm a by b (a must be a loop leaf or ref for the shortcut)"""
    if isinstance(t, Term):
        if a.op in LOOPOPS:
            if a not in loopterms(t):
                return t
        elif a.op == 'ref':
            if a not in refs_of(t):
                return t
    if a.op == 'pos' and as_lin(b) is not None:
        def g(x):
            if x.op == 'lin':
                d = dict(x.args[1])
                if a in d:
                    k = d.pop(a)
                    cb, db = as_lin(b)
                    for n, v in db.items():
                        d[n] = d.get(n, 0) + k * v
                    return lin(x.args[0] + k * cb, d.items())
            return x
        return _rebuild_keep_lin(t, g)
    return rebuild(t, lambda x: b if x is a else x)


def _rebuild_keep_lin(t, f):
    if isinstance(t, Term):
        if t.op == 'lin':
            return f(t)
        if not t.args:
            return t
        na = tuple(_rebuild_keep_lin(a, f) if isinstance(a, (Term, tuple, frozenset)) else a for a in t.args)
        if any(x is not y for x, y in zip(na, t.args)):
            t = mk(t.op, *na)
        return t
    if isinstance(t, tuple):
        return tuple(_rebuild_keep_lin(a, f) if isinstance(a, (Term, tuple, frozenset)) else a for a in t)
    if isinstance(t, frozenset):
        return frozenset(_rebuild_keep_lin(a, f) if isinstance(a, (Term, tuple, frozenset)) else a for a in t)
    return t
