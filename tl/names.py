"""Rules about forward references and about argparse.Namespace."""
import typing

from .terms import *
from .machine import AnalysisError
from .view import describe
from .runs import Loads, Run, V
from .types_ import P, X, E, form
from .rules import rule, group
from .effects import outcome_key, exc_view, skeleton, canon, histories, after, parts

FREF = ('forwardref', 'fref_unknown')
NOHANDLER = ('unknown',)      # no handler accepts it, so it is never handled
SHAPES = ('full', 'extra', 'no_p', 'both')


# ------------------------------------------------------------------ forward references
def table(S, st):
    """the names a loader knows: {name: type}, or None"""
    m = S.m
    f = S.attr(st, S.L, 'frefs')
    o = m.obj(st, f) if f.op == 'ref' else None
    if o is None or o.kind != 'dict' or any(x.op != 'ent' for x in o.data):
        return None
    return {x.args[0]: x.args[1] for x in o.data}


def name(S, st, t):
    """the name of a type, None when it has none"""
    if t.op not in ('form', 'glob', 'cls'):
        return None
    r = S.m.getattr(st, t, '__name__')
    if len(r) != 1 or isinstance(r[0][1], Term) is False or r[0][1].op not in ('const', 'name'):
        return None
    return r[0][1]


def lookup(tab, n):
    return next((t for k, t in tab.items() if k is n), None)


def runs_of(LL):
    yield from LL.opaque()
    yield from LL.shaped(nss=(False,), shapes=SHAPES)
    yield from LL.wrong()
    yield from LL.concrete(sizes=(1, 2))
    yield from LL.compound()


def above(S, root, t, recs):
    """the requested type, the types between it and the type inside that is handled, and that"""
    byterm = {r.term: r for r in recs}
    ways = []

    def go(x, path):
        if not isinstance(x, Term) or x in path or len(ways) > 1:
            return
        if x is t:
            ways.append(path + (x,))
            return
        r = byterm.get(x)
        if r is not None:
            for y in dict.fromkeys([r.ftype] + [f.ptype for f in r.named]):
                go(y, path + (x,))
        elif x.op == 'form':
            for y in parts(x):
                go(y, path + (x,))
    go(root, ())
    return ways[0] if len(ways) == 1 else (root, t)


def registered(c):
    """every named type that is started to be handled is known by its name, from then on"""
    seen = []
    LL = Loads(c.prog)
    S = LL.S
    S.m.hooks['handled'] = lambda m, st, t: seen.append((t, table(S, st)))
    start = S.st
    for r in runs_of(LL):
        del seen[:]
        if not c.run(r):
            continue
        root = None if r.name in NOHANDLER else name(S, start, r.t)
        site = 'load of %s' % r.name
        for t, tab in seen:
            c.ob('known when handled')
            if tab is None:
                c.fail('register', group(r.name), 'frefs is no dictionary of names while a nested type is handled', site, (), r.name)
                continue
            for x in above(S, r.t, t, LL.recs + LL.outers):
                n = root if x is r.t else name(S, start, x)
                if n is not None and lookup(tab, n) is not x and not (lookup(tab, n) is not None and x is not r.t and x is not t):
                    c.fail('register', group(r.name), '%s is not known by its name when %s' % (show(x), 'it is handled' if x is t else 'a type inside it is handled'), site, (), r.name)
        for o in r.outs:
            if o.tainted:
                continue
            tab = table(S, o)
            c.ob('known afterwards')
            if tab is None:
                c.fail('register', group(r.name), 'frefs is no dictionary of names afterwards', site, describe(None, o), r.name)
                continue
            if root is not None and lookup(tab, root) is not r.t:
                c.fail('register', group(r.name), '%s is not known by its name afterwards' % show(r.t), site, describe(None, o), r.name)
            if o.outcome[0] == 'return' and r.shape in (1, 2) and r.sp.op in ('seq', 'dict', 'fix'):
                for e in S.m.getattr(start, r.t, '__args__')[0][1].args:
                    n = name(S, start, e)
                    if n is not None and lookup(tab, n) is not e and (lookup(tab, n) is None or n is not root):
                        c.fail('register', group(r.name), '%s has been loaded but is not known by its name' % show(e), site, describe(None, o), r.name)
            for k, t in tab.items():
                c.ob('names')
                if name(S, start, t) is not k:
                    c.fail('register', group(r.name), '%s is known as %s, which is not its name' % (show(t), show(k)), site, describe(None, o), r.name)


def all_names(c):
    """the names of all types that the runs deal with"""
    LL = Loads(c.prog)
    S = LL.S
    out = {}
    for t in list(LL.forms.values()) + [r.term for r in LL.recs + LL.outers] + list(S.m.opaque) + [glob('builtins.' + n) for n in ('int', 'str', 'float', 'bool', 'NoneType')]:
        n = name(S, S.st, t)
        if n is not None and n.op == 'const' and isinstance(cval(n), str):
            out[cval(n)] = 1
    return tuple(sorted(out))


def kept(c):
    """the names the user has put into frefs stay as they are"""
    LL = Loads(c.prog, frefs=all_names(c))
    S = LL.S
    start = S.st
    before = table(S, start)
    seen = []
    S.m.hooks['handled'] = lambda m, st, t: seen.append(table(S, st))
    for r in runs_of(LL):
        del seen[:]
        if not c.run(r):
            continue
        site = 'load of %s' % r.name
        for tab in seen + [table(S, o) for o in r.outs if not o.tainted]:
            c.ob('names of the user')
            for k, t in before.items():
                x = None if tab is None else lookup(tab, k)
                if x is not t:
                    c.fail('kept', group(r.name), 'a name that the user has defined %s' % ('is gone' if x is None else 'stands for another type: %s' % show(k)), site, (), r.name)


def plain_key(m, o, skip=()):
    k, x = o.outcome
    t, _ = skeleton(canon(m, o, x, ('data', 'type')) if k == 'return' else exc_view(m, o, x, skip))
    return k, show(t)[:3000]


def outcomes(m, r, skip, repl=()):
    d = {}
    for o in r.outs:
        k, t = plain_key(m, o, skip)
        cond = [x for x in describe(None, o) if not x.startswith('card(')]
        for a, b in repl:
            t = t.replace(a, b)
            cond = [x.replace(a, b) for x in cond]
        d.setdefault((k, t), set()).add(frozenset(cond))
    return d


def same(c, a, b, rulename, where, site, texts, conds=True, run=''):
    """two sets of outcomes must be the same"""
    for d, e, t in ((a, b, texts[0]), (b, a, texts[1])):
        for k in d.keys() - e.keys():
            c.fail(rulename, where, 'only %s: %s %s' % (t, k[0], k[1][:140]), site, sorted(next(iter(d[k]))), run)
    if conds:
        for k in a.keys() & b.keys():
            if a[k] != b[k]:
                c.fail(rulename, where, 'the conditions differ: %s %s' % (k[0], k[1][:100]), site, [str(sorted(z)) for z in sorted(a[k] ^ b[k], key=str)[:3]], run)


def with_names(S, st, names):
    """the state with these known names"""
    s = st.copy()
    f = S.attr(s, S.L, 'frefs')
    s.heap[f] = s.heap[f].with_(tuple(mk('ent', const(k), t) for k, t in names.items()))
    return s


OTHER = ('n', 'M.N', 'a.b.N', 'N.M', 'A', 'B', 'NN', 'xN', 'N1', '_N', 'N_', ' N', 'N ', '[N]', "'N'", 'a.B')      # close to N and A.B


def resolved(c):
    """a reference is loaded as the type of its name"""
    LL = Loads(c.prog)
    S = LL.S
    ref = LL.forms['forwardref']
    for r in list(LL.opaque()) + list(LL.shaped(nss=(False,), shapes=SHAPES)):
        if not c.mine() or r.t is ref:
            continue
        st = with_names(S, r.st0, {'N': r.t})
        a = Run(r.name, S, st, r.v, r.t).go(LL.load, (r.v, r.t))
        b = Run(r.name, S, st, r.v, ref).go(LL.load, (r.v, ref))
        if not (c.run(a, True) and c.run(b, True)) or any(o.tainted for o in a.outs + b.outs):
            continue
        c.ob('references')
        same(c, outcomes(S.m, a, ('trace',)), outcomes(S.m, b, ('trace',)), 'resolve', group(r.name), 'load of a reference to %s' % r.name,
             ('loading the type itself', 'loading the reference'), run=r.name)
    # names that are not known
    for k in ({}, {'M': S.opaque('T1')}):
        if c.mine():
            refused(c, Run('unknown reference', S, with_names(S, S.st, k), V, ref).go(LL.load, (V, ref)), 'a reference to an unknown name')
    for n in OTHER:
        f = form('ForwardRef(%s)' % n, typing.ForwardRef('Other'), {'__forward_arg__': const(n)})
        if c.mine():
            refused(c, Run('reference to %r with N known' % n, S, with_names(S, S.st, {'N': S.opaque('T1'), 'A.B': S.opaque('T2')}), V, f).go(LL.load, (V, f)),
                    'a reference to an unknown name')


def refused(c, r, what):
    if not c.run(r, True):
        return
    for o in r.outs:
        if o.tainted:
            continue
        c.ob('references that cannot be resolved')
        if o.outcome[0] == 'return':
            c.fail('resolve', group(r.name), '%s is resolved' % what, 'load of %s' % r.name, describe(None, o), r.name)
        elif any(e[0] in ('ok', 'fail', 'second') for e in o.log):
            c.fail('resolve', group(r.name), 'a type is loaded for %s' % what, 'load of %s' % r.name, describe(None, o), r.name)


def disabled(c):
    """frefs=None: no reference is resolved, everything else is as before"""
    A, B = Loads(c.prog), Loads(c.prog, {'frefs': NONE})
    for a, b in zip(runs_of(A), runs_of(B)):
        if not c.mine():
            continue
        if a.t in (A.forms[n] for n in FREF):
            refused(c, b, 'a reference, with frefs set to None,')
            continue
        if not (c.run(a, True) and c.run(b, True)):
            continue
        for o in b.outs:
            if not o.tainted and S_frefs(B, o) is not NONE:
                c.fail('disabled', group(b.name), 'frefs does not stay None', 'load of %s' % b.name, describe(None, o), b.name)
        if a.t is A.forms['union_fref']:
            continue                    # one of its members is a reference, whose errors differ
        if any(o.tainted for o in a.outs + b.outs):
            continue
        c.ob('loads without names')
        same(c, outcomes(A.S.m, a, ()), outcomes(B.S.m, b, ()), 'disabled', group(a.name), 'load of %s' % a.name, ('with names', 'with frefs set to None'), run=a.name)
    # known before, then switched off
    S = A.S
    ref = A.forms['forwardref']
    if c.mine():
        st = with_names(S, S.st, {'N': S.opaque('T1')})
        st, _ = S.one(st, glob('builtins.setattr'), (S.L, const('frefs'), NONE), (), 'assignment of frefs')
        refused(c, Run('forwardref', S, st, V, ref).go(A.load, (V, ref)), 'a reference, with frefs set to None,')


def S_frefs(LL, o):
    return LL.S.attr(o, LL.S.L, 'frefs')


H = mk('par', 'h')


def later(c):
    """types met by earlier calls resolve references of later ones, also those that failed before"""
    LL = Loads(c.prog)
    S = LL.S
    ref = LL.forms['forwardref']
    N = LL.forms['newtype']         # its name is N
    for first_fails in (False, True):
        if not c.mine():
            continue
        st = S.st
        if first_fails:
            hs = histories(S, Run('unknown', S, st, H, ref).go(LL.load, (H, ref)), {H})
            st = after(S, st, hs[0][1], True)
        for what, h in histories(S, Run(show(N), S, st, H, N).go(LL.load, (H, N)), {H}):
            s = after(S, st, h, True)
            a = Run('newtype', S, s, V, N).go(LL.load, (V, N))
            b = Run('forwardref', S, s, V, ref).go(LL.load, (V, ref))
            if not (c.run(a, True) and c.run(b, True)) or any(o.tainted for o in a.outs + b.outs):
                continue
            c.ob('references to types met before')
            same(c, outcomes(S.m, a, ('trace',)), outcomes(S.m, b, ('trace',)), 'resolve', 'after ' + what, 'load of a reference after %s%s' % (what, ' and after it was unknown' if first_fails else ''),
                 ('loading the type itself', 'loading the reference'))


@rule('C21', 'Abstract interpretation of load() with the table of known names as part of the state. Rules: whenever the handler of a nested type runs, that type and the one around it are in '
             'frefs under their names, and so is every type that has been handled when load() ends; every entry stands under the name of its type; entries that the user has made are the '
             'same whenever a handler runs and at every end; the outcomes of loading a reference, and their conditions, are those of loading the type of that name, also when it was met by an earlier call '
             'or the reference was unknown before; an unknown name, or frefs set to None, ends in an error without any type being loaded; with frefs set to None the outcomes of all runs '
             'for types without references are the same.')
def c21(c):
    registered(c)
    kept(c)
    resolved(c)
    disabled(c)
    later(c)


# ------------------------------------------------------------------ argparse.Namespace
MAPS = frozenset(['dict', 'mapping'])
DATASETS = {'no entries': ([], []), 'one entry': ([P], []), 'two entries': ([P, X], []), 'any entries': ([], [(E, False)])}


def pairs(LL):
    """runs that differ only in the datum: a dictionary, a Namespace with the same attributes"""
    S = LL.S
    todo = {}
    for r in LL.shaped():
        todo.setdefault(r.name.replace('/namespace', ''), []).append(r)
    for rs in todo.values():
        if len(rs) == 2:
            yield sorted(rs, key=lambda r: r.ns)
    for n, t in LL.forms.items():
        if LL.specs[n].op != 'dict':
            continue
        for d, (names, stars) in DATASETS.items():
            rs = []
            for ns in (False, True):
                st = S.st.copy()
                v = LL.mapping(st, [(k, mk('par', 'w%d' % i)) for i, k in enumerate(names)], stars, ns, 'm')
                rs.append(Run('%s/%s%s' % (n, d, '/namespace' if ns else ''), S, st, v, t, LL.specs[n], None, d, ns).go(LL.load, (v, t)))
            yield rs


def equivalent(c):
    """a Namespace loads like the dictionary of its attributes"""
    skip = ('value', 'trace', 'args')
    LL = Loads(c.prog, {'dictequivalence': TRUE})
    S = LL.S
    for a, b in pairs(LL):
        if not c.mine():
            continue
        if not (c.run(a, True) and c.run(b, True)) or any(o.tainted for o in a.outs + b.outs):
            continue
        c.ob('a Namespace like its dictionary')
        same(c, outcomes(S.m, a, skip), outcomes(S.m, b, skip, [(show(b.v), show(a.v))]), 'namespace', group(a.name), 'load of %s' % b.name, ('the dictionary', 'the Namespace'), run=b.name)


def unconverted(c):
    """nothing is converted with dictequivalence disabled, and never anything but a Namespace"""
    for on in (TRUE, FALSE):
        LL = Loads(c.prog, {'dictequivalence': on})
        S, m = LL.S, LL.S.m
        rs = [x for p in pairs(LL) for x in p[1:]] if on is FALSE else []
        ok = MAPS | frozenset(['namespace']) if on is TRUE else MAPS
        for r in rs + [r for r in LL.opaque() if r.sp.op == 'dict'] + list(LL.wrong()):
            if not c.run(r):
                continue
            for o in r.outs:
                if o.tainted:
                    continue
                c.ob('other objects are not converted')
                if r.v is V:
                    bad = bool(m.kinds(o, V) - ok)
                    what = ' or '.join(sorted(m.kinds(o, V) - ok))
                else:
                    bad, what = True, 'Namespace'
                if bad and o.outcome[0] == 'return':
                    c.fail('converted', group(r.name), 'a datum that is no dictionary is loaded (%s, dictequivalence %s)' % (what, 'enabled' if on is TRUE else 'disabled'), 'load of %s' % r.name, describe(None, o), r.name)


@rule('C22', 'Abstract interpretation of load() on pairs of data, a dictionary and an argparse.Namespace with the same attributes (named ones and any number of unknown ones), for every '
             'dictionary type, NamedTuple, dataclass, attrs class and TypedDict, with and without name mangling. Rules: with dictequivalence the outcomes and the conditions for them are the same; '
             'without it a Namespace never loads into any of them; no other kind of datum ever does.')
def c22(c):
    equivalent(c)
    unconverted(c)
