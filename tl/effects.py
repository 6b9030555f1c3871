"""Rules about what load and dump write to: data, types, the loader or dumper itself, modules and classes."""
from .terms import *
from .world import FORMS
from .machine import AnalysisError
from .scen import Scen, DL, DD, LOPTS, DOPTS
from .spec import dmatch
from .view import describe, exc_info, canon
from .runs import Loads, Dumps, Run, V
from .rules import rule, all_loads, dump_runs, dump_check, group

TYPEOPS = ('form', 'glob', 'cls', 'typeof', 'func', 'user', 'enum')


class Effects:
    """what the analysed code writes to that it has not made itself"""

    def __init__(self):
        self.events = []
        self.stores = []
        self.hooks = {'mutate': self.mutate, 'mutate_term': self.term, 'store': self.store, 'call': self.call, 'cached': self.cached}
        self.on = True

    def add(self, m, st, ref, owner, what, key=None, val=None, obj=None):
        if not st.tainted and self.on:
            w = m.where(st)
            self.events.append((ref, owner, what, key, val, obj, w[1], '%s (%s)' % (w[1], w[0]), st))

    def mutate(self, m, st, ref, o, what):
        k = v = None
        if isinstance(what, tuple):
            what, rest = what[0], what[1:]
            if what == 'setitem':
                k, v, what = rest
            elif rest:
                k = rest[0]
        self.add(m, st, ref, o.owner, what, k, v, o)

    def term(self, m, st, t, what):
        self.add(m, st, t, 'data' if m.is_data(t) or t.op == 'val' or (t.op == 'attr' and holds_data(t)) else 'type' if t.op in ('form', 'glob', 'rec', 'attr') else 'module', what)

    def store(self, m, st, ref, o, k, v):
        self.stores.append((ref, o, k, v))

    def call(self, m, st, f, args, kw):
        pass

    def cached(self, m, st, f):
        self.add(m, st, f, 'module', 'the results of a function are kept', f)

    def take(self):
        e, self.events = self.events, []
        self.stores = []
        return e


def holds_data(t):
    return any(x.op in ('par', 'val', 'at') for x in walk(t))


def name_of(m, st, ref, S):
    """a readable name for the thing that is written to"""
    L = m.obj(st, S.L) if S.L.op == 'ref' else None
    if L is not None:
        for k, v in L.map().items():
            if v is ref:
                return 'the %s of the loader or dumper' % k
    o = m.obj(st, ref) if ref.op == 'ref' else None
    if ref is S.L:
        return 'the loader or dumper'
    if o is not None:
        return '%s made by %s' % (o.kind, str(ref.args[0]).split('@')[-1].split(':')[0])
    return show(ref)


def effect_runs(c, loads=True, dumps=True):
    """every run of load() and dump(), with the effects it has"""
    if loads:
        ef = Effects()
        LL = Loads(c.prog, hooks=ef.hooks)
        ef.take()
        for r in all_loads(c, LL):
            yield LL, r, ef.take()
            ef.take()
    if dumps:
        ef = Effects()
        DD_ = Dumps(c.prog, hooks=ef.hooks)
        ef.take()
        for r in dump_runs(c, DD_, True):
            yield DD_, r, ef.take()
            ef.take()
    # once more, with a loader or dumper that has been used before
    ef = Effects()
    LL = Loads(c.prog, hooks=ef.hooks)
    DD_ = Dumps(c.prog, hooks=ef.hooks)
    for X, g in ((LL, warmed_loads) if loads else (LL, None), (DD_, warmed_dumps) if dumps else (DD_, None)):
        for n, r, hs in g(c, X) if g else ():
            todo = r.todo
            for what, h in pick(hs, c.tier):
                q = Run('%s after %s' % (r.name, what), X.S, after(X.S, r.st0, h, True), r.v, r.t, r.sp, r.rec, r.shape, r.ns).go(*todo)
                ef.take()
                if c.run(q, True):
                    yield X, q, ef.take()
            ef.take()


@rule('C09', 'Effect analysis within the abstract interpretation of load() and dump(): every store into an object, attribute, list, set or dictionary is attributed '
             'to the owner of its target. Rules: no path of load() stores into the data or into anything reachable from a type; no path of dump() stores into the value; '
             'every list and dictionary in a dump was made during that dump.')
def c09(c):
    for S, r, events in effect_runs(c):
        kind = 'dump' if isinstance(S, Dumps) else 'load'
        c.ob('effects of %s' % kind)
        for ref, owner, what, k, v, o, fn, where, st in events:
            if owner in ('data', 'type'):
                n = 'the dumped value' if kind == 'dump' and owner == 'data' else 'the data' if owner == 'data' else 'the type definition'
                c.fail('mutation', fn, '%s modifies %s: %s' % (kind, n, what), where, describe(S.S.m, st), r.name)
        if kind == 'dump':
            m = S.S.m
            for o in r.returns():
                c.ob('new containers')
                for x in shared(m, o, o.outcome[1]):
                    c.fail('shared', group(r.name), 'the dump holds %s that existed before' % m.obj(o, x).kind, 'dump of %s' % r.name, describe(m, o), r.name)


def shared(m, st, t, owners=('data', 'type', 'L', 'module', 'class'), seen=None):
    """containers reachable from the result that were not made by the run"""
    out = []
    for x in m.reach(st, [t]):
        if x.op == 'ref':
            o = m.obj(st, x)
            if o is not None and o.kind in ('list', 'dict', 'set') and o.owner in owners and not inside(m, st, x):
                out.append(x)
    return out


def inside(m, st, x):
    return False


@rule('C10', 'Effect analysis: every store made by load() or dump() is attributed to its owner, and two loaders and two dumpers are built by the abstract interpreter. '
             'Rules: no store goes to a module, class, function or default argument; no dictionary, list or set is reachable from two loaders or two dumpers; '
             'load() and dump() of the module hand a new object to the handlers.')
def c10(c):
    for S, r, events in effect_runs(c):
        kind = 'dump' if isinstance(S, Dumps) else 'load'
        c.ob('effects of %s' % kind)
        for ref, owner, what, k, v, o, fn, where, st in events:
            if owner in ('module', 'class'):
                c.fail('global', fn, '%s writes to module or class level: %s %s' % (kind, what, show(k) if isinstance(k, Term) else k or ''), where, describe(S.S.m, st), r.name)
    if c.mine():
        for mod, cls in ((DL, 'Loader'), (DD, 'Dumper')):
            twice(c, mod, cls)
    if c.mine():
        fresh_objects(c)


def twice(c, mod, cls):
    ef = Effects()
    S = Scen(c.prog, hooks=ef.hooks)
    m = S.m
    f = S.glob(mod, cls)
    objs = []
    for i in range(2):
        S.st, L = S.one(S.st, f, (), (), '%s()' % cls)
        S.keep['L%d' % i] = L
        objs.append(L)
    c.ob('independent objects')
    for ref, owner, what, k, v, o, fn, where, st in ef.take():
        if owner in ('module', 'class'):
            c.fail('global', fn, 'the constructor writes to module or class level: %s %s' % (what, k or ''), where)
    st = S.st.copy()
    for n in LOPTS if cls == 'Loader' else DOPTS:
        for v in (mk('opq', 'the option ' + n), NONE):
            S.run(st.copy(), f, (), ((n, v),))
    given = m.alloc(st, 'list', None, (mk('tuple', mk('user', 'condx'), mk('user', 'hx')),), owner='data', site='handlers')
    S.run(st, f, (), (('handlers', given),))
    for ref, owner, what, k, v, o, fn, where, _ in ef.take():
        if owner in ('module', 'class', 'data'):
            c.fail('global', fn, 'the constructor writes what it is given to a place it has not made: %s %s' % (what, k or ''), where)
    a, b = (m.reach(S.st, [x]) for x in objs)
    for x in a & b:
        o = m.obj(S.st, x) if x.op == 'ref' else None
        if o is not None and o.kind in ('list', 'dict', 'set', 'cell', 'inst'):
            c.fail('shared', cls, 'two objects share a %s: %s' % (o.kind, str(x.args[0]).split('#')[0]), '%s.__init__' % cls)
    for k, v in m.obj(S.st, objs[0]).map().items():
        o = m.obj(S.st, v) if isinstance(v, Term) and v.op == 'ref' else None
        if o is not None and o.owner in ('module', 'class') and o.kind in ('list', 'dict', 'set', 'inst'):
            c.fail('shared', cls, 'attribute %s of a new object belongs to a module' % k, '%s.__init__' % cls)


def fresh_objects(c):
    """the object that the functions of the module give to the handlers"""
    for fname in ('load', 'dump'):
        ef = Effects()
        S = Scen(c.prog, hooks=ef.hooks)
        m = S.m
        got = []
        cond, h = mk('user', 'condx'), mk('user', 'hx')
        m.userfn[cond] = lambda m, st, a, k: m.ret(st, TRUE)

        def handler(m, st, a, k):
            o = m.obj(st, a[0]) if a[0].op == 'ref' else None
            got.append((a[0], o.owner if o is not None else None))
            return m.ret(st, mk('loaded', a[1], a[2]))
        m.userfn[h] = handler
        m.userarity[cond], m.userarity[h] = 1, 3
        f = S.glob('typedload', fname)
        hs = m.alloc(S.st, 'list', None, (mk('tuple', cond, h),), owner='data', site='handlers')
        S.keep['hs'] = hs
        args = (V, S.opaque('T')) if fname == 'load' else (V,)
        c.ob('module level functions')
        ef.take()
        outs = S.run(S.st, f, args, (('handlers', hs),))
        S.run(S.st, f, (V, glob('builtins.int')) if fname == 'load' else (const(3),), ())
        for ref, owner, what, k, v, o, fn, where, _ in ef.take():
            if owner in ('module', 'class', 'data'):
                c.fail('global', fn, '%s() writes to a place it has not made: %s %s' % (fname, what, show(k) if isinstance(k, Term) else k or ''), where)
        if not got:
            c.fail('options', fname, 'the handlers given to %s() are not used' % fname, 'typedload.%s' % fname)
        for L, owner in got:
            if owner != 'new':
                c.fail('shared', fname, '%s() uses an object that is not new' % fname, 'typedload.%s' % fname)


def tables(m, st, S):
    """the dictionaries and sets that are attributes of the loader or dumper"""
    o = m.obj(st, S.L)
    return {v: k for k, v in o.map().items() if isinstance(v, Term) and v.op == 'ref' and m.obj(st, v) is not None and m.obj(st, v).kind in ('dict', 'set')}


@rule('C24', 'Effect analysis: every store made by load() or dump() into anything reachable from the loader or dumper. Rules: the target is one of the tables that the '
             'constructor made; the key is a type or the name of a type and never derived from data; an entry is stored once and complete (nothing reachable from '
             'it is modified afterwards, and no other value replaces it), and no entry is removed; no attribute of the loader, dumper or their handlers is assigned.')
def c24(c):
    for S, r, events in effect_runs(c):
        kind = 'dump' if isinstance(S, Dumps) else 'load'
        m = S.S.m
        T = tables(m, S.S.st, S.S)
        c.ob('effects of %s' % kind)
        for ref, owner, what, k, v, o, fn, where, st in events:
            if owner in ('module', 'class'):
                c.fail('global', fn, 'state outside of the object is written: %s %s' % (what, show(k) if isinstance(k, Term) else k or ''), where, describe(m, st), r.name)
            if owner != 'L':
                continue
            c.ob('stores')
            bad = None
            if ref not in T:
                bad = 'the %s is modified: %s %s' % (name_of(m, st, ref, S.S), what, k if isinstance(k, str) else '')
            elif what == 'replace':
                old = [x.args[1] for x in o.data if x.op == 'ent' and x.args[0] is k]
                if not old or canon(m, st, old[0], ()) is not canon(m, st, v, ()):
                    bad = 'an entry of %s is replaced' % T[ref]
            elif what != 'add':
                bad = 'an entry of %s is removed or changed: %s' % (T[ref], what)
            if bad is None and isinstance(k, Term) and not typekey(m, st, k):
                bad = 'an entry of %s is stored under %s' % (T[ref], show(k))
            if bad is None and isinstance(v, Term) and from_data(v):
                bad = 'an entry of %s holds data: %s' % (T[ref], show(v))
            if bad:
                c.fail('state', fn, bad[:200], where, describe(m, st), r.name)


def typekey(m, st, k):
    if k.op in TYPEOPS:
        return True
    if k.op in ('const', 'name'):
        return True
    if k.op in ('tuple', 'fset'):
        return all(typekey(m, st, x) for x in k.args)
    if k.op == 'attr':
        return not from_data(k)
    return False


def from_data(t):
    return any(x.op in ('par', 'val', 'at', 'loaded', 'dumped') for x in walk(t))


# ------------------------------------------------------------------ C08
def outcome_key(m, st):
    k, x = st.outcome
    t, parts = skeleton(canon(m, st, x, ('data', 'type')) if k == 'return' else exc_view(m, st, x))
    return (k, show(t)[:3000]), parts


def skeleton(t, parts=None):
    """(the shape of a result, what the items of its summarised sequences can be and when)"""
    if parts is None:
        parts = {}
    if isinstance(t, (tuple, frozenset)):
        return type(t)(skeleton(x, parts)[0] for x in t), parts
    if not isinstance(t, Term):
        return t, parts
    if t.op == 'each*':
        for items, phi in t.args[1]:
            n = skeleton(items, parts)[0]
            d = parts.setdefault((t.args[0], n), {})
            for a, v in phi:
                d.setdefault(a, set()).update(v if isinstance(v, frozenset) else [v])
        return mk('items*', t.args[0]), parts
    na = tuple(skeleton(a, parts)[0] if isinstance(a, (Term, tuple, frozenset)) else a for a in t.args)
    if any(x is not y for x, y in zip(na, t.args)):
        return (lin(*na) if t.op == 'lin' else mk(t.op, *na)), parts
    return t, parts


def exc_view(m, st, x, skip=()):
    o = m.obj(st, x)
    return mk('tuple', o.cls, canon(m, st, mk('tuple', *[mk('tuple', const(k), v) for k, v in sorted(o.map().items()) if isinstance(v, Term) and not k.startswith('#') and k not in skip]), ('data', 'type')))


def about(st, skip):
    """the conditions of a path that concern data, options or types"""
    return frozenset(x for x in describe(None, st) if not x.startswith(skip))


def history(S, o, mark):
    """what a finished run leaves behind in the loader or dumper: (heap, alts, facts, kinds, ranges)"""
    m = S.m
    live = m.reach(o, [S.L])
    heap = {r: o.heap[r] for r in live if r.op == 'ref' and r in o.heap}
    alts = {r.args[1]: dict(o.alts.get(r.args[1], {})) for r in live if r.op == 'starseg'}

    def keep(t):
        ts = t if isinstance(t, tuple) else (t,)
        return not any(y in mark or y.op in ('elem', 'old', 'val', 'at', 'mval') for x in flat(ts) for y in walk(x))
    return (heap, alts, {k: v for k, v in o.facts.items() if keep(k)}, {k: v for k, v in o.kinds.items() if keep(k)},
            {k: v for k, v in o.ranges.items() if keep(k)})


def flat(t):
    for x in t:
        if isinstance(x, Term):
            yield x
        elif isinstance(x, (tuple, frozenset)):
            yield from flat(x)


def after(S, st, h, warm):
    """the state st, as it is after the history h (only its conditions, when not warm)"""
    s = st.copy()
    heap, alts, facts, kinds, ranges = h
    if warm:
        s.heap.update(heap)
        for a, d in alts.items():
            s.alts[a] = dict(d)
    s.facts.update({k: v for k, v in facts.items() if k not in s.facts})
    s.kinds.update({k: v for k, v in kinds.items() if k not in s.kinds})
    for k, v in ranges.items():
        lo, hi = s.ranges.get(k, (0, float('inf')))
        s.ranges[k] = (max(lo, v[0]), min(hi, v[1]))
    return s


def tables_key(m, S, o):
    T = tables(m, o, S)
    return frozenset((n, canon(m, o, r, ('data', 'type', 'module', 'class'))) for r, n in T.items())


def compare(c, S, r, h, what):
    """run r on a fresh object and on one with a history: the same outcomes under the same conditions"""
    m = S.m
    f, args, kw = r.todo
    res = []
    for warm in (False, True):
        q = Run(r.name, S, after(S, r.st0, h, warm), r.v, r.t, r.sp, r.rec, r.shape, r.ns).go(f, args, kw)
        if not c.run(q, True):
            return
        if any(o.tainted for o in q.outs):
            return
        res.append(q)
    cold, warm = res
    c.ob('outcomes with and without history')
    a, b = ({}, {})
    for q, d in ((cold, a), (warm, b)):
        for o in q.outs:
            k, p = outcome_key(m, o)
            outs, ps = d.setdefault(k, ([], {}))
            outs.append(o)
            for n, phi in p.items():
                e = ps.setdefault(n, {})
                for x, y in phi.items():
                    e.setdefault(x, set()).update(y)
    for d, e, text in ((a, b, 'only a fresh object ends with'), (b, a, 'only an object with a history ends with')):
        for k in d.keys() - e.keys():
            c.fail('history', '%s after %s' % (group(r.name), what), '%s %s %s' % (text, k[0], k[1][:160]), 'load of %s after %s' % (r.name, what) if r.t is not None else 'dump of %s after %s' % (r.name, what),
                   describe(m, d[k][0][0]), r.name)
    # same outcome, but for other conditions
    for k in a.keys() & b.keys():
        if a[k][1] != b[k][1]:
            c.fail('history', '%s after %s' % (group(r.name), what), 'the items of a result change: %s' % k[1][:100], 'run of %s after %s' % (r.name, what), describe(m, a[k][0][0]), r.name)
        x, y = merged(m, a[k][0]), merged(m, b[k][0])
        if x != y:
            c.fail('history', '%s after %s' % (group(r.name), what), 'the conditions of an outcome change: %s %s' % (k[0], k[1][:100]), 'run of %s after %s' % (r.name, what),
                   sorted(x ^ y, key=str)[:6] and [str(sorted(z)) for z in sorted(x ^ y, key=str)[:3]], r.name)


def merged(m, outs):
    return frozenset(frozenset(describe(m, o)) for o in outs)


def histories(S, start, mark, st=None):
    """the different ways a loader or dumper looks like after one call: [(description, history)]"""
    q = start.execute()
    if q.error:
        raise AnalysisError('%s: %s' % (start.name, q.error))
    seen = {}
    for o in q.outs:
        if not o.tainted:
            seen.setdefault((o.outcome[0], tables_key(S.m, S, o)), o)
    k = sorted(seen, key=lambda k: k[0], reverse=True)
    return [('%s of %s' % (a, start.name), history(S, seen[(a, b)], mark)) for a, b in k]


def parts(t):
    """the types that a type is made of, and the types equal to it"""
    f = FORMS.get(t) if t.op == 'form' else None
    if f is None:
        return []
    out = []
    a = f.attrs.get('__args__')
    if a is not None:
        out += [x for x in a.args if x.op in ('form', 'glob') and x is not ELL]
    if '__supertype__' in f.attrs:
        out.append(f.attrs['__supertype__'])
    return list(dict.fromkeys(out))


H = mk('par', 'h')


def warmed_loads(c, LL):
    """every type, with what earlier calls for it, for an equal type or for its parts leave behind: (name, run, histories)"""
    S, m = LL.S, LL.S.m
    full = {r.name.split('/')[0]: r for r in LL.shaped(shapes=('full',), nss=(False,))}
    targets = [(r.name, r, 0) for r in LL.opaque()] + [(n, r, 1) for n, r in full.items()] + [(r.name, r, 2) for r in LL.compound(('full',))]
    bypart = {}

    def warm(t):
        if t not in bypart:
            bypart[t] = histories(S, Run(show(t), S, S.st, H, t).go(LL.load, (H, t)), {H})
        return bypart[t]
    for n, r, isrec in targets:
        if not c.mine():
            continue
        if isrec == 2:
            rec, wrap = LL.nested[r.name.split('/')[0]][1:]
            hs = []
            for w, t, f in (('itself', r.t, wrap), ('the object inside', rec.term, lambda st, v: v)):
                st = S.st.copy()
                hv = f(st, LL.mapping(st, *history_data(rec), False, 'h'))
                hs += [(w + ': ' + d, h) for d, h in histories(S, Run(w, S, st, hv, t).go(LL.load, (hv, t)), set(HP) | INNERDATA)]
            ps = [rec.ftype] + [f.ptype for f in rec.named]
        elif isrec:
            st = S.st.copy()
            hv = LL.mapping(st, *history_data(r.rec), False, 'h')
            hs = histories(S, Run('itself', S, st, hv, r.t).go(LL.load, (hv, r.t)), set(HP))
            ps = [r.rec.ftype] + [f.ptype for f in r.rec.named]
        else:
            hs = [('itself: ' + d, h) for d, h in warm(r.t)]
            ps = parts(r.t)
            for e in m.eqforms:
                if r.t in e:
                    hs += [('an equal type: ' + d, h) for x in e if x is not r.t for d, h in warm(x)]
        for p in ps:
            hs += [('part ' + d, h) for d, h in warm(p)[:2]]
        yield n, r, hs


def warmed_dumps(c, DD_):
    S = DD_.S
    for r in DD_.runs([n for n in DD_.vals if ' holding ' not in n]):
        if not c.mine():
            continue
        todo = r.todo
        hs = histories(S, Run('itself', S, S.st, r.v, None).go(*todo[:2]), set())
        r.todo = todo
        yield r.name, r, hs


@rule('C08', 'Comparison, within the abstract interpretation, of a fresh loader or dumper with one that has a history: for every type (or value) the outcomes of each path and the '
             'conditions under which it is taken are compared between the fresh object and the states that an earlier successful or failed call for the same type, for an equal type '
             'or for any of its parts leaves behind. Rules: the same outcomes under the same conditions; what is stored in the object depends on no data and is stored under the type itself; '
             'results share no container with the object.')
def c08(c):
    LL = Loads(c.prog)
    S, m = LL.S, LL.S.m
    for n, r, hs in warmed_loads(c, LL):
        todo = r.todo
        for what, h in pick(hs, c.tier):
            r.todo = todo
            compare(c, S, r, h, what)
        # what the results share with the loader
        r.todo = todo
        if c.run(r, True):
            for o in r.returns():
                c.ob('results are not shared')
                for x in shared(m, o, o.outcome[1], ('L', 'module', 'class', 'type')):
                    c.fail('shared', group(r.name), 'the result holds a %s that belongs to the loader or to a type' % m.obj(o, x).kind, 'load of %s' % r.name, describe(m, o), r.name)
    stored(c)
    DD_ = Dumps(c.prog)
    S = DD_.S
    for n, r, hs in warmed_dumps(c, DD_):
        todo = r.todo
        for what, h in pick(hs, c.tier):
            r.todo = todo
            compare(c, S, r, h, what)


def pick(hs, tier):
    return hs if tier == 'thorough' else hs[:4] + hs[4:][:6]


INNERDATA = {mk('par', 'vw'), mk('par', 'k')}
HP = tuple(mk('par', n) for n in ('hp', 'hq'))


def history_data(rec):
    from .types_ import F
    return [(f.ext, x) for f, x in zip(rec.named, HP)], [(F, False)]


def stored(c):
    """what load and dump keep"""
    for S, r, events in effect_runs(c):
        m = S.S.m
        T = tables(m, S.S.st, S.S)
        c.ob('effects')
        settled(c, S, r)
        for ref, owner, what, k, v, o, fn, where, st in events:
            if owner not in ('L', 'module', 'class'):
                continue
            c.ob('stores')
            bad = None
            n = T.get(ref) or name_of(m, st, ref, S.S)
            if isinstance(v, Term) and holds_result(m, st, v):
                bad = 'what is stored in %s depends on the data: %s' % (n, show(v))
            elif isinstance(k, Term) and (from_data(k) or (n != 'frefs' and k.op in ('const', 'name'))):
                bad = 'an entry of %s is stored under %s' % (n, show(k))
            elif what not in ('add', 'replace', 'setattr') and ref in T or (ref not in T and owner == 'L'):
                bad = '%s is modified: %s %s' % (n, what, k if isinstance(k, str) else '')
            if bad:
                c.fail('kept', fn, bad[:200], where, describe(m, st), r.name)


def settled(c, S, r):
    """what is kept for a type is the same whatever the data"""
    m, S = S.S.m, S.S
    seen = {}
    names = tables(m, S.st, S)
    for o in r.outs:
        if o.tainted:
            continue
        cond = None
        for ref, n in names.items():
            h = m.obj(o, ref)
            if h is None or h.kind != 'dict' or h is m.obj(r.st0, ref):
                continue
            for e in h.data:
                if e.op != 'ent' or not isinstance(e.args[1], Term) or e.args[1].op not in ('ref', 'tuple'):
                    continue
                if cond is None:
                    cond = ({k: v for k, v in o.facts.items() if not from_data(k)}, {k: v for k, v in o.kinds.items() if not from_data(k)},
                            {k: v for k, v in o.ranges.items() if not from_data(k)})
                x = canon(m, o, e.args[1], ('data', 'type'))
                d = seen.setdefault((n, e.args[0]), {})
                fs = d.setdefault(x, [])
                if cond not in fs:
                    fs.append(cond)
                    for y, gs in d.items():
                        if y is not x and any(compatible(cond, g) for g in gs):
                            c.fail('kept', group(r.name), 'what %s holds for %s depends on the data: %s or %s' % (n, show(e.args[0]), show(x)[:60], show(y)[:60]),
                                   'load of %s' % r.name, describe(m, o), r.name)
                            return


def compatible(a, b):
    return all(b[0].get(k, v) == v for k, v in a[0].items()) and all(b[1].get(k, v) & v for k, v in a[1].items()) and \
        all(max(v[0], b[2].get(k, v)[0]) <= min(v[1], b[2].get(k, v)[1]) for k, v in a[2].items())


def holds_result(m, st, v):
    """does the term hold or contain anything that depends on the data"""
    if from_data(v):
        return True
    for x in m.reach(st, [v]):
        if x.op == 'ref':
            o = m.obj(st, x)
            if o is not None and (o.owner == 'data' or (o.kind in ('list', 'dict', 'set', 'cell') and any(from_data(y) for y in o.data if isinstance(y, Term)))):
                return True
    return False
