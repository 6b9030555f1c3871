"""The analysed runs: every annotation form against every kind of datum, and every value against the dumper."""
import time
import typing

from .terms import *
from . import world
from .world import DATA
from .machine import AnalysisError
from .scen import Scen, EX
from . import types_ as TY, data as DT, vals as VA
from .spec import spec, Spec, Ctx, match, OPT
from .view import describe, exc_info

V = mk('par', 'v')
DEEP = ('dict_ii', 'dict_fs', 'tuple_lists', 'list_list', 'list_listint', 'list_set', 'dict_list')      # collections of collections: only with a few elements
SMALL = ('newtype_list', 'newtype_newtype', 'list_list', 'list_listint', 'dict_list', 'opt_list', 'list_opt', 'list_optint', 'list_newtype', 'tuple_lists', 'list_set',
         'list_str', 'list_float', 'list_bool', 'set_float', 'set_bool', 'frozenset_int', 'frozenset_str', 'vartuple_str', 'vartuple_float', 'tuple_fb',
         'dict_ii', 'dict_fs', 'dict_ss', 'dict_sb', 'dict_sf', 'dict_any')
LIMIT = 1000000


class Run:
    def __init__(self, name, S, st0, v, t, sp=None, rec=None, shape=None, ns=False, kinds=None):
        self.name = name
        self.S = S
        self.st0 = st0
        self.v = v
        self.t = t
        self.sp = sp
        self.rec = rec
        self.shape = shape
        self.ns = ns
        self.outs = []
        self.error = None
        self.wall = 0
        self.todo = None

    def go(self, f, args, kw=()):
        self.todo = (f, args, kw)
        return self

    def execute(self):
        if self.todo is None:
            return self
        (f, args, kw), self.todo = self.todo, None
        t0 = time.time()
        try:
            self.outs = self.S.run(self.st0, f, args, kw, limit=LIMIT)
        except AnalysisError as e:
            self.error = str(e)
            self.outs = getattr(e, 'outs', [])
        self.wall = time.time() - t0
        return self

    def clean(self):
        return [o for o in self.outs if not o.tainted]

    def returns(self):
        return [o for o in self.clean() if o.outcome[0] == 'return']

    def raises(self):
        return [o for o in self.clean() if o.outcome[0] == 'raise']


class Loads:
    """a loader with every annotation form, and the runs of load() on it"""

    def __init__(self, prog, opts=None, hooks=None, frefs=(), late=False, bad=None, nested=True, typed=False, strings=False):
        self.S = S = Scen(prog, hooks=hooks)
        S.strings = strings
        if strings:
            opts = dict(opts or {}, pep563=TRUE)
        S.late, S.bad = late, bad
        self.recs = [r for r in TY.records(S) if typed or not r.typed]
        S.m.sigs = {r.term: TY.signature(r) for r in self.recs if r.kind != 'typeddict'}
        self.forms = TY.simple(S)
        self.forms['enum'] = TY.enum_(S)
        self.nested, self.outers = {}, []
        if nested:
            self.compounds()
            S.m.sigs.update({r.term: TY.signature(r) for r in self.outers if r.kind != 'typeddict'})
        self.forms['enum_hints'] = TY.enum_(S, 'EnumH', True)
        self.specs = {n: spec(S, t, self.recs) for n, t in self.forms.items()}
        S.recs = self.recs + self.outers
        self.specs.update({n: spec(S, x[0], S.recs) for n, x in self.nested.items()})
        if frefs:
            opts = dict(opts or {}, frefs=S.frefs({n: next((r.term for r in self.recs if r.kind + ':' + r.variant == n), None) for n in frefs}))
        S.loader(opts)
        self.load = S.method(S.st, S.L, 'load')

    def compounds(self):
        """collections, unions and objects with an object inside: name -> (type, record type inside, how the data holds it)"""
        S = self.S
        g = S.generic
        T1, ST = S.opaque('T1'), TY.glob('builtins.str')
        w = mk('par', 'vw')
        for k, (f, vs) in TY.RECS.items():
            r = next(x for x in self.recs if x.kind == k and x.variant == 'req')
            t = r.term
            S.inner['rec:' + k] = t
            self.nested.update({
                'List[%s]' % k: (g('List[%s]' % k, typing.List[int], t), r, lambda st, v: self.listing(st, [v])),
                'Dict[str,%s]' % k: (g('Dict[str,%s]' % k, typing.Dict[str, int], ST, t), r, lambda st, v: self.mapping(st, [(mk('par', 'k'), v)], (), False, 'outer')),
                'Union[%s,T1]' % k: (g('Union[%s,T1]' % k, typing.Union[int, str], t, T1), r, lambda st, v: v),
                'Union[T1,%s]' % k: (g('Union[T1,%s]' % k, typing.Union[int, str], T1, t), r, lambda st, v: v),
                'Tuple[%s,T1]' % k: (g('Tuple[%s,T1]' % k, typing.Tuple[int, str], t, T1), r, lambda st, v: self.listing(st, [v, w]))})
            o = f(S, 'in:rec:' + k)
            o.ftype = S.opaque('T')
            self.outers.append(o)
            self.nested['%s of %s' % (k, k)] = (o.term, r, lambda st, v: self.mapping(st, [(TY.P, v)], [(TY.F, False)], False, 'outer'))

    def compound(self, shapes=('full', 'no_p', 'extra')):
        """the types with an object inside on data that holds a mapping where the object should be"""
        for n, (t, rec, wrap) in self.nested.items():
            for sh in shapes:
                st = self.S.st.copy()
                ents, stars = DT.shapes(rec)[sh]
                v = self.mapping(st, ents, stars, False, sh)
                v = wrap(st, v)
                yield Run('%s/%s' % (n, sh), self.S, st, v, t, self.specs[n], shape='inner ' + sh).go(self.load, (v, t))

    def opaque(self, names=None):
        """each form on a datum about which nothing is known"""
        for n, t in self.forms.items():
            if n not in DEEP and (names is None or n in names):
                yield Run(n, self.S, self.S.st, V, t, self.specs[n]).go(self.load, (V, t))

    def wrong(self, names=None):
        """each record type on data that is no mapping"""
        st = self.S.st.copy()
        st.kinds[V] = frozenset(DATA) - {'dict', 'mapping', 'namespace'}
        for r in self.recs:
            n = r.kind + ':' + r.variant
            if names is None or n in names:
                yield Run(n + '/no mapping', self.S, st, V, r.term, Spec('rec', r.term, r), r, 'none').go(self.load, (V, r.term))

    def shaped(self, names=None, shapes=None, nss=(False, True)):
        """each record type on the ways a mapping can relate to it"""
        for r in self.recs:
            n = r.kind + ':' + r.variant
            if names is not None and n not in names and r.kind not in names:
                continue
            for sh, (ents, stars) in DT.shapes(r).items():
                if shapes is not None and sh not in shapes:
                    continue
                if sh == 'extras' and r.variant == 'ext_empty':
                    continue        # an arbitrary key could be the empty one
                for ns in nss:
                    if ns and 'odd' in sh:
                        continue
                    st = self.S.st.copy()
                    v = self.mapping(st, ents, stars, ns, sh)
                    if sh == 'methods':
                        st.kinds[DT.VX] = frozenset(DATA) - {'object'}
                    yield Run('%s/%s%s' % (n, sh, '/namespace' if ns else ''), self.S, st, v, r.term,
                              Spec('rec', r.term, r), r, sh, ns).go(self.load, (v, r.term))

    def mapping(self, st, ents, stars, ns, name):
        S = self.S
        old, S.st = S.st, st
        try:
            return DT.mapping(S, ents, stars, ns, name)
        finally:
            S.st = old

    def listing(self, st, items, kind='list', name='data'):
        """a list (or tuple) datum with the given elements"""
        if kind == 'tuple':
            return mk('tuple', *items)
        r = self.S.m.alloc(st, kind, None, tuple(items), owner='data', site='data:' + name)
        DT.root(st, name, r)
        return r

    def concrete(self, names=None, sizes=(0, 1, 2, 3)):
        """the collection forms on lists, tuples and dictionaries of a few elements"""
        for n, t in self.forms.items():
            if names is not None and n not in names:
                continue
            sp = self.specs[n]
            small = n in SMALL
            if sp.op in ('seq', 'fix', 'date', 'union'):
                for k in sizes:
                    if small and k not in (1, 2):
                        continue
                    if sp.op == 'date' and k not in (0, 3):
                        continue
                    for kind in ('list', 'tuple')[:1 if small else 2]:
                        st = self.S.st.copy()
                        v = self.listing(st, [mk('par', 'v%d' % i) for i in range(k)], kind)
                        yield Run('%s/%s of %d' % (n, kind, k), self.S, st, v, t, sp, shape=k).go(self.load, (v, t))
            if sp.op in ('dict', 'union'):
                for k in (1,) if small else (0, 1, 2):
                    for ns in (False, True):
                        st = self.S.st.copy()
                        v = self.mapping(st, [(mk('par' if not ns else 'name', 'k%d' % i), mk('par', 'w%d' % i)) for i in range(k)], (), ns, 'm%d' % k)
                        yield Run('%s/%s of %d' % (n, 'namespace' if ns else 'dict', k), self.S, st, v, t, sp, shape=k, ns=ns).go(self.load, (v, t))


INNER = ('none', 'int', 'str', 'any', 'list', 'list_', 'list_int', 'set', 'frozenset', 'vartuple', 'tuple', 'tuple_', 'dict', 'dict_',
         'union', 'union_', 'optional', 'literal', 'date', 'timedelta', 'pattern', 'pattern_str', 'path', 'uuid', 'newtype', 'forwardref',
         'unknown', 'enum', 'dataclass:req', 'attrs:req', 'namedtuple:req', 'typeddict:req', 'union_basic', 'tuple_basic', 'dict_basic')


class Customs:
    """a loader with a custom handler for one annotation in front of all others; that annotation at every kind of position"""

    def __init__(self, prog, name, unions=False):
        self.S = S = Scen(prog)
        self.name = name
        self.unions = unions
        forms = TY.simple(S)
        forms['enum'] = TY.enum_(S)
        for r in TY.records(S, variants=('req',)):
            forms[r.kind + ':req'] = r.term
        self.t = t = forms[name]
        S.inner[name] = t
        S.special = t
        S.m.opaque.add(t)
        self.recs, self.outers = [], []
        for k, (f, vs) in TY.RECS.items():
            r = f(S, 'in:' + name)
            r.ftype = S.opaque('T')
            self.recs.append(r)
        S.m.sigs = {r.term: TY.signature(r) for r in self.recs if r.kind != 'typeddict'}
        T1 = S.opaque('T1')
        g = S.generic
        self.forms = {'direct': t}
        ty = {'list': (typing.List[int], (t,)), 'set': (typing.Set[int], (t,)), 'frozenset': (typing.FrozenSet[int], (t,)),
              'vartuple': (typing.Tuple[int, ...], (t, ELL)), 'first of tuple': (typing.Tuple[int, str], (t, T1)),
              'last of tuple': (typing.Tuple[str, int], (T1, t)), 'key': (typing.Dict[int, str], (t, T1)), 'value': (typing.Dict[str, int], (T1, t))}
        if not (name.startswith('union') or name in ('newtype', 'optional', 'any')):
            ty['first of union'] = (typing.Union[int, bytes], (t, T1))
            ty['last of union'] = (typing.Union[bytes, int], (T1, t))
        if unions:
            self.forms = {}
            I, ST = glob('builtins.int'), glob('builtins.str')
            ty = {'first of union': (typing.Union[int, bytes], (t, T1)), 'last of union': (typing.Union[bytes, int], (T1, t)),
                  'union after int': (typing.Union[int, str], (I, t)), 'union before str': (typing.Union[int, str], (t, ST)),
                  'union of four': (typing.Union[int, bytes, bool, str], (I, T1, t, ST))}
        for n, (ex, args) in ty.items():
            self.forms[n] = g('%s with %s' % (n, name), ex, *args)
        if not unions:
            self.forms['newtype of it'] = world.form('NewType of ' + name, typing.NewType('Of', int), {'__supertype__': t, '__name__': const('Of')})
        self.specs = {n: spec(S, x, self.recs) for n, x in self.forms.items()}
        S.loader()
        self.load = S.method(S.st, S.L, 'load')

    def runs(self):
        for n, t in self.forms.items():
            yield Run('%s/%s' % (self.name, n), self.S, self.S.st, V, t, self.specs[n]).go(self.load, (V, t))
        for r in self.recs if not self.unions else ():
            st = self.S.st.copy()
            ents, stars = DT.shapes(r)['full']
            v = DT_mapping(self.S, st, ents, stars)
            yield Run('%s/field of %s' % (self.name, r.kind), self.S, st, v, r.term, Spec('rec', r.term, r), r, 'full').go(self.load, (v, r.term))


def DT_mapping(S, st, ents, stars):
    old, S.st = S.st, st
    try:
        return DT.mapping(S, ents, stars, False, 'full')
    finally:
        S.st = old


class Dumps:
    def __init__(self, prog, opts=None, hooks=None, late=False, bad=None):
        self.S = S = Scen(prog, hooks=hooks)
        S.late, S.bad = late, bad
        self.vals = VA.plain(S)
        self.recs = {}
        for r in TY.records(S):
            n = r.kind + ':' + r.variant
            self.vals[n] = VA.inst(S, r)
            self.recs[n] = r
        I = TY.glob('builtins.int')
        self.anns = {'Any': TY.glob('typing.Any'), 'int': I,
                     'List[int]': S.generic('List[int]', typing.List[int], I),
                     'Set[int]': S.generic('Set[int]', typing.Set[int], I),
                     'Tuple[int,...]': S.generic('Tuple[int,...]', typing.Tuple[int, ...], I, ELL),
                     'Tuple[int,U]': S.generic('Tuple[int,U]', typing.Tuple[int, str], I, S.opaque('U')),
                     'List[U]': S.generic('List[U]', typing.List[str], S.opaque('U')),
                     'Dict[str,int]': S.generic('Dict[str,int]', typing.Dict[str, int], TY.glob('builtins.str'), I),
                     'Union[int,U]': S.generic('Union[int,U]', typing.Union[int, str], I, S.opaque('U'))}
        for n in ('List[int]', 'Tuple[int,...]', 'Any', 'int'):
            S.inner[n] = self.anns[n]
        # objects whose fields are annotated with something that matters to the dumper
        for k, (f, vs) in TY.RECS.items():
            for n in S.inner:
                r = f(S, 'in:' + n)
                r.ftype = S.opaque('T')
                for w in ('list', 'list of int', 'tuple', 'list of enum', 'list of strenum', 'list of bool', 'list of list', 'strenum', 'int', 'date'):
                    name = '%s:%s holding %s' % (k, n, w)
                    self.vals[name] = VA.inst(S, r, self.vals[w], name)
                    self.recs[name] = r
        S.dumper(opts)
        self.dump = S.method(S.st, S.L, 'dump')

    def runs(self, names=None):
        for n, v in self.vals.items():
            if names is None or n in names:
                yield Run(n, self.S, self.S.st, v, None, rec=self.recs.get(n)).go(self.dump, (v,))

    def annotated(self):
        for a, t in self.anns.items():
            for n, v in self.vals.items():
                if n not in self.recs:
                    yield Run('%s as %s' % (n, a), self.S, self.S.st, v, t).go(self.dump, (v, t))


OUTER = ('none', 'bool', 'int', 'str', 'list', 'tuple', 'set', 'dict', 'enum', 'strenum', 'date', 'timedelta', 'pattern', 'path', 'uuid', 'IPv4Address',
         'unknown', 'dataclass:req', 'attrs:req', 'namedtuple:req')
UNHASHABLE = ('list', 'set', 'dict', 'dataclass:req')


class CustomDumps:
    """a dumper with a custom handler for one value in front of all others; that value at every kind of position"""

    def __init__(self, prog, name):
        self.S = S = Scen(prog)
        vals = VA.plain(S)
        self.recs = {}
        for r in TY.records(S, variants=('req',)):
            vals[r.kind + ':req'] = VA.inst(S, r)
            self.recs[r.kind] = r
        S.special = x = vals[name]
        I = TY.glob('builtins.int')
        S.inner['Any'] = TY.glob('typing.Any')
        S.inner['int'] = I
        S.inner['List[int]'] = S.generic('List[int]', typing.List[int], I)
        self.vals = {'direct': (x, None), 'list': (VA.coll(S, 'list', x, 'outer'), None), 'tuple': (VA.coll(S, 'tuple', x, 'outer'), None),
                     'annotated list': (VA.coll(S, 'list', x, 'outera'), S.inner['List[int]']),
                     'dict value': (VA.heapdict(S, 'outerv', [(const('k'), x)]), None)}
        if name not in UNHASHABLE:
            self.vals['set'] = (VA.coll(S, 'set', x, 'outer'), None)
            self.vals['dict key'] = (VA.heapdict(S, 'outerk', [(x, vals['opaque'])]), None)
        pe = world.form('OuterEnum', VA.PlainEnum, {'__name__': const('OuterEnum')})
        self.vals['enum'] = (mk('rec', pe, (('value', x), ('name', const('a')))), None)
        for k, (f, vs) in TY.RECS.items():
            if k == 'typeddict' and name == 'str':
                continue        # the dumped keys could collide
            for n, w in (('Any', x), ('int', x), ('List[int]', self.vals['list'][0])):
                r = f(S, 'in:' + n)
                r.ftype = S.opaque('T')
                nm = '%s in field of %s as %s' % (name, k, n)
                self.vals[nm] = (VA.inst(S, r, w, nm), None)
                self.recs[nm] = r
        S.dumper()
        self.name = name
        self.dump = S.method(S.st, S.L, 'dump')

    def runs(self):
        for n, (v, t) in self.vals.items():
            yield Run('%s/%s' % (self.name, n), self.S, self.S.st, v, t).go(self.dump, (v,) if t is None else (v, t))
