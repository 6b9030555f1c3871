"""The annotation forms: every kind of type the documentation says can be loaded."""
import argparse
import dataclasses
import datetime
import enum
import ipaddress
import pathlib
import re
import typing
import uuid

from .terms import *
from . import world
from .world import form, FORMS
from .scen import opaque_class

F = mk('star', 'F')
E = mk('star', 'E')
M = mk('star', 'M')
B = mk('bnd', F)
MISSING_DC = world.register('dataclasses.MISSING', dataclasses.MISSING)
MISSING_FACTORY = MISSING_DC
NOTHING = world.alias('attr.NOTHING')
DCFIELD = world.classterm(dataclasses.Field)
ATTRIBUTE = glob('attr._make.Attribute')
FTYPES = {k: world.register('dataclasses.' + k, getattr(dataclasses, k)) for k in ('_FIELD', '_FIELD_CLASSVAR', '_FIELD_INITVAR')}
P = mk('name', 'p')
X = mk('name', 'x')
PX = mk('name', 'px')
PA = mk('name', 'pa')
Q = mk('name', 'q')
MK = mk('name', 'MK')
C1 = classmethod


class _DC:
    __dataclass_fields__ = {}
    __dataclass_params__ = None
    __annotations__ = {}

    def __init__(self, **kw):
        pass


class _AT:
    __attrs_attrs__ = ()
    __annotations__ = {}


class _NT(typing.NamedTuple):
    p: int
    x: int = 1


class _TD(typing.TypedDict):
    p: int


class _EN(enum.Enum):
    a = 1
    b = 2


class _UN:
    pass


def simple(S):
    """forms that do not need fields: name -> (type term, parameters)"""
    T, K, V = S.opaque('T'), S.opaque('K'), S.opaque('V')
    T1, T2 = S.opaque('T1'), S.opaque('T2')
    c = opaque_class
    g = S.generic
    I, ST, BO, FL = (glob('builtins.' + n) for n in ('int', 'str', 'bool', 'float'))
    NT = glob('builtins.NoneType')
    lit = g('Literal', typing.Literal['a', 5], const('a'), const(5))
    r = {
        'none': NT,
        'int': I, 'str': ST, 'bool': BO, 'float': FL,
        'any': glob('typing.Any'),
        'list': g('List[T]', typing.List[c('T')], T),
        'list_': g('list[T]', list[c('T')], T),
        'list_int': g('List[int]', typing.List[int], I),
        'list_union': g('List[Union[int,str]]', typing.List[typing.Union[int, str]], g('Union[int,str]', typing.Union[int, str], I, ST)),
        'set': g('Set[T]', typing.Set[c('T')], T),
        'set_': g('set[T]', set[c('T')], T),
        'set_int': g('Set[int]', typing.Set[int], I),
        'frozenset': g('FrozenSet[T]', typing.FrozenSet[c('T')], T),
        'frozenset_': g('frozenset[T]', frozenset[c('T')], T),
        'vartuple': g('Tuple[T,...]', typing.Tuple[c('T'), ...], T, ELL),
        'vartuple_': g('tuple[T,...]', tuple[c('T'), ...], T, ELL),
        'vartuple_int': g('Tuple[int,...]', typing.Tuple[int, ...], I, ELL),
        'tuple': g('Tuple[T1,T2]', typing.Tuple[c('T1'), c('T2')], T1, T2),
        'tuple_': g('tuple[T1,T2]', tuple[c('T1'), c('T2')], T1, T2),
        'tuple_int': g('Tuple[int,T2]', typing.Tuple[int, c('T2')], I, T2),
        'tuple1': g('Tuple[T1]', typing.Tuple[c('T1')], T1),
        'dict': g('Dict[K,V]', typing.Dict[c('K'), c('V')], K, V),
        'dict_': g('dict[K,V]', dict[c('K'), c('V')], K, V),
        'dict_basic': g('Dict[str,int]', typing.Dict[str, int], ST, I),
        'union': g('Union[T1,T2]', typing.Union[c('T1'), c('T2')], T1, T2),
        'union_': g('T1|T2', c('T1') | c('T2'), T1, T2),
        'optional': g('Optional[T1]', typing.Optional[c('T1')], T1, NT),
        'optional_': g('T1|None', c('T1') | None, T1, NT),
        'union_basic': g('Union[int,str]', typing.Union[int, str], I, ST),
        'union_mixed': g('Union[int,T1]', typing.Union[int, c('T1')], I, T1),
        'literal': lit,
        'forwardref': form('ForwardRef', typing.ForwardRef('N'), {'__forward_arg__': const('N')}),
        'date': glob('datetime.date'), 'time': glob('datetime.time'), 'datetime': glob('datetime.datetime'),
        'timedelta': glob('datetime.timedelta'),
        'pattern': glob('re.Pattern'),
        'pattern_str': g('Pattern[str]', typing.Pattern[str], ST),
        'pattern_bytes': g('re.Pattern[bytes]', re.Pattern[bytes], glob('builtins.bytes')),
        'path': glob('pathlib.Path'),
        'uuid': glob('uuid.UUID'),
        'ip': world.classterm(ipaddress.IPv4Address),
        'newtype': form('NewType', typing.NewType('N', c('T')), {'__supertype__': T, '__name__': const('N')}),
        'unknown': form('Unknown', _UN, {'__name__': const('Unknown')}),
        'list_unknown': g('List[Unknown]', typing.List[_UN], form('Unknown', _UN, {'__name__': const('Unknown')})),
    }
    T3 = S.opaque('T3')
    r['union3'] = g('Union[T1,T2,T3]', typing.Union[c('T1'), c('T2'), c('T3')], T1, T2, T3)
    r['union_basics'] = g('Union[T1,str,T2,float]', typing.Union[c('T1'), str, c('T2'), float], T1, ST, T2, FL)
    r['tuple_basic'] = g('Tuple[int,str]', typing.Tuple[int, str], I, ST)
    r['tuple3'] = g('Tuple[T1,T2,T3]', typing.Tuple[c('T1'), c('T2'), c('T3')], T1, T2, T3)
    r['set_str'] = g('Set[str]', typing.Set[str], ST)
    r['frozenset_float'] = g('FrozenSet[float]', typing.FrozenSet[float], FL)
    r['list_any'] = g('List[Any]', typing.List[typing.Any], glob('typing.Any'))
    r['list_none'] = g('List[None]', typing.List[None], NT)
    r['dict_int'] = g('Dict[K,int]', typing.Dict[c('K'), int], K, I)
    r['dict_str'] = g('Dict[str,V]', typing.Dict[str, c('V')], ST, V)
    r['tagged'] = tagged(S, 'Union[tagged]')
    r['tagged3'] = tagged(S, 'Union[tagged3]', 'abc')
    r['tagged_two'] = tagged(S, 'Union[tagged two]', 'ab', 'ab')
    # the same members in another order: equal types, but another order of preference
    r['union_rev'] = g('Union[T2,T1]', typing.Union[c('T2'), c('T1')], T2, T1)
    r['tagged_same'] = tagged(S, 'Union[tagged same]', 'aa')
    r['tagged_rev'] = g('Union[same tagged]', typing.Union[opaque_class('Taga0'), opaque_class('Taga1')], *reversed(world.FORMS[r['tagged_same']].attrs['__args__'].args))
    S.m.eqforms = {frozenset((r['union'], r['union_rev'])), frozenset((r['tagged_same'], r['tagged_rev']))}
    r['newtype_int'] = form('NewTypeInt', typing.NewType('NI', int), {'__supertype__': I, '__name__': const('NI')})
    r['newtype_list'] = form('NewTypeList', typing.NewType('NL', typing.List[c('T')]), {'__supertype__': r['list'], '__name__': const('NL')})
    r['newtype_newtype'] = form('NewTypeN', typing.NewType('NN', int), {'__supertype__': r['newtype_int'], '__name__': const('NN')})
    r['list_list'] = g('List[List[T]]', typing.List[typing.List[c('T')]], r['list'])
    r['list_listint'] = g('List[List[int]]', typing.List[typing.List[int]], r['list_int'])
    r['dict_list'] = g('Dict[str,List[int]]', typing.Dict[str, typing.List[int]], ST, r['list_int'])
    r['opt_list'] = g('Optional[List[int]]', typing.Optional[typing.List[int]], r['list_int'], NT)
    r['list_opt'] = g('List[Optional[T1]]', typing.List[typing.Optional[c('T1')]], r['optional'])
    r['list_optint'] = g('List[Optional[int]]', typing.List[typing.Optional[int]], g('Optional[int]', typing.Optional[int], I, NT))
    r['list_newtype'] = g('List[NewTypeInt]', typing.List[int], r['newtype_int'])
    r['tuple_lists'] = g('Tuple[List[int],T1]', typing.Tuple[typing.List[int], c('T1')], r['list_int'], T1)
    r['list_set'] = g('List[Set[T]]', typing.List[typing.Set[c('T')]], r['set'])
    r['tuple_same'] = g('Tuple[T1,T1]', typing.Tuple[c('T1'), c('T1')], T1, T1)
    r['tuple_none'] = g('Tuple[T1,None]', typing.Tuple[c('T1'), None], T1, NT)
    # basic types at every position
    for n, ex, args in (('list_str', typing.List[str], (ST,)), ('list_float', typing.List[float], (FL,)), ('list_bool', typing.List[bool], (BO,)),
                        ('set_float', typing.Set[float], (FL,)), ('set_bool', typing.Set[bool], (BO,)), ('frozenset_int', typing.FrozenSet[int], (I,)),
                        ('frozenset_str', typing.FrozenSet[str], (ST,)), ('vartuple_str', typing.Tuple[str, ...], (ST, ELL)),
                        ('vartuple_float', typing.Tuple[float, ...], (FL, ELL)), ('tuple_fb', typing.Tuple[float, bool], (FL, BO)),
                        ('dict_ii', typing.Dict[int, int], (I, I)), ('dict_fs', typing.Dict[float, str], (FL, ST)), ('dict_ss', typing.Dict[str, str], (ST, ST)),
                        ('dict_sb', typing.Dict[str, bool], (ST, BO)), ('dict_sf', typing.Dict[str, float], (ST, FL)), 
                        ('dict_any', typing.Dict[str, typing.Any], (ST, glob('typing.Any')))):
        r[n] = g(str(ex).replace('typing.', ''), ex, *args)
    r['fref_unknown'] = form('ForwardRef2', typing.ForwardRef('Nobody'), {'__forward_arg__': const('Nobody')})
    r['union_fref'] = g('Union[fref,T1]', typing.Union['Nobody', c('T1')], r['fref_unknown'], T1)
    return r


def enum_(S, name='Enum', hints=False, example=_EN):
    r = S.tdict(name + '.__members__', (), None)
    ec = form(name, example, {'__name__': const(name), '__members__': r, '__annotations__': NONE})
    seg = S.m.starseg(S.st, M, mk('aid', r, M),
                      {(mk('bnd', M), mk('rec', ec, (('value', mk('mval', mk('bnd', M))), ('name', mk('bnd', M))))): frozenset()})
    S.st.heap[r] = S.st.heap[r].with_((seg,))
    h = S.tdict(name + '.hints', [(P, S.opaque('TH'))] if hints else [])
    FORMS[ec].attrs['#hints'] = h
    FORMS[ec].attrs['__annotations__'] = h
    return ec


def tagged(S, name, tags='ab', second=''):
    """a union of record types that share one Literal field (or two)"""
    ts, names = [], []
    for i, l in enumerate(tags):
        lt = S.generic('Literal[%s]' % l, typing.Literal[l], const(l))
        n = 'Tag' + l + second + (str(i) if tags.count(l) > 1 else '')
        ents = [(const('tag'), lt)]
        if second:
            ents.append((const('kind'), S.generic('Literal[%s]' % second[i], typing.Literal[second[i]], const(second[i]))))
        ann = S.tdict('tagged%d%s%s.ann' % (i, tags, second), ents)
        ts.append(S.opaque(n, __annotations__=ann))
        names.append(n)
    return S.generic(name, typing.Union[tuple(opaque_class(n) for n in names)], *ts)


# ------------------------------------------------------------------ records
class Fld:
    """a distinguished field: python name, name in the data, needed or not, type, accepted by the constructor, default,
    name of the parameter of the constructor"""

    def __init__(self, name, ext, required, ptype, loadable=True, default=None, arg=None):
        self.name = name
        self.arg = arg or name
        self.ext = ext
        self.required = required
        self.ptype = ptype
        self.loadable = loadable
        self.default = default


class Rec:
    """a record type: distinguished fields (p, and q where names are swapped), and any number of plain required fields F"""

    ftype = None

    def __init__(self, kind, variant, term, required, ptype, ext, loadable=True, default=None, more=(), arg=None):
        self.kind = kind
        self.variant = variant
        self.term = term
        self.required = required
        self.ptype = ptype
        self.ext = ext
        self.loadable = loadable
        self.default = default
        self.typed = not variant.startswith('in:') and '.' in variant
        self.named = (Fld(P, ext, required, ptype, loadable, default, arg),) + tuple(more)


def meta(S, name, ext):
    ents = [(mk('name', 'otherkey'), mk('name', 'otherext'))]
    if ext is not None:
        ents.append((MK, ext))
    return S.tdict(name, ents)


def ptype_of(S, variant):
    if variant.startswith('in:'):
        return S.inner[variant[3:]]
    variant = variant.rsplit('.', 1)[-1]
    if variant == 'none':
        return glob('builtins.NoneType')
    if variant in ('str', 'bool', 'float'):
        return glob('builtins.' + variant)
    if variant == 'any':
        return glob('typing.Any')
    if variant == 'opt':
        return S.generic('Optional[int]', typing.Optional[int], glob('builtins.int'), glob('builtins.NoneType'))
    if variant == 'int':
        return glob('builtins.int')
    if variant == 'unknown':
        return form('Unknown', _UN, {'__name__': const('Unknown')})
    return S.opaque('TP')


def base(variant):
    return variant if variant.startswith('in:') else variant.split('.')[0]


def dataclass_(S, variant, name=None):
    """variants: req, def, fac, noinit, noinit_def, classvar, initvar, ext, ext_empty, swap, int, unknown"""
    name = name or 'DC_' + variant
    T, TP = S.opaque('T'), ptype_of(S, variant)
    full, variant = variant, base(variant)
    empty = S.tdict(name + '.nometa', [])
    ext = PX if variant.startswith('ext') or variant == 'noinit_ext' else None
    if variant == 'ext_empty':
        ext = const('')
    if variant == 'ext_own':
        ext = P
    if variant == 'swap':
        ext = Q
    pm = meta(S, name + '.meta', ext) if ext is not None else empty
    dflt = {'def': mk('dflt', 'p'), 'def2': mk('dflt', 'p'), 'ext_def': mk('dflt', 'p'), 'noinit_def': mk('dflt', 'p'), 'flags_def': mk('dflt', 'p')}.get(variant, MISSING_DC)
    fac = mk('user', name + '.factory') if variant == 'fac' else MISSING_DC
    if variant == 'fac':
        S.m.userfn[fac] = lambda m, st, a, k: m.ret(st, mk('dfac', 'p'))
    init = not variant.startswith('noinit')
    ft = FTYPES['_FIELD_CLASSVAR' if variant == 'classvar' else '_FIELD_INITVAR' if variant == 'initvar' else '_FIELD']
    ptype = TP
    if variant == 'classvar':
        ptype = S.generic('ClassVar[%s]' % show(TP), typing.ClassVar[int], TP)
    if variant == 'initvar':
        ptype = form('InitVar[%s]' % show(TP), dataclasses.InitVar[int], {'type': TP})

    def fld(nm, typ, d, f, i, md, ftype, odd=False):
        return mk('rec', DCFIELD, (('name', nm), ('type', const('a string') if S.strings else typ), ('default', d), ('default_factory', f), ('init', boolt(i)),
                                   ('repr', boolt(not odd)), ('hash', FALSE if odd else NONE), ('compare', boolt(not odd)), ('metadata', md),
                                   ('kw_only', boolt(odd)), ('_field_type', ftype)))
    p = fld(P, ptype, dflt, fac, init, pm, ft, variant.startswith('flags'))
    fs = fld(B, T, MISSING_DC, MISSING_DC, True, empty, FTYPES['_FIELD'])
    fl, hl, more = [(P, p)], [(P, ptype)], []
    if variant == 'swap':
        TQ = S.opaque('TQ')
        fl.append((Q, fld(Q, TQ, MISSING_DC, MISSING_DC, True, meta(S, name + '.qmeta', P), ft)))
        hl.append((Q, TQ))
        more.append(Fld(Q, P, True, TQ))
    if variant == 'def2':
        TQ = S.opaque('TQ')
        fl.append((Q, fld(Q, TQ, mk('dflt', 'q'), MISSING_DC, True, empty, ft)))
        hl.append((Q, TQ))
        more.append(Fld(Q, Q, False, TQ, default=mk('dflt', 'q')))
    d = S.tdict(name + '.__dataclass_fields__', fl, (F, fs))
    h = S.tdict(name + '.hints', hl, (F, T))
    t = form(name, _DC, {'__dataclass_fields__': d, '__annotations__': strings(S, name, hl) or h, '#hints': h, '__name__': const(name), '#annotations': h})
    required = init and dflt is MISSING_DC and fac is MISSING_DC and variant != 'classvar'
    return Rec('dataclass', full, t, required, TP, ext if ext is not None else P, loadable=init and variant != 'classvar', more=more,
               default=mk('dfac', 'p') if variant == 'fac' else dflt if dflt is not MISSING_DC else None)


def attrs_(S, variant, name=None):
    """variants: req, def, fac, noinit, noinit_def, ext, ext_empty, conv, convt, swap, int, unknown, priv"""
    name = name or 'AT_' + variant
    T, TP, TC = S.opaque('T'), ptype_of(S, variant), S.opaque('TC')
    full, variant = variant, base(variant)
    empty = S.tdict(name + '.nometa', [])
    ext = PX if variant.startswith('ext') or variant in ('noinit_ext', 'priv_ext') else None
    arg = PA if variant.startswith('priv') else None
    if variant == 'ext_empty':
        ext = const('')
    if variant == 'ext_own':
        ext = P
    if variant == 'swap':
        ext = Q
    pm = meta(S, name + '.meta', ext) if ext is not None else empty
    dflt = NOTHING
    if variant in ('def', 'noinit_def', 'ext_def', 'def2', 'flags_def', 'priv_def'):
        dflt = mk('dflt', 'p')
    if variant in ('fac', 'facself'):
        u = mk('user', name + '.factory')
        ts = variant == 'facself'
        S.m.userarity[u] = 1 if ts else 0

        def ufac(m, st, a, k, ts=ts):
            if len(a) != (1 if ts else 0):
                from .machine import Raise
                return m.throw(st, Raise('TypeError', 'default factory called with %d arguments' % len(a)))
            return m.ret(st, mk('dfac', 'p'))
        S.m.userfn[u] = ufac
        dflt = mk('rec', glob('attr.Factory'), (('factory', u), ('takes_self', boolt(ts))))
    conv = NONE
    if variant in ('conv', 'convt', 'convret', 'convobj'):
        conv = mk('user', name + '.converter')
        S.m.userfn[conv] = lambda m, st, a, k: m.ret(st, mk('conv', a[0]))
        S.m.userhints[conv] = {'conv': (), 'convobj': 'none', 'convt': (mk('ent', const('v'), TC), mk('ent', const('return'), TP)),
                               'convret': (mk('ent', const('return'), TP),)}[variant]
    init = not variant.startswith('noinit')

    def at(nm, typ, d, i, md, cv, odd=False, arg=None):
        return mk('rec', ATTRIBUTE, (('name', nm), ('type', typ), ('default', d), ('init', boolt(i)), ('metadata', md),
                                     ('converter', cv), ('repr', TRUE), ('alias', arg or nm), ('validator', NONE), ('kw_only', boolt(odd)),
                                     ('eq', boolt(not odd)), ('order', boolt(not odd)), ('hash', FALSE if odd else NONE), ('inherited', boolt(odd)),
                                     ('eq_key', NONE), ('order_key', NONE), ('on_setattr', NONE)))
    p = at(P, TP, dflt, init, pm, conv, variant.startswith('flags'), arg)
    fs = at(B, T, NOTHING, True, empty, NONE)
    seg = S.m.starseg(S.st, F, mk('aid', name, F), {(fs,): frozenset()})
    S.keep['at:' + name] = mk('tuple', seg)
    fl, hl, more = [p], [(P, TP)], []
    if variant == 'swap':
        TQ = S.opaque('TQ')
        fl.append(at(Q, TQ, NOTHING, True, meta(S, name + '.qmeta', P), NONE))
        hl.append((Q, TQ))
        more.append(Fld(Q, P, True, TQ))
    if variant == 'def2':
        TQ = S.opaque('TQ')
        fl.append(at(Q, TQ, mk('dflt', 'q'), True, empty, NONE))
        hl.append((Q, TQ))
        more.append(Fld(Q, Q, False, TQ, default=mk('dflt', 'q')))
    h = S.tdict(name + '.hints', hl, (F, T))
    t = form(name, _AT, {'__attrs_attrs__': mk('tuple', *fl, seg), '__annotations__': h, '#hints': h, '__name__': const(name)})
    ptype = {'conv': glob('typing.Any'), 'convobj': glob('typing.Any'), 'convt': TC, 'convret': glob('typing.Any')}.get(variant, TP)
    return Rec('attrs', full, t, init and dflt is NOTHING, ptype, ext if ext is not None else P, loadable=init, more=more,
               default=mk('dfac', 'p') if variant in ('fac', 'facself') else dflt if dflt is not NOTHING else None, arg=arg)


def strings(S, name, hints):
    """the annotations as the classes of a module with deferred evaluation hold them"""
    if S.strings:
        return S.tdict(name + '.strings', [(k, const('a string')) for k, _ in hints], (F, const('a string')))


def namedtuple_(S, variant, name=None):
    name = name or 'NT_' + variant
    T, TP = S.opaque('T'), ptype_of(S, variant)
    full, variant = variant, base(variant)
    hl, dl, fl, more = [(P, TP)], [], [P], []
    if variant in ('def', 'def2'):
        dl.append((P, mk('dflt', 'p')))
    if variant == 'def2':
        TQ = S.opaque('TQ')
        hl.append((Q, TQ))
        dl.append((Q, mk('dflt', 'q')))
        fl.append(Q)
        more.append(Fld(Q, Q, False, TQ, default=mk('dflt', 'q')))
    h = S.tdict(name + '.hints', hl, (F, T))
    d = S.tdict(name + '._field_defaults', dl)
    seg = S.m.starseg(S.st, F, mk('aid', name, F), {(B,): frozenset()})
    S.keep['nt:' + name] = mk('tuple', seg)
    t = form(name, _NT, {'__annotations__': strings(S, name, hl) or h, '_fields': mk('tuple', *fl, seg), '_field_defaults': d, '#hints': h,
                         '__name__': const(name)})
    return Rec('namedtuple', full, t, not dl, TP, P, default=mk('dflt', 'p') if dl else None, more=more)


def typeddict_(S, variant, name=None):
    """variants: req, notreq (total, p NotRequired), nontotal (p optional), nontotal_req (class total=False, p inherited required), notreq2 (p and q NotRequired)"""
    name = name or 'TD_' + variant
    T, TP = S.opaque('T'), ptype_of(S, variant)
    full, variant = variant, base(variant)
    ptype = TP
    if variant in ('notreq', 'notreq2'):
        ptype = S.generic('NotRequired[%s]' % show(TP), typing.NotRequired[int], TP)
    if variant == 'required':
        ptype = S.generic('Required[%s]' % show(TP), typing.Required[int], TP)
    hl, rl, more = [(P, ptype)], [(P, TP)], []
    if variant == 'notreq2':
        TQ = S.opaque('TQ')
        hl.append((Q, S.generic('NotRequired[TQ]', typing.NotRequired[str], TQ)))
        rl.append((Q, TQ))
        more.append(Fld(Q, Q, False, TQ))
    h = S.tdict(name + '.hints', hl, (F, T))
    opt = variant in ('notreq', 'nontotal', 'notreq2')
    req = S.tobj('frozenset', None, (), name + '.req')
    op = S.tobj('frozenset', None, (), name + '.opt')
    seg = S.m.starseg(S.st, F, mk('aid', req, F), {(B,): frozenset()})
    pe = tuple(mk('ent', x, NONE) for x, _ in rl)
    S.st.heap[req] = S.st.heap[req].with_((seg,) if opt else pe + (seg,))
    S.st.heap[op] = S.st.heap[op].with_(pe if opt else ())
    hh = S.tdict(name + '.rhints', rl, (F, T))
    t = form(name, _TD, {'__annotations__': strings(S, name, hl) or h, '__required_keys__': req, '__optional_keys__': op,
                         '__total__': boolt(not variant.startswith('nontotal')), '#hints': hh, '__name__': const(name)})
    return Rec('typeddict', full, t, not opt, TP, P, more=more)


def signature(r):
    """what the constructor of a record type needs and accepts"""
    return (tuple(f.arg for f in r.named if f.required), tuple(f.arg for f in r.named if f.loadable), F)


RECS = {
    'dataclass': (dataclass_, ('req', 'def', 'fac', 'noinit', 'noinit_def', 'classvar', 'initvar', 'ext', 'ext_def', 'ext_empty', 'ext_own', 'noinit_ext', 'swap', 'def2', 'int', 'unknown', 'flags', 'flags_def',
                               'req.none', 'def.none', 'def.opt', 'def.int', 'def.str', 'def.any')),
    'attrs': (attrs_, ('req', 'def', 'fac', 'facself', 'noinit', 'noinit_def', 'ext', 'ext_def', 'ext_empty', 'ext_own', 'noinit_ext', 'priv', 'priv_def', 'priv_ext', 'conv', 'convt', 'convret', 'convobj', 'swap', 'def2', 'int', 'unknown', 'flags', 'flags_def',
                       'req.none', 'def.opt', 'def.int')),
    'namedtuple': (namedtuple_, ('req', 'def', 'def2', 'int', 'unknown', 'req.none', 'def.opt', 'def.int')),
    'typeddict': (typeddict_, ('req', 'notreq', 'nontotal', 'nontotal_req', 'notreq2', 'int', 'unknown', 'req.none', 'notreq.opt', 'notreq.int')),
}


def records(S, kinds=None, variants=None):
    for k, (f, vs) in RECS.items():
        if kinds and k not in kinds:
            continue
        for v in vs:
            if variants and v not in variants:
                continue
            r = f(S, v)
            r.ftype = S.opaque('T')
            yield r
