"""What a result of loading must look like, for every annotation form: the reference the results are compared with.

spec(S, type) derives the meaning of an annotation from the annotation itself (typing.get_origin and the
arguments), independently of the analysed code.  match() decides whether a result term is a legal result of
loading a given datum into that type on a given path.
"""
import datetime
import enum
import pathlib
import re
import types
import typing

from .terms import *
from . import world
from .world import FORMS, real, MISSING
from .types_ import F, P, X, E, M, _DC, _AT, _NT, _TD, _EN, _UN
from .view import segs as segs_of, alts as alts_of

BASIC = {glob('builtins.' + n): n for n in ('int', 'str', 'bool', 'float')}
NT = glob('builtins.NoneType')
OPT = {k: mk('truth', mk('opt', k)) for k in ('basiccast', 'failonextra', 'raiseconditionerrors', 'uniondebugconflict',
                                              'dictequivalence', 'hidedefault', 'isodates')}


class Spec:
    __slots__ = ('op', 't', 'a')

    def __init__(self, op, t, *a):
        self.op = op
        self.t = t
        self.a = a

    def __repr__(self):
        return '%s(%s)' % (self.op, show(self.t))


def spec(S, t, recs=()):
    """the meaning of an annotation"""
    if t in S.m.opaque:
        return Spec('opq', t)
    if t in BASIC:
        return Spec('basic', t)
    if t is NT or t is NONE:
        return Spec('none', t)
    if t.op == 'glob':
        r = real(t)
        if r is typing.Any:
            return Spec('any', t)
        if r in (datetime.date, datetime.time, datetime.datetime):
            return Spec('date', t)
        if r is datetime.timedelta:
            return Spec('delta', t)
        if r is re.Pattern:
            return Spec('pattern', t, None)
        return Spec('strcons', t)
    for r in recs:
        if r.term is t:
            return Spec('rec', t, r)
    f = FORMS[t]
    ex = f.example
    args = f.attrs.get('__args__')
    args = args.args if args is not None else ()
    org = typing.get_origin(ex)

    def sub(i):
        return spec(S, args[i], recs)
    if isinstance(ex, type) and issubclass(ex, enum.Enum):
        return Spec('enum', t)
    if isinstance(ex, typing.NewType):
        return Spec('newtype', t, spec(S, f.attrs['__supertype__'], recs))
    if isinstance(ex, typing.ForwardRef):
        return Spec('fref', t, f.attrs['__forward_arg__'])
    if org in (list, set, frozenset):
        return Spec('seq', t, org.__name__, sub(0))
    if org is tuple:
        if len(args) == 2 and args[1] is ELL:
            return Spec('seq', t, 'tuple', sub(0))
        return Spec('fix', t, [sub(i) for i in range(len(args))])
    if org is dict:
        return Spec('dict', t, sub(0), sub(1))
    if org in (typing.Union, types.UnionType):
        return Spec('union', t, [sub(i) for i in range(len(args))])
    if org is typing.Literal:
        return Spec('literal', t, args)
    if org is re.Pattern:
        return Spec('pattern', t, args[0])
    if ex is _UN:
        return Spec('unknown', t)
    raise ValueError('no meaning for %s' % show(t))


# ------------------------------------------------------------------ matching
class Ctx:
    """collects why a result does not match"""

    def __init__(self, m, S=None):
        self.m = m
        self.S = S
        self.why = []

    def no(self, rule, *msg):
        self.why.append((rule, ' '.join(x if isinstance(x, str) else show(x) for x in msg)))
        return False


def fact(st, t):
    return st.facts.get(t)


def kinds(c, st, v):
    return c.m.kinds(st, v)


def match(c, st, sp, v, x):
    """is x a legal result of loading v (c.why explains a failure)"""
    op = sp.op
    if op == 'basic':
        return m_basic(c, st, sp, v, x)
    if op == 'none':
        if x is not NONE and x is not v:
            return c.no('none', 'loading', v, 'into None gives', x)
        if v is not NONE and kinds(c, st, v) != frozenset(['none']):
            return c.no('none', 'a value other than None is accepted for None:', v)
        return True
    if op == 'any':
        return x is v or c.no('any', 'loading', v, 'into Any gives', x)
    if op == 'opq':
        if x is mk('loaded', v, sp.t) and fact(st, mk('loads', v, sp.t)):
            return True
        return c.no('unloaded', x, 'is not', v, 'loaded into', sp.t)
    if op == 'newtype':
        return match(c, st, sp.a[0], v, x)
    if op == 'literal':
        return m_literal(c, st, sp, v, x)
    if op == 'enum':
        return m_enum(c, st, sp, v, x)
    if op == 'seq':
        return m_seq(c, st, sp, v, x)
    if op == 'fix':
        return m_fix(c, st, sp, v, x)
    if op == 'dict':
        return m_dict(c, st, sp, v, x)
    if op == 'union':
        return m_union(c, st, sp, v, x)
    if op in ('date', 'delta', 'pattern', 'strcons'):
        return m_ctor(c, st, sp, v, x)
    if op == 'rec':
        return m_rec(c, st, sp, v, x)
    if op == 'unknown':
        return c.no('unknown', 'a type nobody can handle gives', x)
    if op == 'fref':
        return True
    return c.no('spec', 'no rule for', sp.op)


def m_basic(c, st, sp, v, x):
    b = BASIC[sp.t]
    ks = kinds(c, st, v)
    if x is v:
        if ks == frozenset([b]):
            return True
        return c.no('basic', v, 'of kind', '/'.join(sorted((ks or frozenset(['?'])) - {b})), 'is returned as it is for', sp.t)
    if x is mk('call', sp.t, v):
        if fact(st, OPT['basiccast']) is True:
            return True
        return c.no('cast', v, 'is converted to', sp.t, 'without basiccast')
    return c.no('basic', x, 'is given for', sp.t, 'loaded from', v)


def m_literal(c, st, sp, v, x):
    if x is not v and x not in sp.a[0]:
        return c.no('literal', 'loading', v, 'into a Literal gives', x)
    for a in sp.a[0]:
        if x is a and v is a:
            return True
        for q in (mk('eq', a, v), mk('eq', v, a), mk('is', a, v), mk('is', v, a)):
            if fact(st, q) is True and (x is v or x is a):
                return True
    return c.no('literal', x, 'is returned for a Literal without checking', v, 'against the allowed values')


def m_enum(c, st, sp, v, x):
    t = sp.t
    if x.op == 'call' and x.args[0] is t and len(x.args) == 2:
        a = x.args[1]
        if a is v:
            return True
        if a.op == 'loaded' and a.args[0] is v and fact(st, mk('loads', v, a.args[1])):
            return True
        return c.no('enum', 'the Enum is made from', a, 'and not from', v)
    if x.op == 'rec' and x.args[0] is t:
        # a member found by comparing its value
        val = dict(x.args[1]).get('value')
        for a in (val,):
            for q in (mk('eq', a, v), mk('eq', v, a)):
                if fact(st, q) is True:
                    return True
    return c.no('enum', x, 'is given for an Enum loaded from', v)


def source(c, st, v):
    """the element sequence of a datum: ('star', S) or ('list', items) or None"""
    if v.op == 'ref':
        r = c.m.segments(st, v)
        if len(r) == 1 and isinstance(r[0][1], tuple):
            return r[0][1]
        return None
    if v.op == 'tuple':
        return v.args
    return 'star'


def card0(c, st, S):
    """is the number of elements known to be zero"""
    return c.m.range_of(st, ((mk('card', S), 1),))[1] == 0


def m_items(c, st, S, seg, item, pair=False, base=None):
    """every alternative of a summarised segment is one correctly loaded element"""
    e = mk('elem', S, 9)
    b = mk('bnd', S)
    good = True
    some = False
    for items, phi in alts_of(st, seg).items():
        s = st.copy()
        if not c.m.inst_phi(s, phi, S, 9):
            continue
        some = True
        items = tuple(subst(i, b, e) for i in items)
        if pair:
            if len(items) != 2:
                good = c.no('count', 'an entry of', S, 'gives %d values' % len(items))
                continue
            if not match(c, s, item[0], e, items[0]) or not match(c, s, item[1], mk('at', base, e), items[1]):
                good = False
            continue
        if len(items) != 1:
            good = c.no('count', 'an element of', S, 'gives %d elements of the result' % len(items))
            continue
        if not match(c, s, item, e, items[0]):
            good = False
    if not some:
        return c.no('count', 'no element of', S, 'reaches the result')
    return good


def m_seq(c, st, sp, v, x):
    kind, item = sp.a
    r = segs_of(c.m, st, x)
    if r is None or r[0] != kind:
        return c.no('container', 'loading', v, 'into', sp.t, 'gives', x if r is None else r[0])
    got = r[1]
    if kind in ('set', 'frozenset'):
        got = tuple(y.args[0] if y.op == 'ent' else y for y in got)
    src = source(c, st, v)
    if src is None:
        return c.no('container', 'elements of', v)
    if src == 'star':
        if not got:
            return card0(c, st, v) or c.no('count', 'elements of', v, 'are lost')
        if len(got) != 1 or got[0].op != 'starseg' or got[0].args[0] is not v:
            return c.no('count', 'the result is not one element for each element of', v)
        return m_items(c, st, v, got[0], item)
    return m_list(c, st, sp, src, got, lambda i: item, kind in ('set', 'frozenset'))


def m_list(c, st, sp, src, got, item, unordered=False):
    src = list(src)
    if unordered:
        got = list(got)
        for i, d in enumerate(src):
            for g in got:
                c2 = Ctx(c.m, c.S)
                if match(c2, st, item(i), d, g):
                    got.remove(g)
                    break
            else:
                if not any(match(Ctx(c.m, c.S), st, item(i), d, g) for g in got):
                    # equal loaded values collapse in a set
                    if any(fact(st, mk('eq', a, b)) for a in (mk('loaded', d, item(i).t),) for b in [mk('loaded', z, item(i).t) for z in src]):
                        continue
                    return c.no('count', 'nothing in the result for', d, *[y for w in c2.why for y in w[1:]])
        return not got or c.no('count', got[0], 'is not in the data')
    got = [g for g in got]
    if len(got) != len(src):
        return c.no('count', '%d elements from %d' % (len(got), len(src)))
    ok = True
    for i, (d, g) in enumerate(zip(src, got)):
        if not match(c, st, item(i), d, g):
            ok = False
    return ok


def m_fix(c, st, sp, v, x):
    items = sp.a[0]
    r = segs_of(c.m, st, x)
    if r is None or r[0] != 'tuple':
        return c.no('container', 'loading', v, 'into', sp.t, 'gives', x)
    src = source(c, st, v)
    if src is None:
        return c.no('container', 'elements of', v)
    if src == 'star':
        # positions are not known; each element has to be loaded with one of the types
        ok = True
        for g in r[1]:
            if g.op != 'starseg':
                if not any(match(Ctx(c.m, c.S), st, i, g.args[0], g) for i in items if g.op == 'loaded'):
                    ok = c.no('unloaded', g, 'in a fixed-size tuple')
                continue
            e = mk('elem', v, 9)
            for its, phi in alts_of(st, g).items():
                s = st.copy()
                if not c.m.inst_phi(s, phi, v, 9):
                    continue
                for y in its:
                    y = subst(y, mk('bnd', v), e)
                    ks = kinds(c, s, e)
                    for k in [None] if ks is None or not any(i.op == 'basic' for i in items) else sorted(ks):
                        s2 = s
                        if k is not None:
                            s2 = s.copy()
                            s2.kinds[e] = frozenset([k])
                        cs = [Ctx(c.m, c.S) for i in items]
                        if not any([match(cc, s2, i, e, y) for cc, i in zip(cs, items)]):
                            ok = False
                            c.why.extend(cs[0].why)
        return ok
    return m_list(c, st, sp, src[:len(items)], r[1], lambda i: items[i] if i < len(items) else Spec('unknown', sp.t))


def base_of(c, st, v):
    """the mapping behind a datum (an argparse.Namespace is its attribute dictionary)"""
    if v.op == 'ref':
        o = c.m.obj(st, v)
        if o.kind == 'inst':
            return o.map().get('#dict')
        return v
    ks = kinds(c, st, v)
    if ks == frozenset(['namespace']):
        return mk('rawattr', v, '__dict__')
    return v


def m_dict(c, st, sp, v, x):
    ks, vs = sp.a
    r = segs_of(c.m, st, x)
    if r is None or r[0] != 'dict':
        return c.no('container', 'loading', v, 'into', sp.t, 'gives', x)
    b = base_of(c, st, v)
    got = r[1]
    if b is not None and b.op == 'ref':
        src = c.m.obj(st, b).data
        src = [y for y in src]
        got = list(got)
        for d in src:
            if d.op == 'starseg':
                mine = [g for g in got if g.op == 'starseg' and g.args[0] is d.args[0]]
                if not mine and card0(c, st, d.args[0]):
                    continue
                if len(mine) != 1:
                    return c.no('count', 'entries', d.args[0], 'are lost')
                got.remove(mine[0])
                if not m_items(c, st, d.args[0], mine[0], (ks, vs), True, b):
                    return False
                continue
            hit = None
            whys = []
            for g in got:
                if g.op != 'ent':
                    continue
                cc = Ctx(c.m, c.S)
                if match(cc, st, ks, d.args[0], g.args[0]) and match(cc, st, vs, d.args[1], g.args[1]):
                    hit = g
                    break
                whys += cc.why
            if hit is None:
                # a later key may load to the same key
                if any(f.op == 'eq' and val and all(z.op in ('loaded', 'call', 'par', 'const') for z in f.args[:2])
                       for f, val in st.facts.items()):
                    return True
                c.why.extend(whys[:2])
                return c.no('count', 'no entry for', d.args[0])
            got.remove(hit)
        return not got or c.no('count', got[0], 'is not in the data')
    S = b
    if not got:
        return card0(c, st, S) or c.no('count', 'entries of', v, 'are lost')
    if len(got) != 1 or got[0].op != 'starseg' or got[0].args[0] is not S:
        return c.no('count', 'the result is not one entry for each entry of', v)
    return m_items(c, st, S, got[0], (ks, vs), True, S)


def m_union(c, st, sp, v, x):
    cs = []
    ks = kinds(c, st, v)
    if x is v and ks is not None and ks <= {BASIC.get(i.t, 'none' if i.op == 'none' else '?') for i in sp.a[0]}:
        return True
    for i in sp.a[0]:
        cc = Ctx(c.m, c.S)
        if match(cc, st, i, v, x):
            return True
        cs.append(cc)
    for cc in cs:
        c.why.extend(cc.why[:1])
    return False


DATES = {'datetime.date', 'datetime.time', 'datetime.datetime'}


def m_ctor(c, st, sp, v, x):
    if x.op != 'call':
        return c.no('constructor', x, 'is given for', sp.t)
    f, args = x.args[0], x.args[1:]
    t = sp.t
    if sp.op == 'date':
        ks = kinds(c, st, v)
        if f is glob(t.args[0] + '.fromisoformat') and args == (v,):
            return ks is None or ks <= {'str', 'strsub'} or c.no('dates', v, 'that is not text is parsed as ISO 8601')
        if f is t:
            if ks is not None and ks <= {'str', 'strsub'}:
                return c.no('dates', 'text is not parsed as ISO 8601 but given to', t)
            if args == (mk('splat', v),):
                return True
            src = source(c, st, v)
            if isinstance(src, tuple) and tuple(args) == tuple(src):
                return True
            if src == 'star' and not args and card0(c, st, v):
                return True
        return c.no('dates', t, 'is made from', x)
    if sp.op == 'delta':
        if f is t:
            kw = {a.args[0]: a.args[1] for a in args if a.op == 'kw'}
            pos = [a for a in args if a.op != 'kw']
            zero = const(0)
            if not pos and kw == {'seconds': v}:
                return True
            if pos == [zero, v] and not kw:
                return True
        return c.no('delta', t, 'is made as', x)
    if sp.op == 'pattern':
        if f is not glob('re.compile') or args != (v,):
            return c.no('pattern', t, 'is made as', x)
        ks = kinds(c, st, v)
        want = {glob('builtins.str'): {'str', 'strsub'}, glob('builtins.bytes'): {'bytes'}}.get(sp.a[0], {'str', 'strsub', 'bytes'})
        if ks is None or not ks <= want:
            return c.no('pattern', '/'.join(sorted(ks - want)), 'is accepted for', t)
        return True
    if f is t and args == (v,):
        return True
    return c.no('constructor', t, 'is made as', x)


# ------------------------------------------------------------------ records
def provided(c, st, rec, v):
    """what a mapping datum provides for a record: (python name -> value, fields F given, other keys given)"""
    b = base_of(c, st, v)
    named, ff, other = {}, False, []
    for d in c.m.obj(st, b).data:
        if d.op == 'ent':
            f = next((f for f in rec.named if f.ext is d.args[0] and f.loadable), None)
            if f is not None:
                named[f.name] = d.args[1]
            else:
                other.append(d.args[1])
        elif d.args[0] is F:
            ff = True
        elif not card0(c, st, d.args[0]):
            other.append(mk('at', b, mk('elem', d.args[0], 0)))
    return named, ff, other


def params_of(c, st, rec, x):
    """the constructor parameters of a loaded record: (entries) or None"""
    if x.op == 'call' and x.args[0] is rec.term:
        out = []
        for a in x.args[1:]:
            if a.op != 'kw':
                return None
            if a.args[0] == '**':
                if a.args[1].op != 'ents':
                    return None
                out.extend(a.args[1].args)
            else:
                out.append(mk('ent', const(a.args[0]), a.args[1]))
        return out
    r = segs_of(c.m, st, x)
    if rec.kind == 'typeddict' and r is not None and r[0] == 'dict':
        return [mk('ents*', y.args[0], frozenset(alts_of(st, y).items())) if y.op == 'starseg' else y for y in r[1]]
    return None


def m_rec(c, st, sp, v, x):
    rec = sp.a[0]
    ents = params_of(c, st, rec, x)
    if ents is None:
        return c.no('record', x, 'is given for', sp.t)
    b = base_of(c, st, v)
    if b is None or b.op != 'ref':
        return c.no('record', sp.t, 'is made from', v)
    named, ff, other = provided(c, st, rec, v)
    fl = {f.arg: f for f in rec.named}
    seen = set()
    seenf = False
    ok = True
    for e in ents:
        if e.op == 'ent':
            f = fl.get(e.args[0])
            if f is None:
                ok = c.no('record', 'unexpected argument', e.args[0])
                continue
            seen.add(f.name)
            pv = named.get(f.name)
            if pv is None:
                ok = c.no('record', 'field', f.name, 'is given', e.args[1], 'although the data does not provide it')
            elif not match(c, st, spec(c.S, f.ptype, getattr(c.S, 'recs', ())), pv, e.args[1]):
                ok = False
        elif e.op == 'ents*':
            if e.args[0] is not F:
                ok = c.no('record', 'arguments that are not fields:', e.args[0])
                continue
            if seenf:
                ok = c.no('record', 'fields are given twice')
            seenf = True
            el, bn = mk('elem', F, 9), mk('bnd', F)
            some = False
            T = rec.ftype
            for items, phi in e.args[1]:
                s = st.copy()
                if not c.m.inst_phi(s, phi, F, 9):
                    continue
                items = tuple(subst(i, bn, el) for i in items)
                some = True
                if len(items) != 2 or items[0] is not el:
                    ok = c.no('record', 'a field is lost or renamed')
                    continue
                if not match(c, s, Spec('opq', T), mk('at', b, el), items[1]):
                    ok = False
        else:
            ok = c.no('record', 'unknown arguments', e)
    for n in named:
        if n not in seen:
            ok = c.no('record', 'the value given for field', n, 'is not used')
    if ff and not seenf and not card0(c, st, F):
        ok = c.no('record', 'values given for fields are not used')
    return ok


# ------------------------------------------------------------------ dumping
def dmatch(c, st, v, x, recs, hide=None):
    """is x a legal dump of v"""
    if c.S.is_special(st, v):
        return x is mk('dumped', v) or c.no('undumped', v, 'is dumped as', x)
    if v.op == 'val' and v.args[0] in c.m.opaque:
        return x is mk('dumped', v) or c.no('undumped', v, 'is dumped as', x)
    if v.op in ('par', 'const', 'name') or (v.op in ('elem', 'bnd') and v.args[0] is F):
        return x is v or c.no('basic', v, 'is dumped as', x)
    if v.op == 'rec':
        return dmatch(c, st, dict(v.args[1])['value'], x, recs)
    if v.op == 'val':
        return d_val(c, st, v, x)
    if v.op == 'tuple':
        return d_items(c, st, v.args, x, recs)
    o = c.m.obj(st, v)
    if o.kind in ('list', 'set', 'frozenset'):
        return d_items(c, st, tuple(y.args[0] if y.op == 'ent' else y for y in o.data), x, recs)
    if o.kind == 'dict':
        return d_entries(c, st, [(y, None) for y in o.data], x, recs)
    r = recs.get(o.cls)
    if r is not None:
        return d_rec(c, st, r, v, x, recs)
    return c.no('dump', 'no rule for', v)


ISO = {'datetime.date': ('year', 'month', 'day'),
       'datetime.time': ('hour', 'minute', 'second', 'microsecond'),
       'datetime.datetime': ('year', 'month', 'day', 'hour', 'minute', 'second', 'microsecond')}


def meth(v, name):
    return mk('call', mk('bm', v, name))


def d_val(c, st, v, x):
    t = v.args[0]
    n = t.args[0]
    if n in ISO:
        iso = fact(st, OPT['isodates'])
        if x is meth(v, 'isoformat'):
            return iso is True or c.no('dates', 'ISO text without isodates')
        if x in (mk('call', glob('builtins.str'), v),):
            return c.no('dates', 'str() is not the ISO form of', v)
        r = segs_of(c.m, st, x)
        if r is None or r[0] != 'list' or r[1] != tuple(mk('attr', v, k) for k in ISO[n]):
            return c.no('dates', v, 'is dumped as', x)
        if iso is not False:
            return c.no('dates', v, 'is dumped as components with isodates')
        if n != 'datetime.date' and st.facts.get(mk('is', mk('attr', v, 'tzinfo'), NONE)) is not True:
            return c.no('dates', 'the timezone of', v, 'is dropped')
        return True
    if n == 'datetime.timedelta':
        # (total_seconds() is documented as the division)
        return x is meth(v, 'total_seconds') or show(x) == 'operator./(%s, datetime.timedelta(seconds=1))' % show(v) or c.no('delta', v, 'is dumped as', x)
    if n in ('re.Pattern', 'typing.Pattern'):
        return x is mk('attr', v, 'pattern') or c.no('pattern', v, 'is dumped as', x)
    if n == 'PlainObj':
        return c.no('unknown', 'a value of a type nobody can handle is dumped as', x)
    return x is mk('call', glob('builtins.str'), v) or c.no('text', v, 'is dumped as', x)


def d_star(c, st, src, seg, judge):
    """one judged alternative of seg for each alternative of the source segment"""
    S = src.args[0]
    e, b = mk('elem', S, 9), mk('bnd', S)
    good, some = True, False
    for want, _ in alts_of(st, src).items():
        want = tuple(subst(i, b, e) for i in want)
        for items, phi in alts_of(st, seg).items():
            s = st.copy()
            if not c.m.inst_phi(s, phi, S, 9):
                continue
            some = True
            if not judge(s, want, tuple(subst(i, b, e) for i in items)):
                good = False
    return good if some else c.no('count', 'no element of', S, 'reaches the dump')


def fresh(c, st, x, kind):
    o = c.m.obj(st, x) if x.op == 'ref' else None
    if o is None or o.kind != kind:
        return None
    if o.owner != 'new':
        return None
    return o


def d_items(c, st, src, x, recs):
    o = fresh(c, st, x, 'list')
    if o is None:
        return c.no('container', 'elements are dumped as', x, 'which is no new list')
    got = list(o.data)
    src = [y for y in src if not (y.op == 'starseg' and card0(c, st, y.args[0]) and not any(g.op == 'starseg' and g.args[0] is y.args[0] for g in got))]
    if len(got) != len(src):
        return c.no('count', '%d elements from %d' % (len(got), len(src)))
    ok = True
    for y, g in zip(src, got):
        if y.op == 'starseg':
            if g.op != 'starseg' or g.args[0] is not y.args[0]:
                ok = c.no('count', 'an element is lost or moved')
                continue

            def judge(s, want, items):
                if len(items) != 1:
                    return c.no('count', 'an element is dumped as %d elements' % len(items))
                return dmatch(c, s, want[0], items[0], recs)
            ok = d_star(c, st, y, g, judge) and ok
        elif g.op == 'starseg' or not dmatch(c, st, y, g, recs):
            ok = ok and g.op != 'starseg' or c.no('count', 'an element is lost or moved')
            ok = False
    return ok


def d_entries(c, st, src, x, recs, keys=None):
    """src: [(segment, field or None)]"""
    o = fresh(c, st, x, 'dict')
    if o is None:
        return c.no('container', 'entries are dumped as', x, 'which is no new dictionary')
    got = list(o.data)
    ok = True
    for y, f in src:
        if y.op == 'starseg':
            g = [g for g in got if g.op == 'starseg' and g.args[0] is y.args[0]]
            if not g and card0(c, st, y.args[0]):
                continue
            if len(g) != 1:
                ok = c.no('count', 'entries', y.args[0], 'are lost')
                continue
            got.remove(g[0])

            def judge(s, want, items):
                if len(items) != 2:
                    return c.no('count', 'an entry is dumped as %d values' % len(items))
                if f is not None:
                    if items[0] is not want[0]:
                        return c.no('names', 'field', want[0], 'is dumped as', items[0])
                elif not dmatch(c, s, want[0], items[0], recs):
                    return False
                return dmatch(c, s, want[1], items[1], recs)
            ok = d_star(c, st, y, g[0], judge) and ok
            continue
        hit = None
        whys = []
        for g in got:
            if g.op != 'ent':
                continue
            cc = Ctx(c.m, c.S)
            if f is not None:
                if g.args[0] is not f.ext:
                    continue
                hit = g
                if not dmatch(cc, st, y.args[1], g.args[1], recs):
                    ok = c.no(cc.why[0][0], *[w for _, w in cc.why[:1]])
                break
            if dmatch(cc, st, y.args[0], g.args[0], recs) and dmatch(cc, st, y.args[1], g.args[1], recs):
                hit = g
                break
            whys += cc.why
        if hit is not None:
            got.remove(hit)
            if f is not None and must_omit(c, st, f, y.args[1]):
                ok = c.no('shown', 'field', y.args[0], 'that may have its default value is dumped with hidedefault')
            continue
        if f is not None:
            if omitted(c, st, f, y.args[1]):
                continue
            ok = c.no('omitted', 'field', y.args[0], 'is not in the dump as', f.ext)
        else:
            c.why.extend(whys[:2])
            ok = c.no('count', 'no entry for', y.args[0])
    for g in got:
        ok = c.no('count', g, 'is not part of the value')
    return ok


def equal(st, a, b):
    for q in (mk('eq', a, b), mk('eq', b, a)):
        if q in st.facts:
            return st.facts[q]
    return None


def omitted(c, st, f, v):
    return f.default is not None and fact(st, OPT['hidedefault']) is True and equal(st, f.default, v) is True


def must_omit(c, st, f, v):
    return f.default is not None and fact(st, OPT['hidedefault']) is not False and equal(st, f.default, v) is not False


def d_rec(c, st, rec, v, x, recs):
    fo = c.m.obj(st, c.m.obj(st, v).map()['#fields'])
    named = {f.name: f for f in rec.named}
    src = []
    for y in fo.data:
        f = named.get(y.args[0]) if y.op == 'ent' else F
        if y.op == 'ent' and rec.variant == 'classvar':
            continue
        src.append((y, f))
    ok = d_entries(c, st, src, x, recs)
    if not ok:
        return False
    return True
