"""The rules: what each property demands of every analysed path."""
import re
import types
import typing

from .terms import *
from . import world
from .world import DATA, FORMS, form
from .scen import EX
from .types_ import F, P, X, E, PX, MK
from . import types_ as TY
from .machine import AnalysisError
from .spec import dmatch, spec, Spec, Ctx, match, OPT, BASIC, provided, card0, base_of, NT, source
from .runs import Loads, Dumps, Customs, INNER, Run, V, CustomDumps, OUTER
from .view import canon, segs, alts, describe, exc_info

ASSUME = [
    'CPython 3.12 bytecode of the sources under /repo/typedload, compiled with the standard compiler, means what the interpreter of tl/ says',
    'models of builtins and of the standard library calls the code makes (tl/models.py, tl/methods.py) are faithful',
    'the value groups of tl/world.py stand for all plain data: members of one group are treated alike by every operation the code applies',
    'types of elements and fields are opaque: loading them either succeeds with an unknown value or raises a TypedloadException',
    'custom handlers, constructors and converters supplied by the user do not modify the loader, the data or the types',
]
ABOUT = {}
TECHNIQUE = {}
NOTES = {}
RULES = {}


def rule(prop, about):
    def deco(f):
        RULES[prop] = f
        ABOUT[prop] = about
        return f
    return deco


# ------------------------------------------------------------------ helpers
def origin(a):
    o = a.get('#origin')
    return cval(o) if o is not None and o.op == 'const' else 'unknown origin'


def fn_of(text):
    """origin text without the line number"""
    return text.rsplit(' (', 1)[0]


def group(name):
    """name of a run without the details of the datum"""
    return name.split('/')[0]


def lib(LL):
    S = LL.S
    return {n: S.glob(EX, n) for n in ('TypedloadException', 'TypedloadValueError', 'TypedloadTypeError', 'TypedloadAttributeError')}


def is_lib(m, st, cls, base):
    return m.subclass(st, cls, base)


def nested_fail(st, S=None):
    """a datum failed to load into an opaque type on this path"""
    return any(k.op == 'loads' and v is False for k, v in st.facts.items()) or any(e[0] == 'fail' for e in st.log)


def call_fail(st):
    """a constructor or conversion raised on this path"""
    return any(k.op == 'fails' and v is True for k, v in st.facts.items())


def truth(st, name):
    return st.facts.get(OPT[name])


def all_loads(c, LL, thorough=None):
    """every run of load() on a loader whose options are unknown"""
    for g in (LL.opaque(), LL.wrong(), LL.concrete(), LL.shaped(), LL.compound()):
        for r in g:
            if c.run(r):
                yield r


def site(LL, r):
    return 'load of %s' % r.name


# ------------------------------------------------------------------ C01
@rule('C01', 'Abstract interpretation of Loader.load for every supported annotation form on every kind of datum, with the loader options '
             'unknown. Rule: the class of every exception that leaves load() is known to be a subclass of TypedloadException. Each obligation is '
             'one exceptional path; the reported construct is the statement the exception comes from.')
def c01(c):
    LL = Loads(c.prog, typed=True)
    base = lib(LL)['TypedloadException']
    for r in all_loads(c, LL):
        for o in r.raises():
            cls, a = exc_info(LL.S.m, o)
            c.ob('exception class')
            if is_lib(LL.S.m, o, cls, base) is not True:
                org = origin(a)
                cause = fn_of(org)
                h = a.get('#context')
                if h is not None and cls is glob('builtins.AssertionError'):
                    org = cval(h.args[1])
                    cause = 'wrapping %s, %s' % (show(h.args[0]), fn_of(org))
                c.fail('foreign exception', group(r.name), '%s %s' % (show(cls), cause), org, describe(LL.S.m, o), r.name)




# ------------------------------------------------------------------ unions
UNIONS = ('union', 'union_', 'union3', 'optional', 'optional_', 'union_basic', 'union_mixed', 'union_basics', 'tagged', 'tagged3')


def members(sp):
    return sp.a[0]


def accepts(m, st, sub, v):
    """did / would the member accept the value on this path: True, False or None (not known)"""
    if sub.op == 'opq':
        return st.facts.get(mk('loads', v, sub.t))
    ks = m.kinds(st, v)
    if sub.op == 'any':
        return True
    if sub.op == 'union':
        ks = m.kinds(st, v)
        if ks is not None and ks <= {BASIC.get(s.t, 'none' if s.op == 'none' else '?') for s in members(sub)}:
            return True
        xs = [accepts(m, st, s, v) for s in members(sub)]
        return True if True in xs else None if None in xs else False
    if sub.op == 'none':
        return True if v is NONE or ks == frozenset(['none']) else False if ks is not None and 'none' not in ks else None
    if sub.op == 'basic':
        b = BASIC[sub.t]
        if ks == frozenset([b]):
            return True
        if ks is None or b in ks:
            return None
        bc = truth(st, 'basiccast')
        if bc is False:
            return False
        t = mk('call', sub.t, v)
        fs = [x for k, x in st.facts.items() if k.op == 'fails' and k.args[0] is t]
        if True in fs:
            return False
        if bc is True and (fs or b in ('str', 'bool') or (b == 'int' and ks <= {'bool'})):
            return True
        return None
    return None


def union_runs(c, LL):
    for g in (LL.opaque(UNIONS), LL.concrete(UNIONS, (2,))):
        for r in g:
            if r.sp.op == 'union' and c.run(r):
                yield LL, r
    # members of every other kind
    for n in INNER:
        if n not in ('none', 'int', 'str', 'unknown') and not n.startswith(('union', 'optional')):
            CU = Customs(c.prog, n, True)
            for r in CU.runs():
                if c.run(r):
                    yield CU, r


@rule('C02', 'Abstract interpretation of load() on union annotations. Rule: on every path that ends with an error, no member of the union has '
             'accepted the value, every member has been tried, and the error holds as many sub-errors as there are members. With conflict '
             'debugging the error may instead mean that at least two members accepted the value.')
def c02(c):
    for LL, r in union_runs(c, Loads(c.prog)):
        m = LL.S.m
        base = lib(LL)['TypedloadException']
        g = group(r.name)
        for o in r.returns():
            c.ob('accepted by a member')
            if not match(Ctx(m, LL.S), o, r.sp, r.v, o.outcome[1]):
                c.fail('no member', g, 'the result is not what one of the members gives: %s' % show(canon(m, o, o.outcome[1])),
                       site(LL, r), describe(m, o), r.name)
        for o in r.raises():
            cls, a = exc_info(m, o)
            org = origin(a)
            c.ob('every member tried')
            if is_lib(m, o, cls, base) is not True:
                c.fail('stopped', g, 'the load ends with %s, %s' % (show(cls), cause_of(a)), org, describe(m, o), r.name)
                continue
            acc = [accepts(m, o, s, r.v) for s in members(r.sp)]
            # with conflict debugging, two members that accept the value are an error too
            can = acc.count(True) + sum(1 for s, y in zip(members(r.sp), acc) if y is None and s.op == 'basic')
            if truth(o, 'uniondebugconflict') is True and True in acc and can >= 2:
                continue
            for s, x in zip(members(r.sp), acc):
                if x is True:
                    c.fail('accepted', g, 'the load fails although %s accepts the value' % show(s.t), org, describe(m, o), r.name)
                elif x is None and s.op == 'opq':
                    c.fail('not tried', g, 'the load fails without trying %s' % show(s.t), org, describe(m, o), r.name)
            c.ob('one sub-error per member')
            ex = segs(m, o, a.get('exceptions', NONE))
            n = len(ex[1]) if ex is not None and not any(x.op in ('starseg', 'unkseg') for x in ex[1]) else -1
            if n != len(members(r.sp)):
                c.fail('sub-errors', g, 'the error of %d failed members has %s sub-errors' % (len(members(r.sp)), n if n >= 0 else 'unknown'),
                       org, describe(m, o), r.name)
                continue
            ts = [m.obj(o, x).map().get('type_') if x.op == 'ref' and m.obj(o, x).kind == 'inst' else None for x in ex[1]]
            want = {s.t for s in members(r.sp)}
            if all(t is not None and t is not NONE for t in ts) and set(ts) != want:
                c.fail('sub-errors', g, 'the sub-errors are about %s' % ', '.join(sorted(show(t) for t in ts)), org, describe(m, o), r.name)


def cause_of(a):
    h = a.get('#context')
    t = fn_of(origin(a))
    return t if h is None else 'wrapping %s, %s' % (show(h.args[0]), fn_of(cval(h.args[1])))


TAGS = {'Taga': 'a', 'Tagb': 'b', 'Tagc': 'c'}


def tag_matches(st, sub, v):
    """does the literal tag of the data select this member"""
    l = TAGS.get(sub.t.args[0]) if sub.t.op == 'form' else None
    if l is None:
        return False
    for k, x in st.facts.items():
        if k.op == 'eq' and x is True and const(l) in k.args:
            return True
    return False


@rule('C03', 'Abstract interpretation of load() on union annotations. Rules on every successful path: a datum whose exact type is a basic member is '
             'the result itself; a result of a member that is not basic means that every such member declared before it has been tried and '
             'failed, unless the literal tag of the data equals the tag of that member; a result converted to a basic type means that all members '
             'that are not basic failed; with conflict debugging on, no other member accepted the value.')
def c03(c):
    for LL, r in union_runs(c, Loads(c.prog)):
        m = LL.S.m
        g = group(r.name)
        subs = members(r.sp)
        nonb = [s for s in subs if s.op not in ('basic', 'none')]
        for o in r.returns():
            x = o.outcome[1]
            ks = m.kinds(o, r.v)
            c.ob('preference')

            def bad(rule, text):
                c.fail(rule, g, text, site(LL, r), describe(m, o), r.name)
            exact = ks is not None and ks <= {BASIC.get(s.t, 'none' if s.op == 'none' else '?') for s in subs}
            if exact:
                if x is not r.v and not (x is NONE and ks == frozenset(['none'])):
                    bad('exact', 'a value of kind %s is not returned unchanged but as %s' % ('/'.join(sorted(ks)), show(canon(m, o, x))))
                continue
            who = next((s for s in subs if match(Ctx(m, LL.S), o, s, r.v, x)), None)
            if who is None:
                continue
            if truth(o, 'uniondebugconflict') is True:
                for s in subs:
                    a = accepts(m, o, s, r.v)
                    if s is not who and (a is True or (a is None and s.op == 'opq')):
                        bad('conflict', 'the value is loaded as %s although %s %s' % (
                            show(who.t), show(s.t), 'accepts it too' if a else 'was not tried'))
                continue
            if who in nonb:
                if tag_matches(o, who, r.v):
                    continue
                for s in nonb[:nonb.index(who)]:
                    if accepts(m, o, s, r.v) is not False:
                        bad('order', '%s is used before %s has been tried' % (show(who.t), show(s.t)))
                for s in nonb:
                    if tag_matches(o, s, r.v) and accepts(m, o, s, r.v) is True:
                        bad('order', '%s is used although %s with the matching tag accepts the value' % (show(who.t), show(s.t)))
            else:
                for s in nonb:
                    if accepts(m, o, s, r.v) is not False:
                        bad('order', 'the value is converted to %s before %s has been tried' % (show(who.t), show(s.t)))
        for o in r.raises():
            ks = m.kinds(o, r.v)
            c.ob('exact basic members')
            if ks is not None and ks <= {BASIC.get(s.t, 'none' if s.op == 'none' else '?') for s in subs}:
                c.fail('exact', g, 'a value whose exact type %s is a member is rejected' % '/'.join(sorted(ks)), origin(exc_info(m, o)[1]), describe(m, o), r.name)
            if truth(o, 'uniondebugconflict') is not True and any(accepts(m, o, s, r.v) is True for s in subs):
                c.fail('conflict', g, 'conflicts are reported without conflict debugging', origin(exc_info(m, o)[1]), describe(m, o), r.name)


# ------------------------------------------------------------------ C04, C07
STRINGS = ('dataclass', 'namedtuple', 'typeddict')       # with string annotations, on a loader with pep563


def mismatches(c, LL, rules=None, skip=(), runs=None):
    m = LL.S.m
    for r in runs or all_loads(c, LL):
        for o in r.returns():
            c.ob('result of %s' % r.sp.op)
            x = Ctx(m, LL.S)
            if match(x, o, r.sp, r.v, o.outcome[1]):
                continue
            for ru, text in x.why:
                if (rules is None or ru in rules) and ru not in skip:
                    c.fail(ru, group(r.name), text, site(LL, r), describe(m, o), r.name)
            if not x.why:
                c.fail('result', group(r.name), show(canon(m, o, o.outcome[1])), site(LL, r), describe(m, o), r.name)


@rule('C04', 'Abstract interpretation of load() for every annotation form. Every successful result is compared, position by position, with what '
             'the annotation means: one loaded element per element of the data, made from the datum at that position with the declared type and '
             'only on paths where that load succeeded; basic values only with exactly the declared kind or converted by the declared type; '
             'None, Literal, Enum and Pattern only after the check they require; object fields only from the datum under their own name.')
def c04(c):
    mismatches(c, Loads(c.prog, typed=True))
    # annotations that are strings, with pep563
    LL = Loads(c.prog, nested=False, strings=True)
    mismatches(c, LL, runs=(r for r in LL.shaped(STRINGS, nss=(False,)) if c.run(r)))


@rule('C07', 'Abstract interpretation of load() for every form that contains basic types. Rules: a basic value in a result either is the datum '
             'and then its kind is exactly the declared one, or is the declared type called on the datum and then basiccast is on; on paths with '
             'basiccast off a refused basic value is a ValueError.')
def c07(c):
    LL = Loads(c.prog, typed=True)
    m = LL.S.m
    ve = lib(LL)['TypedloadValueError']
    names = [n for n, s in LL.specs.items() if has_basic(s)]
    for g in (LL.opaque(names), LL.concrete(names), LL.shaped([r.kind + ':' + r.variant for r in LL.recs if r.ptype in BASIC])):
        for r in g:
            if not c.run(r):
                continue
            for o in r.returns():
                c.ob('basic values')
                x = Ctx(m, LL.S)
                if not match(x, o, r.sp, r.v, o.outcome[1]):
                    for ru, text in x.why:
                        if ru in ('basic', 'cast'):
                            c.fail(ru, group(r.name), text, site(LL, r), describe(m, o), r.name)
            for o in r.raises():
                if truth(o, 'basiccast') is False and refused(m, o, r):
                    c.ob('refusals')
                    cls, a = exc_info(m, o)
                    if is_lib(m, o, cls, ve) is not True:
                        c.fail('refusal', group(r.name), 'a refused basic value gives %s' % show(cls), origin(a), describe(m, o), r.name)
                needless(c, m, r, o)


SCALAR = frozenset(['str', 'int', 'float', 'bool'])


def needless(c, m, r, o):
    """a basic value of exactly the declared type is never refused; with basiccast only the type itself refuses the others"""
    a = exc_info(m, o)[1]
    d, t = a.get('value'), a.get('type_')
    if t not in BASIC or not isinstance(d, Term) or not m.is_data(d):
        return
    ks = m.kinds(o, d)
    c.ob('refusals are called for')
    if ks and BASIC[t] in ks:
        c.fail('refused', group(r.name), 'a value of exactly the type %s is refused: %s' % (BASIC[t], cause_of(a)), origin(a), describe(m, o), r.name)
    elif ks and ks & SCALAR and truth(o, 'basiccast') is not False and not any(k.op == 'fails' and v and k.args[0].op == 'call' and d in k.args[0].args for k, v in o.facts.items()):
        c.fail('refused', group(r.name), 'a value is refused without being converted to %s: %s' % (BASIC[t], cause_of(a)), origin(a), describe(m, o), r.name)


def has_basic(s):
    if s.op == 'basic':
        return True
    return any(has_basic(x) for a in s.a for x in (a if isinstance(a, list) else [a]) if isinstance(x, Spec))


def refused(m, st, r):
    """the run fails because a basic value was refused"""
    if r.sp.op == 'basic':
        return True
    if nested_fail(st) or call_fail(st):
        return False
    cls, a = exc_info(m, st)
    t = a.get('type_')
    return t in BASIC


# ------------------------------------------------------------------ C05, C06
TUPLES = ('tuple', 'tuple_', 'tuple1', 'tuple3', 'tuple_int', 'tuple_basic', 'tuple_same', 'tuple_none', 'tuple_fb')


def lo(m, st, S):
    return m.range_of(st, ((mk('card', S), 1),))


class Facts:
    """what a path knows about the relation between a mapping datum and a record type"""

    def __init__(self, m, S, st, r):
        c = Ctx(m, S)
        self.S = S
        self.named, self.ff, self.other = provided(c, st, r.rec, r.v)
        self.gone = [f.name for f in r.rec.named if f.required and f.name not in self.named]
        if not self.ff and not card0(c, st, F):
            self.gone.append(F)
        # certainly missing / certainly unused
        self.missing = bool([n for n in self.gone if n is not F]) or (F in self.gone and lo(m, st, F)[0] >= 1)
        self.extra = False
        for d in m.obj(st, base_of(c, st, r.v)).data:
            if d.op == 'ent':
                if not any(f.ext is d.args[0] and f.loadable for f in r.rec.named):
                    self.extra = True
            elif d.args[0] is not F and lo(m, st, d.args[0])[0] >= 1:
                self.extra = True
        used = set(self.named.values())
        self.unused = [k.args[0] for k in st.facts if k.op == 'loads' and k.args[0] not in used and not is_at(k.args[0], F)]
        self.nested = any(k.op in ('loads', 'fails') and (k.op == 'fails') == v and k.args[0] not in self.unused for k, v in st.facts.items())

    def refusal(self, m, st, r):
        """a basic field is refused"""
        for f in r.rec.named:
            if f.name in self.named and (f.ptype in BASIC or r.rec.typed):
                if accepts(m, st, spec(self.S, f.ptype, ()), self.named[f.name]) is not True:
                    return True
        return False


def is_at(t, S):
    return t.op == 'at' and t.args[1].op in ('elem', 'bnd') and t.args[1].args[0] is S


def record_runs(c, LL, names=None, shapes=None):
    for r in LL.shaped(names, shapes):
        if 'unknown' not in r.rec.variant and c.run(r):
            yield r


def tuple_runs(c, LL):
    for r in LL.concrete(TUPLES):
        if c.run(r):
            yield r


@rule('C05', 'Abstract interpretation of load() on every record type, dictionaries and Namespaces that provide its fields, an unknown key, or any number '
             'of unknown keys, and on tuples of 0 to 3 elements and of any length. Rules: a path with failonextra on that returns has proved that there '
             'is no unused key or element; a path with failonextra off on which no field is missing and no used datum was refused returns; '
             'unused data is never loaded.')
def c05(c):
    LL = Loads(c.prog, typed=True)
    m = LL.S.m
    for r in record_runs(c, LL):
        g = group(r.name)
        for o in r.returns():
            f = Facts(m, LL.S, o, r)
            c.ob('unused keys are refused')
            if f.other and truth(o, 'failonextra') is not False:
                c.fail('accepted', g, 'data with an unused key is accepted with failonextra (%s)' % r.shape, site(LL, r), describe(m, o), r.name)
            if f.unused:
                c.fail('unused', g, 'a value no field uses is loaded', site(LL, r), describe(m, o), r.name)
        for o in r.raises():
            f = Facts(m, LL.S, o, r)
            if not f.other or truth(o, 'failonextra') is True:
                continue
            c.ob('unused keys are ignored')
            if f.unused:
                c.fail('unused', g, 'a value no field uses is loaded', site(LL, r), describe(m, o), r.name)
            if f.gone or f.nested or f.refusal(m, o, r) or (r.ns and truth(o, 'dictequivalence') is not True):
                continue
            cls, a = exc_info(m, o)
            c.fail('rejected', g, 'data with an unused key is rejected without failonextra: %s' % cause_of(a), origin(a), describe(m, o), r.name)
    tuple_lengths(c, LL, True)


def tuple_lengths(c, LL, extra):
    m = LL.S.m
    for r in LL.opaque(TUPLES):
        n = len(r.sp.a[0])
        if not c.run(r):
            continue
        for o in r.returns():
            a, b = lo(m, o, r.v)
            if extra:
                c.ob('extra elements')
                if truth(o, 'failonextra') is not False and b > n:
                    c.fail('accepted', group(r.name), 'more elements than types are accepted with failonextra', site(LL, r), describe(m, o), r.name)
            else:
                c.ob('missing elements')
                if a < n:
                    c.fail('accepted', group(r.name), 'fewer elements than types are accepted', site(LL, r), describe(m, o), r.name)
    for r in tuple_runs(c, LL):
        n, k = len(r.sp.a[0]), r.shape
        for o in r.returns():
            if extra:
                c.ob('extra elements')
                if k > n and truth(o, 'failonextra') is not False:
                    c.fail('accepted', group(r.name), '%d elements for %d types are accepted with failonextra' % (k, n), site(LL, r), describe(m, o), r.name)
            else:
                c.ob('missing elements')
                if k < n:
                    c.fail('accepted', group(r.name), '%d elements for %d types are accepted' % (k, n), site(LL, r), describe(m, o), r.name)
        for o in r.raises():
            if k < n or (k > n and truth(o, 'failonextra') is not False):
                continue
            if extra and k == n:
                continue
            c.ob('elements ignored' if extra else 'elements sufficient')
            acc = [accepts(m, o, s, mk('par', 'v%d' % i)) for i, s in enumerate(r.sp.a[0])]
            if False not in acc and not (None in acc and any(s.op == 'basic' for s in r.sp.a[0])):
                cls, a = exc_info(m, o)
                c.fail('rejected', group(r.name), '%d elements for %d types are rejected: %s' % (k, n, cause_of(a)), origin(a), describe(m, o), r.name)


@rule('C06', 'Abstract interpretation of load() on every record type and every way its fields can be provided or missing, and on tuples. Rules: a path that '
             'returns has proved that every required field (all elements of a tuple) is present, and passes to the constructor exactly the fields '
             'the data provides; a path that raises has a missing required field, unused data and failonextra, or a refused datum as its cause.')
def c06(c):
    LL = Loads(c.prog, typed=True)
    required(c, LL, record_runs(c, LL))
    tuple_lengths(c, LL, False)
    LL = Loads(c.prog, nested=False, strings=True)
    required(c, LL, record_runs(c, LL, STRINGS))


def required(c, LL, runs):
    m = LL.S.m
    for r in runs:
        g = group(r.name)
        for o in r.returns():
            f = Facts(m, LL.S, o, r)
            c.ob('required fields present')
            if f.gone:
                c.fail('missing', g, 'the load succeeds without the required %s' % ', '.join(show(x) for x in f.gone), site(LL, r), describe(m, o), r.name)
                continue
            c.ob('fields given to the constructor')
            x = Ctx(m, LL.S)
            if not match(x, o, r.sp, r.v, o.outcome[1]):
                for ru, text in x.why:
                    if ru == 'record':
                        c.fail('fields', g, text, site(LL, r), describe(m, o), r.name)
        for o in r.raises():
            f = Facts(m, LL.S, o, r)
            c.ob('cause of a refusal')
            if f.gone or f.nested or f.refusal(m, o, r) or (r.ns and truth(o, 'dictequivalence') is not True):
                continue
            if f.other and truth(o, 'failonextra') is not False:
                continue
            if f.other:
                continue        # decided by C05
            cls, a = exc_info(m, o)
            c.fail('rejected', g, 'data that provides every required field is rejected: %s' % cause_of(a), origin(a), describe(m, o), r.name)


# ------------------------------------------------------------------ C11
def trace_items(m, st, t):
    """the items of a trace: [(value, type, annotation kind or None, annotation value)] or None"""
    r = segs(m, st, t)
    if r is None:
        return None
    out = []
    for x in r[1]:
        if x.op != 'nt' or len(x.args) != 4:
            return None
        v, t, a = x.args[1:]
        if a is NONE:
            out.append((v, t, None, None))
        elif a.op == 'nt' and len(a.args) == 3 and a.args[1].op == 'enum':
            out.append((v, t, a.args[1].args[1], a.args[2]))
        else:
            return None
    return out


def sub_data(m, st, r):
    return inner_of(m, st, r.S, r.sp, r.v)


def inner_of(m, st, S, sp, v):
    """the data directly inside a datum: function datum -> list of allowed annotations, or None"""
    c = Ctx(m, S)

    def of(d):
        if sp.op in ('seq', 'fix'):
            src = source(c, st, v)
            if isinstance(src, tuple):
                return [('INDEX', const(i)) for i, x in enumerate(src) if x is d] or None
            if d.op == 'elem' and d.args[0] is v:
                return [('INDEX', const(0))] + [('INDEX', lin(0, [(mk('pos', v, n), 1)])) for n in range(4)]
            return None
        if sp.op == 'dict':
            b = base_of(c, st, v)
            if b is None:
                return None
            if b.op == 'ref':
                for x in m.obj(st, b).data:
                    if x.op == 'ent' and x.args[0] is d:
                        return [('KEY', d)]
                    if x.op == 'ent' and x.args[1] is d:
                        return [('VALUE', d), ('VALUE', x.args[0])]
            if d.op == 'elem' and d.args[0] in (b, v):
                return [('KEY', d)]
            if d.op == 'at' and d.args[0] in (b, v):
                return [('VALUE', d), ('VALUE', d.args[1])]
            return None
        if sp.op == 'rec':
            b = base_of(c, st, v)
            if b is None or b.op != 'ref':
                return None
            for x in m.obj(st, b).data:
                if x.op == 'ent' and x.args[1] is d:
                    return [('FIELD', x.args[0])] + [('FIELD', f.name) for f in sp.a[0].named if f.ext is x.args[0]]
            if d.op == 'at' and d.args[0] is b:
                return [('FIELD', d.args[1])]
            return None
        return None
    return of


def inside(m, st, S, sp, v):
    """the data inside a datum that are containers of which the contents are known, and what they are to be"""
    c = Ctx(m, S)
    if sp.op in ('seq', 'fix'):
        src = source(c, st, v)
        if isinstance(src, tuple):
            for i, x in enumerate(src):
                if sp.op == 'seq' or i < len(sp.a[0]):
                    yield x, sp.a[1] if sp.op == 'seq' else sp.a[0][i]
    if sp.op in ('dict', 'rec'):
        b = base_of(c, st, v)
        if b is None or b.op != 'ref':
            return
        for x in m.obj(st, b).data:
            if x.op != 'ent':
                continue
            if sp.op == 'dict':
                yield x.args[0], sp.a[0]
                yield x.args[1], sp.a[1]
            else:
                for f in sp.a[0].named:
                    if f.ext is x.args[0]:
                        yield x.args[1], spec(S, f.ptype, getattr(S, 'recs', ()))


def ways(m, st, S, sp, v, d, copy=None):
    """the annotations on the way from a datum to one inside it: set of tuples.  A new dictionary stands for the
    mapping it was made of, which may be any"""
    if copy is None:
        o = m.obj(st, d) if d.op == 'ref' else None
        copy = o is not None and o.kind == 'dict' and o.owner != 'data'
    out = set()
    if sp.op == 'newtype':
        return ways(m, st, S, sp.a[0], v, d, copy)
    if v is d or copy and sp.op in ('rec', 'dict'):
        out.add(())
    of = inner_of(m, st, S, sp, v)
    out |= {(x,) for x in of(d) or ()}
    for x, s in inside(m, st, S, sp, v):
        if s.op in ('seq', 'fix', 'dict', 'rec', 'newtype'):
            for w in ways(m, st, S, s, x, d, copy):
                if w:
                    out |= {(y,) + w for y in of(x) or ()}
                elif copy:
                    out |= {(y,) for y in of(x) or ()}
    return out


def check_trace(c, LL, r, o, x, first, allowed, text):
    """the trace of exception object x: (first item), annotated items as in one of the ways allowed, the inner items"""
    m = LL.S.m
    a = m.obj(o, x).map()
    user = '#user' in a
    g = group(r.name)
    org = origin(a)

    def bad(detail):
        c.fail('trace', g, detail, org, describe(m, o), r.name)
    c.ob('trace of an error')
    items = trace_items(m, o, a.get('trace', NONE))
    if items is None:
        bad('%s: the trace is not a list of items: %s' % (text, show(canon(m, o, a.get('trace', NONE)))))
        return
    inner = trace_items(m, o, mk('tuple', *m.inner))
    if user:
        if items[-len(inner):] != inner:
            bad('%s: what the inner levels recorded is lost or out of order' % text)
            return
        items = items[:-len(inner)]
    if first:
        if not items or items[0][0] is not r.v or items[0][1] is not r.t or items[0][2] is not None:
            bad('%s: the trace does not start with the datum and the type given to load()' % text)
            return
        items = items[1:]
    ann = [(k, y) for _, _, k, y in items if k is not None]
    if tuple(ann) in allowed:
        return
    bad('%s: annotated %s instead of %s' % (text, steps(m, o, ann), ' or '.join(sorted(steps(m, o, w) for w in allowed))))


def subspecs(sp):
    """what the parts of a type mean"""
    for i in sp.a:
        for x in i if isinstance(i, (list, tuple)) else [i]:
            if isinstance(x, Spec):
                yield x
                yield from subspecs(x)


def steps(m, o, w):
    return ', '.join('%s %s' % (k, show(canon(m, o, y))) for k, y in w) or 'nothing'


@rule('C11', 'Abstract interpretation of load() on containers, records and unions with nested loaders that fail and leave a trace of their own. Rules on '
             'each exceptional path: the trace starts with the datum given to load(); what the nested levels recorded follows unchanged at the '
             'end; in between there is exactly one annotation and it names the position of the failing datum (index, field, key or entry value, '
             'union member); an error of a nested datum is what load() raises, except for unions and enums, which list it.')
def c11(c):
    LL = Loads(c.prog)
    m = LL.S.m
    for r in all_loads(c, LL):
        for o in r.raises():
            of = sub_data(m, o, r)
            cls, a = exc_info(m, o)
            if '#origin' in a and 'trace' not in a:
                continue        # not an error of the library: decided by C01
            x = o.outcome[1]
            if r.sp.op == 'unknown':
                continue        # no type, no level: the error carries value and type only
            d = a.get('#user').args[0] if '#user' in a else a.get('value', NONE)
            if r.sp.op in ('union', 'enum'):
                check_trace(c, LL, r, o, x, True, {()}, 'error of a union' if r.sp.op == 'union' else 'error of an enum')
                ex = segs(m, o, a.get('exceptions', NONE))
                for y in ex[1] if ex else ():
                    if y.op != 'ref' or 'trace' not in m.obj(o, y).map():
                        continue
                    b = m.obj(o, y).map()
                    t = b['#user'].args[1] if '#user' in b else b.get('type_', NONE)
                    dy = b['#user'].args[0] if '#user' in b else b.get('value', NONE)
                    if r.sp.op == 'union':
                        w = {(('UNION', z.t),) + way for z in members(r.sp) if t is z.t or t not in [q.t for q in members(r.sp)]
                             for way in ways(m, o, LL.S, z, r.v, dy)}
                    else:
                        ts = [k.args[1] for k in o.facts if k.op == 'loads' and k.args[0] is r.v]
                        w = {(('UNION', t),)} if t in ts and '#user' in b else None
                    if w:
                        check_trace(c, LL, r, o, y, False, w, 'error of member %s' % show(t))
                continue
            if r.sp.op == 'fref':
                check_trace(c, LL, r, o, x, True, {()}, 'error')
                continue
            way = ways(m, o, LL.S, r.sp, r.v, d)
            of = lambda d: way - {()}
            failed = [k.args[0] for k, v in o.facts.items() if k.op == 'loads' and v is False]
            c.ob('nested errors are kept')
            inner = any(x.op in ('union', 'enum') for x in subspecs(r.sp))        # the error of a part that lists other errors
            if 'unhashable value' in cause_of(a):
                failed = []     # another entry than the one that failed first: its key cannot be in a dictionary
            if failed and '#user' not in a and (d in failed or not of(d)) and not inner:
                c.fail('replaced', group(r.name), 'the error of a nested datum is replaced by %s, %s' % (show(cls), cause_of(a)), origin(a), describe(m, o), r.name)
                continue
            check_trace(c, LL, r, o, x, True, way or {()}, 'error of a nested datum' if of(d) else 'error of the datum itself')


# ------------------------------------------------------------------ C12
@rule('C12', 'Abstract interpretation of load() followed by that of the __str__ of the error. Rules: value and type_ of an error made by a built-in '
             'handler are set, the value is the datum (or its dictionary form) or one inside it and the type is the requested one or a component of '
             'it; every entry of exceptions is an error of the library; building the message of the error does not raise.')
def c12(c):
    LL = Loads(c.prog)
    m = LL.S.m
    base = lib(LL)['TypedloadException']
    seen = set()
    for r in all_loads(c, LL):
        g = group(r.name)
        for o in r.raises():
            cls, a = exc_info(m, o)
            if is_lib(m, o, cls, base) is not True:
                continue        # decided by C01
            c.ob('value and type of an error')
            check_payload(c, LL, r, o, o.outcome[1])
            ex = segs(m, o, a.get('exceptions', NONE))
            subs = []
            for y in ex[1] if ex else ():
                ys = [z for items in alts(o, y) for z in items] if y.op == 'starseg' else [y]
                subs += ys
            c.ob('sub-errors', len(subs) or 1)
            for y in subs:
                yo = m.obj(o, y) if y.op == 'ref' else None
                if yo is None or yo.kind != 'inst' or is_lib(m, o, yo.cls, base) is not True:
                    c.fail('sub-error', g, 'a sub-error is %s' % (show(yo.cls) if yo is not None else show(y)), origin(a), describe(m, o), r.name)
                elif '#user' not in yo.map():
                    check_payload(c, LL, r, o, y)
            key = (g, origin(a), show(canon(m, o, a.get('trace', NONE)))[:2000], len(subs))
            if key in seen:
                continue
            seen.add(key)
            c.ob('message')
            try:
                outs = LL.S.run(o, LL.S.glob(EX, 'TypedloadException') and glob('builtins.str'), (o.outcome[1],), (), 60000)
            except Exception as e:
                c.errors['message of ' + r.name] = repr(e)[:200]
                continue
            for p in outs:
                if p.outcome[0] == 'raise' and not p.tainted:
                    k2, a2 = exc_info(m, p)
                    c.fail('message', g, 'the message of the error cannot be built: %s %s' % (show(k2), fn_of(origin(a2))), origin(a2), describe(m, p), r.name)


def components(t, out=None):
    out = set() if out is None else out
    if t in out or not isinstance(t, Term):
        return out
    out.add(t)
    if t.op == 'form':
        f = FORMS[t]
        for k in ('__args__', '__supertype__'):
            a = f.attrs.get(k)
            if a is not None:
                for x in a.args if a.op == 'tuple' else (a,):
                    components(x, out)
    return out


def check_payload(c, LL, r, o, x):
    m = LL.S.m
    a = m.obj(o, x).map()
    if '#user' in a:
        return
    v, t = a.get('value', NONE), a.get('type_', NONE)
    g = group(r.name)
    org = origin(a)
    ts = components(r.t)
    if r.rec is not None:
        ts |= {f.ptype for f in r.rec.named} | {r.rec.ftype}
        for f in r.rec.named:
            ts |= components(f.ptype)
    if t is NONE and NONE not in ts:
        c.fail('payload', g, 'type_ is not set by the error %s' % cause_of(a), org, describe(m, o), r.name)
    elif t.op not in ('form', 'glob', 'cls'):
        c.fail('payload', g, 'type_ is %s, %s' % (show(canon(m, o, t)), cause_of(a)), org, describe(m, o), r.name)
    ok = v is r.v or (v is NONE and 'none' in (m.kinds(o, r.v) or ('none',)) and not m.is_data(r.v)) or sub_data(m, o, r)(v) is not None
    if not ok and v.op == 'ref' and r.sp.op in ('rec', 'dict'):
        vo = m.obj(o, v)
        ok = vo is not None and vo.kind == 'dict'
    if not ok:
        ok = any(ways(m, o, LL.S, s, r.v, v) for s in (members(r.sp) if r.sp.op == 'union' else [r.sp]))
    if not ok:
        c.fail('payload', g, 'value is %s, %s' % (show(canon(m, o, v)), cause_of(a)), org, describe(m, o), r.name)


# ------------------------------------------------------------------ C13
MAPPINGS = frozenset(['dict', 'mapping'])
NOITER = frozenset(k for k, x in world.KINDS.items() if not x.iterable)


def causes(c, LL, r, o, a):
    """the error classes that the possible causes of a failure call for: set of 'V', 'T', 'A' (empty: not decided)"""
    m = LL.S.m
    sp = r.sp
    out = set()
    ks = m.kinds(o, r.v)
    if isinstance(r.shape, str) and r.shape.startswith('inner '):
        # only: the object inside lacks a field
        return {'V'} if r.shape == 'inner no_p' and not any(k in r.name for k in ('attrs', 'Union', 'Dict')) and not nested_fail(o) else set()
    subs = [x for i in sp.a for x in (i if isinstance(i, (list, tuple)) else [i]) if isinstance(x, Spec)]
    if any(x.op in ('seq', 'fix', 'dict', 'union', 'newtype') for x in subs):
        # causes inside are not looked into
        return {'T'} if sp.op in ('seq', 'fix') and r.shape is None and ks is not None and (ks == {'dict'} or ks <= NOITER) else set()
    h = a.get('#context')
    if h is not None:
        text = cval(h.args[1])
        conv = has_basic(sp) or (r.rec is not None and any(f.ptype in BASIC for f in r.rec.named))
        if conv and truth(o, 'basiccast') is True and re.match(r'(int|float|str|bool)\(', text):
            # a conversion failed
            k = [k for n, k in (('ValueError', 'V'), ('TypeError', 'T')) if m.subclass(o, h.args[0], glob('builtins.' + n)) is True]
            return set(k)
        for n, k in (('ValueError', 'V'), ('TypeError', 'T')):
            if m.subclass(o, h.args[0], glob('builtins.' + n)) is True and not text.startswith(('raised ', 'unhashable', 'an error of')):
                if call_fail(o) or sp.op in ('delta', 'pattern', 'date'):
                    out.add(k)
    if sp.op in ('none', 'literal', 'enum'):
        return {'V'}
    if sp.op == 'basic':
        return {'V'} if truth(o, 'basiccast') is False else out
    if sp.op == 'unknown':
        return {'T'}
    if sp.op == 'fref':
        return {'V'}
    if sp.op == 'union':
        acc = [accepts(m, o, s, r.v) for s in members(sp)]
        return {'T'} if acc.count(True) >= 2 else {'V'} if True not in acc and not (truth(o, 'uniondebugconflict') is not False and None in acc) else set()
    if sp.op in ('seq', 'fix'):
        items = sp.a[0] if sp.op == 'fix' else [x for x in sp.a if isinstance(x, Spec)]
        if r.shape is None and ks is not None and (ks == {'dict'} or ks <= NOITER or (sp.op == 'fix' and ks <= NOITER | {'iterator'})):
            # (an element of an unknown type is a TypeError as well)
            return {'T'}
        if any(x.op == 'unknown' for x in items):
            out.add('T')
        if any(x.op in ('none', 'literal') for x in items):
            out.add('V')
        if any(x.op == 'basic' for x in items) and truth(o, 'basiccast') is not True:
            out.add('V')
        if 'unhashable' in cause_of(a):
            out.add('T')
        if sp.op == 'fix':
            n = len(items)
            if r.shape is not None:
                if r.shape < n or (r.shape > n and truth(o, 'failonextra') is not False):
                    out.add('V')
            else:
                x, y = lo(m, o, r.v)
                if x < n or (y > n and truth(o, 'failonextra') is not False):
                    out.add('V')
                if ks is None or ks & (NOITER | {'iterator', 'dict'}):
                    out.add('T')
        return out
    if sp.op == 'dict':
        if ks is not None and not ks & (MAPPINGS | {'namespace'}) and r.shape is None:
            return {'A'}
        if 'namespace' in (ks or ()) and truth(o, 'dictequivalence') is False or (r.ns and truth(o, 'dictequivalence') is False):
            return {'A'}
        if 'unhashable' in cause_of(a):
            out.add('T')
        if any(x.op == 'basic' for x in sp.a) and truth(o, 'basiccast') is not True:
            out.add('V')
        return out
    if sp.op == 'rec':
        unk = {'T'} if any(f.ptype.op == 'form' and f.ptype.args[0] == 'Unknown' for f in r.rec.named) else set()
        if r.shape == 'none' or (r.ns and truth(o, 'dictequivalence') is False):
            return {'A'} | unk
        f = Facts(m, LL.S, o, r)
        if f.gone:
            out.add('T' if r.rec.kind == 'attrs' else 'V')
        if f.other and truth(o, 'failonextra') is not False:
            out.add('V')
        if f.refusal(m, o, r) and (truth(o, 'basiccast') is not True or any(x.ptype not in BASIC for x in r.rec.named)):
            out.add('V')
        return out | unk
    return out


def unsorted(m, o, r, a):
    """the builtin classes that an exception of a constructor or conversion may or may not have had on this path"""
    h = a.get('#context')
    if h is None or cval(h.args[1]).startswith(('raised ', 'unhashable', 'an error of')):
        return
    if call_fail(o) or r.sp.op in ('delta', 'pattern', 'date'):
        # (what is both may become either)
        known = {n: m.subclass(o, h.args[0], glob('builtins.' + n)) for n in ('ValueError', 'TypeError')}
        if True not in known.values():
            yield from (n for n, k in known.items() if k is None)


@rule('C13', 'Abstract interpretation of load() for every annotation form. For each exceptional path the possible causes are read off the relation '
             'between the datum and the annotation that the path conditions establish (no mapping, missing or unused field, wrong length, refused '
             'cast, constructor exception, unknown type, ...) and not off the code; rule: the class of the error is one that these causes call for.')
def c13(c):
    LL = Loads(c.prog, typed=True)
    m = LL.S.m
    L = lib(LL)
    names = {'V': 'TypedloadValueError', 'T': 'TypedloadTypeError', 'A': 'TypedloadAttributeError'}
    for r in all_loads(c, LL):
        for o in r.raises():
            cls, a = exc_info(m, o)
            if '#user' in a or is_lib(m, o, cls, L['TypedloadException']) is not True:
                continue
            want = causes(c, LL, r, o, a)
            for n in unsorted(m, o, r, a):
                c.ob('class of a foreign %s' % n)
                if is_lib(m, o, cls, L['Typedload' + n]) is not True:
                    c.fail('class', group(r.name), '%s also for a %s, %s' % (show(cls), n, cause_of(a)), origin(a), describe(m, o), r.name)
            if not want:
                c.ob('cause not decided')
                continue
            c.ob('cause %s of %s' % ('/'.join(names[x][9:] for x in sorted(want)), r.sp.op))
            if not any(is_lib(m, o, cls, L[names[x]]) is True for x in want):
                c.fail('class', group(r.name), '%s instead of %s, %s' % (show(cls), ' or '.join(names[x] for x in sorted(want)), cause_of(a)), origin(a), describe(m, o), r.name)


# ------------------------------------------------------------------ C14
@rule('C14', 'Abstract interpretation of load() for every annotation form and of dump() for every kind of value. Rules: each form has paths that succeed with '
             'what its own kind means, in all its spellings; no supported annotation reaches a handler placed after the built-in ones; with two custom '
             'handlers for one annotation in front, that annotation is loaded by the first of them directly and at every position inside a container, '
             'union or object, and never by another handler.')
def c14(c):
    LL = Loads(c.prog)
    recognised(c, LL, (LL.opaque(), LL.shaped(shapes=('full', 'p_only', 'empty', 'first'), nss=(False,))))
    LL = Loads(c.prog, nested=False, strings=True)
    recognised(c, LL, (LL.shaped(STRINGS, ('full',), (False,)),))
    for name in INNER:
        if not c.mine():
            continue
        CU = Customs(c.prog, name)
        m = CU.S.m
        for r in CU.runs():
            if not c.run(r, True):
                continue
            ok = 0
            for o in r.clean():
                c.ob('custom handler')
                for e in o.log:
                    if e[0] == 'second':
                        c.fail('order', r.name, 'the second of two matching handlers is used', site(CU, r), describe(m, o), r.name)
            for o in r.returns():
                x = Ctx(m, CU.S)
                if r.sp.op == 'union' and o.outcome[1] is r.v and exact_basic(m, o, r):
                    continue        # C03: an exact basic member is returned unchanged
                if match(x, o, r.sp, r.v, o.outcome[1]):
                    ok += 1
                    continue
                for ru, text in x.why[:2]:
                    c.fail('custom', r.name, text, site(CU, r), describe(m, o), r.name)
            if not ok:
                c.fail('custom', r.name, 'nothing is loaded by the custom handler', site(CU, r), (), r.name)
    c14_dump(c)


def recognised(c, LL, runs):
    m = LL.S.m
    for g in runs:
        for r in g:
            if not c.run(r):
                continue
            n = group(r.name)
            for o in r.clean():
                for e in o.log:
                    if e[0] == 'misrouted' and e[2] not in m.opaque and not unknown(e[2]):
                        c.fail('dispatch', n, '%s reaches a handler after the built-in ones' % show(e[2]), site(LL, r), describe(m, o), r.name)
            if r.error or r.sp.op in ('unknown', 'fref') or n == 'list_unknown' or (r.rec is not None and (r.rec.variant == 'unknown' or r.shape != 'full')):
                continue
            c.ob('recognised')
            if not any(match(Ctx(m, LL.S), o, r.sp, r.v, o.outcome[1]) for o in r.returns()):
                x = r.returns()
                c.fail('recognised', n, 'no datum loads into what %s means%s' % (show(r.t), ' (result %s)' % show(canon(m, x[0], x[0].outcome[1]))[:200] if x else ''), site(LL, r), (), r.name)


def c14_dump(c):
    for name in OUTER:
        if not c.mine():
            continue
        CU = CustomDumps(c.prog, name)
        m = CU.S.m
        recs = byterm(CU)
        for r in CU.runs():
            if not c.run(r, True):
                continue
            ok = 0
            for o in r.clean():
                c.ob('custom dump handler')
                for e in o.log:
                    if e[0] == 'second':
                        c.fail('order', r.name, 'the second of two matching handlers is used', 'dump of %s' % r.name, describe(m, o), r.name)
            for o in r.returns():
                x = Ctx(m, CU.S)
                if dmatch(x, o, r.v, o.outcome[1], recs):
                    ok += 1
                    continue
                for ru, text in x.why[:2]:
                    if ru == 'undumped':
                        c.fail('custom', r.name, text, 'dump of %s' % r.name, describe(m, o), r.name)
            if not ok:
                c.fail('custom', r.name, 'nothing is dumped by the custom handler', 'dump of %s' % r.name, (), r.name)


def exact_basic(m, o, r):
    ks = m.kinds(o, r.v)
    return ks is not None and ks <= {BASIC.get(s.t, 'none' if s.t is NT else '?') for s in members(r.sp)}


def unknown(t):
    return t.op == 'form' and (t.args[0].startswith('Unknown') or t.args[0] == 'List[Unknown]')


# ------------------------------------------------------------------ C15 - C18, C23: dumps
ALLOWED = {'dict': 'TypeError', 'dict with enum keys': 'TypeError', 'time': 'NotImplementedError', 'datetime': 'NotImplementedError'}


def dump_runs(c, DD, annotated=False, names=None):
    for r in DD.runs(names):
        if c.run(r):
            yield r
    if annotated:
        for r in DD.annotated():
            if c.run(r):
                yield r


def byterm(DD):
    return {r.term: r for r in DD.recs.values()}


def dump_check(c, DD, rules, runs, raises=True):
    m = DD.S.m
    recs = byterm(DD)
    for r in runs:
        g = r.name.split(' as ')[0]
        for o in r.returns():
            c.ob('dump of %s' % (r.rec.kind if r.rec else g))
            x = Ctx(m, DD.S)
            if dmatch(x, o, r.v, o.outcome[1], recs):
                continue
            for ru, text in x.why:
                if ru in rules:
                    c.fail(ru, g, text, 'dump of %s' % r.name, describe(m, o), r.name)
            if not x.why:
                c.fail('dump', g, show(canon(m, o, o.outcome[1])), 'dump of %s' % r.name, describe(m, o), r.name)
        if not raises:
            continue
        for o in r.raises():
            cls, a = exc_info(m, o)
            if g in ('unknown',):
                continue
            c.ob('refused dump of %s' % (r.rec.kind if r.rec else g))
            al = ALLOWED.get(g)
            if al is not None and cls is glob('builtins.' + al):
                if al == 'TypeError' and 'unhashable' in origin(a):
                    continue
                if al == 'NotImplementedError' and o.facts.get(mk('is', mk('attr', r.v, 'tzinfo'), NONE)) is False and truth(o, 'isodates') is False:
                    continue
            c.fail('raises', g, 'the dump ends with %s, %s' % (show(cls), fn_of(origin(a))), origin(a), describe(m, o), r.name)


@rule('C15', 'Abstract interpretation of load() and dump() on dataclasses and attrs classes with external names (one, the empty string, two '
             'swapped ones), on data with the external name, the python name, both or neither. Rules: a field takes its value exactly from the entry '
             'under its external name; the dump has it under that same name; a missing external name is a missing field.')
def c15(c):
    LL = Loads(c.prog)
    m = LL.S.m
    names = [r.kind + ':' + r.variant for r in LL.recs if r.kind in ('dataclass', 'attrs') and (r.variant.startswith('ext') or r.variant in ('swap', 'req', 'def', 'noinit_ext'))]
    for r in LL.shaped(names):
        if not c.run(r):
            continue
        g = group(r.name)
        for o in r.returns():
            f = Facts(m, LL.S, o, r)
            c.ob('names read')
            x = Ctx(m, LL.S)
            if not match(x, o, r.sp, r.v, o.outcome[1]):
                for ru, text in x.why:
                    c.fail(ru, g, text, site(LL, r), describe(m, o), r.name)
            if f.gone:
                c.fail('missing', g, 'the load succeeds although no entry has the external name of %s' % ', '.join(show(x) for x in f.gone), site(LL, r), describe(m, o), r.name)
            if f.other and truth(o, 'failonextra') is not False:
                c.fail('python name', g, 'an entry under a name that is no external name is accepted with failonextra', site(LL, r), describe(m, o), r.name)
        for o in r.raises():
            f = Facts(m, LL.S, o, r)
            c.ob('names refused')
            if f.gone or f.nested or (r.ns and truth(o, 'dictequivalence') is not True) or (f.other and truth(o, 'failonextra') is not False):
                continue
            cls, a = exc_info(m, o)
            c.fail('rejected', g, 'data with the external names is rejected: %s' % cause_of(a), origin(a), describe(m, o), r.name)
    DD = Dumps(c.prog)
    dump_check(c, DD, ('names', 'omitted', 'count'), dump_runs(c, DD, names=[n for n in DD.recs if n in names]), False)


@rule('C16', 'Abstract interpretation of dump() on instances of every object type with the options unknown. Rules on each path: a field is missing '
             'from the dump only if hidedefault is on and its value was found equal to its own default; a field that has a default is in the '
             'dump only if hidedefault is off or its value was found different from that default.')
def c16(c):
    DD = Dumps(c.prog)
    dump_check(c, DD, ('omitted', 'shown'), dump_runs(c, DD, names=[n for n, r in DD.recs.items() if r.variant[:3] != 'in:']), False)


@rule('C17', 'Abstract interpretation of dump() on every kind of value, collections of any number of elements, and nested ones, without and with a type '
             'annotation. Rules: the result is a new list or dictionary with exactly one dumped element or entry for each element, entry or field of '
             'the value, in order; basic values are returned only where their exact type is basic; no path ends with an error, except for keys that '
             'dump to something unhashable, timezones without isodates, and types nobody can handle.')
def c17(c):
    DD = Dumps(c.prog)
    dump_check(c, DD, ('undumped', 'basic', 'container', 'count', 'dump', 'unknown', 'names', 'omitted', 'text', 'dates', 'pattern', 'delta'), dump_runs(c, DD, True))


@rule('C18', 'Abstract interpretation of dump() on dates, times, datetimes and timedeltas and of load() into them. Rules: with isodates the dump is '
             'isoformat() of the value; otherwise it is the list of all its components in the order of the constructor, and never so for a value with a '
             'timezone; loading text calls fromisoformat of the declared class and loading anything else calls that class with the elements as '
             'arguments; timedeltas are dumped as total_seconds() and loaded from seconds.')
def c18(c):
    LL = Loads(c.prog)
    m = LL.S.m
    names = ('date', 'time', 'datetime', 'timedelta')
    for g in (LL.opaque(names), LL.concrete(names)):
        for r in g:
            if not c.run(r):
                continue
            good = set()
            for o in r.returns():
                c.ob('constructor of %s' % r.sp.t.args[0])
                x = Ctx(m, LL.S)
                if match(x, o, r.sp, r.v, o.outcome[1]):
                    good.add(o.outcome[1].args[0])
                    continue
                for ru, text in x.why:
                    c.fail(ru, group(r.name), text, site(LL, r), describe(m, o), r.name)
            if r.shape is None and not r.error:
                c.ob('ways to load')
                want = {r.t} | ({glob(r.t.args[0] + '.fromisoformat')} if r.sp.op == 'date' else set())
                for w in want - good:
                    c.fail('ways', group(r.name), 'nothing is loaded with %s' % show(w), site(LL, r), (), r.name)
            for o in r.raises():
                # only the constructor refuses data
                ks = m.kinds(o, r.v)
                cls, a = exc_info(m, o)
                c.ob('refusals')
                asis = frozenset(['str', 'strsub', 'list', 'tuple']) if r.sp.op == 'date' else frozenset(['int', 'float'])
                if ks is not None and ks <= asis and not any(k.op == 'fails' and t for k, t in o.facts.items()):
                    c.fail('refused', group(r.name), 'the value is refused without trying the constructor: %s' % cause_of(a), origin(a), describe(m, o), r.name)
    DD = Dumps(c.prog)
    dump_check(c, DD, ('dates', 'delta', 'dump', 'count'), dump_runs(c, DD, names=names))
    for r in DD.runs(names[:3]):
        if c.run(r) and not r.error:
            kinds = {'iso' if o.outcome[1].op == 'call' else 'list' for o in r.returns()}
            c.ob('ways to dump')
            for w in {'iso', 'list'} - kinds:
                c.fail('ways', r.name, 'no dump in the form: %s' % w, 'dump of %s' % r.name, (), r.name)


@rule('C23', 'Abstract interpretation of dump() on a value of every kind that load() produces, including every class the loader constructs from text. '
             'Rules: the dump does not fail and is in the form that loading the same type reads (text for types made from text and for patterns, the dumped value '
             'of an enum member, a list for collections, a dictionary with the external names for objects).')
def c23(c):
    DD = Dumps(c.prog)
    dump_check(c, DD, ('text', 'pattern', 'container', 'names', 'count', 'dump', 'undumped', 'omitted', 'dates', 'delta', 'basic'), dump_runs(c, DD))
    LL = Loads(c.prog)
    LS = LL.S
    sc = LS.attr(LS.st, LS.L, 'strconstructed')
    o = LS.m.obj(LS.st, sc) if sc.op == 'ref' else None
    types = [x.args[0] if x.op == 'ent' else x for x in o.data] if o is not None else list(sc.args) if sc.op in ('fset', 'tuple') else None
    if types is None:
        raise AnalysisError('anchor: strconstructed is no set')
    m = DD.S.m
    for t in types:
        v = mk('val', t, 'd')
        r = Run('constructed:%s' % show(t), DD.S, DD.S.st, v, None).go(DD.dump, (v,))
        if not c.run(r):
            continue
        c.ob('text types')
        for p in r.clean():
            if p.outcome[0] != 'return' or p.outcome[1] is not mk('call', glob('builtins.str'), v):
                k = show(canon(m, p, p.outcome[1])) if p.outcome[0] == 'return' else show(exc_info(m, p)[0])
                c.fail('text', show(t), 'a value that is loaded from text is dumped as %s' % k, 'dump of %s' % show(t), describe(m, p), r.name)


# ------------------------------------------------------------------ C28
TC = 'typedload.typechecks'
KIND_OF = {list: 'is_list', set: 'is_set', frozenset: 'is_frozenset', tuple: 'is_tuple', dict: 'is_dict', typing.Union: 'is_union',
           types.UnionType: 'is_union', typing.Literal: 'is_literal', re.Pattern: 'is_pattern', typing.NotRequired: 'is_notrequired'}
CHECKS = ('is_any', 'is_pattern', 'is_attrs', 'is_dataclass', 'is_dict', 'is_enum', 'is_forwardref', 'is_frozenset', 'is_list', 'is_literal', 'is_namedtuple',
          'is_nonetype', 'is_set', 'is_tuple', 'is_union', 'is_typeddict', 'is_newtype', 'is_optional', 'is_notrequired')


def annotations(LL):
    """(name, annotation, the checks that are to answer True)"""
    S = LL.S
    st = LL.forms
    for n, t in list(st.items()) + [('in:' + k, x[0]) for k, x in LL.nested.items()]:
        if t in LL.S.m.opaque or any(t is r.term for r in LL.outers):
            continue
        want = set()
        if t.op == 'form':
            f = FORMS[t].example
            k = KIND_OF.get(typing.get_origin(f) or type(f))
            if k:
                want.add(k)
            args = FORMS[t].attrs.get('__args__')
            if k == 'is_union' and args is not None and len(args.args) == 2 and NT in args.args:
                want.add('is_optional')
        if n == 'none':
            want.add('is_nonetype')
        if n == 'any':
            want.add('is_any')
        if n == 'pattern':
            want.add('is_pattern')
        if n.startswith('enum'):
            want.add('is_enum')
        if t.op == 'form' and isinstance(FORMS[t].example, typing.ForwardRef):
            want.add('is_forwardref')
        if n.startswith('newtype'):
            want.add('is_newtype')
        yield n, t, want
    for r in LL.recs + LL.outers:
        yield r.kind + ':' + r.variant, r.term, {'is_' + r.kind}
    g, T1, I, ST = S.generic, S.opaque('T1'), TY.glob('builtins.int'), TY.glob('builtins.str')
    yield 'None', NONE, {'is_nonetype'}
    yield 'a string', const('N'), set()
    yield 'bytes', TY.glob('builtins.bytes'), set()
    yield 'object', TY.glob('builtins.object'), set()
    yield 'NotRequired', g('NotRequired[int]', typing.NotRequired[int], I), {'is_notrequired'}
    yield 'optional first', g('Union[None,int]', typing.Union[None, int], NT, I), {'is_union', 'is_optional'}
    yield 'optional of two', g('Union[int,str,None]', typing.Union[int, str, None], I, ST, NT), {'is_union'}
    yield 'optional of two_', g('int|str|None', int | str | None, I, ST, NT), {'is_union'}
    yield 'empty tuple', g('Tuple[()]', typing.Tuple[()]), {'is_tuple'}
    yield 'literal none', g('Literal[None]', typing.Literal[None], NONE), {'is_literal'}
    yield 'sequence', g('Sequence[int]', typing.Sequence[int], I), set()
    yield 'mapping', g('Mapping[str,int]', typing.Mapping[str, int], ST, I), set()
    yield 'type', g('Type[int]', typing.Type[int], I), set()
    for b in (typing.List, typing.Set, typing.FrozenSet, typing.Tuple, typing.Dict, typing.Pattern):
        yield 'bare ' + b.__name__, form('bare ' + b.__name__, b), {KIND_OF[typing.get_origin(b)]}
    yield 'deque', g('Deque[int]', typing.Deque[int], I), set()


@rule('C28', 'Abstract interpretation of every function of typedload.typechecks on every annotation form. Rules: a check answers True for the annotations '
             'of its own kind in all their spellings, and False for all other ones, and never raises; uniontypes, literalvalues and notrequiredtype give '
             'the members of the annotation, and literalvalues refuses what is no Literal with ValueError.')
def c28(c):
    LL = Loads(c.prog)
    S, m = LL.S, LL.S.m
    anns = list(annotations(LL))
    for fn in CHECKS:
        f = S.glob(TC, fn)
        for n, t, want in anns:
            r = Run('%s(%s)' % (fn, n), S, S.st, t, t).go(f, (t,))
            if not c.run(r):
                continue
            c.ob('checks')
            for o in r.clean():
                x = o.outcome[1]
                if o.outcome[0] == 'raise':
                    c.fail('raises', fn, '%s for %s' % (show(exc_info(m, o)[0]), n), fn, describe(m, o), r.name)
                    continue
                for s, b in m.truth(o.copy(), x):
                    if b != (fn in want):
                        c.fail('answer', fn, '%s for %s' % (b, n), fn, describe(m, o), r.name)
    for fn, kind in (('uniontypes', 'is_union'), ('literalvalues', 'is_literal'), ('notrequiredtype', 'is_notrequired')):
        f = S.glob(TC, fn)
        for n, t, want in anns:
            if kind not in want and fn != 'literalvalues':
                continue
            r = Run('%s(%s)' % (fn, n), S, S.st, t, t).go(f, (t,))
            if not c.run(r):
                continue
            c.ob('members')
            args = FORMS[t].attrs['__args__'].args if kind in want else ()
            for o in r.clean():
                x = o.outcome[1]
                if kind not in want or o.outcome[0] == 'raise':
                    k = exc_info(m, o)[0] if o.outcome[0] == 'raise' else None
                    if kind in want or k is None or show(k) not in ('ValueError', '<ValueError>', 'builtins.ValueError'):
                        c.fail('members', fn, '%s for %s' % (show(k) if k is not None else show(canon(m, o, x)), n), fn, describe(m, o), r.name)
                    continue
                if fn == 'notrequiredtype':
                    ok = x is args[0]
                else:
                    q = segs(m, o, x)
                    ok = q is not None and (q[1] == tuple(args) if fn == 'uniontypes' else
                                            q[0] in ('set', 'frozenset') and {z.args[0] if z.op == 'ent' else z for z in q[1]} == set(args))
                if not ok:
                    c.fail('members', fn, '%s for %s' % (show(canon(m, o, x)), n), fn, describe(m, o), r.name)
