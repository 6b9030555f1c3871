"""Rules about the options of loaders and dumpers."""
import datetime
import ipaddress
import pathlib
import uuid

from .terms import *
from . import world
from .world import FORMS
from .machine import AnalysisError
from .scen import Scen, DL, DD, LOPTS, DOPTS
from .view import describe, canon
from .runs import Loads, Dumps, Run, V
from .rules import rule, group
from .effects import outcome_key

BASIC = frozenset(glob('builtins.' + n) for n in ('int', 'bool', 'float', 'str', 'NoneType'))
IPS = frozenset(world.classterm(getattr(ipaddress, n + v)) for n in ('IPv4', 'IPv6') for v in ('Address', 'Network', 'Interface'))
UUID = world.classterm(uuid.UUID)
PATHS = frozenset(world.classterm(c) for c in (pathlib.Path, pathlib.PosixPath, pathlib.WindowsPath))
# what the documentation says about an option that is not given
DEFAULTS = {
    'Loader': {'basictypes': BASIC, 'basiccast': TRUE, 'failonextra': FALSE, 'raiseconditionerrors': TRUE, 'frefs': 'empty dict', 'dictequivalence': TRUE,
               'mangle_key': const('name'), 'uniondebugconflict': FALSE, 'pep563': FALSE, 'strconstructed': IPS | {UUID, world.classterm(pathlib.Path)}},
    'Dumper': {'basictypes': BASIC, 'hidedefault': TRUE, 'isodates': FALSE, 'mangle_key': const('name'), 'raiseconditionerrors': TRUE,
               'strconstructed': IPS | {UUID} | PATHS},
}
MODULE = {'Loader': DL, 'Dumper': DD}


def content(m, st, v):
    """the value of an option, in a form that can be compared"""
    if v.op == 'fset':
        return frozenset(v.args[0])
    if v.op == 'ref':
        o = m.obj(st, v)
        if o.kind in ('set', 'frozenset'):
            return frozenset(x.args[0] if x.op == 'ent' else x for x in o.data)
        if o.kind == 'dict' and not o.data:
            return 'empty dict'
        return canon(m, st, v, ('none',))
    return v


def text(v):
    return ', '.join(sorted(show(x) for x in v)) if isinstance(v, frozenset) else show(v) if isinstance(v, Term) else str(v)


def get(S, st, obj, name):
    """[(state, value or None)] of an attribute"""
    out = []
    for o in S.run(st, glob('builtins.getattr'), (obj, const(name))):
        out.append((o, o.outcome[1] if o.outcome[0] == 'return' else None))
    return out


def values(S, name):
    """values an option can be given, of every sort"""
    m = S.m
    r = {'None': NONE, 'False': FALSE, 'True': TRUE, 'zero': const(0), 'empty string': const(''), 'some value': mk('dflt', 'option')}
    for kind in ('dict', 'list', 'set'):
        r['an empty ' + kind] = m.alloc(S.st, kind, None, (), owner='data', site='option:' + kind)
    r['a set'] = m.alloc(S.st, 'set', None, (mk('ent', glob('builtins.bytes'), NONE),), owner='data', site='option:a set')
    r['a list'] = m.alloc(S.st, 'list', None, (mk('tuple', mk('user', 'c'), mk('user', 'h')),), owner='data', site='option:a list')
    r['a dict'] = m.alloc(S.st, 'dict', None, (mk('ent', const('N'), glob('builtins.int')),), owner='data', site='option:a dict')
    S.keep['values'] = mk('tuple', *r.values())
    return r


def constructors(c):
    """what is given to the constructor is the value in force, and nothing else changes"""
    for cls, mod in MODULE.items():
        S = Scen(c.prog)
        S.st, L = S.one(S.st, S.glob(mod, cls), (), (), cls + '()')
        base = {}
        for name, want in DEFAULTS[cls].items():
            c.ob('defaults')
            got = [content(S.m, st, v) if v is not None else None for st, v in get(S, S.st, L, name)]
            base[name] = got
            if len(got) != 1 or got[0] != want:
                c.fail('default', '%s.%s' % (cls, name), 'the default is %s, and documented to be %s' % (text(got[0]), text(want)), '%s.__init__' % cls)
        for name in list(DEFAULTS[cls]) + ['handlers', 'unheardof']:
            S = Scen(c.prog)
            for label, val in values(S, name).items():
                for others in (False, True):
                    kw = [(name, val)]
                    if others:      # together with other options, given after and before it
                        o = [n for n in DEFAULTS[cls] if n != name]
                        kw = [(n, mk('dflt', 'other ' + n)) for n in o[:2]] + kw + [(n, mk('dflt', 'other ' + n)) for n in o[2:]]
                    c.ob('options given')
                    outs = S.run(S.st, S.glob(mod, cls), (), tuple(kw))
                    good = [o for o in outs if o.outcome[0] == 'return']
                    if any(o.tainted for o in outs):
                        c.undecided.setdefault('%s(%s=%s)' % (cls, name, label), set()).update(str(x) for o in outs for x in o.tainted)
                        continue
                    if not good or len(good) != len(outs):
                        c.fail('given', '%s.%s' % (cls, name), 'the constructor fails when the option is %s' % label, '%s.__init__' % cls)
                        continue
                    for o in good:
                        L = o.outcome[1]
                        o.outcome = None
                        o.roots = dict(S.keep, L=L)
                        for k, v in kw:
                            if others and k == name:
                                continue
                            for st, x in get(S, o, L, k):
                                if x is None or content(S.m, st, x) != content(S.m, st, v):
                                    c.fail('given', '%s.%s' % (cls, k), 'the value in force is not the one given (%s)' % (label if k == name else 'with %s' % name), '%s.__init__' % cls,
                                           ['in force: %s' % (text(content(S.m, st, x)) if x is not None else 'nothing')])
                        if not others:
                            for k, want in base.items():
                                if k == name:
                                    continue
                                for st, x in get(S, o, L, k):
                                    if x is None or [content(S.m, st, x)] != want:
                                        c.fail('given', '%s.%s' % (cls, k), 'changes when %s is given' % name, '%s.__init__' % cls)


def forwarded(c):
    """what load() and dump() of the module hand to the handlers"""
    for fname, cls in (('load', 'Loader'), ('dump', 'Dumper')):
        S = Scen(c.prog)
        m = S.m
        seen = []
        cond, h = mk('user', 'condx'), mk('user', 'hx')
        m.userfn[cond] = lambda m, st, a, k: m.ret(st, TRUE)
        kw = [(n, mk('dflt', 'given ' + n)) for n in DEFAULTS[cls] if n not in ('frefs', 'basictypes', 'strconstructed')]
        kw += [('unheardof', mk('dflt', 'given unheardof')), ('frefs', NONE)]

        def handler(m, st, a, k):
            seen.append((st.copy(), a))
            return m.ret(st, mk('loaded', a[1], a[2]))
        m.userfn[h] = handler
        m.userarity[cond], m.userarity[h] = 1, 3
        hs = m.alloc(S.st, 'list', None, (mk('tuple', cond, h),), owner='data', site='handlers')
        S.keep['hs'] = hs
        T = S.opaque('T')
        S.freeze_types()
        outs = S.run(S.st, S.glob('typedload', fname), (V, T) if fname == 'load' else (V,), tuple(kw) + (('handlers', hs),))
        c.ob('forwarding')
        where = 'typedload.%s' % fname
        if not seen:
            c.fail('forward', fname, 'handlers given to %s() are not used' % fname, where)
        for o in outs:
            if o.tainted:
                continue
            if o.outcome[0] == 'raise':
                c.fail('forward', fname, '%s() fails although the handler does not' % fname, where, describe(m, o))
            elif o.outcome[1].op != 'loaded' or o.outcome[1].args[0] is not V:
                c.fail('forward', fname, '%s() does not return what the handler returns' % fname, where, [show(o.outcome[1])])
        for st, a in seen:
            if a[1] is not V or (fname == 'load' and a[2] is not T):
                c.fail('forward', fname, 'the handler does not get the value and the type that were given', where, [show(x) for x in a[1:]])
            st.outcome = None
            st.frames = []
            for k, v in kw:
                c.ob('options forwarded')
                for s, x in get(S, st, a[0], k):
                    if x is not v:
                        c.fail('forward', fname, 'option %s does not reach the object that is used' % k, where, [show(x) if x is not None else 'absent'])


def same_outcomes(c, a, b, what):
    """two runs that must not differ"""
    if not (c.run(a, True) and c.run(b, True)):
        return
    if any(o.tainted for o in a.outs + b.outs):
        return
    c.ob(what)
    res = []
    for q in (a, b):
        d = {}
        for o in q.outs:
            k, p = outcome_key(q.S.m, o)
            d.setdefault(k, []).append(o)
        res.append(d)
    x, y = res
    site = ('load of %s' if a.t is not None else 'dump of %s') % a.name
    for d, e, n in ((x, y, 0), (y, x, 1)):
        for k in d.keys() - e.keys():
            yield 'only %s: %s %s' % (what.split(' / ')[n], k[0], k[1][:140]), site, describe(None, d[k][0])
    for k in x.keys() & y.keys():
        p, q = (frozenset(frozenset(z for z in describe(None, o)) for o in d[k]) for d in (x, y))
        if p != q:
            yield 'the conditions differ: %s %s' % (k[0], k[1][:100]), site, [str(sorted(z)) for z in sorted(p ^ q, key=str)[:3]]


def runs_of(x, thorough=False):
    if isinstance(x, Loads):
        yield from x.opaque()
        yield from x.shaped(nss=(False, True) if thorough else (False,), shapes=None if thorough else ('full', 'extra', 'no_p', 'both'))
    else:
        yield from x.runs([n for n in x.vals if ' holding ' not in n])


def pairs(c, mk_a, mk_b, what, rulename, thorough=False):
    a, b = mk_a(), mk_b()
    for p, q in zip(runs_of(a, thorough), runs_of(b, thorough)):
        if not c.mine():
            continue
        for detail, site, path in same_outcomes(c, p, q, what):
            c.fail(rulename, group(p.name), detail, site, path, p.name)


def late_options(c):
    """options given to the constructor do what options assigned afterwards do"""
    for cls in (Loads, Dumps):
        pairs(c, lambda: cls(c.prog), lambda: cls(c.prog, late=True), 'options given to the constructor / options assigned later', 'late')


def containers(c):
    """basictypes, strconstructed and handlers given to the constructor are obeyed like those assigned later"""
    B, U = glob('builtins.bytes'), mk('form', 'Unknown')
    for cls, opt, members, names in ((Loads, 'basictypes', (B, glob('builtins.str'), glob('builtins.NoneType')), ('int', 'str', 'list_int', 'union_basic', 'any')),
                                     (Loads, 'strconstructed', (U,), ('unknown', 'path', 'uuid')),
                                     (Dumps, 'basictypes', (B, glob('builtins.str'), glob('builtins.NoneType')), ('int', 'str', 'list', 'bytes')),
                                     (Dumps, 'strconstructed', (U,), ('unknown', 'path', 'uuid'))):
        objs = [make(c, cls, {opt: members}, late) for late in (False, True)]
        early, late = ({r.name: r for r in runs_of(x) if r.name in names} for x in objs)
        for n in names:
            if n not in early or not c.mine():
                continue
            for detail, site, path in same_outcomes(c, early[n], late[n], 'options given to the constructor / options assigned later'):
                c.fail('late', '%s of %s' % (opt, n), detail, site, path, n)


def make(c, cls, sets, late):
    """an object with options that are sets"""
    old = Scen.construct

    def construct(self, mod, name, kw):
        kw = dict(kw)
        for k, ms in sets.items():
            kw[k] = self.m.alloc(self.st, 'set', None, tuple(mk('ent', x, NONE) for x in ms), owner='data', site='option:' + k)
            self.keep['option:' + k] = kw[k]
        return old(self, mod, name, kw)
    Scen.construct = construct
    try:
        return cls(c.prog, late=late)
    finally:
        Scen.construct = old


def effective(c):
    """each option that is a set decides what the documentation says"""
    for cls, opt, members, name, ok in ((Loads, 'strconstructed', (mk('form', 'Unknown'),), 'unknown', True), (Loads, 'strconstructed', (), 'path', False),
                                        (Loads, 'basictypes', (glob('builtins.str'),), 'int', False), (Loads, 'basictypes', (glob('builtins.str'),), 'str', True)):
        x = make(c, cls, {opt: members}, False)
        for r in x.opaque((name,)):
            if not c.run(r, True) or any(o.tainted for o in r.outs):
                continue
            c.ob('sets of types are obeyed')
            if bool(r.returns()) != ok:
                c.fail('obeyed', 'Loader.%s' % opt, '%s can%s be loaded although %s' % (name, '' if r.returns() else 'not', 'the option says otherwise'), 'load of %s' % name)


def condition_errors(c):
    """an exception raised by the condition of a handler"""
    def nested(x):
        return lambda st, t: t is not x.root

    for cls in (Loads, Dumps):
        # enabled: the type fails
        for mode in ('any', 'nested'):
            x = cls.__new__(cls)
            x.root = None
            bad = (lambda st, t: True) if mode == 'any' else nested(x)
            cls.__init__(x, c.prog, {'raiseconditionerrors': TRUE}, bad=bad)
            for r in runs_of(x):
                x.root = r.t if r.t is not None else r.v
                if not c.run(r):
                    continue
                for o in r.clean():
                    raised = [e for e in o.log if e[0] == 'condraise']
                    if not raised:
                        continue
                    c.ob('errors of conditions are raised')
                    i = o.log.index(raised[0])
                    site = ('load of %s' if r.t is not None else 'dump of %s') % r.name
                    union = r.sp is not None and r.sp.op in ('union', 'enum')
                    if o.outcome[0] == 'return' and not union:
                        c.fail('swallowed', group(r.name), 'the exception raised by the condition of a handler is swallowed', site, describe(None, o), r.name)
                    for e in o.log[i:]:
                        if e[0] in ('ok', 'fail', 'dump', 'badhandler') and (e[2] if cls is Loads else e[1]) is raised[0][1]:
                            c.fail('swallowed', group(r.name), 'another handler is used after the condition of a handler has failed', site, describe(None, o), r.name)
        # disabled: as if the condition were false
        pairs(c, lambda: cls(c.prog, {'raiseconditionerrors': FALSE}, bad=lambda st, t: True), lambda: cls(c.prog, {'raiseconditionerrors': FALSE}, bad=lambda st, t: False),
              'with a condition that raises / with a condition that is false', 'condition')


@rule('C20', 'Abstract interpretation of the constructors, of load(), of dump() and of the functions of the module. Rules: for every option and every sort of value (None, False, empty, '
             'any) the value in force after the constructor is the one given, alone and together with other options, and the others keep their documented defaults; the outcomes of every run with '
             'options given to the constructor equal those with options assigned afterwards; the object that the functions of the module use has every named argument; with '
             'raiseconditionerrors an exception of a condition ends the load or dump of that type and no later handler is used, without it the outcomes of every run equal those with a condition that is false.')
def c20(c):
    if c.mine():
        constructors(c)
    if c.mine():
        forwarded(c)
    late_options(c)
    containers(c)
    if c.mine():
        effective(c)
    condition_errors(c)
