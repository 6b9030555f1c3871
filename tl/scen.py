"""Scenarios: the abstract inputs (annotation forms, data, options) the analysis starts from."""
import argparse
import dataclasses
import datetime
import enum
import pathlib
import re
import typing
import uuid

from .terms import *
from . import world
from .world import KINDS, DATA, real, MISSING, FORMS, Form, form
from .machine import Machine, State, HObj, NFrame, Raise, AnalysisError
from . import models
from .models import native

DL = 'typedload.dataloader'
DD = 'typedload.datadumper'
EX = 'typedload.exceptions'

LOPTS = ('basiccast', 'failonextra', 'raiseconditionerrors', 'uniondebugconflict', 'dictequivalence')
DOPTS = ('hidedefault', 'isodates', 'raiseconditionerrors')


@native('entry')
def n_entry(m, st, nf, msg, v):
    if msg == 'go':
        d = nf.d
        if d.get('done'):
            raise AnalysisError('entry re-entered')
        d['done'] = 1
        return m.call(st, d['f'], d['args'], d['kw'])
    st.frames.pop()
    return m.ret(st, v)


@native('user_raise')
def n_user_raise(m, st, nf, msg, v):
    d = nf.d
    st.frames.pop()
    inner = getattr(m, 'inner', None)
    if inner:
        # the error already carries what the levels inside the nested datum have recorded
        tr = m.alloc(st, 'list', None, inner, site='inner trace')
        st.heap[v] = st.heap[v].set('trace', tr)
    o = st.heap[v]
    st.heap[v] = HObj(o.kind, mk('anyexc', o.cls, frozenset()),
                      o.set('#origin', const('an error of a nested loader')).set('#user', mk('tuple', d['v'], d['t'])).data, o.owner)
    return m.throw(st, v)


class Opaque:
    pass


_opaques = {}


def opaque_class(name):
    c = _opaques.get(name)
    if c is None:
        c = _opaques[name] = type(name, (), {'__module__': 'user'})
    return c


class Scen:
    """one analysed configuration of the library"""

    def __init__(self, prog, opts=None, dumper=False, hooks=None, symbolic=True, extra=None):
        self.prog = prog
        self.m = Machine(prog)
        self.m.userfn = {}
        self.m.userhints = {}
        self.m.userarity = {}
        self.m.opaque = set()
        self.m.hooks.update(hooks or {})
        self.typerefs = []
        self.keep = {}
        self.T = {}
        self.special = None
        self.strings = False
        self.late = False       # assign the options after construction
        self.bad = None         # which types the condition of a first handler fails for
        self.inner = {}
        st = State()
        st.roots = self.keep
        self.st = st

    # ------------------------------------------------------------ plumbing
    def glob(self, module, name):
        ref = self.prog.modules.get(module)
        if ref is None:
            raise AnalysisError('anchor: module %s is gone' % module)
        v = self.m.obj(self.st, ref).map().get(name)
        if v is None:
            raise AnalysisError('anchor: %s.%s is gone' % (module, name))
        return v

    def run(self, st, f, args=(), kw=(), limit=None):
        s = st.copy()
        s.outcome = None
        s.frames.append(NFrame('entry', f=f, args=tuple(args), kw=tuple(kw)))
        try:
            return [o for o in self.m.run([s], limit) if self.m.propagate(o)]
        except AnalysisError as e:
            e.outs = [o for o in getattr(e, 'outs', ()) if self.m.propagate(o)]
            raise

    def one(self, st, f, args=(), kw=(), what=''):
        outs = self.run(st, f, args, kw)
        good = [o for o in outs if o.outcome[0] == 'return']
        if len(good) != 1 or len(outs) != 1:
            d = ''
            for o in outs:
                if o.outcome[0] == 'raise':
                    d = show(self.m.obj(o, o.outcome[1]).map().get('#origin', NONE))
            raise AnalysisError('%s does not run in a single way (%d outcomes) %s' % (what, len(outs), d))
        s = good[0]
        v = s.outcome[1]
        s.outcome = None
        s.roots = self.keep
        return s, v

    def method(self, st, obj, name):
        r = self.m.getattr(st, obj, name)
        if len(r) != 1 or isinstance(r[0][1], Raise):
            raise AnalysisError('anchor: %s has no method %s' % (show(obj), name))
        return r[0][1]

    # ------------------------------------------------------------ loader / dumper
    def construct(self, mod, cls, kw):
        """make a Loader or Dumper; its options are given to the constructor or (late) assigned afterwards"""
        self.st, L = self.one(self.st, self.glob(mod, cls), (), () if self.late else tuple(kw.items()), cls + '()')
        self.keep['L'] = L
        if self.late:
            for k, v in kw.items():
                self.st, _ = self.one(self.st, glob('builtins.setattr'), (L, const(k), v), (), 'assignment of ' + k)
        return L

    def frefs(self, names):
        """a dictionary of known names, as a user gives it: each name stands for a type of its own or a given one"""
        ents = tuple(mk('ent', const(n), names[n] or self.opaque('known ' + n)) for n in names)
        self.keep['frefs'] = r = self.m.alloc(self.st, 'dict', None, ents, owner='data', site='frefs')
        return r

    def loader(self, opts=None, kwargs=None):
        """build a Loader through its constructor; boolean options symbolic"""
        kw = {k: mk('opt', k) for k in LOPTS}
        kw['mangle_key'] = mk('name', 'MK')
        kw.update(opts or {})
        kw = {k: v for k, v in kw.items() if v is not None}
        L = self.construct(DL, 'Loader', kw)
        self.L = L
        self.keep['L'] = L
        self.user_handlers()
        self.inner_trace()
        self.m.publish(self.st, L, 'L')
        self.freeze_types()
        return L

    def user_handlers(self):
        st, m = self.st, self.m
        cond, load = mk('user', 'cond'), mk('user', 'load')
        first = second = ()
        if self.special is not None:
            # two handlers in front that accept one annotation
            c0, l0 = mk('user', 'cond0'), mk('user', 'load0')
            m.userfn[c0] = lambda m, st, a, k: m.ret(st, boolt(a[0] is self.special))
            m.userfn[l0] = self.u_second
            m.userarity[c0] = 1
            m.userarity[l0] = 3
            first, second = (mk('tuple', c0, load),), (mk('tuple', c0, l0),)
        first = self.bad_handler() + first
        m.userfn[cond] = self.u_cond
        m.userfn[load] = self.u_load
        m.userarity[cond] = 1
        m.userarity[load] = 3
        h = self.attr(st, self.L, 'handlers')
        o = m.obj(st, h) if h.op == 'ref' else None
        if o is None or o.kind != 'list':
            raise AnalysisError('anchor: handlers is not a list')
        st.heap[h] = o.with_(first + second + o.data + (mk('tuple', cond, load),))

    def bad_handler(self):
        """a handler whose condition raises an exception"""
        if self.bad is None:
            return ()
        m = self.m
        c, h = mk('user', 'badcond'), mk('user', 'badhandler')

        def cond(m, st, a, k):
            if self.bad(st, a[0]):
                st.log = st.log + (('condraise', a[0]),)
                return m.throw(st, models.anyexc(m, st, 'the condition of a handler'))
            return m.ret(st, FALSE)

        def handler(m, st, a, k):
            st.log = st.log + (('badhandler', a[1], a[2]),)
            return m.ret(st, mk('second', *a[1:3]))
        m.userfn[c], m.userfn[h] = cond, handler
        m.userarity[c], m.userarity[h] = 1, 3
        return (mk('tuple', c, h),)

    def u_second(self, m, st, args, kw):
        st.log = st.log + (('second', args[1], args[2]),)
        return m.ret(st, mk('second', *args[1:]))

    def inner_trace(self):
        """three trace items as the levels inside a nested datum leave them, the first and last not annotated"""
        m = self.m
        ann = self.glob(EX, 'Annotation')
        item = self.glob(EX, 'TraceItem')
        fld = self.attr(self.st, self.glob(EX, 'AnnotationType'), 'FIELD')
        self.st, a = self.one(self.st, ann, (fld, const('deep')), (), 'Annotation()')
        self.st, i0 = self.one(self.st, item, (mk('inner', 0), glob('builtins.list'), NONE), (), 'TraceItem()')
        self.st, i1 = self.one(self.st, item, (mk('inner', 1), glob('builtins.list'), a), (), 'TraceItem()')
        self.st, i2 = self.one(self.st, item, (mk('inner', 2), glob('builtins.int'), NONE), (), 'TraceItem()')
        m.inner = (i0, i1, i2)
        self.keep['inner'] = mk('tuple', i0, i1, i2)

    def attr(self, st, obj, name):
        r = self.m.getattr(st, obj, name)
        if len(r) != 1 or isinstance(r[0][1], Raise):
            raise AnalysisError('anchor: attribute %s is gone' % name)
        return r[0][1]

    def u_cond(self, m, st, args, kw):
        t = args[0]
        if t in m.opaque:
            return m.ret(st, TRUE)
        if t.op in ('form', 'glob', 'cls', 'const', 'rec', 'tuple'):
            return m.ret(st, FALSE)
        st.taint('dispatch on %s' % show(t))
        return m.ret(st, FALSE)

    def u_load(self, m, st, args, kw):
        if len(args) != 3:
            return m.throw(st, Raise('TypeError', 'handler called with %d arguments' % len(args)))
        l, v, t = args
        out = []
        if t not in m.opaque:
            st.log = st.log + (('misrouted', v, t),)
            return m.ret(st, mk('loaded', v, t))
        h = m.hooks.get('handled')
        if h:
            h(m, st, t)
        for s, ok in m.split(st, mk('loads', v, t)):
            if ok:
                s.log = s.log + (('ok', v, t),)
                out.extend(m.ret(s, mk('loaded', v, t)))
            else:
                s.log = s.log + (('fail', v, t),)
                s.frames.append(NFrame('user_raise', v=v, t=t))
                out.extend(m.call(s, self.glob(EX, 'TypedloadException'), [const('nested error')],
                                  [('value', v), ('type_', t)]))
        return out

    def dumper(self, opts=None):
        kw = {k: mk('opt', k) for k in DOPTS}
        kw['mangle_key'] = mk('name', 'MK')
        kw.update(opts or {})
        kw = {k: v for k, v in kw.items() if v is not None}
        D = self.construct(DD, 'Dumper', kw)
        self.L = D
        self.keep['L'] = D
        st, m = self.st, self.m
        cond, dump = mk('user', 'cond'), mk('user', 'dump')
        m.userfn[cond] = lambda m, st, a, k: m.ret(st, boolt(a[0].op == 'val' and a[0].args[0] in m.opaque))
        m.userfn[dump] = self.u_dump
        m.userarity[cond] = 1
        m.userarity[dump] = 3
        h = self.attr(st, D, 'handlers')
        o = m.obj(st, h) if h.op == 'ref' else None
        if o is None or o.kind != 'list':
            raise AnalysisError('anchor: handlers is not a list')
        first = ()
        if self.special is not None:
            c0, d0 = mk('user', 'cond0'), mk('user', 'dump0')
            m.userfn[c0] = lambda m, st, a, k: m.ret(st, boolt(self.is_special(st, a[0])))
            m.userfn[d0] = self.u_second
            m.userarity[c0] = 1
            m.userarity[d0] = 3
            first = (mk('tuple', c0, dump), mk('tuple', c0, d0))
        first = self.bad_handler() + first
        st.heap[h] = o.with_(first + o.data + (mk('tuple', cond, dump),))
        m.publish(st, D, 'L')
        self.freeze_types()
        return D

    def is_special(self, st, v):
        return self.special is not None and self.m.typeof(st, v) is self.m.typeof(st, self.special)

    def u_dump(self, m, st, args, kw):
        if len(args) != 3:
            return m.throw(st, Raise('TypeError', 'handler called with %d arguments' % len(args)))
        d, v, t = args
        if self.is_special(st, v) or (v.op == 'val' and v.args[0] in m.opaque):
            st.log = st.log + (('dump', v, t),)
        else:
            st.log = st.log + (('misrouted', v, t),)
        return m.ret(st, mk('dumped', v))

    # ------------------------------------------------------------ types
    def freeze_types(self):
        self.keep['types'] = mk('tuple', *self.typerefs)

    def tobj(self, kind, cls, data, name):
        r = self.m.alloc(self.st, kind, cls, data, owner='type', site='type:' + name)
        self.typerefs.append(r)
        self.freeze_types()
        return r

    def tdict(self, name, entries, star=None):
        """a dict belonging to a type: named entries + (star, item) summary"""
        r = self.tobj('dict', None, (), name)
        data = tuple(mk('ent', k, v) for k, v in entries)
        if star is not None:
            S, val = star
            seg = self.m.starseg(self.st, S, mk('aid', r, S), {(mk('bnd', S), val): frozenset()})
            data = data + (seg,)
        self.st.heap[r] = self.st.heap[r].with_(data)
        return r

    def opaque(self, name, **attrs):
        t = self.T.get(name)
        if t is None:
            if '__annotations__' not in attrs:
                attrs['__annotations__'] = self.tdict(name + '.ann', [])
            attrs.setdefault('__name__', const(name))
            t = self.T[name] = form(name, opaque_class(name), attrs)
            self.m.opaque.add(t)
        return t

    def generic(self, name, example, *args, **attrs):
        a = {'__args__': mk('tuple', *args)}
        a.update(attrs)
        return form(name, example, a)


def tname(t):
    return show(t).strip('<>')
