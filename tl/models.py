"""Models of builtins and of the standard library functions the code uses."""
import builtins
import types as pytypes

from .terms import *
from . import world
from .world import KINDS, DATA, RESULT, HASHABLE, MISSING, FORMS, real
from .machine import Raise, HObj, Frame, NFrame, AnalysisError, kind_hasattr

B = 'builtins.'
RESULT_KINDS = {
    'builtins.str': frozenset(['str']), 'builtins.repr': frozenset(['str']),
    'builtins.int': frozenset(['int']), 'builtins.float': frozenset(['float']),
    'builtins.bool': frozenset(['bool']), 'builtins.bytes': frozenset(['bytes']),
    'builtins.hash': frozenset(['int']), 'builtins.id': frozenset(['int']),
    'builtins.ascii': frozenset(['str']), 'builtins.format': frozenset(['str']),
}
for _c, _ns in (('str', 'bool'), ('str', 'int'), ('str', 'str'), ('bytes', 'str'), ('bytes', 'bool'), ('float', 'bool'), ('int', 'int'), ('bool', 'int'), ('float', 'str')):
    _t = {('str', 'bool'): [n for n in dir(str) if n.startswith('is')] + ['startswith', 'endswith'],
          ('str', 'int'): ['find', 'rfind', 'index', 'rindex', 'count', '__len__'],
          ('str', 'str'): ['lower', 'upper', 'strip', 'lstrip', 'rstrip', 'casefold', 'title', 'capitalize', 'swapcase', 'replace', 'removeprefix', 'removesuffix',
                           'center', 'ljust', 'rjust', 'zfill', 'expandtabs', 'translate'],
          ('bytes', 'str'): ['decode', 'hex'], ('bytes', 'bool'): ['startswith', 'endswith'], ('float', 'bool'): ['is_integer'],
          ('int', 'int'): ['__index__', '__int__', 'bit_length', 'bit_count', 'conjugate'], ('bool', 'int'): ['__index__', '__int__', 'bit_length'],
          ('float', 'str'): ['hex']}[_c, _ns]
    RESULT_KINDS.update({B + _c + '.' + n: frozenset([_ns]) for n in _t})
KNOWN_CALLS = set(RESULT_KINDS) | {'re.compile', 'datetime.timedelta', 'datetime.date', 'datetime.time', 'datetime.datetime'}
KNOWN_METHODS = {'get'}

FORBIDDEN = {
    'builtins.open', 'builtins.input', 'builtins.eval', 'builtins.exec', 'builtins.compile',
    'builtins.__import__', 'builtins.print', 'builtins.breakpoint', 'builtins.globals', 'builtins.locals',
    'importlib.import_module', 'builtins.id',
}
FORBIDDEN_MODS = ('os', 'posix', 'sys', 'random', 'time', 'subprocess', 'socket', 'secrets', 'pickle', '_pickle',
                  'shutil', 'tempfile', 'io', '_io', 'urllib', 'http', 'importlib', 'logging', 'runpy', 'ctypes',
                  'builtins.open', 'locale', 'platform', 'getpass', 'select', 'nt', 'marshal', 'code', 'codeop', 'posixpath', 'marshal')

NATIVE = {}


def native(name, catches=False):
    def d(f):
        f.catches = catches
        NATIVE[name] = f
        return f
    return d


CALLS = {}


def fn(*names):
    def d(f):
        for n in names:
            CALLS[n] = f
        return f
    return d


def israise(v):
    return isinstance(v, Raise)


def isref(m, st, t, *kinds):
    return t.op == 'ref' and m.obj(st, t).kind in kinds


# ===================================================================== calls
def call(m, st, f, args, kw):
    op = f.op
    if op == 'func':
        if any(k == '*' for k, v in kw):
            st.taint('star arguments')
        return m.push_func(st, f, args, kw)
    if op == 'bm':
        o, g = f.args
        if isinstance(g, Term):
            if g.op == 'func':
                return m.push_func(st, g, [o] + args, kw)
            return call(m, st, g, [o] + args, kw)
        return method(m, st, o, g, args, kw)
    if op == 'bfunc':
        return bfunc(m, st, f, args, kw)
    if op == 'user':
        return m.userfn[f](m, st, args, kw)
    if op == 'partial':
        g, a, k = f.args
        return call(m, st, g, list(a) + args, list(k) + kw)
    if op == 'cached':
        h = m.hooks.get('cached')
        if h:
            h(m, st, f.args[0])
        out = []
        res = [(st, True)]
        for a in args:
            nr = []
            for s, v in res:
                if v is True:
                    nr.extend(m.hashable(s, a))
                else:
                    nr.append((s, v))
            res = nr
        for s, v in res:
            if israise(v):
                out.extend(m.throw(s, v))
            else:
                out.extend(call(m, s, f.args[0], list(args), list(kw)))
        return out
    if op == 'getter':
        kind, keys = f.args[0], f.args[1:]
        if len(keys) == 1 and args:
            if kind == 'item':
                return m.ret_all(m.getitem(st, args[0], keys[0]))
            if kind == 'attr' and keys[0].op == 'const':
                from .ops import deliver_attr
                return deliver_attr(m, st, args[0], cval(keys[0]))
        st.taint('getter')
        return m.ret(st, mk('opq', 'getter'))
    if op == 'smeth':
        return call(m, st, f.args[0], args, kw)
    if op == 'glob':
        name = f.args[0]
        h = m.hooks.get('call')
        if h:
            h(m, st, f, args, kw)
        g = CALLS.get(name)
        if g is not None:
            return g(m, st, f, args, kw)
        v = real(f)
        if isinstance(v, type) and issubclass(v, BaseException):
            e = m.alloc(st, 'inst', f, (('args', mk('tuple', *args)),
                                        ('#origin', const('raised explicitly in %s (%s)' % (m.where(st)[1], m.where(st)[0])))))
            return m.ret(st, e)
        if '.' in name:
            owner = world.import_path(name.rsplit('.', 1)[0])
            if owner is not None and isinstance(real(owner), type):
                return bfunc(m, st, mk('bfunc', owner, name.rsplit('.', 1)[1]), args, kw)
        return opaque_call(m, st, f, args, kw)
    if op == 'cls':
        return instantiate(m, st, f, args, kw)
    if op == 'form':
        g = FORMS[f].make
        if g is not None:
            return g(m, st, f, args, kw)
        return construct(m, st, f, args, kw)
    if op == 'ref':
        o = m.obj(st, f)
        if o.kind == 'inst' and o.cls is not None:
            g = m.class_attr(st, o.cls, '__call__')
            if g is not None and g.op == 'func':
                return m.push_func(st, g, [f] + args, kw)
        return m.throw(st, Raise('TypeError', '%s object is not callable' % o.kind))
    if op in ('const', 'tuple', 'lin', 'nt', 'fset', 'name'):
        return m.throw(st, Raise('TypeError', '%s is not callable' % show(f)))
    if m.is_data(f) or op in ('opq',) and False:
        out = []
        for s, other in m.split_kinds(st, f, lambda k: k in ('object', 'robj', 'urobj')):
            if not other:
                out += m.throw(s, Raise('TypeError', 'the object is not callable'))
                continue
            h = m.hooks.get('datacall')
            if h:
                h(m, s, f, args, kw)
            s.taint('calling data')
            out += m.ret(s, mk('opq', 'result of data call'))
        return out
    if op == 'cmfunc':
        g = f.args[0]
        st.frames.append(NFrame('cm_make'))
        return call(m, st, g, args, kw)
    if op == 'typeof':
        return construct(m, st, f, args, kw)
    if op == 'decor':
        return f.args[0](m, st, f, args, kw)
    if op == 'generic':
        return construct(m, st, f, args, kw)
    return opaque_call(m, st, f, args, kw)


PURE = {n: () for n in ('re.match', 're.search', 're.fullmatch', 're.sub', 're.escape', 're.split', 're.findall', 'unicodedata.normalize', 'math.isnan', 'math.isinf',
                        'math.isfinite', 'math.fabs', 'html.unescape', 'html.escape', 'textwrap.dedent', 'string.capwords', 'urllib.parse.quote',
                        'urllib.parse.unquote', 'os.path.expanduser', 'os.path.normpath', 'shlex.split', 'ipaddress.ip_address')}
PURE.update({n: ('ValueError',) for n in ('json.loads', 'ast.literal_eval', 'math.floor', 'math.ceil', 'math.trunc', 'int.from_bytes', 'json.dumps', 'base64.b64decode')})


def opaque_call(m, st, f, args, kw):
    if f.op in ('opq', 'loaded'):
        st.taint('call of %s' % show(f))
    name = show(f)
    if f.op == 'glob':
        m.note(st, 'unmodelled call %s' % name)
        v = real(f)
        if not kw and f.args[0] in PURE:
            # a function of its arguments of which nothing else is known
            t = mkcall(f, args, kw)
            excs = PURE[f.args[0]]
            if any(m.is_data(a) and not ((m.kinds(st, a) or frozenset('?')) <= {'str', 'strsub', 'int', 'float', 'bool'}) for a in args):
                excs = excs + ('TypeError',)
            return may_fail(m, st, t, excs, name)
        if not (isinstance(v, type)):
            st.taint('call of %s' % name)
        else:
            return construct(m, st, f, args, kw)
    return m.ret(st, mkcall(f, args, kw))


def mkcall(f, args, kw):
    return mk('call', f, *(tuple(args) + tuple(mk('kw', k, v) for k, v in sorted(kw, key=lambda p: p[0]))))


# constructors of known classes: which exceptions they raise on data
ANY = None


def anyexc(m, st, desc, base='builtins.Exception'):
    return m.alloc(st, 'inst', mk('anyexc', glob(base), frozenset()),
                   (('args', mk('tuple', mk('call', glob('builtins.str'), const(desc)))),
                    ('#origin', const('%s in %s (%s)' % (desc, m.where(st)[1], m.where(st)[0])))))


CTORS = {
    'datetime.date': ('TypeError', 'ValueError', 'OverflowError'),
    'datetime.time': ('TypeError', 'ValueError', 'OverflowError'),
    'datetime.datetime': ('TypeError', 'ValueError', 'OverflowError'),
    'uuid.UUID': ('TypeError', 'ValueError', 'AttributeError'),
    'pathlib.Path': ('TypeError',),
    'decimal.Decimal': ('TypeError', 'ValueError', 'ArithmeticError'),
}


def construct(m, st, f, args, kw):
    """calling a class on (possibly bad) values"""
    h = m.hooks.get('construct')
    if h:
        h(m, st, f, args, kw)
    t = mkcall(f, args, kw)
    name = f.args[0] if f.op == 'glob' else None
    excs = CTORS.get(name)
    if excs is not None:
        return may_fail(m, st, t, excs, 'constructor %s' % show(f))
    out = []
    sig = getattr(m, 'sigs', {}).get(f)
    if sig is not None:
        st, rest = signature_ok(m, st, f, sig, args, kw)
        out.extend(rest)
        if st is None:
            return out
    for s, bad in m.split(st, mk('fails', t)):
        out.extend(m.throw(s, anyexc(m, s, 'constructor %s' % show(f))) if bad else m.ret(s, t))
    return out


def signature_ok(m, st, f, sig, args, kw):
    """the constructor of a record type refuses missing and unknown arguments: (state that goes on or None, outcomes)"""
    required, accepted, star = sig
    given, seen = set(), False
    ents = []
    for k, v in kw:
        if k == '**' and v.op == 'ents':
            ents.extend(v.args)
        else:
            ents.append(mk('ent', const(k), v))
    text = None
    for e in ents:
        if e.op == 'ent':
            if e.args[0] not in accepted:
                text = 'unexpected argument %s for %s' % (show(e.args[0]), show(f))
            given.add(e.args[0])
        elif e.args[0] is star:
            seen = True
        else:
            text = 'unexpected arguments for %s' % show(f)
    if args:
        return st, []
    miss = [k for k in required if k not in given]
    if miss or text:
        return None, m.throw(st, Raise('TypeError', text or 'missing argument %s for %s' % (show(miss[0]), show(f))))
    k = ((mk('card', star), 1),)
    lo, hi = m.range_of(st, k)
    if not seen and hi > 0:
        s = st.copy()
        s.ranges[k] = (max(lo, 1), hi)
        out = m.throw(s, Raise('TypeError', 'missing arguments for %s' % show(f))) if m.propagate(s) else []
        if lo > 0:
            return None, out
        st.ranges[k] = (0, 0)
        return (st if m.propagate(st) else None), out
    return st, []


def may_fail(m, st, t, excs, text):
    """the call t gives a result, or one of the named exceptions; the same call always ends the same way"""
    out = []
    cur = [st]
    for x in excs:
        nxt = []
        for s in cur:
            for s2, bad in m.split(s, mk('fails', t, x)):
                if bad:
                    out.extend(m.throw(s2, Raise(world.import_path('re.error') if x == 're.error' else x, text)))
                else:
                    nxt.append(s2)
        cur = nxt
    for s in cur:
        out.extend(m.ret(s, t))
    return out


def instantiate(m, st, c, args, kw):
    info = m.prog.classes[c]
    if info.kind == 'nt':
        return m.ret_all([(st, make_nt(m, st, c, info, args, kw))])
    if info.kind == 'enum':
        ns = m.obj(st, info.ns).map()
        if len(args) == 1:
            for v in ns.values():
                if v.op == 'enum' and v.args[2] is args[0]:
                    return m.ret(st, v)
        st.taint('enum lookup')
        return m.ret(st, mk('opq', 'enum'))
    isexc = m.subclass(st, c, glob('builtins.BaseException'))
    data = ()
    if isexc:
        data = (('args', mk('tuple', *args)),
                ('#origin', const('raised in %s (%s)' % (m.where(st)[1], m.where(st)[0]))))
    r = m.alloc(st, 'inst', c, data)
    if info.fields is not None:
        vals = make_nt(m, st, c, info, args, kw)
        if israise(vals):
            return m.throw(st, vals)
        st.heap[r] = HObj('inst', c, tuple(zip(info.fields, vals.args[1:])), 'new')
        return m.ret(st, r)
    init = m.class_attr(st, c, '__init__')
    if init is None or init.op != 'func':
        return m.ret(st, r)
    st.frames.append(NFrame('init', inst=r))
    return m.push_func(st, init, [r] + args, kw)


def make_nt(m, st, c, info, args, kw):
    vals = dict(zip(info.fields, args))
    if len(args) > len(info.fields):
        return Raise('TypeError', 'too many arguments for %s' % show(c))
    for k, v in kw:
        if k not in info.fields or k in vals:
            return Raise('TypeError', 'bad argument %s for %s' % (k, show(c)))
        vals[k] = v
    for k in info.fields:
        if k not in vals:
            if k in info.defaults:
                vals[k] = info.defaults[k]
            else:
                return Raise('TypeError', 'missing argument %s for %s' % (k, show(c)))
    return mk('nt', c, *[vals[k] for k in info.fields])


@native('init')
def n_init(m, st, nf, msg, v):
    st.frames.pop()
    return m.ret(st, nf.d['inst'])


def bfunc(m, st, f, args, kw):
    c, name = f.args
    if name == '__init__' and args and args[0].op == 'ref':
        o = m.obj(st, args[0])
        if m.subclass(st, o.cls, glob('builtins.BaseException')):
            st.heap[args[0]] = o.set('args', mk('tuple', *args[1:]))
        return m.ret(st, NONE)
    if name == '__setattr__' and len(args) == 3 and args[1].op == 'const':
        return m.ret_all([(s, NONE if r is None else r) for s, r in setattr_(m, st, args[0], cval(args[1]), args[2])])
    if name == '__new__' and args and args[0].op == 'cls':
        return m.ret(st, m.alloc(st, 'inst', args[0], ()))
    if name == '__getattribute__' and len(args) == 2 and args[1].op == 'const':
        return m.ret_all(m.getattr(st, args[0], cval(args[1])))
    v = real(c)
    if v in (str, list, dict, set, frozenset, tuple, int, float, bytes) and args:
        if v is dict and name == 'fromkeys':
            return fromkeys(m, st, args, kw)
        return method(m, st, args[0], name, args[1:], kw)
    if v is dict and name == 'fromkeys':
        return fromkeys(m, st, args, kw)
    full = c.args[0] + '.' + name if c.op == 'glob' else name
    g = CALLS.get(full)
    if g is not None:
        return g(m, st, glob(full), args, kw)
    if c.op == 'glob' and c.args[0].startswith('datetime.'):
        # alternative constructors
        t = mkcall(glob(full), args, kw)
        excs = ('TypeError', 'ValueError', 'OverflowError')
        if name == 'fromisoformat':
            ks = m.kinds(st, args[0]) if args else None
            excs = ('ValueError',) if ks is not None and ks <= {'str', 'strsub'} else ('ValueError', 'TypeError')
        return may_fail(m, st, t, excs, full)
    if name in ('__str__', '__repr__') and args:
        return m.ret(st, mk('call', glob('builtins.str'), args[0]))
    m.note(st, 'unmodelled method %s' % full)
    st.taint('call of %s' % full)
    return m.ret(st, mkcall(glob(full), args, kw))


def call_ex(m, st, f, args, kwd):
    """f(*args, **kwd)"""
    out = []
    kws = [(st, [])]
    if kwd is not None:
        kws = kwargs_of(m, st, kwd)
    for s, kw in kws:
        if israise(kw):
            out.extend(m.throw(s, kw))
            continue
        if args.op == 'tuple' and all(x.op not in ('starseg', 'unkseg') for x in args.args):
            out.extend(m.call(s, f, list(args.args), kw))
            continue
        for s2, segs in m.segments(s, args):
            if israise(segs):
                out.extend(m.throw(s2, segs))
            elif segs is None:
                # iterator: collect first
                acc = m.alloc(s2, 'list', None, ())
                s2.frames.append(NFrame('call_ex', f=f, kw=tuple((k, v) for k, v in kw)))
                s2.frames.append(NFrame('collect', acc=acc, it=args, kind='tuple', ret=None))
                out.append(s2)
            elif all(x.op not in ('starseg', 'unkseg') for x in segs):
                out.extend(m.call(s2, f, list(segs), kw))
            else:
                if f.op == 'func':
                    s2.taint('star arguments')
                    out.extend(m.ret(s2, mk('opq', 'call')))
                else:
                    splat = mk('splat', args) if args.op != 'tuple' else mk('splat', args.args[0].args[0]) if len(args.args) == 1 and args.args[0].op == 'starseg' else mk('splat', args)
                    out.extend(m.call(s2, f, [splat], kw))
    return out


@native('call_ex')
def n_call_ex(m, st, nf, msg, v):
    st.frames.pop()
    return call_ex2(m, st, nf.d['f'], v, list(nf.d['kw']))


def call_ex2(m, st, f, args, kw):
    segs = args.args
    if all(x.op not in ('starseg', 'unkseg') for x in segs):
        return m.call(st, f, list(segs), kw)
    st.taint('star arguments')
    return m.ret(st, mk('opq', 'call'))


def kwargs_of(m, st, d):
    """keyword arguments from a mapping value"""
    if d.op == 'ref' and m.obj(st, d).kind == 'dict':
        kw = []
        rest = []
        for x in m.obj(st, d).data:
            if x.op == 'ent' and x.args[0].op == 'const' and x.args[0].args[0] == 'str':
                kw.append((cval(x.args[0]), x.args[1]))
            elif x.op == 'ent':
                k = x.args[0]
                ks = m.kinds(st, k)
                if ks is not None and not (ks & {'str', 'strsub'}):
                    return [(st, Raise('TypeError', 'keywords must be strings'))]
                rest.append(x)
            else:
                rest.append(x)
        if rest:
            kw.append(('**', mk('ents', *[expand(m, st, x) for x in rest])))
        return [(st, kw)]
    st.taint('keyword arguments from %s' % show(d))
    return [(st, [('**', mk('opq', 'kwargs'))])]


def expand(m, st, x):
    """a self-contained description of a dict entry"""
    if x.op == 'ent':
        return x
    if x.op == 'starseg':
        S, aid = x.args
        return mk('ents*', S, frozenset((items, phi) for items, phi in st.alts.get(aid, {}).items()))
    return x


def raise_value(m, st, e):
    if e.op == 'ref':
        o = m.obj(st, e)
        if st.handled.op == 'ref' and st.handled is not e and o.kind == 'inst' and '#context' not in o.map():
            h = m.obj(st, st.handled)
            org = h.map().get('#origin') if h is not None else None
            if org is not None:
                st.heap[e] = o.set('#context', mk('cause', h.cls, org))
        return m.throw(st, e)
    if e.op in ('cls', 'glob', 'form'):
        st.frames.append(NFrame('raise_after'))
        return m.call(st, e, (), ())
    if e.op == 'opq' or e.op == 'phi' or e.op == 'attr':
        st.taint('raise of %s' % show(e))
        return m.throw(st, anyexc(m, st, 'unknown'))
    return m.throw(st, Raise('TypeError', 'exceptions must derive from BaseException'))


@native('raise_after')
def n_raise_after(m, st, nf, msg, v):
    st.frames.pop()
    return raise_value(m, st, v)


def exc_match(m, st, e, t):
    if t.op == 'tuple':
        out = []
        cur = [st]
        for c in t.args:
            nxt = []
            for s in cur:
                for s2, v in exc_match(m, s, e, c):
                    if v:
                        out.append((s2, True))
                    else:
                        nxt.append(s2)
            cur = nxt
        return out + [(s, False) for s in cur]
    return m.split_subclass(st, e, t)


# ===================================================================== attributes
def getattr_ref(m, st, t, name):
    o = m.obj(st, t)
    k = o.kind
    if k == 'ns':
        mp = o.map()
        if name in mp:
            return [(st, mp[name])]
        sub = (cval(mp['__name__']) + '.' + name) if '__name__' in mp else name
        if sub in m.prog.modules:
            return [(st, m.prog.modules[sub])]
        return [(st, Raise('AttributeError', 'module has no attribute %s' % name))]
    if k == 'inst':
        mp = o.map()
        if name in mp:
            return [(st, mp[name])]
        if '#dict' in mp:       # an attribute of the object hides the method of its class
            for e in m.obj(st, mp['#dict']).data:
                if e.op == 'ent' and e.args[0] is const(name):
                    return [(st, e.args[1])]
        if name == '__dict__':
            ent = mp.get('#dict')
            if ent is not None:
                return [(st, ent)]
            return [(st, m.alloc(st, 'dict', None, tuple(mk('ent', const(a), v) for a, v in o.data if not a.startswith('#'))))]
        if name == '__class__':
            return [(st, m.typeof(st, t))]
        c = o.cls
        if c is not None and c.op == 'anyexc':
            c = c.args[0]
        if c is None:
            st.taint('attribute %s of %s' % (name, show(t)))
            return [(st, mk('attr', t, name))]
        if c.op == 'cls':
            v = m.class_attr(st, c, name)
            if v is not None:
                if v.op in ('func',):
                    return [(st, mk('bm', t, v))]
                if v.op == 'propdef':
                    return [(st, mk('prop', v.args[0], t))]
                if v.op == 'smeth':
                    return [(st, v.args[0])]
                if v.op == 'cmeth':
                    return [(st, mk('bm', c, v.args[0]))]
                if v.op == 'bfunc':
                    return [(st, mk('bm', t, name))]
                return [(st, v)]
            if m.subclass(st, c, glob('builtins.BaseException')) and hasattr(Exception, name):
                return [(st, mk('bm', t, name))]
            if hasattr(object, name):
                return [(st, mk('bm', t, name))]
            return [(st, Raise('AttributeError', '%s has no attribute %s' % (show(c), name)))]
        if c.op == 'form':
            f = FORMS[c]
            ia = f.attrs.get('#inst:' + name)
            if ia is not None:
                return [(st, ia)]
            if name in f.attrs:
                return [(st, f.attrs[name])]
            if name in f.hidden:
                return [(st, Raise('AttributeError', '%s has no attribute %s' % (show(t), name)))]
            ex = f.attrs.get('#example')
            if hasattr(f.example, name) and not (isinstance(f.example, type) and hasattr(type, name) and not hasattr(object, name)):
                v = getattr(f.example, name)
                if isinstance(v, (str, int)):
                    return [(st, const(v))]
                if callable(v):
                    return [(st, mk('bm', t, name))]
                return [(st, mk('attr', t, name))]
            return [(st, Raise('AttributeError', '%s has no attribute %s' % (show(t), name)))]
        if c.op == 'glob':
            v = real(c)
            if v is not MISSING:
                if isinstance(v, type) and issubclass(v, BaseException):
                    if hasattr(v, name):
                        return [(st, mk('bm', t, name) if callable(getattr(v, name)) else mk('attr', t, name))]
                    return [(st, Raise('AttributeError', '%s has no attribute %s' % (show(c), name)))]
                ex = EXAMPLES.get(c.args[0])
                if ex is not None:
                    if hasattr(ex, name):
                        return [(st, mk('bm', t, name) if callable(getattr(ex, name)) else mk('attr', t, name))]
                    return [(st, Raise('AttributeError', '%s has no attribute %s' % (show(c), name)))]
                if hasattr(v, name):
                    x = getattr(v, name)
                    return [(st, mk('bm', t, name) if callable(x) else mk('attr', t, name))]
                if o.owner in ('type', 'data'):
                    return [(st, Raise('AttributeError', '%s has no attribute %s' % (show(t), name)))]
            st.taint('attribute %s of %s' % (name, show(c)))
            return [(st, mk('attr', t, name))]
        return [(st, mk('attr', t, name))]
    T = {'list': list, 'dict': dict, 'set': set, 'frozenset': frozenset, 'iter': pytypes.GeneratorType,
         'gen': pytypes.GeneratorType, 'view': type({}.keys()), 'range': range, 'cell': pytypes.CellType}[k]
    if name in dir(T) or k == 'view' and hasattr(set, name) and name.startswith('is'):
        return [(st, mk('bm', t, name))]
    return [(st, Raise('AttributeError', '%s has no attribute %s' % (k, name)))]


def val_attr(m, st, t, name):
    """attribute of an opaque instance of a known class"""
    c = t.args[0]
    if c.op == 'form':
        f = FORMS[c]
        ia = f.attrs.get('#inst:' + name)
        if ia is not None:
            return ia
        if name in f.attrs and name not in ('__name__', '__qualname__'):
            return f.attrs[name]
        if name in f.hidden:
            return Raise('AttributeError', '%s has no attribute %s' % (show(t), name))
    v = real(c)
    if v is not MISSING and hasattr(v, name) and not (hasattr(type, name) and not hasattr(object, name)):
        x = getattr(v, name)
        return mk('bm', t, name) if callable(x) else mk('attr', t, name)
    return Raise('AttributeError', '%s has no attribute %s' % (show(t), name))


import argparse  # noqa: E402
EXAMPLES = {'argparse.Namespace': argparse.Namespace()}


def data_attr(m, st, t, name):
    return mk('bm', t, name) if name != '__dict__' else mk('rawattr', t, name)


def attr_of_call(m, st, t, name):
    if t.op == 'sig' and name == 'parameters':
        return [(st, mk('tuple', *[const('p%d' % i) for i in range(t.args[0])]))]
    if t.op == 'call' and t.args[0].op == 'glob':
        v = real(t.args[0])
        if isinstance(v, type):
            if hasattr(v, name):
                x = getattr(v, name)
                return [(st, mk('bm', t, name) if callable(x) else mk('attr', t, name))]
            if not issubclass(v, BaseException):
                return [(st, Raise('AttributeError', '%s has no attribute %s' % (show(t), name)))]
    if t.op == 'generic':
        r = m.getattr(st, t.args[0], name)
        return r
    return None


def inst_getitem(m, st, t, k):
    o = m.obj(st, t)
    items = o.map().get('#items')
    if items is not None and k.op == 'const':
        try:
            return items.args[cval(k)]
        except Exception:
            pass
    if o.cls is not None and o.cls.op == 'cls':
        st.taint('user-defined subscript')
        return mk('opq', 'item')
    return Raise('TypeError', '%s is not subscriptable' % show(t))


def setattr_(m, st, o, name, v):
    if o.op == 'ref':
        h = m.obj(st, o)
        if h.kind in ('inst', 'ns'):
            hk = m.hooks.get('store')
            if hk and h.owner != 'new':
                hk(m, st, o, h, const(name), v)
            m.touch(st, o, ('setattr', name))
            h = m.obj(st, o)
            if h.owner in ('L', 'module', 'class', 'type'):
                m.publish(st, v, h.owner)
            st.heap[o] = h.set(name, v)
        return [(st, None)]
    hk = m.hooks.get('mutate_term')
    if o.op == 'cls':
        ns = m.prog.classes[o].ns
        m.touch(st, ns, ('setattr', name))
        st.heap[ns] = m.obj(st, ns).set(name, v)
        return [(st, None)]
    if hk and (o.op in ('form', 'glob', 'attr', 'func', 'rec') or m.is_data(o)):
        hk(m, st, o, 'attribute assignment .%s' % name)
    return [(st, None)]


def delitem(m, st, o, k):
    if o.op == 'ref':
        h = m.obj(st, o)
        if h.kind == 'dict':
            out = []
            for s, v in m.lookup(st, h.data, k):
                if v is None:
                    out.append((s, Raise('KeyError', 'missing key %s' % show(k))))
                    continue
                remove_key(m, s, o, k)
                out.append((s, None))
            return out
        if h.kind == 'list' and k.op == 'const' and plain(h.data):
            m.touch(st, o, 'item deletion')
            d = list(h.data)
            try:
                del d[cval(k)]
            except Exception as e:
                return [(st, Raise(type(e).__name__, str(e)))]
            st.heap[o] = h.with_(tuple(d))
            return [(st, None)]
        if h.kind == 'list' and k.op == 'slice' and all(x is NONE for x in k.args):
            m.touch(st, o, 'clear')
            st.heap[o] = h.with_(())
            return [(st, None)]
        m.touch(st, o, 'item deletion')
        st.taint('item deletion')
        return [(st, None)]
    hk = m.hooks.get('mutate_term')
    if hk and (m.is_data(o) or o.op in ('attr',)):
        hk(m, st, o, 'item deletion')
    return [(st, None)]


def remove_key(m, st, ref, k):
    h = m.obj(st, ref)
    m.touch(st, ref, ('delitem', k))
    data = []
    for x in h.data:
        if x.op == 'ent':
            if x.args[0] is k or m.same(st, x.args[0], k) or st.facts.get(mk('eq', *sorted((x.args[0], k), key=lambda z: z.id))):
                continue
            data.append(x)
        elif x.op == 'starseg' and k.op in ('elem',) and k.args[0] is x.args[0]:
            # one summarised member removed: from here on membership of the others is uncertain
            data.append(mk('unkseg', mk('opq', 'member')))
            st.taint('removal from a summarised set')
        else:
            data.append(x)
    st.heap[ref] = h.with_(tuple(data))


def plain(segs):
    return all(x.op not in ('starseg', 'unkseg') for x in segs)


def slice_any(m, st, o, sl):
    if o.op == 'const':
        try:
            if all(x.op == 'const' for x in sl.args):
                return [(st, const(cval(o)[slice(*[cval(x) for x in sl.args])]))]
        except Exception as e:
            return [(st, Raise(type(e).__name__, str(e)))]
        return [(st, mk('call', glob('builtins.str'), o))]
    if o.op in ('tuple', 'nt') or isref(m, st, o, 'list'):
        return m.getitem(st, o, sl)
    if isref(m, st, o, 'dict', 'set', 'frozenset', 'view', 'iter', 'gen'):
        return [(st, Raise('TypeError', 'unhashable slice' if isref(m, st, o, 'dict') else 'not subscriptable'))]
    ks = m.kinds(st, o)
    if ks is not None and m.is_data(o):
        out = []
        for s, c in m.split_kinds(st, o, lambda k: k in ('list', 'tuple', 'str', 'strsub', 'bytes')):
            out.append((s, mk('at', o, sl) if c else Raise('TypeError', '%s is not subscriptable' % show(o))))
        return out
    if o.op == 'call' and o.args[0] is glob('builtins.str'):
        return [(st, mk('call', glob('builtins.str'), o, sl))]
    st.taint('slice of %s' % show(o))
    return [(st, mk('opq', 'slice'))]


# ===================================================================== membership, comparison
def contains(m, st, x, c):
    op = c.op
    if op == 'ref':
        o = m.obj(st, c)
        if o.kind == 'view':
            d, mode = o.data
            if mode == 'keys':
                return contains(m, st, x, d)
            segs = m.ent_segs(st, m.obj(st, d), mode)
            return seq_contains(m, st, x, segs)
        if o.kind in ('dict', 'set', 'frozenset'):
            out = []
            for s, h in m.hashable(st, x):
                if israise(h):
                    out.append((s, h))
                    continue
                out.extend(key_in(m, s, x, m.obj(s, c).data))
            return out
        if o.kind == 'list':
            return seq_contains(m, st, x, o.data)
        if o.kind == 'inst' and '#dict' in o.map():
            return contains(m, st, x, o.map()['#dict'])
        if o.kind == 'range' and as_lin(x) is not None:
            return m.split(st, mk('in', x, c))
        if o.kind == 'inst' and '#items' in o.map():
            return seq_contains(m, st, x, o.map()['#items'].args)
        if o.kind in ('iter', 'gen'):
            st.taint('membership in an iterator')
            return m.split(st, mk('in', x, c))
        return [(st, Raise('TypeError', 'argument is not iterable'))]
    if op in ('tuple', 'nt'):
        return seq_contains(m, st, x, c.args if op == 'tuple' else c.args[1:])
    if op == 'fset':
        out = []
        for s, h in m.hashable(st, x):
            if israise(h):
                out.append((s, h))
            else:
                out.extend(key_in(m, s, x, tuple(mk('ent', y, NONE) for y in sorted(c.args[0]))))
        return out
    if op == 'dirof':
        if x.op == 'const':
            out = []
            for s, v in m.getattr(st, c.args[0], cval(x)):
                out.append((s, not israise(v)))
            return out
        return m.split(st, mk('in', x, c))
    if op == 'const':
        v = cval(c)
        if isinstance(v, str):
            if x.op == 'const':
                try:
                    return [(st, cval(x) in v)]
                except TypeError as e:
                    return [(st, Raise('TypeError', str(e)))]
            ks = m.kinds(st, x)
            if ks is not None:
                out = []
                for s, g in m.split_kinds(st, x, lambda k: k in ('str', 'strsub')):
                    out.extend(m.split(s, mk('in', x, c)) if g else [(s, Raise('TypeError', "'in <string>' requires string"))])
                return out
            return m.split(st, mk('in', x, c))
        return [(st, Raise('TypeError', 'argument is not iterable'))]
    if op in ('form', 'glob', 'cls', 'func'):
        h = iter_class(m, st, c)
        if h is not None:
            return m.split(st, mk('in', x, c))
        if op == 'form' and not isinstance(FORMS[c].example, type):
            return [(st, Raise('TypeError', 'argument is not iterable'))]
        st.taint('membership in %s' % show(c))
        return m.split(st, mk('in', x, c))
    ks = m.kinds(st, c)
    if ks is not None and m.is_data(c):
        def cls(k):
            if k in ('dict', 'mapping', 'set', 'frozenset', 'namespace'):
                return 'h'
            if k in ('str', 'strsub', 'bytes'):
                return 's'
            return 'l' if KINDS[k].iterable else 'n'
        out = []
        for s, g in m.split_kinds(st, c, cls):
            if g == 'n':
                out.append((s, Raise('TypeError', '%s is not a container' % show(c))))
            elif g == 'h':
                for s2, hh in m.hashable(s, x):
                    if israise(hh):
                        out.append((s2, hh))
                    elif x.op == 'elem' and x.args[0] is c:
                        out.append((s2, True))
                    else:
                        out.extend(m.split(s2, mk('in', x, c)))
            elif g == 's':
                kx = m.kinds(s, x)
                if kx is not None:
                    for s2, g2 in m.split_kinds(s, x, lambda k: k in ('str', 'strsub', 'bytes', 'int')):
                        out.extend(m.split(s2, mk('in', x, c)) if g2 else [(s2, Raise('TypeError', 'in <string> requires string'))])
                else:
                    out.extend(m.split(s, mk('in', x, c)))
            else:
                out.extend(m.split(s, mk('in', x, c)))
        return out
    if op not in ('attr', 'opt', 'dflt'):
        st.taint('membership in %s' % show(c))
    return m.split(st, mk('in', x, c))


def key_in(m, st, x, data):
    if x.op == 'typeof':
        y = x.args[0]
        ks = m.kinds(st, y)
        if ks is not None and all(e.op == 'ent' for e in data):
            reals = [real(e.args[0]) for e in data]
            out = []
            if not (ks & RESULT):
                return m.split_kinds(st, y, lambda k: k != 'object' and any(r is KINDS[k].cls for r in reals if r is not MISSING))
            for s, c in m.split_kinds(st, y, lambda k: None if k in RESULT else (k != 'object' and any(r is KINDS[k].cls for r in reals if r is not MISSING))):
                if c is None:
                    out.extend(m.split(s, mk('in', x, mk('fset', frozenset(e.args[0] for e in data))), 'type of a loaded value'))
                else:
                    out.append((s, c))
            return out
    return [(s, v is not None) for s, v in m.lookup(st, data, x)]


def seq_contains(m, st, x, segs):
    data = tuple(y if y.op in ('starseg', 'unkseg') else mk('ent', y, NONE) for y in segs)
    return key_in(m, st, x, data)


def untuple(t):
    if t.op == 'glob':
        v = real(t)
        if isinstance(v, tuple) and all(isinstance(x, (str, int)) for x in v):
            return const(tuple(v))
    return t


def component(x):
    """a number that a date, time or delta consists of"""
    return x.op == 'attr' and x.args[0].op == 'val' and x.args[1] in ('year', 'month', 'day', 'hour', 'minute', 'second', 'microsecond', 'days', 'seconds', 'microseconds')


def compare(m, st, o, a, b):
    a, b = untuple(a), untuple(b)
    if o in ('==', '!=') and a is b and m.is_data(a):
        # a number that is not equal to itself
        out = []
        for s, g in m.split_kinds(st, a, lambda k: k in ('float', 'object')):
            out.extend([(t, v == (o == '==')) for t, v in m.split(s, mk('eq', a, a))] if g else [(s, o == '==')])
        return out
    if o == '==':
        return m.eq(st, a, b)
    if o == '!=':
        return [(s, not v) for s, v in m.eq(st, a, b)]
    if as_lin(a) is not None and as_lin(b) is not None:
        out = []
        for s, g in m.split_sign(st, lin_add(a, b, -1)):
            out.append((s, {'<': g < 0, '<=': g <= 0, '>': g > 0, '>=': g >= 0}[o]))
        return out
    if a.op == 'const' and b.op == 'const':
        try:
            x, y = cval(a), cval(b)
            return [(st, {'<': lambda: x < y, '<=': lambda: x <= y, '>': lambda: x > y, '>=': lambda: x >= y}[o]())]
        except TypeError as e:
            return [(st, Raise('TypeError', str(e)))]
    if a.op == 'tuple' and b.op == 'tuple' and plain(a.args) and plain(b.args):
        try:
            x = tuple(cval(i) for i in a.args)
            y = tuple(cval(i) for i in b.args)
            return [(st, {'<': x < y, '<=': x <= y, '>': x > y, '>=': x >= y}[o])]
        except Exception:
            pass
    if setlike(m, st, a) and setlike(m, st, b):
        if o in ('<=', '<'):
            return subset(m, st, a, b, strict=o == '<')
        return subset(m, st, b, a, strict=o == '>')
    if m.kinds(st, a) and m.kinds(st, b):
        return data_order(m, st, o, a, b)
    if a.op == 'const' and b.op == 'attr':
        a, b, o = b, a, {'<': '>', '>': '<', '<=': '>=', '>=': '<='}[o]
    if not (component(a) and b.op == 'const' and type(cval(b)) is int):
        st.taint('comparison')
    if o in ('>=', '>'):
        return [(s, not v) for s, v in m.split(st, mk('cmp', {'>=': '<', '>': '<='}[o], a, b))]
    return m.split(st, mk('cmp', o, a, b))


NUMBERS = frozenset(['int', 'bool', 'float'])
UNORDERED = frozenset(['none', 'dict', 'mapping', 'namespace', 'iterator'])


def order_class(k):
    return 'number' if k in NUMBERS else 'str' if k in ('str', 'strsub') else k if k == 'bytes' else 'no' if k in UNORDERED else 'maybe'


def data_order(m, st, o, a, b):
    """ordering of two values of which only the kinds are known"""
    if o in ('>', '<='):
        return [(s, v if israise(v) or o == '>' else not v) for s, v in data_order(m, st, '<', b, a)]
    if o == '>=':
        return [(s, v if israise(v) else not v) for s, v in data_order(m, st, '<', a, b)]
    out = []
    for s, ca in m.split_kinds(st, a, order_class):
        for s2, cb in m.split_kinds(s, b, order_class):
            if ca != cb and 'maybe' not in (ca, cb) or 'no' in (ca, cb) and 'maybe' not in (ca, cb):
                out.append((s2, Raise('TypeError', "'<' not supported between these values")))
                continue
            if 'maybe' in (ca, cb):
                for s3, v in m.split(s2, mk('cmp', 'orderable', *sorted((a, b)))):
                    if v:
                        out.extend(m.split(s3, mk('cmp', '<', a, b)))
                    else:
                        out.append((s3, Raise('TypeError', "'<' not supported between these values")))
                continue
            for s3, same in m.eq(s2, a, b):
                if same:
                    out.append((s3, False))
                    continue
                x, y = sorted((a, b))
                out.extend((s4, v == (x is a)) for s4, v in m.split(s3, mk('cmp', '<', x, y)))
    return out


# ===================================================================== sets
def setlike(m, st, t):
    if t.op == 'fset':
        return True
    if t.op == 'ref':
        o = m.obj(st, t)
        return o.kind in ('set', 'frozenset') or (o.kind == 'view' and o.data[1] == 'keys')
    return False


def set_data(m, st, t):
    """entries of a set-like or iterable value, or None"""
    if t.op == 'fset':
        return tuple(mk('ent', x, NONE) for x in sorted(t.args[0]))
    if t.op == 'ref':
        o = m.obj(st, t)
        if o.kind in ('set', 'frozenset', 'dict'):
            if o.kind != 'dict':
                return o.data
            return tuple(mk('ent', x.args[0], NONE) if x.op == 'ent' else y
                         for x, y in zip(o.data, m.ent_segs(st, o, 'keys')))
        if o.kind == 'view' and o.data[1] == 'keys':
            return set_data(m, st, o.data[0])
        if o.kind == 'list':
            return tuple(x if x.op in ('starseg', 'unkseg') else mk('ent', x, NONE) for x in o.data)
    if t.op == 'tuple':
        return tuple(x if x.op in ('starseg', 'unkseg') else mk('ent', x, NONE) for x in t.args)
    return None


def star_member(m, st, seg, data):
    """are all (True) / none (False) of the members summarised by seg in data"""
    S, aid = seg.args
    hits = set()
    for items, phi in st.alts.get(aid, {}).items():
        if not items:
            continue
        s = st.copy()
        if not m.inst_phi(s, phi, S, 7):
            continue
        k = subst(items[0], mk('bnd', S), mk('elem', S, 7))
        for s2, v in m.lookup(s, data, k):
            hits.add(v is not None)
    if hits == {True}:
        return True
    if hits == {False} or not hits:
        return False
    return None


def partition(m, st, da, db):
    """split A's entries by membership in B -> [(state, in, out)]"""
    cur = [(st, (), ())]
    for x in da:
        nxt = []
        for s, i, o in cur:
            if x.op == 'ent':
                for s2, v in m.lookup(s, db, x.args[0]):
                    if v is not None:
                        nxt.append((s2, i + (x,), o))
                    else:
                        nxt.append((s2, i, o + (x,)))
            elif x.op == 'starseg':
                if x in db:
                    nxt.append((s, i + (x,), o))
                    continue
                r = star_member(m, s, x, db)
                if r is True:
                    nxt.append((s, i + (x,), o))
                elif r is False:
                    nxt.append((s, i, o + (x,)))
                else:
                    u = mk('unkseg', mk('opq', 'member'))
                    s.taint('partly overlapping sets')
                    nxt.append((s, i + (u,), o + (u,)))
            else:
                s.taint('contents of a collection')
                nxt.append((s, i + (x,), o + (x,)))
        cur = nxt
    return cur


def subset(m, st, a, b, strict=False):
    da, db = set_data(m, st, a), set_data(m, st, b)
    if da is None or db is None:
        st.taint('set comparison')
        return m.split(st, mk('subset', a, b))
    out = []
    for s, i, o in partition(m, st, da, db):
        for s2, v in m.seq_truth(s, o):
            if v:
                out.append((s2, False))
            elif not strict:
                out.append((s2, True))
            else:
                for s3, _, o2 in partition(m, s2, db, da):
                    out.extend(m.seq_truth(s3, o2))
    return out


def set_op(m, st, name, a, b, inplace=False):
    """-> [(state, term)]"""
    da, db = set_data(m, st, a), set_data(m, st, b)
    if da is None or db is None:
        st.taint('set operation')
        r = m.alloc(st, 'set', None, (mk('unkseg', mk('opq', 'member')),))
        return [(st, r)]
    out = []

    def result(s, data):
        if inplace:
            m.touch(s, a, name)
            s.heap[a] = m.obj(s, a).with_(tuple(data))
            return a
        frozen = a.op == 'fset' or (a.op == 'ref' and m.obj(s, a).kind == 'frozenset')
        return m.alloc(s, 'frozenset' if frozen else 'set', None, tuple(data))
    if name == 'union':
        for s, i, o in partition(m, st, db, da):
            out.append((s, result(s, da + o)))
        return out
    for s, i, o in partition(m, st, da, db):
        if name == 'intersection':
            out.append((s, result(s, i)))
        elif name == 'difference':
            out.append((s, result(s, o)))
        elif name == 'symmetric_difference':
            for s2, i2, o2 in partition(m, s, db, da):
                out.append((s2, result(s2, o + o2)))
    return out


# ===================================================================== operators
def binop(m, st, name, a, b):
    inpl = name.endswith('=')
    o = name[:-1] if inpl else name
    if o == '+':
        if as_lin(a) is not None and as_lin(b) is not None:
            return m.ret(st, lin_add(a, b))
        if a.op == 'tuple' and b.op == 'tuple':
            return m.ret(st, mk('tuple', *(a.args + b.args)))
        if isref(m, st, a, 'list'):
            if inpl:
                return extend(m, st, a, b, a)
            if isref(m, st, b, 'list'):
                return m.ret(st, m.alloc(st, 'list', None, m.obj(st, a).data + m.obj(st, b).data))
            if b.op in ('const', 'tuple', 'nt', 'name', 'lin') or b.op == 'ref':
                return m.throw(st, Raise('TypeError', 'can only concatenate list to list'))
            ks = m.kinds(st, b)
            if ks is not None and m.is_data(b):
                out = []
                for s, g in m.split_kinds(st, b, lambda k: k == 'list'):
                    if g:
                        out.extend(m.ret(s, m.alloc(s, 'list', None, m.obj(s, a).data + m.raw_segs(s, b))))
                    else:
                        out.extend(m.throw(s, Raise('TypeError', 'can only concatenate list to list')))
                return out
    if o == '-' and as_lin(a) is not None and as_lin(b) is not None:
        return m.ret(st, lin_add(a, b, -1))
    if o == '*' and as_lin(a) is not None and as_lin(b) is not None:
        for x, y in ((a, b), (b, a)):
            c, d = as_lin(x)
            if not d:
                cy, dy = as_lin(y)
                return m.ret(st, lin(c * cy, [(k, v * c) for k, v in dy.items()]))
    if a.op == 'const' and b.op == 'const':
        import operator
        f = {'+': operator.add, '-': operator.sub, '*': operator.mul, '%': operator.mod, '//': operator.floordiv,
             '/': operator.truediv, '**': operator.pow, '|': operator.or_, '&': operator.and_, '^': operator.xor}.get(o)
        if f is not None:
            try:
                return m.ret(st, const(f(cval(a), cval(b))))
            except Exception as e:
                if not (a.op == 'const' and isinstance(cval(a), str) and o == '%'):
                    return m.throw(st, Raise(type(e).__name__, str(e)))
    if o == '%' and (a.op == 'const' and isinstance(cval(a), str)):
        return percent(m, st, cval(a), b)
    SETOPS = {'|': 'union', '&': 'intersection', '-': 'difference', '^': 'symmetric_difference'}
    if o in SETOPS and setlike(m, st, a):
        if setlike(m, st, b):
            return m.ret_all(set_op(m, st, SETOPS[o], a, b, inplace=inpl and isref(m, st, a, 'set')))
        if b.op in ('const', 'tuple') or isref(m, st, b, 'list', 'dict'):
            return m.throw(st, Raise('TypeError', 'unsupported operand for set operation'))
    if o == '|' and isref(m, st, a, 'dict') and (isref(m, st, b, 'dict')):
        if inpl:
            return dict_update(m, st, a, b, a)
        c = m.alloc(st, 'dict', None, m.obj(st, a).data)
        return dict_update(m, st, c, b, c)
    if o == '|' and a.op in ('glob', 'cls', 'form', 'typeof', 'tuple'):
        la = a.args if a.op == 'tuple' else (a,)
        lb = b.args if b.op == 'tuple' else (b,)
        return m.ret(st, mk('tuple', *(la + lb)))
    strs = frozenset(['str', 'strsub'])

    def isstr(t):
        ks = m.kinds(st, t)
        return ks is not None and ks <= strs
    if o == '+' and isstr(a) and isstr(b):
        return m.ret(st, mk('call', glob('builtins.str'), a, b))
    if o == '*' and isstr(a) and as_lin(b) is not None:
        return m.ret(st, mk('call', glob('builtins.str'), a, b))
    if o == '%' and isstr(a):
        return m.ret(st, mk('call', glob('builtins.str'), a, b))
    if o == '+' and isstr(a):
        ks = m.kinds(st, b)
        if ks is not None:
            out = []
            for s, g in m.split_kinds(st, b, lambda k: k in strs):
                if g:
                    out.extend(m.ret(s, mk('call', glob('builtins.str'), a, b)))
                else:
                    out.extend(m.throw(s, Raise('TypeError', 'can only concatenate str to str')))
            return out
        if b.op in ('tuple', 'ref', 'form', 'glob', 'cls', 'lin'):
            return m.throw(st, Raise('TypeError', 'can only concatenate str to str'))
    # numbers out of data
    out = []
    for x in (a, b):
        ks = m.kinds(st, x)
        if ks is not None and m.is_data(x) and not (ks <= {'int', 'float', 'bool'}):
            s = st.copy()
            out.extend(m.throw(s, Raise('TypeError', 'unsupported operand %s' % show(x))))
            break
    return out + m.ret(st, mk('call', glob('operator.' + o), a, b))


import re as _re  # noqa: E402


def percent(m, st, fmt, b):
    specs = _re.findall(r'%[-+ #0]*\d*(?:\.\d+)?([a-zA-Z%])', fmt)
    specs = [s for s in specs if s != '%']
    named = '%(' in fmt
    res = mk('call', glob('builtins.str'), const(fmt), b)
    if named:
        return m.ret(st, res)
    if b.op in ('tuple', 'nt'):
        its = b.args if b.op == 'tuple' else b.args[1:]
        if plain(its) and len(its) != len(specs):
            return m.throw(st, Raise('TypeError', 'wrong number of arguments for format string'))
    else:
        if len(specs) != 1:
            return m.throw(st, Raise('TypeError', 'wrong number of arguments for format string'))
        its = (b,)
        ks = m.kinds(st, b)
        if ks is not None and ('tuple' in ks):
            out = []
            for s, c in m.split_kinds(st, b, lambda k: k == 'tuple'):
                if c:
                    out.extend(m.throw(s, Raise('TypeError', 'format string applied to %s, which may be a tuple' % show(b))))
                    continue
                out.extend(percent_items(m, s, res, specs, its))
            return out
    return percent_items(m, st, res, specs, its)


def percent_items(m, st, res, specs, its):
    out = []
    cur = [st]
    for sp, x in zip(specs, its):
        nxt = []
        for s in cur:
            if sp in 'diouxXeEfFgG':
                ks = m.kinds(s, x)
                if ks is not None and m.is_data(x):
                    for s2, g in m.split_kinds(s, x, lambda k: k in ('int', 'bool', 'float')):
                        if g:
                            nxt.append(s2)
                        else:
                            out.extend(m.throw(s2, Raise('TypeError', '%%%s needs a number' % sp)))
                    continue
                if x.op in ('form', 'glob', 'cls', 'name', 'tuple') or (x.op == 'const' and not isinstance(cval(x), (int, float))):
                    out.extend(m.throw(s, Raise('TypeError', '%%%s needs a number, not %s' % (sp, show(x)))))
                    continue
            nxt.append(s)
        cur = nxt
    for s in cur:
        out.extend(m.ret(s, res))
    return out


# ===================================================================== length, unpacking
def length(m, st, t):
    op = t.op
    if op in ('tuple', 'nt', 'fset'):
        its = t.args if op == 'tuple' else t.args[1:] if op == 'nt' else tuple(t.args[0])
        return [(st, seglen(m, st, its))]
    if op == 'ref':
        o = m.obj(st, t)
        if o.kind in ('list', 'dict', 'set', 'frozenset'):
            return [(st, seglen(m, st, o.data))]
        if o.kind == 'view':
            return length(m, st, o.data[0])
        if o.kind == 'range':
            return [(st, lin_add(o.data[1], o.data[0], -1))] if as_lin(o.data[1]) and as_lin(o.data[0]) else [(st, mk('opq', 'int'))]
        if o.kind == 'inst' and '#items' in o.map():
            return [(st, seglen(m, st, o.map()['#items'].args))]
        if o.kind == 'inst' and o.cls is not None and o.cls.op == 'cls' and m.class_attr(st, o.cls, '__len__'):
            st.taint('user-defined len')
            return [(st, mk('opq', 'int'))]
        return [(st, Raise('TypeError', 'object of type %s has no len()' % (show(o.cls) if o.cls else o.kind)))]
    if op == 'const':
        try:
            return [(st, const(len(cval(t))))]
        except TypeError as e:
            return [(st, Raise('TypeError', str(e)))]
    if op == 'lin':
        return [(st, Raise('TypeError', "object of type 'int' has no len()"))]
    if op in ('func', 'bm'):
        return [(st, Raise('TypeError', 'no len()'))]
    if op in ('form', 'glob', 'cls'):
        if iter_class(m, st, t) is not None:
            return [(st, lin(0, [(card(mk('members', t)), 1)]))]
        return [(st, Raise('TypeError', '%s has no len()' % show(t)))]
    ks = m.kinds(st, t)
    if ks is not None:
        out = []
        for s, c in m.split_kinds(st, t, lambda k: KINDS[k].sized):
            if c:
                out.append((s, lin(0, [(card(t), 1)])))
            else:
                out.append((s, Raise('TypeError', '%s has no len()' % show(t))))
        return out
    if op == 'call' and t.args[0] is glob('builtins.str'):
        return [(st, lin(0, [(card(t), 1)]))]
    if op not in ('attr',):
        st.taint('len of %s' % show(t))
    return [(st, lin(0, [(card(t), 1)]))]


def seglen(m, st, segs):
    c = 0
    at = []
    for x in segs:
        if x.op == 'starseg':
            S, aid = x.args
            alts = st.alts.get(aid, {})
            lens = {len(i) for i in alts} if alts and not all(y.op == 'ent' for y in segs if y.op not in ('starseg', 'unkseg')) else None
            if () in alts and len(alts) > 1:
                at.append((card(mk('part', aid)), 1))
            elif () in alts:
                continue
            else:
                n = 1
                ls = {len(i) for i in alts}
                at.append((card(S), 1))
        elif x.op == 'unkseg':
            at.append((card(x), 1))
        else:
            c += 1
    return lin(c, at)


def unpack(m, st, v, n):
    """-> [(state, [items]|Raise)]"""
    if v.op in ('opq', 'call', 'loaded') and m.kinds(st, v) is None or v.op == 'loaded':
        st.taint('unpacking %s' % show(v))
        return [(st, [mk('opq', 'item')] * n)]
    if v.op == 'attr':
        return [(st, [mk('at', v, const(i)) for i in range(n)])]
    out = []
    for s, segs in m.segments(st, v):
        if israise(segs):
            out.append((s, segs))
            continue
        if segs is None:
            if isref(m, s, v, 'iter'):
                o = m.obj(s, v)
                if o.data[0] == 'seg' and plain(o.data[1]):
                    segs = o.data[1][o.data[2]:]
            if segs is None:
                s.taint('unpacking an iterator')
                out.append((s, [mk('opq', 'item')] * n))
                continue
        if plain(segs):
            if len(segs) == n:
                out.append((s, list(segs)))
            else:
                out.append((s, Raise('ValueError', 'cannot unpack %d values into %d' % (len(segs), n))))
            continue
        if len(segs) == 1 and segs[0].op == 'starseg' and segs[0].args[0] is v:
            # data of unknown length
            ln = lin(-n, [(card(v), 1)])
            for s2, g in m.split_sign(s, ln):
                if g == 0:
                    out.append((s2, [mk('at', v, const(i)) for i in range(n)]))
                else:
                    out.append((s2, Raise('ValueError', 'wrong number of values to unpack')))
            continue
        s.taint('unpacking a summarised sequence')
        out.append((s, [mk('opq', 'item')] * n))
    return out


# ===================================================================== isinstance
def unknown_class(rc):
    """a class that an object of no particular kind may be of"""
    try:
        return rc is not object and not any(isinstance(k.example, rc) for k in KINDS.values() if k.example is not None)
    except TypeError:
        return False


def other_class(m, st, x, c):
    """is the datum an instance of a class that none of the kinds is: only an object of no particular kind can be"""
    out = []
    for s, g in m.split_kinds(st, x, lambda k: k == 'object'):
        out.extend(m.split(s, mk('isinst', x, c)) if g else [(s, False)])
    return out


def isinstance_(m, st, x, c):
    if c.op == 'tuple':
        out = []
        cur = [st]
        for d in c.args:
            nxt = []
            for s in cur:
                for s2, v in isinstance_(m, s, x, d):
                    if israise(v):
                        out.append((s2, v))
                    elif v:
                        out.append((s2, True))
                    else:
                        nxt.append(s2)
            cur = nxt
        return out + [(s, False) for s in cur]
    if c.op in ('const', 'func'):
        return [(st, Raise('TypeError', 'isinstance() arg 2 must be a type'))]
    if c.op == 'ref':
        st.taint('isinstance')
        return m.split(st, mk('isinst', x, c))
    rc = real(c) if c.op in ('glob', 'form') else MISSING
    if c is glob('builtins.object'):
        return [(st, True)]
    if x.op == 'ref':
        o = m.obj(st, x)
        if o.kind == 'inst' and o.cls is not None:
            if o.cls.op == 'anyexc':
                return m.split_subclass(st, x, c)
            if o.cls.op == 'form' and c.op == 'glob' and rc is not MISSING and isinstance(FORMS[o.cls].example, type):
                try:
                    return [(st, issubclass(FORMS[o.cls].example, rc))]
                except TypeError:
                    return [(st, Raise('TypeError', 'isinstance() arg 2 must be a type'))]
            r = m.subclass(st, o.cls, c)
            if r is not None:
                return [(st, r)]
            st.taint('isinstance')
            return m.split(st, mk('isinst', x, c))
        py = {'list': [], 'dict': {}, 'set': set(), 'frozenset': frozenset(), 'gen': KINDS['iterator'].example,
              'view': {}.keys(), 'iter': iter([]), 'range': range(1)}.get(o.kind)
        if py is not None and rc is not MISSING:
            return pyisinstance(st, py, rc)
        return [(st, False)]
    if x.op in ('rec', 'val'):
        cx = real(x.args[0])
        if c is x.args[0]:
            return [(st, True)]
        if x.args[0] in m.opaque and rc in (int, str, float):
            # a class of the user may derive from a basic type
            return m.split(st, mk('isinst', x, c))
        if rc is not MISSING and isinstance(cx, type) and c.op == 'glob':
            try:
                return [(st, issubclass(cx, rc))]
            except TypeError:
                return [(st, Raise('TypeError', 'isinstance() arg 2 must be a type'))]
        return [(st, False)]
    if x.op == 'attr' and x.args[1] == 'pattern' and x.args[0].op == 'val':
        if rc is str or rc is bytes:
            return [(s, v == (rc is str)) for s, v in m.split(st, mk('isinst', x, glob('builtins.str')))]
        return [(st, False)]
    if x.op in ('tuple', 'fset'):
        return pyisinstance(st, () if x.op == 'tuple' else frozenset(), rc) if rc is not MISSING else [(st, False)]
    if x.op == 'nt':
        if c is x.args[0]:
            return [(st, True)]
        return pyisinstance(st, (), rc) if rc is not MISSING else [(st, False)]
    if x.op == 'form':
        if rc is not MISSING:
            return pyisinstance(st, FORMS[x].example, rc)
        return [(st, False)]
    if x.op == 'glob':
        if rc is not MISSING and real(x) is not MISSING:
            return pyisinstance(st, real(x), rc)
        return [(st, False)]
    if x.op == 'enum':
        return [(st, c is x.args[0] or bool(m.subclass(st, x.args[0], c)))]
    if x.op in ('func', 'bm', 'bfunc', 'partial', 'user'):
        if rc is not MISSING:
            return pyisinstance(st, isinstance_, rc)
        return [(st, False)]
    if x.op == 'cls':
        return [(st, rc is type)]
    if x.op == 'typeof':
        return [(st, rc is type)]
    if x.op == 'const' and x is ELL:
        return [(st, rc is type(Ellipsis))]
    ks = m.kinds(st, x)
    if ks is not None:
        if c.op in ('cls',):
            if not (ks & RESULT):
                return other_class(m, st, x, c)
            return m.split(st, mk('isinst', x, c), 'class of a loaded value')
        if c.op == 'form':
            ex = FORMS[c].example
            if not (ks & RESULT):
                try:
                    isinstance(1, ex)
                except TypeError:
                    return [(st, Raise('TypeError', 'isinstance() arg 2 must be a type'))]
                return other_class(m, st, x, c)
        if rc is not MISSING:
            try:
                isinstance(1, rc)
            except TypeError:
                return [(st, Raise('TypeError', 'isinstance() arg 2 must be a type'))]
            out = []
            for s, g in m.split_kinds(st, x, lambda k: None if k in RESULT else 'o' if k == 'object' and unknown_class(rc) else isinstance(KINDS[k].example, rc)):
                if g is None:
                    if rc in (list, tuple, dict, str, int, set, frozenset, bool, float):
                        out.extend(m.split(s, mk('isinst', x, c), 'class of a loaded value'))
                    else:
                        out.append((s, False))
                elif g == 'o':
                    out.extend(m.split(s, mk('isinst', x, c)))
                else:
                    out.append((s, g))
            return out
        return m.split(st, mk('isinst', x, c), 'isinstance of %s' % show(c))
    if x.op == 'call' and x.args[0] is c:
        return [(st, True)]
    if x.op == 'call' and x.args[0].op == 'glob' and isinstance(real(x.args[0]), type) and rc is not MISSING and isinstance(rc, type):
        return [(st, issubclass(real(x.args[0]), rc))]
    if x.op == 'dflt' and c.op == 'glob' and c.args[0] in ('dataclasses._MISSING_TYPE', 'attr._make._Nothing'):
        return [(st, False)]
    if x.op == 'dflt':
        return m.split(st, mk('isinst', x, c))
    st.taint('isinstance of %s' % show(x))
    return m.split(st, mk('isinst', x, c))


def pyisinstance(st, x, c):
    try:
        return [(st, isinstance(x, c))]
    except TypeError:
        return [(st, Raise('TypeError', 'isinstance() arg 2 must be a type'))]


def issubclass_(m, st, x, c):
    if c.op == 'tuple':
        out = []
        cur = [st]
        for d in c.args:
            nxt = []
            for s in cur:
                for s2, v in issubclass_(m, s, x, d):
                    if israise(v):
                        out.append((s2, v))
                    elif v:
                        out.append((s2, True))
                    else:
                        nxt.append(s2)
            cur = nxt
        return out + [(s, False) for s in cur]
    if x.op in ('form', 'glob') and c.op in ('form', 'glob'):
        a, b = real(x), real(c)
        if a is not MISSING and b is not MISSING:
            try:
                return [(st, issubclass(a, b))]
            except TypeError:
                return [(st, Raise('TypeError', 'issubclass() arg 1 must be a class'))]
    if x.op in ('const', 'ref', 'tuple', 'func', 'name'):
        return [(st, Raise('TypeError', 'issubclass() arg 1 must be a class'))]
    if x.op == 'typeof':
        return isinstance_(m, st, x.args[0], c)
    r = m.subclass(st, x, c)
    if r is not None:
        return [(st, r)]
    st.taint('issubclass of %s' % show(x))
    return m.split(st, mk('issub', x, c))


# ===================================================================== consumers
@native('resume_next')
def n_resume(m, st, nf, msg, v):
    st.frames.pop()
    return m.next(st, nf.d['it'])


@native('collect')
def n_collect(m, st, nf, msg, v):
    d = nf.d
    acc = d['acc']
    if msg == 'go':
        return m.next(st, d['it'])
    if msg == 'item':
        o = m.obj(st, acc)
        if o.kind == 'list':
            if d['kind'] == 'update':
                m.touch(st, acc, 'extend')
            st.heap[acc] = m.obj(st, acc).with_(o.data + (v,))
            return [st]
        if o.kind == 'set':
            if d['kind'] == 'update':
                m.touch(st, acc, 'update')
            out = []
            for s, r in m.set_add(st, acc, v):
                if israise(r):
                    out.extend(m.throw(s, r))
                else:
                    out.append(s)
            return out
        if o.kind == 'dict':
            out = []
            for s, r in unpack(m, st, v, 2):
                if israise(r):
                    out.extend(m.throw(s, Raise('TypeError' if r.cls.args[0].endswith('TypeError') else 'ValueError', 'dictionary update sequence element')))
                    continue
                for s2, e in m.setitem(s, acc, r[0], r[1]):
                    if israise(e):
                        out.extend(m.throw(s2, e))
                    else:
                        out.append(s2)
            return out
    if msg == 'stop':
        st.frames.pop()
        kind = d['kind']
        if kind == 'update':
            if d['ret'] is None:
                return [st]
            return m.ret(st, d['ret'])
        if kind == 'tuple':
            r = mk('tuple', *m.obj(st, acc).data)
            return m.ret(st, r)
        if kind == 'frozenset':
            o = m.obj(st, acc)
            return m.ret(st, m.alloc(st, 'frozenset', None, o.data))
        return m.ret(st, acc)
    raise AnalysisError('collect ' + msg)


def collect(m, st, src, kind):
    """consume an iterable into a new collection; delivers it"""
    out = []
    for s, it in m.get_iter(st, src):
        if israise(it):
            out.extend(m.throw(s, it))
            continue
        acc = m.alloc(s, 'list' if kind in ('list', 'tuple') else 'dict' if kind == 'dict' else 'set', None, ())
        s.frames.append(NFrame('collect', acc=acc, it=it, kind=kind, ret=None))
        out.append(s)
    return out


def extend(m, st, ref, src, ret):
    out = []
    for s, segs in m.segments(st, src):
        if israise(segs):
            out.extend(m.throw(s, segs))
        elif segs is not None and m.obj(s, ref).kind == 'list':
            m.touch(s, ref, 'extend')
            s.heap[ref] = m.obj(s, ref).with_(m.obj(s, ref).data + tuple(segs))
            out.extend(m.ret(s, ret) if ret is not None else [s])
        else:
            for s2, it in m.get_iter(s, src):
                if israise(it):
                    out.extend(m.throw(s2, it))
                else:
                    s2.frames.append(NFrame('collect', acc=ref, it=it, kind='update', ret=ret))
                    out.append(s2)
    return out


def dict_update(m, st, ref, src, ret):
    """ref.update(src)"""
    def done(s):
        return m.ret(s, ret) if ret is not None else [s]
    if isref(m, st, src, 'dict'):
        cur = [st]
        out = []
        for x in m.obj(st, src).data:
            nxt = []
            for s in cur:
                if x.op == 'ent':
                    for s2, e in m.setitem(s, ref, x.args[0], x.args[1]):
                        if israise(e):
                            out.extend(m.throw(s2, e))
                        else:
                            nxt.append(s2)
                else:
                    o = m.obj(s, ref)
                    m.touch(s, ref, ('setitem', x, NONE, 'add'))
                    if x not in o.data:
                        same = [y for y in o.data if y.op == 'starseg' and x.op == 'starseg' and y.args[0] is x.args[0]]
                        data = tuple(y for y in o.data if y not in same) + (x,)
                        s.heap[ref] = m.obj(s, ref).with_(data)
                    nxt.append(s)
            cur = nxt
        for s in cur:
            out.extend(done(s))
        return out
    if isref(m, st, src, 'inst'):
        return m.throw(st, Raise('TypeError', 'object is not iterable'))
    ks = m.kinds(st, src)
    if ks is not None and m.is_data(src):
        out = []
        for s, c in m.split_kinds(st, src, lambda k: k in ('dict', 'mapping')):
            if c:
                o = m.obj(s, ref)
                aid = mk('aid', ref, src)
                b = mk('bnd', src)
                seg = m.starseg(s, src, aid, {(b, mk('at', src, b)): frozenset()})
                m.touch(s, ref, ('setitem', seg, NONE, 'add'))
                s.heap[ref] = m.obj(s, ref).with_(o.data + (seg,))
                out.extend(done(s))
            elif ret is None:
                out.extend(m.throw(s, Raise('TypeError', '%s is not a mapping' % show(src))))     # {**x}, f(**x)
            else:
                out.extend(update_pairs(m, s, ref, src, ret))
        return out
    return update_pairs(m, st, ref, src, ret)


def update_pairs(m, st, ref, src, ret):
    out = []
    for s, it in m.get_iter(st, src):
        if israise(it):
            out.extend(m.throw(s, it))
        else:
            s.frames.append(NFrame('collect', acc=ref, it=it, kind='update', ret=ret))
            out.append(s)
    return out


@native('anyall')
def n_anyall(m, st, nf, msg, v):
    d = nf.d
    if msg == 'go':
        return m.next(st, d['it'])
    if msg == 'item':
        out = []
        for s, b in m.truth(st, v):
            if b == (d['kind'] == 'any'):
                s.frames.pop()
                out.extend(m.ret(s, boolt(b)))
            else:
                out.append(s)
        return out
    st.frames.pop()
    return m.ret(st, boolt(d['kind'] == 'all'))


@native('fold')
def n_fold(m, st, nf, msg, v):
    """min/max/sum/join over an iterable"""
    d = nf.d
    if msg == 'go':
        return m.next(st, d['it'])
    if msg == 'item':
        if d['kind'] == 'join':
            ks = m.kinds(st, v)
            if ks is not None:
                out = []
                for s, g in m.split_kinds(st, v, lambda k: k in ('str', 'strsub')):
                    if g:
                        out.append(s)
                    else:
                        out.extend(m.throw(s, Raise('TypeError', 'sequence item %s is not a str' % show(v))))
                return out
            if v.op in ('tuple', 'form', 'glob', 'cls', 'ref', 'lin', 'func', 'nt'):
                return m.throw(st, Raise('TypeError', 'sequence item %s is not a str' % show(v)))
            return [st]
        acc = d['acc']
        if d['kind'] == 'sum':
            if as_lin(acc) is not None and as_lin(v) is not None:
                nf.d['acc'] = lin_add(acc, v)
                return [st]
            if v.op in ('eq', 'in', 'truth', 'not'):
                out = []
                for s, b in m.truth(st, v):
                    s.frames[-1].d['acc'] = lin_add(acc, const(int(b))) if as_lin(acc) else mk('opq', 'sum')
                    out.append(s)
                return out
        nf.d['acc'] = mk('opq', d['kind'])
        st.taint(d['kind'])
        return [st]
    st.frames.pop()
    if d['kind'] == 'join':
        return m.ret(st, mk('call', glob('builtins.str'), const('join')))
    return m.ret(st, nf.d['acc'])


@native('next')
def n_next(m, st, nf, msg, v):
    st.frames.pop()
    if msg == 'item':
        return m.ret(st, v)
    d = nf.d['default']
    if d is None:
        return m.throw(st, Raise('StopIteration', 'next() on an exhausted iterator'))
    return m.ret(st, d)


@native('reduce')
def n_reduce(m, st, nf, msg, v):
    d = nf.d
    if msg == 'go':
        return m.next(st, d['it'])
    if msg == 'item':
        if d['acc'] is None:
            d['acc'] = v
            return [st]
        return m.call(st, d['f'], (d['acc'], v), ())
    if msg == 'val':
        d['acc'] = v
        return [st]
    st.frames.pop()
    if d['acc'] is None:
        return m.throw(st, Raise('TypeError', 'reduce() of empty iterable with no initial value'))
    return m.ret(st, d['acc'])


@native('sort')
def n_sort(m, st, nf, msg, v):
    d = nf.d
    ref = d['ref']
    items = m.obj(st, ref).data
    keys = d['keys']
    if msg == 'val':
        keys = keys + (v,)
        d['keys'] = keys
        return [st]
    if len(keys) < len(items):
        if d['key'] is NONE:
            d['keys'] = keys + (items[len(keys)],)
            return [st]
        return m.call(st, d['key'], (items[len(keys)],), ())
    st.frames.pop()
    out = []
    for s, ks in concretise(m, st, keys):
        for s2, order in sort_order(m, s, ks, d['reverse']):
            if israise(order):
                out.extend(m.throw(s2, order))
                continue
            m.touch(s2, ref, 'sort')
            s2.heap[ref] = m.obj(s2, ref).with_(tuple(items[i] for i in order))
            out.extend(m.ret(s2, d['ret']))
    return out


def sort_order(m, st, keys, reverse):
    """the permutations sorting can yield"""
    if len(keys) < 2:
        return [(st, tuple(range(len(keys))))]
    try:
        if not any(symbolic(k) for k in keys):
            return [(st, tuple(sorted(range(len(keys)), key=lambda i: keys[i], reverse=reverse)))]
    except TypeError as e:
        return [(st, Raise('TypeError', str(e)))]
    terms = []
    for k in keys:
        t = k if isinstance(k, Term) else const(k) if isinstance(k, (bool, int, float, str, bytes, type(None))) else None
        if t is None or not m.kinds(st, t):
            st.taint('sort order')
            return [(st, tuple(range(len(keys))))]
        terms.append(t)
    cur = [(st, ())]
    for i in range(len(keys)):
        nxt = []
        for s, order in cur:
            nxt.extend(insert_sorted(m, s, terms, order, len(order), i, reverse))
        cur = nxt
    return cur


def symbolic(k):
    return isinstance(k, Term) or isinstance(k, tuple) and any(symbolic(i) for i in k)


def insert_sorted(m, st, terms, order, at, i, reverse):
    if israise(order):
        return [(st, order)]
    if at == 0:
        return [(st, (i,) + order)]
    j = order[at - 1]
    out = []
    for s, less in data_order(m, st, '<', terms[j] if reverse else terms[i], terms[i] if reverse else terms[j]):
        if israise(less):
            out.append((s, less))
        elif less:
            out.extend(insert_sorted(m, s, terms, order, at - 1, i, reverse))
        else:
            out.append((s, order[:at] + (i,) + order[at:]))
    return out


def concretise(m, st, keys):
    cur = [(st, ())]
    for k in keys:
        nxt = []
        for s, acc in cur:
            if k.op == 'const':
                nxt.append((s, acc + (cval(k),)))
            elif k.op == 'tuple':
                for s2, c in concretise(m, s, k.args):
                    nxt.append((s2, acc + (c,)))
            elif k.op in ('eq', 'in', 'truth', 'not'):
                for s2, b in m.truth(s, k):
                    nxt.append((s2, acc + (b,)))
            else:
                nxt.append((s, acc + (k,)))
        cur = nxt
    return cur


UNSORTED = ('F', 'E', 'M')


def sort_summary(m, st, ref, key, ret):
    """sorting a sequence with summarised parts.  The order in which the keys of a dictionary or the elements of a set
    come is not tracked anyway; what matters is whether they can be compared"""
    m.touch(st, ref, 'sort')
    o = m.obj(st, ref)
    kinds = set()
    known = key is NONE
    for x in o.data:
        if x.op == 'starseg' and x.args[0].op == 'star' and x.args[0].args[0] in UNSORTED:
            ts = [i for items in st.alts.get(x.args[1], {}) for i in items]
        elif x.op in ('starseg', 'unkseg'):
            known = False
            continue
        else:
            ts = [x]
        for t in ts:
            k = m.kinds(st, t)
            if not k:
                known = False
            else:
                kinds |= set(map(order_class, k))
    if not known:
        st.taint('sorting a summarised sequence')
        return m.ret(st, ret)
    if len(kinds) < 2 and 'no' not in kinds and 'maybe' not in kinds:
        return m.ret(st, ret)
    out = []
    for s, v in m.split(st, mk('cmp', 'sortable', *[y for y in o.data])):
        out.extend(m.ret(s, ret) if v else m.throw(s, Raise('TypeError', "'<' not supported between these values")))
    return out


def do_sort(m, st, ref, key, reverse, ret):
    o = m.obj(st, ref)
    if not plain(o.data):
        return sort_summary(m, st, ref, key, ret)
    st.frames.append(NFrame('sort', ref=ref, key=key, reverse=reverse, ret=ret, keys=()))
    return [st]


# ===================================================================== lazy iterators
def lazy_next(m, st, it, o):
    t = o.data[0]
    if t == 'chain':
        subs = o.data[1]
        if not subs:
            return m.stop(st)
        st.frames.append(NFrame('lz_chain', it=it))
        return m.next(st, subs[0])
    if t in ('map', 'zip'):
        subs = o.data[2] if t == 'map' else o.data[1]
        if not subs:
            return m.stop(st)
        st.frames.append(NFrame('lz_zip', it=it, got=(), f=o.data[1] if t == 'map' else None, subs=subs, ph=0))
        return m.next(st, subs[0])
    if t == 'compress':
        st.frames.append(NFrame('lz_compress', it=it, datum=None))
        return m.next(st, o.data[1])
    if t == 'enumerate':
        st.frames.append(NFrame('lz_enum', it=it))
        return m.next(st, o.data[2])
    if t in ('filter', 'filterfalse', 'takewhile', 'starmap', 'dropwhile'):
        st.frames.append(NFrame('lz_filter', it=it, x=None))
        return m.next(st, o.data[2])
    if t == 'islice':
        n = o.data[2]
        if n is not NONE:
            out = []
            for s, g in m.split_sign(st, n) if as_lin(n) is not None else [(st, 1)]:
                if g <= 0:
                    out.extend(m.stop(s))
                else:
                    if as_lin(n) is not None:
                        s.heap[it] = o.with_(('islice', o.data[1], lin_add(n, const(1), -1)))
                    out.extend(m.next(s, o.data[1]))
            return out
        return m.next(st, o.data[1])
    raise AnalysisError('iterator ' + t)


@native('lz_chain')
def n_chain(m, st, nf, msg, v):
    it = nf.d['it']
    if msg == 'go':
        o = m.obj(st, it)
        if not o.data[1]:
            st.frames.pop()
            return m.stop(st)
        return m.next(st, o.data[1][0])
    if msg == 'item':
        st.frames.pop()
        return m.item(st, v)
    o = m.obj(st, it)
    st.heap[it] = o.with_(('chain', o.data[1][1:]))
    return [st]


@native('lz_zip')
def n_zip(m, st, nf, msg, v):
    d = nf.d
    if msg == 'go':
        return m.next(st, d['subs'][len(d['got'])])
    if msg == 'item':
        got = d['got'] + (v,)
        d['got'] = got
        if len(got) < len(d['subs']):
            return m.next(st, d['subs'][len(got)])
        if d['f'] is None:
            st.frames.pop()
            return m.item(st, mk('tuple', *got))
        return m.call(st, d['f'], got, ())
    if msg == 'val':
        st.frames.pop()
        return m.item(st, v)
    st.frames.pop()
    return m.stop(st)


@native('lz_compress')
def n_compress(m, st, nf, msg, v):
    d = nf.d
    o = m.obj(st, d['it'])
    if msg == 'go':
        return m.next(st, o.data[1])
    if msg == 'item':
        if d['datum'] is None:
            d['datum'] = v
            return m.next(st, o.data[2])
        out = []
        for s, b in m.truth(st, v):
            f = s.frames[-1]
            if b:
                x = f.d['datum']
                s.frames.pop()
                out.extend(m.item(s, x))
            else:
                f.d['datum'] = None
                out.append(s)
        return out
    st.frames.pop()
    return m.stop(st)


@native('lz_enum')
def n_enum(m, st, nf, msg, v):
    it = nf.d['it']
    st.frames.pop()
    if msg == 'item':
        o = m.obj(st, it)
        n = o.data[1]
        st.heap[it] = o.with_(('enumerate', lin_add(n, const(1)) if as_lin(n) is not None else mk('opq', 'int'), o.data[2]))
        return m.item(st, mk('tuple', n, v))
    return m.stop(st)


@native('lz_filter')
def n_filter(m, st, nf, msg, v):
    d = nf.d
    o = m.obj(st, d['it'])
    t, f, sub = o.data[:3]
    if msg == 'go':
        return m.next(st, sub)
    if msg == 'item':
        d['x'] = v
        if t == 'starmap':
            if v.op == 'tuple':
                return m.call(st, f, v.args, ())
            st.taint('starmap')
            return m.call(st, f, (mk('opq', 'item'),), ())
        if f is NONE:
            return n_filter(m, st, nf, 'val', v)
        return m.call(st, f, (v,), ())
    if msg == 'val':
        if t == 'starmap':
            st.frames.pop()
            return m.item(st, v)
        out = []
        for s, b in m.truth(st, v):
            g = s.frames[-1]
            if b == (t != 'filterfalse'):
                x = g.d['x']
                s.frames.pop()
                out.extend(m.item(s, x))
            elif t == 'takewhile':
                s.frames.pop()
                out.extend(m.stop(s))
            else:
                g.d['x'] = None
                out.append(s)
        return out
    st.frames.pop()
    return m.stop(st)


def lazy(m, st, data):
    return m.alloc(st, 'iter', None, data)


def iters(m, st, srcs):
    """-> [(state, tuple of iterators | Raise)]"""
    cur = [(st, ())]
    bad = []
    for x in srcs:
        nxt = []
        for s, acc in cur:
            for s2, it in m.get_iter(s, x):
                if israise(it):
                    bad.append((s2, it))
                else:
                    nxt.append((s2, acc + (it,)))
        cur = nxt
    return cur + bad


@fn('builtins.map')
def f_map(m, st, f, args, kw):
    return m.ret_all([(s, its if israise(its) else lazy(m, s, ('map', args[0], its))) for s, its in iters(m, st, args[1:])])


@fn('builtins.zip')
def f_zip(m, st, f, args, kw):
    if kw and any(k == 'strict' and v is not FALSE for k, v in kw):
        st.taint('strict zip')
    return m.ret_all([(s, its if israise(its) else lazy(m, s, ('zip', its))) for s, its in iters(m, st, args)])


@fn('itertools.compress')
def f_compress(m, st, f, args, kw):
    return m.ret_all([(s, its if israise(its) else lazy(m, s, ('compress',) + its)) for s, its in iters(m, st, args[:2])])


@fn('builtins.enumerate')
def f_enumerate(m, st, f, args, kw):
    start = args[1] if len(args) > 1 else dict(kw).get('start', const(0))
    return m.ret_all([(s, its if israise(its) else lazy(m, s, ('enumerate', start) + its)) for s, its in iters(m, st, args[:1])])


@fn('builtins.filter', 'itertools.filterfalse', 'itertools.takewhile', 'itertools.dropwhile', 'itertools.starmap')
def f_filter(m, st, f, args, kw):
    n = f.args[0].rsplit('.', 1)[-1]
    if n == 'dropwhile':
        st.taint('dropwhile')
    return m.ret_all([(s, its if israise(its) else lazy(m, s, (n, args[0]) + its)) for s, its in iters(m, st, args[1:2])])


@fn('itertools.chain')
def f_chain(m, st, f, args, kw):
    return m.ret_all([(s, its if israise(its) else lazy(m, s, ('chain', its))) for s, its in iters(m, st, args)])


@fn('itertools.chain.from_iterable')
def f_chainfi(m, st, f, args, kw):
    out = []
    for s, segs in m.segments(st, args[0]):
        if israise(segs):
            out.extend(m.throw(s, segs))
        elif segs is None or not plain(segs):
            s.taint('chain.from_iterable')
            out.extend(m.ret(s, mk('opq', 'chain')))
        else:
            out.extend(m.ret_all([(s2, its if israise(its) else lazy(m, s2, ('chain', its))) for s2, its in iters(m, s, segs)]))
    return out


@fn('itertools.islice')
def f_islice(m, st, f, args, kw):
    if len(args) == 2:
        return m.ret_all([(s, its if israise(its) else lazy(m, s, ('islice',) + its + (args[1],))) for s, its in iters(m, st, args[:1])])
    if len(args) == 3 and args[1] is const(0):
        return m.ret_all([(s, its if israise(its) else lazy(m, s, ('islice',) + its + (args[2],))) for s, its in iters(m, st, args[:1])])
    st.taint('islice')
    return m.ret(st, mk('opq', 'islice'))


@fn('itertools.count')
def f_count(m, st, f, args, kw):
    k = dict(kw)
    a = args[0] if args else k.get('start', const(0))
    b = args[1] if len(args) > 1 else k.get('step', const(1))
    return m.ret(st, lazy(m, st, ('count', a, b)))


@fn('itertools.repeat')
def f_repeat(m, st, f, args, kw):
    return m.ret(st, lazy(m, st, ('repeat', args[0], args[1] if len(args) > 1 else NONE)))


@fn('builtins.range')
def f_range(m, st, f, args, kw):
    for a in args:
        if as_lin(a) is None:
            ks = m.kinds(st, a)
            if ks is not None and not ks & {'int', 'bool'}:
                return m.throw(st, Raise('TypeError', 'range() needs an int'))
            st.taint('range')
            return m.ret(st, mk('opq', 'range'))
    if len(args) == 1:
        d = (const(0), args[0], const(1))
    else:
        d = (args[0], args[1], args[2] if len(args) > 2 else const(1))
    return m.ret(st, m.alloc(st, 'range', None, d))


@fn('builtins.reversed')
def f_reversed(m, st, f, args, kw):
    out = []
    for s, segs in m.segments(st, args[0]):
        if israise(segs):
            out.extend(m.throw(s, segs))
        elif segs is not None and plain(segs):
            out.extend(m.ret(s, m.mk_iter(s, tuple(reversed(segs)))))
        else:
            s.taint('reversed')
            out.extend(m.ret(s, m.mk_iter(s, (mk('unkseg', mk('opq', 'item')),))))
    return out


@fn('builtins.iter')
def f_iter(m, st, f, args, kw):
    if len(args) == 2:
        st.taint('iter with sentinel')
        return m.ret(st, mk('opq', 'iter'))
    return m.ret_all(m.get_iter(st, args[0]))


@fn('builtins.next')
def f_next(m, st, f, args, kw):
    if not isref(m, st, args[0], 'iter', 'gen'):
        if args[0].op in ('ref', 'tuple', 'const'):
            return m.throw(st, Raise('TypeError', 'object is not an iterator'))
    st.frames.append(NFrame('next', default=args[1] if len(args) > 1 else None))
    return m.next(st, args[0])


@fn('builtins.any', 'builtins.all')
def f_anyall(m, st, f, args, kw):
    out = []
    for s, it in m.get_iter(st, args[0]):
        if israise(it):
            out.extend(m.throw(s, it))
        else:
            s.frames.append(NFrame('anyall', it=it, kind=f.args[0][9:]))
            out.append(s)
    return out


@fn('builtins.sum', 'builtins.min', 'builtins.max')
def f_sum(m, st, f, args, kw):
    kind = f.args[0][9:]
    if kind in ('min', 'max') and len(args) > 1:
        if all(a.op == 'const' for a in args) and not kw:
            try:
                return m.ret(st, const(getattr(builtins, kind)(*[cval(a) for a in args])))
            except TypeError as e:
                return m.throw(st, Raise('TypeError', str(e)))
        if len(args) == 2 and not kw and all(as_lin(a) is not None for a in args):
            out = []
            for s, g in m.split_sign(st, lin_add(args[0], args[1], -1)):
                out.extend(m.ret(s, args[0] if (g <= 0) == (kind == 'min') else args[1]))
            return out
        st.taint(kind)
        return m.ret(st, mk('opq', kind))
    if kind in ('min', 'max'):
        k = dict(kw)
        st.frames.append(NFrame('first', kind=kind, default=k.get('default')))
        st.frames.append(NFrame('sorted2', key=k.get('key', NONE), rev=kind == 'max'))
        return collect(m, st, args[0], 'list')
    out = []
    for s, it in m.get_iter(st, args[0]):
        if israise(it):
            out.extend(m.throw(s, it))
        else:
            s.frames.append(NFrame('fold', it=it, kind=kind, acc=args[1] if len(args) > 1 else const(0)))
            out.append(s)
    return out


@fn('functools.reduce', '_functools.reduce')
def f_reduce(m, st, f, args, kw):
    out = []
    for s, it in m.get_iter(st, args[1]):
        if israise(it):
            out.extend(m.throw(s, it))
        else:
            s.frames.append(NFrame('reduce', it=it, f=args[0], acc=args[2] if len(args) > 2 else None))
            out.append(s)
    return out


# ===================================================================== builtin functions
@fn('builtins.len')
def f_len(m, st, f, args, kw):
    return m.ret_all(length(m, st, args[0]))


@fn('builtins.isinstance')
def f_isinstance(m, st, f, args, kw):
    return m.ret_all([(s, v if israise(v) else boolt(v)) for s, v in isinstance_(m, st, args[0], args[1])])


@fn('builtins.issubclass')
def f_issubclass(m, st, f, args, kw):
    return m.ret_all([(s, v if israise(v) else boolt(v)) for s, v in issubclass_(m, st, args[0], args[1])])


@fn('builtins.type')
def f_type(m, st, f, args, kw):
    if len(args) == 1:
        return m.ret(st, m.typeof(st, args[0]))
    return m.ret(st, mkcall(f, args, kw))


def const_name(m, st, t):
    return cval(t) if t.op == 'const' and isinstance(cval(t), str) else None


@fn('builtins.hasattr')
def f_hasattr(m, st, f, args, kw):
    n = const_name(m, st, args[1])
    if n is None:
        dyn_attr(m, st, args[0], args[1])
        return m.ret(st, TRUE) if False else m.ret_all([(s, boolt(v)) for s, v in m.split(st, mk('hasattr', args[0], args[1]))])
    out = []
    for s, v in m.getattr(st, args[0], n):
        if israise(v):
            if v.cls is glob('builtins.AttributeError'):
                out.extend(m.ret(s, FALSE))
            else:
                out.extend(m.throw(s, v))
        else:
            out.extend(m.ret(s, TRUE))
    return out


def dyn_attr(m, st, o, n):
    h = m.hooks.get('dynattr')
    if h:
        h(m, st, o, n)


@fn('builtins.getattr')
def f_getattr(m, st, f, args, kw):
    n = const_name(m, st, args[1])
    if n is None:
        # a field of an object, by symbolic name
        o = args[0]
        if args[1].op in ('name',) or (args[1].op == 'elem' and args[1].args[0].op == 'star'):
            r = sym_attr(m, st, o, args[1])
            if r is not None:
                if israise(r) and len(args) > 2:
                    return m.ret(st, args[2])
                return m.ret_all([(st, r)])
        dyn_attr(m, st, o, args[1])
        return m.ret(st, mk('attr', o, args[1]))
    out = []
    for s, v in m.getattr(st, args[0], n):
        if israise(v):
            if len(args) > 2 and v.cls is glob('builtins.AttributeError'):
                out.extend(m.ret(s, args[2]))
            else:
                out.extend(m.throw(s, v))
        elif v.op == 'prop':
            if len(args) > 2:
                s.taint('property with default')
            out.extend(m.call(s, v.args[0], (v.args[1],), ()))
        else:
            out.extend(m.ret(s, v))
    return out


def sym_attr(m, st, o, name):
    """value of the field with a symbolic name"""
    if o.op == 'ref':
        ob = m.obj(st, o)
        t = ob.map().get('#fields')
        if t is not None:
            r = m.lookup(st.copy(), m.obj(st, t).data, name)
            if len(r) == 1:
                return r[0][1] if r[0][1] is not None else Raise('AttributeError', 'no field %s' % show(name))
    return None


@fn('builtins.setattr')
def f_setattr(m, st, f, args, kw):
    n = const_name(m, st, args[1])
    if n is None:
        hk = m.hooks.get('mutate_term')
        if args[0].op == 'ref':
            m.touch(st, args[0], ('setattr', show(args[1])))
        elif hk:
            hk(m, st, args[0], 'attribute assignment')
        return m.ret(st, NONE)
    return m.ret_all([(s, NONE if r is None else r) for s, r in setattr_(m, st, args[0], n, args[2])])


@fn('builtins.delattr')
def f_delattr(m, st, f, args, kw):
    if args[0].op == 'ref':
        m.touch(st, args[0], ('delattr', show(args[1])))
    return m.ret(st, NONE)


@fn('builtins.vars')
def f_vars(m, st, f, args, kw):
    from .ops import deliver_attr
    out = []
    for s, v in m.getattr(st, args[0], '__dict__'):
        out.extend(m.throw(s, Raise('TypeError', 'vars() argument must have __dict__')) if israise(v) else m.ret(s, v))
    return out


@fn('builtins.dir')
def f_dir(m, st, f, args, kw):
    return m.ret(st, mk('dirof', args[0]))


@fn('builtins.callable')
def f_callable(m, st, f, args, kw):
    x = args[0]
    if x.op in ('func', 'glob', 'form', 'cls', 'bm', 'bfunc', 'partial', 'user'):
        if x.op == 'glob' and real(x) is not MISSING:
            return m.ret(st, boolt(callable(real(x))))
        return m.ret(st, TRUE)
    if x.op in ('const', 'tuple', 'ref', 'lin', 'name'):
        return m.ret(st, FALSE)
    if m.is_data(x) and m.kinds(st, x) is not None:
        out = []
        for s, g in m.split_kinds(st, x, lambda k: k == 'object'):
            out.extend(m.ret_all([(t, boolt(v)) for t, v in (m.split(s, mk('callable', x)) if g else [(s, False)])]))
        return out
    return m.ret_all([(s, boolt(v)) for s, v in m.split(st, mk('callable', x))])


@fn('builtins.bool')
def f_bool(m, st, f, args, kw):
    if not args:
        return m.ret(st, FALSE)
    ks = m.kinds(st, args[0])
    if ks is not None and m.is_data(args[0]):
        return m.ret(st, mkcall(f, args, kw))
    return m.ret_all([(s, boolt(v)) for s, v in m.truth(st, args[0])])


@fn('builtins.str')
def f_str(m, st, f, args, kw):
    if not args:
        return m.ret(st, const(''))
    x = args[0]
    if x.op == 'const' and x.args[0] in ('str', 'int', 'NoneType', 'bool'):
        return m.ret(st, const(str(cval(x))))
    if x.op == 'ref':
        o = m.obj(st, x)
        if o.kind == 'inst' and o.cls is not None:
            c = o.cls.args[0] if o.cls.op == 'anyexc' else o.cls
            if c.op == 'cls':
                g = m.class_attr(st, c, '__str__')
                if g is not None and g.op == 'func':
                    if m.hooks.get('nostr'):
                        return m.ret(st, mk('call', f, x))
                    return m.push_func(st, g, [x], ())
    return m.ret(st, mkcall(f, args, kw))


@fn('builtins.repr', 'builtins.ascii', 'builtins.format')
def f_repr(m, st, f, args, kw):
    return m.ret(st, mkcall(f, args, kw))


@fn('builtins.hash')
def f_hash(m, st, f, args, kw):
    return m.ret_all([(s, v if israise(v) else mkcall(f, args, kw)) for s, v in m.hashable(st, args[0])])


@fn('builtins.id')
def f_id(m, st, f, args, kw):
    return m.ret(st, mkcall(f, args, kw))


def num_ctor(m, st, f, args, kw, table):
    """int()/float()/bytes() on a value: table kind -> exceptions"""
    if not args:
        return m.ret(st, {'builtins.int': const(0)}.get(f.args[0], mkcall(f, args, kw)))
    x = args[0]
    if as_lin(x) is not None and f.args[0] == 'builtins.int':
        return m.ret(st, x if x.op == 'lin' else const(int(cval(x))))
    if x.op in ('tuple', 'nt', 'form', 'glob', 'cls', 'func') or x.op == 'ref':
        return m.throw(st, Raise('TypeError', '%s() argument' % show(f)))
    ks = m.kinds(st, x)
    t = mkcall(f, args, kw)
    if ks is None:
        if x.op != 'call' and not component(x):
            st.taint('%s of %s' % (show(f), show(x)))
        return m.ret(st, t)
    out = []
    for s, c in m.split_kinds(st, x, lambda k: table.get(k, ('TypeError!',))):
        if c == ('TypeError!',):
            out.extend(m.throw(s, Raise('TypeError', '%s(%s)' % (show(f), show(x)))))
            continue
        out.extend(may_fail(m, s, t, c, '%s(%s)' % (show(f), show(x))))
    return out


@fn('builtins.int')
def f_int(m, st, f, args, kw):
    return num_ctor(m, st, f, args, kw, {'bool': (), 'int': (), 'float': ('ValueError', 'OverflowError'),
                                         'str': ('ValueError',), 'strsub': ('ValueError',), 'bytes': ('ValueError',),
                                         'robj': ('TypeError',), 'urobj': ('TypeError',)})


@fn('builtins.float')
def f_float(m, st, f, args, kw):
    return num_ctor(m, st, f, args, kw, {'bool': (), 'int': ('OverflowError',), 'float': (),
                                         'str': ('ValueError',), 'strsub': ('ValueError',), 'bytes': ('ValueError',),
                                         'robj': ('TypeError',), 'urobj': ('TypeError',)})


@fn('builtins.bytes')
def f_bytes(m, st, f, args, kw):
    t = {'bool': (), 'int': ('ValueError', 'OverflowError', 'MemoryError'), 'bytes': ()}
    for k in ('list', 'tuple', 'set', 'frozenset', 'iterator', 'dict', 'mapping'):
        t[k] = ('ValueError', 'TypeError')
    return num_ctor(m, st, f, args, kw, t)


@fn('builtins.NoneType')
def f_nonetype(m, st, f, args, kw):
    if not args:
        return m.ret(st, NONE)
    return m.throw(st, Raise('TypeError', 'NoneType takes no arguments'))


@fn('builtins.list', 'builtins.tuple', 'builtins.set', 'builtins.frozenset')
def f_coll(m, st, f, args, kw):
    kind = f.args[0][9:]
    if not args:
        if kind == 'tuple':
            return m.ret(st, mk('tuple'))
        return m.ret(st, m.alloc(st, kind, None, ()))
    x = args[0]
    if kind == 'tuple' and x.op == 'tuple':
        return m.ret(st, x)
    if kind in ('set', 'frozenset') and setlike(m, st, x):
        return m.ret(st, m.alloc(st, kind, None, set_data(m, st, x)))
    if x.op == 'ref':
        o = m.obj(st, x)
        if kind in ('set', 'frozenset') and o.kind in ('dict',):
            return m.ret(st, m.alloc(st, kind, None, set_data(m, st, x)))
        if kind in ('list', 'tuple') and o.kind in ('list', 'dict', 'set', 'frozenset', 'view'):
            segs = m.segments(st, x)[0][1]
            return m.ret(st, m.alloc(st, 'list', None, segs) if kind == 'list' else mk('tuple', *segs))
    return collect(m, st, x, kind)


@fn('builtins.dict', 'collections.OrderedDict')
def f_dict(m, st, f, args, kw):
    r = m.alloc(st, 'dict', None, tuple(mk('ent', const(k), v) for k, v in kw if k != '**') if not args else ())
    stars = [v for k, v in kw if k == '**']
    if args and kw or stars and (len(stars) > 1 or len(kw) > 1):
        st.taint('dict(x, **y)')
    elif stars:
        return dict_update(m, st, r, stars[0], r)
    if not args:
        return m.ret(st, r)
    return dict_update(m, st, r, args[0], r)


@fn('types.MappingProxyType')
def f_mproxy(m, st, f, args, kw):
    r = m.alloc(st, 'dict', None, ())
    return dict_update(m, st, r, args[0], r)


@fn('collections.defaultdict')
def f_defaultdict(m, st, f, args, kw):
    st.taint('defaultdict')
    return m.ret(st, m.alloc(st, 'dict', None, ()))


def fromkeys(m, st, args, kw):
    v = args[1] if len(args) > 1 else NONE
    out = []
    for s, its in iters(m, st, args[:1]):
        if israise(its):
            out.extend(m.throw(s, its))
            continue
        r = m.alloc(s, 'dict', None, ())
        out.extend(update_pairs(m, s, r, lazy(m, s, ('zip', its + (lazy(m, s, ('repeat', v, NONE)),))), r))
    return out


@fn('builtins.dict.fromkeys')
def f_fromkeys(m, st, f, args, kw):
    return fromkeys(m, st, args, kw)


@fn('builtins.sorted')
def f_sorted(m, st, f, args, kw):
    k = dict(kw)
    key = k.get('key', NONE)
    rev = k.get('reverse', FALSE) is TRUE
    st.frames.append(NFrame('sorted2', key=key, rev=rev))
    return collect(m, st, args[0], 'list')


@native('sorted2')
def n_sorted2(m, st, nf, msg, v):
    st.frames.pop()
    return do_sort(m, st, v, nf.d['key'], nf.d['rev'], v)


@native('first')
def n_first(m, st, nf, msg, v):
    st.frames.pop()
    items = m.obj(st, v).data
    if not plain(items):
        st.taint(nf.d['kind'])
        return m.ret(st, mk('opq', nf.d['kind']))
    if not items:
        if nf.d['default'] is not None:
            return m.ret(st, nf.d['default'])
        return m.throw(st, Raise('ValueError', '%s() of an empty iterable' % nf.d['kind']))
    return m.ret(st, items[0])


@fn('builtins.print')
def f_print(m, st, f, args, kw):
    return m.ret(st, NONE)


@fn('builtins.super')
def f_super(m, st, f, args, kw):
    st.taint('super')
    return m.ret(st, mk('opq', 'super'))


@fn('builtins.object')
def f_object(m, st, f, args, kw):
    return m.ret(st, m.alloc(st, 'inst', f, ()))


@fn('builtins.staticmethod')
def f_static(m, st, f, args, kw):
    return m.ret(st, mk('smeth', args[0]))


@fn('builtins.classmethod')
def f_classm(m, st, f, args, kw):
    return m.ret(st, mk('cmeth', args[0]))


@fn('builtins.property', 'functools.cached_property')
def f_property(m, st, f, args, kw):
    return m.ret(st, mk('propdef', args[0]))


@fn('builtins.abs', 'builtins.round', 'builtins.divmod', 'builtins.ord', 'builtins.chr', 'builtins.hex', 'builtins.bin', 'builtins.pow')
def f_num(m, st, f, args, kw):
    return m.ret(st, mkcall(f, args, kw))


@fn('builtins.slice')
def f_slice(m, st, f, args, kw):
    a = list(args) + [NONE] * 3
    if len(args) == 1:
        return m.ret(st, mk('slice', NONE, args[0], NONE))
    return m.ret(st, mk('slice', a[0], a[1], a[2]))


# ===================================================================== functools, operator, copy, contextlib
@fn('functools.partial')
def f_partial(m, st, f, args, kw):
    return m.ret(st, mk('partial', args[0], tuple(args[1:]), tuple(kw)))


@fn('functools.wraps')
def f_wraps(m, st, f, args, kw):
    return m.ret(st, mk('decor', _identity))


@fn('functools.update_wrapper')
def f_uw(m, st, f, args, kw):
    return m.ret(st, args[0])


def _identity(m, st, f, args, kw):
    return m.ret(st, args[0])


@fn('functools.lru_cache', 'functools.cache')
def f_lru(m, st, f, args, kw):
    if args and args[0].op in ('func', 'glob', 'cls'):
        return m.ret(st, mk('cached', args[0]))
    return m.ret(st, mk('decor', lambda m, st, f, a, k: m.ret(st, mk('cached', a[0]))))


@fn('operator.itemgetter', 'operator.attrgetter')
def f_getter(m, st, f, args, kw):
    return m.ret(st, mk('getter', f.args[0][9:13], *args))


@fn('operator.methodcaller')
def f_mc(m, st, f, args, kw):
    st.taint('methodcaller')
    return m.ret(st, mk('opq', 'methodcaller'))


@fn('operator.contains', '_operator.contains')
def f_contains(m, st, f, args, kw):
    return m.ret_all([(s, v if israise(v) else boolt(v)) for s, v in contains(m, st, args[1], args[0])])


@fn('_operator.eq', '_operator.ne', '_operator.lt', '_operator.gt', '_operator.le', '_operator.ge')
def f_opcmp(m, st, f, args, kw):
    o = {'eq': '==', 'ne': '!=', 'lt': '<', 'gt': '>', 'le': '<=', 'ge': '>='}[f.args[0][-2:]]
    return m.ret_all([(s, v if israise(v) else boolt(v)) for s, v in compare(m, st, o, args[0], args[1])])


@fn('_operator.or_', '_operator.and_', '_operator.sub', '_operator.add', '_operator.xor')
def f_opbin(m, st, f, args, kw):
    o = {'or_': '|', 'and_': '&', 'sub': '-', 'add': '+', 'xor': '^'}[f.args[0].split('.')[1]]
    return binop(m, st, o, args[0], args[1])


@fn('copy.copy', 'copy.deepcopy')
def f_copy(m, st, f, args, kw):
    x = args[0]
    if x.op == 'ref':
        o = m.obj(st, x)
        if o.kind in ('list', 'dict', 'set'):
            return m.ret(st, m.alloc(st, o.kind, o.cls, o.data))
        if o.kind == 'inst':
            return m.ret(st, m.alloc(st, 'inst', o.cls, o.data))
    if x.op in ('const', 'tuple', 'nt', 'form', 'glob', 'name', 'lin', 'func'):
        return m.ret(st, x)
    return m.ret(st, mkcall(f, args, kw))


@fn('contextlib.suppress')
def f_suppress(m, st, f, args, kw):
    return m.ret(st, m.alloc(st, 'inst', f, (('#types', mk('tuple', *args)),)))


@fn('contextlib.contextmanager')
def f_cm(m, st, f, args, kw):
    return m.ret(st, mk('cmfunc', args[0]))


@fn('contextlib.nullcontext')
def f_nullc(m, st, f, args, kw):
    return m.ret(st, m.alloc(st, 'inst', f, (('#v', args[0] if args else NONE),)))


@native('cm_make')
def n_cm_make(m, st, nf, msg, v):
    st.frames.pop()
    return m.ret(st, m.alloc(st, 'inst', glob('contextlib.contextmanager'), (('#gen', v),)))


def before_with(m, st, fr):
    c = fr.stack.pop()
    if c.op == 'ref':
        o = m.obj(st, c)
        mp = o.map() if o.kind == 'inst' else {}
        if '#gen' in mp:
            fr.stack.append(mk('cmexit', c))
            st.frames.append(NFrame('cm_enter'))
            return m.next(st, mp['#gen'])
        if '#types' in mp or '#v' in mp:
            fr.stack.append(mk('cmexit', c))
            fr.stack.append(mp.get('#v', NONE))
            return [st]
        if o.kind == 'inst' and o.cls is not None and o.cls.op == 'cls':
            ex = m.class_attr(st, o.cls, '__exit__')
            en = m.class_attr(st, o.cls, '__enter__')
            if en is None or ex is None:
                return m.throw(st, Raise('TypeError', 'not a context manager'))
            fr.stack.append(mk('bm', c, ex))
            return m.push_func(st, en, [c], ())
    if c.op in ('call', 'attr', 'opq') or c.op == 'ref':
        fr.stack.append(mk('cmexit', c))
        fr.stack.append(c)
        return [st]
    return m.throw(st, Raise('TypeError', 'not a context manager'))


@native('cm_enter')
def n_cm_enter(m, st, nf, msg, v):
    st.frames.pop()
    if msg == 'item':
        return m.ret(st, v)
    return m.throw(st, Raise('RuntimeError', "generator didn't yield"))


@native('cm_exit')
def n_cm_exit(m, st, nf, msg, v):
    st.frames.pop()
    if msg == 'stop':
        return m.ret(st, NONE)
    return m.throw(st, Raise('RuntimeError', "generator didn't stop"))


@native('cm_exit_exc', catches=True)
def n_cm_exit_exc(m, st, nf, msg, v):
    st.frames.pop()
    if msg == 'stop':
        return m.ret(st, TRUE)
    if msg == 'raise':
        if v is nf.d['exc']:
            return m.ret(st, FALSE)
        return m.throw(st, v)
    return m.throw(st, Raise('RuntimeError', "generator didn't stop after throw()"))


def cm_exit(m, st, c, exc):
    """call of a context manager's exit; exc None on normal exit; delivers a value"""
    if c.op == 'ref':
        mp = m.obj(st, c).map() if m.obj(st, c).kind == 'inst' else {}
        if '#types' in mp:
            if exc is None:
                return m.ret(st, NONE)
            out = []
            for s, v in exc_match(m, st, exc, mp['#types']):
                out.extend(m.ret(s, boolt(v)))
            return out
        if '#gen' in mp:
            g = mp['#gen']
            if exc is None:
                st.frames.append(NFrame('cm_exit'))
                return m.next(st, g)
            st.frames.append(NFrame('cm_exit_exc', exc=exc))
            return m.gen_next(st, g, m.obj(st, g), throw=exc)
    return m.ret(st, NONE if exc is None else FALSE)


def with_except_start(m, st, fr):
    exc = fr.stack[-1]
    ex = fr.stack[-4]
    if ex.op == 'cmexit':
        return cm_exit(m, st, ex.args[0], exc)
    return m.call(st, ex, (m.typeof(st, exc), exc, mk('opq', 'traceback')), ())


# ===================================================================== typing, dataclasses, attrs, inspect
@fn('typing.get_type_hints')
def f_hints(m, st, f, args, kw):
    x = args[0]
    if x.op == 'ref' and m.obj(st, x).cls is not None and m.obj(st, x).kind == 'inst':
        x = m.obj(st, x).cls
    if x.op == 'typeof':
        x = x
    if x.op == 'form':
        a = FORMS[x].attrs
        h = a.get('#hints', a.get('__annotations__'))
        if h is not None:
            return m.ret(st, m.alloc(st, 'dict', None, m.obj(st, h).data))
        if isinstance(FORMS[x].example, type):
            return m.ret(st, m.alloc(st, 'dict', None, ()))
        return m.throw(st, Raise('TypeError', 'not a module, class, method or function'))
    if x.op == 'user':
        hh = m.userhints.get(x)
        if hh == 'none':
            return m.throw(st, Raise('TypeError', 'not a module, class, method or function'))
        if hh is not None:
            return m.ret(st, m.alloc(st, 'dict', None, hh))
    if x.op == 'glob' and isinstance(real(x), type):
        return m.ret(st, m.alloc(st, 'dict', None, ()))
    st.taint('type hints of %s' % show(x))
    return m.ret(st, m.alloc(st, 'dict', None, (mk('unkseg', mk('opq', 'hint')),)))


@fn('typing.cast')
def f_cast(m, st, f, args, kw):
    return m.ret(st, args[1])


@fn('typing.get_args')
def f_get_args(m, st, f, args, kw):
    for s, v in m.getattr(st, args[0], '__args__'):
        return m.ret(s, mk('tuple') if israise(v) else v)


@fn('typing.get_origin')
def f_get_origin(m, st, f, args, kw):
    x = args[0]
    if x.op == 'form':
        import typing
        o = typing.get_origin(FORMS[x].example)
        return m.ret(st, world.register('?.origin', o) if o is not None else NONE)
    for s, v in m.getattr(st, x, '__origin__'):
        return m.ret(s, NONE if israise(v) else v)


@fn('typing.is_typeddict')
def f_is_td(m, st, f, args, kw):
    import typing
    return m.ret(st, boolt(args[0].op == 'form' and typing.is_typeddict(FORMS[args[0]].example)))


@fn('typing.TypeVar', 'typing.NewType', 'typing.ParamSpec')
def f_typevar(m, st, f, args, kw):
    return m.ret(st, mkcall(f, args, ()))


@fn('typing.NamedTuple', 'collections.namedtuple')
def f_namedtuple(m, st, f, args, kw):
    name = cval(args[0])
    fields = []
    if len(args) > 1:
        x = args[1]
        its = x.args if x.op == 'tuple' else m.obj(st, x).data if x.op == 'ref' else [const(q) for q in cval(x).replace(',', ' ').split()]
        for i in its:
            fields.append(cval(i.args[0]) if i.op == 'tuple' else cval(i))
    defaults = {}
    d = dict(kw).get('defaults')
    if d is not None and d.op == 'tuple':
        for k, v in zip(reversed(fields), reversed(d.args)):
            defaults[k] = v
    fr = st.frames[-1]
    mod = fr.co.module if not fr.native else ''
    c = m.prog.new_class(m, st, mod + '.' + name, (glob('builtins.tuple'),), 'nt')
    info = m.prog.classes[c]
    info.fields = fields
    info.defaults = defaults
    return m.ret(st, c)


@fn('typing.overload', 'typing.final', 'typing.no_type_check', 'typing.runtime_checkable', 'abc.abstractmethod', 'atexit.register')
def f_ident(m, st, f, args, kw):
    return m.ret(st, args[0])


@fn('dataclasses.dataclass')
def f_dataclass(m, st, f, args, kw):
    if args and args[0].op == 'cls':
        return m.ret(st, make_dataclass(m, st, args[0]))
    return m.ret(st, mk('decor', lambda m, st, f, a, k: m.ret(st, make_dataclass(m, st, a[0]))))


def make_dataclass(m, st, c):
    info = m.prog.classes[c]
    ns = m.obj(st, info.ns).map()
    ann = ns.get('__annotations__')
    info.fields = []
    info.defaults = {}
    if ann is not None:
        for x in m.obj(st, ann).data:
            k = cval(x.args[0])
            info.fields.append(k)
            if k in ns:
                info.defaults[k] = ns[k]
    return c


@fn('dataclasses.fields')
def f_dcfields(m, st, f, args, kw):
    x = args[0]
    if x.op == 'ref' and m.obj(st, x).kind == 'inst' and m.obj(st, x).cls is not None:
        x = m.obj(st, x).cls
    if x.op == 'form':
        d = FORMS[x].attrs.get('__dataclass_fields__')
        if d is not None:
            o = m.obj(st, d)
            data = tuple(e for e in o.data if not pseudo(m, st, e))
            r = m.alloc(st, 'dict', None, data)
            return m.ret(st, mk('tuple', *m.ent_segs(st, m.obj(st, r), 'values')))
        return m.throw(st, Raise('TypeError', 'must be called with a dataclass type or instance'))
    st.taint('dataclasses.fields')
    return m.ret(st, mk('opq', 'fields'))


def pseudo(m, st, e):
    if e.op != 'ent' or e.args[1].op not in ('ref', 'rec'):
        return False
    mp = m.obj(st, e.args[1]).map() if e.args[1].op == 'ref' else dict(e.args[1].args[1])
    ft = mp.get('_field_type')
    return ft is not None and not ft.args[0].endswith('._FIELD')


@fn('dataclasses.is_dataclass')
def f_isdc(m, st, f, args, kw):
    for s, v in m.getattr(st, args[0], '__dataclass_fields__'):
        return m.ret(s, boolt(not israise(v)))


@fn('attr.fields', 'attr.fields_dict')
def f_attrfields(m, st, f, args, kw):
    from .ops import deliver_attr
    if f.args[0] == 'attr.fields':
        return deliver_attr(m, st, args[0], '__attrs_attrs__')
    st.taint('attr.fields_dict')
    return m.ret(st, mk('opq', 'fields'))


@fn('attr.has')
def f_attrhas(m, st, f, args, kw):
    for s, v in m.getattr(st, args[0], '__attrs_attrs__'):
        return m.ret(s, boolt(not israise(v)))


@fn('inspect.signature')
def f_signature(m, st, f, args, kw):
    x = args[0]
    if x.op == 'func':
        return m.ret(st, mk('sig', x.args[0].code.co_argcount))
    if x.op == 'bm' and isinstance(x.args[1], Term) and x.args[1].op == 'func':
        return m.ret(st, mk('sig', x.args[1].args[0].code.co_argcount - 1))
    if x.op == 'user':
        return m.ret(st, mk('sig', m.userarity.get(x, 3)))
    if x.op == 'partial':
        st.taint('signature')
    return m.ret(st, mk('sig', 3))


@fn('warnings.warn', '_warnings.warn')
def f_warn(m, st, f, args, kw):
    return m.ret(st, NONE)


# ===================================================================== data constructors
@fn('re.compile')
def f_recompile(m, st, f, args, kw):
    x = args[0]
    ks = m.kinds(st, x)
    t = mkcall(f, args, kw)
    if x.op == 'const':
        return m.ret(st, t)
    out = []
    if ks is None:
        st.taint('re.compile')
        return m.ret(st, t)
    for s, c in m.split_kinds(st, x, lambda k: k in ('str', 'strsub', 'bytes')):
        if c:
            out.extend(may_fail(m, s, t, ('re.error', 'OverflowError', 'ValueError'), 're.compile on a bad pattern'))
        else:
            out.extend(m.throw(s, Raise('TypeError', 're.compile on a non-string')))
    return out


@fn('datetime.timedelta')
def f_timedelta(m, st, f, args, kw):
    t = mkcall(f, args, kw)
    vals = [a for a in args if a.op != 'const'] + [v for k, v in kw if v.op != 'const']
    if not vals:
        return m.ret(st, t)
    x = vals[0]
    ks = m.kinds(st, x)
    if ks is None or x.op == 'splat':
        return construct(m, st, f, args, kw)
    out = []
    for s, c in m.split_kinds(st, x, lambda k: 'f' if k == 'float' else 'n' if k in ('int', 'bool') else None):
        if c is None:
            out.extend(m.throw(s, Raise('TypeError', 'timedelta of a non-number')))
            continue
        out.extend(may_fail(m, s, t, ('ValueError', 'OverflowError') if c == 'f' else ('OverflowError',),
                            'timedelta of an extreme number'))
    return out


# ===================================================================== imports
def import_name(m, st, fr, name, level, fromlist):
    if level:
        base = fr.co.module.split('.')
        pkg = base if m.prog.is_pkg(fr.co.module) else base[:-1]
        pkg = pkg[:len(pkg) - (level - 1)] if level > 1 else pkg
        full = '.'.join(pkg + ([name] if name else []))
    else:
        full = name
    h = m.hooks.get('import')
    if h:
        h(m, st, full)
    if m.prog.is_repo(full):
        ref = m.prog.load(full, m, st)
        if ref is None:
            return m.throw(st, Raise('ModuleNotFoundError', 'no module %s' % full))
        if fromlist is NONE:
            return m.ret(st, m.prog.load(full.split('.')[0], m, st))
        return m.ret(st, ref)
    if fromlist is NONE:
        t = world.import_path(full.split('.')[0])
        world.import_path(full)
    else:
        t = world.import_path(full)
    if t is None:
        return m.throw(st, Raise('ModuleNotFoundError', 'no module %s' % full))
    return m.ret(st, t)


def import_from(m, st, fr, mod, name):
    if mod.op == 'ref':
        mp = m.obj(st, mod).map()
        if name in mp:
            fr.stack.append(mp[name])
            return [st]
        full = cval(mp['__name__']) + '.' + name
        if m.prog.is_repo(full):
            ref = m.prog.load(full, m, st)
            if ref is not None:
                fr.stack.append(ref)
                return [st]
        return m.throw(st, Raise('ImportError', 'cannot import name %s' % name))
    t = world.import_path(mod.args[0] + '.' + name)
    if t is None:
        return m.throw(st, Raise('ImportError', 'cannot import name %s' % name))
    fr.stack.append(t)
    return [st]


def import_star(m, st, fr, mod):
    names = {}
    if mod.op == 'ref':
        mp = m.obj(st, mod).map()
        if '__all__' in mp:
            a = mp['__all__']
            its = a.args if a.op == 'tuple' else m.obj(st, a).data
            names = {cval(x): mp[cval(x)] for x in its}
        else:
            names = {k: v for k, v in mp.items() if not k.startswith('_')}
    else:
        r = real(mod)
        al = getattr(r, '__all__', None) or [n for n in dir(r) if not n.startswith('_')]
        for n in al:
            t = world.import_path(mod.args[0] + '.' + n)
            if t is not None:
                names[n] = t
    o = m.obj(st, fr.ns)
    d = dict(o.map())
    d.update(names)
    st.heap[fr.ns] = o.with_(tuple(d.items()))
    return [st]


@fn('builtins.__build_class__')
def f_build_class(m, st, f, args, kw):
    func, name = args[0], cval(args[1])
    bases = args[2:]
    fr = st.frames[-1]
    q = func.args[1] + '.' + name
    ns = m.alloc(st, 'ns', None, (), owner='class', site='cls:' + q)
    st.frames.append(NFrame('classbody', name=q, bases=tuple(bases), ns=ns))
    out = m.push_func(st, func, [], ())
    st.frames[-1].ns = ns
    ann = m.alloc(st, 'dict', None, (), site='ann:' + q)
    o = m.obj(st, ns)
    st.heap[ns] = o.set('__annotations__', ann)
    return out


@native('classbody')
def n_classbody(m, st, nf, msg, v):
    d = nf.d
    st.frames.pop()
    bases = d['bases']
    kind = 'plain'
    if any(b is glob('typing.NamedTuple') for b in bases):
        kind = 'nt'
        bases = (glob('builtins.tuple'),)
    elif any(b.op == 'glob' and isinstance(real(b), type) and issubclass(real(b), __import__('enum').Enum) for b in bases):
        kind = 'enum'
    c = m.prog.new_class(m, st, d['name'], bases, kind, d['ns'])
    info = m.prog.classes[c]
    o = m.obj(st, d['ns'])
    mp = o.map()
    if kind == 'nt':
        info.fields = [cval(x.args[0]) for x in m.obj(st, mp['__annotations__']).data]
        info.defaults = {k: mp[k] for k in info.fields if k in mp}
    elif kind == 'enum':
        nd = []
        i = 0
        for k, x in o.data:
            if not k.startswith('_') and x.op not in ('func', 'smeth', 'cmeth', 'propdef'):
                i += 1
                x = mk('enum', c, k, x if not (x.op == 'call' and 'auto' in show(x)) else const(i))
            nd.append((k, x))
        st.heap[d['ns']] = o.with_(tuple(nd))
    if v.op == 'ref' and m.obj(st, v).kind == 'cell':
        st.heap[v] = m.obj(st, v).with_((c,))
    return m.ret(st, c)


@fn('enum.auto')
def f_auto(m, st, f, args, kw):
    return m.ret(st, mkcall(f, args, kw))


def iter_class(m, st, t):
    """segments of an enum class, or None"""
    if t.op == 'form' and '__members__' in FORMS[t].attrs:
        mem = FORMS[t].attrs['__members__']
        return [(st, m.ent_segs(st, m.obj(st, mem), 'values'))]
    return None


from .methods import method  # noqa: E402
