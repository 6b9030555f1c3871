"""Models of the methods of builtin containers, strings and data values."""
from .terms import *
from . import world
from .world import KINDS, MISSING, real
from .machine import Raise, HObj, NFrame, Frame, AnalysisError

STRBOOL = {'startswith', 'endswith', 'isidentifier', 'isdigit', 'isalpha', 'isalnum', 'isupper', 'islower',
           'isspace', 'isnumeric', 'isdecimal', 'istitle', 'isascii', 'isprintable'}
STRINT = {'find', 'rfind', 'index', 'rindex', 'count', '__len__'}
STRLIST = {'split', 'rsplit', 'splitlines', 'partition', 'rpartition'}


def israise(v):
    return isinstance(v, Raise)


def method(m, st, o, name, args, kw):
    from . import models as M
    op = o.op
    if op == 'ref':
        k = m.obj(st, o).kind
        if k == 'inst':
            return inst_method(m, st, o, name, args, kw)
        f = TABLE.get((k, name))
        if f is not None:
            try:
                return f(m, st, o, list(args), list(kw))
            except IndexError:
                return m.throw(st, Raise('TypeError', 'wrong number of arguments for %s.%s' % (k, name)))
        m.note(st, 'unmodelled method %s.%s' % (k, name))
        m.touch(st, o, name)
        st.taint('method %s.%s' % (k, name))
        return m.ret(st, mk('opq', name))
    if op == 'const':
        return const_method(m, st, o, name, args, kw)
    if op in ('tuple', 'nt', 'fset'):
        return tuple_method(m, st, o, name, args, kw)
    if m.is_data(o) or (m.kinds(st, o) is not None and op not in ('loaded', 'dumped', 'inst')):
        return data_method(m, st, o, name, args, kw)
    if op == 'func' and name in ('__call__',):
        return m.call(st, o, args, kw)
    return m.ret(st, M.mkcall(mk('bm', o, name), args, kw))


TABLE = {}


def meth(*specs):
    def d(f):
        for s in specs:
            k, n = s.split('.')
            TABLE[(k, n)] = f
        return f
    return d


# ------------------------------------------------------------------ list
@meth('list.append')
def l_append(m, st, o, a, kw):
    x = a[0]
    m.touch(st, o, 'append')
    h = m.obj(st, o)
    st.heap[o] = h.with_(h.data + (x,))
    return m.ret(st, NONE)


@meth('list.insert')
def l_insert(m, st, o, a, kw):
    from .models import plain
    i, x = a[0], a[1]
    m.touch(st, o, 'insert')
    h = m.obj(st, o)
    if i.op == 'const' and cval(i) == 0:
        st.heap[o] = h.with_((x,) + h.data)
    elif i.op == 'const' and plain(h.data):
        d = list(h.data)
        d.insert(cval(i), x)
        st.heap[o] = h.with_(tuple(d))
    elif i.op == 'lin' and plain_len(m, st, h) is i:
        st.heap[o] = h.with_(h.data + (x,))
    else:
        st.taint('list.insert')
        st.heap[o] = h.with_((mk('unkseg', mk('opq', 'element')),))
    return m.ret(st, NONE)


def plain_len(m, st, h):
    from .models import seglen
    return seglen(m, st, h.data)


@meth('list.extend', 'list.__iadd__')
def l_extend(m, st, o, a, kw):
    from .models import extend
    return extend(m, st, o, a[0], NONE)


@meth('list.pop')
def l_pop(m, st, o, a, kw):
    from .models import plain
    h = m.obj(st, o)
    m.touch(st, o, 'pop')
    h = m.obj(st, o)
    i = cval(a[0]) if a and a[0].op == 'const' else (-1 if not a else None)
    if not h.data:
        return m.throw(st, Raise('IndexError', 'pop from empty list'))
    if i is not None:
        if i == -1 and h.data[-1].op not in ('starseg', 'unkseg'):
            st.heap[o] = h.with_(h.data[:-1])
            return m.ret(st, h.data[-1])
        if i == 0 and h.data[0].op not in ('starseg', 'unkseg'):
            st.heap[o] = h.with_(h.data[1:])
            return m.ret(st, h.data[0])
        if plain(h.data):
            d = list(h.data)
            try:
                x = d.pop(i)
            except IndexError:
                return m.throw(st, Raise('IndexError', 'pop index out of range'))
            st.heap[o] = h.with_(tuple(d))
            return m.ret(st, x)
    st.taint('list.pop')
    st.heap[o] = h.with_((mk('unkseg', mk('opq', 'element')),))
    return m.ret(st, mk('opq', 'element'))


@meth('list.remove')
def l_remove(m, st, o, a, kw):
    from .models import plain
    h = m.obj(st, o)
    m.touch(st, o, 'remove')
    h = m.obj(st, o)
    if not plain(h.data):
        st.taint('list.remove')
        st.heap[o] = h.with_((mk('unkseg', mk('opq', 'element')),))
        return m.ret(st, NONE)
    out = []
    cur = [st]
    for i, x in enumerate(h.data):
        nxt = []
        for s in cur:
            for s2, v in m.eq(s, x, a[0]):
                if v:
                    hh = m.obj(s2, o)
                    s2.heap[o] = hh.with_(hh.data[:i] + hh.data[i + 1:])
                    out.extend(m.ret(s2, NONE))
                else:
                    nxt.append(s2)
        cur = nxt
    for s in cur:
        out.extend(m.throw(s, Raise('ValueError', 'list.remove(x): x not in list')))
    return out


@meth('list.clear')
def l_clear(m, st, o, a, kw):
    m.touch(st, o, 'clear')
    st.heap[o] = m.obj(st, o).with_(())
    return m.ret(st, NONE)


@meth('list.copy')
def l_copy(m, st, o, a, kw):
    return m.ret(st, m.alloc(st, 'list', None, m.obj(st, o).data))


@meth('list.reverse')
def l_reverse(m, st, o, a, kw):
    m.touch(st, o, 'reverse')
    h = m.obj(st, o)
    st.heap[o] = h.with_(tuple(reversed(h.data)))
    return m.ret(st, NONE)


@meth('list.sort')
def l_sort(m, st, o, a, kw):
    from .models import do_sort
    k = dict(kw)
    m.touch(st, o, 'sort')
    rev = k.get('reverse', FALSE)
    if rev.op != 'const':
        st.taint('sort direction')
    return do_sort(m, st, o, k.get('key', NONE), rev is TRUE, NONE)


@meth('list.index')
def l_index(m, st, o, a, kw):
    return seq_index(m, st, m.obj(st, o).data, a[0])


def seq_index(m, st, segs, x):
    from .models import plain
    if not plain(segs):
        if len(segs) == 1 and segs[0].op == 'starseg' and x.op == 'elem' and x.args[0] is segs[0].args[0]:
            return m.ret(st, lin(0, [(pos(*x.args), 1)]))
        st.taint('index()')
        return m.ret(st, mk('opq', 'int'))
    out = []
    cur = [st]
    for i, y in enumerate(segs):
        nxt = []
        for s in cur:
            for s2, v in m.eq(s, y, x):
                if v:
                    out.extend(m.ret(s2, const(i)))
                else:
                    nxt.append(s2)
        cur = nxt
    for s in cur:
        out.extend(m.throw(s, Raise('ValueError', 'not in sequence')))
    return out


def seq_count(m, st, segs, x):
    from .models import plain
    if not plain(segs):
        st.taint('count()')
        return m.ret(st, mk('opq', 'int'))
    cur = [(st, 0)]
    for y in segs:
        cur = [(s2, n + bool(v)) for s, n in cur for s2, v in m.eq(s, y, x)]
    out = []
    for s, n in cur:
        out.extend(m.ret(s, const(n)))
    return out


@meth('list.count')
def l_count(m, st, o, a, kw):
    return seq_count(m, st, m.obj(st, o).data, a[0])


@meth('list.__len__', 'dict.__len__', 'set.__len__', 'frozenset.__len__', 'view.__len__')
def x_len(m, st, o, a, kw):
    from .models import length
    return m.ret_all(length(m, st, o))


@meth('list.__contains__', 'dict.__contains__', 'set.__contains__', 'frozenset.__contains__', 'view.__contains__')
def x_contains(m, st, o, a, kw):
    from .models import contains
    return m.ret_all([(s, v if israise(v) else boolt(v)) for s, v in contains(m, st, a[0], o)])


@meth('list.__getitem__', 'dict.__getitem__')
def x_getitem(m, st, o, a, kw):
    return m.ret_all(m.getitem(st, o, a[0]))


@meth('list.__setitem__', 'dict.__setitem__')
def x_setitem(m, st, o, a, kw):
    return m.ret_all([(s, NONE if r is None else r) for s, r in m.setitem(st, o, a[0], a[1])])


@meth('dict.__delitem__', 'list.__delitem__')
def x_delitem(m, st, o, a, kw):
    from .models import delitem
    return m.ret_all([(s, NONE if r is None else r) for s, r in delitem(m, st, o, a[0])])


@meth('list.__iter__', 'dict.__iter__', 'set.__iter__', 'frozenset.__iter__', 'view.__iter__', 'iter.__iter__', 'gen.__iter__')
def x_iter(m, st, o, a, kw):
    return m.ret_all(m.get_iter(st, o))


@meth('list.__reversed__', 'dict.__reversed__')
def x_rev(m, st, o, a, kw):
    return m.call(st, glob('builtins.reversed'), [o], [])


# ------------------------------------------------------------------ dict
def viewof(mode):
    def f(m, st, o, a, kw):
        return m.ret(st, m.alloc(st, 'view', None, (o, mode)))
    return f


for _n in ('items', 'keys', 'values'):
    TABLE[('dict', _n)] = viewof(_n)


@meth('dict.get')
def d_get(m, st, o, a, kw):
    k = a[0]
    d = a[1] if len(a) > 1 else NONE
    res = []
    for s, h in m.hashable(st, k):
        if israise(h):
            res.append((s, h))
            continue
        for s2, v in m.lookup(s, m.obj(s, o).data, k):
            res.append((s2, d if v is None else v))
    return m.ret_all(res)


@meth('dict.pop')
def d_pop(m, st, o, a, kw):
    from .models import remove_key
    k = a[0]
    res = []
    for s, h in m.hashable(st, k):
        if israise(h):
            res.append((s, h))
            continue
        for s2, v in m.lookup(s, m.obj(s, o).data, k):
            if v is None:
                res.append((s2, a[1] if len(a) > 1 else Raise('KeyError', 'missing key %s' % show(k))))
            else:
                remove_key(m, s2, o, k)
                res.append((s2, v))
    return m.ret_all(res)


@meth('dict.popitem')
def d_popitem(m, st, o, a, kw):
    h = m.obj(st, o)
    m.touch(st, o, 'popitem')
    h = m.obj(st, o)
    if not h.data:
        return m.throw(st, Raise('KeyError', 'popitem(): dictionary is empty'))
    x = h.data[-1]
    if x.op == 'ent':
        st.heap[o] = h.with_(h.data[:-1])
        return m.ret(st, mk('tuple', *x.args))
    st.taint('popitem')
    return m.ret(st, mk('opq', 'item'))


@meth('dict.setdefault')
def d_setdefault(m, st, o, a, kw):
    k = a[0]
    d = a[1] if len(a) > 1 else NONE
    res = []
    for s, h in m.hashable(st, k):
        if israise(h):
            res.append((s, h))
            continue
        for s2, v in m.lookup(s, m.obj(s, o).data, k):
            if v is not None:
                res.append((s2, v))
                continue
            for s3, r in m.setitem(s2, o, k, d):
                res.append((s3, d if r is None else r))
    return m.ret_all(res)


@meth('dict.update', 'dict.__ior__')
def d_update(m, st, o, a, kw):
    from .models import dict_update
    if kw:
        for k, v in kw:
            if k == '**':
                st.taint('update(**)')
                continue
            r = m.setitem(st, o, const(k), v)
            if len(r) != 1:
                st.taint('update')
            st = r[0][0]
    if not a:
        return m.ret(st, NONE)
    return dict_update(m, st, o, a[0], NONE)


@meth('dict.copy', 'set.copy', 'frozenset.copy')
def d_copy(m, st, o, a, kw):
    h = m.obj(st, o)
    return m.ret(st, m.alloc(st, h.kind, None, h.data))


@meth('dict.clear', 'set.clear')
def d_clear(m, st, o, a, kw):
    m.touch(st, o, 'clear')
    st.heap[o] = m.obj(st, o).with_(())
    return m.ret(st, NONE)


@meth('dict.fromkeys')
def d_fromkeys(m, st, o, a, kw):
    from .models import fromkeys
    return fromkeys(m, st, a, kw)


# ------------------------------------------------------------------ set
@meth('set.add')
def s_add(m, st, o, a, kw):
    m.touch(st, o, 'add')
    return m.ret_all([(s, NONE if r is None else r) for s, r in m.set_add(st, o, a[0])])


@meth('set.discard')
def s_discard(m, st, o, a, kw):
    return s_rm(m, st, o, a[0], None)


def s_rm(m, st, o, x, missing):
    from .models import remove_key
    res = []
    for s, h in m.hashable(st, x):
        if israise(h):
            res.append((s, h))
            continue
        for s2, v in m.lookup(s, m.obj(s, o).data, x):
            if v is not None:
                remove_key(m, s2, o, x)
                res.append((s2, NONE))
            else:
                res.append((s2, missing or NONE))
    return m.ret_all(res)


@meth('set.remove')
def s_remove(m, st, o, a, kw):
    return s_rm(m, st, o, a[0], Raise('KeyError', 'element not in set'))


@meth('set.pop')
def s_pop(m, st, o, a, kw):
    h = m.obj(st, o)
    m.touch(st, o, 'pop')
    h = m.obj(st, o)
    if not h.data:
        return m.throw(st, Raise('KeyError', 'pop from an empty set'))
    i = -1 if m.revsets else 0
    if h.data[i].op == 'ent':
        e = h.data[i]
        st.heap[o] = h.with_(tuple(x for x in h.data if x is not e))
        return m.ret(st, e.args[0])
    st.taint('set.pop')
    return m.ret(st, mk('opq', 'element'))


SETM = {'union': 'union', 'intersection': 'intersection', 'difference': 'difference',
        'symmetric_difference': 'symmetric_difference'}
INPL = {'update': 'union', 'intersection_update': 'intersection', 'difference_update': 'difference',
        'symmetric_difference_update': 'symmetric_difference'}


def as_set(m, st, x):
    """-> [(state, set-like term | Raise)]"""
    from .models import set_data
    if set_data(m, st, x) is not None:
        return [(st, x)]
    out = []
    for s, segs in m.segments(st, x):
        if israise(segs):
            out.append((s, segs))
            continue
        if segs is None:
            s.taint('set operation with an iterator')
            segs = (mk('unkseg', mk('opq', 'member')),)
        out.append((s, m.alloc(s, 'list', None, tuple(segs))))
    return out


def setop(name, inplace):
    def f(m, st, o, a, kw):
        from .models import set_op
        cur = [(st, o)]
        if not inplace and not a:
            return d_copy(m, st, o, a, kw)
        res = []
        for x in a:
            nxt = []
            for s, t in cur:
                for s2, y in as_set(m, s, x):
                    if israise(y):
                        res.append((s2, y))
                        continue
                    nxt.extend(set_op(m, s2, name, t, y, inplace=inplace))
            cur = nxt
        return m.ret_all(res + [(s, NONE if inplace else t) for s, t in cur])
    return f


for _k in ('set', 'frozenset'):
    for _n, _o in SETM.items():
        TABLE[(_k, _n)] = setop(_o, False)
for _n, _o in INPL.items():
    TABLE[('set', _n)] = setop(_o, True)


def s_issubset(m, st, o, a, kw):
    from .models import subset
    return rel(m, st, a[0], lambda s, y: subset(m, s, o, y))


def s_issuperset(m, st, o, a, kw):
    from .models import subset
    return rel(m, st, a[0], lambda s, y: subset(m, s, y, o))


def s_isdisjoint(m, st, o, a, kw):
    from .models import set_data, partition

    def go(s, y):
        out = []
        for s2, i, x in partition(m, s, set_data(m, s, o), set_data(m, s, y)):
            out.extend((s3, not v) for s3, v in m.seq_truth(s2, i))
        return out
    return rel(m, st, a[0], go)


def rel(m, st, x, f):
    res = []
    for s, y in as_set(m, st, x):
        if israise(y):
            res.append((s, y))
            continue
        res.extend((s2, boolt(v)) for s2, v in f(s, y))
    return m.ret_all(res)


for _k in ('set', 'frozenset'):
    TABLE[(_k, 'issubset')] = s_issubset
    TABLE[(_k, 'issuperset')] = s_issuperset
    TABLE[(_k, 'isdisjoint')] = s_isdisjoint
TABLE[('view', 'isdisjoint')] = s_isdisjoint


# ------------------------------------------------------------------ iterators
@meth('iter.__next__', 'gen.__next__')
def i_next(m, st, o, a, kw):
    st.frames.append(NFrame('next', default=None))
    return m.next(st, o)


@meth('gen.send')
def g_send(m, st, o, a, kw):
    if a[0] is not NONE:
        st.taint('generator.send')
    st.frames.append(NFrame('next', default=None))
    return m.next(st, o)


@meth('gen.close')
def g_close(m, st, o, a, kw):
    h = m.obj(st, o)
    st.heap[o] = HObj('gen', None, ('dead',), h.owner)
    return m.ret(st, NONE)


@meth('gen.throw')
def g_throw(m, st, o, a, kw):
    st.frames.append(NFrame('next', default=None))
    return m.gen_next(st, o, m.obj(st, o), throw=a[0])


# ------------------------------------------------------------------ instances
def inst_method(m, st, o, name, args, kw):
    from . import models as M
    h = m.obj(st, o)
    c = h.cls
    base = c.args[0] if c is not None and c.op == 'anyexc' else c
    if base is not None and m.subclass(st, base, glob('builtins.BaseException')):
        if name == 'with_traceback':
            return m.ret(st, o)
        if name == 'add_note':
            return m.ret(st, NONE)
        if name in ('__str__', '__repr__'):
            return m.ret(st, mk('call', glob('builtins.str'), o))
        if name == '__init__':
            st.heap[o] = h.set('args', mk('tuple', *args))
            return m.ret(st, NONE)
    if name == '_get_kwargs' and '#dict' in h.map():
        d = h.map()['#dict']
        return m.ret(st, m.alloc(st, 'list', None, m.ent_segs(st, m.obj(st, d), 'items')))
    if name == '__getattribute__' and len(args) == 1 and args[0].op == 'const':
        return m.ret_all(m.getattr(st, o, cval(args[0])))
    if name == '__setattr__' and len(args) == 2 and args[0].op == 'const':
        return m.ret_all([(s, NONE if r is None else r) for s, r in M.setattr_(m, st, o, cval(args[0]), args[1])])
    if name in ('__str__', '__repr__', '__format__'):
        return m.ret(st, mk('call', glob('builtins.str'), o))
    if name == '__eq__' and args:
        return m.ret_all([(s, boolt(v)) for s, v in m.eq(st, o, args[0])])
    if name == '_asdict' and '#fields' in h.map():
        f = h.map()['#fields']
        return m.ret(st, m.alloc(st, 'dict', None, m.obj(st, f).data))
    if name == '__iter__' and '#items' in h.map():
        return m.ret_all(m.get_iter(st, o))
    if name == '__len__' and '#items' in h.map():
        return m.ret_all(M.length(m, st, o))
    return m.ret(st, M.mkcall(mk('bm', o, name), args, kw))


# ------------------------------------------------------------------ constants, tuples
def const_method(m, st, o, name, args, kw):
    from . import models as M
    v = cval(o)
    if isinstance(v, str):
        return str_method(m, st, o, name, args, kw)
    if all(a.op == 'const' for a in args) and not kw and hasattr(v, name):
        try:
            r = getattr(v, name)(*[cval(a) for a in args])
        except Exception as e:
            return m.throw(st, Raise(type(e).__name__, str(e)))
        if isinstance(r, (str, int, float, bytes, bool, type(None))):
            return m.ret(st, const(r))
    return m.ret(st, M.mkcall(mk('bm', o, name), args, kw))


def str_method(m, st, o, name, args, kw):
    from . import models as M
    if o.op == 'const' and not kw and all(a.op == 'const' for a in args) and hasattr(str, name) and name not in ('format', 'join'):
        try:
            r = getattr(cval(o), name)(*[cval(a) for a in args])
        except Exception as e:
            return m.throw(st, Raise(type(e).__name__, str(e)))
        if isinstance(r, (str, int, bool, bytes)):
            return m.ret(st, const(r))
        if isinstance(r, (tuple, list)) and all(isinstance(x, str) for x in r):
            its = [const(x) for x in r]
            return m.ret(st, mk('tuple', *its) if isinstance(r, tuple) else m.alloc(st, 'list', None, tuple(its)))
    if name == 'join':
        out = []
        for s, it in m.get_iter(st, args[0]):
            if israise(it):
                out.extend(m.throw(s, it))
            else:
                s.frames.append(NFrame('fold', kind='join', it=it, acc=NONE))
                out.append(s)
        return out
    if not hasattr(str, name):
        return m.throw(st, Raise('AttributeError', 'str has no attribute %s' % name))
    if name in ('replace', 'startswith', 'endswith', 'split', 'rsplit', 'strip', 'lstrip', 'rstrip', 'removeprefix', 'removesuffix', 'find', 'index', 'count', 'partition'):
        for a in args[:2]:
            ks = m.kinds(st, a)
            if ks is not None and m.is_data(a) and not (ks <= {'str', 'strsub'}):
                out = []
                for s, g in m.split_kinds(st, a, lambda k: k in ('str', 'strsub')):
                    if g:
                        out.extend(str_method(m, s, o, name, args, kw))
                    else:
                        out.extend(m.throw(s, Raise('TypeError', 'str.%s argument %s' % (name, show(a)))))
                return out
    if name in STRLIST:
        t = M.mkcall(glob('builtins.str.' + name), [o] + list(args), kw)
        if name.endswith('partition'):
            return m.ret(st, mk('tuple', *[mk('call', glob('builtins.str'), t, const(i)) for i in range(3)]))
        r = m.alloc(st, 'list', None, ())
        seg = m.starseg(st, t, mk('aid', r, t), {(mk('call', glob('builtins.str'), mk('bnd', t)),): frozenset()})
        st.heap[r] = HObj('list', None, (seg,))
        return m.ret(st, r)
    if name in STRBOOL:
        return m.ret(st, M.mkcall(glob('builtins.str.' + name), [o] + list(args), kw))
    if name in STRINT:
        t = M.mkcall(glob('builtins.str.' + name), [o] + list(args), kw)
        if name in ('index', 'rindex'):
            s2 = st.copy()
            return m.ret(st, t) + m.throw(s2, Raise('ValueError', 'substring not found'))
        return m.ret(st, t)
    if name == 'encode':
        return m.ret(st, M.mkcall(glob('builtins.bytes'), [o] + list(args), kw))
    # the rest make strings
    return m.ret(st, M.mkcall(glob('builtins.str.' + name), [o] + list(args), kw))


def tuple_method(m, st, o, name, args, kw):
    from . import models as M
    if o.op == 'fset':
        r = m.alloc(st, 'frozenset', None, tuple(mk('ent', x, NONE) for x in sorted(o.args[0])))
        return method(m, st, r, name, args, kw)
    segs = o.args if o.op == 'tuple' else o.args[1:]
    if name == 'index':
        return seq_index(m, st, segs, args[0])
    if name == 'count':
        return seq_count(m, st, segs, args[0])
    if name == '__len__':
        return m.ret_all(M.length(m, st, o))
    if name == '__iter__':
        return m.ret_all(m.get_iter(st, o))
    if name == '__contains__':
        return m.ret_all([(s, v if israise(v) else boolt(v)) for s, v in M.contains(m, st, args[0], o)])
    if name == '__getitem__':
        return m.ret_all(m.getitem(st, o, args[0]))
    if o.op == 'nt':
        fs = m.prog.nt_fields(o.args[0])
        if name == '_replace':
            d = dict(zip(fs, segs))
            for k, v in kw:
                if k not in d:
                    return m.throw(st, Raise('ValueError' if k != '**' else 'TypeError', 'unexpected field'))
                d[k] = v
            return m.ret(st, mk('nt', o.args[0], *[d[k] for k in fs]))
        if name == '_asdict':
            return m.ret(st, m.alloc(st, 'dict', None, tuple(mk('ent', const(k), v) for k, v in zip(fs, segs))))
    return m.ret(st, M.mkcall(mk('bm', o, name), args, kw))


# ------------------------------------------------------------------ data
MUTATORS = {'append', 'extend', 'insert', 'pop', 'popitem', 'clear', 'update', 'setdefault', 'remove', 'sort',
            'reverse', 'add', 'discard', 'difference_update', 'intersection_update', 'symmetric_difference_update',
            '__setitem__', '__delitem__', '__setattr__', '__delattr__', '__ior__', '__iadd__'}


def raw_dict(m, st, t):
    """a shadow dict for a mapping datum"""
    r = mk('ref', 'dict@data:' + show(t), t)
    if r not in st.heap:
        aid = mk('aid', r, t)
        b = mk('bnd', t)
        seg = m.starseg(st, t, aid, {(b, mk('at', t, b)): frozenset()})
        st.heap[r] = HObj('dict', None, (seg,), 'data')
    return r


def data_method(m, st, o, name, args, kw):
    from . import models as M
    ks = m.kinds(st, o) or frozenset()
    h = m.hooks.get('datacall')
    if ks & {'object'} and not hasattr(object, name) and h:
        pass
    if name in MUTATORS and (ks & {'list', 'dict', 'set', 'object', 'namespace'}):
        hk = m.hooks.get('mutate_term')
        if hk:
            hk(m, st, o, 'method .%s()' % name)
    if ks <= {'str', 'strsub'}:
        return str_method(m, st, o, name, args, kw)
    if ks <= {'dict', 'mapping'}:
        if name in ('items', 'keys', 'values'):
            return m.ret(st, m.alloc(st, 'view', None, (raw_dict(m, st, o), name)))
        if name == 'get' and args:
            k = args[0]
            d = args[1] if len(args) > 1 else NONE
            res = []
            for s, hh in m.hashable(st, k):
                if israise(hh):
                    res.append((s, hh))
                    continue
                if k.op == 'elem' and k.args[0] is o:
                    res.append((s, mk('at', o, k)))
                    continue
                for s2, v in m.split(s, mk('in', k, o)):
                    res.append((s2, mk('at', o, k) if v else d))
            return m.ret_all(res)
        if name == 'copy':
            r = m.alloc(st, 'dict', None, m.obj(st, raw_dict(m, st, o)).data)
            return m.ret(st, r)
        if name == '__contains__':
            return m.ret_all([(s, v if israise(v) else boolt(v)) for s, v in M.contains(m, st, args[0], o)])
        if name == '__getitem__':
            return m.ret_all(m.getitem(st, o, args[0]))
        if name == '__len__':
            return m.ret_all(M.length(m, st, o))
    if name == '__iter__':
        return m.ret_all(m.get_iter(st, o))
    if ks <= {'list', 'tuple', 'set', 'frozenset'}:
        if name == 'copy':
            return M.collect(m, st, o, 'list' if 'list' in ks else 'set')
        if name == '__len__':
            return m.ret_all(M.length(m, st, o))
        if name in SETM or name in ('issubset', 'issuperset', 'isdisjoint'):
            out = []
            for s2 in [st]:
                segs = m.raw_segs(s2, o)
                r = m.alloc(s2, 'set', None, tuple(segs))
                out.extend(method(m, s2, r, name, args, kw))
            return out
    if ks <= {'namespace'} and name == '_get_kwargs':
        d = mk('rawattr', o, '__dict__')
        st.kinds[d] = frozenset(['dict'])
        return m.ret(st, m.alloc(st, 'list', None, m.ent_segs(st, m.obj(st, raw_dict(m, st, d)), 'items')))
    if 'object' in ks or len(ks) > 1:
        # splitting by kind decides which method this is
        groups = m.split_kinds(st, o, lambda k: 'str' if k in ('str', 'strsub') else 'map' if k in ('dict', 'mapping') else k)
        if len(groups) > 1:
            out = []
            for s, g in groups:
                out.extend(data_method(m, s, o, name, args, kw))
            return out
        if 'object' in ks:
            if h:
                h(m, st, mk('bm', o, name), args, kw)
    if len(ks) == 1:
        fn = 'builtins.%s.%s' % (min(ks), name)
        if fn in M.RESULT_KINDS:
            t = M.mkcall(glob(fn), [o] + list(args), kw)
            return M.may_fail(m, st, t, ['UnicodeDecodeError'], 'decode') if name == 'decode' else m.ret(st, t)
    st.taint('method %s of data' % name)
    return m.ret(st, mk('opq', name))
