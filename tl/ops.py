"""Transfer functions of the bytecode instructions."""
from .terms import *
from . import world

OPS = {}


def op(*names):
    def d(f):
        for n in names:
            OPS[n] = f
        return f
    return d


def R(cls, desc=''):
    from .machine import Raise
    return Raise(cls, desc)


def israise(v):
    from .machine import Raise
    return isinstance(v, Raise)


@op('RESUME', 'NOP', 'PRECALL', 'SETUP_ANNOTATIONS', 'CACHE')
def nop(m, st, fr, arg, val):
    return [st]


@op('POP_TOP')
def pop_top(m, st, fr, arg, val):
    fr.stack.pop()
    return [st]


@op('END_FOR')
def end_for(m, st, fr, arg, val):
    fr.stack.pop()
    fr.stack.pop()
    return [st]


@op('PUSH_NULL')
def push_null(m, st, fr, arg, val):
    fr.stack.append(NULL)
    return [st]


@op('COPY')
def copy(m, st, fr, arg, val):
    fr.stack.append(fr.stack[-arg])
    return [st]


@op('SWAP')
def swap(m, st, fr, arg, val):
    s = fr.stack
    s[-1], s[-arg] = s[-arg], s[-1]
    return [st]


def const_term(m, st, fr, v):
    import types
    if isinstance(v, types.CodeType):
        return mk('code', fr.co.sub(v))
    if isinstance(v, (tuple, frozenset)):
        its = tuple(const_term(m, st, fr, x) for x in v)
        return mk('tuple', *its) if isinstance(v, tuple) else mk('fset', frozenset(its))
    return const(v)


@op('LOAD_CONST')
def load_const(m, st, fr, arg, val):
    t = fr.co.consts.get(arg)
    if t is None:
        t = fr.co.consts[arg] = const_term(m, st, fr, val)
    fr.stack.append(t)
    return [st]


@op('RETURN_CONST')
def return_const(m, st, fr, arg, val):
    load_const(m, st, fr, arg, val)
    return return_value(m, st, fr, arg, val)


@op('RETURN_VALUE')
def return_value(m, st, fr, arg, val):
    v = fr.stack.pop()
    st.frames.pop()
    if fr.gen is not None:
        from .machine import HObj
        st.heap[fr.gen] = HObj('gen', None, ('dead',))
        return m.stop(st, v)
    return m.ret(st, v)


@op('RETURN_GENERATOR')
def return_generator(m, st, fr, arg, val):
    st.frames.pop()
    fr.cur = fr.pc
    g = m.alloc(st, 'gen', None, ('frame', fr.freeze()), site=fr.co.name)
    return m.ret(st, g)


@op('YIELD_VALUE')
def yield_value(m, st, fr, arg, val):
    v = fr.stack.pop()
    st.frames.pop()
    g = fr.gen
    fr.gen = None
    o = m.obj(st, g)
    st.heap[g] = o.with_(('frame', fr.freeze()))
    return m.item(st, v)


@op('GET_YIELD_FROM_ITER')
def get_yf(m, st, fr, arg, val):
    return get_iter(m, st, fr, arg, val)


@op('SEND')
def send(m, st, fr, arg, val):
    fr.stack.pop()
    return m.next(st, fr.stack[-1])


@op('END_SEND')
def end_send(m, st, fr, arg, val):
    v = fr.stack.pop()
    fr.stack.pop()
    fr.stack.append(v)
    return [st]


@op('JUMP_BACKWARD_NO_INTERRUPT')
def jbni(m, st, fr, arg, val):
    fr.pc = val
    return [st]


@op('CLEANUP_THROW')
def cleanup_throw(m, st, fr, arg, val):
    e = fr.stack[-1]
    return m.throw(st, e)


@op('MAKE_CELL')
def make_cell(m, st, fr, arg, val):
    v = fr.loc.pop(val, None)
    fr.cells[val] = m.alloc(st, 'cell', None, (v,) if v is not None else (), site=fr.co.name + '.' + val)
    return [st]


@op('COPY_FREE_VARS')
def copy_free(m, st, fr, arg, val):
    for n, c in zip(fr.co.code.co_freevars, fr.free):
        fr.cells[n] = c
    return [st]


@op('LOAD_CLOSURE')
def load_closure(m, st, fr, arg, val):
    if val in fr.cells:
        fr.stack.append(fr.cells[val])
    else:
        fr.stack.append(fr.loc.get(val, UNBOUND))
    return [st]


@op('LOAD_DEREF')
def load_deref(m, st, fr, arg, val):
    if val not in fr.cells:
        return m.throw(st, R('NameError', 'unbound variable %s' % val))
    o = m.obj(st, fr.cells[val])
    if not o.data:
        return m.throw(st, R('NameError', 'unbound variable %s' % val))
    fr.stack.append(o.data[0])
    return [st]


@op('STORE_DEREF')
def store_deref(m, st, fr, arg, val):
    c = fr.cells[val]
    o = m.obj(st, c)
    m.touch(st, c, ('setattr', val))
    st.heap[c] = m.obj(st, c).with_((fr.stack.pop(),))
    return [st]


@op('DELETE_DEREF')
def delete_deref(m, st, fr, arg, val):
    c = fr.cells[val]
    st.heap[c] = m.obj(st, c).with_(())
    return [st]


@op('LOAD_FROM_DICT_OR_DEREF')
def load_fdod(m, st, fr, arg, val):
    fr.stack.pop()
    return load_deref(m, st, fr, arg, val)


@op('LOAD_FAST', 'LOAD_FAST_CHECK')
def load_fast(m, st, fr, arg, val):
    v = fr.loc.get(val)
    if v is None or v is UNBOUND:
        return m.throw(st, R('UnboundLocalError', 'local variable %s used before assignment' % val))
    fr.stack.append(v)
    return [st]


@op('LOAD_FAST_AND_CLEAR')
def load_fac(m, st, fr, arg, val):
    v = fr.loc.pop(val, UNBOUND)
    fr.stack.append(v if val in fr.co.live(fr.cur) else UNBOUND)
    return [st]


@op('STORE_FAST')
def store_fast(m, st, fr, arg, val):
    v = fr.stack.pop()
    if v is UNBOUND:
        fr.loc.pop(val, None)
    else:
        fr.loc[val] = v
    return [st]


@op('DELETE_FAST')
def delete_fast(m, st, fr, arg, val):
    fr.loc.pop(val, None)
    return [st]


def module_ns(m, st, fr):
    return m.prog.modules[fr.co.module]


@op('LOAD_GLOBAL')
def load_global(m, st, fr, arg, val):
    if arg & 1:
        fr.stack.append(NULL)
    v = m.obj(st, module_ns(m, st, fr)).map().get(val)
    if v is None:
        t = glob('builtins.' + val)
        if world.real(t) is world.MISSING:
            return m.throw(st, R('NameError', 'name %s is not defined' % val))
        v = t
    fr.stack.append(v)
    return [st]


@op('LOAD_NAME')
def load_name(m, st, fr, arg, val):
    v = m.obj(st, fr.ns).map().get(val)
    if v is None:
        v = m.obj(st, module_ns(m, st, fr)).map().get(val)
    if v is None:
        t = glob('builtins.' + val)
        if world.real(t) is world.MISSING:
            return m.throw(st, R('NameError', 'name %s is not defined' % val))
        v = t
    fr.stack.append(v)
    return [st]


@op('STORE_NAME')
def store_name(m, st, fr, arg, val):
    o = m.obj(st, fr.ns)
    st.heap[fr.ns] = o.set(val, fr.stack.pop())
    return [st]


@op('DELETE_NAME')
def delete_name(m, st, fr, arg, val):
    o = m.obj(st, fr.ns)
    if val in o.map():
        st.heap[fr.ns] = o.unset(val)
    return [st]


@op('STORE_GLOBAL')
def store_global(m, st, fr, arg, val):
    ns = module_ns(m, st, fr)
    o = m.obj(st, ns)
    m.touch(st, ns, ('setattr', val))
    st.heap[ns] = o.set(val, fr.stack.pop())
    return [st]


@op('LOAD_LOCALS')
def load_locals(m, st, fr, arg, val):
    fr.stack.append(fr.ns)
    return [st]


@op('LOAD_BUILD_CLASS')
def load_build_class(m, st, fr, arg, val):
    fr.stack.append(glob('builtins.__build_class__'))
    return [st]


@op('LOAD_ASSERTION_ERROR')
def load_ae(m, st, fr, arg, val):
    fr.stack.append(glob('builtins.AssertionError'))
    return [st]


@op('LOAD_ATTR')
def load_attr(m, st, fr, arg, val):
    o = fr.stack.pop()
    if arg & 1:
        fr.stack.append(NULL)
    return deliver_attr(m, st, o, val)


def deliver_attr(m, st, o, name):
    out = []
    for s, v in m.getattr(st, o, name):
        if not israise(v) and v.op == 'prop':
            out.extend(m.call(s, v.args[0], (v.args[1],), ()))
        elif israise(v):
            out.extend(m.throw(s, v))
        else:
            out.extend(m.ret(s, v))
    return out


@op('LOAD_SUPER_ATTR')
def load_super_attr(m, st, fr, arg, val):
    self_ = fr.stack.pop()
    cls = fr.stack.pop()
    fr.stack.pop()
    if arg & 1:
        fr.stack.append(NULL)
    own = m.obj(st, self_).cls if self_.op == 'ref' else (self_.args[0] if self_.op == 'nt' else self_)
    while own is not None and own.op == 'anyexc':
        own = own.args[0]
    mro = m.prog.mro(st, m, own)
    i = mro.index(cls) if cls in mro else -1
    for k in mro[i + 1:]:
        if k.op == 'cls':
            ns = m.obj(st, m.prog.classes[k].ns)
            if val in ns.map():
                f = ns.map()[val]
                fr.stack.append(mk('bm', self_, f) if f.op == 'func' else f)
                return [st]
        elif k.op == 'glob':
            v = world.real(k)
            if v is not world.MISSING and val in vars(v):
                fr.stack.append(mk('bm', self_, mk('bfunc', k, val)))
                return [st]
    return m.throw(st, R('AttributeError', 'super has no attribute %s' % val))


@op('STORE_ATTR')
def store_attr(m, st, fr, arg, val):
    o = fr.stack.pop()
    v = fr.stack.pop()
    return [s for s, r in m.models.setattr_(m, st, o, val, v) if not israise(r)] + \
        [x for s, r in [] for x in []]


@op('DELETE_ATTR')
def delete_attr(m, st, fr, arg, val):
    o = fr.stack.pop()
    if o.op == 'ref':
        h = m.obj(st, o)
        m.touch(st, o, ('delattr', val))
        if val in h.map():
            st.heap[o] = h.unset(val)
    return [st]


@op('STORE_SUBSCR')
def store_subscr(m, st, fr, arg, val):
    k = fr.stack.pop()
    o = fr.stack.pop()
    v = fr.stack.pop()
    out = []
    for s, r in m.setitem(st, o, k, v):
        if israise(r):
            out.extend(m.throw(s, r))
        else:
            out.append(s)
    return out


@op('DELETE_SUBSCR')
def delete_subscr(m, st, fr, arg, val):
    k = fr.stack.pop()
    o = fr.stack.pop()
    out = []
    for s, r in m.models.delitem(m, st, o, k):
        if israise(r):
            out.extend(m.throw(s, r))
        else:
            out.append(s)
    return out


@op('BINARY_SUBSCR')
def binary_subscr(m, st, fr, arg, val):
    k = fr.stack.pop()
    o = fr.stack.pop()
    return m.ret_all(m.getitem(st, o, k))


@op('BINARY_SLICE')
def binary_slice(m, st, fr, arg, val):
    b = fr.stack.pop()
    a = fr.stack.pop()
    o = fr.stack.pop()
    return m.ret_all(m.models.slice_any(m, st, o, mk('slice', a, b, NONE)))


@op('STORE_SLICE')
def store_slice(m, st, fr, arg, val):
    b = fr.stack.pop()
    a = fr.stack.pop()
    o = fr.stack.pop()
    v = fr.stack.pop()
    if o.op == 'ref':
        m.touch(st, o, 'slice assignment')
        h = m.obj(st, o)
        if h.kind == 'list' and a.op == 'const' and b.op == 'const':
            out = []
            for s, segs in m.segments(st, v):
                if israise(segs) or segs is None:
                    out.extend(m.throw(s, segs or R('TypeError', 'not iterable')))
                    continue
                d = list(m.obj(s, o).data)
                if all(x.op not in ('starseg', 'unkseg') for x in d) or (cval(a) in (None, 0) and cval(b) in (None, 0)):
                    d[slice(cval(a), cval(b))] = list(segs)
                    s.heap[o] = h.with_(tuple(d))
                else:
                    s.heap[o] = h.with_((mk('unkseg', mk('opq', 'element')),))
                out.append(s)
            return out
        st.heap[o] = h.with_((mk('unkseg', mk('opq', 'element')),))
    return [st]


@op('BUILD_SLICE')
def build_slice(m, st, fr, arg, val):
    c = fr.stack.pop() if arg == 3 else NONE
    b = fr.stack.pop()
    a = fr.stack.pop()
    fr.stack.append(mk('slice', a, b, c))
    return [st]


def popn(fr, n):
    if n == 0:
        return []
    r = fr.stack[-n:]
    del fr.stack[-n:]
    return r


@op('BUILD_TUPLE')
def build_tuple(m, st, fr, arg, val):
    fr.stack.append(mk('tuple', *popn(fr, arg)))
    return [st]


@op('BUILD_LIST')
def build_list(m, st, fr, arg, val):
    its = popn(fr, arg)
    fr.stack.append(m.alloc(st, 'list', None, tuple(its)))
    return [st]


@op('BUILD_SET')
def build_set(m, st, fr, arg, val):
    its = popn(fr, arg)
    r = m.alloc(st, 'set', None, ())
    fr.stack.append(r)
    states = [st]
    for x in its:
        nxt = []
        for s in states:
            for s2, v in m.set_add(s, r, x):
                if israise(v):
                    nxt.append((s2, v))
                else:
                    nxt.append((s2, None))
        states = []
        for s, v in nxt:
            if v is None:
                states.append(s)
            else:
                return_exc.append((s, v))
        pass
    out = list(states)
    while return_exc:
        s, v = return_exc.pop()
        out.extend(m.throw(s, v))
    return out


return_exc = []


@op('BUILD_MAP')
def build_map(m, st, fr, arg, val):
    its = popn(fr, 2 * arg)
    r = m.alloc(st, 'dict', None, ())
    fr.stack.append(r)
    return store_pairs(m, st, r, list(zip(its[::2], its[1::2])))


def store_pairs(m, st, r, pairs):
    cur = [st]
    out = []
    for k, v in pairs:
        nxt = []
        for s in cur:
            for s2, e in m.setitem(s, r, k, v):
                if israise(e):
                    out.extend(m.throw(s2, e))
                else:
                    nxt.append(s2)
        cur = nxt
    return out + cur


@op('BUILD_CONST_KEY_MAP')
def build_ckm(m, st, fr, arg, val):
    keys = fr.stack.pop().args
    vals = popn(fr, arg)
    r = m.alloc(st, 'dict', None, ())
    fr.stack.append(r)
    return store_pairs(m, st, r, list(zip(keys, vals)))


@op('BUILD_STRING')
def build_string(m, st, fr, arg, val):
    its = popn(fr, arg)
    if all(x.op == 'const' for x in its):
        fr.stack.append(const(''.join(cval(x) for x in its)))
    else:
        fr.stack.append(mk('call', glob('builtins.str'), *its))
    return [st]


@op('FORMAT_VALUE')
def format_value(m, st, fr, arg, val):
    spec = None
    if arg & 4:
        spec = fr.stack.pop()
    v = fr.stack.pop()
    if v.op == 'const' and v.args[0] == 'str' and spec is None and (arg & 3) in (0, 1):
        fr.stack.append(v)
        return [st]
    if spec is not None and not (spec.op == 'const'):
        st.taint('format specification')
    if (arg & 3) == 2:
        return m.call(st, glob('builtins.repr'), (v,), ())
    return m.call(st, glob('builtins.str'), (v,), ())


@op('LIST_APPEND')
def list_append(m, st, fr, arg, val):
    v = fr.stack.pop()
    r = fr.stack[-arg]
    o = m.obj(st, r)
    st.heap[r] = o.with_(o.data + (v,))
    return [st]


@op('SET_ADD')
def set_add(m, st, fr, arg, val):
    v = fr.stack.pop()
    r = fr.stack[-arg]
    out = []
    for s, e in m.set_add(st, r, v):
        if israise(e):
            out.extend(m.throw(s, e))
        else:
            out.append(s)
    return out


@op('MAP_ADD')
def map_add(m, st, fr, arg, val):
    v = fr.stack.pop()
    k = fr.stack.pop()
    r = fr.stack[-arg]
    return store_pairs(m, st, r, [(k, v)])


@op('LIST_EXTEND', 'SET_UPDATE')
def list_extend(m, st, fr, arg, val):
    v = fr.stack.pop()
    r = fr.stack[-arg]
    from .machine import NFrame
    out = []
    for s, it in m.get_iter(st, v):
        if israise(it):
            out.extend(m.throw(s, it))
        else:
            s.frames.append(NFrame('collect', acc=r, it=it, kind='update', ret=None))
            out.extend(m.next(s, it))
    return out


@op('DICT_UPDATE', 'DICT_MERGE')
def dict_update(m, st, fr, arg, val):
    v = fr.stack.pop()
    r = fr.stack[-arg]
    return m.models.dict_update(m, st, r, v, None)


@op('UNPACK_SEQUENCE')
def unpack_sequence(m, st, fr, arg, val):
    v = fr.stack.pop()
    out = []
    for s, r in m.models.unpack(m, st, v, arg):
        if israise(r):
            out.extend(m.throw(s, r))
        else:
            s.frames[-1].stack.extend(reversed(r))
            out.append(s)
    return out


@op('UNPACK_EX')
def unpack_ex(m, st, fr, arg, val):
    v = fr.stack.pop()
    before, after = arg & 0xff, arg >> 8
    out = []
    for s, segs in m.segments(st, v):
        if israise(segs) or segs is None:
            out.extend(m.throw(s, segs or R('TypeError', 'not iterable')))
            continue
        plain = all(x.op not in ('starseg', 'unkseg') for x in segs)
        head = segs[:before]
        if any(x.op in ('starseg', 'unkseg') for x in head) or (after and not plain):
            s.taint('unpacking a summarised sequence')
            seq = [mk('opq', 'item')] * (before + 1 + after)
            s.frames[-1].stack.extend(reversed(seq))
            out.append(s)
            continue
        if plain and len(segs) < before + after:
            out.extend(m.throw(s, R('ValueError', 'not enough values to unpack')))
            continue
        mid = segs[before:len(segs) - after if after else None]
        tail = segs[len(segs) - after:] if after else ()
        lst = m.alloc(s, 'list', None, tuple(mid))
        s.frames[-1].stack.extend(reversed(list(head) + [lst] + list(tail)))
        out.append(s)
    return out


@op('GET_ITER')
def get_iter(m, st, fr, arg, val):
    v = fr.stack.pop()
    return m.ret_all(m.get_iter(st, v))


@op('FOR_ITER')
def for_iter(m, st, fr, arg, val):
    return m.next(st, fr.stack[-1])


@op('GET_LEN')
def get_len(m, st, fr, arg, val):
    return m.ret_all(m.models.length(m, st, fr.stack[-1]))


@op('JUMP_FORWARD')
def jump_forward(m, st, fr, arg, val):
    fr.pc = val
    return [st]


@op('JUMP_BACKWARD')
def jump_backward(m, st, fr, arg, val):
    fr.back += 1
    if fr.back > 80:
        m.gc(st)
        k = ('jb', m.key(st))
        if k in m.visited:
            return []
        m.visited[k] = True
        if fr.back > 400:
            m.note(st, 'loop bound in ' + fr.co.name)
            return []
    fr.pc = val
    return [st]


def cond(m, st, fr, val, want):
    v = fr.stack.pop()
    out = []
    for s, b in m.truth(st, v):
        if b == want:
            s.frames[-1].pc = val
        out.append(s)
    return out


@op('POP_JUMP_IF_FALSE')
def pjif(m, st, fr, arg, val):
    return cond(m, st, fr, val, False)


@op('POP_JUMP_IF_TRUE')
def pjit(m, st, fr, arg, val):
    return cond(m, st, fr, val, True)


@op('POP_JUMP_IF_NONE')
def pjin(m, st, fr, arg, val):
    v = fr.stack.pop()
    out = []
    for s, b in m.is_(st, v, NONE):
        if b:
            s.frames[-1].pc = val
        out.append(s)
    return out


@op('POP_JUMP_IF_NOT_NONE')
def pjinn(m, st, fr, arg, val):
    v = fr.stack.pop()
    out = []
    for s, b in m.is_(st, v, NONE):
        if not b:
            s.frames[-1].pc = val
        out.append(s)
    return out


@op('UNARY_NOT')
def unary_not(m, st, fr, arg, val):
    v = fr.stack.pop()
    out = []
    for s, b in m.truth(st, v):
        s.frames[-1].stack.append(boolt(not b))
        out.append(s)
    return out


@op('UNARY_NEGATIVE', 'UNARY_INVERT')
def unary_neg(m, st, fr, arg, val):
    v = fr.stack.pop()
    if as_lin(v) is not None and OPNAME.get(fr.co.ins[fr.cur][0]) == '-':
        fr.stack.append(lin_add(const(0), v, -1))
    else:
        ks = m.kinds(st, v)
        fr.stack.append(mk('call', glob('operator.neg'), v))
    return [st]


OPNAME = {'UNARY_NEGATIVE': '-'}


@op('IS_OP')
def is_op(m, st, fr, arg, val):
    b = fr.stack.pop()
    a = fr.stack.pop()
    out = []
    for s, v in m.is_(st, a, b):
        s.frames[-1].stack.append(boolt(v != bool(arg)))
        out.append(s)
    return out


@op('CONTAINS_OP')
def contains_op(m, st, fr, arg, val):
    c = fr.stack.pop()
    x = fr.stack.pop()
    out = []
    for s, v in m.models.contains(m, st, x, c):
        if israise(v):
            out.extend(m.throw(s, v))
        else:
            s.frames[-1].stack.append(boolt(v != bool(arg)))
            out.append(s)
    return out


@op('COMPARE_OP')
def compare_op(m, st, fr, arg, val):
    b = fr.stack.pop()
    a = fr.stack.pop()
    return m.ret_all([(s, v if israise(v) else boolt(v)) for s, v in m.models.compare(m, st, val, a, b)])


@op('BINARY_OP')
def binary_op(m, st, fr, arg, val):
    b = fr.stack.pop()
    a = fr.stack.pop()
    import dis
    name = dis._nb_ops[arg][1]
    return m.models.binop(m, st, name, a, b)


@op('IMPORT_NAME')
def import_name(m, st, fr, arg, val):
    fromlist = fr.stack.pop()
    level = fr.stack.pop()
    return m.models.import_name(m, st, fr, val, cval(level), fromlist)


@op('IMPORT_FROM')
def import_from(m, st, fr, arg, val):
    mod = fr.stack[-1]
    return m.models.import_from(m, st, fr, mod, val)


@op('CALL_INTRINSIC_1')
def intrinsic1(m, st, fr, arg, val):
    if arg == 2:  # import star
        mod = fr.stack.pop()
        fr.stack.append(NONE)
        return m.models.import_star(m, st, fr, mod)
    if arg == 3:  # stopiteration error
        e = fr.stack.pop()
        o = m.obj(st, e)
        if o.cls is glob('builtins.StopIteration'):
            e = m.make_exc(st, R('RuntimeError', 'generator raised StopIteration'))
        fr.stack.append(e)
        return [st]
    if arg == 5:
        return [st]
    if arg == 6:  # list to tuple
        l = fr.stack.pop()
        fr.stack.append(mk('tuple', *m.obj(st, l).data))
        return [st]
    if arg == 4 or arg == 1:
        return [st]
    fr.stack.pop()
    fr.stack.append(mk('opq', 'intrinsic'))
    st.taint('intrinsic %d' % arg)
    return [st]


@op('CALL_INTRINSIC_2')
def intrinsic2(m, st, fr, arg, val):
    b = fr.stack.pop()
    fr.stack.pop()
    fr.stack.append(b if arg in (4,) else mk('opq', 'intrinsic'))
    return [st]


@op('MAKE_FUNCTION')
def make_function(m, st, fr, arg, val):
    code = fr.stack.pop()
    closure = ()
    if arg & 8:
        closure = fr.stack.pop().args
    if arg & 4:
        fr.stack.pop()
    kwd = ()
    if arg & 2:
        d = fr.stack.pop()
        kwd = tuple((cval(x.args[0]), x.args[1]) for x in m.obj(st, d).data)
    defs = ()
    if arg & 1:
        defs = fr.stack.pop().args
    fr.stack.append(mk('func', code.args[0], fr.co.module, defs, kwd, closure))
    return [st]


@op('KW_NAMES')
def kw_names(m, st, fr, arg, val):
    fr.kwn = tuple(val)
    return [st]


@op('CALL')
def call(m, st, fr, arg, val):
    args = popn(fr, arg)
    f = fr.stack.pop()
    n = fr.stack.pop()
    kwn = fr.kwn
    fr.kwn = ()
    kw = []
    if kwn:
        k = len(kwn)
        kw = list(zip(kwn, args[-k:]))
        args = args[:-k]
    if n is not NULL:
        args = [f] + args
        f = n
    return m.call(st, f, args, kw)


@op('CALL_FUNCTION_EX')
def call_ex(m, st, fr, arg, val):
    kwd = fr.stack.pop() if arg & 1 else None
    args = fr.stack.pop()
    f = fr.stack.pop()
    fr.stack.pop()
    return m.models.call_ex(m, st, f, args, kwd)


@op('RAISE_VARARGS')
def raise_varargs(m, st, fr, arg, val):
    if arg == 0:
        if st.handled is NONE:
            return m.throw(st, R('RuntimeError', 'No active exception to reraise'))
        return m.throw(st, st.handled)
    if arg == 2:
        fr.stack.pop()
    e = fr.stack.pop()
    return m.models.raise_value(m, st, e)


@op('RERAISE')
def reraise(m, st, fr, arg, val):
    e = fr.stack.pop()
    return m.throw(st, e)


@op('PUSH_EXC_INFO')
def push_exc_info(m, st, fr, arg, val):
    e = fr.stack.pop()
    fr.stack.append(st.handled)
    fr.stack.append(e)
    st.handled = e
    return [st]


@op('POP_EXCEPT')
def pop_except(m, st, fr, arg, val):
    st.handled = fr.stack.pop()
    return [st]


@op('CHECK_EXC_MATCH')
def check_exc_match(m, st, fr, arg, val):
    t = fr.stack.pop()
    e = fr.stack[-1]
    out = []
    for s, v in m.models.exc_match(m, st, e, t):
        s.frames[-1].stack.append(boolt(v))
        out.append(s)
    return out


@op('BEFORE_WITH')
def before_with(m, st, fr, arg, val):
    return m.models.before_with(m, st, fr)


@op('WITH_EXCEPT_START')
def with_except_start(m, st, fr, arg, val):
    return m.models.with_except_start(m, st, fr)


@op('GET_AWAITABLE', 'BEFORE_ASYNC_WITH')
def unsupported(m, st, fr, arg, val):
    st.taint('async')
    fr.stack.pop()
    fr.stack.append(mk('opq', 'async'))
    return [st]


@op('MATCH_MAPPING')
def match_mapping(m, st, fr, arg, val):
    v = fr.stack[-1]
    out = []
    for s, b in m.models.isinstance_(m, st, v, glob('collections.abc.Mapping')):
        s.frames[-1].stack.append(boolt(b))
        out.append(s)
    return out


@op('MATCH_SEQUENCE')
def match_sequence(m, st, fr, arg, val):
    v = fr.stack[-1]
    out = []
    for s, b in m.models.isinstance_(m, st, v, mk('tuple', glob('builtins.list'), glob('builtins.tuple'))):
        s.frames[-1].stack.append(boolt(b))
        out.append(s)
    return out


@op('MATCH_CLASS')
def match_class(m, st, fr, arg, val):
    names = fr.stack.pop()
    cls = fr.stack.pop()
    v = fr.stack.pop()
    out = []
    for s, b in m.models.isinstance_(m, st, v, cls):
        f = s.frames[-1]
        if not b:
            f.stack.append(NONE)
        elif arg == 0 and not names.args:
            f.stack.append(mk('tuple'))
        elif arg == 1 and not names.args:
            f.stack.append(mk('tuple', v))
        else:
            s.taint('class pattern')
            f.stack.append(mk('tuple', *[mk('opq', 'pattern')] * (arg + len(names.args))))
        out.append(s)
    return out


@op('MATCH_KEYS')
def match_keys(m, st, fr, arg, val):
    keys = fr.stack[-1].args
    v = fr.stack[-2]
    cur = [(st, [])]
    out = []
    for k in keys:
        nxt = []
        for s, vals in cur:
            for s2, r in m.getitem(s, v, k):
                if israise(r):
                    s2.frames[-1].stack.append(NONE)
                    out.append(s2)
                else:
                    nxt.append((s2, vals + [r]))
        cur = nxt
    for s, vals in cur:
        s.frames[-1].stack.append(mk('tuple', *vals))
        out.append(s)
    return out
