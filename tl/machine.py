"""Abstract machine for CPython 3.12 bytecode.

The repository's modules are compiled (never executed); the code objects are
interpreted over an abstract domain of provenance terms, data kinds and
summarised collections.  Paths are partitioned by the decisions they take,
loops over unbounded collections are run to a fixpoint at their head.
"""
import dis
import os
import sys
import time
import types as pytypes

from .terms import *
from . import world
from .world import KINDS, DATA, RESULT, HASHABLE, CONSTKIND, MISSING, FORMS, real

INF = float('inf')


class Raise:
    """an exception a primitive raises"""
    __slots__ = ('cls', 'desc', 'exc')

    def __init__(self, cls, desc='', exc=None):
        self.cls = cls if isinstance(cls, Term) else glob('builtins.' + cls)
        self.desc = desc
        self.exc = exc


DEADLINE = [float('inf')]       # when the analysis has to come to an end


class AnalysisError(Exception):
    pass


class HObj:
    __slots__ = ('kind', 'cls', 'data', 'owner', '_h', '_m')

    def __init__(self, kind, cls, data, owner='new'):
        self.kind = kind
        self.cls = cls
        self.data = data
        self.owner = owner
        self._h = None
        self._m = None

    def key(self):
        return (self.kind, self.cls, self.data, self.owner)

    def __hash__(self):
        if self._h is None:
            self._h = hash(self.key())
        return self._h

    def __eq__(self, o):
        return self is o or (isinstance(o, HObj) and hash(self) == hash(o) and self.key() == o.key())

    def map(self):
        if self._m is None:
            self._m = dict(self.data)
        return self._m

    def with_(self, data):
        return HObj(self.kind, self.cls, data, self.owner)

    def set(self, name, val):
        m = dict(self.map())
        m[name] = val
        return self.with_(tuple(m.items()))

    def unset(self, name):
        m = dict(self.map())
        del m[name]
        return self.with_(tuple(m.items()))

    def __repr__(self):
        return '%s:%s%s' % (self.kind, show(self.cls) if self.cls else '', show(self.data))


class CodeInfo:
    def __init__(self, code, module, prog, parent=''):
        self.name = parent + code.co_name
        self.code = code
        self.module = module
        self.path = prog.relpath(code.co_filename)
        self.ins = []
        offs = {}
        pend = []
        for i in dis.get_instructions(code):
            if i.opname in ('EXTENDED_ARG', 'CACHE'):
                pend.append(i.offset)
                continue
            idx = len(self.ins)
            for p in pend:
                offs[p] = idx
            pend = []
            offs[i.offset] = idx
            ln = i.positions.lineno if i.positions else None
            self.ins.append((i.opname, i.arg, i.argval, ln, i.offset))
        self.n = len(self.ins)
        offs[len(code.co_code)] = self.n

        def ix(o):
            while o not in offs:
                o += 2
            return offs[o]
        self.off = offs
        self.exc = [(ix(e.start), ix(e.end), ix(e.target), e.depth, e.lasti)
                    for e in dis._parse_exception_table(code)]
        self.consts = {}
        self.subs = {}
        self.prog = prog
        self._live = None
        self.plain = frozenset(code.co_varnames) - frozenset(code.co_cellvars)
        self.isgen = bool(code.co_flags & 0x20)
        # resolve jumps
        for k, (op, arg, val, ln, off) in enumerate(self.ins):
            if 'JUMP' in op or op in ('FOR_ITER', 'SEND'):
                self.ins[k] = (op, arg, offs[val], ln, off)

    def sub(self, code):
        r = self.subs.get(code)
        if r is None:
            nm = '' if self.code.co_name == '<module>' else self.name + '.'
            r = self.subs[code] = CodeInfo(code, self.module, self.prog, nm)
            self.prog.codes.append(r)
        return r

    def live(self, idx):
        """the locals that may still be read from this instruction on"""
        if self._live is None:
            self._live = self.liveness()
        return self._live[idx]

    def liveness(self):
        n = self.n
        if any(v in ('locals', 'vars', 'dir', 'eval', 'exec') for _, _, v, _, _ in self.ins if isinstance(v, str)):
            every = frozenset(self.code.co_varnames)
            return [every] * (n + 1)
        succ = []
        for k, (op, arg, val, ln, off) in enumerate(self.ins):
            t = [] if op in ('RETURN_VALUE', 'RETURN_CONST', 'RERAISE', 'RAISE_VARARGS') or op.startswith('JUMP') else [k + 1]
            if 'JUMP' in op or op in ('FOR_ITER', 'SEND'):
                t.append(val)
                if op == 'FOR_ITER':
                    t.append(min(val + 1, n))
            t += [h for a, b, h, _, _ in self.exc if a <= k < b]
            succ.append([x for x in t if x <= n])
        # a comprehension saves the variables of its name and restores them afterwards
        saved = {v for op, _, v, _, _ in self.ins if op == 'LOAD_FAST_AND_CLEAR'}
        restore = set()
        for k, (op, _, v, _, _) in enumerate(self.ins):
            if op == 'STORE_FAST' and v in saved and k and (self.ins[k - 1][0] == 'SWAP' or k - 1 in restore):
                restore.add(k)
        live = [frozenset()] * (n + 1)
        todo = True
        while todo:
            todo = False
            for k in range(n - 1, -1, -1):
                op, _, val, _, _ = self.ins[k]
                out = frozenset().union(*[live[x] for x in succ[k]]) if succ[k] else frozenset()
                if 'FAST' in op and op != 'LOAD_FAST_AND_CLEAR' and k not in restore:
                    use, kill = fast_effect(op, val)
                    out = (out - kill) | use
                if out != live[k]:
                    live[k] = out
                    todo = True
        return live

    def line(self, idx):
        while idx >= 0:
            if self.ins[min(idx, self.n - 1)][3]:
                return self.ins[min(idx, self.n - 1)][3]
            idx -= 1
        return self.code.co_firstlineno

    def __repr__(self):
        return '<code %s>' % self.name


def fast_effect(op, val):
    """the locals an instruction reads, and those it only writes"""
    names = tuple(val) if isinstance(val, (tuple, list)) else (val,)
    if op == 'STORE_FAST_LOAD_FAST':
        return frozenset(names[1:]) - frozenset(names[:1]), frozenset(names[:1])
    if op.startswith('STORE_FAST') or op == 'DELETE_FAST':
        return frozenset(), frozenset(names)
    return frozenset(names), frozenset()


class Frame:
    __slots__ = ('co', 'pc', 'cur', 'stack', 'loc', 'cells', 'ns', 'gen', 'expect', 'kwn', 'free', 'back')
    native = False

    def __init__(self, co):
        self.co = co
        self.pc = 0
        self.cur = 0
        self.stack = []
        self.loc = {}
        self.cells = {}
        self.ns = None
        self.gen = None
        self.expect = None
        self.kwn = ()
        self.free = ()
        self.back = 0

    def copy(self):
        f = Frame.__new__(Frame)
        f.co = self.co
        f.pc = self.pc
        f.cur = self.cur
        f.stack = list(self.stack)
        f.loc = dict(self.loc)
        f.cells = dict(self.cells)
        f.ns = self.ns
        f.gen = self.gen
        f.expect = self.expect
        f.kwn = self.kwn
        f.free = self.free
        f.back = self.back
        return f

    def freeze(self):
        return (self.co, self.pc, self.cur, tuple(self.stack), tuple(sorted(self.loc.items(), key=_k0)),
                tuple(sorted(self.cells.items(), key=_k0)), self.ns, self.gen, self.expect, self.kwn, self.free)

    @staticmethod
    def thaw(t):
        f = Frame(t[0])
        f.pc, f.cur = t[1], t[2]
        f.stack = list(t[3])
        f.loc = dict(t[4])
        f.cells = dict(t[5])
        f.ns, f.gen, f.expect, f.kwn, f.free = t[6:]
        return f

    def map(self, f):
        self.stack = [f(x) for x in self.stack]
        self.loc = {k: f(v) for k, v in self.loc.items()}

    def roots(self):
        yield from self.stack
        yield from self.loc.values()
        yield from self.cells.values()
        if self.ns is not None:
            yield self.ns
        if self.gen is not None:
            yield self.gen


def _k0(p):
    return p[0]


class NFrame:
    """a library routine in progress"""
    __slots__ = ('name', 'd', 'gen')
    native = True

    def __init__(self, name_, **d):
        self.name = name_
        self.d = d
        self.gen = None

    def copy(self):
        f = NFrame(self.name)
        f.d = dict(self.d)
        return f

    def freeze(self):
        return (self.name, tuple(sorted(self.d.items(), key=_k0)))

    def map(self, f):
        self.d = {k: _mapv(v, f) for k, v in self.d.items()}

    def roots(self):
        for v in self.d.values():
            yield v


def _mapv(v, f):
    if isinstance(v, Term):
        return f(v)
    if isinstance(v, tuple):
        return tuple(_mapv(x, f) for x in v)
    return v


class State:
    __slots__ = ('frames', 'heap', 'facts', 'kinds', 'ranges', 'log', 'alts', 'done', 'snaps',
                 'handled', 'tainted', 'roots', 'trail', 'outcome', 'opts')

    def __init__(self):
        self.frames = []
        self.heap = {}
        self.facts = {}
        self.kinds = {}
        self.ranges = {}
        self.log = ()
        self.alts = {}
        self.done = {}
        self.snaps = {}
        self.handled = NONE
        self.tainted = ()
        self.roots = {}
        self.trail = ()
        self.outcome = None

    def copy(self):
        s = State.__new__(State)
        s.frames = [f.copy() for f in self.frames]
        s.heap = dict(self.heap)
        s.facts = dict(self.facts)
        s.kinds = dict(self.kinds)
        s.ranges = dict(self.ranges)
        s.log = self.log
        s.alts = dict(self.alts)
        s.done = dict(self.done)
        s.snaps = dict(self.snaps)
        s.handled = self.handled
        s.tainted = self.tainted
        s.roots = self.roots
        s.trail = self.trail
        s.outcome = None
        return s

    @property
    def top(self):
        return self.frames[-1]

    def taint(self, why):
        if why not in self.tainted:
            self.tainted = self.tainted + (why,)


def join_phi(a, b):
    """weaker of two condition sets"""
    da, db = dict(a), dict(b)
    out = []
    for k, v in da.items():
        if k not in db:
            continue
        w = db[k]
        if v == w:
            out.append((k, v))
        elif isinstance(v, frozenset) and isinstance(w, frozenset):
            out.append((k, v | w))
    return frozenset(out)


class Machine:
    def __init__(self, prog):
        self.prog = prog
        self.base = prog.heap
        self.findings = []
        self.notes = {}
        self.steps = 0
        self.max_steps = 3000000
        self.visited = {}
        self.exits = {}
        self.released = set()
        self.outcomes = []
        self.lines = {}
        self.stats = {'paths': 0, 'splits': 0, 'joins': 0, 'steps': 0, 'calls': 0}
        self.hooks = {}
        self.revsets = False      # iterate sets the other way round
        self.eqforms = set()
        self.covered = set()
        self.sitectr = 0
        from . import models
        self.models = models

    # ------------------------------------------------------------ reporting
    def note(self, st, what):
        self.notes[what] = self.notes.get(what, 0) + 1

    def where(self, st):
        for f in reversed(st.frames):
            if not f.native:
                return '%s:%d' % (f.co.path, f.co.line(f.cur)), f.co.name
        return '?', '?'

    def stackdesc(self, st):
        r = []
        for f in st.frames:
            if not f.native:
                r.append('%s (%s:%d)' % (f.co.name, f.co.path, f.co.line(f.cur)))
        return ' > '.join(r)

    def find(self, st, rule, what):
        if st.tainted:
            return
        self.findings.append((rule, what, self.where(st), self.stackdesc(st)))

    # ------------------------------------------------------------ heap
    def obj(self, st, ref):
        o = st.heap.get(ref)
        if o is None:
            o = self.base.get(ref)
        return o

    def alloc(self, st, kind, cls, data, owner='new', site=None):
        if site is None:
            f = None
            for f in reversed(st.frames):
                if not f.native:
                    break
            if f is None or f.native:
                site = 'x'
            else:
                site = '%s:%d' % (f.co.name, f.cur)
        site = kind + '@' + site
        n = 0
        while True:
            r = mk('ref', site, n)
            if r not in st.heap and r not in self.base:
                break
            n += 1
        st.heap[r] = HObj(kind, cls, data, owner)
        return r

    def hset(self, st, ref, o):
        st.heap[ref] = o

    def touch(self, st, ref, what):
        """a mutation of an existing object"""
        o = self.obj(st, ref)
        h = self.hooks.get('mutate')
        if h and o.owner != 'new':
            h(self, st, ref, o, what)

    def publish(self, st, term, owner):
        """everything reachable from term now belongs to owner"""
        seen = set()
        todo = [term]
        while todo:
            t = todo.pop()
            for r in refs_of(t):
                if r.op == 'starseg':
                    for items in st.alts.get(r.args[1], {}):
                        todo.append(items)
                    continue
                if r in seen:
                    continue
                seen.add(r)
                o = st.heap.get(r)
                if o is None:
                    continue
                if o.owner == 'new' or owner in ('L',):
                    if o.kind not in ('iter', 'gen'):
                        st.heap[r] = HObj(o.kind, o.cls, o.data, owner)
                todo.append(o.data)
                if o.cls is not None:
                    todo.append(o.cls)

    def reach(self, st, roots):
        seen = set()
        todo = list(roots)
        while todo:
            t = todo.pop()
            if isinstance(t, HObj):
                todo.append(t.data)
                if t.cls is not None:
                    todo.append(t.cls)
                continue
            if isinstance(t, (Frame, NFrame)):
                todo.extend(t.roots())
                continue
            if not isinstance(t, (Term, tuple, frozenset)):
                continue
            if isinstance(t, Term):
                rs = refs_of(t)
            else:
                rs = set()
                for x in t:
                    if isinstance(x, Term):
                        rs |= refs_of(x)
                    elif isinstance(x, (tuple, frozenset, Frame, NFrame, HObj)):
                        todo.append(x)
            for r in rs:
                if r in seen:
                    continue
                seen.add(r)
                if r.op == 'starseg':
                    todo.extend(st.alts.get(r.args[1], {}))
                    continue
                o = st.heap.get(r)
                if o is not None:
                    todo.append(o)
        return seen

    def gc(self, st):
        for f in st.frames:
            if not f.native and f.loc:
                a, b = f.co.live(f.cur), f.co.live(f.pc)
                for k in [k for k in f.loc if k not in a and k not in b and k in f.co.plain]:
                    del f.loc[k]
        live = self.reach(st, list(st.frames) + list(st.roots.values()) + [st.handled, st.log])
        dead = [r for r in st.heap if r not in live and st.heap[r].owner not in ('module', 'type')]
        for r in dead:
            del st.heap[r]
        live_a = {r.args[1] for r in live if r.op == 'starseg'}
        for a in list(st.alts):
            if a not in live_a:
                del st.alts[a]
        return st

    def key(self, st):
        return (tuple(f.freeze() for f in st.frames), frozenset(st.heap.items()),
                frozenset(st.facts.items()), frozenset(st.kinds.items()), frozenset(st.ranges.items()),
                st.log, st.handled, st.tainted)

    # ------------------------------------------------------------ kinds
    def kinds(self, st, t):
        """possible data kinds of a value, or None when it is not plain data"""
        k = st.kinds.get(t)
        if k is not None:
            return k
        op = t.op
        if op == 'const':
            n = CONSTKIND.get(t.args[0])
            return frozenset([n]) if n else None
        if op == 'lin':
            return frozenset(['int'])
        if op == 'name':
            return frozenset(['str'])
        if op in ('elem', 'old', 'bnd'):
            S = t.args[0]
            if S.op == 'star':
                return world_star_kinds(S)
            return self.elem_kinds(st, S)
        if op == 'rawattr' and t.args[1] == '__dict__':
            return frozenset(['dict'])
        if op in ('par', 'at', 'opq', 'rawattr'):
            return DATA
        if op == 'loaded' or op == 'dumped' or op == 'inst':
            return RESULT
        if op == 'call':
            f = t.args[0]
            if f.op == 'glob':
                return self.models.RESULT_KINDS.get(f.args[0])
            return None
        return None

    def elem_kinds(self, st, S):
        if S.op == 'rawattr' and S.args[1] == '__dict__':
            return frozenset(['str'])
        k = self.kinds(st, S)
        if k is None:
            return DATA
        r = set()
        for x in k:
            if x in ('str', 'strsub'):
                r.add('str')
            elif x == 'bytes':
                r.add('int')
            elif x in ('set', 'frozenset', 'dict', 'mapping'):
                r |= HASHABLE
            else:
                r |= DATA
        return frozenset(r)

    def narrow(self, st, t, ks):
        cur = self.kinds(st, t)
        ks = frozenset(ks) & cur
        if ks != cur:
            st.kinds[t] = ks
        return ks

    def split_kinds(self, st, t, classify):
        """partition by classify(kind); -> [(state, class)]"""
        ks = self.kinds(st, t)
        groups = {}
        for k in ks:
            groups.setdefault(classify(k), set()).add(k)
        if len(groups) == 1:
            return [(st, next(iter(groups)))]
        out = []
        items = sorted(groups.items(), key=lambda p: repr(p[0]))
        self.stats['splits'] += 1
        for i, (c, g) in enumerate(items):
            s = st if i == len(items) - 1 else st.copy()
            s.kinds[t] = frozenset(g)
            out.append((s, c))
        return out

    def is_data(self, t):
        return t.op in ('par', 'at', 'elem', 'old', 'rawattr') or (t.op == 'call' and t.args[0].op == 'bm')

    # ------------------------------------------------------------ decisions
    def fact(self, st, lit):
        return st.facts.get(lit)

    def split(self, st, lit, taint=None):
        v = st.facts.get(lit)
        if v is not None:
            return [(st, v)]
        self.stats['splits'] += 1
        a, b = st, st.copy()
        a.facts[lit] = True
        b.facts[lit] = False
        if taint:
            a.taint(taint)
            b.taint(taint)
        return [(a, True), (b, False)]

    def range_of(self, st, atoms):
        lo = hi = 0
        full = st.ranges.get(atoms)
        for a, k in atoms:
            l, h = st.ranges.get(((a, 1),), (0, INF))
            if k > 0:
                lo += k * l
                hi += k * h
            else:
                lo += k * h
                hi += k * l
        if full:
            lo, hi = max(lo, full[0]), min(hi, full[1])
        return lo, hi

    def propagate(self, st):
        """bounds of sums give bounds of their atoms; False: no values satisfy them all"""
        sums = [(a, r) for a, r in st.ranges.items() if len(a) > 1]
        for _ in range(6):
            changed = False
            for atoms, (lo, hi) in sums:
                one = [(a, k) + tuple(st.ranges.get(((a, 1),), (0, INF))) for a, k in atoms]
                for a, k, l, h in one:
                    rlo = rhi = 0
                    for b, kb, lb, hb in one:
                        if b is not a:
                            rlo += kb * (lb if kb > 0 else hb)
                            rhi += kb * (hb if kb > 0 else lb)
                    # lo - rhi <= k*a <= hi - rlo
                    x, y = lo - rhi, hi - rlo
                    if k < 0:
                        x, y = -y, -x
                    if x != x or y != y:
                        continue
                    nl = max(l, -(-x // abs(k))) if x not in (INF, -INF) else l
                    nh = min(h, y // abs(k)) if y not in (INF, -INF) else h
                    if nl > nh:
                        return False
                    if (nl, nh) != (l, h):
                        st.ranges[((a, 1),)] = (nl, nh)
                        changed = True
            if not changed:
                return True
        return True

    def split_sign(self, st, t):
        """-> [(state, -1|0|1)] sign of a linear integer"""
        c, d = as_lin(t)
        if not d:
            return [(st, (c > 0) - (c < 0))]
        atoms = tuple(sorted(d.items(), key=lambda p: p[0].id))
        flip = atoms[0][1] < 0
        if flip:
            atoms = tuple((a, -k) for a, k in atoms)
            c = -c
        # c + L : L in [lo,hi]
        lo, hi = self.range_of(st, atoms)
        out = []
        for sgn in (-1, 0, 1):
            # L + c < 0  <=> L <= -c-1
            if sgn == -1:
                nlo, nhi = lo, min(hi, -c - 1)
            elif sgn == 0:
                nlo, nhi = max(lo, -c), min(hi, -c)
            else:
                nlo, nhi = max(lo, -c + 1), hi
            if nlo <= nhi:
                out.append((sgn, nlo, nhi))
        res = []
        if len(out) > 1:
            self.stats['splits'] += 1
        for i, (sgn, nlo, nhi) in enumerate(out):
            s = st if i == len(out) - 1 else st.copy()
            if (nlo, nhi) != (lo, hi):
                s.ranges[atoms] = (nlo, nhi)
                if not self.propagate(s):
                    continue
            res.append((s, -sgn if flip else sgn))
        return res

    def nonempty(self, st, S):
        return self.range_of(st, ((card(S), 1),))

    def truth(self, st, t):
        op = t.op
        if op == 'const':
            return [(st, bool(cval(t)))]
        if op == 'lin':
            return [(s, g != 0) for s, g in self.split_sign(st, t)]
        if op == 'tuple':
            return self.seq_truth(st, t.args)
        if op == 'fset':
            return [(st, bool(t.args[0]))]
        if op == 'nt':
            return [(st, len(t.args) > 1)]
        if op == 'ref':
            o = self.obj(st, t)
            if o.kind in ('list', 'dict', 'set', 'frozenset'):
                if o.kind == 'list':
                    return self.seq_truth(st, o.data)
                return self.seq_truth(st, o.data)
            if o.kind == 'inst':
                if o.cls is not None and self.class_attr(st, o.cls, '__bool__') is not None:
                    st.taint('user-defined truth value')
                    return self.split(st, mk('truth', t))
            return [(st, True)]
        if op in ('name', 'str'):
            return [(st, True)]
        if op in ('func', 'bm', 'glob', 'cls', 'form', 'typeof', 'partial', 'bfunc', 'enum', 'rec', 'user'):
            if op == 'glob':
                v = real(t)
                if v is not MISSING:
                    try:
                        return [(st, bool(v))]
                    except Exception:
                        pass
            return [(st, True)]
        if op in ('eq', 'in', 'truth', 'not'):
            return self.split(st, t)
        ks = self.kinds(st, t)
        if ks is not None:
            out = []
            for s, c in self.split_kinds(st, t, lambda k: KINDS[k].truth):
                if c is None:
                    out.extend(self.split(s, mk('truth', t)))
                else:
                    out.append((s, c))
            return out
        return self.split(st, mk('truth', t), None if op in ('opt', 'call', 'dflt', 'attr', 'val') else 'truth of %s' % show(t))

    def seq_truth(self, st, segs):
        stars = []
        for x in segs:
            if x.op == 'ent' or x.op not in ('starseg', 'unkseg'):
                return [(st, True)]
            stars.append(x)
        res = []
        cur = [st]
        for x in stars:
            nxt = []
            for s in cur:
                if x.op == 'unkseg':
                    for s2, v in self.split(s, mk('truth', x), 'contents of a collection'):
                        (res.append((s2, True)) if v else nxt.append(s2))
                    continue
                S = x.args[0]
                alts = s.alts.get(x.args[1], {})
                if () in alts:
                    # some elements may have been left out
                    for s2, g in self.split_sign(s, lin(0, [(card(S), 1)])):
                        if g == 0:
                            nxt.append(s2)
                        elif len(alts) == 1:
                            nxt.append(s2)
                        else:
                            for s3, v in self.split(s2, mk('truth', x)):
                                (res.append((s3, True)) if v else nxt.append(s3))
                else:
                    for s2, g in self.split_sign(s, lin(0, [(card(S), 1)])):
                        (res.append((s2, True)) if g else nxt.append(s2))
            cur = nxt
        res.extend((s, False) for s in cur)
        return res

    # ------------------------------------------------------------ classes
    def class_attr(self, st, c, name):
        """attribute found in the class hierarchy of a repository class, or None"""
        for k in self.prog.mro(st, self, c):
            if k.op == 'cls':
                ns = self.obj(st, self.prog.classes[k].ns)
                if name in ns.map():
                    return ns.map()[name]
            elif k.op == 'glob':
                v = real(k)
                if v is not MISSING and k.args[0] != 'builtins.object' and name in vars(v):
                    return mk('bfunc', k, name)
        return None

    def typeof(self, st, t):
        """class term of a value, or mk(typeof)"""
        op = t.op
        if op == 'ref':
            o = self.obj(st, t)
            if o.kind in ('list', 'dict', 'set', 'frozenset'):
                return glob('builtins.' + o.kind)
            if o.cls is not None:
                return o.cls
            return mk('typeof', t)
        if op == 'tuple':
            return glob('builtins.tuple')
        if op == 'fset':
            return glob('builtins.frozenset')
        if op == 'nt':
            return t.args[0]
        if op in ('enum', 'rec', 'val'):
            return t.args[0]
        if op == 'func':
            return glob('types.FunctionType')
        if op == 'form':
            c = real(t).__class__
            return world.classterm(c)
        if op == 'glob':
            v = real(t)
            if v is not MISSING:
                return world.classterm(type(v))
            return mk('typeof', t)
        if op == 'cls':
            return glob('builtins.type')
        if op == 'const' and t is ELL:
            return world.classterm(type(Ellipsis))
        ks = self.kinds(st, t)
        if ks is not None and len(ks) == 1:
            k = next(iter(ks))
            if k not in ('object', 'robj', 'urobj'):
                return world.classterm(KINDS[k].cls)
        if op == 'call' and t.args[0].op in ('form',):
            return t.args[0]
        return mk('typeof', t)

    def subclass(self, st, a, b):
        """is class a a subclass of class b: True/False/None"""
        if a is b:
            return True
        if b is glob('builtins.object'):
            return True
        if b.op == 'anyexc':
            return None
        if a.op == 'anyexc':
            base, excl = a.args
            r = self.subclass(st, base, b)
            if r:
                return True
            for x in excl:
                if self.subclass(st, b, x):
                    return False
            if b.op == 'glob' and self.exc_family(b):
                return None
            if b.op == 'cls' and self.subclass(st, b, base) or (b.op == 'cls' and base is glob('builtins.Exception')):
                # a library exception is not what foreign code raises
                return None if base.op == 'cls' else False
            return False
        if a.op == 'cls':
            m = self.prog.mro(st, self, a)
            if b in m:
                return True
            if b.op == 'glob':
                vb = real(b)
                for k in m:
                    if k.op == 'glob' and isinstance(real(k), type) and isinstance(vb, type) and issubclass(real(k), vb):
                        return True
            return False
        ra, rb = real(a), real(b)
        if ra is not MISSING and rb is not MISSING:
            try:
                return issubclass(ra, rb)
            except TypeError:
                return None
        if b.op == 'cls' or b.op == 'form':
            return False
        if a.op == 'form' or b.op == 'glob':
            return None
        return None

    def exc_family(self, b):
        v = real(b)
        return isinstance(v, type) and issubclass(v, Exception)

    def split_subclass(self, st, ref, b):
        """does exception object ref belong to class b: narrows"""
        o = self.obj(st, ref)
        r = self.subclass(st, o.cls, b)
        if r is not None:
            return [(st, r)]
        base, excl = o.cls.args
        self.stats['splits'] += 1
        s1, s2 = st, st.copy()
        n1 = b
        if base.op == 'cls':
            # library exception also derived from builtin b
            n1 = None
            for c in self.prog.exc_classes:
                if self.subclass(st, c, base) and self.subclass(st, c, b):
                    n1 = c if n1 is None or self.subclass(st, n1, c) else n1
            if n1 is None:
                return [(st, False)]
        s1.heap[ref] = HObj(o.kind, mk('anyexc', n1, frozenset()), o.data, o.owner)
        s2.heap[ref] = HObj(o.kind, mk('anyexc', base, excl | {b}), o.data, o.owner)
        return [(s1, True), (s2, False)]

    # ------------------------------------------------------------ equality
    def same(self, st, a, b):
        """definite equality of two values: True/False/None"""
        if a is b:
            return True
        if a.op == 'typeof' or b.op == 'typeof':
            return None
        classish = ('glob', 'form', 'cls', 'func', 'bm', 'bfunc', 'enum', 'partial', 'rec', 'user')
        oa, ob = a.op, b.op
        if oa == 'const' and ob == 'const':
            try:
                return cval(a) == cval(b)
            except Exception:
                return None
        if oa in classish and ob in classish:
            if oa == 'form' and ob == 'form' and frozenset((a, b)) in self.eqforms:
                return True
            if oa in ('glob', 'form') and ob in ('glob', 'form'):
                ra, rb = real(a), real(b)
                if ra is not MISSING and rb is not MISSING:
                    if oa == 'form' and ob == 'form':
                        return False
                    try:
                        return bool(ra == rb)
                    except Exception:
                        return None
            if oa == 'enum' and ob == 'enum' and a.args[0] is b.args[0]:
                return False
            return False
        if oa in classish or ob in classish:
            x, y = (a, b) if oa in classish else (b, a)
            if y.op in ('const', 'tuple', 'lin', 'name', 'fset', 'nt', 'dflt', 'attr', 'starterm', 'val'):
                return False if y.op != 'attr' else None
            if y.op == 'ref':
                return False
            ks = self.kinds(st, y)
            if ks is not None and ks <= DATA - {'object'}:
                return False
            if y.op == 'hidx':
                return None
            return None
        if oa == 'name' or ob == 'name':
            x, y = (a, b) if oa == 'name' else (b, a)
            if y.op == 'name':
                return False
            if y.op == 'const':
                return False
            if y.op in ('elem', 'old', 'bnd') and y.args[0].op == 'star':
                return False
        if oa in ('elem', 'old') and ob in ('elem', 'old'):
            Sa, Sb = a.args[0], b.args[0]
            if Sa.op == 'star' and Sb.op == 'star' and Sa is not Sb:
                return False
            return None
        if (oa in ('elem', 'old') and a.args[0].op == 'star' and ob == 'const') or \
           (ob in ('elem', 'old') and b.args[0].op == 'star' and oa == 'const'):
            x, y = (a, b) if ob == 'const' else (b, a)
            if x.args[0].args[0] in ('F',):
                return False
        seqs = ('tuple', 'nt')
        if oa in seqs and ob in seqs:
            ia = a.args if oa == 'tuple' else a.args[1:]
            ib = b.args if ob == 'tuple' else b.args[1:]
            if any(x.op in ('starseg', 'unkseg') for x in ia + ib):
                return None
            if len(ia) != len(ib):
                return False
            r = True
            for x, y in zip(ia, ib):
                s = self.same(st, x, y)
                if s is False:
                    return False
                if s is None:
                    r = None
            return r
        if oa in seqs or ob in seqs:
            y = b if oa in seqs else a
            if y.op in ('const', 'lin', 'name'):
                return False
        # data against constants: kinds
        if ob == 'const':
            a, b, oa, ob = b, a, ob, oa
        if oa == 'const':
            ks = self.kinds(st, b)
            if ks is not None:
                kc = CONSTKIND.get(a.args[0])
                if kc in ('bool', 'int', 'float'):
                    poss = {'bool', 'int', 'float', 'robj', 'urobj'}
                elif kc == 'str':
                    poss = {'str', 'strsub', 'robj', 'urobj'}
                elif kc == 'bytes':
                    poss = {'bytes', 'robj', 'urobj'}
                elif kc == 'none':
                    poss = {'none'}
                else:
                    poss = set(KINDS)
                if not (ks & poss):
                    return False
                if kc == 'none' and ks == frozenset(['none']):
                    return True
            if b.op == 'ref':
                return False
        if oa == 'ref' and ob == 'ref':
            A, B = self.obj(st, a), self.obj(st, b)
            if A.kind != B.kind:
                return False
            if A.kind in ('set', 'frozenset', 'dict'):
                # same entries by name: sets over distinguished and summary members
                r = self.set_relation(st, A, B)
                return r
            return None
        return None

    def set_relation(self, st, A, B):
        da, db = set(A.data), set(B.data)
        if da == db and not any(x.op == 'unkseg' for x in da):
            return True
        if A.kind == 'dict':
            return None
        if any(x.op != 'ent' for x in da ^ db):
            return None
        for x in da - db:
            rs = [self.same(st, x.args[0], y.args[0]) for y in db - da if y.op == 'ent']
            if all(r is False for r in rs) and not any(y.op != 'ent' for y in db - da):
                return False
        return None

    def eq(self, st, a, b):
        """-> [(state, bool)]"""
        r = self.same(st, a, b)
        if r is not None:
            return [(st, r)]
        if b.op == 'typeof' and a.op != 'typeof':
            a, b = b, a
        if a.op == 'typeof' and b.op in ('glob', 'form', 'cls'):
            x = a.args[0]
            ks = self.kinds(st, x)
            if ks is not None:
                vb = real(b) if b.op == 'glob' else MISSING
                out = []
                other = not any(k.cls is vb for n, k in KINDS.items() if n != 'object')
                for s, c in self.split_kinds(st, x, lambda k: (KINDS[k].cls is vb) if k not in ('object', 'robj', 'urobj')
                                             else ('u' if k != 'object' else 'o' if other else False)):
                    if c == 'o':
                        out.extend(self.split(s, mk('eq', a, b)))
                    elif c == 'u':
                        if vb is not MISSING and vb in (str, int, float, bool, type(None), list, dict, set, tuple, bytes, frozenset):
                            out.extend(self.split(s, mk('eq', a, b), 'type of a loaded value'))
                        else:
                            out.append((s, False))
                    else:
                        out.append((s, c))
                return out
            if x.op == 'inst' or x.op == 'dflt':
                return self.split(st, mk('eq', a, b))
        if as_lin(a) is not None and as_lin(b) is not None:
            return [(s, g == 0) for s, g in self.split_sign(st, lin_add(a, b, -1))]
        x, y = (a, b) if a.id < b.id else (b, a)
        lit = mk('eq', x, y)
        v = st.facts.get(lit)
        if v is not None:
            return [(st, v)]
        p, q = (a, b) if a.op in ('const', 'name') else (b, a)
        if p.op in ('const', 'name'):
            # equal to another constant already
            for k, w in st.facts.items():
                if w is True and k.op == 'eq' and q in k.args:
                    z = k.args[1] if k.args[0] is q else k.args[0]
                    if z.op in ('const', 'name') and self.same(st, z, p) is False:
                        return [(st, False)]
        taint = None
        opaque = ('call', 'attr', 'opq')
        if (a.op in opaque and not self.known_call(a)) or (b.op in opaque and not self.known_call(b)):
            taint = 'comparison of %s' % show(lit)
        res = self.split(st, lit, taint)
        for s, v in res:
            if v:
                for p, q in ((a, b), (b, a)):
                    if p.op == 'const':
                        ks = self.kinds(s, q)
                        if ks is not None:
                            kc = CONSTKIND.get(p.args[0])
                            poss = {'bool': {'bool', 'int', 'float', 'robj', 'urobj'}, 'int': {'bool', 'int', 'float', 'robj', 'urobj'},
                                    'float': {'bool', 'int', 'float', 'robj', 'urobj'}, 'str': {'str', 'strsub', 'robj', 'urobj'},
                                    'bytes': {'bytes', 'robj', 'urobj'}, 'none': {'none'}}.get(kc, set(KINDS))
                            n = ks & poss
                            if n and q.op != 'const':
                                s.kinds[q] = frozenset(n)
        return res

    def known_call(self, t):
        if t.op == 'attr':
            return t.args[0].op in ('par', 'elem', 'at', 'ref', 'inst', 'call')
        if t.op == 'opq':
            return False
        if t.op == 'call':
            f = t.args[0]
            return f.op in ('form', 'dflt', 'cls') or (f.op == 'glob' and f.args[0] in self.models.KNOWN_CALLS) or \
                (f.op == 'glob' and f.args[0] in self.models.PURE) or (f.op == 'bm' and f.args[1] in self.models.KNOWN_METHODS)
        return True

    def is_(self, st, a, b):
        if a is b:
            return [(st, True)]
        if a.op == 'const' and b.op == 'const':
            if a.args[0] == b.args[0]:
                return [(st, cval(a) == cval(b))]
            return [(st, False)]
        x, y = (a, b) if b.op == 'const' else (b, a)
        if y.op == 'const' and y.args[0] in ('NoneType', 'bool', 'ellipsis'):
            ks = self.kinds(st, x)
            want = CONSTKIND.get(y.args[0])
            if ks is not None and want:
                if want not in ks:
                    if not (ks & RESULT):
                        return [(st, False)]
                    r = self.split(st, mk('is', x, y), None)
                    return r
                if want == 'none':
                    return self.split_kinds(st, x, lambda k: k == 'none') if not (ks & RESULT) else self.split(st, mk('is', x, y))
                out = []
                for s, c in self.split_kinds(st, x, lambda k: k == want):
                    if c:
                        out.extend(self.split(s, mk('truth', x)))
                    else:
                        out.append((s, False))
                if y is FALSE:
                    return [(s, (not c) if self.kinds(s, x) == frozenset(['bool']) else c) for s, c in out]
                return out
            if x.op in ('tuple', 'ref', 'func', 'glob', 'form', 'cls', 'bm', 'nt', 'enum', 'name', 'lin', 'typeof', 'bfunc', 'partial', 'fset', 'rec', 'user', 'val'):
                return [(st, False)]
            if x.op == 'opt' and y.args[0] == 'bool':
                r = self.truth(st, x)
                return [(s, v == cval(y)) for s, v in r]
            if x.op == 'opt':       # a flag is True or False
                return [(st, False)]
            return self.split(st, mk('is', x, y), None if x.op in ('dflt', 'opt', 'loaded', 'attr') else 'identity of %s' % show(x))
        if a.op == 'ref' and b.op == 'ref':
            return [(st, False)]
        cl = ('glob', 'form', 'cls', 'func', 'enum', 'bm', 'rec', 'user')
        if a.op in cl and b.op in cl:
            return [(st, False if self.same(st, a, b) is False else real(a) is real(b) and real(a) is not MISSING)]
        if a.op == 'typeof' or b.op == 'typeof':
            return self.eq(st, a, b)
        if a.op in cl or b.op in cl:
            y = b if a.op in cl else a
            if y.op in ('const', 'tuple', 'ref', 'name', 'lin', 'nt', 'dflt'):
                return [(st, False)]
            ks = self.kinds(st, y)
            if ks is not None and self.is_data(y):
                return [(st, False)]
        if self.same(st, a, b) is False:
            return [(st, False)]
        x, y = (a, b) if a.id < b.id else (b, a)
        if {x.op, y.op} <= {'val', 'dflt', 'dfac', 'attr', 'par', 'loaded', 'call', 'elem', 'at', 'mval', 'dumped', 'each'}:
            out = []
            for s, c in self.split(st, mk('is', x, y)):
                out.extend([(s2, True) for s2, e in self.eq(s, x, y) if e] if c else [(s, False)])
            return out
        return self.split(st, mk('is', x, y), 'identity of %s and %s' % (show(x), show(y)))

    def hashable(self, st, t):
        """-> [(state, True|Raise)]"""
        op = t.op
        if op == 'ref':
            o = self.obj(st, t)
            if o.kind in ('list', 'dict', 'set'):
                return [(st, Raise('TypeError', 'unhashable %s' % o.kind))]
            if o.kind == 'inst' and o.owner == 'data':
                return [(st, True)]
            return [(st, True)]
        if op in ('tuple', 'nt'):
            res = [(st, True)]
            for x in t.args:
                nr = []
                for s, v in res:
                    if v is True:
                        nr.extend(self.hashable(s, x))
                    else:
                        nr.append((s, v))
                res = nr
            return res
        if op == 'elem':
            # keys of a mapping and members of a set are hashable
            S = t.args[0]
            if S.op == 'star' or (self.kinds(st, S) or DATA) <= {'dict', 'mapping', 'set', 'frozenset'}:
                return [(st, True)]
        ks = self.kinds(st, t)
        if ks is None:
            return [(st, True)]
        out = []
        for s, c in self.split_kinds(st, t, lambda k: 't' if k == 'tuple' else KINDS[k].hashable):
            if c is False:
                out.append((s, Raise('TypeError', 'unhashable value %s' % show(t))))
            elif c == 't':
                for s2, v in self.split(s, mk('hashable', t)):
                    out.append((s2, True if v else Raise('TypeError', 'unhashable tuple %s' % show(t))))
            else:
                out.append((s, True))
        return out

    # ------------------------------------------------------------ finding entries
    def inst_phi(self, st, phi, S, l):
        """assume the conditions of a summary entry for the current element; False if contradictory"""
        e = mk('elem', S, l)
        b = mk('bnd', S)
        for k, v in phi:
            k = subst(k, b, e)
            if isinstance(v, frozenset):
                cur = self.kinds(st, k)
                n = cur & v if cur is not None else v
                if not n:
                    return False
                st.kinds[k] = n
            else:
                if st.facts.get(k, v) != v:
                    return False
                st.facts[k] = v
        return True

    def phi_status(self, st, phi, S, l):
        """do the current facts imply (True) / contradict (False) a condition set"""
        e = mk('elem', S, l)
        b = mk('bnd', S)
        res = True
        for k, v in phi:
            k = subst(k, b, e)
            if isinstance(v, frozenset):
                cur = self.kinds(st, k)
                if cur is None:
                    res = None
                    continue
                if not (cur & v):
                    return False
                if not cur <= v:
                    res = None
            else:
                f = st.facts.get(k)
                if f is None:
                    res = None
                elif f != v:
                    return False
        return res

    def lookup(self, st, segs, key):
        """find key among dict/set entries -> [(state, value|None)] (value NONE for sets)"""
        res = []
        cur = [st]
        for x in segs:
            nxt = []
            for s in cur:
                if x.op == 'ent':
                    for s2, v in self.eq(s, x.args[0], key):
                        if v:
                            res.append((s2, x.args[1]))
                        else:
                            nxt.append(s2)
                elif x.op == 'starseg':
                    S, aid = x.args
                    if key.op in ('elem',) and key.args[0] is S:
                        l = key.args[1]
                        alts = s.alts.get(aid, {})
                        pend = [s]
                        skip = False
                        for items, phi in alts.items():
                            np = []
                            for s2 in pend:
                                stt = self.phi_status(s2, phi, S, l)
                                if not items:
                                    np.append(s2)
                                    skip = True
                                    continue
                                k0 = subst(items[0], mk('bnd', S), key)
                                if k0 is not key or stt is False:
                                    np.append(s2)
                                    continue
                                val = subst(items[1], mk('bnd', S), key) if len(items) > 1 else NONE
                                if stt is True and not (() in alts and self.phi_status(s2, alts[()], S, l)):
                                    res.append((s2, val))
                                    continue
                                s3 = s2.copy()
                                if self.inst_phi(s3, phi, S, l):
                                    s3.facts[mk('hit', aid, key)] = True
                                    res.append((s3, val))
                                if () in alts or stt is None:
                                    np.append(s2)
                            pend = np
                        nxt.extend(pend if (skip or not any(alts) or pend) else [])
                    else:
                        # may it be one of the summarised keys?
                        d = self.star_disjoint(s, S, aid, key)
                        if d:
                            nxt.append(s)
                        else:
                            lit = mk('in', key, x)
                            for s2, v in self.split(s, lit):
                                if v:
                                    vals = [i[1] for i in s2.alts.get(aid, {}) if len(i) > 1]
                                    val = NONE
                                    if vals:
                                        val = subst(vals[0], mk('bnd', S), mk('elem', S, 9)) if len(vals) == 1 else mk('opq', 'value of ' + show(x))
                                        kk = [i[0] for i in s2.alts.get(aid, {}) if len(i) > 1]
                                        if vals[0].op == 'at' and len(vals) == 1:
                                            val = rebuild(vals[0], lambda z: key if z.op == 'bnd' and z.args[0] is S else z)
                                    res.append((s2, val))
                                else:
                                    nxt.append(s2)
                else:
                    for s2, v in self.split(s, mk('in', key, x), 'contents of a collection'):
                        if v:
                            res.append((s2, mk('opq', 'value')))
                        else:
                            nxt.append(s2)
            cur = nxt
        res.extend((s, None) for s in cur)
        return res

    def star_disjoint(self, st, S, aid, key):
        for items in st.alts.get(aid, {}):
            if not items:
                continue
            k = items[0]
            e = mk('elem', S, 99)
            k = subst(k, mk('bnd', S), e)
            r = self.same(st, k, key)
            if r is not False:
                # kinds disjoint?
                ka, kb = self.kinds(st, k), self.kinds(st, key)
                if ka is not None and kb is not None:
                    na = frozenset(self.numk(x) for x in ka)
                    nb = frozenset(self.numk(x) for x in kb)
                    if not (na & nb):
                        continue
                return False
        return True

    @staticmethod
    def numk(k):
        return {'bool': 'num', 'int': 'num', 'float': 'num', 'strsub': 'str', 'set': 'fs', 'frozenset': 'fs'}.get(k, k)

    # ------------------------------------------------------------ delivering
    def ret(self, st, val):
        if not st.frames:
            self.finish(st, 'return', val)
            return []
        top = st.frames[-1]
        if top.native:
            return self.native(st, 'val', val)
        top.stack.append(val)
        return [st]

    def ret_all(self, res):
        out = []
        for s, v in res:
            if isinstance(v, Raise):
                out.extend(self.throw(s, v))
            else:
                out.extend(self.ret(s, v))
        return out

    def item(self, st, val):
        top = st.frames[-1]
        if top.native:
            return self.native(st, 'item', val)
        top.stack.append(val)
        return [st]

    def stop(self, st, val=NONE):
        top = st.frames[-1]
        if top.native:
            return self.native(st, 'stop', val)
        # FOR_ITER exhausted: drop the iterator, jump past END_FOR
        op, arg, tgt, ln, off = top.co.ins[top.cur]
        if op == 'SEND':
            top.stack.append(val)
            top.pc = tgt
            return [st]
        top.stack.pop()
        top.pc = tgt + 1
        return [st]

    def native(self, st, msg, payload):
        nf = st.frames[-1]
        h = self.models.NATIVE.get(nf.name)
        return h(self, st, nf, msg, payload)

    def make_exc(self, st, r):
        if r.exc is not None:
            return r.exc
        w, fn = self.where(st)
        return self.alloc(st, 'inst', r.cls, (('args', mk('tuple', mk('call', glob('builtins.str'), const(r.desc)))),
                                             ('#origin', const('%s in %s (%s)' % (r.desc, fn, w)))))

    def throw(self, st, r):
        """raise an exception (Raise or exception object)"""
        exc = self.make_exc(st, r) if isinstance(r, Raise) else r
        while st.frames:
            top = st.frames[-1]
            if top.native:
                h = self.models.NATIVE.get(top.name)
                if getattr(h, 'catches', False):
                    return h(self, st, top, 'raise', exc)
                st.frames.pop()
                continue
            for (a, b, target, depth, lasti) in reversed(top.co.exc):
                if a <= top.cur < b:
                    del top.stack[depth:]
                    if lasti:
                        top.stack.append(const(top.cur))
                    top.stack.append(exc)
                    top.pc = target
                    return [st]
            if top.gen is not None:
                o = self.obj(st, top.gen)
                st.heap[top.gen] = HObj('gen', None, ('dead',), o.owner)
            st.frames.pop()
        self.finish(st, 'raise', exc)
        return []

    def finish(self, st, kind, val):
        st.outcome = (kind, val)
        self.gc_outcome(st, val)
        self.outcomes.append(st)

    def gc_outcome(self, st, val):
        roots = dict(st.roots)
        roots['#result'] = val
        st.roots = roots
        self.gc(st)

    # ------------------------------------------------------------ main loop
    def run(self, states, limit=None):
        self.visited = {}
        self.exits = {}
        self.outcomes = []
        work = list(states)
        n0 = self.steps
        lim = limit or self.max_steps
        while True:
            while work:
                st = work.pop()
                late = time.monotonic() > DEADLINE[0]
                if late or self.steps - n0 > lim:
                    e = AnalysisError('%s limit reached at %s' % ('time' if late else 'step', self.stackdesc(st)))
                    e.outs, self.outcomes = self.outcomes, []        # complete paths
                    raise e
                while True:
                    self.steps += 1
                    r = self.step(st)
                    if len(r) == 1 and self.steps & 1023:
                        st = r[0]
                        continue
                    work.extend(r)
                    break
            if self.exits:
                k = next(reversed(self.exits))
                work.append(self.exits.pop(k))
                continue
            break
        outs = self.outcomes
        self.outcomes = []
        self.stats['paths'] += len(outs)
        self.stats['steps'] = self.steps
        return outs

    def step(self, st):
        fr = st.frames[-1]
        if fr.native:
            return self.native(st, 'go', None)
        fr.cur = fr.pc
        op, arg, val, ln, off = fr.co.ins[fr.pc]
        fr.pc += 1
        self.covered.add((fr.co, fr.cur))
        f = OPS.get(op)
        if f is None:
            raise AnalysisError('opcode %s not supported (%s)' % (op, fr.co.name))
        return f(self, st, fr, arg, val)

    # ------------------------------------------------------------ joining
    def join_side(self, old, st):
        """old: (alts, done); merge st into it; -> grew"""
        alts, done = old
        grew = False
        for tab, new in ((alts, st.alts), (done, st.done)):
            for a, d in new.items():
                o = tab.get(a)
                if o is None:
                    tab[a] = dict(d)
                    grew = True
                    continue
                for items, phi in d.items():
                    p = o.get(items)
                    if p is None:
                        o[items] = phi
                        grew = True
                    else:
                        j = join_phi(p, phi)
                        if j != p:
                            o[items] = j
                            grew = True
        return grew

    def arrive(self, st):
        """loop head: False when this state is already covered"""
        self.gc(st)
        k = self.key(st)
        old = self.visited.get(k)
        self.stats['joins'] += 1
        if old is None:
            self.visited[k] = ({a: dict(d) for a, d in st.alts.items()}, {a: dict(d) for a, d in st.done.items()})
            return True
        if not self.join_side(old, st):
            return False
        st.alts = {a: dict(d) for a, d in old[0].items()}
        st.done = {a: dict(d) for a, d in old[1].items()}
        return True

    def park(self, st):
        """loop exit: continue only when the loop itself is finished"""
        self.gc(st)
        k = ('exit', self.key(st))
        old = self.visited.get(k)
        if old is None:
            self.visited[k] = ({a: dict(d) for a, d in st.alts.items()}, {a: dict(d) for a, d in st.done.items()})
        else:
            if not self.join_side(old, st):
                return
            st.alts = {a: dict(d) for a, d in old[0].items()}
            st.done = {a: dict(d) for a, d in old[1].items()}
        self.exits.pop(k, None)
        self.exits[k] = st

    # ------------------------------------------------------------ iteration
    def alt_id(self, ref, S):
        return mk('aid', ref, S)

    def starseg(self, st, S, aid, alts):
        """make a summary segment; alts: {items: phi}"""
        st.alts[aid] = dict(alts)
        return mk('starseg', S, aid)

    def raw_segs(self, st, t):
        """segments of the sequence of elements of a data value"""
        aid = mk('aid', t, t)
        b = mk('bnd', t)
        return (self.starseg(st, t, aid, {(b,): frozenset()}),)

    def ent_segs(self, st, o, mode):
        """segments for iterating a dict or set: keys / values / items"""
        out = []
        for x in o.data:
            if x.op == 'ent':
                k, v = x.args
                out.append(k if mode == 'keys' else v if mode == 'values' else mk('tuple', k, v))
            elif x.op == 'starseg':
                S, aid = x.args
                if mode == 'keys' and o.kind in ('set', 'frozenset'):
                    out.append(x)
                    continue
                aid2 = mk('aid', aid, mode)
                na = {}
                for items, phi in st.alts.get(aid, {}).items():
                    if not items:
                        na[()] = phi
                    else:
                        k = items[0]
                        v = items[1] if len(items) > 1 else NONE
                        it = (k,) if mode == 'keys' else (v,) if mode == 'values' else (mk('tuple', k, v),)
                        na[it] = join_phi(na[it], phi) if it in na else phi
                st.alts[aid2] = na
                out.append(mk('starseg', S, aid2))
            else:
                out.append(x)
        return tuple(out)

    def segments(self, st, t):
        """the element sequence of an iterable value, when it has one -> [(state, segs|Raise|None)]"""
        op = t.op
        if op == 'tuple':
            return [(st, t.args)]
        if op == 'nt':
            return [(st, t.args[1:])]
        if op == 'fset':
            x = tuple(sorted(t.args[0]))
            return [(st, x[::-1] if self.revsets else x)]
        if op == 'ref':
            o = self.obj(st, t)
            if o.kind == 'list':
                return [(st, o.data)]
            if o.kind in ('dict', 'set', 'frozenset'):
                x = self.ent_segs(st, o, 'keys')
                if self.revsets and o.kind != 'dict' and o.owner != 'data':
                    x = x[::-1]
                return [(st, x)]
            if o.kind == 'view':
                d, mode = o.data
                return [(st, self.ent_segs(st, self.obj(st, d), mode))]
            if o.kind == 'range':
                return [(st, self.range_segs(st, o))]
            if o.kind == 'inst' and o.cls is not None:
                segs = o.map().get('#items')
                if segs is not None:
                    return [(st, segs.args)]
            return [(st, None)]
        if op == 'const':
            v = cval(t)
            if isinstance(v, str):
                return [(st, tuple(const(c) for c in v))]
            if isinstance(v, bytes):
                return [(st, tuple(const(c) for c in v))]
            return [(st, Raise('TypeError', '%r is not iterable' % (v,)))]
        if op == 'lin':
            return [(st, Raise('TypeError', 'an int is not iterable'))]
        if op == 'loaded':
            st.taint('iterating a loaded value')
            return [(st, self.raw_segs(st, t))]
        if op in ('func', 'cls', 'bm', 'val', 'rec', 'enum'):
            return [(st, Raise('TypeError', 'not iterable'))]
        if op in ('form', 'glob'):
            h = self.models.iter_class(self, st, t)
            if h is not None:
                return h
            st.taint('iterating %s' % show(t))
            return [(st, self.raw_segs(st, t))]
        ks = self.kinds(st, t)
        if ks is not None:
            out = []
            for s, c in self.split_kinds(st, t, lambda k: KINDS[k].iterable):
                if c:
                    out.append((s, self.raw_segs(s, t)))
                else:
                    out.append((s, Raise('TypeError', '%s is not iterable' % show(t))))
            return out
        if op not in ('attr', 'call'):
            st.taint('iterating %s' % show(t))
        return [(st, self.raw_segs(st, t))]

    def range_segs(self, st, o):
        a, b, c = o.data
        n = lin_add(b, a, -1) if as_lin(a) is not None and as_lin(b) is not None else None
        if n is not None and cval(c) == 1:
            k, d = as_lin(n)
            if not d and 0 <= k <= 64:
                return tuple(lin_add(a, const(i)) for i in range(k))
            if len(d) == 1 and k == 0 and list(d.values()) == [1]:
                at = next(iter(d))
                if at.op == 'card':
                    S = at.args[0]
                    aid = mk('aid', o.data, S)
                    return (self.starseg(st, S, aid, {(mk('posof', mk('bnd', S), a),): frozenset()}),)
        return (mk('unkseg', mk('opq', 'range')),)

    def get_iter(self, st, t):
        """-> [(state, iterator ref | Raise)]"""
        if t.op == 'ref':
            o = self.obj(st, t)
            if o.kind in ('iter', 'gen'):
                return [(st, t)]
            if o.kind == 'inst' and o.cls is not None and o.cls.op == 'cls' and '#items' not in o.map():
                f = self.class_attr(st, o.cls, '__iter__')
                if f is not None:
                    st.taint('user-defined iterator')
        out = []
        for s, segs in self.segments(st, t):
            if isinstance(segs, Raise):
                out.append((s, segs))
            elif segs is None:
                out.append((s, Raise('TypeError', '%s is not iterable' % show(t))))
            else:
                out.append((s, self.mk_iter(s, segs)))
        return out

    def mk_iter(self, st, segs):
        return self.alloc(st, 'iter', None, ('seg', tuple(segs), 0, None, False, ()))

    def next(self, st, it):
        """advance an iterator; delivers item/stop to the top frame"""
        o = self.obj(st, it)
        if o is None or o.kind not in ('iter', 'gen'):
            st.taint('next() on %s' % show(it))
            s2 = st.copy()
            return self.item(st, mk('opq', 'item')) + self.stop(s2)
        if o.kind == 'gen':
            return self.gen_next(st, it, o)
        t = o.data[0]
        if t == 'seg':
            return self.seg_next(st, it, o)
        if t == 'count':
            v, stp = o.data[1], o.data[2]
            nv = lin_add(v, stp) if as_lin(v) is not None and as_lin(stp) is not None else mk('opq', 'int')
            st.heap[it] = o.with_(('count', nv, stp))
            return self.item(st, v)
        if t == 'repeat':
            v, n = o.data[1], o.data[2]
            if n is NONE:
                return self.item(st, v)
            out = []
            for s, g in self.split_sign(st, n):
                if g > 0:
                    s.heap[it] = o.with_(('repeat', v, lin_add(n, const(1), -1)))
                    out.extend(self.item(s, v))
                else:
                    out.extend(self.stop(s))
            return out
        return self.models.lazy_next(self, st, it, o)

    def seg_next(self, st, it, o):
        _, segs, i, lvl, started, pend = o.data
        if pend:
            st.heap[it] = o.with_(('seg', segs, i, lvl, started, pend[1:]))
            return self.item(st, pend[0])
        if i >= len(segs):
            return self.stop(st)
        x = segs[i]
        if x.op == 'unkseg':
            st.taint('contents of a collection')
            s2 = st.copy()
            s2.heap[it] = o.with_(('seg', segs, i + 1, None, False, ()))
            return self.item(st, x.args[0]) + (self.seg_next(s2, it, s2.heap[it]))
        if x.op != 'starseg':
            st.heap[it] = o.with_(('seg', segs, i + 1, None, False, ()))
            return self.item(st, x)
        S, aid = x.args
        out = []
        if lvl is not None:
            self.retire(st, it, S, lvl)
            started = True
            o = st.heap[it].with_(('seg', st.heap[it].data[1], i, None, True, ()))
            st.heap[it] = o
            segs = o.data[1]
            if not self.arrive(st):
                return []
        alts = st.alts.get(aid, {})
        skips = () in alts
        lo, hi = self.nonempty(st, S)
        # exit
        if started or lo < 1 or skips:
            s2 = st.copy()
            s2.heap[it] = o.with_(('seg', segs, i + 1, None, False, ()))
            if not skips:
                if started:
                    self.set_lo(s2, S)
                else:
                    s2.ranges[((card(S), 1),)] = (0, 0)
            self.finalize(s2, it, S)
            # deliver the exit later
            s2.frames.append(NFrame('resume_next', it=it))
            self.park(s2)
        # one more element
        if hi >= 1:
            l = 0
            while self.mentions(st, mk('elem', S, l)):
                l += 1
            choices = [(items, phi) for items, phi in alts.items() if items]
            for n, (items, phi) in enumerate(choices):
                s = st if n == len(choices) - 1 else st.copy()
                self.set_lo(s, S)
                if not self.inst_phi(s, phi, S, l):
                    continue
                e = mk('elem', S, l)
                its = [self.inst(y, S, e, l) for y in items]
                s.snaps[it] = ([(dict(f.loc), list(f.stack)) if not f.native else dict(f.d) for f in s.frames], dict(s.heap), s.log)
                s.heap[it] = o.with_(('seg', segs, i, l, started, tuple(its[1:])))
                if not started:
                    s.done[(S, it)] = {}
                out.extend(self.item(s, its[0]))
        return out

    def inst(self, y, S, e, l):
        y = subst(y, mk('bnd', S), e)
        if any(z.op == 'posof' for z in walk(y)):
            y = rebuild(y, lambda z: lin_add(z.args[1], lin(0, [(pos(S, l), 1)])) if z.op == 'posof' and z.args[0] is e else z)
        return y

    def set_lo(self, st, S):
        k = ((card(S), 1),)
        lo, hi = st.ranges.get(k, (0, INF))
        st.ranges[k] = (max(lo, 1), hi)

    def mentions(self, st, e):
        for f in st.frames:
            for r in f.roots():
                for x in (r if isinstance(r, (tuple, frozenset)) else (r,)):
                    if isinstance(x, Term) and e in loopterms(x):
                        return True
        for o in st.heap.values():
            if o.kind == 'gen' or not isinstance(o.data, tuple):
                if e in loopterms(_terms_in(o.data)):
                    return True
            elif e in loopterms(_terms_in(o.data)):
                return True
        return False

    def retire(self, st, it, S, l):
        """the current element of S is done: fold what the iteration did into summaries"""
        e = mk('elem', S, l)
        b = mk('bnd', S)
        old = mk('old', S, l)
        snapf, snaph, snaplog = st.snaps.pop(it, ([], st.heap, st.log))
        phi = []
        for k in list(st.facts):
            lt = loopterms(k)
            if e in lt:
                if old not in lt and not any(x.op in ('elem', 'old') and x is not e for x in lt):
                    phi.append((subst(k, e, b), st.facts[k]))
                del st.facts[k]
            elif old in lt:
                del st.facts[k]
        for k in list(st.kinds):
            lt = loopterms(k)
            if e in lt:
                if old not in lt:
                    phi.append((subst(k, e, b), st.kinds[k]))
                del st.kinds[k]
            elif old in lt:
                del st.kinds[k]
        phi = frozenset(phi)
        p = pos(S, l)
        for k in list(st.ranges):
            if p in loopterms(k) or e in loopterms(k):
                del st.ranges[k]
        self.gc(st)
        aids = set()
        # integers that advance with the loop
        self.induct(st, snapf, snaph, S, l, it)
        newrefs = {}
        # objects made in this iteration become summary objects
        for r in list(st.heap):
            if r in snaph or st.heap[r].kind in ('iter', 'gen', 'cell', 'view', 'range'):
                continue
            if str(r.args[0]).endswith('*'):
                continue
            newrefs[r] = mk('ref', r.args[0] + '*', S)

        def ren(t):
            for a in (refs_of(t) & newrefs.keys()) if newrefs else ():
                t = rebuild(t, lambda z: newrefs.get(z, z) if z.op == 'ref' else z)
                break
            return t
        for r in list(st.heap):
            o = st.heap[r]
            was = snaph.get(r)
            if was is None or was is o or was == o:
                continue
            if o.kind == 'list':
                n = len(was.data)
                if o.data[:n] == was.data:
                    items = tuple(ren(subst(x, e, b)) for x in o.data[n:])
                    aid = self.alt_id(r, S)
                    seg = mk('starseg', S, aid)
                    if items:
                        aids.add(aid)
                        d = dict(st.alts.get(aid, {}))
                        d[items] = join_phi(d[items], phi) if items in d else phi
                        st.alts[aid] = d
                        data = was.data if was.data and was.data[-1] is seg else was.data + (seg,)
                        st.heap[r] = o.with_(data)
                else:
                    st.heap[r] = o.with_((mk('unkseg', mk('opq', 'element')),))
            elif o.kind in ('dict', 'set'):
                seg = mk('starseg', S, self.alt_id(r, S))
                data = []
                fold = False
                for x in o.data:
                    if x.op == 'ent' and e in loopterms(x.args[0]):
                        aid = self.alt_id(r, S)
                        k = ren(subst(x.args[0], e, b))
                        items = (k, ren(subst(x.args[1], e, b))) if o.kind == 'dict' else (k,)
                        aids.add(aid)
                        d = dict(st.alts.get(aid, {}))
                        d[items] = join_phi(d[items], phi) if items in d else phi
                        st.alts[aid] = d
                        fold = True
                    else:
                        data.append(x)
                if fold and seg not in data:
                    data.append(seg)
                st.heap[r] = o.with_(tuple(data))
        rec = frozenset(aids)
        dn = dict(st.done.get((S, it), {}))
        dn[rec] = join_phi(dn[rec], phi) if rec in dn else phi
        st.done[(S, it)] = dn

        def f(t):
            t = subst(t, e, old)
            if newrefs:
                t = ren(t)
            if p in loopterms(t):
                t = subst(t, p, lin(-1, [(p, 1)]))
            return t
        self.map_state(st, f)
        if newrefs:
            self.rename_alts(st, ren, e, b)
        for r, n in newrefs.items():
            if r in st.heap:
                o = st.heap.pop(r)
                if n in st.heap and st.heap[n] != o:
                    o = self.join_obj(st, st.heap[n], o)
                st.heap[n] = o
        st.log = snaplog
        self.fix_induct(st)

    def rename_alts(self, st, ren, e, b):
        """the summaries of the objects that become summary objects"""
        for a in list(st.alts):
            n = ren(a)
            d = {}
            for items, phi in st.alts[a].items():
                it2 = tuple(ren(subst(x, e, b)) for x in items)
                d[it2] = join_phi(d[it2], phi) if it2 in d else phi
            if n is a:
                st.alts[a] = d
                continue
            del st.alts[a]
            o = st.alts.get(n)
            if o is not None:
                for items, phi in o.items():
                    d[items] = join_phi(d[items], phi) if items in d else phi
            st.alts[n] = d
        for key, d in list(st.done.items()):
            d2 = {}
            for aids, phi in d.items():
                n = frozenset(ren(x) for x in aids)
                d2[n] = join_phi(d2[n], phi) if n in d2 else phi
            st.done[key] = d2

    def join_obj(self, st, a, b):
        if a.kind == b.kind == 'inst':
            ma, mb = a.map(), b.map()
            d = {}
            for k in set(ma) | set(mb):
                if ma.get(k) is mb.get(k):
                    d[k] = ma[k]
                else:
                    d[k] = mk('phi', frozenset(phis(ma.get(k, UNBOUND)) | phis(mb.get(k, UNBOUND))))
            cls = a.cls
            if a.cls is not b.cls:
                cls = self.join_cls(st, a.cls, b.cls)
            return HObj('inst', cls, tuple(sorted(d.items(), key=_k0)), a.owner)
        if a.kind == b.kind and a.kind in ('list', 'dict', 'set') and (not a.data or not b.data):
            x = a.data or b.data
            if len(x) == 1 and x[0].op == 'starseg':
                d = dict(st.alts.get(x[0].args[1], {}))
                d[()] = frozenset()
                st.alts[x[0].args[1]] = d
                return a.with_(x)
        if a.kind == b.kind == 'list':
            return a.with_((mk('unkseg', mk('opq', 'element')),))
        return HObj(a.kind, a.cls, a.data, a.owner)

    def join_cls(self, st, a, b):
        def base(c):
            return c.args[0] if c.op == 'anyexc' else c
        x, y = base(a), base(b)
        for k in self.prog.mro(st, self, x) if x.op == 'cls' else [glob('builtins.Exception')]:
            if self.subclass(st, y, k):
                return mk('anyexc', k, frozenset())
        return mk('anyexc', glob('builtins.BaseException'), frozenset())

    def map_state(self, st, f):
        cache = {}

        def g(t):
            r = cache.get(t)
            if r is None:
                r = cache[t] = f(t)
            return r
        for fr in st.frames:
            fr.map(g)
        for r in list(st.heap):
            o = st.heap[r]
            nd = _map_data(o.data, g)
            if nd is not o.data and nd != o.data:
                st.heap[r] = o.with_(nd)
        st.handled = g(st.handled)
        for k in list(st.facts):
            n = g(k)
            if n is not k:
                st.facts[n] = st.facts.pop(k)
        for k in list(st.kinds):
            n = g(k)
            if n is not k:
                st.kinds[n] = st.kinds.pop(k)

    def induct(self, st, snapf, snaph, S, l, it):
        """integers changed by the iteration: make them linear in the position, or unknown"""
        p = pos(S, l)
        started = st.heap[it].data[4] if it in st.heap and st.heap[it].data[0] == 'seg' else True
        plist = {}

        def fix(a, b):
            if a is None or b is None or a is b:
                return b
            la, lb = as_lin(a), as_lin(b)
            if la is None or lb is None or (a.op == 'const' and a.args[0] == 'bool') or (b.op == 'const' and b.args[0] == 'bool'):
                return b
            d = lin_add(b, a, -1)
            if d.op != 'const':
                return mk('opq', 'int')
            k = cval(d)
            if k == 0:
                return b
            coef = la[1].get(p)
            if coef is None:
                if started:
                    return mk('opq', 'int')
                # first iteration: value is a at position 0; about to be shifted by -1
                return lin(la[0] + k, dict(la[1], **{}).items()) if False else \
                    lin(la[0] + k, list(la[1].items()) + [(p, k)])
            if coef != k:
                return mk('opq', 'int')
            return b
        # after this, map_state shifts pos -> pos-1: compensate nothing, values above are written
        # for the new position including the finished iteration
        for i, fr in enumerate(st.frames):
            if i >= len(snapf):
                break
            if fr.native:
                sd = snapf[i]
                if isinstance(sd, dict):
                    for k in list(fr.d):
                        v = fr.d[k]
                        if isinstance(v, Term) and isinstance(sd.get(k), Term):
                            fr.d[k] = fix(sd[k], v)
                continue
            if not isinstance(snapf[i], tuple):
                continue
            loc, stack = snapf[i]
            for k in list(fr.loc):
                fr.loc[k] = fix(loc.get(k), fr.loc[k])
            for j in range(min(len(stack), len(fr.stack))):
                fr.stack[j] = fix(stack[j], fr.stack[j])
        for r in list(st.heap):
            o = st.heap[r]
            was = snaph.get(r)
            if was is None or was is o:
                continue
            if o.kind == 'iter' and o.data[0] in ('count', 'enumerate') and was.data[0] == o.data[0]:
                st.heap[r] = o.with_((o.data[0], fix(was.data[1], o.data[1])) + o.data[2:])
            elif o.kind == 'cell' and o.data and was.data:
                st.heap[r] = o.with_((fix(was.data[0], o.data[0]),))
            elif o.kind == 'inst':
                wm = was.map()
                nd = tuple((k, fix(wm.get(k), v) if isinstance(v, Term) else v) for k, v in o.data)
                if nd != o.data:
                    st.heap[r] = o.with_(nd)

    def fix_induct(self, st):
        pass

    def finalize(self, st, it, S):
        dn = st.done.pop((S, it), None)
        if dn:
            alla = set()
            for rec in dn:
                alla |= rec
            for aid in alla:
                for rec, phi in dn.items():
                    if aid not in rec:
                        d = dict(st.alts.get(aid, {}))
                        d[()] = join_phi(d[()], phi) if () in d else phi
                        st.alts[aid] = d
        for l in range(3):
            p = pos(S, l)

            def f(t):
                if p in loopterms(t):
                    return subst(t, p, lin(0, [(card(S), 1)]))
                return t
            # only positions of this loop that is over
            if not self.mentions(st, mk('elem', S, l)):
                self.map_state(st, f)

    # ------------------------------------------------------------ generators
    def gen_next(self, st, it, o, throw=None):
        if o.data[0] == 'dead':
            if throw is not None:
                return self.throw(st, throw)
            return self.stop(st)
        if o.data[0] == 'running':
            return self.throw(st, Raise('ValueError', 'generator already executing'))
        fr = Frame.thaw(o.data[1])
        fr.gen = it
        st.heap[it] = o.with_(('running',))
        st.frames.append(fr)
        if throw is not None:
            fr.cur = fr.pc - 1
            return self.throw(st, throw)
        fr.stack.append(NONE)
        return [st]

    # ------------------------------------------------------------ attributes
    def getattr(self, st, t, name):
        """-> [(state, value|Raise)]; properties come back as mk('prop', f, obj)"""
        op = t.op
        if name == '__class__' and op not in ('form', 'glob'):
            return [(st, self.typeof(st, t))]
        if op == 'ref':
            return self.models.getattr_ref(self, st, t, name)
        if op == 'glob':
            v = real(t)
            if v is MISSING and t.args[0] in ('attr.NOTHING',):
                if hasattr(object, name):
                    return [(st, mk('attr', t, name))]
                return [(st, Raise('AttributeError', '%s has no attribute %s' % (show(t), name)))]
            if v is MISSING:
                return [(st, world.alias(t.args[0] + '.' + name))]
            r = world.import_path(t.args[0] + '.' + name) if isinstance(v, pytypes.ModuleType) else None
            if r is not None:
                return [(st, r)]
            try:
                x = getattr(v, name)
            except AttributeError:
                return [(st, Raise('AttributeError', '%s has no attribute %s' % (show(t), name)))]
            if isinstance(x, (str, int, type(None), bytes)):
                return [(st, const(x))]
            if isinstance(v, type) and isinstance(x, dict) and not x:
                return [(st, self.alloc(st, 'dict', None, (), owner='type', site='%s of %s' % (name, show(t))))]
            if isinstance(v, type):
                return [(st, mk('glob', t.args[0] + '.' + name) if not isinstance(x, type) else world.register(t.args[0] + '.' + name, x))]
            if isinstance(x, tuple) and all(isinstance(y, (str, int)) for y in x):
                return [(st, const(x))]
            return [(st, world.register(t.args[0] + '.' + name, x))]
        if op == 'form':
            r = world.form_getattr(t, name)
            if r is None:
                return [(st, Raise('AttributeError', '%s has no attribute %s' % (show(t), name)))]
            if r == 'opaque':
                if name in ('__dict__', '__annotations__'):
                    self.note(st, 'attribute %s of %s' % (name, show(t)))
                return [(st, mk('attr', t, name))]
            return [(st, r)]
        if op == 'cls':
            if name in ('__name__', '__qualname__'):
                return [(st, const(t.args[0].rsplit('.', 1)[-1]))]
            if name == '__module__':
                return [(st, const(t.args[0].rsplit('.', 1)[0]))]
            if name == '__mro__':
                return [(st, mk('tuple', *self.prog.mro(st, self, t)))]
            v = self.class_attr(st, t, name)
            if v is None:
                if hasattr(type, name):
                    return [(st, mk('attr', t, name))]
                return [(st, Raise('AttributeError', '%s has no attribute %s' % (show(t), name)))]
            if v.op == 'smeth':
                v = v.args[0]
            if v.op == 'cmeth':
                v = mk('bm', t, v.args[0])
            return [(st, v)]
        if op in ('tuple', 'fset', 'nt'):
            if op == 'nt':
                fs = self.prog.nt_fields(t.args[0])
                if name in fs:
                    return [(st, t.args[1 + fs.index(name)])]
                v = self.class_attr(st, t.args[0], name)
                if v is not None:
                    return [(st, mk('bm', t, v) if v.op == 'func' else v)]
                if name in ('_replace', '_asdict', '_fields'):
                    return [(st, mk('bm', t, name))]
            c = frozenset if op == 'fset' else tuple
            if hasattr(c, name):
                return [(st, mk('bm', t, name))]
            return [(st, Raise('AttributeError', 'tuple has no attribute %s' % name))]
        if op == 'enum':
            if name == 'value':
                return [(st, t.args[2])]
            if name == 'name':
                return [(st, const(t.args[1]))]
            return [(st, mk('attr', t, name))]
        if op == 'func':
            if name in ('__name__', '__qualname__'):
                return [(st, const(t.args[0].name.rsplit('.', 1)[-1]))]
            if hasattr(pytypes.FunctionType, name):
                return [(st, mk('attr', t, name))]
            return [(st, Raise('AttributeError', 'function has no attribute %s' % name))]
        if op == 'rec':
            for k, v in t.args[1]:
                if k == name:
                    return [(st, v)]
            rc = real(t.args[0])
            if rc is not MISSING and hasattr(rc, name):
                return [(st, mk('bm', t, name) if callable(getattr(rc, name)) else mk('attr', t, name))]
            return [(st, Raise('AttributeError', '%s has no attribute %s' % (show(t), name)))]
        if op == 'val':
            return [(st, self.models.val_attr(self, st, t, name))]
        if op in ('typeof',):
            x = t.args[0]
            if name in ('__name__', '__qualname__', '__module__', '__mro__', '__doc__'):
                return [(st, mk('attr', t, name))]
            st.taint('attribute of %s' % show(t))
            return [(st, mk('attr', t, name))]
        if op in ('bm', 'bfunc', 'partial'):
            return [(st, mk('attr', t, name))]
        if op == 'phi':
            vals = []
            for x in t.args[0]:
                for s, v in self.getattr(st, x, name):
                    if not isinstance(v, Raise):
                        vals.append(v)
            return [(st, vals[0] if len(set(vals)) == 1 else mk('phi', frozenset(vals)) if vals else mk('opq', 'attr'))]
        if op == 'opq':
            st.taint('attribute of %s' % show(t))
            return [(st, mk('opq', name))]
        if op in ('loaded', 'inst'):
            if name == '__class__':
                return [(st, mk('typeof', t))]
            st.taint('attribute of a loaded value')
            return [(st, mk('attr', t, name))]
        if op == 'dflt':
            # a plain default value: no attribute is assumed beyond those of every object
            if hasattr(object, name):
                return [(st, mk('attr', t, name))]
            return [(st, Raise('AttributeError', '%s has no attribute %s' % (show(t), name)))]
        ks = self.kinds(st, t)
        if ks is not None:
            hook = self.hooks.get('dataattr')
            if hook and self.is_data(t):
                hook(self, st, t, name)
            out = []
            own = not name.startswith('__') and not any(kind_hasattr(k, name) for k in ('dict', 'list', 'str', 'set', 'tuple', 'mapping', 'namespace', 'iterator', 'bytes'))
            for s, c in self.split_kinds(st, t, lambda k: 'o' if k == 'object' and own else kind_hasattr(k, name)):
                if c == 'o':
                    # an attribute that no known kind of data has
                    for s2, v in self.split(s, mk('hasattr', t, const(name))):
                        out.append((s2, mk('attr', t, name) if v else Raise('AttributeError', '%s has no attribute %s' % (show(t), name))))
                elif c is True:
                    out.append((s, self.models.data_attr(self, s, t, name)))
                elif c is None:
                    s.taint('attribute of a loaded value')
                    out.append((s, mk('attr', t, name)))
                else:
                    out.append((s, Raise('AttributeError', '%s has no attribute %s' % (show(t), name))))
            return out
        r = self.models.attr_of_call(self, st, t, name)
        if r is not None:
            return r
        return [(st, mk('attr', t, name))]

    def getattr_split(self, st, t, name):
        out = []
        for s, v in self.split(st, mk('hasattr', t, name)):
            out.append((s, mk('attr', t, name) if v else Raise('AttributeError', '%s has no attribute %s' % (show(t), name))))
        return out

    # ------------------------------------------------------------ subscripts
    def getitem(self, st, t, k):
        t = self.models.untuple(t)
        op = t.op
        if op in ('tuple', 'nt') or (op == 'ref' and self.obj(st, t).kind == 'list'):
            segs = t.args if op == 'tuple' else t.args[1:] if op == 'nt' else self.obj(st, t).data
            return self.seq_item(st, t, segs, k)
        if op == 'ref':
            o = self.obj(st, t)
            if o.kind == 'dict':
                out = []
                for s, h in self.hashable(st, k):
                    if isinstance(h, Raise):
                        out.append((s, h))
                        continue
                    for s2, v in self.lookup(s, self.obj(s, t).data, k):
                        out.append((s2, v if v is not None else Raise('KeyError', 'missing key %s' % show(k))))
                return out
            if o.kind == 'inst':
                return [(st, self.models.inst_getitem(self, st, t, k))]
            return [(st, Raise('TypeError', '%s is not subscriptable' % o.kind))]
        if op == 'const':
            if k.op == 'const':
                try:
                    return [(st, const(cval(t)[cval(k)]))]
                except Exception as e:
                    return [(st, Raise(type(e).__name__, str(e)))]
            return [(st, mk('call', glob('builtins.str'), t, k))]
        if op in ('glob', 'form', 'cls'):
            return [(st, mk('generic', t, k))]
        if op in ('func', 'bm', 'lin'):
            return [(st, Raise('TypeError', 'not subscriptable'))]
        ks = self.kinds(st, t)
        if ks is not None and self.is_data(t):
            out = []
            for s, c in self.split_kinds(st, t, lambda q: 'map' if q in ('dict', 'mapping') else 'seq' if q in ('list', 'tuple', 'str', 'strsub', 'bytes') else 'no'):
                if c == 'no':
                    out.append((s, Raise('TypeError', '%s is not subscriptable' % show(t))))
                elif c == 'map':
                    if k.op == 'elem' and k.args[0] is t:
                        out.append((s, mk('at', t, k)))
                    else:
                        for s2, v in self.split(s, mk('in', k, t)):
                            out.append((s2, mk('at', t, k) if v else Raise('KeyError', 'missing key')))
                else:
                    ki = self.kinds(s, k)
                    if ki is not None and not (ki & {'int', 'bool'}):
                        out.append((s, Raise('TypeError', 'bad index')))
                        continue
                    kl = as_lin(k)
                    if kl is not None and kl[1] and kl[0] == 0 and len(kl[1]) == 1:
                        at = next(iter(kl[1]))
                        if at.op == 'pos' and at.args[0] is t:
                            out.append((s, mk('elem', t, at.args[1])))
                            continue
                    if as_lin(k) is not None:
                        ln = lin(0, [(card(t), 1)])
                        for s2, g in self.split_sign(s, lin_add(k, ln, -1)):
                            out.append((s2, mk('at', t, k) if g < 0 else Raise('IndexError', 'index out of range')))
                    else:
                        s2 = s.copy()
                        out.append((s, mk('at', t, k)))
                        out.append((s2, Raise('IndexError', 'index out of range')))
            return out
        if op in ('generic', 'attr', 'call', 'opq', 'dflt', 'loaded'):
            if op != 'generic':
                st.taint('subscript of %s' % show(t))
            return [(st, mk('at', t, k))]
        st.taint('subscript of %s' % show(t))
        return [(st, mk('at', t, k))]

    def seq_item(self, st, t, segs, k):
        ck = as_lin(k)
        if k.op == 'slice':
            return [(st, self.slice(st, t, segs, k))]
        if ck is None:
            st.taint('index %s' % show(k))
            return [(st, mk('opq', 'item'))]
        c, d = ck
        if not d:
            if all(x.op not in ('starseg', 'unkseg') for x in segs):
                if -len(segs) <= c < len(segs):
                    return [(st, segs[c])]
                return [(st, Raise('IndexError', 'index %d out of range' % c))]
            if c >= 0:
                pre = 0
                for x in segs:
                    if x.op in ('starseg', 'unkseg'):
                        break
                    if pre == c:
                        return [(st, x)]
                    pre += 1
                x = segs[pre]
                if x.op == 'starseg' and c == pre:
                    # first of the summarised elements, if any
                    S, aid = x.args
                    alts = st.alts.get(aid, {})
                    out = []
                    if len(alts) == 1 and pre + 1 == len(segs):
                        items = next(iter(alts))
                        if len(items) == 1:
                            for s, g in self.split_sign(st, lin(0, [(card(S), 1)])):
                                if g:
                                    out.append((s, subst(items[0], mk('bnd', S), mk('elem', S, 8))))
                                else:
                                    out.append((s, Raise('IndexError', 'index out of range')))
                            return out
            st.taint('index into a summarised sequence')
            return [(st, mk('opq', 'item'))]
        if len(d) == 1 and c == 0:
            at = next(iter(d))
            if at.op == 'pos' and d[at] == 1 and len(segs) == 1 and segs[0].op == 'starseg' and segs[0].args[0] is at.args[0]:
                S, aid = segs[0].args
                alts = st.alts.get(aid, {})
                if len(alts) == 1:
                    items = next(iter(alts))
                    if len(items) == 1:
                        return [(st, subst(items[0], mk('bnd', S), mk('elem', S, at.args[1])))]
        st.taint('index into a sequence')
        return [(st, mk('opq', 'item'))]

    def slice(self, st, t, segs, k):
        a, b, c = k.args
        if all(x is NONE for x in (a, b, c)) and t.op == 'ref':
            return self.alloc(st, 'list', None, tuple(segs))
        if all(x.op not in ('starseg', 'unkseg') for x in segs) and all(x.op == 'const' for x in (a, b, c)):
            n = tuple(segs)[slice(cval(a), cval(b), cval(c))]
        elif c is NONE and a.op == 'const' and b is NONE and all(x.op not in ('starseg', 'unkseg') for x in segs[:cval(a) or 0]) and (cval(a) or 0) >= 0 and len(segs) >= (cval(a) or 0):
            n = tuple(segs)[cval(a) or 0:]
        elif c is NONE and b.op == 'const' and cval(b) is not None and cval(b) >= 0 and a is NONE and \
                all(x.op not in ('starseg', 'unkseg') for x in segs[:cval(b)]) and len(segs) >= cval(b):
            n = tuple(segs)[:cval(b)]
        else:
            st.taint('slice of a summarised sequence')
            n = (mk('unkseg', mk('opq', 'item')),)
        if t.op == 'ref':
            return self.alloc(st, 'list', None, n)
        return mk('tuple', *n)

    def setitem(self, st, t, k, v):
        """-> [(state, None|Raise)]"""
        if t.op == 'ref':
            o = self.obj(st, t)
            if o.kind == 'dict':
                out = []
                for s, h in self.hashable(st, k):
                    if isinstance(h, Raise):
                        out.append((s, h))
                        continue
                    out.extend(self.dict_store(s, t, k, v))
                return out
            if o.kind == 'list':
                self.touch(st, t, 'item assignment')
                if k.op == 'const' and all(x.op not in ('starseg', 'unkseg') for x in o.data):
                    d = list(o.data)
                    try:
                        d[cval(k)] = v
                    except Exception as e:
                        return [(st, Raise(type(e).__name__, str(e)))]
                    st.heap[t] = o.with_(tuple(d))
                else:
                    st.heap[t] = o.with_((mk('unkseg', mk('opq', 'element')),))
                return [(st, None)]
            if o.kind == 'ns':
                self.touch(st, t, 'item assignment')
                st.heap[t] = o.set(cval(k), v)
                return [(st, None)]
        if self.is_data(t) or t.op == 'attr':
            h = self.hooks.get('mutate_term')
            if h:
                h(self, st, t, 'item assignment')
            return [(st, None)]
        st.taint('item assignment to %s' % show(t))
        return [(st, None)]

    def dict_store(self, st, t, k, v):
        o = self.obj(st, t)
        out = []
        if o.owner in ('L', 'module', 'class', 'type'):
            self.publish(st, mk('tuple', k, v), o.owner)
        # exact entry
        h = self.hooks.get('store')
        if h and o.owner != 'new':
            h(self, st, t, o, k, v)
        for i, x in enumerate(o.data):
            if x.op == 'ent' and x.args[0] is k:
                self.touch(st, t, ('setitem', k, v, 'replace'))
                d = list(o.data)
                d[i] = mk('ent', k, v)
                st.heap[t] = o.with_(tuple(d))
                return [(st, None)]
        for s, hit in self.lookup(st, [x for x in o.data if x.op == 'ent'], k):
            o2 = self.obj(s, t)
            if hit is None:
                self.touch(s, t, ('setitem', k, v, 'add'))
                s.heap[t] = o2.with_(o2.data + (mk('ent', k, v),))
            else:
                self.touch(s, t, ('setitem', k, v, 'replace'))
                d = []
                for x in o2.data:
                    if x.op == 'ent' and (self.same(s, x.args[0], k) or s.facts.get(mk('eq', *sorted((x.args[0], k), key=lambda z: z.id)))):
                        d.append(mk('ent', x.args[0], v))
                    else:
                        d.append(x)
                s.heap[t] = o2.with_(tuple(d))
            out.append((s, None))
        return out

    def set_add(self, st, t, k):
        out = []
        for s, h in self.hashable(st, k):
            if isinstance(h, Raise):
                out.append((s, h))
                continue
            o = self.obj(s, t)
            ents = [x for x in o.data if x.op == 'ent']
            if any(x.args[0] is k for x in ents):
                out.append((s, None))
                continue
            definite = [self.same(s, x.args[0], k) for x in ents]
            if any(definite):
                out.append((s, None))
                continue
            # data elements that might be equal simply stay separate entries
            s.heap[t] = o.with_(o.data + (mk('ent', k, NONE),))
            out.append((s, None))
        return out

    # ------------------------------------------------------------ calls
    def call(self, st, fn, args, kw):
        """kw: tuple of (name, term)"""
        self.stats['calls'] += 1
        return self.models.call(self, st, fn, list(args), list(kw))

    def push_func(self, st, fn, args, kw):
        co, module, defaults, kwdefaults, closure = fn.args
        c = co.code
        fr = Frame(co)
        r = bind(self, st, co, args, kw, defaults, dict(kwdefaults))
        if isinstance(r, Raise):
            return self.throw(st, r)
        fr.loc = r
        fr.free = closure
        fr.ns = None
        depth = sum(1 for f in st.frames if not f.native and f.co is co)
        if depth > 6:
            st.taint('recursion of %s' % co.name)
            return self.ret(st, mk('opq', 'result of ' + co.name))
        st.frames.append(fr)
        return [st]


def phis(t):
    return t.args[0] if t.op == 'phi' else frozenset([t])


_tcache = {}


def _terms_in(d):
    """a term tuple containing all terms of nested data (cached by identity of content)"""
    if isinstance(d, Term):
        return d
    try:
        r = _tcache.get(d)
    except TypeError:
        r = None
    if r is None:
        acc = []

        def go(x):
            if isinstance(x, Term):
                acc.append(x)
            elif isinstance(x, (tuple, frozenset)):
                for y in x:
                    go(y)
        go(d)
        r = tuple(acc)
        try:
            _tcache[d] = r
        except TypeError:
            pass
    return r


def _map_data(d, g):
    if isinstance(d, Term):
        return g(d)
    if isinstance(d, tuple):
        n = tuple(_map_data(x, g) if isinstance(x, (Term, tuple)) else x for x in d)
        if all(x is y for x, y in zip(n, d)):
            return d
        return n
    return d


def kind_hasattr(k, name):
    if k in ('robj', 'urobj'):
        return True if hasattr(object, name) else None
    return hasattr(KINDS[k].example, name)


def world_star_kinds(S):
    return STARKINDS.get(S.args[0], frozenset(['str']))


STARKINDS = {'F': frozenset(['str']), 'E': HASHABLE}


def bind(m, st, co, args, kw, defaults, kwdefaults):
    c = co.code
    n = c.co_argcount
    nko = c.co_kwonlyargcount
    names = c.co_varnames
    loc = {}
    args = list(args)
    star = bool(c.co_flags & 4)
    dstar = bool(c.co_flags & 8)
    pos_names = names[:n]
    ko = names[n:n + nko]
    i = n + nko
    starname = names[i] if star else None
    if star:
        i += 1
    dname = names[i] if dstar else None
    for nm, a in zip(pos_names, args):
        loc[nm] = a
    extra = args[n:]
    if extra and not star:
        return Raise('TypeError', '%s() takes %d positional arguments but %d were given' % (co.name, n, len(args)))
    if star:
        loc[starname] = mk('tuple', *extra)
    rest = []
    unknown = None
    for k, v in kw:
        if k == '**':
            unknown = v
            continue
        if k in pos_names[c.co_posonlyargcount:] or k in ko:
            if k in loc:
                return Raise('TypeError', '%s() got multiple values for argument %s' % (co.name, k))
            loc[k] = v
        elif dstar:
            rest.append(mk('ent', const(k), v))
        else:
            return Raise('TypeError', "%s() got an unexpected keyword argument '%s'" % (co.name, k))
    if dstar:
        segs = tuple(rest)
        if unknown is not None:
            segs = segs + (unknown,)
        loc[dname] = m.alloc(st, 'dict', None, segs)
    for j, nm in enumerate(pos_names):
        if nm not in loc:
            k = j - (n - len(defaults))
            if k >= 0:
                loc[nm] = defaults[k]
            else:
                return Raise('TypeError', "%s() missing argument '%s'" % (co.name, nm))
    for nm in ko:
        if nm not in loc:
            if nm in kwdefaults:
                loc[nm] = kwdefaults[nm]
            else:
                return Raise('TypeError', "%s() missing keyword argument '%s'" % (co.name, nm))
    return loc


from .ops import OPS  # noqa: E402
