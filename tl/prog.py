"""The analysed program: modules of the repository, compiled from source."""
import os

from .terms import *
from . import world
from .machine import Machine, CodeInfo, HObj, State, Frame, AnalysisError


class ClassInfo:
    def __init__(self, qual, bases, kind, ns):
        self.qual = qual
        self.bases = bases
        self.kind = kind
        self.ns = ns
        self.fields = None
        self.defaults = {}


class Program:
    def __init__(self, root, package='typedload'):
        self.root = root
        self.package = package
        self.heap = {}
        self.modules = {}
        self.classes = {}
        self.codes = []
        self._mro = {}
        self.loading = []
        self.exc_classes = []
        self.sources = []
        self.top = {}

    def relpath(self, p):
        return os.path.relpath(p, self.root) if p.startswith(self.root) else p

    def is_repo(self, name):
        return name == self.package or name.startswith(self.package + '.')

    def path_of(self, name):
        p = os.path.join(self.root, *name.split('.'))
        if os.path.isdir(p):
            return os.path.join(p, '__init__.py')
        return p + '.py'

    def is_pkg(self, name):
        return os.path.isdir(os.path.join(self.root, *name.split('.')))

    def load(self, name, m=None, st=None):
        if name in self.modules:
            return self.modules[name]
        if '.' in name:
            self.load(name.rsplit('.', 1)[0])
        path = self.path_of(name)
        if not os.path.exists(path):
            return None
        with open(path) as f:
            src = f.read()
        self.sources.append(path)
        code = compile(src, path, 'exec', dont_inherit=True)
        co = CodeInfo(code, name, self)
        self.codes.append(co)
        self.top[name] = co
        ref = mk('ref', 'module:' + name, 0)
        self.modules[name] = ref
        self.heap[ref] = HObj('ns', None, (('__name__', const(name)), ('__doc__', NONE),
                                           ('__file__', const(path))), 'module')
        self.loading.append(name)
        mm = Machine(self)
        mm.hooks['import'] = None
        s = State()
        s.heap = self.heap
        fr = Frame(co)
        fr.ns = ref
        s.frames.append(fr)
        s.roots = {'all': mk('tuple', *self.modules.values())}
        mm.gc = lambda st: st
        outs = mm.run([s])
        good = [o for o in outs if o.outcome[0] == 'return']
        if len(outs) != 1 or not good:
            w = outs[0].outcome if outs else None
            d = ''
            if w and w[0] == 'raise':
                d = show(mm.obj(outs[0], w[1]).map().get('#origin', NONE))
            if __import__('os').environ.get('TLDEBUG'):
                for o in outs:
                    print(o.outcome, o.facts, o.tainted, d)
            raise AnalysisError('module %s does not import in a single way (%s %s)' % (name, len(outs), d))
        self.heap.update(good[0].heap)
        self.loading.pop()
        # everything made at import time belongs to the module
        for r in list(self.heap):
            o = self.heap[r]
            if o.owner == 'new':
                self.heap[r] = HObj(o.kind, o.cls, o.data, 'module')
        return ref

    def load_all(self):
        d = os.path.join(self.root, self.package)
        for base, dirs, files in sorted(os.walk(d)):
            dirs[:] = sorted(x for x in dirs if not x.startswith('__'))
            for f in sorted(files):
                if f.endswith('.py'):
                    rel = os.path.relpath(os.path.join(base, f), self.root)[:-3].replace(os.sep, '.')
                    if rel.endswith('.__init__'):
                        rel = rel[:-9]
                    self.load(rel)
        self.exc_classes = [c for c in self.classes if self.is_exc(c)]
        return self

    def is_exc(self, c):
        return any(k is glob('builtins.Exception') for k in self.mro(None, None, c))

    def new_class(self, m, st, qual, bases, kind, ns=None):
        c = mk('cls', qual)
        if ns is None:
            ns = m.alloc(st, 'ns', None, (), owner='class', site='cls:' + qual)
        self.classes[c] = ClassInfo(qual, bases, kind, ns)
        return c

    def nt_fields(self, c):
        i = self.classes.get(c)
        return i.fields if i is not None and i.kind == 'nt' else ()

    def mro(self, st, m, c):
        r = self._mro.get(c)
        if r is not None:
            return r
        if c.op == 'cls':
            info = self.classes[c]
            bases = info.bases or (glob('builtins.object'),)
            seqs = [list(self.mro(st, m, b)) for b in bases] + [list(bases)]
            out = [c]
            while any(seqs):
                seqs = [s for s in seqs if s]
                for s in seqs:
                    h = s[0]
                    if not any(h in q[1:] for q in seqs):
                        break
                else:
                    h = seqs[0][0]
                out.append(h)
                for s in seqs:
                    if s and s[0] is h:
                        del s[0]
            r = out
        elif c.op == 'glob':
            v = world.real(c)
            if isinstance(v, type):
                r = [world.classterm(k) for k in v.__mro__]
            else:
                r = [c]
        elif c.op == 'anyexc':
            return self.mro(st, m, c.args[0])
        else:
            r = [c, glob('builtins.object')]
        self._mro[c] = r
        return r
