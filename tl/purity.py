"""Rules about what the code can reach: data never chooses code, no input or output, no clock, environment or randomness."""
import dis
import types as pytypes

from .terms import *
from . import world
from .world import FORMS
from .scen import Scen
from .view import describe, canon
from .runs import Loads, Dumps, Run, V
from .rules import rule, all_loads, dump_runs, group
from .effects import outcome_key, skeleton, exc_view, from_data

# names of the standard library that reach outside of the program, or turn text into code
DENY = ('os', 'posix', 'posixpath', 'nt', 'sys', 'time', 'random', '_random', 'secrets', 'subprocess', 'socket', '_socket', 'pickle', '_pickle', 'marshal', 'shelve', 'dbm',
        'ctypes', 'importlib', '_frozen_importlib', '_frozen_importlib_external', 'imp', 'runpy', 'code', 'codeop', 'pty', 'tempfile', 'shutil', 'urllib', 'http', 'ftplib',
        'smtplib', 'ssl', 'logging', 'sqlite3', 'multiprocessing', 'io', '_io', 'codecs.open', 'fileinput', 'getpass', 'locale', 'platform', 'linecache', 'pkgutil',
        'atexit', 'signal', '_signal', 'builtins.open', 'builtins.print', 'builtins.input', 'builtins.eval', 'builtins.exec', 'builtins.compile', 'builtins.__import__',
        'builtins.breakpoint', 'builtins.globals', 'builtins.exit', 'builtins.quit', 'builtins.__loader__', 'builtins.__build_class__', 'builtins.__spec__',
        'uuid.uuid1', 'uuid.uuid4', 'uuid.getnode', 'uuid.main', 'asyncio', 'concurrent', 'webbrowser', 'ast', 'inspect.stack', 'inspect.currentframe', 'inspect.getsource',
        'copyreg', 'typing.io')
ALLOWED = ('os.PathLike', 'os.fspath', 'posix.fspath', 'sys.version_info', 'sys.hexversion', 'sys.maxsize', 'sys.intern', 'sys.exc_info', 'sys.version', 'sys.implementation')
DENYATTR = {'today', 'now', 'utcnow', 'fromtimestamp', 'timestamp', 'astimezone', 'ctime', 'expanduser', 'resolve', 'exists', 'is_file', 'is_dir', 'is_symlink', 'is_mount', 'stat',
            'lstat', 'read_text', 'read_bytes', 'write_text', 'write_bytes', 'samefile', 'absolute', 'cwd', 'home', 'iterdir', 'rglob', 'mkdir', 'rmdir', 'touch', 'unlink',
            'readlink', 'symlink_to', 'hardlink_to', 'chmod', 'system', 'popen', 'urlopen', 'getenv', 'environ', 'uuid1', 'uuid4', 'getnode', '__globals__', '__builtins__',
            '__subclasses__', '__import__', 'import_module', 'f_globals', 'f_back', 'gethostname', 'local_timezone', 'open', 'getoutput', 'check_output'}
# what evaluates text, or makes types from what it is given
EVALS = {'typing.get_type_hints', 'typing.ForwardRef', 'typing._eval_type', 'inspect.signature', 'inspect.get_annotations', 'operator.attrgetter', 'operator.methodcaller',
         'types.new_class', 'types.FunctionType', 'builtins.dir', 'inspect.getmembers', 'inspect.getattr_static'}
PROTOCOL = {'__iter__', '__len__', '__getitem__', '__contains__', '__eq__', '__ne__', '__hash__', '__str__', '__repr__', '__bool__', '__int__', '__float__', '__index__',
            '__next__', '__fspath__', '__class__', '__dict__', '__reversed__', '__lt__', '__le__', '__gt__', '__ge__', '__name__', '__qualname__', '_get_kwargs', '__length_hint__', '__bytes__', '__complex__'}
for _t in (dict, list, tuple, set, frozenset, str, bytes, int, float, pytypes.MappingProxyType):
    PROTOCOL |= {n for n in dir(_t) if not n.startswith('_')}
PROTOCOL -= {'format', 'format_map', 'translate', 'maketrans'}
# classes that are built only where the requested type says so
BUILDERS = ('datetime.', 'pathlib.', 'ipaddress.', 'uuid.', 're.', 'decimal.', 'fractions.', 'enum.', 'collections.', 'types.', 'argparse.', 'dataclasses.make', 'functools.partial')


def denied(path):
    if path in ALLOWED:
        return False
    return any(path == d or path.startswith(d + '.') for d in DENY) and path not in ('os', 'sys', 'io', 'time', 'random', 'ast', 'importlib', 'codecs', 'posix', 'logging', 'platform', 'locale')


# ------------------------------------------------------------------ the names that the code uses
def scan(c):
    """every global, import and attribute in the code of the package"""
    prog = c.prog
    own = set()
    todo = []
    for name, co in prog.top.items():
        todo.append((name, co.code, name))
    allcode = []
    while todo:
        mod, code, qual = todo.pop()
        allcode.append((mod, code, qual))
        own.add(code.co_name)
        for k in code.co_consts:
            if isinstance(k, pytypes.CodeType):
                todo.append((mod, k, k.co_qualname if hasattr(k, 'co_qualname') else k.co_name))
        for i in dis.get_instructions(code):
            if i.opname in ('STORE_NAME', 'STORE_ATTR', 'STORE_GLOBAL'):
                own.add(i.argval)
    for mod, code, qual in allcode:
        ns = dict(prog.heap[prog.modules[mod]].map())
        loc = {}
        cur = None      # dotted path of what was loaded last
        line = code.co_firstlineno
        where = '%s/%s' % (mod, qual)
        for i in dis.get_instructions(code):
            if i.positions and i.positions.lineno:
                line = i.positions.lineno
            op = i.opname
            path = None
            if op in ('LOAD_GLOBAL', 'LOAD_NAME', 'LOAD_FROM_DICT_OR_GLOBALS'):
                c.ob('names used')
                t = ns.get(i.argval)
                if i.argval in loc:
                    path = loc[i.argval]
                elif t is None:
                    path = 'builtins.' + i.argval if hasattr(__builtins__ if not isinstance(__builtins__, dict) else pytypes.SimpleNamespace(**__builtins__), i.argval) else None
                elif t.op == 'glob':
                    path = t.args[0]
            elif op in ('LOAD_FAST', 'LOAD_DEREF', 'LOAD_FAST_CHECK', 'LOAD_CLOSURE'):
                path = loc.get(i.argval)
            elif op in ('LOAD_ATTR', 'LOAD_METHOD', 'LOAD_SUPER_ATTR'):
                c.ob('attributes used')
                if cur is not None:
                    path = cur + '.' + i.argval
                    t = world.import_path(path)
                    if t is not None and t.op == 'glob':
                        path = t.args[0]
                elif i.argval in DENYATTR and i.argval not in own:
                    c.fail('reach', where, 'uses .%s' % i.argval, '%s (%s:%d)' % (qual, prog.relpath(code.co_filename), line))
            elif op == 'IMPORT_NAME':
                c.ob('imports')
                path = i.argval if not prog.is_repo(i.argval) else None
            elif op == 'IMPORT_FROM':
                if cur is not None:
                    path = cur + '.' + i.argval
                    base = cur
                    if denied(path):
                        c.fail('reach', where, 'uses %s' % path, '%s (%s:%d)' % (qual, prog.relpath(code.co_filename), line))
                    nxt = path
                    cur = base
                    pend = nxt
                    loc['#from'] = pend
                    continue
            elif op in ('STORE_FAST', 'STORE_NAME', 'STORE_DEREF', 'STORE_GLOBAL'):
                v = loc.pop('#from', None) or cur
                if v is not None:
                    loc[i.argval] = v
                else:
                    loc.pop(i.argval, None)
                continue_from = v is not None and cur is not None and v.startswith(cur + '.')
                if not continue_from:
                    cur = None
                continue
            if path is not None and denied(path):
                c.fail('reach', where, 'uses %s' % path, '%s (%s:%d)' % (qual, prog.relpath(code.co_filename), line))
            if path is not None and path.rsplit('.', 1)[-1] in DENYATTR and path.rsplit('.', 1)[-1] not in own and not denied(path) and op != 'IMPORT_NAME':
                c.fail('reach', where, 'uses %s' % path, '%s (%s:%d)' % (qual, prog.relpath(code.co_filename), line))
            if op not in ('PUSH_NULL', 'CACHE', 'EXTENDED_ARG', 'NOP', 'PRECALL', 'RESUME', 'COPY', 'SWAP'):
                cur = path


# ------------------------------------------------------------------ what happens to data
def datum(t):
    """does the term depend on the content of data (rather than on its class)"""
    if isinstance(t, Term):
        if t.op in ('par', 'val', 'at', 'loaded', 'dumped', 'elem'):
            return not (t.op == 'elem' and t.args[0].op == 'star') and not (t.op == 'elem' and not any(datum(x) for x in t.args if isinstance(x, Term)))
        if t.op == 'typeof':
            return False
        return any(datum(x) for x in t.args if isinstance(x, (Term, tuple, frozenset)))
    if isinstance(t, (tuple, frozenset)):
        return any(datum(x) for x in t)
    return False


class Uses:
    """how the analysed code uses data"""

    def __init__(self):
        self.events = []
        self.hooks = {'call': self.call, 'construct': self.construct, 'dynattr': self.dynattr, 'dataattr': self.dataattr, 'datacall': self.datacall, 'import': self.imp}

    def add(self, m, st, what, x, text):
        if not st.tainted:
            w = m.where(st)
            self.events.append((what, x, text, w[1], '%s (%s)' % (w[1], w[0]), st))

    def take(self):
        e, self.events = self.events, []
        return e

    def call(self, m, st, f, args, kw):
        n = f.args[0]
        if denied(n):
            self.add(m, st, 'reach', None, 'calls %s' % n)
        if n in EVALS and any(datum(a) for a in args):
            self.add(m, st, 'evals', None, '%s of data' % n)
        if n == 'builtins.type' and len(args) == 3 and any(datum(a) for a in args):
            self.add(m, st, 'evals', None, 'makes a class from data')
        if n.startswith(BUILDERS):
            self.add(m, st, 'build', f, '')

    def construct(self, m, st, f, args, kw):
        self.add(m, st, 'build', f, '')

    def dynattr(self, m, st, o, n):
        if datum(n):
            self.add(m, st, 'attribute', None, 'data names an attribute: getattr(%s, %s)' % (show(o)[:60], show(n)[:60]))

    def dataattr(self, m, st, t, name):
        if name not in PROTOCOL:
            self.add(m, st, 'protocol', None, 'attribute %s of the data is used' % name)

    def datacall(self, m, st, f, args, kw):
        self.add(m, st, 'call', None, 'data is called: %s' % show(f)[:100])

    def imp(self, m, st, full):
        pass


def closure(t, recs):
    """the types that the requested type is made of"""
    seen, todo = set(), [t]
    byterm = {r.term: r for r in recs}
    while todo:
        x = todo.pop()
        if not isinstance(x, Term) or x in seen:
            continue
        seen.add(x)
        r = byterm.get(x)
        if r is not None:
            todo += [r.ftype] + [f.ptype for f in r.named]
        if x.op == 'form':
            for v in FORMS[x].attrs.values():
                if isinstance(v, Term):
                    todo += [y for y in walk(v) if y.op in ('form', 'glob', 'cls')]
    return seen


def requested(LL, r):
    """the types a run may build: parts of the requested type, and the declared classes behind them"""
    S = LL.S
    recs = LL.recs + LL.outers
    out = closure(r.t, recs)
    m = S.m
    for x in list(out):
        refs = [v for v in FORMS[x].attrs.values() if isinstance(v, Term)] if x.op == 'form' else []
        h = m.userhints.get(x)
        if isinstance(h, Term):
            refs.append(h)
        for y in m.reach(r.st0, [x] + refs):
            o = m.obj(r.st0, y) if y.op == 'ref' else None
            for z in walk(tuple(v for v in o.data if isinstance(v, Term)) if o is not None else y):
                if z.op in ('form', 'glob', 'cls'):
                    out |= closure(z, recs)
    real = set()
    for x in out:
        if x.op == 'glob':
            real.add(x.args[0])
        elif x.op == 'form':
            e = FORMS[x].example
            og = getattr(e, '__origin__', None) or e
            if isinstance(og, type):
                real.add('%s.%s' % (og.__module__, og.__qualname__))
    return out, real


def origin_ok(f, types, real):
    """is the thing that is called what the requested type says"""
    n = f.args[0]
    if n in real or any(n.startswith(x + '.') for x in real):
        return True
    if n.startswith('re.') or n.startswith('_sre.'):
        return bool(real & {'re.Pattern', 're.Match', 'typing.Pattern'}) or n in ('re.error', 're.PatternError')
    return False


KNOWN = ('dataclass:req', 'attrs:req', 'namedtuple:req', 'typeddict:req')


@rule('C19', 'Three analyses. (1) Scan of the compiled code of the package: every global, import and attribute that is used is resolved; none of them does input or output, evaluates text, '
             'imports by name, reads clock, environment, process or random state. (2) Abstract interpretation of load() and dump(): data is never called, no attribute is looked up under '
             'a name taken from data, only protocol methods of data are used, and every class that is called and every type handed to a handler is part of the requested type, also '
             'while other types are known to the loader. (3) All runs are repeated with every set iterated the other way round, and the results and the conditions under which they are '
             'given are compared: they do not depend on the order of sets, hence not on the hash seed.')
def c19(c):
    if c.mine():
        scan(c)
    u = Uses()
    LL = Loads(c.prog, hooks=u.hooks, frefs=('Other',) + KNOWN)
    u.take()
    byrun(c, LL, u, 'load')
    ud = Uses()
    D = Dumps(c.prog, hooks=ud.hooks)
    ud.take()
    for r in dump_runs(c, D, True):
        c.ob('dumps')
        for what, x, text, fn, where, st in ud.take():
            if what in ('reach', 'evals', 'attribute', 'call') and not (what == 'evals' and ok_eval(text)):
                c.fail(what, fn, text, where, describe(None, st), r.name)
    order(c)


def ok_eval(text):
    return text.startswith(('builtins.dir', 'inspect.signature'))


def byrun(c, LL, u, kind):
    S = LL.S
    for r in all_loads(c, LL):
        types, real = requested(LL, r)
        c.ob('loads')
        for what, x, text, fn, where, st in u.take():
            c.ob('uses of data and constructors')
            if what == 'build':
                if x.op == 'typeof' or datum(x):
                    c.fail('class', fn, 'the class that is called comes from data: %s' % show(x)[:80], where, describe(None, st), r.name)
                elif x.op == 'glob' and (x.args[0].startswith(BUILDERS) or not x.args[0].startswith('builtins.')) and not origin_ok(x, types, real):
                    c.fail('class', fn, 'calls %s, which is no part of the requested type' % x.args[0], where, describe(None, st), r.name)
                elif x.op == 'form' and x not in types:
                    c.fail('class', fn, 'calls %s, which is no part of the requested type' % show(x), where, describe(None, st), r.name)
                continue
            c.fail(what, fn, text, where, describe(None, st), r.name)
        for o in r.clean():
            for e in o.log:
                if e[0] in ('ok', 'fail', 'misrouted'):
                    c.ob('types handed to handlers')
                    if e[2] not in types:
                        c.fail('type', group(r.name), 'loads into %s, which is no part of the requested type' % show(e[2]), 'load of %s' % r.name, describe(None, o), r.name)


# ------------------------------------------------------------------ order of sets
def key(m, o):
    k, x = o.outcome
    if k == 'return':
        t, parts = skeleton(canon(m, o, x, ('data', 'type'), ordered=True))
    else:
        t, parts = skeleton(exc_view(m, o, x, ('args', 'exceptions')))
    return (k, show(t)[:3000]), parts


def order(c):
    pairs = []
    for rev in (False, True):
        LL = Loads(c.prog)
        D = Dumps(c.prog)
        LL.S.m.revsets = D.S.m.revsets = rev
        pairs.append((LL, D))

    def runs(LL, D):
        yield from LL.opaque()
        yield from LL.concrete(sizes=(0, 2))
        yield from LL.shaped(nss=(False,))
        yield from LL.compound()
        yield from D.runs([n for n in D.vals if ' holding ' not in n])
    for a, b in zip(runs(*pairs[0]), runs(*pairs[1])):
        if not c.mine():
            continue
        if not (c.run(a, True) and c.run(b, True)):
            continue
        if any(o.tainted for o in a.outs + b.outs):
            continue
        c.ob('both orders')
        res = []
        for q in (a, b):
            d = {}
            for o in q.outs:
                k, p = key(q.S.m, o)
                d.setdefault(k, []).append(o)
            res.append(d)
        x, y = res
        what = 'load of %s' % a.name if a.t is not None else 'dump of %s' % a.name
        for d, e in ((x, y), (y, x)):
            for k in d.keys() - e.keys():
                c.fail('order', group(a.name), 'only with one order of sets: %s %s' % (k[0], k[1][:160]), what, describe(None, d[k][0]), a.name)
        for k in x.keys() & y.keys():
            p, q = (frozenset(frozenset(describe(None, o)) for o in d[k]) for d in (x, y))
            if p != q and k[0] == 'return':
                c.fail('order', group(a.name), 'the conditions depend on the order of sets: %s %s' % (k[0], k[1][:100]), what, [str(sorted(z)) for z in sorted(p ^ q, key=str)[:3]], a.name)
