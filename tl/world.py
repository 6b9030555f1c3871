"""What the analysis knows about Python itself: data kinds, stdlib objects.

Only the interpreter's own stdlib is introspected here (class hierarchies,
attribute presence); nothing of the analysed repository is imported or run.
"""
import argparse
import builtins
import importlib
import types
import enum
import datetime
import re
import typing

from .terms import mk, glob, const, Term, show


class StrSub(str):
    pass


class PlainObject:
    pass


class K:
    def __init__(self, name, cls, hashable, truth, iterable, sized, example):
        self.name = name
        self.cls = cls
        self.hashable = hashable
        self.truth = truth
        self.iterable = iterable
        self.sized = sized
        self.example = example


def _gen():
    yield 1


KINDS = {k.name: k for k in [
    K('none', type(None), True, False, False, False, None),
    K('bool', bool, True, None, False, False, True),
    K('int', int, True, None, False, False, 5),
    K('float', float, True, None, False, False, 1.5),
    K('str', str, True, None, True, True, 'text'),
    K('strsub', StrSub, True, None, True, True, StrSub('text')),
    K('bytes', bytes, True, None, True, True, b'x'),
    K('list', list, False, None, True, True, [1]),
    K('tuple', tuple, True, None, True, True, (1,)),
    K('set', set, False, None, True, True, {1}),
    K('frozenset', frozenset, True, None, True, True, frozenset([1])),
    K('dict', dict, False, None, True, True, {'a': 1}),
    K('mapping', types.MappingProxyType, False, None, True, True, types.MappingProxyType({'a': 1})),
    K('namespace', argparse.Namespace, False, True, False, False, argparse.Namespace(a=1)),
    K('iterator', types.GeneratorType, True, True, True, False, _gen()),
    K('object', PlainObject, True, True, False, False, PlainObject()),
    # results of loading something into an arbitrary type
    K('robj', PlainObject, True, None, False, False, PlainObject()),
    K('urobj', PlainObject, False, None, False, False, PlainObject()),
]}
DATA = frozenset(k for k in KINDS if k not in ('robj', 'urobj'))
RESULT = frozenset(['robj', 'urobj'])
HASHABLE = frozenset(k for k in DATA if KINDS[k].hashable)

CONSTKIND = {'NoneType': 'none', 'bool': 'bool', 'int': 'int', 'float': 'float',
             'str': 'str', 'bytes': 'bytes'}

_byid = {}
_real = {}


class Missing:
    pass


MISSING = Missing()


def register(path, obj):
    """canonical term for a stdlib object reached under a path"""
    if isinstance(obj, (bool, int, float, str, bytes, type(None), type(Ellipsis))):
        return const(obj)
    k = id(obj)
    if k in _byid:
        return _byid[k][0]
    name = None
    if not isinstance(obj, types.ModuleType):
        m = getattr(obj, '__module__', None)
        q = getattr(obj, '__qualname__', None)
        if isinstance(m, str) and isinstance(q, str):
            try:
                o = importlib.import_module(m)
                for p in q.split('.'):
                    o = getattr(o, p)
                if o is obj:
                    name = m + '.' + q
            except Exception:
                pass
        if obj is type(None):
            name = 'builtins.NoneType'
    t = glob(name or path)
    if t in _real and _real[t] is not obj:
        t = glob(path)
    _byid[k] = (t, obj)
    _real[t] = obj
    return t


for _n in dir(builtins):
    register('builtins.' + _n, getattr(builtins, _n))
register('builtins.NoneType', type(None))


NONSTD = ('attr', 'attrs')


def import_path(path):
    """term for a dotted path in the standard library (or attrs)"""
    parts = path.split('.')
    if parts[0] in NONSTD:
        return alias(path)
    obj = None
    for i in range(len(parts), 0, -1):
        try:
            obj = importlib.import_module('.'.join(parts[:i]))
        except Exception:
            continue
        try:
            for p in parts[i:]:
                obj = getattr(obj, p)
        except AttributeError:
            return None
        return register(path, obj)
    return None


ALIASES = {
    'attr._make._Nothing': 'attr._make._Nothing',
    'attr._make.NOTHING': 'attr.NOTHING',
    'attr._make._Nothing.NOTHING': 'attr.NOTHING',
    'attrs.NOTHING': 'attr.NOTHING',
    'attrs.fields': 'attr.fields',
    'attr._make.fields': 'attr.fields',
    'attrs.has': 'attr.has',
    'attr._make.Factory': 'attr.Factory',
    'attrs.Factory': 'attr.Factory',
}


def alias(path):
    return glob(ALIASES.get(path, path))


def real(t):
    """the stdlib object a glob term denotes, or MISSING"""
    if t.op == 'glob':
        if t in _real:
            return _real[t]
        return MISSING
    if t.op == 'form':
        return FORMS[t].example
    return MISSING


class Form:
    """a type annotation or class, known by an example of its kind"""

    def __init__(self, name, example, attrs=None, make=None, hidden=()):
        self.name = name
        self.example = example
        self.attrs = dict(attrs or {})
        self.make = make
        self.hidden = set(hidden)


FORMS = {}


def form(name, example, attrs=None, make=None, hidden=()):
    t = mk('form', name)
    FORMS[t] = Form(name, example, attrs, make, hidden)
    return t


def form_getattr(t, name):
    """Term | None (absent) | 'opaque'"""
    f = FORMS[t]
    if name in f.attrs:
        return f.attrs[name]
    if name in f.hidden:
        return None
    try:
        v = getattr(f.example, name)
    except AttributeError:
        return None
    except Exception:
        return None
    if isinstance(v, (str, bool, int, type(None))):
        return const(v)
    if name in ('__origin__', '__class__', '__supertype__', '__mro__', '__bases__'):
        if not isinstance(v, tuple):
            return register('?.' + name, v)
    return 'opaque'


def classterm(c):
    return register(c.__module__ + '.' + c.__qualname__, c)
