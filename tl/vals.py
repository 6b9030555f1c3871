"""Typed values to dump: every kind of object the documentation says can be dumped."""
import datetime
import enum
import ipaddress
import pathlib
import re
import typing
import uuid

from . import world
from .terms import *
from .world import form
from .machine import HObj
from .types_ import F, P, B, records

ES = mk('star', 'I')
IS = mk('star', 'J')


class StrEnum(str, enum.Enum):
    a = 'x'


class PlainEnum(enum.Enum):
    a = 1


class Plain:
    pass


def U(S, tag):
    return mk('val', S.opaque('U'), tag)


def inst(S, rec, p=None, name=None):
    """an instance of a record type"""
    u = S.opaque('U')
    name = name or rec.kind + '_' + rec.variant
    st, m = S.st, S.m
    ents = [(f.name, p if p is not None and f.name is P else mk('val', u, 'v' + f.name.args[0])) for f in rec.named]
    if rec.variant == 'initvar':
        ents = []
    if rec.kind == 'typeddict':
        return heapdict(S, name, ents, (F, B, mk('val', u, B)))
    f = heapdict(S, name + '.fields', ents, (F, B, mk('val', u, B)))
    r = m.alloc(st, 'inst', rec.term, (('#fields', f),), owner='data', site='val:' + name)
    S.keep['val:' + name] = mk('tuple', r, f)
    return r


def heapdict(S, name, ents, star=None):
    st, m = S.st, S.m
    r = m.alloc(st, 'dict', None, (), owner='data', site='val:' + name)
    data = tuple(mk('ent', k, v) for k, v in ents)
    if star:
        sx, k, v = star
        data += (m.starseg(st, sx, mk('aid', r, sx), {(k, v): frozenset()}),)
    st.heap[r] = st.heap[r].with_(data)
    S.keep['dict:' + name] = r
    return r


def coll(S, kind, item, name, star=ES):
    st, m = S.st, S.m
    if kind == 'tuple':
        seg = m.starseg(st, star, mk('aid', 'tuple' + name, star), {(item,): frozenset()})
        S.keep['coll:' + name] = mk('tuple', seg)
        return mk('tuple', seg)
    r = m.alloc(st, kind, None, (), owner='data', site='val:' + name)
    seg = m.starseg(st, star, mk('aid', r, star), {(item,): frozenset()})
    st.heap[r] = st.heap[r].with_((seg,))
    S.keep['coll:' + name] = r
    return r


def plain(S):
    """name -> value term"""
    st, m = S.st, S.m
    b = mk('bnd', ES)
    u = S.opaque('U')
    r = {}
    for k in ('none', 'bool', 'int', 'float', 'str'):
        t = mk('par', 'd_' + k)
        st.kinds[t] = frozenset([k])
        r[k] = t
    g = world.classterm
    for k in ('list', 'tuple', 'set', 'frozenset'):
        r[k] = coll(S, k, mk('val', u, b), k)
    r['dict'] = heapdict(S, 'dict', [], (ES, mk('val', u, b), mk('val', u, mk('at', b))))
    pe = form('PlainEnum', PlainEnum, {'__name__': const('PlainEnum')})
    se = form('StrEnum', StrEnum, {'__name__': const('StrEnum')})
    r['enum'] = mk('rec', pe, (('value', mk('val', u, 'ev1')), ('name', const('a'))))
    r['strenum'] = mk('rec', se, (('value', mk('val', u, 'ev')), ('name', const('a'))))
    r['date'] = mk('val', g(datetime.date), 'd')
    r['time'] = mk('val', g(datetime.time), 'd')
    r['datetime'] = mk('val', g(datetime.datetime), 'd')
    r['timedelta'] = mk('val', g(datetime.timedelta), 'd')
    r['pattern'] = mk('val', g(re.Pattern), 'd')
    r['path'] = mk('val', g(pathlib.PosixPath), 'd')
    r['uuid'] = mk('val', g(uuid.UUID), 'd')
    for c in ('IPv4Address', 'IPv6Address', 'IPv4Network', 'IPv6Network', 'IPv4Interface', 'IPv6Interface'):
        r[c] = mk('val', g(getattr(ipaddress, c)), 'd')
    r['unknown'] = mk('val', form('PlainObj', Plain, {'__name__': const('PlainObj')}), 'd')
    r['opaque'] = mk('val', u, 'd')
    a1, a2 = mk('val', u, 'e1'), mk('val', u, 'e2')
    for k in ('list', 'tuple'):
        r[k + ' of two'] = several(S, k, (a1, a2), k + '2')
    r['dict of two'] = heapdict(S, 'dict2', [(const('one'), a1), (const('two'), a2)])
    for e in ('int', 'bool'):
        for k in ('list', 'set', 'tuple'):
            r['%s of %s' % (k, e)] = coll(S, k, r[e], k + e)
    r['list of enum'] = coll(S, 'list', r['enum'], 'listenum')
    r['list of strenum'] = coll(S, 'list', r['strenum'], 'liststrenum')
    r['set of strenum'] = coll(S, 'set', r['strenum'], 'setstrenum')
    r['list of list'] = coll(S, 'list', coll(S, 'list', mk('val', u, mk('bnd', IS)), 'inner', IS), 'listlist')
    r['list of date'] = coll(S, 'list', r['date'], 'listdate')
    r['list of path'] = coll(S, 'list', r['path'], 'listpath')
    r['dict of enum'] = heapdict(S, 'dictenum', [(const('one'), r['strenum']), (const('two'), r['enum'])])
    r['dict of str'] = heapdict(S, 'dictstr', [(r['str'], r['int'])])
    r['dict with enum keys'] = heapdict(S, 'dictekey', [(r['strenum'], a1)])
    return r


def several(S, kind, items, name):
    if kind == 'tuple':
        return mk('tuple', *items)
    r = S.m.alloc(S.st, kind, None, tuple(items), owner='data', site='val:' + name)
    S.keep['coll:' + name] = r
    return r
