"""Shaped input data: dictionaries and Namespaces over the fields of the record types."""
import argparse

from . import world
from .terms import *
from .types_ import F, E, P, X, PX, B
from .machine import HObj

VP, VX, VPX, VQ = (mk('par', n) for n in ('vp', 'vx', 'vpx', 'vq'))


def mapping(S, ents, stars=(), ns=False, name='data'):
    """a dict (or Namespace) holding the named entries, every key of the F star, and unknown keys of the E star"""
    st, m = S.st, S.m
    r = m.alloc(st, 'dict', None, (), owner='data', site='data:' + name)
    segs = [mk('ent', k, v) for k, v in ents]
    for star, maybe in stars:
        b = mk('bnd', star)
        alts = {(b, mk('at', r, b)): frozenset()}
        if maybe:
            alts[()] = frozenset()
        segs.append(m.starseg(st, star, mk('aid', r, star), alts))
    for k, v in ents:
        if k.op == 'par':
            st.facts[mk('hashable', k)] = True
            st.kinds[k] = world.HASHABLE
    st.heap[r] = st.heap[r].with_(tuple(segs))
    root(st, name, r)
    if not ns:
        return r
    n = m.alloc(st, 'inst', world.classterm(argparse.Namespace), (('#dict', r),), owner='data', site='data:ns:' + name)
    root(st, 'ns:' + name, n)
    return n


def root(st, name, t):
    """keep a datum alive for the whole run"""
    st.roots = dict(st.roots)
    st.roots['data:' + name] = t


# name -> (entries, stars)
def shapes(rec):
    """the ways a dictionary can relate to a record type: field p given under its external
    name / its python name / not at all; an unknown key x; any number of other unknown keys; fields F all or some given"""
    ext = rec.ext
    out = {
        'full': ([(ext, VP)], [(F, False)]),
        'no_p': ([], [(F, False)]),
        'extra': ([(ext, VP), (X, VX)], [(F, False)]),
        'extras': ([(ext, VP)], [(F, False), (E, False)]),
        'no_p_extra': ([(X, VX)], [(F, False)]),
        'p_only': ([(ext, VP)], []),
        'empty': ([], []),
        'methods': ([(ext, VP), (const('keys'), VX), (const('items'), VX), (const('get'), VX)], [(F, False)]),
    }
    if rec.variant in ('req', 'ext'):
        out['odd'] = ([(ext, VP), (const(5), VX)], [(F, False)])
        out['no_p_odd'] = ([(const(5), VX)], [(F, False)])
    if rec.typed:
        out = {k: out[k] for k in ('full', 'no_p', 'p_only', 'extra')}
    elif len(rec.named) > 1:
        a, b = rec.named
        out = {
            'full': ([(a.ext, VP), (b.ext, VQ)], [(F, False)]),
            'first': ([(a.ext, VP)], [(F, False)]),
            'second': ([(b.ext, VQ)], [(F, False)]),
            'extra': ([(a.ext, VP), (X, VX), (b.ext, VQ)], [(F, False)]),
            'neither': ([], [(F, False)]),
            'only_extra': ([(X, VX)], [(F, False)]),
            'empty': ([], []),
        }
    elif ext is not P:
        out['python'] = ([(P, VPX)], [(F, False)])
        out['both'] = ([(ext, VP), (P, VPX)], [(F, False)])
    return out
