"""Deciding whether two value graphs denote the same value."""
import os
from . import terms as T
from .evalt import Ev, Undefined, same, Opq, Obj
import sys

sys.setrecursionlimit(20000)
SEED = int(os.environ.get('VERIF_SEED', '1') or 1)
TIER = os.environ.get('VERIF_TIER', 'quick') or 'quick'


class Outcome(object):
    """verdict of one obligation"""

    def __init__(self, name, site=''):
        self.name, self.site = name, site
        self.status = None        # proved / agree / undecided / violated
        self.worlds = 0
        self.undef = {}
        self.detail = None

    def __repr__(self):
        return '%s: %s (%d valuations)%s' % (self.name, self.status, self.worlds, ' ' + str(self.detail)
                                             if self.detail else '')


def heads(t):
    return {x.args[0] for x in T.subterms(t) if x.op == 'call'} | {'dyn.' + x.args[0] for x in T.subterms(t)
                                                                    if x.op == 'dyn'}


def evaluate(t, w, side):
    return Ev(w, side).run(t)


def compare(name, a, b, worlds, guard=None, site='', eq=None, force=False):
    """a: graph of the code, b: graph of the reference; guard: graph that must be true for a valuation to count"""
    o = Outcome(name, site)
    if a is None or b is None:
        if a is b:
            o.status = 'proved'
        else:
            o.status = 'undecided'
            o.detail = 'no normal continuation on one side'
        return o
    if a is b and not force and 'empty' not in {x.op for x in T.subterms(a)}:
        o.status = 'proved'
        return o
    for i, w in enumerate(worlds):
        try:
            if guard is not None and not evaluate(guard, w, 1):
                continue
        except Undefined as e:
            o.undef['guard: ' + str(e)] = o.undef.get('guard: ' + str(e), 0) + 1
            continue
        try:
            ey = Ev(w, 1)
            y = ey.run(b)
        except Undefined as e:
            o.undef['ref: ' + str(e)] = o.undef.get('ref: ' + str(e), 0) + 1
            continue
        except RecursionError:
            o.undef['recursion'] = 1
            continue
        try:
            ex = Ev(w, 0)
            x = ex.run(a)
            ok = (eq or same)(x, y)
        except Undefined as e:
            o.undef[str(e)] = o.undef.get(str(e), 0) + 1
            continue
        except RecursionError:
            o.undef['recursion'] = 1
            continue
        o.worlds += 1
        if not ok:
            ha, hb = heads(a), heads(b)
            from .evalt import libfun
            unk = {h for h in ha ^ hb if libfun(h) is None and not h.startswith('dyn.') and h not in w['#fun']}
            unk &= ex.touched | ey.touched
            if unk:
                o.undef['uninterpreted ' + ', '.join(sorted(unk))] = 1
                continue
            o.status = 'violated'
            o.detail = dict(valuation=w.get('#name', i), code=brief(x), expected=brief(y))
            return o
    o.status = 'agree' if o.worlds else 'undecided'
    return o


def brief(v, n=400):
    import numpy as np
    try:
        with np.printoptions(precision=6, threshold=24, edgeitems=4):
            s = repr(v)
    except Exception:
        s = str(type(v))
    return s if len(s) <= n else s[:n] + '...'
