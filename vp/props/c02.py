import numpy as np
from .. import worlds as W, terms as T
from ..terms import mk, TRUE, FALSE, NONE, string
from ..compare import TIER, SEED, evaluate
from ..evalt import Undefined, same
from . import c06, c20

RULE = ('effect analysis of every reporting and plotting method of all study classes: on every normal and exceptional '
        'exit the graph of each attribute of the study and its models equals its initial value, and no array, list or '
        'dictionary reachable from the study is modified in place on any feasible path')
MIN = 60
sym = lambda n: mk('sym', n)
MUTATORS = {'__init__', 'loadData', 'load', 'loadExampleData', 'setObservationModel', 'setOM', 'setTransitionModel',
            'setTM', 'set', 'fit', 'optimize', 'step', 'addTransitionModel', 'addTM', 'add', 'setTransitionModelPrior'}
SKIP = {'eval'}


def queries(ctx):
    out = []
    for cls in ('Study', 'HyperStudy', 'ChangepointStudy', 'OnlineStudy'):
        if cls not in ctx.repo.classes:
            continue
        names = []
        for c in ctx.repo.mro(cls):
            for n, f in ctx.repo.classes[c].methods.items():
                if n not in names and not n.startswith('_') and n not in MUTATORS and n not in SKIP:
                    names.append(n)
        for n in sorted(names):
            out.append((cls, n, ctx.repo.method(cls, n)))
    return out


ARG = {'t': 't', 'density': 'density', 'plot': 'plot', 'local': 'local', 'x': 'x', 'transitionModel': 'tname',
       'silent': 'silent', 'color': 'color', 'gamma': 'gamma', 'figure': 'figure', 'subplot': 'subplot',
       'names': 'names', 'query': 'query'}


def argsfor(cls, f):
    a = f.node.args
    hyper = 'Hyper' in f.name or 'HPD' in f.name
    out = []
    for p in (a.posonlyargs + a.args)[1:]:
        n = ARG.get(p.arg)
        if p.arg == 'name':
            n = 'hname' if hyper else 'name'
        if p.arg == 't' and f.name == 'simulate':
            n = 'ts'
        if p.arg == 't' and 'MeanValue' in f.name:
            n = 'tt'
        out.append(c06.arg(n) if n else sym(p.arg))
    return out


def reachable(o, S):
    """o is the study or an object held by it"""
    while o.op in ('attr', 'idx'):
        o = o.args[0]
    return o is S


def holds(pc, ws):
    """pc is true in some valuation; None: cannot be decided"""
    if pc is TRUE:
        return True
    und = False
    for w in ws:
        try:
            if evaluate(pc, w, 0):
                return True
        except Undefined:
            und = True
        except RecursionError:
            und = True
    return None if und else False


def constructed(ctx, cls):
    """kinds of the containers that the constructor assigns and all methods keep"""
    f = ctx.method(cls, '__init__')
    o = mk('sym', 'new')
    r = ctx.code(f.qual, [o], {'silent': TRUE}, objcls={o: cls}, inline=[f.qual])
    out = {}
    if not r.failed and r.state is not None:
        for (x, n), v in r.state.attrs.items():
            if x is o:
                r.interp.st = r.state
                out[n] = r.interp.kind(v)
    return out


def check(ctx):
    online = constructed(ctx, 'OnlineStudy')
    n = 12 if TIER == 'quick' else 48
    S = sym('S')
    for cls, name, f in queries(ctx):
        if 'property' in f.decos:
            args = []
        else:
            args = argsfor(cls, f)
        ws = c20.worlds('c02' + name, n, cls)
        for i in range(4):
            w = dict(ws[i])
            w.update([dict(name='nope', hname='nope', tname='nope', hname2='nope'),
                      dict(t=98765, tt=98765, ts=98765)][i % 2])
            ws.append(w)
        rc = ctx.code(f.qual, [S] + args, objcls={S: cls}, inline=[f.qual])
        effects(ctx, '%s.%s' % (cls, name), rc, ws, f.qual, S, online if cls == 'OnlineStudy' else {})


def effects(ctx, name, rc, ws, site, S, kinds):
    if rc.failed:
        ctx.same(name + ': state', rc.retc, NONE, ws)
        return
    exits = [('normal exit', rc.state, TRUE)] if rc.state is not None else []
    for pc, e, line, s in rc.raises:
        exits.append(('%s in line %s' % (e.args[0], line), s, pc))
    k = 0
    for what, st, pc in exits:
        I = rc.interp
        for (o, fld) in sorted({x for x in st.attrs if reachable(x[0], S)}, key=str):
            I.st = st
            v = I.reify(st.attrs[(o, fld)])
            ctx.same('%s: %s after %s' % (name, T.show(T.attr(o, fld)), what), v, T.attr(o, fld), ws,
                     None if pc is TRUE else pc, site)
            k += 1
            kd = I.kind(st.attrs[(o, fld)])
            if kinds.get(fld) == 'list' and o is S and holds(pc, ws):
                ctx.rule('%s: %s is still a list after %s' % (name, fld, what), kd in ('list', 'unknown'),
                         '%s is left as %s at %s' % (fld, kd, what), site)
    bad = []
    for e in rc.events:
        if e.kind == 'mutate' and reachable(e.what, S) and holds(e.pc, ws):
            bad.append(e)
    ctx.rule(name + ': no in-place modification', not bad,
             '; '.join('%s modified in place (%s) at %s line %s' % (T.show(e.what), e.args[0], e.func, e.line)
                       for e in bad[:3]), site)
