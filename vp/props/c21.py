import numpy as np
from .. import worlds as W, terms as T, collect
from ..terms import mk, TRUE, FALSE, bnot, band, num
from ..compare import SEED, TIER, evaluate
from ..evalt import Undefined
from . import c02, c06, c12, c14, c15, c20

RULE = ('with silent=True no feasible path of loading, configuring and fitting any kind of study reaches a printing or '
        'progress-bar call other than a warning; the value graphs of all results and stored state with silent (and plot) as '
        'free variables are the same as with silent=True (plot=False)')
MIN = 120
sym = lambda n: mk('sym', n)


def warning(e, es):
    """text of a warning, or a line that is only printed together with one"""
    says = lambda x: any(t.op == 'str' and 'WARNING' in t.args[0] for a in x.args for t in T.subterms(a))
    return says(e) or any(says(x) and x.func == e.func and x.pc is e.pc for x in es)


def drawn(e, ws, silent=None):
    """the output call is reached in some valuation"""
    pc = e.pc
    if e.kind == 'progress' and e.args and e.args[0] is not None:
        pc = band(pc, bnot(e.args[0]))
    if pc is FALSE:
        return False
    return c02.holds(pc, ws)


def quiet(ctx, name, rc, ws, site):
    if rc.failed:
        ctx.same(name, rc.retc, T.NONE, ws)
        return
    es = [e for e in rc.events if e.kind in ('print', 'progress')]
    bad = [e for e in es if not (e.kind == 'print' and warning(e, es)) and drawn(e, ws)]
    ctx.rule(name + ': silent', not bad, '; '.join('%s in %s line %s although silent=True' % (e.kind, e.func, e.line)
                                                   for e in bad[:3]), bad[0].func if bad else site)


def pair(ctx, name, f, args, ws, site, cls=None, opaque=('scen.law',), parts=None):
    """silent as a free variable against silent=True"""
    put = lambda v: [v if x is sym('silent') else x for x in args]
    ra = ctx.code(f, put(sym('silent')), opaque=opaque)
    rb = ctx.code(f, put(TRUE), opaque=opaque)
    quiet(ctx, name, rb, ws, site)
    if ra.failed or rb.failed or ra.retc is None or rb.retc is None:
        return
    n = len(rb.retc.args) if rb.retc.op == 'seq' else 0
    guard = bnot(rb.raisecond())
    for k in range(n):
        ctx.same('%s: result %d' % (name, k), T.idx(ra.retc, num(k)), rb.retc.args[k], ws, guard, site)
    ctx.same(name + ': rejection', ra.raisecond(), rb.raisecond(), ws, None, site)


def options(ws):
    out = []
    for i, w in enumerate(ws):
        w = dict(w)
        w['silent'] = bool(i % 3 == 2)
        out.append(w)
    return out


def check(ctx):
    n = 6 if TIER == 'quick' else 24
    # silence of all analysed fits
    for r in collect.runs(ctx, ['c04', 'c07', 'c08', 'c11', 'c12'] + (['c13', 'c14'] if TIER != 'quick' else [])):
        quiet(ctx, '%s %s' % (r.qual, r.name), r.rc, r.worlds, r.qual)
    # output options do not change results
    modes = [('full', FALSE, FALSE), ('evidence only', FALSE, TRUE)]
    ws = options(c12.worlds('c21', n))
    for cls in ('Study', 'HyperStudy'):
        for mode, fo, eo in modes:
            pair(ctx, '%s (%s)' % (cls, mode), 'scen.say_fit', c12.args(ctx, 'scen.say_fit', fo, eo, cls), ws,
                 cls + '.fit')
    for cls in ('Study', 'HyperStudy', 'ChangepointStudy', 'OnlineStudy'):
        pair(ctx, '%s configuration' % cls, 'scen.say_set', c12.args(ctx, 'scen.say_set', FALSE, FALSE, cls),
             options(W.world(**W.inputs(i, SEED, key='c21', estimate=True, irregular=True)) for i in range(n)),
             cls + '.set')
    for mode, fo, eo in modes:
        pair(ctx, 'hyper-study (%s)' % mode, 'scen.say_hyper', c12.args(ctx, 'scen.say_hyper', fo, eo), ws,
             'HyperStudy.fit')
    pw = options(c14.worlds('c21', n))
    a = c12.args(ctx, 'scen.say_points', FALSE, FALSE, 'ChangepointStudy')
    pair(ctx, 'change-point study', 'scen.say_points', a, pw, 'ChangepointStudy.fit')
    jw = [dict(w, jobs=2) for w in ws]
    pair(ctx, 'parallel fit', 'scen.say_parallel',
         [num(2) if x is sym('jobs') else x for x in c12.args(ctx, 'scen.say_parallel', FALSE, FALSE)], jw, 'HyperStudy.fit')
    ow = options(c15.worlds('c21', n, 2))
    pair_online(ctx, ow)
    queries(ctx, 2 * n)


def pair_online(ctx, ws):
    f = 'scen.say_online'
    a = c15.args(ctx, 'say_online', 2, True)
    rs = [ctx.code(f, [v if x is sym('silent') else x for x in a], opaque=['scen.law']) for v in (sym('silent'), TRUE)]
    if not any(r.failed for r in rs):
        for k in range(11):
            ctx.same('online study: result %d' % k, T.idx(rs[0].retc, num(k)), T.idx(rs[1].retc, num(k)), ws,
                     bnot(rs[1].raisecond()), 'OnlineStudy')
        ctx.same('online study: rejection', rs[0].raisecond(), rs[1].raisecond(), ws, None, 'OnlineStudy')
    rc = ctx.code('scen.hush_online', [mk('cls', 'OnlineStudy'), sym('om'), sym('tm'), sym('tp')])
    quiet(ctx, 'online study', rc, ws, 'OnlineStudy.setTransitionModelPrior')
    rc = ctx.code('scen.hush_example', [mk('cls', 'Study')])
    quiet(ctx, 'example data', rc, ws, 'Study.loadExampleData')


def queries(ctx, n):
    """the result of a query does not depend on whether it is plotted"""
    S = sym('S')
    seen = set()
    for cls, name, f in c02.queries(ctx):
        ps = [p.arg for p in f.node.args.args + f.node.args.kwonlyargs]
        if 'plot' not in ps or (f.qual, cls) in seen:
            continue
        seen.add((f.qual, cls))
        args = c02.argsfor(cls, f)
        ws = c20.worlds('c21' + name, n, cls)
        rs = [ctx.code(f.qual, [S] + [v if x is sym('plot') else x for x in args], objcls={S: cls}, inline=[f.qual],
                       opaque=['helper.createColormap']) for v in (sym('plot'), FALSE)]
        guard = bnot(rs[1].raisecond())
        ctx.same('%s.%s: plot does not change the result' % (cls, name), rs[0].retc, rs[1].retc, ws, guard, f.qual)
        ctx.same('%s.%s: plot does not change the rejection' % (cls, name), rs[0].raisecond(), rs[1].raisecond(), ws,
                 None, f.qual)
        bad = [e for e in rs[1].events if e.kind == 'plot' and c02.holds(e.pc, ws)]
        ctx.rule('%s.%s: nothing is drawn without plot' % (cls, name), not bad,
                 '; '.join('drawing call in %s line %s although plot=False' % (e.func, e.line) for e in bad[:3]), f.qual)
