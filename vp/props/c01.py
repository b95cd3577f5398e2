from .. import terms as T, collect
from ..terms import TRUE
from ..compare import TIER
from . import c02

RULE = ('effect analysis of every analysed call sequence (loading, configuring, fitting, stepping and querying all kinds of '
        'studies, every likelihood, prior function and transition model): on no feasible path is an array, list or '
        'dictionary that was passed in by the caller, or belongs to the grid or distribution handed to a model, modified '
        'in place, and the values and priors of the caller\'s models are not replaced')
MIN = 300
LEVEL = 'other'
TECH = 'static effect (mutation and aliasing) analysis by abstract interpretation of the source'
MODS = ['c04', 'c06', 'c07', 'c08', 'c09', 'c10', 'c11', 'c12', 'c15', 'c16', 'c17', 'c18', 'c19', 'c20', 'c24']
OWN = {'S', 'this', 'new'}                                # the study itself
GRID = {'grid', 'marginalGrid', 'latticeConstant', 'gridSize'}
GIVEN = {'parameterValues', 'prior', 'parameterNames', 'segmentLength', 'data', 'rv'}


def path(o):
    p = []
    while o.op in ('attr', 'idx', 'view'):
        if o.op == 'attr':
            p.append(o.args[1])
        o = o.args[0]
    return o, p[::-1]


def protected(e):
    o, p = path(e)
    if o.op not in ('sym', 'ssym'):
        return None
    if o.args[0] not in OWN:
        if not p or o.args[0] != 'study':
            return 'object passed in by the caller'
    if p and p[0] in GRID:
        return 'parameter grid of the study'
    if 'observationModel' in p and p[-1] in GIVEN:
        return 'observation model of the caller'
    if 'transitionModel' in p[:-1] and p[-1] == 'prior':
        return 'transition model of the caller'
    return None


def check(ctx):
    mods = MODS + (['c13', 'c14'] if TIER != 'quick' else [])
    for k, r in enumerate(collect.runs(ctx, mods)):
        judge(ctx, r, k)


def judge(ctx, r, k):
    rc = r.rc
    label = '%s %s (run %d of %s)' % (r.qual, r.name, k, r.mod)
    if rc.failed:
        ctx.same(label, rc.retc, T.NONE, r.worlds)
        return
    bad = []
    for e in rc.events:
        if e.kind == 'mutate':
            w = protected(e.what)
            if w and (c02.holds(e.pc, r.worlds) or not r.worlds):
                bad.append((e, w))
    ctx.rule(label + ': nothing handed in is modified', not bad,
             '; '.join('%s %s modified in place (%s) in %s line %s' % (w, T.show(e.what)[:80], e.args[0], e.func, e.line)
                       for e, w in bad[:3]), bad[0][0].func if bad else r.qual)
    if rc.state is None:
        return
    # fields of the caller's models
    for (o, fld) in sorted({x for x in rc.state.attrs if x[0].op == 'sym' and x[0].args[0] in ('om', 'om0')}, key=str):
        if fld in GIVEN:
            rc.interp.st = rc.state
            ctx.same('%s: %s' % (label, T.show(T.attr(o, fld))), rc.interp.reify(rc.state.attrs[(o, fld)]),
                     T.attr(o, fld), r.worlds, None, r.qual)
