from .. import terms as T
from ..terms import mk, TRUE, FALSE, bnot, num
from ..compare import TIER
from . import c12, c14

RULE = ('value graphs of all results of a hyper-study fit with several processes (process pool: each worker call on its own '
        'copy of what it is given, results in order) equal those of the average over one standard fit per combination in '
        'grid order, for 2, 3 and 5 processes, also after an earlier fit')
MIN = 12


def check(ctx):
    n = 8 if TIER == 'quick' else 60
    ctx.method('HyperStudy', 'fit')
    cases = [('parallel_one', 2, FALSE, FALSE), ('parallel_one', 3, FALSE, TRUE), ('parallel_one', 5, TRUE, FALSE),
             ('parallel_two', 2, TRUE, FALSE), ('parallel_again', 2, TRUE, FALSE)]
    if TIER != 'quick':
        cases += [('parallel_one', 4, FALSE, FALSE), ('parallel_two', 3, FALSE, FALSE)]
    for f, jobs, fo, eo in cases:
        a = c12.args(ctx, 'scen.' + f, fo, eo)
        a[-1] = num(jobs)
        rc = ctx.code('scen.' + f, a, opaque=['scen.law'])
        ref = 'hyper.hyperfit_' + ('two' if f.endswith('two') else 'one')
        rr = ctx.spec(ref, c12.args2(ctx, ref, fo, eo), opaque=['hyper.law'])
        guard = bnot(rr.raisecond())
        ws = c12.worlds(f + str(jobs), n)
        for k, part in enumerate(c12.PARTS):
            if eo is TRUE and k in (3, 4):
                continue
            ctx.same('%s, %d processes%s: %s' % (f, jobs, ', forward' if fo is TRUE else '', part),
                     T.idx(rc.retc, num(k)), T.idx(rr.retc, num(k)), ws, guard, 'HyperStudy._parallelFit')
        for e in rc.events:
            if e.kind == 'nondet' and 'order of' in str(e.what):
                ctx.rule('%s: order of results' % f, False, '%s in %s line %s' % (e.what, e.func, e.line), e.func)
    for jobs in (2, 3) if TIER == 'quick' else (2, 3, 4, 5):
        a = c12.args(ctx, 'scen.changes_parallel', FALSE, TRUE if jobs == 3 else FALSE, 'ChangepointStudy')
        a[-1] = num(jobs)
        rc = ctx.code('scen.changes_parallel', a, opaque=['scen.law'])
        rr = ctx.spec('points.changes_two', c12.args2(ctx, 'points.changes_two', FALSE, TRUE if jobs == 3 else FALSE),
                      opaque=['points.law'])
        ws = c14.worlds('parallel%d' % jobs, n)
        for k, part in enumerate(c14.PARTS):
            if jobs == 3 and k in (2, 3):
                continue
            ctx.same('change-point study, %d processes: %s' % (jobs, part), T.idx(rc.retc, num(k)), T.idx(rr.retc, num(k)),
                     ws, bnot(rr.raisecond()), 'HyperStudy._parallelFit')
