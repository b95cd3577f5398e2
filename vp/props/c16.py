from .. import worlds as W, terms as T
from ..terms import mk, TRUE, FALSE, bnot, num
from ..compare import TIER, SEED
from . import c06, c15

RULE = ('value graphs of time stamps and of all history sequences after 1 to 4 steps of an online study (segment lengths 1 '
        'to 3, history on and off, constructor to step inlined) equal the sequences of results after each analysed '
        'segment; queries of past results are refused exactly without history; otherwise queries select the entry of the '
        'requested time stamp')
MIN = 40
sym = c06.sym
PAST = ['getParameterDistribution', 'getParameterDistributions', 'getParameterMeanValue', 'getParameterMeanValues',
        'getHyperParameterDistribution', 'getHyperParameterDistributions', 'getHyperParameterMeanValue',
        'getHyperParameterMeanValues', 'getTransitionModelDistributions', 'getTransitionModelProbabilities']


def cases():
    c = [('online_plain', 1, 'number'), ('online_plain', 2, 'list'), ('online_plain', 4, 'number'),
         ('online_single', 3, 'number'), ('online_two', 2, 'number'), ('online_two', 3, 'number')]
    if TIER != 'quick':
        c += [('online_plain', 5, 'number'), ('online_single', 4, 'number'), ('online_two', 4, 'number')]
    return c


def check(ctx):
    n = 4 if TIER == 'quick' else 16
    ctx.method('OnlineStudy', 'step')
    for f, steps, kind in cases():
        rc, rr = c15.runs(ctx, f, steps, kind)
        guard = bnot(rr.raisecond())
        for seg in (1, 2, 3):
            if seg > steps + 1:
                continue
            ws = c15.worlds('%s%d.%d' % (f, steps, seg), n, steps, history=True, seg=seg)
            ws += c15.worlds('%s%d.%d' % (f, steps, seg), max(n // 2, 2), steps, history=False, seg=seg)
            for k, part in enumerate(c15.HISTORY, len(c15.PARTS)):
                ctx.same('%s, %d steps (%s), segment length %d: %s' % (f, steps, kind, seg, part), T.idx(rc.retc, num(k)),
                         T.idx(rr.retc, num(k)), ws, guard, 'OnlineStudy.step')
    m = 8 if TIER == 'quick' else 48
    for cls, meth, args, kw, ref in c06.Q:
        if cls != 'OnlineStudy':
            continue
        f = ctx.method(cls, meth)
        S = sym('S')
        a = [c06.arg(x) for x in args]
        rc = ctx.code(f.qual, [S] + a, {x: sym(x) for x in kw}, objcls={S: cls}, inline=[f.qual])
        rr = ctx.spec('query.' + ref, [S] + a + [sym(x) for x in kw])
        ws = c06.worlds('c16.%s' % meth, m, cls)
        ctx.equiv('%s' % meth, rc, rr, ws, site=f.qual, raises=False)
        for w in ws[::2]:
            w['S'].fields['storeHistory'] = False
        want = mk('attr', S, 'storeHistory')
        want = bnot(T.truth(want)) if meth in PAST else FALSE
        ctx.same('%s without history' % meth, rc.raisecond('PostProcessingError'), want, ws, None, f.qual)
