import numpy as np
from .. import worlds as W, terms as T
from ..terms import mk, TRUE, FALSE, NONE, string
from ..compare import TIER, SEED
from ..evalt import same, Obj
from . import c06

RULE = ('result, stored state, exceptions, printed and drawn output of every short-hand method, as value graphs with '
        'all arguments free (and once with all defaults), are the same graphs as those of the full method')
MIN = 100
sym = lambda n: mk('sym', n)

# class, short, full, positional, keyword
PAIRS = [
    ('Study', 'load', 'loadData', ['data'], ['timestamps', 'silent']),
    ('Study', 'setOM', 'setObservationModel', ['om'], ['silent']),
    ('Study', 'setTM', 'setTransitionModel', ['tm'], ['silent']),
    ('Study', 'getPD', 'getParameterDistribution', ['t', 'name'], ['plot', 'density', 'color', 'lw']),
    ('Study', 'getPDs', 'getParameterDistributions', ['name'], ['plot', 'density', 'color']),
    ('HyperStudy', 'getHPD', 'getHyperParameterDistribution', ['hname'], ['plot', 'color', 'lw']),
    ('HyperStudy', 'getJHPD', 'getJointHyperParameterDistribution', ['names'], ['plot', 'figure', 'subplot', 'color']),
    ('ChangepointStudy', 'getDD', 'getDurationDistribution', ['names'], ['plot', 'color', 'lw']),
    ('OnlineStudy', 'addTM', 'addTransitionModel', ['tname', 'tm'], []),
    ('OnlineStudy', 'add', 'addTransitionModel', ['tname', 'tm'], []),
    ('OnlineStudy', 'getPD', 'getParameterDistribution', ['t', 'name'], ['plot', 'density', 'color', 'lw']),
    ('OnlineStudy', 'getPDs', 'getParameterDistributions', ['name'], ['plot', 'density', 'color']),
    ('OnlineStudy', 'getCPD', 'getCurrentParameterDistribution', ['name'], ['plot', 'density', 'color']),
    ('OnlineStudy', 'getHPD', 'getHyperParameterDistribution', ['t', 'hname'], ['plot', 'color']),
    ('OnlineStudy', 'getCHPD', 'getCurrentHyperParameterDistribution', ['hname'], ['plot', 'color']),
    ('OnlineStudy', 'getHPDs', 'getHyperParameterDistributions', ['hname'], []),
    ('OnlineStudy', 'getCTMD', 'getCurrentTransitionModelDistribution', [], ['local']),
    ('OnlineStudy', 'getCTMP', 'getCurrentTransitionModelProbability', ['tname'], ['local']),
    ('OnlineStudy', 'getTMPs', 'getTransitionModelProbabilities', ['tname'], ['local']),
]
SCEN = [
    ('Study', 'set_short', 'set_both', ['om', 'tm', 'silent']),
    ('Study', 'set_reverse', 'set_reverse_full', ['om', 'tm', 'silent']),
    ('Study', 'set_default', 'set_default_full', ['om', 'tm']),
    ('Study', 'plot_time', 'plot_time_full', ['name', 't', 'density', 'plot', 'color']),
    ('Study', 'plot_time_default', 'plot_time_default_full', ['name', 't']),
    ('Study', 'plot_evolution', 'plot_evolution_full', ['name', 'color', 'gamma', 'lw']),
    ('Study', 'plot_evolution_default', 'plot_evolution_default_full', ['name']),
    ('HyperStudy', 'plot_time', 'plot_time_full', ['name', 't', 'density', 'plot', 'color']),
    ('HyperStudy', 'plot_time_default', 'plot_time_default_full', ['name', 't']),
    ('HyperStudy', 'plot_evolution', 'plot_evolution_full', ['name', 'color', 'gamma', 'lw']),
    ('HyperStudy', 'plot_evolution_default', 'plot_evolution_default_full', ['name']),
    ('HyperStudy', 'plot_hyper', 'plot_hyper_full', ['hname', 'color']),
    ('OnlineStudy', 'plot_time', 'plot_time_full', ['name', 't', 'density', 'plot', 'color']),
    ('OnlineStudy', 'plot_time_default', 'plot_time_default_full', ['name', 't']),
    ('OnlineStudy', 'plot_evolution', 'plot_evolution_full', ['name', 'color', 'gamma', 'lw']),
    ('OnlineStudy', 'plot_evolution_default', 'plot_evolution_default_full', ['name']),
    ('OnlineStudy', 'online_plot_hyper_evolution', 'online_plot_hyper_evolution_full', ['hname', 'color', 'gamma']),
    ('OnlineStudy', 'online_plot_hyper_time', 'online_plot_hyper_time_full', ['hname', 't', 'color']),
    ('OnlineStudy-', 'online_plot_current', 'online_plot_current_full', ['name', 'density', 'color']),
    ('OnlineStudy-', 'online_plot_hyper_current', 'online_plot_hyper_current_full', ['hname', 'color']),
]


def worlds(tag, n, cls):
    out = c06.worlds('c20' + tag, n, cls.rstrip('-'))
    for i, w in enumerate(out):
        x = W.inputs(i, SEED, key='c20')
        w.update(om=x['om'], tm=x['tm'], data=x['data'], timestamps=x['ts'], silent=bool(i % 3 % 2), plot=bool(i // 2 % 2),
                 color='rgb'[i % 3], lw=1.5 + i, gamma=0.25 + 0.1 * i, figure=None if i % 2 else 'fig', subplot=111 + i)
        w['om'].cls = ('ObservationModel',)
        if cls == 'OnlineStudy-':
            w['S'].fields['storeHistory'] = False
    return out


def trace(r, kinds):
    ts = []
    for e in r.events:
        if e.kind in kinds:
            t = T.ite(e.pc, mk('seq', string(e.what), *e.args), NONE)
            if any(x.op in ('ix', 'mu') for x in T.subterms(t)):
                t = mk('seq', string(e.what), string('in a loop'))
            ts.append(t)
    return mk('seq', *ts)


def traceeq(x, y):
    f = lambda v: [e for e in v if e is not None]
    return same(f(x), f(y))


def both(ctx, name, a, b, ws, site, syms):
    """a: short-hand, b: full method"""
    nothing = a.state is None and b.state is None
    ctx.same(name + ': result', a.retc, b.retc, ws, None if b.raisecond() is FALSE else T.bnot(b.raisecond()), site)
    ctx.same(name + ': rejection', a.raisecond(), b.raisecond(), ws, None, site)
    if not nothing and a.state is not None and b.state is not None:
        keys = {k for r in (a, b) for k in r.state.attrs if k[0] in syms}
        guard = T.bnot(b.raisecond())
        st = [mk('seq', *[r.field(*k) for k in sorted(keys, key=str)]) for r in (a, b)]
        ctx.same(name + ': state', st[0], st[1], ws, None if guard is TRUE else guard, site)
    ctx.same(name + ': output', trace(a, ('plot', 'print', 'progress', 'warn')),
             trace(b, ('plot', 'print', 'progress', 'warn')), ws, None, site, eq=traceeq)


def check(ctx):
    n = 12 if TIER == 'quick' else 72
    S = sym('S')
    syms = {S, sym('om'), sym('tm')}
    arg = c06.arg
    for cls, short, full, args, kw in PAIRS:
        f, g = ctx.method(cls, short), ctx.method(cls, full)
        ws = worlds(short, n, cls)
        for what, k in (('all arguments', {x: sym(x) for x in kw}), ('defaults', {})) + tuple(
                ('only ' + x, {x: sym(x)}) for x in kw if len(kw) > 1):
            r = [ctx.code(m.qual, [S] + [arg(x) for x in args], k, objcls={S: cls}, inline=[m.qual],
                      opaque=['helper.createColormap']) for m in (f, g)]
            both(ctx, '%s.%s (%s)' % (cls, short, what), r[0], r[1], ws, f.qual, syms)
    for cls, short, full, args in SCEN:
        c = cls.rstrip('-')
        name = 'set' if short.startswith('set') else 'plot'
        m = ctx.method(c, name)
        ws = worlds(short, n, cls)

        def setup(I):
            if cls == 'OnlineStudy-':
                I.st.attrs[(S, 'storeHistory')] = FALSE
            elif cls == 'OnlineStudy':
                I.st.attrs[(S, 'storeHistory')] = TRUE
        r = [ctx.code('scen.' + m_, [S] + [sym(x) for x in args], objcls={S: c, sym('om'): 'Poisson', sym('tm'): 'Static'},
                      setup=setup, opaque=['helper.createColormap']) for m_ in (short, full)]
        both(ctx, '%s.%s (%s)' % (c, name, short), r[0], r[1], ws, m.qual, syms)
    # eval
    f = ctx.method('Study', 'eval')
    ctx.method('Parser', '__call__')
    a = [sym(x) for x in ('query', 't', 'silent')]
    P = ctx.method('Parser', '__call__').qual
    for cls in ('Study', 'HyperStudy', 'OnlineStudy'):
        f = ctx.method(cls, 'eval')
        ra = ctx.code(f.qual, [S] + a, objcls={S: cls}, inline=[f.qual], opaque=[P])
        rb = ctx.code('scen.eval_full', [mk('cls', 'Parser'), S] + a, objcls={S: cls}, opaque=[P])
        both(ctx, '%s.eval' % cls, ra, rb, worlds('eval', 4, cls), f.qual, syms)
