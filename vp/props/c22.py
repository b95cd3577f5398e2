import numpy as np
from .. import worlds as W, terms as T
from ..terms import mk, TRUE, FALSE, NONE, bnot, num, seq, string
from ..compare import SEED, TIER
from . import c02, c06, c07, c11, c12, c14, c18, fitcommon as F

RULE = ('the condition under which a method raises the documented error (disjunction of the path conditions of all '
        'reachable raise statements, as a value graph) equals the condition of the definition, for missing parts of the '
        'configuration, repeated names, misplaced and mis-ordered break-points, wrong numbers and sizes of priors, '
        'coinciding change-points, and unknown names and times in every query; no result is changed on these paths')
MIN = 150
sym = lambda n: mk('sym', n)
CE, PE = 'ConfigurationError', 'PostProcessingError'
NI = 'NotImplementedError'


def check(ctx):
    n = 6 if TIER == 'quick' else 24
    missing(ctx, n)
    wrappers(ctx, 2 * n)
    names(ctx, 2 * n)
    breaks(ctx, 3 * n)
    priors(ctx, n)
    overlap(ctx, 2 * n)
    parameters(ctx)
    queries(ctx, n)


def args(ctx, f, cls, **kw):
    return [kw[x.arg] if x.arg in kw else mk('cls', cls) if x.arg == 'H' else
            mk('cls', c11.CLS[x.arg]) if x.arg in c11.CLS else sym(x.arg) for x in ctx.func('scen.' + f).node.args.args]


def run(ctx, f, cls='HyperStudy', **kw):
    return ctx.code('scen.' + f, args(ctx, f, cls, **kw), opaque=['scen.law'])


def rejects(ctx, name, rc, want, ws, site, err=CE):
    """raises the error exactly if wanted, and no other one"""
    ctx.same(name + ': rejected', rc.raisecond(err), want, ws, None, site)
    rest = rc.raisecond()
    if rest is not rc.raisecond(err):
        ctx.same(name + ': otherwise accepted', rest, want, ws, None, site)


def some(i, tag, **kw):
    return W.inputs(i, SEED, key='c22' + tag, prior=['none', 'array', 'function'][i % 3], **kw)


def wrappers(ctx, n):
    """models around functions and distributions"""
    for cls, rc, rr, ws, site in c18.wrappers(ctx, n):
        ctx.same('%s is rejected' % cls, rc.raisecond(), rr.raisecond(), ws, None, site)
        first = 'fn' if cls == 'NumPy' else 'rv'
        rc = ctx.code('scen.wrapper', [mk('cls', cls), mk('concat', seq(sym(first)), sym('args')),
                                       mk('dict', string('priors'), sym('prior'))])
        ctx.same('%s with an unknown option is rejected' % cls, rc.raisecond(), TRUE, ws, None, site)


def missing(ctx, n):
    for cls, X, go in (('Study', NONE, 'fit'), ('Study', NONE, 'optimize'), ('HyperStudy', NONE, 'fit'),
                       ('ChangepointStudy', mk('cls', 'ChangePoint'), 'fit')):
        site = '%s.%s' % (cls, go)
        ws = []
        for i in range(n):
            w = some(i, site, this=cls, n=4 + i % 3, seg=1 + i % 2)
            w['v0'] = {'Study': 0.3 * (i + 1), 'HyperStudy': np.array([0.2, 0.7, 1.1][:1 + i % 3]),
                       'ChangepointStudy': 'all'}[cls]
            ws.append(W.world(**w))
        for parts in ('', 'd', 'o', 't', 'ot', 'dt', 'do', 'dot'):
            if parts == 'dot' and go == 'optimize':
                continue
            rc = run(ctx, 'bare', cls, X=X, parts=string(parts), go=string(go))
            rejects(ctx, '%s with %r' % (site, parts), rc, FALSE if parts == 'dot' else TRUE, ws, site)
            if parts == 'dot':
                continue
            rc = run(ctx, 'bare_state', cls, X=X, parts=string(parts), go=string(go))
            ctx.same('%s with %r: no results' % (site, parts), rc.retc,
                     ctx.spec('conf.none', [string(cls)]).retc, ws, bnot(rc.raisecond()), site)
    ws = []
    for i in range(n):
        w = some(i, 'online', this='OnlineStudy', n=4, seg=1)
        w['v0'], w['d'] = np.array([0.2, 0.7, 1.1][:1 + i % 3]), 1.5
        ws.append(W.world(**w))
    for parts in ('', 'o', 't', 'ot'):
        for how in ('add', 'set'):
            rc = run(ctx, 'bare_online', parts=string(parts), how=string(how), d=mk('ssym', 'd'))
            rejects(ctx, 'OnlineStudy.step with %r (%s)' % (parts, how), rc, FALSE if parts == 'ot' else TRUE, ws,
                    'OnlineStudy.step')


# all ways in which three names can coincide
PATTERNS = [('a', 'b', 'c'), ('a', 'a', 'c'), ('a', 'b', 'a'), ('b', 'a', 'a'), ('a', 'a', 'a'), ('ab', 'b', 'a')]


def names(ctx, n):
    def worlds(tag, cls, points=False):
        ws = []
        for i in range(n):
            w = some(i, tag, this=cls, n=4, seg=1)
            one = cls == 'Study'
            w['v0'], w['v1'] = (0.4, 0.9) if one else (np.array([0.2, 0.5]), np.array([0.3]))
            if points:
                w['v1'] = 1 if one else 'all'
            w['d'] = 1.5
            ws.append(W.world(**w))
        return ws
    cases = [('twice_named', 'Study', 'fit'), ('twice_named', 'Study', 'optimize'), ('twice_named', 'HyperStudy', 'fit'),
             ('twice_named_points', 'Study', 'fit'), ('twice_named_points', 'HyperStudy', 'fit'),
             ('twice_named_points', 'ChangepointStudy', 'fit'), ('twice_named_online', 'OnlineStudy', 'add'),
             ('twice_named_online', 'OnlineStudy', 'set')]
    for f, cls, how in cases:
        site = cls + '.' + ('step' if cls == 'OnlineStudy' else how)
        for pat in PATTERNS:
            bad = len(set(pat)) < 3
            if how == 'optimize' and not bad:
                continue
            rc = run(ctx, f, cls, d=mk('ssym', 'd'), go=string(how), how=string(how),
                     **{'n%d' % k: string(x) for k, x in enumerate(pat)})
            rejects(ctx, '%s (%s, %s) names %s' % (site, f, how, ' '.join(pat)), rc, TRUE if bad else FALSE,
                    worlds(f, cls, 'points' in f), site)


def breaks(ctx, n):
    vals = [(2, 5), (5, 2), (3, 3), (np.array([1, 4]), 5), (np.array([3, 6]), np.array([2, 7])), ('all', 2),
            (2, 'all'), ('all', 'all'), (4., np.array([4, 6])), (np.array([0]), np.array([1, 2])), (1.5, 1.25), (7, 6)]

    def worlds(tag):
        ws = []
        for i in range(n):
            v = vals[i % len(vals)]
            u = vals[(5 * i + 2) % len(vals)]
            ws.append(W.world(v0=v[0], v1=v[1], v2=u[1], name='t', **{'m%d' % j: W.model(
                'm%d' % j, cls=('GaussianRandomWalk', 'TransitionModel')) for j in range(4)}, **{'#name': i}))
        return ws
    site = 'SerialTransitionModel.__init__'
    om = {sym('m%d' % j): 'GaussianRandomWalk' for j in range(4)}
    for k in ('bb', 'bc', 'cb', 'cc'):
        rc = ctx.code('scen.serial_new', args(ctx, 'serial_new', '', kinds=string(k)), objcls=om)
        rejects(ctx, 'order of break-points (%s)' % k, rc,
                ctx.spec('conf.misordered', [sym('v0'), sym('v1')]).retc, worlds(k), site)
    rc = ctx.code('scen.serial_new3', args(ctx, 'serial_new3', ''), objcls=om)
    rejects(ctx, 'order of three break-points', rc,
            ctx.spec('conf.misordered3', [sym('v0'), sym('v1'), sym('v2')]).retc, worlds('3'), site)
    ws = [w for w in worlds('parts') if not isinstance(w['v0'], str) and np.ravel(w['v0'])[0] == 2]
    for order in ('m', 'mbm', 'mbmcm', 'mcm', 'mm', 'mb', 'mbmb', 'mmm', 'mbc', 'mmbm', 'b', 'mbmm', 'mcmb'):
        rc = ctx.code('scen.serial_parts', args(ctx, 'serial_parts', '', order=string(order)), objcls=om)
        bad = order.count('m') - 1 != len(order) - order.count('m')
        rejects(ctx, 'number of break-points (%s)' % order, rc, TRUE if bad else FALSE, ws, site)
    ws = worlds('alone')
    for cls in ('Study', 'HyperStudy', 'ChangepointStudy', 'OnlineStudy'):
        for how in ('set', 'setTM', 'setTransitionModel') + (('add',) if cls == 'OnlineStudy' else ()):
            rc = ctx.code('scen.break_alone', args(ctx, 'break_alone', cls, how=string(how)))
            rejects(ctx, 'break-point alone (%s.%s)' % (cls, how), rc, TRUE, ws, cls + '.setTransitionModel')
    for k in range(3):
        rc = ctx.code('scen.break_combined', args(ctx, 'break_combined', '', order=num(k)), objcls=om)
        rejects(ctx, 'break-point in combination (%d)' % k, rc, TRUE, ws, 'CombinedTransitionModel.__init__')


def priors(ctx, n):
    rc, rr = F.code(ctx, TRUE, FALSE), F.spec(ctx, TRUE, FALSE)
    for p in ('none', 'array', 'function', 'constant', 'sympy', 'badshape', 'badcount', 'badkind', 'free'):
        ctx.same('prior %s: rejected' % p, rc.raisecond(CE), rr.raisecond(), F.worlds('c22' + p, n, True, False, prior=p),
                 None, 'Study.fit')

    def worlds(tag, cls, count):
        ws = []
        for i in range(2 * n):
            r = W.rng(SEED, 'c22', tag, i)
            w = some(i, tag, this=cls, n=4, seg=1)
            bad = count != 2
            for j in range(3):
                v = [np.array([0.2, 0.5]), np.array([0.3]), np.array([0.1, 0.2, 0.4])][(i + j) % 3]
                w['v%d' % j] = v
                k = ['none', 'array', 'function', 'wrong', 'none', 'array'][(i + 3 * j) % 6]
                w['p%d' % j] = r.uniform(0.1, 1, len(v) + [1, -1][i % 2]) if k == 'wrong' else \
                    c11.prior(r, k, '%s%d.%d' % (tag, i, j), v)
                if k == 'wrong' and j < 2:
                    bad = True
            w['bad'] = bad
            ws.append(W.world(**w))
        return ws
    for count in (1, 2, 3, 0):
        p = mk('tuple', *[sym('p%d' % j) for j in range(count)]) if False else seq(*[sym('p%d' % j) for j in range(count)])
        for f, cls in (('priors_fit', 'HyperStudy'), ('priors_online', 'OnlineStudy')):
            rc = run(ctx, f, cls, p=p, X=NONE)
            rejects(ctx, '%s: %d hyper-priors for two hyper-parameters' % (cls, count), rc,
                    TRUE if count != 2 else sym('bad'), worlds('%s%d' % (f, count), cls, count), cls)
    ws = worlds('pp', 'ChangepointStudy', 2)
    for i, w in enumerate(ws):
        w['v0'] = ['all', np.array([0, 2])][i % 2]
        k = 3 if i % 2 == 0 else 2
        w['p0'] = None if i % 3 == 0 else np.ones(k + (i % 3 == 2)) / 3.
        w['ts'] = None
        w['bad'] = i % 3 == 2 or w['p1'] is not None and isinstance(w['p1'], np.ndarray) and len(w['p1']) != len(w['v1'])
    rc = run(ctx, 'priors_points', 'ChangepointStudy')
    rejects(ctx, 'ChangepointStudy: size of hyper-priors', rc, sym('bad'), ws, 'ChangepointStudy.fit')
    ws = []
    for i in range(8):
        tp = [[0.5, 0.5], np.array([0.2, 0.3]), [1.], [0.2, 0.3, 0.5], np.array([]), 0.5, (0.1, 0.9), np.ones(4)][i]
        ws.append(W.world(tp=tp, v0=np.array([0.1, 0.4]), bad=i not in (0, 1, 6), m0=None, m1=None, **{'#name': i}))
    rc = run(ctx, 'model_prior', 'OnlineStudy')
    rejects(ctx, 'number of model probabilities', rc, sym('bad'), ws, 'OnlineStudy.setTransitionModelPrior')


def overlap(ctx, n):
    vals = [(np.array([0, 1]), np.array([2, 3])), (np.array([0, 1]), np.array([1, 3])), (1, 2), (2, 2), ('all', 1),
            (0, np.array([1, 2])), (1, np.array([2, 1])), (np.array([0, 1, 2]), 3), ('all', 'all'), (np.array([0]), np.array([0]))]

    def worlds(tag, cls, serial):
        ws = []
        for i in range(n):
            v = vals[i % len(vals)]
            w = some(i, tag, this=cls, n=6, seg=1)
            w['ts'] = None
            st = np.arange(5)
            a, b = [st if isinstance(x, str) else np.ravel(x) for x in v]
            bad = len(set(a) & set(b)) > 0
            if serial and not any(isinstance(x, str) for x in v):
                bad = bad or not a[0] < b[0]
            w.update(v0=v[0], v1=v[1], bad=bad)
            ws.append(W.world(**w))
        return ws
    rc = run(ctx, 'overlap_combined')
    rejects(ctx, 'coinciding change-points', rc, sym('bad'), worlds('oc', 'HyperStudy', False), 'HyperStudy.fit')
    for k in ('bb', 'cb'):
        rc = run(ctx, 'overlap_serial', kinds=string(k))
        rejects(ctx, 'coinciding break-points (%s)' % k, rc, sym('bad'), worlds('os' + k, 'HyperStudy', True), 'HyperStudy.fit')
    rc = run(ctx, 'no_points', 'ChangepointStudy')
    ws = worlds('np', 'ChangepointStudy', False)
    rejects(ctx, 'no change-point', rc, TRUE, ws, 'ChangepointStudy.fit')


def parameters(ctx):
    ws = []
    for i, d in enumerate([np.array([1., 2.]), [1., 2.], (1., 2.), 'data', 3., None, np.array([[1, 2], [3, 4]])]):
        ws.append(W.world(data=d, ts=None, bad=i in (2, 3, 4, 5), **{'#name': i}))
    rc = run(ctx, 'load_only', 'Study')
    rejects(ctx, 'type of data', rc, sym('bad'), ws, 'Study.loadData')


SLOT = ('name', 'hname', 'hname2', 't', 'tt', 'ts')


def queries(ctx, n):
    for cls, meth, f in c02.queries(ctx):
        if not f:
            continue
        S = sym('S')
        a = c02.argsfor(cls, f)
        rc = ctx.code(f.qual, [S] + a, objcls={S: cls}, inline=[f.qual])
        if rc.raisecond(NI) is TRUE:
            continue
        used = set()
        for x in a:
            used |= {y.args[0] for y in ([x] if x.op == 'sym' else x.args) if getattr(y, 'op', '') == 'sym'}
        for what in ['valid'] + [u for u in SLOT if u in used]:
            ws = c06.worlds('c22.%s.%s' % (cls, meth), n, cls)
            for i, w in enumerate(ws):
                w.update(plot=bool(i % 2), silent=True, color='b', gamma=0.5)
                w['S'].fields['observationModel'].fields['segmentLength'] = 1
                ts = list(w['S'].fields['formattedTimestamps'])
                if meth == 'getHyperParameterValue':
                    own = w['S'].fields['transitionModel'].fields['hyperParameterNames']
                    w['hname'] = own[i % len(own)]
                if what in ('name', 'hname', 'hname2'):
                    w[what] = ['other', '', 'avg'][i % 3]
                elif what in ('t', 'tt', 'ts'):
                    w[what] = [max(ts) + 1, min(ts) - 1, ts[0] + 0.5][i % 3]
            ctx.same('%s.%s %s' % (cls, meth, what), rc.raisecond(PE) if what != 'valid' else rc.raisecond(),
                     FALSE if what == 'valid' else TRUE, ws, None, f.qual)
