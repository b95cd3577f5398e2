import numpy as np
from .. import worlds as W, terms as T
from ..terms import mk, TRUE, FALSE, NONE, num, string
from ..compare import TIER, SEED

RULE = ('value graph of the result of an expression query (constructor of the parser, grammar tables, evaluation and '
        'combination of distributions inlined; parameter values, grids and distributions free) equals the total probability '
        'of the combinations that satisfy the relation, or the binned distribution of the expression, for a catalogue of '
        'expressions over the parameters and hyper-parameters of one and two studies of every kind; missing time stamps, '
        'repeated names and malformed queries raise')
MIN = 100
sym = lambda n: mk('sym', n)
STAMPS = [2, 0.5, 3, 1]

ONE = ['a > 1', 'a + b >= 2.5', 'a*b < 2', 'a - b - 1 <= 0.5', 'a/b == 2', '2*a^2 - b > 3', '3 - a - b < 0.5',
       '1.5 <= a*(b+1)/2', 'log(a) + sqrt(b)*2 > 2', '-a > -1.5', 'a > b', 'exp(a-b)/2 > b', 'b/a/2 < 0.5', '2^b^2 > 5',
       '-a^2 < -2', 'a - b*2 + 1 >= 0', 'a < b^2 - 0.5', 'a == b', 'abs(a-2) >= b', 'b==1.5', '2*b>=a+1', 'a-b>1-b/2',
       'a*2/b*3 > 7', 'sqrt(abs(a - b)) <= 1']
# the same with time stamps in the query
AT = ['a@{t} > 1', 'a@{t} + b@{t} >= 2.5', 'a@{t}*b@{t} < 2', 'a@{t} - b@{t} - 1 <= 0.5', None, '2*a@{t}^2 - b@{t} > 3',
      None, '1.5 <= a@{t}*(b@{t}+1)/2', 'log(a@{t}) + sqrt(b@{t})*2 > 2', '-a@{t} > -1.5', 'a@{t} > b@{t}']
HYPER = [0, 1, 2, 5, 9, 10, 11, 17, 19]
APART = ['x > y', 'x*y > 2', 'y - x <= 0.5', 'x/2 + y^2 >= 3', 'sqrt(x)*2 - y < 1', '2*x - 1 == y', 'x + y > 2.5']
DERIVED = ['a', 'a*b', 'a - b - 1', 'log(a - 0.5)*2', 'log(b)', '-a']
BAD = [('a > 1', None, 'no time stamp'), ('a + b > 1', None, 'no time stamp'), ('a*2 > 1', None, 'no time stamp'),
       ('a/b@3 > 1', None, 'one time stamp missing'), ('a@3 + b > 1', None, 'one time stamp missing'),
       ('b < a@3', None, 'time stamp missing on the right'), ('log(a)', None, 'function without time stamp'),
       ('a > b > 1', 3, 'two relations'), ('1 < a < 2', 3, 'two relations'), ('a =< 1', 3, 'misspelt relation'),
       ('a => 1', 3, 'misspelt relation'), ('a == 1 == b', 3, 'two relations'), ('a + > 1', 3, 'missing operand'),
       ('(a + b > 1', 3, 'unbalanced'), ('a + b) > 1', 3, 'unbalanced'), ('a b > 1', 3, 'missing operator'),
       ('a % 2 > 1', 3, 'unknown operator'), ('z > 1', 3, 'unknown name'), ('> 1', 3, 'nothing to compare'),
       ('a >', 3, 'nothing to compare')]
BADTIME = [('a > 1', 7, 'unknown time'), ('a@7 > 1', None, 'unknown time'), ('a@3 > b@7', None, 'unknown time')]


def values(r, n):
    return np.cumsum(r.choice([0.5, 0.5, 1.0], n))


def dist(r, *shape):
    p = r.uniform(0.05, 1, shape)
    return p / p.sum()


def worlds(n):
    out = []
    for i in range(n):
        r = W.rng(SEED, 'c23', i)
        na, nb, nc, nh, nk = 3 + i % 3, 2 + i % 2, 2 + (i // 2) % 3, 3, 2 + i % 2
        a, b = np.meshgrid(values(r, na), values(r, nb), indexing='ij')
        w = dict(G0=a, G1=b, P=np.array([dist(r, na, nb) for _ in STAMPS]), G2=values(r, nc),
                 Q=np.array([dist(r, nc) for _ in STAMPS]))
        for k in range(3):
            w['hs%d' % k], w['hu%d' % k] = float(r.choice([0.5, 1, 1.5, 2])), float(r.choice([0.5, 1, 1.5, 2]))
            w['hv%d' % k] = float(r.choice([0.5, 1, 1.5, 2]))
        for j in range(len(STAMPS)):
            for k in range(3):
                w['d%d_%d' % (j, k)] = float(r.uniform(0.1, 2))
                w['e%d_%d' % (j, k)] = float(r.uniform(0.1, 2))
        out.append(W.world(**w, **{'#name': i}))
    return out


def stamps(l=STAMPS):
    return T.seq(*[num(x) for x in l])


GRID = T.seq(sym('G0'), sym('G1'))
GRID2 = T.seq(sym('G2'))
VAL = T.seq(*[T.seq(mk('ssym', 'hs%d' % k), mk('ssym', 'hu%d' % k)) for k in range(3)])
VAL2 = T.seq(*[T.seq(mk('ssym', 'hv%d' % k)) for k in range(3)])
DIST = [T.seq(*[mk('ssym', 'd%d_%d' % (j, k)) for k in range(3)]) for j in range(len(STAMPS))]
DIST2 = [T.seq(*[mk('ssym', 'e%d_%d' % (j, k)) for k in range(3)]) for j in range(len(STAMPS))]
CLS = lambda n: mk('cls', n)


def check(ctx):
    n = 8 if TIER == 'quick' else 60
    ws = worlds(n)
    ctx.method('Parser', '__call__')
    st = stamps()
    tm = lambda t: NONE if t is None else num(t)
    site = 'Parser.__call__'
    base = [sym('M'), GRID, sym('P'), st]

    def same(name, rc, ref, args):
        ctx.equiv(name, rc, ctx.spec('expr.' + ref, args), ws, site=site)

    def one(q, t, cls='Study'):
        return ctx.code('scen.ask_one', [CLS(cls), CLS('Parser')] + base + [string(q), tm(t)])
    for k, q in enumerate(ONE):
        t = STAMPS[k % 4]
        same('%s at t=%s' % (q, t), one(q, t), 'joint', [GRID, sym('P'), num(k % 4), num(k)])
    for k, q in enumerate(AT):
        if q is not None:
            t = STAMPS[(k + 1) % 4]
            q = q.format(t=t)
            same(q, one(q, None), 'joint', [GRID, sym('P'), num((k + 1) % 4), num(k)])
    # one parameter or two parameters at different times: independent
    for k, q in enumerate(APART):
        for x, y in (('a', 'a'), ('a', 'b'), ('b', 'a')):
            if (x, y) != ('a', 'a') and k > 3:
                continue
            i, j = k % 4, (k + 1 + k // 2) % 4
            if i == j:
                j = (j + 1) % 4
            s = q.replace('x', x + '@%s' % STAMPS[i], 1) if 'sqrt' not in q else q.replace('(x)', '(%s@%s)' % (x, STAMPS[i]))
            s = s.replace('y', y + '@%s' % STAMPS[j])
            gx, gy = sym('G0' if x == 'a' else 'G1'), sym('G0' if y == 'a' else 'G1')
            same(s, one(s, None), 'separate', [gx, sym('P'), num(i), gy, sym('P'), num(j), num(k)])
    # three and four quantities
    for q, ref, ix in (('a@2*b@3 - a@1 > 0.5', 'three', (0, 0, 1, 2, 0, 3)), ('b@1*a@0.5 - a@3 > 0.5', 'three', (1, 3, 0, 1, 0, 2)),
                       ('(a@2*b@3) - (b@1 + a@0.5) > 0', 'four', (0, 0, 1, 2, 1, 3, 0, 1)),
                       ('(a@2*a@0.5) - (a@1 + a@3) > 0', 'four', (0, 0, 0, 1, 0, 3, 0, 2))):
        same(q, one(q, None), ref, [x for g, k in zip(ix[::2], ix[1::2]) for x in (sym('G%d' % g), sym('P'), num(k))])
    # a parameter that occurs again after a combination of independent quantities
    for q, i, j in (('a@2*a@3 > a@2 + 0.5', 0, 2), ('a@3*a@2 > a@3 + 0.5', 2, 0)):
        same('recurring: ' + q, one(q, None), 'again', [sym('G0'), sym('P'), num(i), num(j)])
    # two studies with their own time stamps
    other = [1, 3, 0.5, 2]
    for k, q in enumerate(APART):
        for x, y, t in (('b', 'c', 0.5), ('c', 'a', None), ('c', 'b', 2)):
            if t is None:
                q2 = q.replace('y', y + '@3').replace('(x)', '(%s@1)' % x) if 'sqrt' in q else \
                    q.replace('y', y + '@3').replace('x', x + '@1', 1)
                tx = ty = None
            else:
                q2 = q.replace('y', y).replace('(x)', '(%s)' % x) if 'sqrt' in q else q.replace('y', y).replace('x', x, 1)
            rc = ctx.code('scen.ask_two', [CLS('Study'), CLS('Parser'), sym('M'), sym('M2'), GRID, sym('P'), st, GRID2, sym('Q'),
                                           stamps(other), string(q2), tm(t)])
            val = {'a': (sym('G0'), sym('P'), STAMPS), 'b': (sym('G1'), sym('P'), STAMPS), 'c': (sym('G2'), sym('Q'), other)}
            (gx, px, sx), (gy, py, sy) = val[x], val[y]
            same('two studies: %s at t=%s' % (q2, t), rc, 'separate',
                 [gx, px, num(sx.index(1 if t is None else t)), gy, py, num(sy.index(3 if t is None else t)), num(k)])
    rc = ctx.code('scen.ask_two', [CLS('Study'), CLS('Parser'), sym('M'), sym('M2'), GRID, sym('P'), st, GRID2, sym('Q'),
                                   stamps(other), string('a + b >= 2.5'), num(3)])
    same('two studies: joint parameters of one', rc, 'joint', [GRID, sym('P'), num(2), num(1)])
    # distribution of an expression
    for k, q in enumerate(DERIVED):
        rc, rr = one(q, STAMPS[k % 4]), ctx.spec('expr.spread', [GRID, sym('P'), num(k % 4), num(k)])
        for j, what in enumerate(('values', 'probabilities')):
            ctx.same('distribution of %s: %s' % (q, what), T.idx(rc.retc, num(j)) if rc.retc is not None else None,
                     T.idx(rr.retc, num(j)), ws, None, site)
        ctx.same('distribution of %s rejection' % q, rc.raisecond(), FALSE, ws, None, site)
    # hyper-parameters
    for cls, scen, K, G in (('HyperStudy', 'ask_hyper', 'CombinedTransitionModel', 'GaussianRandomWalk'),
                            ('ChangepointStudy', 'ask_change', 'CombinedTransitionModel', 'ChangePoint')):
        def hyper(q, t):
            return ctx.code('scen.' + scen, [CLS(cls), CLS('Parser'), CLS(K), CLS(G)] + base +
                            [VAL, DIST[0], string(q), tm(t)])
        for k in HYPER if cls == 'HyperStudy' else HYPER[:5]:
            q = name(ONE[k], {'a': 's', 'b': 'u'})
            same('%s: %s' % (cls, q), hyper(q, None if k % 2 else 3), 'hyper', [VAL, DIST[0], num(k)])
        for k, q in enumerate(APART[:4]):
            q = name(q, {'x': 'u', 'y': 'b'})
            same('%s: %s' % (cls, q), hyper(q, 3), 'hyper_parameter',
                 [VAL, num(1), DIST[0], sym('G1'), sym('P'), num(2), num(k)])
        q = name(ONE[1], {})
        same('%s: %s' % (cls, q), hyper(q, 3), 'joint', [GRID, sym('P'), num(2), num(1)])
    # hyper-parameters of an online study
    def online(q, t, history=TRUE):
        return ctx.code('scen.ask_online', [CLS('OnlineStudy'), CLS('Parser'), CLS('CombinedTransitionModel'),
                                            CLS('GaussianRandomWalk')] + base +
                        [history, VAL, T.seq(*DIST), VAL2, T.seq(*DIST2), string(q), tm(t)])
    for k in (0, 1, 2, 10):
        q = name(ONE[k], {'a': 's', 'b': 'u'})
        same('OnlineStudy: %s at t=0.5' % q, online(q, 0.5), 'hyper', [VAL, DIST[1], num(k)])
        same('OnlineStudy without history: ' + q, online(q, None, FALSE), 'hyper', [VAL, DIST[-1], num(k)])
    for k, q in enumerate(APART[:4]):
        q1 = name(q, {'x': 's@3', 'y': 's@1'})
        same('OnlineStudy: ' + q1, online(q1, None), 'hyper_apart', [VAL, num(0), DIST[2], VAL, num(0), DIST[3], num(k)])
        q1 = name(q, {'x': 'u@0.5', 'y': 's@2'})
        same('OnlineStudy: ' + q1, online(q1, None), 'hyper_apart', [VAL, num(1), DIST[1], VAL, num(0), DIST[0], num(k)])
        q1 = name(q, {'x': 'v@2', 'y': 's@0.5'})
        same('OnlineStudy: models ' + q1, online(q1, None), 'hyper_apart',
             [VAL2, num(0), DIST2[0], VAL, num(0), DIST[1], num(k)])
        q1 = name(q, {'x': 'v', 'y': 'u'})
        same('OnlineStudy: models %s at t=3' % q1, online(q1, 3), 'hyper_apart',
             [VAL2, num(0), DIST2[2], VAL, num(1), DIST[2], num(k)])
        q1 = name(q, {'x': 'v', 'y': 'b'})
        same('OnlineStudy: %s at t=3' % q1, online(q1, 3), 'hyper_parameter',
             [VAL2, num(0), DIST2[2], sym('G1'), sym('P'), num(2), num(k)])
    same('OnlineStudy: a*b < 2 at t=2', online('a*b < 2', 2), 'joint', [GRID, sym('P'), num(0), num(2)])
    same('OnlineStudy without history: a*b < 2', online('a*b < 2', None, FALSE), 'joint', [GRID, sym('P'), num(3), num(2)])
    # a parser is used repeatedly; short form
    for first, q, k in (('a@3 > 1', 'a*b < 2', 2), ('a*b', 'a > b', 10)):
        rc = ctx.code('scen.ask_twice', [CLS('Study'), CLS('Parser')] + base + [string(first), num(3), string(q), num(1)]) \
            if '@' not in first else \
            ctx.code('scen.ask_twice', [CLS('Study'), CLS('Parser')] + base + [string(first), NONE, string(q), num(1)])
        same('second query %s' % q, rc, 'joint', [GRID, sym('P'), num(3), num(k)])
    rc = ctx.code('scen.ask_eval', [CLS('Study')] + base + [string(ONE[2]), num(3)])
    same('Study.eval', rc, 'joint', [GRID, sym('P'), num(2), num(2)])
    # rejected
    for q, t, why in BAD:
        ctx.same('%s: %s at t=%s' % (why, q, t), one(q, t).raisecond(), TRUE, ws, None, site)
    for q, t, why in BADTIME:
        rc = ctx.code('scen.ask_missing', [CLS('Study'), CLS('Parser')] + base + [string(q), tm(t)])
        ctx.same('%s: %s at t=%s' % (why, q, t), rc.raisecond(), TRUE, ws, None, site)
    for q in ('s > 1', 's*2 > 1', 's@3 > u', 's + u@3 > 1'):
        rc = online(q, None)
        ctx.same('no time stamp: hyper-parameter of an online study: ' + q, rc.raisecond(), TRUE, ws, None, site)
    for nm, bad in (('a', TRUE), ('b', TRUE), ('c', FALSE)):
        rc = ctx.code('scen.ask_names', [CLS('Study'), CLS('Parser'), sym('M'), sym('M2'), GRID, sym('P'), st, string(nm)])
        ctx.same('names a, b and ' + nm, rc.raisecond(), bad, ws, None, 'Parser.__init__')
    ctx.same('no study', ctx.code('scen.ask_nothing', [CLS('Parser')]).raisecond(), TRUE, ws, None, 'Parser.__init__')


def name(q, m):
    out = ''
    i = 0
    import re
    return re.sub(r'(?<![A-Za-z])([abxy])(?![A-Za-z(])', lambda g: m.get(g.group(1), g.group(1)), q)
