"""Checks: contexts, obligations, evidence, verdicts."""
import ast
import json
import os
import signal
import sys
import time
import traceback
from . import terms as T, model, drive, evalt
from .terms import mk, TRUE, FALSE, bnot
from .compare import compare, Outcome, SEED, TIER

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VP_REPO', '/repo')


class Broken(Exception):
    """the analysis cannot be carried out (vanished anchor, syntax error)"""


class Late(BaseException):
    """an interpretation or comparison takes too long: undecided"""


LIMIT = float(os.environ.get('VP_LIMIT', '760'))


class watch(object):
    """time limit for one interpretation or comparison, and for all of a check"""
    hit = 0

    def __init__(self, t0, secs):
        # shorter limits once one has been exceeded, such that the other obligations are still reached
        self.secs = min(secs / 4 ** min(watch.hit, 2), LIMIT - (time.time() - t0))

    def __enter__(self):
        if self.secs <= 1:
            raise Late('time limit of the check')

        def late(*a):
            watch.hit += 1
            raise Late('more than %d s' % self.secs)
        self.old = signal.signal(signal.SIGALRM, late)
        signal.alarm(int(self.secs))

    def __exit__(self, *a):
        signal.alarm(0)
        signal.signal(signal.SIGALRM, self.old)


class Ctx(object):
    def __init__(self, prop):
        self.prop = prop
        self.t0 = time.time()
        try:
            self.repo = model.load_dir(os.path.join(REPO, 'bayesloop'), 'bayesloop',
                                       extra=[os.path.join(HERE, 'vp', 'scen', 'scen.py')])
        except SyntaxError as e:
            raise Broken('cannot parse: %s' % e)
        for c in self.repo.classes:
            f = self.repo.method(c, '__str__')
            b = f.node.body[-1] if f is not None else None
            if isinstance(b, ast.Return) and isinstance(b.value, ast.Constant):
                evalt.STR[c] = b.value.value
        self.ref = model.load_dir(os.path.join(HERE, 'vp', 'ref'), 'ref')
        self.outcomes = []
        self.violations = []      # (key, text)
        self.analysed = set()
        self.sites = 0
        self.rules = {}
        self.unknown = {}
        self.notes = []

    # ------------------------------------------------------------------------------------------------ sides
    def method(self, cls, name):
        if cls not in self.repo.classes:
            raise Broken('class %s not found' % cls)
        f = self.repo.method(cls, name)
        if f is None:
            raise Broken('method %s.%s not found' % (cls, name))
        return f

    def func(self, qual):
        if qual not in self.repo.funcs:
            raise Broken('function %s not found' % qual)
        return self.repo.funcs[qual]

    def code(self, qual, args, kwargs=None, objcls=None, inline=(), setup=None, opaque=(), modular=None):
        I = drive.start(self.repo, opaque=opaque, modular=modular)
        for o, c in (objcls or {}).items():
            I.objcls[o] = c
        I.inline_ok = frozenset(inline)
        if setup:
            setup(I)
        try:
            with watch(self.t0, 300 if TIER == 'thorough' else 200):
                r = drive.run(I, qual, args, kwargs)
        except (Exception, Late) as e:
            if os.environ.get('VP_DEBUG'):
                raise
            # construct outside the interpreted subset: the obligations of this run stay undecided
            r = drive.Result()
            r.interp = I
            r.retc = mk('call', 'not analysed')
            r.ret = r.retc
            r.failed = True
            self.notes.append('%s: %s: %s' % (qual, type(e).__name__, e))
            self.unknown['%s in %s' % (type(e).__name__, qual)] = 1
        self.absorb(I)
        return r

    def absorb(self, I):
        self.analysed |= I.analysed
        self.sites += I.sites
        for k, v in I.unknown.items():
            self.unknown[k] = self.unknown.get(k, 0) + v

    def spec(self, qual, args, kwargs=None, setup=None, objcls=None, opaque=(), modular=None):
        I = drive.start(self.ref, opaque=opaque, modular=modular)
        for o, c in (objcls or {}).items():
            I.objcls[o] = c
        if setup:
            setup(I)
        r = drive.run(I, qual, args, kwargs)
        if I.unknown:
            self.notes.append('reference %s: %s' % (qual, I.unknown))
        return r

    # ------------------------------------------------------------------------------------------------ obligations
    def same(self, name, a, b, worlds, guard=None, site='', eq=None, force=False):
        if a is not None and a.op == 'call' and a.args[0] == 'not analysed' or a is None and b is not None:
            o = Outcome(name, site)
            o.status, o.detail = 'undecided', 'not analysed'
            self.outcomes.append(o)
            return o
        try:
            with watch(self.t0, 200):
                o = compare(name, a, b, worlds, guard, site, eq, force)
        except (Exception, Late) as e:
            if os.environ.get('VP_DEBUG'):
                raise
            o = Outcome(name, site)
            o.status, o.detail = 'undecided', '%s: %s' % (type(e).__name__, e)
        self.outcomes.append(o)
        if o.status == 'violated':
            self.violation(name, 'value graph of %s differs from its definition in valuation %s: code gives %s, '
                           'definition gives %s' % (site or name, o.detail['valuation'], o.detail['code'],
                                                    o.detail['expected']), site)
        return o

    def equiv(self, name, rc, rr, worlds, fields=(), obj=None, ret=True, raises=True, site=''):
        """compare the observables of a code run and a reference run"""
        guard = bnot(rr.raisecond())
        if guard is TRUE:
            guard = None
        if ret:
            self.same(name + ' result', rc.retc, rr.retc, worlds, guard, site)
        for f in fields:
            try:
                a = rc.field(obj, f) if rc.state is not None else None
                b = rr.field(obj, f) if rr.state is not None else None
            except KeyError:
                a = b = None
            self.same('%s .%s' % (name, f), a, b, worlds, guard, site)
        if raises:
            self.same(name + ' rejection', rc.raisecond(), rr.raisecond(), worlds, None, site)

    def rule(self, name, ok, text='', site=''):
        """a structural rule instance"""
        o = Outcome(name, site)
        o.status = 'proved' if ok else 'violated'
        self.outcomes.append(o)
        if not ok:
            self.violation(name, text, site)

    def violation(self, key, text, site=''):
        self.violations.append((key, text, site))


# ---------------------------------------------------------------------------------------------------- known findings
def known(prop):
    out = []
    p = os.path.join(HERE, 'known_findings.txt')
    if os.path.exists(p):
        for line in open(p):
            line = line.strip()
            if line.startswith('known: property=%s ' % prop):
                rest = line.split(' ', 2)[2]
                key, _, what = rest.partition(' :: ')
                out.append((key.strip(), what.strip()))
    return out


def main(argv):
    if len(argv) < 2 or argv[0] != 'check':
        print('usage: python -m vp check Cxx')
        return 2
    prop = argv[1]
    import importlib
    t0 = time.time()
    try:
        mod = importlib.import_module('vp.props.' + prop.lower())
        ctx = Ctx(prop)
        try:
            mod.check(ctx)
        except Broken:
            raise
        except (Exception, Late) as e:
            if os.environ.get('VP_DEBUG') or not any(o.status in ('proved', 'agree', 'violated') for o in ctx.outcomes):
                raise
            # construct outside the interpreted subset: the remaining obligations stay undecided
            ctx.unknown['analysis stopped: %s: %s' % (type(e).__name__, e)] = 1
            print('UNDECIDED property=%s analysis stopped after %d obligations: %s' % (prop, len(ctx.outcomes), e))
        else:
            if len(ctx.outcomes) < mod.MIN:
                raise Broken('only %d obligations (expected at least %d)' % (len(ctx.outcomes), mod.MIN))
    except Broken as e:
        print('ANALYSIS-BROKEN property=%s %s' % (prop, e))
        return 2
    kn = known(prop)
    real, used = [], []
    for key, text, site in ctx.violations:
        m = [k for k in kn if k[0] == key]
        if m:
            used.append(m[0])
        else:
            real.append((key, text, site))
    for k, what in dict.fromkeys(used):
        print('KNOWN-FINDING: property=%s %s: %s' % (prop, k, what))
    replay = os.path.join(HERE, 'evidence', '%s.violations.txt' % prop)
    os.makedirs(os.path.dirname(replay), exist_ok=True)
    if os.path.exists(replay):
        os.remove(replay)
    write_evidence(ctx, mod, real, used, time.time() - t0)
    st = {}
    for o in ctx.outcomes:
        st[o.status] = st.get(o.status, 0) + 1
    print('%s: %d obligations %s, %d functions analysed, %d statements, %.1f s' % (
        prop, len(ctx.outcomes), st, len(ctx.analysed), ctx.sites, time.time() - t0))
    if os.environ.get('VP_VERBOSE'):
        for o in ctx.outcomes:
            print('   ', o, dict(list(o.undef.items())[:3]) if o.undef else '')
        print('   unknown:', ctx.unknown, ctx.notes)
    if real:
        with open(replay, 'w') as f:
            for key, text, site in real:
                f.write('%s\n  at %s\n  %s\n' % (key, site, text))
        for key, text, site in real[:20]:
            print('  violated: %s [%s]\n    %s' % (key, site, text[:1200]))
        print('VIOLATION property=%s replay=%s' % (prop, replay))
        return 1
    return 0


def write_evidence(ctx, mod, real, used, wall):
    st = {}
    for o in ctx.outcomes:
        st[o.status] = st.get(o.status, 0) + 1
    cov = dict(
        programs=len(ctx.outcomes),
        disagreements_checked=sum(1 for o in ctx.outcomes if o.status != 'proved'),
        samples=[dict(obligation=o.name, site=o.site, verdict=o.status, valuations=o.worlds) for o in ctx.outcomes[:40]],
        explanation=mod.RULE,
        obligations=len(ctx.outcomes),
        discharged=st.get('proved', 0),
        equal_in_all_valuations=st.get('agree', 0),
        undecided=[dict(obligation=o.name, why=sorted(o.undef)[:3]) for o in ctx.outcomes if o.status == 'undecided'],
        functions_analysed=sorted(ctx.analysed),
        statements_analysed=ctx.sites,
        not_interpreted=ctx.unknown,
    )
    ev = dict(property=ctx.prop, tier='thorough' if TIER == 'thorough' else 'quick', seed=SEED,
              level=getattr(mod, 'LEVEL', 'translation_validation'), coverage=cov,
              assumptions=getattr(mod, 'ASSUME', []) + ASSUME, wall_s=round(wall, 3), violations=len(real))
    with open(os.path.join(HERE, 'evidence', ctx.prop + '.json'), 'w') as f:
        json.dump(ev, f, indent=1, default=str)


ASSUME = ['library functions (numpy, scipy, sympy, matplotlib, tqdm, pathos) behave as documented',
          'floating point arithmetic is treated as real arithmetic up to a relative tolerance of 1e-6',
          'no monkey-patching, no concurrent modification of a study by several threads']


def run():
    try:
        import resource
        resource.setrlimit(resource.RLIMIT_AS, (20 << 30, 20 << 30))
        sys.exit(main(sys.argv[1:]))
    except SystemExit:
        raise
    except BaseException:
        traceback.print_exc()
        sys.exit(3)
