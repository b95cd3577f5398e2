import ast
import re
from .. import terms as T, collect
from ..terms import mk
from ..compare import TIER

RULE = ('taint analysis: no result, stored attribute or branch condition in any analysed call sequence depends on a value of a '
        'non-deterministic source (random numbers, clock, environment, process, object identity, file order, completion order '
        'of parallel jobs); graphs that contain an unordered collection have the same value for every iteration order; '
        'functions outside these sequences contain no call of such a source')
MIN = 250
LEVEL = 'other'
TECH = 'static taint analysis of non-deterministic sources over value graphs, with a call-site sweep of the rest'
MODS = ['c04', 'c06', 'c07', 'c08', 'c09', 'c10', 'c11', 'c12', 'c15', 'c16', 'c17', 'c18', 'c19', 'c20', 'c24']
SOURCE = re.compile(r'^(numpy\.random\.|random\.|time\.|datetime\.|os\.(urandom|getpid|getenv|environ|listdir|scandir|'
                    r'cpu_count|getcwd|times)|uuid\.|secrets\.|tempfile\.|glob\.|platform\.|socket\.|threading\.|'
                    r'multiprocessing\.(cpu_count|current_process)|sys\.(getrefcount|getsizeof)|gc\.|'
                    r'sympy\.stats\.sample|builtins\.(id|hash|input)$)')
UNORDERED = {'set', 'setof', 'setorder', 'setdiff'}


def source(t):
    if t.op in ('call', 'lib', 'libref') and isinstance(t.args[0], str) and SOURCE.match(t.args[0]):
        return t.args[0]
    if t.op == 'dyn' and t.args[0] in ('rvs', 'sample', 'random', 'randn', 'rand'):
        return t.args[0]
    return None


def observables(rc):
    out = []
    if rc.retc is not None:
        out.append(('result', rc.retc))
    for pc, e, line, s in rc.raises:
        out.append(('rejection in line %s' % line, pc))
    if rc.state is not None:
        I = rc.interp
        I.st = rc.state
        for (o, n), v in sorted(rc.state.attrs.items(), key=str):
            try:
                out.append((T.show(T.attr(o, n))[:60], I.reify(v)))
            except Exception:
                pass
    return out


def check(ctx):
    rs = collect.runs(ctx, MODS + (['c13', 'c14'] if TIER != 'quick' else []))
    ran = set()
    for k, r in enumerate(rs):
        label = '%s %s (run %d of %s)' % (r.qual, r.name, k, r.mod)
        if r.rc.failed:
            ctx.same(label, r.rc.retc, T.NONE, r.worlds)
            continue
        ran |= r.rc.interp.analysed
        bad = ['%s at %s line %s' % (e.what, e.func, e.line) for e in r.rc.events
               if e.kind == 'nondet' and 'order' in str(e.what)]
        loose = []
        for what, t in observables(r.rc):
            hit = False
            for x in T.subterms(t):
                s = source(x)
                if s:
                    bad.append('%s depends on %s' % (what, s))
                    break
                if x.op in UNORDERED or x.op == 'attr' and x.args[1] == 'free_symbols':
                    hit = True
            if hit:
                loose.append((what, t))
        ctx.rule(label + ': deterministic sources', not bad, '; '.join(bad[:3]), r.qual)
        for what, t in loose:
            ctx.same('%s: %s for every order of unordered collections' % (label, what), t, t, r.worlds[:6] + r.worlds[6:][-3:], None, r.qual,
                     force=True)
    sweep(ctx, ran)


def sweep(ctx, ran):
    """functions that no analysed sequence enters"""
    for q, f in sorted(ctx.repo.funcs.items()):
        if q in ran or q.startswith('scen.'):
            continue
        bad = []
        for n in ast.walk(f.node):
            if isinstance(n, ast.Call):
                d = dotted(n.func)
                if d:
                    d = resolve(ctx, f, d)
                    if SOURCE.match(d):
                        bad.append('%s in line %d' % (d, n.lineno))
        ctx.rule('%s: no call of a non-deterministic source' % q, not bad, '; '.join(bad), q)


def dotted(e):
    p = []
    while isinstance(e, ast.Attribute):
        p.append(e.attr)
        e = e.value
    if not isinstance(e, ast.Name):
        return None
    return '.'.join([e.id] + p[::-1])


def resolve(ctx, f, d):
    head, _, rest = d.partition('.')
    m = f.mod
    imp = getattr(m, 'imports', {}) if m is not None else {}
    full = imp.get(head, head if rest else 'builtins.' + head)
    if not isinstance(full, str):
        full = head
    return full + ('.' + rest if rest else '')
