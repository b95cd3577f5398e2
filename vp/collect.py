"""All analysed call sequences of the other properties, for rules about their effects."""
import importlib
from . import check, drive, terms as T


class Run(object):
    def __init__(self, mod, qual, rc):
        self.mod, self.qual, self.rc = mod, qual, rc
        self.worlds = []
        self.name = ''


class Collector(check.Ctx):
    """context that records the runs and decides nothing"""

    def __init__(self, ctx):
        self.__dict__.update(ctx.__dict__)
        self.outcomes, self.violations = [], []
        self.runs = []
        self.mod = ''
        self.opened = []

    def code(self, qual, *a, **k):
        rc = check.Ctx.code(self, qual, *a, **k)
        r = Run(self.mod, qual, rc)
        self.runs.append(r)
        self.opened.append(r)
        return rc

    def spec(self, *a, **k):
        r = drive.Result()
        r.retc = r.ret = T.mk('call', 'no reference')
        return r

    def same(self, name, a, b, worlds, *r, **k):
        # the obligations that follow a run say for which valuations it was made
        for x in self.opened:
            x.worlds = list(worlds)
            x.name = name
        self.opened = []

    def equiv(self, name, rc, rr, worlds, *a, **k):
        self.same(name, None, None, worlds)

    def rule(self, *a, **k):
        pass


def runs(ctx, mods):
    c = Collector(ctx)
    for m in mods:
        c.mod = m
        mod = importlib.import_module('vp.props.' + m)
        try:
            mod.check(c)
        except check.Broken:
            raise
        except (Exception, check.Late) as e:
            ctx.unknown['runs of %s: %s: %s' % (m, type(e).__name__, e)] = 1
        c.opened = []
    ctx.analysed |= c.analysed
    ctx.sites += c.sites - ctx.sites
    return c.runs
