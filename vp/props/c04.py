from . import fitcommon as F
from ..terms import TRUE, FALSE
from ..compare import TIER

RULE = ('value graphs of log-evidence, log10-evidence and local evidence after Study(), loadData, setObservationModel, '
        'setTransitionModel, fit (all inlined, loops as recurrences) equal those of the forward filtering recursion')
MIN = 5


def check(ctx):
    n = 12 if TIER == 'quick' else 80
    ctx.method('Study', 'fit')
    for name, fo, eo in (('evidence only', FALSE, TRUE), ('forward only', TRUE, FALSE)):
        F.compare(ctx, name, F.code(ctx, fo, eo), F.spec(ctx, fo, eo),
                  F.worlds('c04', n, fo is TRUE, eo is TRUE), (0, 1, 2))
    F.compare(ctx, 'full fit', F.code(ctx, FALSE, FALSE), F.spec(ctx, FALSE, FALSE),
              F.worlds('c04f', n, False, False), (0, 1))
    F.compare(ctx, 'estimated or irregular grid', F.code(ctx, FALSE, TRUE), F.spec(ctx, FALSE, TRUE),
              F.worlds('c04e', n, False, True, estimate=True, irregular=True), (0, 2))
