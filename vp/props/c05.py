from . import fitcommon as F
from ..terms import TRUE, FALSE
from ..compare import TIER

RULE = ('value graphs of posterior sequence, posterior means and local evidence after Study(), loadData, '
        'setObservationModel, setTransitionModel, fit (all inlined, loops as recurrences) equal those of the '
        'forward-backward recursion')
MIN = 5


def check(ctx):
    n = 12 if TIER == 'quick' else 80
    ctx.method('Study', 'fit')
    F.compare(ctx, 'full fit', F.code(ctx, FALSE, FALSE), F.spec(ctx, FALSE, FALSE), F.worlds('c05', n, False, False),
              (2, 3, 4))
    F.compare(ctx, 'forward only', F.code(ctx, TRUE, FALSE), F.spec(ctx, TRUE, FALSE), F.worlds('c05', n, True, False),
              (3, 4))
    F.compare(ctx, 'estimated or irregular grid', F.code(ctx, FALSE, FALSE), F.spec(ctx, FALSE, FALSE),
              F.worlds('c05e', n, False, False, estimate=True, irregular=True), (2, 3, 4))
    F.compare(ctx, 'evidence only', F.code(ctx, FALSE, TRUE), F.spec(ctx, FALSE, TRUE),
              F.worlds('c05', 4, False, True), (3, 4))
