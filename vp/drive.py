"""Running the graph construction on one entry point."""
from . import terms as T
from .terms import mk, TRUE, FALSE
from .interp import Interp, State, Diverge, Frame


class Result(object):
    def __init__(self):
        self.ret = None       # returned content (None if the entry point never returns)
        self.state = None
        self.raises = []      # (condition, exception, line, state)
        self.events = []
        self.interp = None
        self.pc = FALSE
        self.failed = False

    def field(self, o, name):
        I = self.interp
        I.st = self.state
        v = self.state.attrs.get((o, name))
        if v is None:
            v = I.init_or_copy((o, name))
        return I.reify(v)

    def raisecond(self, *names):
        c = FALSE
        if self.failed:
            return mk('call', 'not analysed')
        for pc, e, line, s in self.raises:
            if not names or e.args[0] in names:
                c = T.bor(c, pc)
        return c


def start(prog, **kw):
    I = Interp(prog, **kw)
    I.st = State()
    return I


def run(I, qual, args=(), kwargs=None):
    """analyse function `qual` with the given argument terms in the current state of I"""
    r = Result()
    r.interp = I
    I.final_raises = []
    I.events = []
    f = I.prog.funcs[qual]
    # objects handed in by the caller have an identity
    own = lambda v: I.alloc(v, 'unknown', root=v) if v.op == 'sym' and v not in I.objcls else v
    try:
        v = I.call_func(f, [own(x) for x in args], {k: own(x) for k, x in (kwargs or {}).items()})
        r.state = I.st
        r.ret = v
        r.retc = I.reify(v)
        r.pc = I.st.pc
    except Diverge:
        r.state = None
        r.ret = r.retc = None
    r.raises = [(s.pc, e, l, s) for s, e, l in I.final_raises]
    r.events = list(I.events)
    return r
