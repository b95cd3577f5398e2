"""Subclasses of numpy.ndarray that carry attributes: an object with a hidden array and the class of the result of
element-wise operations (numpy.ndarray subclassing protocol: the left-most instance decides, __array_finalize__ copies
the attributes)."""
from . import terms as T
from .terms import mk, seq

ELEMENTWISE = {'numpy.' + n for n in (
    'floor_divide '
    'add subtract multiply divide power negative positive exp log log10 log2 log1p expm1 sqrt cbrt square reciprocal sin cos '
    'tan arcsin arccos arctan sinh cosh tanh arcsinh arccosh arctanh absolute abs fabs sign floor ceil rint trunc '
    'degrees radians deg2rad rad2deg exp2 maximum minimum mod remainder arctan2 hypot logaddexp').split()} | \
    {'builtins.abs'} | {'scipy.special.' + n for n in 'gamma gammaln erf erfc expit logit j0 j1 digamma'.split()}
PLAIN = {'builtins.type', 'builtins.isinstance', 'builtins.getattr', 'builtins.hasattr', 'builtins.setattr',
         'builtins.print', 'builtins.callable', 'builtins.id', 'builtins.list', 'builtins.tuple', 'copy.copy',
         'copy.deepcopy', 'builtins.super'}


def array(I, v):
    """hidden array of an object, None if it is none"""
    if v.op == 'inst':
        return I.st.attrs.get((v, '__array__'))
    if v.op in ('loc', 'view', 'idx'):
        o = I.objterm(v)
        if o.op == 'inst':
            return I.st.attrs.get((o, '__array__'))
    return None


def plain(I, v):
    a = array(I, v)
    return v if a is None else a


def new(I, cname, loc, src):
    """view of an array as an object of the class"""
    o = mk('inst', I.prog.pkg + str(next(I.nloc)), cname)
    I.st.attrs[(o, '__array__')] = loc
    f = I.prog.method(cname, '__array_finalize__')
    if f is not None:
        I.call_func(f, [o, src], {})
    return o


def wrap(I, r, args):
    """result of an element-wise operation"""
    for a in args:
        if array(I, a) is not None:
            o = I.objterm(a)
            if r.op != 'loc':
                r = I.alloc(I.rd(r), 'ndarray')
            return new(I, o.args[1], r, o)
    return r


def isarrayclass(I, cname):
    c = I.prog.classes.get(cname)
    if c is None:
        return False
    import ast
    for x in I.prog.mro(cname):
        for b in I.prog.classes[x].node.bases if x in I.prog.classes else ():
            if ast.unparse(b).split('.')[-1] == 'ndarray':
                return True
    return False
