"""Abstract inputs shared by the specifications."""
from . import terms as tm
from . import cmp
from .terms import T, num, sym, ite, add, sub, mul, div, mod, lt, le, eq, ZERO, ONE, TRUE, FALSE, floor, b_and, b_or, b_not
from .values import Abs, Prim, IteV, NONE, Ref, Seq, Arr, PW, Tup, Unsupported, Unk, MISSING


SMALL = [False]  # use concrete sizes


def size(name, lo, small):
    return num(small) if SMALL[0] else sym(name, int=True, lo=lo)


def fn(name, *args):
    """Uninterpreted function of the specification (its name is vocabulary)."""
    cmp.VOCAB.add(name)
    return tm.fn(name, *args)


def bfn(name, *args):
    cmp.VOCAB.add(name)
    return tm.bfn(name, *args)


def fold(I, v, f):
    """Term for a value that may be a gated join."""
    v = I.res(v)
    if isinstance(v, IteV):
        a, b = fold(I, v.a, f), fold(I, v.b, f)
        return ite(v.c, a, b)
    return f(v)


def callp(f):
    """Method taking a python callable f(I, *args, **kw)."""

    def g(I, args, kw):
        return f(I, *args, **kw)

    return Prim(getattr(f, "__name__", "model"), g)


NOPLANE = sym("no_plane")


def plane(k, extra=None):
    """Abstract poloidal grid number k."""
    attrs = {"$make": lambda kk: plane(kk, extra), "$isnone": FALSE}
    if extra:
        attrs.update(extra(k))
    return Abs("plane", attrs, key=(k,))


def plane_no(I, v):
    def f(x):
        if isinstance(x, Abs) and x.name == "plane":
            return x.key[0]
        if x is NONE:
            return NOPLANE
        raise Unsupported("not a plane: %r" % (x,))

    return fold(I, v, f)


def plane_list(I, ny, extra=None):
    return I.new(Seq(ny, lambda k: plane(k, extra)))


def text(I, v):
    return v if isinstance(v, str) else None


def inj(name, *args):
    """One-to-one numbering (non-negative integers)."""
    tm.INJFN.add(name)
    tm.NONNEGFN.add(name)
    tm.INTFN.add(name)
    return fn(name, *args)
