"""Symbolic field-line maps shared by the properties about parallel-map operators."""
from zsa.terms import *
from zsa import terms as tm
from zsa.values import *
from zsa.std import *

NIN = size("n_inner", 1, 2)
MXG = size("mxg", 0, 1)
NY = size("ny", 1, 2)
NZ = size("nz", 1, 2)
NS = size("n_sub", 1, 2)
NX = add(NIN, mul(num(2), MXG))
DIRS = ("forward", "backward")


def xt(d, *ix):
    return fn("xt_" + d, *ix)


def zt(d, *ix):
    return fn("zt_" + d, *ix)


def hit(d, x, y, z, s):
    v = xt(d, x, y, z, s)
    return b_or(lt(v, MXG), lt(sub(sub(NX, MXG), ONE), v))


def anyof(f, ns=None):
    s = fresh("s", int=True, lo=0, hi=NS)
    return mk_any(s, ZERO, NS if ns is None else ns, f(s))


def has_boundary(d, x, y, z, ns=None):
    return anyof(lambda s: hit(d, x, y, z, s), ns)


def has_interior(d, x, y, z, ns=None):
    return anyof(lambda s: b_not(hit(d, x, y, z, s)), ns)


def inner(x):
    """Evolving cell."""
    return b_and(le(MXG, x), lt(x, sub(NX, MXG)))


def before(f, x, y, z):
    """Sum of f over the evolving cells in front of (x, y, z), x slowest and z fastest."""
    i, j, k = fresh("i", int=True, lo=0), fresh("j", int=True, lo=0), fresh("k", int=True, lo=0)
    b = lambda t: b2n(t) if t.isb else t
    a = mk_sum(i, ZERO, sub(x, MXG), mk_sum(j, ZERO, NY, mk_sum(k, ZERO, NZ, b(f(add(MXG, i), j, k)))))
    c = mk_sum(j, ZERO, y, mk_sum(k, ZERO, NZ, b(f(x, j, k))))
    e = mk_sum(k, ZERO, z, b(f(x, y, k)))
    return add(a, c, e)


def total(f):
    i, j, k = fresh("i", int=True, lo=0), fresh("j", int=True, lo=0), fresh("k", int=True, lo=0)
    b = lambda t: b2n(t) if t.isb else t
    return mk_sum(i, ZERO, NIN, mk_sum(j, ZERO, NY, mk_sum(k, ZERO, NZ, b(f(add(MXG, i), j, k)))))


def weight(s):
    return fn("subweight", s)


def maps(I, sub=True, primes=("forward", "backward"), center=True, ns=None, weights=None, wrong=()):
    """Dictionary of maps as make_maps returns it."""
    d = {"MXG": MXG, "MYG": ONE, "R": I.new(Arr([NX, NY, NZ], lambda *ix: fn("Rxyz", *ix)))}
    ns = NS if ns is None else ns
    for q in ("forward", "backward"):
        if sub:
            d[q + "_xt_primes"] = I.new(Arr([NX, NY, NZ, ns], lambda *ix, q=q: xt(q, *ix)))
            d[q + "_zt_primes"] = I.new(Arr([NX, NY, NZ, ns], lambda *ix, q=q: zt(q, *ix)))
        if center:
            # without sub-samples the maps of the cell centres are the only sample
            c = (lambda *ix, q=q: xt(q, *ix, ZERO)) if not sub else (lambda *ix, q=q: fn("xc_" + q, *ix))
            e = (lambda *ix, q=q: zt(q, *ix, ZERO)) if not sub else (lambda *ix, q=q: fn("zc_" + q, *ix))
            d[q + "_xt_prime"] = I.new(Arr([NX, NY, NZ], c))
            d[q + "_zt_prime"] = I.new(Arr([NX, NY, NZ], e))
    if sub:
        d["subcell_weights"] = I.new(Arr([ns], weight))
    return I.new(Dct(d))


def near(v, *args):
    """Mapped x index, often in or near a boundary."""
    from decimal import Decimal as D
    import random

    r = random.Random("%s/%s" % (v.seed, [str(v.key(x)) for x in args]))
    nin, mxg = int(v.ev(NIN)), int(v.ev(MXG))
    n = nin + 2 * mxg
    style = random.Random("%s/style" % v.seed).choice(("any", "any", "inside", "mixed"))
    if style == "inside" or style == "mixed" and r.random() < 0.6:
        return D(mxg) + (D(nin - 1) * r.randint(0, 997) / 997)
    c = r.choice([mxg - 1, mxg, n - mxg - 1, n - mxg, mxg + nin // 2, 0, -1, n, n - 1])
    return D(c) + r.choice([D(0), D("0.25"), D("-0.25"), D("0.5"), D(0)])


VALS = {"xt_forward": lambda v, *a: near(v, *a, ), "xt_backward": lambda v, *a: near(v, *a, ONE),
        "xc_forward": lambda v, *a: near(v, *a, num(7)), "xc_backward": lambda v, *a: near(v, *a, num(9))}


def get(I, d, k):
    return I.getitem(d, k)
