"""Grids of abstract poloidal planes."""
from zsa.terms import *
from zsa import terms as tm
from zsa.values import *
from zsa.std import *

NX = sym("nx", int=True, lo=1)
NY = sym("ny", int=True, lo=1)
NZ = sym("nz", int=True, lo=1)
LY = sym("Ly")
COMPS = ("gxx", "gxz", "gzz", "g_xx", "g_xz", "g_zz")


def stored(I, f):
    return I.new(Arr([NX, NZ], f))


def attributes(I, scalar=False, withJ=False):
    """Attributes of plane k: coordinates and metric as functions of k and the indices."""

    def extra(k):
        def metric(I, args, kw):
            d = {}
            for c in COMPS + ("dx", "dz") + (("J",) if withJ else ()):
                d[c] = fn("pol_" + c, k, ZERO, ZERO) if scalar else stored(I, lambda i, j, c=c: fn("pol_" + c, k, i, j))
            return I.new(Dct(d))

        return {"nx": NX, "nz": NZ, "R": lambda I, v: stored(I, lambda i, j: fn("polR", k, i, j)),
                "Z": lambda I, v: stored(I, lambda i, j: fn("polZ", k, i, j)), "metric": Prim("metric", metric)}

    return extra


def ycoord(j):
    return fn("ycoord", j)


def grid(ck, I, per=True, **kw):
    G = ck.anchor(I, "zoidberg.grid", "Grid")
    y = I.new(Arr([NY], ycoord))
    return I.call(G, [plane_list(I, NY, attributes(I, **kw)), y, LY], {"yperiodic": TRUE if per else FALSE})
