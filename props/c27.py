"""C27: coefficients of the finite-volume operator."""
from zsa.terms import *
from zsa import terms as tm
from zsa.values import *
from zsa.std import *
from props import dagp

EXPLANATION = (
    "stencil_dagp_fv.doit is analysed for abstract planes whose positions are uninterpreted functions of plane and index, "
    "with symbolic sizes. Volumes, and the coefficients of x and z faces, are compared element by element (first, inner and "
    "last x; first, inner and last z, which exercise the periodicity) with the finite-volume formulas: path integral around "
    "the cell, area-weighted normal of the face in the basis of the coordinate differences across it. Slab and toroidal "
    "weights, rectangular (periodic length Lz) and general planes, one and several planes, and the fallback for "
    "singular batches (with concrete sizes) are analysed separately."
)


def run(ck):
    for slab in (False, True):
        for rect in (False, True):
            lab = "%s%s" % ("rectangular " if rect else "", "slab" if slab else "torus")
            ck.group(lab, lambda: coefficients(ck, lab, 1, rect, slab))
    ck.group("several planes", lambda: coefficients(ck, "two planes", 2, False, True))
    ck.group("several planes", lambda: coefficients(ck, "two planes, progress bar", 2, True, True, bar=True))
    ck.group("singular batch", lambda: coefficients(ck, "singular batch", 1, False, True, num(4), num(5), singular=True))


def coefficients(ck, lab, planes, rect, slab, nx=None, nz=None, singular=False, bar=False):
    nx = nx if nx is not None else sym("nx", int=True, lo=5)
    # written as a sum, so that signs of expressions in it are seen
    nz = nz if nz is not None else add(num(5), sym("mz", int=True, lo=0)) if rect else sym("nz", int=True, lo=5)
    r = dagp.run(ck, planes, nx, nz, rect, slab, singular, bar)
    names = ("dagp_fv_XX", "dagp_fv_XZ", "dagp_fv_ZX", "dagp_fv_ZZ", "dagp_fv_volume")
    if set(r.out) != set(names):
        return ck.violated(lab + ": names", ck.where, "found %s" % sorted(r.out))
    ck.passed(lab + ": names")
    for n in names:
        if ck.shape(lab + ": " + n, r.out[n].shape, [nx, num(planes), nz]) is False:
            return
    small = numval(nx) is not None
    lastx, lastz = sub(nx, ONE), sub(nz, ONE)
    inx = [num(1), num(2)] if small else [fresh("i", int=True, lo=1, hi=sub(nx, ONE))]
    inz = [num(1)] if small else [fresh("k", int=True, lo=1, hi=sub(nz, ONE))]
    for p in range(planes):
        P = num(p)
        for k, kn in [(ZERO, "first z")] + [(k, "z") for k in inz] + [(lastz, "last z")]:
            at = lambda n, i: r.out[n](i, P, k)
            for i, en in ((ZERO, "first x"), (lastx, "last x")):
                for n in names[2:]:
                    ck.eq("%s: %s of plane %d at %s, %s" % (lab, n, p, en, kn), at(n, i), ZERO)
            for n in names[:2]:
                ck.eq("%s: %s of plane %d at last x, %s" % (lab, n, p, kn), at(n, lastx), ZERO)
            for i, en in [(i, "inner x") for i in inx] + [(ZERO, "first x")]:
                a = dagp.xface(p, i, k, nz, r.nx, rect, slab)
                for n, s in zip(names[:2], a):
                    ck.eq("%s: %s of plane %d at %s, %s" % (lab, n, p, en, kn), at(n, i), s)
            for i in inx:
                a = dagp.zface(p, i, k, nz, r.nz, rect, slab)
                for n, s in zip(names[2:4], a):
                    ck.eq("%s: %s of plane %d at inner x, %s" % (lab, n, p, kn), at(n, i), s)
                ck.eq("%s: %s of plane %d at inner x, %s" % (lab, names[4], p, kn), at(names[4], i), dagp.volume(p, i, k, r.nvol, slab))
