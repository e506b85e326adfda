"""C23: boundaries."""
from zsa.terms import *
from zsa import terms as tm
from zsa.values import *
from zsa.std import *

EXPLANATION = (
    "outside() of each boundary class is analysed for symbolic limits and points (arrays of rank 1 and 2, and polygons "
    "with symbolic vertices); the truth value at a symbolic element is compared with the specified condition for all "
    "points that are not exactly on the polygon."
)
MOD = "zoidberg.boundary"


def points(I, rank):
    n = [sym("n%d" % k, int=True, lo=1) for k in range(rank)]
    x = I.new(Arr(n, lambda *ix: fn("px", *ix)))
    z = I.new(Arr(n, lambda *ix: fn("pz", *ix)))
    return n, x, z


def run(ck):
    for rank in (1, 2):
        def none():
            I = ck.interp()
            ck.where = ck.location(MOD, "NoBoundary.outside")
            b = I.call(ck.anchor(I, MOD, "NoBoundary"), [], {})
            n, x, z = points(I, rank)
            r = I.call(I.getattr(b, "outside"), [x, sym("py"), z], {})
            ck.array("NoBoundary rank %d" % rank, I, r, n, lambda *ix: FALSE)

        def rect():
            I = ck.interp()
            ck.where = ck.location(MOD, "RectangularBoundaryXZ.outside")
            lim = [sym("lim_" + k) for k in ("x0", "x1", "z0", "z1")]
            b = I.call(ck.anchor(I, MOD, "RectangularBoundaryXZ"), lim, {})
            n, x, z = points(I, rank)
            r = I.call(I.getattr(b, "outside"), [x, sym("py"), z], {})

            def want(*ix):
                px, pz = fn("px", *ix), fn("pz", *ix)
                return b_or(lt(px, lim[0]), lt(lim[1], px), lt(pz, lim[2]), lt(lim[3], pz))

            ck.array("RectangularBoundaryXZ rank %d" % rank, I, r, n, want)

        ck.group("NoBoundary", none)
        ck.group("RectangularBoundaryXZ", rect)
        for nv in ((3, 4) if not ck.thorough else (3, 4, 5)):
            if rank == 2 and nv > 3:
                continue
            for vert in (None, 0):
                ck.group("PolygonBoundaryXZ", lambda: polygon(ck, rank, nv, vert))
    ck.group("PolygonBoundaryXZ above", lambda: polygon(ck, 1, 3, None, True))


def polygon(ck, rank, nv, vert, above=False):
    """vert: number of an edge that is exactly vertical."""
    I = ck.interp()
    ck.where = ck.location(MOD, "PolygonBoundaryXZ.outside")
    vx, vz = [sym("vx%d" % k) for k in range(nv)], [sym("vz%d" % k) for k in range(nv)]
    if vert is not None:
        vx[(vert + 1) % nv] = vx[vert]

    def pick(v):
        def f(i):
            k = numval(i)
            if k is not None:
                return v[int(k)]
            r = v[-1]
            for q in range(nv - 2, -1, -1):
                r = ite(eq(i, num(q)), v[q], r)
            return r
        return f

    X, Z = I.new(Arr([num(nv)], pick(vx))), I.new(Arr([num(nv)], pick(vz)))
    b = I.call(ck.anchor(I, MOD, "PolygonBoundaryXZ"), [X, Z], {})
    n, x, z = points(I, rank)
    r = I.arr(I.call(I.getattr(b, "outside"), [x, sym("py"), z], {}))
    lab = "PolygonBoundaryXZ %d vertices rank %d%s%s" % (nv, rank, "" if vert is None else " one vertical edge", " above" if above else "")
    ck.shape(lab, r.shape, n)
    ix = [fresh("i", int=True, lo=0, hi=s) for s in n]
    px, pz = fn("px", *ix), fn("pz", *ix)
    facts = []
    out = TRUE
    cs = []
    for k in range(nv):
        j = (k + 1) % nv
        if vx[k] is vx[j]:
            facts.append(b_or(b_not(eq(px, vx[k])), b_and(lt(pz, vz[k]), lt(pz, vz[j])), b_and(lt(vz[k], pz), lt(vz[j], pz))))
            continue
        facts.append(b_not(eq(vx[k], vx[j])))
        zc = add(vz[k], mul(div(sub(px, vx[k]), sub(vx[j], vx[k])), sub(vz[j], vz[k])))
        cross = xor(le(vx[k], px), le(vx[j], px))
        facts.append(b_or(b_not(cross), b_not(eq(zc, pz))))
        cs.append((cross, zc))
        out = xor(out, b_and(cross, lt(pz, zc)))
    top = vz[0]
    for k in range(1, nv):
        top = tm.maxv(top, vz[k])
    # a point of an edge is not above both of its ends
    facts += [b_or(b_not(c), le(zc, top)) for c, zc in cs]
    if above:
        ck.eq(lab, r(*ix), TRUE, [f for f in facts if f is not TRUE] + [lt(add(top, ONE), pz)])
    else:
        ck.eq(lab, r(*ix), out, [f for f in facts if f is not TRUE] + [lt(pz, add(top, ONE))])


def xor(a, b):
    return b_or(b_and(a, b_not(b)), b_and(b_not(a), b))
