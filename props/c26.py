"""C26: cell volumes, parallel lengths and toroidal fields."""
from fractions import Fraction

from zsa.terms import *
from zsa import terms as tm
from zsa.values import *
from zsa.std import *
from props.mapping import *

EXPLANATION = (
    "The second part of make_maps is analysed with symbolic grid sizes, an uninterpreted tracer, field and metric, for "
    "several numbers of intermediate points and of chunks (chunk borders are symbolic), with whole-plane and scalar "
    "metrics. Jacobian, lengths and fields at a symbolic (x, plane, z) are compared with the trapezoidal average over "
    "the points specified, each with its own position and y."
)


def run(ck):
    for r in (1, 2, 3):
        ck.group("%d points per half plane" % r, lambda: case(ck, r, 1))
    for n in (2, 3, 4):
        ck.group("%d chunks" % n, lambda: case(ck, 2, n))
    ck.group("default chunks", lambda: case(ck, 1, None))
    ck.group("scalar metric", lambda: case(ck, 2, 2, scalar_metric=True))
    ck.group("slab", lambda: case(ck, 1, 2, slab=True))
    for nx, n in ((5, 3), (7, 4), (3, 4)):
        ck.group("%d x points in %d chunks" % (nx, n), lambda: case(ck, 1, n, nx=num(nx)))


def case(ck, r, chunks, **kw):
    w = world(ck, **kw)
    o = dict(refine_parallel_integral=num(r))
    if chunks:
        o["n_chunks"] = num(chunks)
    m = maps(ck, w, nslice=ONE, **o)
    lab = "%d points, %s chunks%s: " % (r, chunks or "default", "".join(", %s=%s" % (k, show(v) if isinstance(v, T) else v) for k, v in kw.items()))
    i, j, k = [fresh(n, int=True, lo=0, hi=x) for n, x in zip("ijk", (w.nx, w.ny, w.nz))]
    full = [w.nx, w.ny, w.nz]
    R, Z = [fn("pol" + q, j, i, k) for q in "RZ"]

    def y(s):
        """s: steps of a half plane away."""
        e = yof(add(j, ONE if s > 0 else num(-1)))
        return add(yof(j), mul(num(Fraction(abs(s), 2 * r)), sub(e, yof(j))))

    def pos(s):
        return [traced(q, R, Z, yof(j), y(s)) for q in XZ]

    def By(s):
        return fn("field_Byfunc", *pos(s), y(s))

    def check(name, t):
        if name not in m:
            ck.violated(lab + name, ck.where, "%s is missing" % name)
            return
        a = w.I.arr(m[name])
        if ck.shape(lab + name, a.shape, full) is not False:
            xs = [i] if numval(w.nx) is None else [num(q) for q in range(int(numval(w.nx)))]
            for x in xs:
                ck.eq(lab + name, a(x, j, k), tm.subst(t, {i: x}))

    for post, s in (("_cell_ylow", -r), ("", 0), ("_cell_yhigh", r)):
        check("By" + post, By(s))
    if kw.get("slab"):
        return
    for post, s in (("_cell_ylow", -r), ("", 0), ("_cell_yhigh", r)):
        check("Ly" + post, fn("length", *[t for q in range(s - r, s + r + 1) for t in (*pos(q), y(q))]))
    g = {c: fn("pol_" + c, j) if kw.get("scalar_metric") else fn("pol_" + c, j, i, k) for c in ("g_xx", "g_xz", "g_zz")}
    perp = sqrt(sub(mul(g["g_xx"], g["g_zz"]), mul(g["g_xz"], g["g_xz"])))
    tot = ZERO
    for s in range(-r, r + 1):
        f = div(mul(pos(s)[0], By(0)), By(s))
        tot = add(tot, f if abs(s) < r else div(f, num(2)))
    check("J", div(mul(perp, tot), num(2 * r)))
