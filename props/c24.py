"""C24: generated poloidal grids."""
from zsa.terms import *
from zsa import terms as tm
from zsa.values import *
from zsa.std import *
from props import elliptic
from props.elliptic import PG, line

EXPLANATION = (
    "Both generators are analysed with symbolic numbers of points between two lines given by uninterpreted functions of "
    "the angle. The solver loop of the elliptic generator is summarised by one iteration from arbitrary values: rows on "
    "the lines before the loop must be kept by it, and with the centre point replaced by the solution of the elliptic "
    "equation at that point (from arbitrary neighbours) the iteration must leave it unchanged. Extra rows, the order "
    "and sizes of the result, aligned and projected inner lines and the coarse first guess are compared element by "
    "element."
)
NX, NZ = [sym(n, int=True, lo=5, hi=1000) for n in ("nx", "nz")]
PI2 = mul(num(2), sym("pi"))


def run(ck):
    for coords in (False, True):
        ck.group("grid_annulus", lambda: annulus(ck, coords))
    for no, ni in ((0, 0), (2, 0), (0, 2), (1, 3)):
        ck.group("grid_elliptic", lambda: rows(ck, no, ni))
    ck.group("grid_elliptic equation", lambda: equation(ck, None))
    ck.group("grid_elliptic equation", lambda: equation(ck, sym("relax", lo=ONE)))
    ck.group("grid_elliptic as a grid", lambda: asgrid(ck))
    ck.group("grid_elliptic projected", lambda: projected(ck))
    ck.group("grid_elliptic refined", lambda: refined(ck))
    for legacy in (False, True):
        for n in ((5, 6), (6, 5), (5, 5)):
            ck.group("grid_elliptic aligned", lambda: aligned(ck, legacy, n))


def theta(j, nz=NZ):
    return div(mul(PI2, j), nz)


def idx(name, n):
    return fresh(name, int=True, lo=0, hi=n)


def swap(t):
    """The same for the other coordinate."""
    a, b = ("innerR", "outerR"), ("innerZ", "outerZ")
    m = dict(zip(a + b, b + a))
    return tm.map_named(t, set(m), lambda f: fn(m[f.args[0]], *f.args[1:]))


def annulus(ck, coords):
    ck.where = ck.location(PG, "grid_annulus")
    got = []

    def make(I, args, kw):
        a = dict(zip(("R", "Z"), args), **kw)
        got.append((a["R"], a["Z"]))
        return Abs("grid", {})

    I = ck.interp({PG + ".StructuredPoloidalGrid": Prim("grid", make)})
    f = ck.anchor(I, PG, "grid_annulus")
    r = I.call(f, [line("inner"), line("outer"), NX, NZ], {"show": FALSE, "return_coords": TRUE if coords else FALSE})
    I.need_overrides() if not coords else None
    lab = "grid_annulus%s: " % (" coordinates" if coords else "")
    out = I.const_items(r) if coords else got[-1]
    out = [I.arr(v) for v in out]
    j = idx("j", NZ)
    for q, a in zip("RZ", out):
        ck.shape(lab + q, a.shape, [NX, NZ])
        ck.eq(lab + q + " on the inner line", a(ZERO, j), fn("inner" + q, theta(j)))
        ck.eq(lab + q + " on the outer line", a(sub(NX, ONE), j), fn("outer" + q, theta(j)))
    i = idx("i", NX)
    ck.eq(lab + "R and Z alike", swap(out[0](i, j)), out[1](i, j), vocab=("innerZ", "outerZ"))


def kept(ck, lab, s, nx, nz, inner, outer):
    """The first and last row are on the lines and stay there."""
    j = idx("j", nz)
    last = sub(nx, ONE)
    for c, q in enumerate("RZ"):
        v = tuple(s.names)
        ck.eq(lab + "first row of %s before iterating" % q, s.before[c](ZERO, j), inner(q, j))
        ck.eq(lab + "last row of %s before iterating" % q, s.before[c](last, j), outer(q, j))
        ck.eq(lab + "first row of %s kept" % q, s.new[c](ZERO, j), s.start[c](ZERO, j), vocab=v)
        ck.eq(lab + "last row of %s kept" % q, s.new[c](last, j), s.start[c](last, j), vocab=v)


def at(name):
    return lambda q, j: fn(name + q, theta(j))


def rows(ck, no, ni):
    ck.where = ck.location(PG, "grid_elliptic")
    o = dict(nx_outer=num(no), nx_inner=num(ni)) if no or ni else {}
    nx = add(NX, num(no + ni))
    s = elliptic.generate(ck, nx, NZ, restrict_size=num(2000), first=ni, **o)
    lab = "grid_elliptic%s: " % (" with %d outer and %d inner rows" % (no, ni) if no or ni else "")
    kept(ck, lab, s, NX, NZ, at("inner"), at("outer"))
    i, j = idx("i", NX), idx("j", NZ)
    v = tuple(s.names)
    for c, q in enumerate("RZ"):
        a, n = s.out[c], s.new[c]
        if ck.shape(lab + q, a.shape, [nx, NZ]) is False:
            continue
        ck.eq(lab + "returned " + q, a(add(i, num(ni)), j), n(i, j), vocab=v)
        first, second = n(ZERO, j), n(ONE, j)
        last, prev = n(sub(NX, ONE), j), n(sub(NX, num(2)), j)
        for k in range(ni):
            ck.eq(lab + "inner row %d of %s" % (k, q), a(num(k), j), add(first, mul(num(ni - k), sub(first, second))), vocab=v)
        for k in range(no):
            ck.eq(lab + "outer row %d of %s" % (k, q), a(add(NX, num(ni + k)), j), add(last, mul(num(k + 1), sub(last, prev))), vocab=v)


def equation(ck, relax):
    ck.where = ck.location(PG, "grid_elliptic")
    o = {} if relax is None else dict(dz_relax=relax)
    s = elliptic.generate(ck, NX, NZ, restrict_size=num(2000), **o)
    if relax is None:
        relax = div(num(10), num(3))
    dx, dz = div(ONE, sub(NX, ONE)), div(PI2, NZ)
    lab = "grid_elliptic: "
    i = fresh("i", int=True, lo=1, hi=sub(NX, ONE))
    for case in ("inside", "first", "last"):
        j = {"inside": fresh("j", int=True, lo=1, hi=sub(NZ, ONE)), "first": ZERO, "last": sub(NZ, ONE)}[case]
        jm = sub(NZ, ONE) if case == "first" else sub(j, ONE)
        jp = ZERO if case == "last" else add(j, ONE)
        X = s.start
        half = lambda a, b, h: div(sub(a, b), mul(num(2), h))
        d_x = [half(u(add(i, ONE), j), u(sub(i, ONE), j), dx) for u in X]
        d_z = [mul(relax, half(u(i, jp), u(i, jm), dz)) for u in X]
        a = add(mul(d_z[0], d_z[0]), mul(d_z[1], d_z[1]))
        b = add(mul(d_z[0], d_x[0]), mul(d_z[1], d_x[1]))
        c = add(mul(d_x[0], d_x[0]), mul(d_x[1], d_x[1]))
        m = {}
        for u in X:
            cross = div(sub(add(u(add(i, ONE), jp), u(sub(i, ONE), jm)), add(u(add(i, ONE), jm), u(sub(i, ONE), jp))), mul(num(4), mul(dx, dz)))
            xx, zz = mul(dx, dx), mul(dz, dz)
            top = add(div(mul(a, add(u(add(i, ONE), j), u(sub(i, ONE), j))), xx), mul(num(-2), mul(b, cross)), div(mul(c, add(u(i, jp), u(i, jm))), zz))
            m[u(i, j)] = div(top, add(div(mul(num(2), a), xx), div(mul(num(2), c), zz)))
        for q, u, n in zip("RZ", X, s.new):
            ck.eq(lab + "solution of the equation for %s stays, %s column" % (q, case), tm.subst(n(i, j), m), m[u(i, j)], vocab=tuple(s.names) + ("pi",), tries=150, prove=False)


def asgrid(ck):
    ck.where = ck.location(PG, "grid_elliptic")
    got = []

    def make(I, args, kw):
        a = dict(zip(("R", "Z"), args), **kw)
        got.append((a["R"], a["Z"]))
        return Tup([a["R"], a["Z"]])

    s = elliptic.generate(ck, NX, NZ, overrides={PG + ".StructuredPoloidalGrid": Prim("grid", make)}, restrict_size=num(2000), return_coords=FALSE)
    i, j = idx("i", NX), idx("j", NZ)
    for c, q in enumerate("RZ"):
        ck.eq("grid_elliptic as a grid: " + q, s.out[c](i, j), s.new[c](i, j), vocab=tuple(s.names))


def onecurve(ck, lab, R, Z, name):
    """Both coordinates at one parameter of the line."""
    if R.op == "fn" and Z.op == "fn" and R.args[0] == name + "R" and Z.args[0] == name + "Z":
        ck.eq(lab + ": R and Z at the same angle", Z.args[1], R.args[1], vocab=tuple(t.args[0] for t in tm.subterms(R) if t.op in ("fn", "bfn")))
    elif R.op == "fn" and Z.op == "fn" and not str(R.args[0]).startswith("?") and not str(Z.args[0]).startswith("?"):
        ck.violated(lab, ck.where, "R and Z are not those of the line: %s, %s" % (show(R)[:200], show(Z)[:200]))
    else:
        raise Unsupported("row on the line: %s, %s" % (show(R)[:100], show(Z)[:100]))


def projected(ck):
    """Inner points next to the outer ones."""
    ck.where = ck.location(PG, "grid_elliptic")
    s = elliptic.generate(ck, NX, num(6), restrict_size=num(2000), inner_ort=TRUE, repeated=8)
    for j in range(6):
        onecurve(ck, "grid_elliptic projected: point %d" % j, s.before[0](ZERO, num(j)), s.before[1](ZERO, num(j)), "inner")
        for c, q in enumerate("RZ"):
            ck.eq("grid_elliptic projected: outer %s" % q, s.before[c](sub(NX, ONE), num(j)), fn("outer" + q, theta(num(j), num(6))))


def refined(ck):
    """Started from a coarser grid."""
    ck.where = ck.location(PG, "grid_elliptic")
    nx, nz = [sym(n, int=True, lo=24, hi=40) for n in ("nx", "nz")]
    calls = []

    def spline(I, args, kw):
        x, z, v = [I.arr(a) for a in args[:3]]
        k = len(calls)
        calls.append((x, z, v))

        def ev(I, args, kw):
            a, b = [I.arr(t) for t in args[:2]]
            return I.new(Arr([a.shape[0], b.shape[0]], lambda i, j: fn("spline%d" % k, a(i), b(j))))

        return Prim("spline", ev)

    s = elliptic.generate(ck, nx, nz, overrides={PG + ".RectBivariateSpline": Prim("spline", spline)}, restrict_size=num(20), restrict_factor=num(2))
    lab = "grid_elliptic refined: "
    th = lambda name: lambda q, j: fn(name + q, theta(j, nz))
    kept(ck, lab, s, nx, nz, th("inner"), th("outer"))
    # the first guess is sampled at the points of the fine grid
    i, j = fresh("i", int=True, lo=1, hi=sub(nx, ONE)), idx("j", nz)
    for c, q in enumerate("RZ"):
        t = s.before[c](i, j)
        if t.op != "fn" or not str(t.args[0]).startswith("spline"):
            raise Unsupported("first guess")
        x, z, v = calls[int(t.args[0][6:])]
        ck.eq(lab + "x at which %s is sampled" % q, t.args[1], div(i, sub(nx, ONE)))
        ck.eq(lab + "z at which %s is sampled" % q, t.args[2], theta(j, nz))


def aligned(ck, legacy, n):
    """Lines rolled to start at matching places."""
    ck.where = ck.location(PG, "grid_elliptic")
    made = {}

    def make(I, args, kw):
        a = dict(zip(("R", "Z"), args), **kw)
        name = "made%d" % len(made)
        made[name] = (I.arr(a["R"]), I.arr(a["Z"]))
        return line(name, a["R"], a["Z"])

    s = elliptic.generate(ck, NX, NZ, overrides={"zoidberg.rzline.RZline": Prim("line", make)}, lines=n, restrict_size=num(2000),
                          align=TRUE, legacy_align=TRUE if legacy else FALSE)
    lab = "grid_elliptic aligned%s, lines of %d and %d points: " % (" (legacy)" if legacy else "", *n)
    j = idx("j", NZ)
    for which, size, r in zip(("inner", "outer"), n, (ZERO, sub(NX, ONE))):
        R, Z = [b(r, j) for b in s.before]
        name = None
        for cand in (which, *made):
            if ck.proves(R, fn(cand + "R", theta(j))):
                name = cand
        if name is None:
            raise Unsupported("row on a line")
        ck.eq(lab + which + " row", Z, fn(name + "Z", theta(j)))
        if name == which:
            continue
        if name not in made:
            ck.violated(lab + which, ck.where, "is on the line %s" % name)
            continue
        for i in range(size):
            pr, pz = [a(num(i)) for a in made[name]]
            onecurve(ck, lab + which + " point %d" % i, pr, pz, which + "point")
