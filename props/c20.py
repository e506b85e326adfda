"""C20: metric tensors."""
from zsa.terms import *
from zsa import terms as tm
from zsa.values import *
from zsa.std import *
from props.planes import *
from props import fields

PG, GR, ZB = "zoidberg.poloidal_grid", "zoidberg.grid", "zoidberg.zoidberg"
EXPLANATION = (
    "StructuredPoloidalGrid.metric is analysed with the position's derivatives as uninterpreted functions of the indices; "
    "Grid.metric with abstract planes and a symbolic number of planes; get_metric with an uninterpreted field. Every "
    "component at a symbolic cell is compared with the specification."
)


def run(ck):
    ck.group("StructuredPoloidalGrid.getCoordinate", lambda: coordinate(ck))
    ck.group("StructuredPoloidalGrid.metric", lambda: structured(ck))
    ck.group("RectangularPoloidalGrid.metric", lambda: rectangular(ck))
    for scalar in (False, True):
        for per in (True, False):
            ck.group("Grid.metric", lambda: assembled(ck, scalar, per))
    ck.group("Grid.metric of one plane", lambda: single(ck))
    for per in (True, False):
        for R in (None, "Rmaj"):
            ck.group("get_metric", lambda: physical(ck, R, per))
    ck.group("get_metric of one plane", lambda: physical(ck, "Rmaj", True, True))


def shell(I, ck, extra=None):
    """StructuredPoloidalGrid without its constructor."""
    cls = ck.anchor(I, PG, "StructuredPoloidalGrid")
    a = {"nx": NX, "nz": NZ, "R": stored(I, lambda i, j: fn("Rpol", i, j)), "Z": stored(I, lambda i, j: fn("Zpol", i, j))}
    a.update(extra or {})
    return I.new(ObjC(cls, a))


def coordinate(ck):
    """Constructor: spline of the coordinates on x and three periods in z; look-up in the middle period."""
    ck.where = ck.location(PG, "StructuredPoloidalGrid.getCoordinate")
    I = ck.interp()
    cls = ck.anchor(I, PG, "StructuredPoloidalGrid")
    o = I.call(cls, [stored(I, lambda i, j: fn("Rpol", i, j)), stored(I, lambda i, j: fn("Zpol", i, j))], {})
    n = [sym("p%d" % k, int=True, lo=1) for k in range(2)]
    x = I.new(Arr(n, lambda *ix: fn("xi", *ix)))
    z = I.new(Arr(n, lambda *ix: fn("zi", *ix)))
    i, j = sym("i", int=True, lo=0), sym("j", int=True, lo=0)
    ref = ck.reference(I, "polgrid", "coordinate")
    for dx, dz in ((0, 0), (1, 0), (0, 1), (1, 1), (2, 0)):
        r = I.const_items(I.call(I.getattr(o, "getCoordinate"), [x, z], {"dx": num(dx), "dz": num(dz)}))
        for k, q in enumerate("RZ"):
            want = I.arr(I.call(ref, [I.getattr(o, q), x, z, num(dx), num(dz)], {}))
            ck.array("%s at indices, derivative %d %d" % (q, dx, dz), I, r[k], n, lambda *ix: want(*ix))


def deriv(name, a, b, i, j):
    return fn("d" + name, num(a), num(b), i, j)


def structured(ck):
    ck.where = ck.location(PG, "StructuredPoloidalGrid.metric")
    I = ck.interp()

    def pos(I, args, kw):
        names = ("xind", "zind", "dx", "dz")
        a = dict(zip(names, args), **kw)
        da, db = I.scalar(a.get("dx", ZERO)), I.scalar(a.get("dz", ZERO))
        return Tup([I.elementwise(lambda i, j, q=q: fn("d" + q, da, db, i, j), [a["xind"], a["zind"]]) for q in "RZ"])

    o = shell(I, ck, {"getCoordinate": Prim("getCoordinate", pos)})
    m = I.call(I.getattr(o, "metric"), [], {})
    at = lambda k: component(I, I.getitem(m, k))
    compare(ck, "structured", at, lambda i, j: [[deriv(q, 1, 0, i, j) for q in "RZ"], [deriv(q, 0, 1, i, j) for q in "RZ"]])
    for k in ("dx", "dz") + COMPS:
        ck.shape("structured " + k, I.arr(I.getitem(m, k)).shape, [NX, NZ])


def component(I, v):
    a = I.arr(v)
    return lambda i, j: a(*([i, j][: len(a.shape)] if len(a.shape) else []))


def compare(ck, lab, at, tangents):
    i, j = fresh("i", int=True, lo=0, hi=NX), fresh("j", int=True, lo=0, hi=NZ)
    dx, dz = at("dx")(i, j), at("dz")(i, j)
    tx, tz = tangents(i, j)
    tx, tz = [div(q, dx) for q in tx], [div(q, dz) for q in tz]
    dot = lambda a, b: add(*[mul(x, y) for x, y in zip(a, b)])
    gxx, gxz, gzz = dot(tx, tx), dot(tx, tz), dot(tz, tz)
    det = sub(mul(gxx, gzz), mul(gxz, gxz))
    # tangents are not parallel
    facts = [b_not(eq(sub(mul(tx[0], tz[1]), mul(tx[1], tz[0])), ZERO))]
    for k, want in (("g_xx", gxx), ("g_xz", gxz), ("g_zz", gzz), ("gxx", div(gzz, det)), ("gxz", neg(div(gxz, det))), ("gzz", div(gxx, det))):
        ck.eq("%s %s" % (lab, k), at(k)(i, j), want, facts)


def rectangular(ck):
    ck.where = ck.location(PG, "RectangularPoloidalGrid.metric")
    I = ck.interp()
    Lx, Lz = sym("Lx", lo=ONE), sym("Lz", lo=ONE)
    nx = add(NX, num(4))
    o = I.call(ck.anchor(I, PG, "RectangularPoloidalGrid"), [nx, NZ, Lx, Lz], {})
    m = I.call(I.getattr(o, "metric"), [], {})
    at = lambda k: component(I, I.getitem(m, k))
    compare(ck, "rectangular", at, lambda i, j: [[div(Lx, NX), ZERO], [ZERO, div(Lz, NZ)]])


def dy_spec(j):
    last = sub(NY, ONE)
    up = ite(lt(j, last), ycoord(add(j, ONE)), add(ycoord(ZERO), LY))
    down = ite(lt(ZERO, j), ycoord(sub(j, ONE)), sub(ycoord(last), LY))
    return div(sub(up, down), num(2))


def assembled(ck, scalar, per):
    I = ck.interp()
    g = grid(ck, I, per, scalar=scalar)
    ck.where = ck.location(GR, "Grid.metric")
    for again in (False, True):
        m = I.call(I.getattr(g, "metric"), [], {})
        lab = "grid (%s, %s%s) " % ("periodic" if per else "open", "scalar" if scalar else "array", ", second call" if again else "")
        for k in COMPS + ("dx", "dz"):
            ck.array(lab + k, I, I.getitem(m, k), [NX, NY, NZ], lambda i, y, j: fn("pol_" + k, y, *((ZERO, ZERO) if scalar else (i, j))))
        for k in ("gyy", "g_yy"):
            ck.array(lab + k, I, I.getitem(m, k), [NX, NY, NZ], lambda i, y, j: ONE)
        ck.array(lab + "dy", I, I.getitem(m, "dy"), [NX, NY, NZ], lambda i, y, j: dy_spec(y), [lt(ONE, NY)])


def single(ck):
    I = ck.interp()
    G = ck.anchor(I, GR, "Grid")
    y = I.new(Arr([ONE], ycoord))
    ck.where = ck.location(GR, "Grid.metric")
    g = I.call(G, [I.new(Lst([plane(ZERO, attributes(I))])), y, LY], {"yperiodic": TRUE})
    m = I.call(I.getattr(g, "metric"), [], {})
    ck.array("dy of a single plane", I, I.getitem(m, "dy"), [NX, ONE, NZ], lambda i, y, j: LY)


def physical(ck, R, per, one=False):
    I = ck.interp()
    if one:
        G = ck.anchor(I, GR, "Grid")
        g = I.call(G, [I.new(Lst([plane(ZERO, attributes(I))])), I.new(Arr([ONE], ycoord)), LY], {"yperiodic": TRUE})
    else:
        g = grid(ck, I, per)
    ny = ONE if one else NY
    base = ck.anchor(I, "zoidberg.field", "MagneticField")
    ck.where = ck.location(ZB, "get_metric")
    f = fields.bare(I, base, R, Bmag=fields.component("Bmag"), pressure=fields.component("pressure"))
    before = I.call(I.getattr(g, "metric"), [], {})
    for again in (False, True):
        r = I.const_items(I.call(ck.anchor(I, ZB, "get_metric"), [g, f], {}))
        m = r[0]
        lab = "field metric (%s%s%s) " % ("one plane" if one else "periodic" if per else "open", ", cylindrical" if R else "", ", second call" if again else "")
        sh = [NX, ny, NZ]
        at = lambda i, y, j: (fn("polR", y, i, j), fn("polZ", y, i, j), ycoord(y))
        B = lambda *c: fn("Bmag", *at(*c))
        By = lambda *c: fn("By", *at(*c))
        R2 = lambda *c: mul(fn(R, *at(*c)), fn(R, *at(*c))) if R else ONE
        q = lambda *c: mul(R2(*c), mul(div(B(*c), By(*c)), div(B(*c), By(*c))))
        ck.array(lab + "g_yy", I, I.getitem(m, "g_yy"), sh, q)
        ck.array(lab + "gyy", I, I.getitem(m, "gyy"), sh, lambda *c: div(ONE, q(*c)))
        ck.array(lab + "B", I, I.getitem(m, "B"), sh, B)
        ck.array(lab + "Bxy", I, I.getitem(m, "Bxy"), sh, B)
        ck.array(lab + "pressure", I, I.getitem(m, "pressure"), sh, lambda *c: fn("pressure", *at(*c)))
        for k in COMPS + ("dx", "dz"):
            ck.array(lab + k, I, I.getitem(m, k), sh, lambda i, y, j: fn("pol_" + k, y, i, j))
        if not one:
            ck.array(lab + "dy", I, I.getitem(m, "dy"), sh, lambda i, y, j: dy_spec(y), [lt(ONE, NY)])
        pol = lambda k, i, y, j: fn("pol_" + k, y, i, j)
        ck.array(lab + "B*Jperp", I, r[1], sh, lambda *c: mul(B(*c), sqrt(sub(mul(pol("g_xx", *c), pol("g_zz", *c)), mul(pol("g_xz", *c), pol("g_xz", *c))))))
    ck.array("metric of the grid is unchanged afterwards", I, I.getitem(I.call(I.getattr(g, "metric"), [], {}), "g_yy"), [NX, ny, NZ], lambda i, y, j: ONE)
