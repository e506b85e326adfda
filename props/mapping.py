"""make_maps on a grid of abstract planes with an uninterpreted tracer (C14, C26)."""
from zsa.terms import *
from zsa import terms as tm
from zsa.values import *
from zsa.std import *

MOD = "zoidberg.zoidberg"
NX = sym("nx", int=True, lo=4)
NY = sym("ny", int=True, lo=1)
NZ = sym("nz", int=True, lo=3)
XZ = ("x", "z")


def yof(k):
    return fn("yof", k)


def none(k):
    return bfn("noplane", k)


def traced(q, x, z, ya, yb):
    return (x if q == "x" else z) if same(ya, yb) else fn("traced_" + q, x, z, ya, yb)


class World:
    pass


def world(ck, overrides=None, scalar_metric=False, slab=False, nx=NX, ny=NY, nz=NZ):
    """Grid, field and tracer; w.interp holds the interpolators made."""
    w = World()
    w.tables = []
    w.nx, w.ny, w.nz = nx, ny, nz

    def table(I, args, kw):
        a = dict(zip(("points", "values"), args), **kw)
        ax = [I.arr(p) for p in I.const_items(a["points"])]
        v = I.arr(a["values"])
        n = len(w.tables)
        w.tables.append((ax, v))

        def at(I, args, kw):
            return I.elementwise(lambda p, q: fn("table%d" % n, p, q), I.const_items(args[0]))

        return Prim("table", at)

    def roots(I, args, kw):
        n, al, be = [I.scalar(a) for a in args[:3]]
        m = int(numval(n))
        return Tup([I.new(Arr([num(m)], lambda k, q=q: fn(q, n, al, be, k))) for q in ("node", "weight")])

    def length(I, args, kw):
        c, y = [I.arr(a) for a in args[:2]]
        n = numval(y.shape[0])
        if n is None or numval(c.shape[0]) != n:
            raise Unsupported("length of lines with an unknown number of points")
        return I.new(Arr(c.shape[1:-1], lambda *ix: fn("length", *[t for k in range(int(n)) for t in (c(num(k), *ix, ZERO), c(num(k), *ix, ONE), y(num(k)))])))

    ov = {"scipy.interpolate.RegularGridInterpolator": Prim("table", table), "scipy.special.roots_jacobi": Prim("roots", roots),
          MOD + ".field_line_length": Prim("length", length)}
    ov.update(overrides or {})
    I = w.I = ck.interp(ov)

    def attrs(k):
        def find(I, args, kw):
            a = dict(zip(("R", "Z"), args), **kw)
            return Tup([I.elementwise(lambda x, z, q=q: fn("found_" + q, k, x, z), [a["R"], a["Z"]]) for q in XZ])

        def pos(I, args, kw):
            a = dict(zip(("xind", "zind"), args), **kw)
            return Tup([I.elementwise(lambda x, z, q=q: fn("pos" + q, k, x, z), [a["xind"], a["zind"]]) for q in "RZ"])

        def metric(I, args, kw):
            d = {}
            for c in ("gxx", "gxz", "gzz", "g_xx", "g_xz", "g_zz", "dx", "dz"):
                d[c] = fn("pol_" + c, k) if scalar_metric else I.new(Arr([nx, nz], lambda i, j, c=c: fn("pol_" + c, k, i, j)))
            return I.new(Dct(d))

        return {"nx": nx, "nz": nz, "R": lambda I, v: I.new(Arr([nx, nz], lambda i, j: fn("polR", k, i, j))),
                "Z": lambda I, v: I.new(Arr([nx, nz], lambda i, j: fn("polZ", k, i, j))),
                "findIndex": Prim("findIndex", find), "getCoordinate": Prim("getCoordinate", pos), "metric": Prim("metric", metric)}

    def get(I, args, kw):
        k = I.scalar(args[0] if args else kw["yindex"])
        here = tm.is_int(k) and (tm.positive(add(k, ONE)) and tm.positive(sub(ny, k)))
        p = plane(k, attrs)
        return Tup([p if here else IteV(none(k), NONE, p), yof(k)])

    w.grid = Abs("grid", {"getPoloidalGrid": Prim("getPoloidalGrid", get), "numberOfPoloidalGrids": Prim("numberOfPoloidalGrids", lambda I, a, k: ny),
                          "shape": Tup([nx, ny, nz])})

    def outside(I, args, kw):
        a = dict(zip("xyz", args), **kw)
        return I.elementwise(lambda x, y, z: bfn("outside", x, y, z), [a["x"], a["y"], a["z"]])

    def comp(name):
        def f(I, args, kw):
            a = dict(zip(("x", "z", "phi"), args), **kw)
            return I.elementwise(lambda x, z, p: fn("field_" + name, x, z, p), [a["x"], a["z"], a["phi"]])

        return Prim(name, f)

    w.field = Abs("field", {"boundary": Abs("boundary", {"outside": Prim("outside", outside)}),
                            "$isinstance": lambda I, c: TRUE if slab and isinstance(c, ClassV) and c.name == "Slab" else FALSE,
                            **{n: comp(n) for n in ("Bxfunc", "Byfunc", "Bzfunc", "Bmag", "Rfunc", "pressure")}})
    w.calls = []

    def follow(I, args, kw):
        a = dict(zip(("x_values", "z_values", "y_values"), args), **kw)
        x, z, y = [I.arr(a[k]) for k in ("x_values", "z_values", "y_values")]
        w.calls.append((x, z, y))
        return I.new(Arr([y.shape[0], *x.shape, num(2)], lambda k, *ix: ite(eq(ix[-1], ZERO), *[
            traced(q, x(*ix[:-1]), z(*ix[:-1]), y(ZERO), y(k)) for q in XZ])))

    w.tracer = Abs("tracer", {"follow_field_lines": Prim("follow", follow), "__bool__": Prim("bool", lambda I, a, k: TRUE)})
    return w


def maps(ck, w, **kw):
    I = w.I
    f = ck.anchor(I, MOD, "make_maps")
    ck.where = ck.location(MOD, "make_maps")
    kw.setdefault("quiet", TRUE)
    if "field_tracer" not in kw:
        kw["field_tracer"] = w.tracer
    r = I.res(I.call(f, [w.grid, w.field], kw))
    d = I.content(r)
    if not isinstance(d, Dct):
        raise Unsupported("maps are not a dictionary")
    return d.d if hasattr(d, "d") else d.items
