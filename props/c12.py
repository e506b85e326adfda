"""C12: tracers."""
from zsa.terms import *
from zsa import terms as tm
from zsa.values import *
from zsa.std import *
from zsa.interp import PyRaise

MOD = "zoidberg.fieldtracer"
EXPLANATION = (
    "follow_field_lines of the tracers is analysed for start points of rank 0 to 3 with symbolic sizes and a symbolic "
    "number of y values. The integrator is an uninterpreted function of one line's start point, first and requested y "
    "and tolerance, applied to each interleaved pair of its input; the element at every symbolic (y, point, component) "
    "is compared with that function applied to this point, for whole and split point sets. Rejection of bad input is "
    "the guard condition of the raised error."
)
NK = sym("ny", int=True, lo=2)
XZ = ("x", "z")
DEFAULT = sym("default_tolerance")


def run(ck):
    for shapes in (((), ()), ((1,), (1,)), ((2,), (2,)), ((3,), (3,)), ((1,), ()), ((), (1,)), ((2,), ()), ((), (2,))):
        for tol in (False, True):
            ck.group("FieldTracer", lambda: ode(ck, shapes, tol))
    for n in (1000, 1001, 1999, 2000, 2999, 3001):
        ck.group("FieldTracer in pieces", lambda: ode(ck, (("a",), ("a",)), True, n))
    ck.group("FieldTracer in pieces", lambda: ode(ck, (("b",), ("b",)), False, 3000))
    for cls in ("FieldTracer", "FieldTracerReversible", "FieldTracerWeb"):
        ck.group(cls + " rejects", lambda: reject(ck, cls))
    for shapes in (((1,), (1,)), ((2,), (2,)), ((), (1,)), ((2,), ()), ((), ())):
        ck.group("FieldTracerReversible", lambda: reversible(ck, shapes))
    for rank in (1, 2):
        for tol in (False, True):
            ck.group("FusionSCTracer", lambda: fusionsc(ck, rank, tol))
    for shapes in (((1,), (1,)), ((2,), (2,)), ((), (1,)), ((1,), ())):
        for n in (7, 20, 23):
            ck.group("FieldTracerWeb", lambda: web(ck, shapes, n))


def sizes(rank, small, lo=1):
    if small:
        return {"a": [num(small)], "b": [num(50), num(small // 50)]}[rank]
    return [sym("n%d" % k, int=True, lo=lo) for k in range(rank)]


def start(I, shapes, small=None):
    """Start points, their common shape and value at an index."""
    vs, sh = [], None
    for q, s in zip(XZ, shapes):
        if s == ():
            vs.append(sym("start_" + q))
        else:
            n = sizes(s[0], small, 2 if () in shapes else 1)
            sh = n
            vs.append(I.new(Arr(n, lambda *ix, q=q: fn("start_" + q, *ix))))
    if sh is None:
        sh = [ONE]

    def at(q):
        return (lambda *ix: sym("start_" + q)) if shapes[XZ.index(q)] == () else (lambda *ix: fn("start_" + q, *ix))

    return vs, sh, [at(q) for q in XZ]


def yvals(I):
    return I.new(Arr([NK], lambda k: fn("yval", k)))


def spec(at, tol, name="traced"):
    def f(k, *ix):
        c = ix[-1]
        p = [a(*ix[:-1]) for a in at]
        return ite(eq(k, ZERO), ite(eq(c, ZERO), *p), fn(name, c, p[0], p[1], fn("yval", ZERO), fn("yval", k), tol))

    return f


def tolerance(I, v):
    v = I.res(v)
    return DEFAULT if v is NONE else I.scalar(v)


def integrator(want):
    def f(I, args, kw):
        a = dict(zip(("func", "y0", "t", "args"), args), **kw)
        for k in a:
            if k not in ("func", "y0", "t", "args", "rtol"):
                raise Unsupported("odeint " + k)
        extra = [I.res(x) for x in I.const_items(a.get("args", Tup([])))]
        p, y = sym("probe_position"), sym("probe_y")
        del want[:]
        I.call(a["func"], [p, y] + extra, {})
        if len(want) != 1 or want[0][0] is not p or want[0][1] is not y or want[0][2] is not TRUE:
            raise Unsupported("integrates another function %r" % (want,))
        y0, t = I.arr(a["y0"]), I.arr(a["t"])
        if y0.rank != 1 or t.rank != 1:
            raise Unsupported("rank")
        tol = tolerance(I, a.get("rtol", NONE))

        def at(k, q):
            p = floor(div(q, num(2)))
            c = sub(q, mul(num(2), p))
            e = mul(num(2), p)
            return ite(eq(k, ZERO), y0(q), fn("traced", c, y0(e), y0(add(e, ONE)), t(ZERO), t(k), tol))

        return I.new(Arr([t.shape[0], y0.shape[0]], at))

    return Prim("odeint", f)


def tracer(ck, I, cls, direction):
    f = Abs("field", {"field_direction": direction})
    return I.call(ck.anchor(I, MOD, cls), [f], {})


def label(cls, shapes, more=""):
    return "%s, x of rank %s, z of rank %s%s" % (cls, *["scalar" if s == () else s[0] for s in shapes], more)


def ode(ck, shapes, tol, small=None):
    ck.where = ck.location(MOD, "FieldTracer.follow_field_lines")
    box = []

    def probe(I, args, kw):
        a = dict(zip(("pos", "ycoord", "flatten"), args), **kw)
        box.append((I.res(a["pos"]), I.res(a["ycoord"]), I.truth(a.get("flatten", FALSE))))
        return Unk("direction")

    direction = Prim("direction", probe)
    I = ck.interp({"scipy.integrate.odeint": integrator(box)})
    o = tracer(ck, I, "FieldTracer", direction)
    (x, z), sh, at = start(I, shapes, small)
    kw = {"rtol": sym("tol")} if tol else {}
    r = I.call(I.getattr(o, "follow_field_lines"), [x, z, yvals(I)], kw)
    I.need_overrides()
    lines(ck, label("FieldTracer", shapes, (", %d points" % small if small else "") + (", tolerance" if tol else "")), I, r, sh, spec(at, kw.get("rtol", DEFAULT)))


def lines(ck, lab, I, r, sh, want):
    a = I.arr(r)
    ck.shape(lab, a.shape, [NK] + sh + [num(2)])
    k = fresh("k", int=True, lo=0, hi=NK)
    ix = [fresh("i", int=True, lo=0, hi=s) for s in sh]
    for c in (0, 1):
        e = ix + [num(c)]
        ck.eq(lab + ", first y value [%d]" % c, a(ZERO, *e), want(ZERO, *e))
        ck.eq(lab + ", other y values [%d]" % c, a(k, *e), want(k, *e), [lt(ZERO, k)])


def reject(ck, cls):
    """Errors for bad input."""

    def expect(lab, x, z, y):
        ck.where = ck.location(MOD, cls + ".follow_field_lines")
        I = ck.interp({"scipy.integrate.odeint": Prim("odeint", lambda I, a, k: Unk("odeint"))})
        d = Prim("direction", lambda I, a, k: Unk("direction"))
        C = ck.anchor(I, MOD, cls)
        o = I.new(ObjC(C, dict(field_direction=d, rtol=sym("rtol"), eps=sym("eps"), nsteps=sym("nsteps", int=True, lo=1), chunk=num(10),
                               config=Abs("config", {}), stepsize=NONE, timeout=NONE, retry=NONE)))
        try:
            I.call(I.getattr(o, "follow_field_lines"), [x(I), z(I), y(I)], {})
        except PyRaise as e:
            return ck.passed("%s: %s is rejected" % (cls, lab))
        if I.raises:
            raise Unsupported("condition of the error")
        ck.violated("%s: %s is rejected" % (cls, lab), ck.where, "no error is raised")

    arr = lambda *n: lambda I: I.new(Arr([num(k) for k in n], lambda *ix: fn("val", *ix)))
    for lab, x, z, y in (
        ("a single y value", arr(4), arr(4), arr(1)),
        ("no y value", arr(4), arr(4), arr(0)),
        ("a scalar y value", arr(4), arr(4), lambda I: sym("y")),
        ("two-dimensional y values", arr(4), arr(4), arr(3, 2)),
        ("x of 4 and z of 5 points", arr(4), arr(5), arr(3)),
        ("x of 4 and z of 2x2 points", arr(4), arr(2, 2), arr(3)),
        ("x of 2x3 and z of 3x2 points", arr(2, 3), arr(3, 2), arr(3)),
        ("x of 2x2 and z of 2 points", arr(2, 2), arr(2), arr(3)),
    ):
        ck.group("%s: %s" % (cls, lab), lambda: expect(lab, x, z, y), raises_ok=True)


def reversible(ck, shapes):
    """The step is an unknown function of the line; see C19."""
    ck.where = ck.location(MOD, "FieldTracerReversible.follow_field_lines")

    def direction(I, args, kw):
        pos, y = args[0], args[1]
        x, z = I.const_items(pos)
        return Tup([I.elementwise(lambda a, b, c, q=q: fn("dir" + q, a, b, c), [x, z, y]) for q in XZ])

    I = ck.interp()
    I.iterations = []
    o = tracer(ck, I, "FieldTracerReversible", Prim("direction", direction))
    (x, z), sh, at = start(I, shapes)
    h = [ZERO, sym("h1"), add(sym("h1"), sym("h2"))]
    y = I.new(Arr([num(3)], lambda k: add(sym("y0"), h[int(numval(k))] if numval(k) is not None else fn("yval", k))))
    r = I.call(I.getattr(o, "follow_field_lines"), [x, z, y], {"nsteps": num(2)})
    a = I.arr(r)
    lab = label("FieldTracerReversible", shapes)
    ck.shape(lab, a.shape, [num(3)] + sh + [num(2)])
    ix = [fresh("i", int=True, lo=0, hi=s) for s in sh]
    for c in (0, 1):
        ck.eq(lab + ", first entry [%d]" % c, a(ZERO, *ix, num(c)), at[c](*ix))


def fusionsc(ck, rank, tol):
    ck.where = ck.location(MOD, "FusionSCTracer.follow_field_lines")
    sh = [sym("n%d" % k, int=True, lo=1) for k in range(rank)]
    box = []
    bound = lambda q, ix: fn("traced3_" + q, *ix)

    def poincare(I, args, kw):
        names = ("points", "field", "planes", "n")
        a = dict(zip(names, args), **kw)
        box.append(a)
        p = I.const_items(a["points"])
        P = [I.arr(q) for q in p]
        pl = I.arr(a["planes"])
        tol = tolerance(I, a.get("targetError", NONE))
        m = pl.shape[0]

        def at(c, k, *ix):
            return fn("traced3", c, *[q(*ix[:-1]) for q in P], pl(k), tol, tm.b2n(dirn(I, a.get("direction"))), ix[-1])

        return I.new(Arr([num(3), m] + list(P[0].shape) + [ONE], at))

    def dirn(I, v):
        return fold_dir(I, v)

    def fold_dir(I, v):
        v = I.res(v)
        if isinstance(v, IteV):
            a, b = fold_dir(I, v.a), fold_dir(I, v.b)
            return b_or(b_and(v.c, a), b_and(b_not(v.c), b))
        if v == "ccw":
            return TRUE
        if v == "cw":
            return FALSE
        raise Unsupported("direction")

    I = ck.interp({"fusionsc.flt.poincareInPhiPlanes": Prim("poincare", poincare)})
    field = Abs("field", {})
    o = I.call(ck.anchor(I, MOD, "FusionSCTracer"), [field], {})
    (x, z), sh, at = start(I, ((rank,), (rank,)))
    kw = {"rtol": sym("tol")} if tol else {}
    r = I.call(I.getattr(o, "follow_field_lines"), [x, z, yvals(I)], kw)
    I.need_overrides()
    if I.res(box[0]["field"]) is not field:
        raise Unsupported("another field")
    y0 = fn("yval", ZERO)

    def want(k, *ix):
        c, ix = ix[-1], ix[:-1]
        X, Z = at[0](*ix), at[1](*ix)
        T3 = lambda q: fn("traced3", num(q), mul(tm.cosv(y0), X), mul(tm.sinv(y0), X), Z, fn("yval", k), kw.get("rtol", DEFAULT), tm.b2n(lt(y0, fn("yval", ONE))), ZERO)
        R = sqrt(add(mul(T3(0), T3(0)), mul(T3(1), T3(1))))
        return ite(eq(k, ZERO), ite(eq(c, ZERO), X, Z), ite(eq(c, ZERO), R, T3(2)))

    lines(ck, "FusionSCTracer rank %d%s" % (rank, ", tolerance" if tol else ""), I, r, sh, want)


def web(ck, shapes, n):
    """Pieces of ten points."""
    ck.where = ck.location(MOD, "FieldTracerWeb.follow_field_lines")
    I = ck.interp()
    C = ck.anchor(I, MOD, "FieldTracerWeb")

    def piece(I, args, kw):
        a = dict(zip(("x_values", "z_values", "y_values", "rtol", "stepsize"), args), **kw)
        X, Z, Y = [I.arr(a[k]) for k in ("x_values", "z_values", "y_values")]

        def at(k, i, c):
            p = X(i), Z(i)
            return ite(eq(k, ZERO), ite(eq(c, ZERO), *p), fn("traced", c, p[0], p[1], Y(ZERO), Y(k), tolerance(I, a["stepsize"])))

        return I.new(Arr([Y.shape[0], X.shape[0], num(2)], at))

    o = I.new(ObjC(C, dict(chunk=num(10), config=Abs("config", {}), stepsize=NONE, timeout=NONE, retry=NONE,
                           _follow_field_lines=Prim("piece", piece))))
    vs, sh = [], None
    for q, s in zip(XZ, shapes):
        if s == ():
            vs.append(sym("start_" + q))
        else:
            sh = [num(n)] if s[0] == 1 else [num(2), num(n)]
            vs.append(I.new(Arr(sh, lambda *ix, q=q: fn("start_" + q, *ix))))
    at = [(lambda *ix, q=q: sym("start_" + q)) if s == () else (lambda *ix, q=q: fn("start_" + q, *ix)) for q, s in zip(XZ, shapes)]
    for st in (None, sym("stepsize")):
        kw = {"stepsize": st} if st is not None else {}
        r = I.call(I.getattr(o, "follow_field_lines"), vs + [yvals(I)], kw)
        lines(ck, label("FieldTracerWeb", shapes, ", %d points" % n), I, r, sh, spec(at, st if st is not None else DEFAULT))
