"""C22: periodic lines."""
from zsa.terms import *
from zsa import terms as tm
from zsa.values import *
from zsa.std import *

MOD = "zoidberg.rzline"
EXPLANATION = (
    "RZline is analysed for symbolic numbers of points and symbolic coordinates; splines, linear interpolation and "
    "quadrature are the library's, applied by a reference in /verif/specs/rzline.py to the same points. Stored points, "
    "angles, values and derivatives at symbolic angles, polygon positions, distances and re-spaced lines are compared "
    "element by element."
)
N = sym("n", int=True, lo=3)
PI2 = mul(num(2), tm.PI)


def run(ck):
    for order in (None, 1):
        ck.group("points", lambda: points(ck, order))
        ck.group("values", lambda: values(ck, order))
    ck.group("polygon", lambda: polygon(ck))
    ck.group("distance", lambda: distance(ck))
    ck.group("distance of polygons", lambda: distance1(ck))
    ck.group("equally spaced", lambda: spaced(ck))
    ck.group("circle", lambda: circle(ck))
    ck.group("shaped_line", lambda: shaped(ck))
    ck.group("sorted points", lambda: is_sorted(ck))


def line(ck, I, order=None, **kw):
    r = I.new(Arr([N], lambda i: fn("r", i)))
    z = I.new(Arr([N], lambda i: fn("z", i)))
    if order:
        kw["spline_order"] = num(order)
    return I.call(ck.anchor(I, MOD, "RZline"), [r, z], kw)


def straight(I, l):
    """R and Z of the line as symbols of their own."""
    R = I.new(Arr([N], lambda i: fn("R", i)))
    Z = I.new(Arr([N], lambda i: fn("Z", i)))
    return R, Z


def area2(ck, I):
    r, z = [I.new(Arr([N], lambda i, q=q: fn(q, i))) for q in "rz"]
    return I.scalar(I.call(ck.reference(I, "rzline", "area"), [r, z], {}))


def points(ck, order):
    I = ck.interp()
    ck.where = ck.location(MOD, "RZline.__init__")
    l = line(ck, I, order)
    A = area2(ck, I)
    facts = [b_not(eq(A, ZERO))]
    back = lt(ZERO, A)
    lab = "order %s: " % (order or 3)
    for q in "RZ":
        v = q.lower()
        for f, want in (([back], lambda i: fn(v, sub(sub(N, ONE), i))), ([b_not(back)], lambda i: fn(v, i))):
            ck.array(lab + q + (" of a clockwise line" if f[0] is back else ""), I, I.getattr(l, q), [N], want, facts + f)
    ck.array(lab + "theta", I, I.getattr(l, "theta"), [N], lambda i: div(mul(PI2, i), N))
    I = ck.interp()
    l = line(ck, I, order, anticlockwise=FALSE)
    for q in "RZ":
        ck.array(lab + q + " kept", I, I.getattr(l, q), [N], lambda i: fn(q.lower(), i))


def values(ck, order):
    for q in "RZ":
        I = ck.interp()
        l = line(ck, I, order, anticlockwise=FALSE)
        ck.where = ck.location(MOD, "RZline.%svalue" % q)
        src = I.new(Arr([N], lambda i: fn(q.lower(), i)))
        k = num(order or 3)
        val, atp = ck.reference(I, "rzline", "value"), ck.reference(I, "rzline", "at_points")
        for rank in (0, 1, 2):
            sh = [sym("m%d" % j, int=True, lo=1) for j in range(rank)]
            t = I.new(Arr(sh, lambda *ix: fn("angle", *ix))) if rank else sym("angle")
            for der in (0, 1, 2):
                lab = "order %s: %s at angles of rank %d, derivative %d" % (order or 3, q, rank, der)
                kw = {"theta": t}
                if der:
                    kw["deriv"] = num(der)
                got = I.call(I.getattr(l, q + "value"), [], kw)
                want = I.arr(I.call(val, [src, k, t, num(der)], {}))
                ck.array(lab, I, got, sh, lambda *ix: want(*ix))
            if rank == 1:
                p = I.const_items(I.call(I.getattr(l, "position"), [t], {}))
                want = I.arr(I.call(val, [src, k, t, ZERO], {}))
                ck.array("order %s: position %s" % (order or 3, q), I, p["RZ".index(q)], sh, lambda *ix: want(*ix))
        for der in (0, 1):
            got = I.call(I.getattr(l, q + "value"), [], {"deriv": num(der)})
            want = I.arr(I.call(atp, [src, k, num(der)], {}))
            ck.array("order %s: %s at the points, derivative %d" % (order or 3, q, der), I, got, [N], lambda i: want(i))


def polygon(ck):
    for rank in (0, 1):
        I = ck.interp()
        l = line(ck, I, anticlockwise=FALSE)
        ck.where = ck.location(MOD, "RZline.positionPolygon")
        sh = [sym("m%d" % j, int=True, lo=1) for j in range(rank)]
        t = I.new(Arr(sh, lambda *ix: fn("angle", *ix))) if rank else sym("angle")
        p = I.const_items(I.call(I.getattr(l, "positionPolygon"), [t], {}))

        def want(q):
            def f(*ix):
                a = fn("angle", *ix) if rank else t
                pos = div(mul(a, N), PI2)
                k = floor(pos)
                rem = sub(pos, k)
                at = lambda j: fn(q, mod(j, N))
                return add(mul(rem, at(add(k, ONE))), mul(sub(ONE, rem), at(k)))

            return f

        for q, v in zip("rz", p):
            ck.array("polygon position %s of rank %d" % (q, rank), I, v, sh, want(q))
        p = I.const_items(I.call(I.getattr(l, "positionPolygon"), [], {}))
        for q, v in zip("rz", p):
            ck.array("polygon position %s at the points" % q, I, v, [N], lambda i: fn(q, i))


def distance(ck):
    I = ck.interp()
    l = line(ck, I, anticlockwise=FALSE)
    ck.where = ck.location(MOD, "RZline.distance")
    S = sym("sample", int=True, lo=1)
    got = I.call(I.getattr(l, "distance"), [], {"sample": S})
    R, Z = [I.new(Arr([N], lambda i, q=q: fn(q, i))) for q in "rz"]
    want = I.arr(I.call(ck.reference(I, "rzline", "distance"), [R, Z, num(3), S], {}))
    ck.array("distance", I, got, [add(N, ONE)], lambda i: want(i))
    a = I.arr(got)
    ck.eq("distance starts at zero", a(ZERO), ZERO)
    W = I.new(Arr([sym("m", int=True, lo=1)], lambda i: fn("weight", i)))
    got = I.call(I.getattr(l, "distance"), [], {"sample": S, "weights": W})
    want2 = I.arr(I.call(ck.reference(I, "rzline", "weighted"), [R, Z, num(3), S, W], {}))
    ck.array("weighted distance", I, got, [add(N, ONE)], lambda i: want2(i))


def distance1(ck):
    I = ck.interp()
    l = line(ck, I, 1, anticlockwise=FALSE)
    ck.where = ck.location(MOD, "RZline.distance")
    step = lambda j: sqrt(add(*[mul(e, e) for e in (sub(fn(q, j), fn(q, ite(lt(add(j, ONE), N), add(j, ONE), sub(add(j, ONE), N)))) for q in "rz")]))
    m = sym("m", int=True, lo=1)
    for weighted in (False, True):
        kw, w = {}, lambda j: ONE
        if weighted:
            W = I.new(Arr([m], lambda i: fn("weight", i)))
            kw["weights"] = W
            v = I.arr(I.call(ck.reference(I, "rzline", "weight"), [W, N], {}))
            w = lambda j: v(j)
        got = I.call(I.getattr(l, "distance"), [], kw)

        def want(i):
            j = fresh("j", int=True, lo=0)
            return mk_sum(j, ZERO, i, mul(step(j), w(j)))

        lab = "%sdistance along a polygon" % ("weighted " if weighted else "")
        a = I.arr(got)
        ck.shape(lab, a.shape, [add(N, ONE)])
        i = fresh("i", int=True, lo=0, hi=N)
        ck.eq(lab, a(i), want(i), [lt(i, N)])
        ck.eq(lab + ", total", a(N), want(N))


def capture(ck, box):
    def f(I, args, kw):
        a = dict(zip(("r", "z", "anticlockwise", "spline_order", "smooth"), args), **kw)
        box.append(a)
        return NONE

    return Prim("RZline", f)


def spaced(ck):
    for given in (False, True):
        box = []
        I0 = ck.interp()
        cls = ck.anchor(I0, MOD, "RZline")
        I = ck.interp()
        l = line(ck, I, anticlockwise=FALSE)
        I.overrides[MOD + ".RZline"] = capture(ck, box)
        ck.where = ck.location(MOD, "RZline.equallySpaced")
        d = I.new(Arr([add(N, ONE)], lambda i: fn("dist", i)))
        o = I.res(l)
        I.setattr(l, "distance", Prim("distance", lambda I, a, k: d))
        M = sym("m", int=True, lo=3) if given else N
        I.call(I.getattr(l, "equallySpaced"), [], {"n": M} if given else {})
        if len(box) != 1:
            raise Unsupported("%d lines" % len(box))
        R, Z = [I.new(Arr([N], lambda i, q=q: fn(q, i))) for q in "rz"]
        want = I.const_items(I.call(ck.reference(I, "rzline", "spaced"), [R, Z, num(3), M, d], {}))
        for q, k in enumerate("rz"):
            w = I.arr(want[q])
            ck.array("equally spaced %s%s" % (k, ", given number" if given else ""), I, box[0][k], [M], lambda i: w(i))


def built(ck, name, kw):
    box = []
    I = ck.interp({MOD + ".RZline": capture(ck, box)})
    ck.where = ck.location(MOD, name)
    I.call(ck.anchor(I, MOD, name), [], kw)
    I.need_overrides()
    if len(box) != 1:
        raise Unsupported("%d lines" % len(box))
    return I, box[0]


def circle(ck):
    R0, r = sym("R0"), sym("radius")
    I, b = built(ck, "circle", {"R0": R0, "r": r, "n": N})
    th = lambda i: div(mul(PI2, i), N)
    ck.array("circle R", I, b["r"], [N], lambda i: add(R0, mul(r, tm.cosv(th(i)))))
    ck.array("circle Z", I, b["z"], [N], lambda i: mul(r, tm.sinv(th(i))))


def shaped(ck):
    v = {k: sym(k) for k in ("R0", "a", "elong", "triang", "indent")}
    I, b = built(ck, "shaped_line", dict(v, n=N))
    th = lambda i: div(mul(PI2, i), N)
    c, s = lambda i: tm.cosv(th(i)), lambda i: tm.sinv(th(i))
    ck.array("shaped line R", I, b["r"], [N], lambda i: add(sub(v["R0"], v["indent"]), mul(add(v["a"], mul(v["indent"], c(i))), tm.cosv(add(th(i), mul(v["triang"], s(i)))))))
    ck.array("shaped line Z", I, b["z"], [N], lambda i: mul(mul(add(ONE, v["elong"]), v["a"]), s(i)))


def is_sorted(ck):
    box = []
    I = ck.interp({MOD + ".RZline": capture(ck, box)})
    ck.where = ck.location(MOD, "line_from_points")
    r, z = [I.new(Arr([N], lambda i, q=q: fn(q, i))) for q in "rz"]
    I.call(ck.anchor(I, MOD, "line_from_points"), [r, z], {"is_sorted": TRUE})
    I.need_overrides()
    if len(box) != 1:
        raise Unsupported("%d lines" % len(box))
    for k in "rz":
        ck.array("line through sorted points, %s" % k, I, box[0][k], [N], lambda i: fn(k, i))
