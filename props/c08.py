"""C08: field-line direction and magnitude."""
from zsa.terms import *
from zsa import terms as tm
from zsa.values import *
from zsa.std import *
from props.fields import *

EXPLANATION = (
    "field_direction and Bmag are analysed for every class of zoidberg.field with uninterpreted components; the result "
    "and the condition of the error are compared with the specification. Combined evaluation (Bxyzfunc) is compared "
    "with the single components over an uninterpreted Cartesian field."
)
SMALL = div(ONE, num(10**8))


def run(ck):
    I0 = ck.interp()
    classes = field_classes(ck, I0)
    ck.count("field_classes", len(classes))
    for c in classes:
        for R in ("R", None):
            for rank, flat in ((1, False), (2, False), (1, True)):
                label = "%s.field_direction %s rank %d%s" % (c.name, "cylindrical" if R else "Cartesian", rank, " interleaved" if flat else "")
                ck.group(label, lambda: direction(ck, c.name, R, rank, flat, label))
        ck.group(c.name + ".Bmag", lambda: magnitude(ck, c.name))
    ck.group("components", lambda: combined(ck))


def direction(ck, cname, R, rank, flat, label):
    I = ck.interp()
    cls = ck.anchor(I, "zoidberg.field", cname)
    ck.where = ck.location("zoidberg.field", "MagneticField.field_direction")
    o = bare(I, cls, R)
    n = [sym("n%d" % k, int=True, lo=1) for k in range(rank)]
    y = sym("y")
    if flat:
        half = n[0]
        pos = I.new(Arr([mul(num(2), half)], lambda i: fn("pos", i)))

        def px(i):
            return fn("pos", mul(num(2), i))

        def pz(i):
            return fn("pos", add(mul(num(2), i), ONE))
    else:
        px, pz = (lambda *ix: fn("px", *ix)), (lambda *ix: fn("pz", *ix))
        pos = I.new(Lst([I.new(Arr(n, px)), I.new(Arr(n, pz))]))
    r = I.call(I.getattr(o, "field_direction"), [pos, y], {"flatten": TRUE} if flat else {})

    def comp(b, *ix):
        a = (px(*ix), pz(*ix), y)
        f = div(fn(b, *a), fn("By", *a))
        return mul(f, fn("R", *a)) if R else f

    facts = []
    ix = [fresh("i", int=True, lo=0, hi=s) for s in n]
    nz = [b_not(eq(fn("By", px(*ix), pz(*ix), y), ZERO))]
    if flat:
        c = I.arr(r)
        ck.shape(label, c.shape, [mul(num(2), n[0])])
        ck.eq(label + " dx/dy", c(mul(num(2), ix[0])), comp("Bx", *ix), nz)
        ck.eq(label + " dz/dy", c(add(ONE, mul(num(2), ix[0]))), comp("Bz", *ix), nz)
    else:
        dx, dz = I.unpack_items(["a", "b"], r)
        for nm, v, b in (("dx/dy", dx, "Bx"), ("dz/dy", dz, "Bz")):
            a = I.arr(v)
            ck.shape(label + " " + nm, a.shape, n)
            ck.eq(label + " " + nm, a(*ix), comp(b, *ix), nz)
    # refused exactly when |By| < 1e-8 somewhere
    g = FALSE
    for c, name, line, f in I.raises:
        g = b_or(g, c)
    jx = [fresh("j", int=True, lo=0, hi=s) for s in n]
    want = lt(tm.absv(fn("By", px(*jx), pz(*jx), y)), SMALL)
    for v, s in reversed(list(zip(jx, n))):
        want = mk_any(v, ZERO, s, want)
    tiny = lambda v, *a: D_small(v, a)
    ck.eq(label + " refuses small By", g, want, fnval={"By": tiny})


def D_small(v, args):
    """By is often tiny or zero, so that the error condition matters."""
    from decimal import Decimal as D
    import random

    k = tuple(v.key(x) for x in args)
    r = random.Random("%s/By/%s" % (v.seed, k))
    return r.choice([D(0), D("1e-9"), D("-1e-9"), D("0.9e-8"), D("1.1e-8"), D("-1.1e-8"), D(1), D(-2), D(3), D(1), D(2)])


def magnitude(ck, cname):
    I = ck.interp()
    cls = ck.anchor(I, "zoidberg.field", cname)
    m = I.class_member(cls, "Bmag")
    base = I.class_member(ck.anchor(I, "zoidberg.field", "MagneticField"), "Bmag")
    if isinstance(m, Fn) and isinstance(base, Fn) and m.node is not base.node:
        return  # supplies its own
    ck.where = ck.location("zoidberg.field", "MagneticField.Bmag")
    o = bare(I, cls)
    n = sym("n0", int=True, lo=1)
    x, z = I.new(Arr([n], lambda i: fn("px", i))), I.new(Arr([n], lambda i: fn("pz", i)))
    r = I.call(I.getattr(o, "Bmag"), [x, z, sym("y")], {})

    def want(i):
        a = (fn("px", i), fn("pz", i), sym("y"))
        return tm.sqrt(add(*[mul(fn(b, *a), fn(b, *a)) for b in ("Bx", "By", "Bz")]))

    ck.array(cname + ".Bmag", I, r, [n], want)


def cartesian(I, args, kw):
    """Field at Cartesian points: array of the three components."""
    a = I.arr(args[0])
    return I.new(Arr(a.shape, lambda c, *ix: fn("Bcart", c, a(ZERO, *ix), a(ONE, *ix), a(num(2), *ix))))


def on_demand(ck, I):
    cls = ck.anchor(I, "zoidberg.field", "W7X_vacuum_on_demand")
    return I.call(cls, [sym("configuration")], {})


def fusionsc(ck, I):
    cls = ck.anchor(I, "zoidberg.field", "FusionSCField")
    backend = Abs("fusionsc field", {"interpolateXyz": Prim("interpolateXyz", cartesian)})
    return I.call(cls, [backend], {})


def combined(ck):
    for cname, make in (("W7X_vacuum_on_demand", on_demand), ("FusionSCField", fusionsc)):
        def go():
            I = ck.interp({"zoidberg.field.W7X_vacuum._calc_chunk": Prim("chunk", lambda I, a, k: cartesian(I, [a[-2]], {}))})
            o = make(ck, I)
            n = sym("n0", int=True, lo=1)
            x, z = I.new(Arr([n], lambda i: fn("px", i))), I.new(Arr([n], lambda i: fn("pz", i)))
            y = sym("y")
            b = I.unpack_items(["a", "b", "c"], I.call(I.getattr(o, "Bxyzfunc"), [x, z, y], {}))
            c, s = tm.cosv(y), tm.sinv(y)

            def cart(k, i):
                return fn("Bcart", num(k), mul(fn("px", i), c), mul(fn("px", i), s), fn("pz", i))

            want = [
                lambda i: add(mul(cart(0, i), c), mul(cart(1, i), s)),
                lambda i: sub(mul(cart(1, i), c), mul(cart(0, i), s)),
                lambda i: cart(2, i),
            ]
            for k, nm in enumerate(("Bxfunc", "Byfunc", "Bzfunc")):
                ck.where = ck.location("zoidberg.field", cname + ".Bxyzfunc")
                ck.array("%s.Bxyzfunc component %d" % (cname, k), I, b[k], [n], want[k])
                ck.where = ck.location("zoidberg.field", cname + "." + nm)
                ck.array("%s.%s" % (cname, nm), I, I.call(I.getattr(o, nm), [x, z, y], {}), [n], want[k])
            ck.where = ck.location("zoidberg.field", cname + ".Bmag")
            ck.array(cname + ".Bmag", I, I.call(I.getattr(o, "Bmag"), [x, z, y], {}), [n],
                     lambda i: tm.sqrt(add(*[mul(cart(k, i), cart(k, i)) for k in range(3)])))
        ck.group(cname + " components", go)
