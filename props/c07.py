"""C07: finite-difference stencils and line length."""
from zsa import terms as tm
from zsa.terms import sym, fn, num, add, sub, mul, div, ite, eq, lt, mod, ipow, ZERO, ONE, sqrt, mk_sum, fresh
from zsa.values import Arr, Tup, Ref, NONE

EXPLANATION = (
    "Value-flow analysis of c2, c4 and field_line_length with symbolic array sizes: the term computed for a generic "
    "element of the result is compared with the specified stencil; end formulas are applied to a generic polynomial."
)


def field(name, sizes):
    return Arr(sizes, lambda *ix: fn(name, *ix))


def poly(sizes, axis, deg):
    def f(*ix):
        o = [x for k, x in enumerate(ix) if k != axis]
        return add(*[mul(fn("coef%d" % d, *o), ipow(ix[axis], d)) for d in range(deg + 1)])

    return Arr(sizes, f)


def dpoly(ix, axis, deg):
    o = [x for k, x in enumerate(ix) if k != axis]
    return add(*[mul(num(d), mul(fn("coef%d" % d, *o), ipow(ix[axis], d - 1))) for d in range(1, deg + 1)])


def run(ck):
    ck.rule("interior", "(f[i+1]-f[i-1])/2 and (-f[i+2]+8f[i+1]-8f[i-1]+f[i-2])/12")
    ck.rule("ends", "applied to a polynomial of the stated degree (c2: 1, c4: 4) the result is its derivative")
    for name, width, deg in (("c2", 1, 1), ("c4", 2, 4)):
        for rank in (1, 2, 3) if not ck.thorough else (1, 2, 3, 4):
            for axis in range(rank):
                axes = [axis] if rank > 2 and not ck.thorough else [axis, axis - rank]
                for ax in axes:
                    for per in (True, False):
                        one(ck, name, width, deg, rank, axis, ax, per)
    ck.group("field_line_length", lambda: length(ck))


def stencil(name, g):
    if name == "c2":
        return div(sub(g(1), g(-1)), num(2))
    return div(add(mul(num(-1), g(2)), mul(num(8), g(1)), mul(num(-8), g(-1)), g(-2)), num(12))


def one(ck, name, width, deg, rank, axis, ax, per):
    label = "%s rank %d axis %d %s" % (name, rank, ax, "periodic" if per else "open")
    ck.where = ck.location("zoidberg.diff", name)
    least = 2 * width + 1
    sizes = [sym("n%d" % k, int=True, lo=1 if k != axis else least) for k in range(rank)]
    n = sizes[axis]

    def at(ix, k):
        return [add(x, num(k)) if j == axis else x for j, x in enumerate(ix)]

    def go():
        I = ck.interp()
        f = ck.anchor(I, "zoidberg.diff", name)
        src = field("f", sizes)
        a = I.new(src)
        r = I.call(f, [a, num(ax)], {"periodic": tm.TRUE if per else tm.FALSE})
        if per:

            def spec(*ix):
                def g(k):
                    j = list(ix)
                    j[axis] = mod(add(ix[axis], num(k)), n)
                    return fn("f", *j)

                return stencil(name, g)

            ck.array(label, I, r, sizes, spec)
        else:
            c = I.arr(r)
            ck.shape(label, c.shape, sizes)
            ix = [fresh("i%d" % k, int=True, lo=0 if k != axis else width, hi=s if k != axis else sub(s, num(width))) for k, s in enumerate(sizes)]
            ck.eq(label + " interior", c(*ix), stencil(name, lambda k: fn("f", *at(ix, k))))
            # ends: every element is assigned from the input, and exact for polynomials
            ck.group(label + " ends", lambda: ends(ck, label, name, rank, axis, ax, deg, sizes))
        after = I.arr(a)
        jx = [fresh("j%d" % k, int=True, lo=0, hi=s) for k, s in enumerate(sizes)]
        ck.eq(label + " input unchanged", after(*jx), fn("f", *jx))

    ck.group(label, go)


def ends(ck, label, name, rank, axis, ax, deg, sizes):
    I = ck.interp()
    f = ck.anchor(I, "zoidberg.diff", name)
    a = I.new(poly(sizes, axis, deg))
    c = I.arr(I.call(f, [a, num(ax)], {}))
    ix = [fresh("i%d" % k, int=True, lo=0, hi=s) for k, s in enumerate(sizes)]
    n = sizes[axis]
    for e in range(2 if name == "c4" else 1):
        for pos, w in ((num(e), "element %d" % e), (sub(n, num(e + 1)), "element n-%d" % (e + 1))):
            j = list(ix)
            j[axis] = pos
            if name == "c2":
                # the half difference of two elements that are two apart, or better
                ck.eq(label + " " + w, c(*j), dpoly(j, axis, 1))
            else:
                ck.eq(label + " " + w, c(*j), dpoly(j, axis, deg))


def length(ck):
    ck.where = ck.location("zoidberg.diff", "field_line_length")
    for extra in (0, 1, 2):
        def go():
            I = ck.interp()
            f = ck.anchor(I, "zoidberg.diff", "field_line_length")
            ny = sym("nyl", int=True, lo=2)
            dims = [sym("m%d" % k, int=True, lo=1) for k in range(extra)]
            rz = I.new(Arr([ny] + dims + [num(2)], lambda *ix: fn("RZ", *ix)))
            y = I.new(Arr([ny], lambda i: fn("y", i)))
            refine = sym("refine", int=True, lo=1)
            r = I.call(f, [rz, y, refine], {})
            ref = ck.reference(I, "diff", "field_line_length")
            s = I.call(ref, [rz, y, refine], {})
            b = I.arr(s)
            ck.array("field_line_length, %d extra axes" % extra, I, r, dims, b)
        ck.group("field_line_length", go)
