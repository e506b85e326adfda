"""C05: lookup of poloidal planes by index."""
from zsa.terms import *
from zsa import terms as tm
from zsa.values import *
from zsa.std import *

EXPLANATION = (
    "Grid is constructed abstractly with a symbolic number of planes; the plane and y value returned for a symbolic "
    "integer index, and for a symbolic fractional index, are compared with the specified closed form."
)


def sizes(k):
    return {"nx": sym("nx", int=True, lo=1), "nz": sym("nz", int=True, lo=1)}


def make(ck, per):
    I = ck.interp()
    G = ck.anchor(I, "zoidberg.grid", "Grid")
    ny = sym("ny", int=True, lo=1)
    y = I.new(Arr([ny], lambda i: fn("y", i)))
    g = I.call(G, [plane_list(I, ny, sizes), y, sym("Ly")], {"yperiodic": TRUE if per else FALSE})
    return I, g, ny


def y_spec(j, ny, per):
    Ly = sym("Ly")
    inr = b_and(le(ZERO, j), lt(j, ny))
    if per:
        return add(fn("y", mod(j, ny)), mul(floor(div(j, ny)), Ly))
    return ite(inr, fn("y", j), ite(lt(j, ZERO), ZERO, Ly))


def run(ck):
    ck.rule("in range", "plane j and y[j]")
    ck.rule("periodic", "plane j mod ny, y[j mod ny] + floor(j/ny)*Ly")
    ck.rule("open", "no plane; 0 below, Ly above")
    ck.rule("fraction", "no plane; y(floor) + (y(floor+1)-y(floor))*(q-floor)")
    ck.where = ck.location("zoidberg.grid", "Grid.getPoloidalGrid")
    for per in (True, False):
        p = "periodic" if per else "open"
        inrange = []

        def whole():
            I, g, ny = make(ck, per)
            j = sym("j", int=True)
            r = I.call(I.getattr(g, "getPoloidalGrid"), [j], {})
            pol, y = I.unpack_items(["a", "b"], r)
            inr = b_and(le(ZERO, j), lt(j, ny))
            want = mod(j, ny) if per else ite(inr, j, NOPLANE)
            for nm, fact in (("in range", inr), ("out of range", b_not(inr))):
                ck.eq("%s whole index %s: plane" % (p, nm), plane_no(I, pol), want, [fact])
                ck.eq("%s whole index %s: y" % (p, nm), I.scalar(y), y_spec(j, ny, per), [fact])

        def fraction():
            I, g, ny = make(ck, per)
            b = sym("b", int=True)
            t = sym("t", lo=ZERO, hi=ONE)
            facts = [lt(div(ONE, num(1000)), t), lt(t, div(num(999), num(1000)))]
            q = add(b, t)
            r = I.call(I.getattr(g, "getPoloidalGrid"), [q], {})
            pol, y = I.unpack_items(["a", "b"], r)
            ck.eq("%s fractional index: plane" % p, plane_no(I, pol), NOPLANE, facts)
            y0, y1 = y_spec(b, ny, per), y_spec(add(b, ONE), ny, per)
            ck.eq("%s fractional index: y" % p, I.scalar(y), add(y0, mul(sub(y1, y0), t)), facts)

        ck.group(p + " whole index", whole)
        ck.group(p + " fractional index", fraction)

    def single():
        I = ck.interp()
        G = ck.anchor(I, "zoidberg.grid", "Grid")
        ny = sym("ny", int=True, lo=1)
        y = I.new(Arr([ny], lambda i: fn("y", i)))
        g = I.call(G, [plane(sym("only"), sizes), y, sym("Ly")], {"yperiodic": TRUE})
        r = I.call(I.getattr(g, "getPoloidalGrid"), [sym("jin", int=True, lo=0, hi=ny)], {})
        pol, yy = I.unpack_items(["a", "b"], r)
        ck.eq("one plane for all y", plane_no(I, pol), sym("only"))
        ck.eq("one plane for all y: y", I.scalar(yy), fn("y", sym("jin")))
        sh = I.const_items(I.getattr(g, "shape"))
        for nm, a, b in zip(("nx", "ny", "nz"), sh, (sym("nx"), ny, sym("nz"))):
            ck.eq("shape: " + nm, I.scalar(a), b)
        ck.eq("number of planes", I.scalar(I.call(I.getattr(g, "numberOfPoloidalGrids"), [], {})), ny)

    ck.group("one plane", single)
