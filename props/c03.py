"""C03: which mapped points hit a radial boundary, and how maps are adjusted."""
from zsa.terms import *
from zsa import terms as tm
from zsa.values import *
from zsa.std import *
from props.mapsin import *

MOD = "zoidberg.weights"
SMALL = ("props.mapsin",)
EXPLANATION = (
    "The boundary test, the classification of sub-samples and both modes of modify_maps are analysed for symbolic grid "
    "sizes, guard widths, sub-sample counts and maps; results at a symbolic cell are compared with the specified rule. "
    "Numbering and leg classification use the same rule (same obligations as in C02)."
)


def run(ck):
    ck.group("hits_radial_boundary", lambda: rule(ck))
    ck.group("classify_leg_contributions", lambda: classify(ck))
    for partial in (True, False):
        for ns in (NS, ONE, num(2), num(3)):
            ck.group("modify_maps partial=%s" % partial, lambda: modify(ck, partial, ns))
    for sub_ in (True, False):
        for d in DIRS:
            ck.group("users", lambda: users(ck, sub_, d))


def rule(ck):
    I = ck.interp()
    ck.where = ck.location(MOD, "hits_radial_boundary")
    x, n, g = sym("x"), sym("nxv", int=True, lo=1), sym("gv", int=True, lo=0)
    r = I.truth(I.call(ck.anchor(I, MOD, "hits_radial_boundary"), [x, n, g], {}))
    ck.eq("hits_radial_boundary", r, b_or(lt(x, g), lt(sub(sub(n, g), ONE), x)))


def classify(ck):
    I = ck.interp()
    ck.where = ck.location(MOD, "classify_leg_contributions")
    xs = I.new(Arr([NS], lambda s: fn("xs", s)))
    w = I.new(Arr([NS], weight))
    r = I.call(ck.anchor(I, MOD, "classify_leg_contributions"), [xs, w, NX, MXG], {})
    h = lambda s: b_or(lt(fn("xs", s), MXG), lt(sub(sub(NX, MXG), ONE), fn("xs", s)))
    val = {"xs": near}
    ck.array("classification", I, get(I, r, "hits_boundary"), [NS], h, fnval=val)
    s = fresh("s", int=True, lo=0, hi=NS)
    ck.eq("has a boundary leg", I.truth(get(I, r, "has_boundary_leg")), mk_any(s, ZERO, NS, h(s)), fnval=val)
    ck.eq("has an interior leg", I.truth(get(I, r, "has_interior_leg")), mk_any(s, ZERO, NS, b_not(h(s))), fnval=val)
    ck.eq("boundary fraction", I.scalar(get(I, r, "boundary_fraction")), mk_sum(s, ZERO, NS, ite(h(s), weight(s), ZERO)), fnval=val)
    ck.eq("interior fraction", I.scalar(get(I, r, "interior_fraction")), mk_sum(s, ZERO, NS, ite(h(s), ZERO, weight(s))), fnval=val)


def modify(ck, partial, ns):
    """State of the maps handed to the operators, and what is returned."""
    seen = []

    def operators(I, a, k):
        seen.append({q: I.arr(get(I, a[0], q)) for d in DIRS for q in (d + "_xt_primes", d + "_zt_primes", d + "_xt_prime", d + "_zt_prime")})
        return I.new(Dct({}))

    I = ck.interp({MOD + ".calculate_parallel_map_operators": Prim("operators", operators)})
    ck.where = ck.location(MOD, "modify_maps")
    m = maps(I, ns=ns)
    r = I.call(ck.anchor(I, MOD, "modify_maps"), [m], {"partial_boundaries": TRUE if partial else FALSE})
    I.need_overrides()
    got = seen[-1]
    lab0 = "modify_maps %s %s sub-samples: " % ("partial" if partial else "whole", "any number of" if ns is NS else numval(ns))
    for d in DIRS:
        c = lambda *ix: fn("xc_" + d, *ix)
        cz = lambda *ix: fn("zc_" + d, *ix)
        anyh = lambda *ix: has_boundary(d, *ix, ns)
        allh = lambda *ix: b_not(has_interior(d, *ix, ns))
        chit = lambda *ix: b_or(lt(c(*ix), MXG), lt(sub(sub(NX, MXG), ONE), c(*ix)))

        def centre(*ix):
            return ite(anyh(*ix), num(-1), c(*ix)) if partial else c(*ix)

        def samples(fs, fc):
            def f(*ix):
                if partial:
                    return fs(d, *ix)
                q = ix[:3]
                part = b_and(anyh(*q), b_not(allh(*q)))
                return ite(b_and(part, b_or(chit(*q), hit(d, *ix))), fc(*q), fs(d, *ix))
            return f

        ck.array(lab0 + d + " centre x", I, I.new(got[d + "_xt_prime"]), [NX, NY, NZ], centre, fnval=VALS)
        ck.array(lab0 + d + " centre z", I, I.new(got[d + "_zt_prime"]), [NX, NY, NZ], cz, fnval=VALS)
        ck.array(lab0 + d + " samples x", I, I.new(got[d + "_xt_primes"]), [NX, NY, NZ, ns], samples(xt, c), fnval=VALS)
        ck.array(lab0 + d + " samples z", I, I.new(got[d + "_zt_primes"]), [NX, NY, NZ, ns], samples(zt, cz), fnval=VALS)
        ck.array(lab0 + d + " returned x", I, get(I, r, d + "_xt_prime"), [NX, NY, NZ], centre, fnval=VALS)
        ck.array(lab0 + d + " returned z", I, get(I, r, d + "_zt_prime"), [NX, NY, NZ], cz, fnval=VALS)


def users(ck, sub_, d):
    """Numbering and legs use the same rule."""
    ns = NS if sub_ else ONE
    I = ck.interp()
    lab = d + (" sub-sampled" if sub_ else "")
    ck.where = ck.location(MOD, "assign_cell_space_numbers")
    r = I.call(ck.anchor(I, MOD, "assign_cell_space_numbers"), [maps(I, sub_)], {})
    x, y, z = [fresh(q, int=True, lo=0, hi=n) for q, n in zip("xyz", (NX, NY, NZ))]
    b = I.arr(get(I, r, d + "_boundary_number"))(x, y, z)
    ck.eq(lab + " cell has a boundary number", b_not(eq(b, num(-1))), b_and(inner(x), has_boundary(d, x, y, z, ns)), fnval=VALS)
    ck.where = ck.location(MOD, "build_leg_space_metadata")
    direction = I.get_global(ck.module(MOD), d.upper() + "_DIRECTION")
    r = I.call(ck.anchor(I, MOD, "build_leg_space_metadata"), [r, maps(I, sub_), direction], {})
    for q, f in (("boundary", has_boundary), ("interior", has_interior)):
        v = n2b(I.arr(get(I, r, "has_%s_leg" % q))(x, y, z))
        ck.eq("%s has %s leg" % (lab, q), v, b_and(inner(x), f(d, x, y, z, ns)), fnval=VALS)
