"""C01: rows of the operators and leg weights sum to one."""
from zsa.terms import *
from zsa import terms as tm
from zsa.values import *
from zsa.std import *
from props.mapsin import *
from props.matrix import *

MOD = "zoidberg.weights"
SMALL = ("props.mapsin", "props.matrix")
EXPLANATION = (
    "build_leg_destination_operator is analysed with the sparse matrix abstracted to a table indexed by row and column "
    "(the builder class is checked in C04) and, separately, to its row sums, for symbolic grid sizes, sub-sample counts, "
    "maps and weights. Row sums and entries at a symbolic row and column are compared with the specification. Comparisons "
    "of a weight with a tolerance of at most 1e-9 are read as comparisons with zero."
)


def run(ck):
    ck.group("catmull_rom_weights", lambda: cubic(ck))
    ck.group("shift_weights_out_of_x_boundaries", lambda: shift(ck))
    ck.group("subcell weights", lambda: quadrature(ck))
    for d in DIRS:
        for ns in (num(2), ONE):
            ck.group("row sums " + d, lambda: rowsums(ck, d, ns))
            ck.group("entries " + d, lambda: entries(ck, d, ns))
        ck.group("leg fractions " + d, lambda: fractions(ck, d))
        ck.group("leg weights " + d, lambda: legweights(ck, d))


def cubic(ck):
    I = ck.interp()
    ck.where = ck.location(MOD, "catmull_rom_weights")
    u = sym("u")
    a = I.arr(I.call(ck.anchor(I, MOD, "catmull_rom_weights"), [u], {}))
    ck.shape("cubic weights", a.shape, [num(4)])
    s = add(*[a(num(k)) for k in range(4)])
    ck.eq("cubic weights sum to one", s, ONE)
    ck.eq("cubic weights reproduce linear functions", add(*[mul(num(k - 1), a(num(k))) for k in range(4)]), u)
    ck.eq("cubic weights reproduce quadratic functions", add(*[mul(num((k - 1) ** 2), a(num(k))) for k in range(4)]), mul(u, u))
    for k in range(4):
        ck.eq("cubic weight %d" % k, a(num(k)), cubic_weight(k, u))
        ck.eq("cubic weight %d at a grid point" % k, subst(a(num(k)), {u: ZERO}), ONE if k == 1 else ZERO)


def shift(ck):
    """Sum is kept and nothing stays on boundary cells."""
    I = ck.interp()
    ck.where = ck.location(MOD, "shift_weights_out_of_x_boundaries")
    w = [sym("w%d" % k) for k in range(3)]
    w.append(sub(ONE, add(*w)))
    W = I.new(Lst(w))
    xb = sym("x_base", int=True)
    r = I.call(ck.anchor(I, MOD, "shift_weights_out_of_x_boundaries"),
               [I.new(Arr([num(4)], lambda k: pick(w, k))), xb, I.new(Lst([num(-1), ZERO, ONE, num(2)])), NX, MXG], {})
    a = I.arr(r)
    ck.shape("shifted weights", a.shape, [num(4)])
    facts = [le(MXG, xb), lt(xb, sub(NX, MXG))]
    ck.eq("shifted weights sum to one", add(*[a(num(k)) for k in range(4)]), ONE, facts)
    for k in range(4):
        # weight of cell xb + k - 1: all offsets whose nearest evolving cell it is
        x = add(xb, num(k - 1))
        want = ZERO
        for q in range(4):
            want = add(want, ite(eq(clip(add(xb, num(q - 1))), x), w[q], ZERO))
        ck.eq("shifted weight %d" % k, a(num(k)), want, facts)


def quadrature(ck):
    """Quadrature weights come from the maps; wrong ones are refused."""
    I = ck.interp()
    ck.where = ck.location(MOD, "_get_subcell_weights")
    f = I.get_global(ck.module(MOD), "_get_subcell_weights")
    if f is None:
        return
    m = maps(I)
    ck.array("quadrature weights", I, I.call(f, [m, NS], {}), [NS], weight)
    r = I.call(f, [maps(I, False), ONE], {})
    ck.array("quadrature weight of a single sample", I, r, [ONE], lambda s: ONE)


def rowsums(ck, d, ns):
    lab = "%s operator%s" % (d, "" if ns is not ONE else " without sub-samples")
    X, Y, Z = cellsyms()
    hi, hb = has_interior(d, X, Y, Z, ns), has_boundary(d, X, Y, Z, ns)
    W = interior_weight(d, X, Y, Z, ns)
    facts = [inner(X), lt(ZERO, W)]
    r = [False]

    def parts():
        # weights moved out of the boundaries sum to one, which shift() decides
        I, m = operator_setup(ck, d, ns, True, {MOD + ".shift_weights_out_of_x_boundaries": Prim("shifted", shifted)})
        S = matrix(ck, I, d, m)
        I.need_overrides()
        t = nearzero(S(inj("leg", ZERO, X, Y, Z)))
        for case in hitcases(d, X, Y, Z, ns):
            ck.eq(lab + ": interior row sum", t, ONE, facts + case, fnval=VALSW)
        r[0] = True

    ck.group(lab + ": interior row sum in parts", parts)
    I, m = operator_setup(ck, d, ns, True)
    S = matrix(ck, I, d, m)
    ck.eq(lab + ": boundary row sum", S(inj("leg", ONE, X, Y, Z)), ONE, [hb, inner(X)])
    if not r[0]:
        ck.eq(lab + ": interior row sum", mul(W, nearzero(S(inj("leg", ZERO, X, Y, Z)))), W, [hi] + facts, fnval=VALSW)


def entries(ck, d, ns):
    check_entries(ck, "%s operator%s" % (d, "" if ns is not ONE else " without sub-samples"), d, ns)


def fractions(ck, d):
    I = ck.interp()
    ck.where = ck.location(MOD, "build_leg_space_metadata")
    direction = I.get_global(ck.module(MOD), d.upper() + "_DIRECTION")
    cs = I.new(Dct({"cell_number": I.new(Arr([NX, NY, NZ], lambda *ix: inj("cell", ZERO, *ix), "int"))}))
    r = I.call(ck.anchor(I, MOD, "build_leg_space_metadata"), [cs, maps(I), direction], {})
    ff = I.arr(get(I, r, "interior_fraction")), I.arr(get(I, r, "boundary_fraction"))
    X, Y, Z = cellsyms()
    s = fresh("s", int=True, lo=0, hi=NS)
    wi = mk_sum(s, ZERO, NS, ite(hit(d, X, Y, Z, s), ZERO, weight(s)))
    wb = mk_sum(s, ZERO, NS, ite(hit(d, X, Y, Z, s), weight(s), ZERO))
    ck.eq(d + " interior fraction", ff[0](X, Y, Z), wi, [inner(X)], fnval=VALSW)
    ck.eq(d + " boundary fraction", ff[1](X, Y, Z), wb, [inner(X)], fnval=VALSW)
    ck.eq(d + " fractions sum", add(ff[0](X, Y, Z), ff[1](X, Y, Z)), mk_sum(s, ZERO, NS, weight(s)), [inner(X)], fnval=VALSW)


def legweights(ck, d):
    """Weights are stored in their own rows."""
    I = ck.interp()
    ck.where = ck.location(MOD, "build_leg_weight_vector")
    n = sym("n_legs", int=True, lo=0)
    gi = lambda *ix: bfn("hasi", *ix)
    gb = lambda *ix: bfn("hasb", *ix)
    arr = lambda f: I.new(Arr([NX, NY, NZ], f))
    I.generics[n] = lambda: inj("leg", fresh("t", int=True, lo=0), *cellsyms())
    ls = I.new(Dct({
        "direction_name": d, "n_legs": n,
        "interior_leg_number": arr(lambda *ix: inj("leg", ZERO, *ix)),
        "boundary_leg_number": arr(lambda *ix: inj("leg", ONE, *ix)),
        "interior_fraction": arr(lambda *ix: fn("fraci", *ix)), "boundary_fraction": arr(lambda *ix: fn("fracb", *ix)),
        "has_interior_leg": arr(gi), "has_boundary_leg": arr(gb)}))
    w = I.arr(I.call(ck.anchor(I, MOD, "build_leg_weight_vector"), [ls], {}))
    ck.shape(d + " leg weights", w.shape, [n])
    c = cellsyms()
    wi, wb = w(inj("leg", ZERO, *c)), w(inj("leg", ONE, *c))
    fi, fb = fn("fraci", *c), fn("fracb", *c)
    ck.eq(d + " interior leg weight of a split cell", wi, fi, [gi(*c), gb(*c)])
    ck.eq(d + " boundary leg weight of a split cell", wb, fb, [gi(*c), gb(*c)])
    # the fraction of a leg which is the only one is one, and the other fraction zero
    ck.eq(d + " weight of the only leg, interior", subst(wi, {fi: ONE, fb: ZERO}), ONE, [gi(*c), b_not(gb(*c))])
    ck.eq(d + " weight of the only leg, boundary", subst(wb, {fi: ZERO, fb: ONE}), ONE, [gb(*c), b_not(gi(*c))])
