"""C02: cell and leg numbers."""
from decimal import Decimal as D
from zsa.terms import *
from zsa import terms as tm, cmp
from zsa.values import *
from zsa.std import *
from props.mapsin import *

MOD = "zoidberg.weights"
SMALL = ("props.mapsin",)
EXPLANATION = (
    "assign_cell_space_numbers and build_leg_space_metadata are analysed for symbolic grid sizes, guard width, number of "
    "sub-samples and maps; their counting loops become prefix sums. The numbers at a symbolic cell are compared with the "
    "closed form of the specified order. A different order is accepted if it is still unique, gap-free and grouped as "
    "specified on all small valuations."
)


def run(ck):
    for sub_ in (True, False):
        ck.group("cells" + ("" if sub_ else " without sub-samples"), lambda: cells(ck, sub_))
        for d in DIRS:
            ck.group("%s legs%s" % (d, "" if sub_ else " without sub-samples"), lambda: legs(ck, d, sub_))
    ck.group("operators", lambda: whole(ck))


def cells(ck, sub_):
    I = ck.interp()
    ck.where = ck.location(MOD, "assign_cell_space_numbers")
    r = I.call(ck.anchor(I, MOD, "assign_cell_space_numbers"), [maps(I, sub_)], {})
    lab = "cell space" + ("" if sub_ else " without sub-samples")
    check_cells(ck, I, lab, [get(I, r, k) for k in ("cell_number", "forward_boundary_number", "backward_boundary_number", "N_cells", "N_evolving")], sub_)


def check_cells(ck, I, lab, vals, sub_):
    ns = NS if sub_ else ONE
    arrs = [I.arr(v) for v in vals[:3]]
    for a, nm in zip(arrs, ("cells", "forward boundary", "backward boundary")):
        ck.shape(lab + " " + nm, a.shape, [NX, NY, NZ])
    x, y, z = [fresh(q, int=True, lo=0, hi=n) for q, n in zip("xyz", (NX, NY, NZ))]
    plane = mul(NY, NZ)
    own = add(mul(NZ, y), z)
    nev = mul(NIN, plane)
    want = ite(
        inner(x),
        add(mul(plane, sub(x, MXG)), own),
        ite(lt(x, MXG), add(nev, mul(plane, x), own), add(mul(plane, x), own)),
    )
    f = lambda *ix: has_boundary("forward", *ix, ns)
    b = lambda *ix: has_boundary("backward", *ix, ns)
    both = lambda *ix: add(b2n(f(*ix)), b2n(b(*ix)))
    ahead = add(mul(NX, plane), before(both, x, y, z))
    wb = ite(b_and(inner(x), b(x, y, z)), ahead, num(-1))
    wf = ite(b_and(inner(x), f(x, y, z)), add(ahead, b2n(b(x, y, z))), num(-1))
    n = add(mul(NX, plane), total(both))
    found = [arrs[0](x, y, z), arrs[1](x, y, z), arrs[2](x, y, z)]
    tot = I.scalar(vals[3])
    ck.eq(lab + ": number of evolving cells", I.scalar(vals[4]) if vals[4] is not None else nev, nev)
    ok = all(cmp.equal(p, q) for p, q in zip(found + [tot], [want, wf, wb, n]))
    if ok:
        for q in ("cells", "forward boundary", "backward boundary", "total"):
            ck.passed("%s: %s numbers" % (lab, q))
        return

    def judge(v, cell):
        nx, ny, nz, g = [int(v.ev(t)) for t in (NX, NY, NZ, MXG)]
        vals = {}
        for c in [(i, j, k) for i in range(nx) for j in range(ny) for k in range(nz)]:
            vals[c] = [int(q) for q in cell(c, found)]
        nev = (nx - 2 * g) * ny * nz
        gr = [[vals[c][0] for c in vals if g <= c[0] < nx - g], [vals[c][0] for c in vals if c[0] < g], [vals[c][0] for c in vals if c[0] >= nx - g]]
        lo = 0
        for q in gr:
            if sorted(q) != list(range(lo, lo + len(q))):
                return "cell numbers %s instead of %d..%d" % (sorted(q)[:8], lo, lo + len(q) - 1)
            lo += len(q)
        nums = []
        for c in vals:
            ev = g <= c[0] < nx - g
            hf, hb = [bool(q) for q in cell(c, [f(x, y, z), b(x, y, z)])]
            for nm, got, h in (("forward", vals[c][1], hf), ("backward", vals[c][2], hb)):
                if (got != -1) != (ev and h):
                    return "%s boundary number %d in cell %s where the map %s a boundary" % (nm, got, c, "hits" if h else "does not hit")
                if got != -1:
                    nums.append(got)
        if sorted(nums) != list(range(lo, lo + len(nums))):
            return "boundary numbers %s instead of %d..%d" % (sorted(nums)[:8], lo, lo + len(nums) - 1)
        t = int(v.ev(tot))
        if t != lo + len(nums):
            return "total %d for %d numbers" % (t, lo + len(nums))
        return None

    decide(ck, lab + " numbers", judge, (x, y, z))


def decide(ck, lab, judge, ix):
    bad, seen = [], 0
    for k in range(300 if ck.thorough else 60):
        seed = "%s.n%d" % (ck.seed, k)
        mk_ = lambda given=None: cmp.Val(seed, style=k % 3, fnval=VALS, maxsize=2, given=given, vocab=cmp.VOCAB)
        v = mk_()

        def cell(c, ts):
            w = mk_({s.args[0]: D(q) for s, q in zip(ix, c)})
            return [w.ev(t) for t in ts]
        try:
            r = judge(v, cell)
        except (cmp.BadSample, ArithmeticError, ValueError):
            continue
        except cmp.Unknown as e:
            return ck.unknown(lab, "value not understood: %s" % e)
        seen += 1
        ck.samples += 1
        if r:
            bad.append(r + " for sizes " + str({q: int(v.env[q]) for q in ("n_inner", "mxg", "ny", "nz") if q in v.env}))
            if len(bad) > 1:
                return ck.violated(lab, ck.where, bad[0])
    ck.unknown(lab, "not the reference order, but valid on %d valuations" % seen)


def legs(ck, d, sub_):
    I = ck.interp()
    ck.where = ck.location(MOD, "build_leg_space_metadata")
    direction = I.get_global(ck.module(MOD), d.upper() + "_DIRECTION")
    m = maps(I, sub_)
    cs = I.new(Dct({"cell_number": I.new(Arr([NX, NY, NZ], lambda *ix: inj("cell", ZERO, *ix), "int"))}))
    r = I.call(ck.anchor(I, MOD, "build_leg_space_metadata"), [cs, m, direction], {})
    lab = d + " legs" + ("" if sub_ else " without sub-samples")
    check_legs(ck, I, lab, d, [get(I, r, k) for k in ("interior_leg_number", "boundary_leg_number", "n_legs")], sub_)


def check_legs(ck, I, lab, d, vals, sub_):
    ns = NS if sub_ else ONE
    arrs = [I.arr(v) for v in vals[:2]]
    for a, nm in zip(arrs, ("interior", "boundary")):
        ck.shape(lab + " " + nm, a.shape, [NX, NY, NZ])
    x, y, z = [fresh(q, int=True, lo=0, hi=n) for q, n in zip("xyz", (NX, NY, NZ))]
    hi = lambda *ix: has_interior(d, *ix, ns)
    hb = lambda *ix: has_boundary(d, *ix, ns)
    both = lambda *ix: add(b2n(hi(*ix)), b2n(hb(*ix)))
    ahead = before(both, x, y, z)
    wi = ite(b_and(inner(x), hi(x, y, z)), ahead, num(-1))
    wb = ite(b_and(inner(x), hb(x, y, z)), add(ahead, b2n(hi(x, y, z))), num(-1))
    found = [a(x, y, z) for a in arrs]
    tot = I.scalar(vals[2])
    if all(cmp.equal(p, q) for p, q in zip(found + [tot], [wi, wb, total(both)])):
        for q in ("interior numbers", "boundary numbers", "number of legs"):
            ck.passed(lab + ": " + q)
        return

    def judge(v, cell):
        nx, ny, nz, g = [int(v.ev(t)) for t in (NX, NY, NZ, MXG)]
        nums = []
        for c in [(i, j, k) for i in range(nx) for j in range(ny) for k in range(nz)]:
            got = [int(q) for q in cell(c, found)]
            h = [bool(q) for q in cell(c, [hi(x, y, z), hb(x, y, z)])]
            for nm, a, e in zip(("interior", "boundary"), got, h):
                if (a != -1) != (g <= c[0] < nx - g and e):
                    return "%s leg number %d in cell %s which %s one" % (nm, a, c, "has" if e and g <= c[0] < nx - g else "does not have")
                if a != -1:
                    nums.append(a)
        if sorted(nums) != list(range(len(nums))):
            return "leg numbers %s" % (sorted(nums)[:10],)
        if int(v.ev(tot)) != len(nums):
            return "%d legs reported, %d numbered" % (int(v.ev(tot)), len(nums))
        return None

    decide(ck, lab, judge, (x, y, z))


def whole(ck):
    """The exported arrays are those numbers, each under its own name."""
    def leg_space(I, a, k):
        d = None
        for v in list(a[-3:]) + list(k.values()):
            try:
                n = I.getitem(v, "name")
                d = n if isinstance(n, str) else d
            except (Unsupported, PyRaiseT):
                pass
        arr = lambda nm, b=False: I.new(Arr([NX, NY, NZ], lambda *ix: (bfn if b else fn)(nm + "_" + str(d), *ix)))
        return I.new(Dct({
            "direction_name": d, "n_legs": sym("nlegs_%s" % d, int=True, lo=0),
            "interior_leg_number": arr("legi"), "boundary_leg_number": arr("legb"),
            "interior_fraction": arr("fraci"), "boundary_fraction": arr("fracb"),
            "has_interior_leg": arr("hasi", True), "has_boundary_leg": arr("hasb", True)}))

    def cell_space(I, a, k):
        arr = lambda nm: I.new(Arr([NX, NY, NZ], lambda *ix: fn(nm, *ix)))
        return I.new(Dct({"N_cells": sym("ncells", int=True), "N_evolving": sym("nevolving", int=True), "cell_number": arr("cellno"),
                          "forward_boundary_number": arr("bndry_forward"), "backward_boundary_number": arr("bndry_backward")}))

    empty = Prim("operator", lambda I, a, k: I.new(Dct({q: sym("operator " + q) for q in ("weights", "columns", "rows")})))
    I = ck.interp({MOD + ".build_leg_space_metadata": Prim("legs", leg_space), MOD + ".assign_cell_space_numbers": Prim("cells", cell_space),
                   MOD + ".build_leg_destination_operator": empty, MOD + ".build_leg_weight_vector": Prim("w", lambda I, a, k: sym("weight vector"))})
    ck.where = ck.location(MOD, "calculate_parallel_map_operators")
    r = I.call(ck.anchor(I, MOD, "calculate_parallel_map_operators"), [maps(I)], {})
    I.need_overrides()
    for key, nm in (("cell_number", "cellno"), ("forward_cell_number", "bndry_forward"), ("backward_cell_number", "bndry_backward"),
                    ("forward_leg_interior_number", "legi_forward"), ("forward_leg_boundary_number", "legb_forward"),
                    ("backward_leg_interior_number", "legi_backward"), ("backward_leg_boundary_number", "legb_backward")):
        ck.array("exported " + key, I, get(I, r, key), [NX, NY, NZ], lambda *ix, nm=nm: fn(nm, *ix))
    for key, nm in (("total_cells", "ncells"), ("n_forward_legs", "nlegs_forward"), ("n_backward_legs", "nlegs_backward")):
        ck.eq("exported " + key, I.scalar(get(I, r, key)), sym(nm, int=True))


from zsa.interp import PyRaise as PyRaiseT
