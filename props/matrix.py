"""Abstraction of the sparse operator matrices and their specified entries."""
from zsa.terms import *
from zsa import terms as tm
from zsa.values import *
from zsa.std import *
from props.mapsin import *

MOD = "zoidberg.weights"
NROWS = sym("n_legs", int=True, lo=0)
NCOLS = sym("n_cells", int=True, lo=0)


def cellsyms():
    return [fresh(q, int=True, lo=0, hi=n) for q, n in zip("xyz", (NX, NY, NZ))]


def clip(x):
    """Nearest evolving cell."""
    lo, hi = MXG, sub(sub(NX, MXG), ONE)
    return ite(lt(x, lo), lo, ite(lt(hi, x), hi, x))


def cubic_weight(k, u):
    u2, u3 = mul(u, u), mul(u, mul(u, u))
    half = div(ONE, num(2))
    return mul(half, [
        add(neg(u3), mul(num(2), u2), neg(u)),
        add(mul(num(3), u3), mul(num(-5), u2), num(2)),
        add(mul(num(-3), u3), mul(num(4), u2), u),
        sub(u3, u2)][k])


def cw(k, u):
    """Uninterpreted weights of a stencil, which sum to one."""
    if k < 3:
        return fn("cw", num(k), u)
    return sub(ONE, add(*[fn("cw", num(q), u) for q in range(3)]))


def stencil(I, args, kw):
    u = I.scalar(args[0] if args else kw["u"])
    return I.new(Arr([num(4)], lambda k: pick([cw(q, u) for q in range(4)], k)))


def pick(v, k):
    q = numval(k)
    if q is not None:
        return v[int(q) % len(v)]
    r = v[-1]
    for j in range(len(v) - 2, -1, -1):
        r = ite(eq(k, num(j)), v[j], r)
    return r


def interior_weight(d, X, Y, Z, ns):
    s = fresh("s", int=True, lo=0, hi=NS)
    return mk_sum(s, ZERO, ns, ite(hit(d, X, Y, Z, s), ZERO, wgt(s, ns)))


def wgt(s, ns):
    return weight(s) if ns is not ONE else ONE


def entry(d, X, Y, Z, x, y, z, ns, off):
    """Specified entry in the row of the interior leg of (X, Y, Z) and the column of cell (x, y, z)."""
    s = fresh("s", int=True, lo=0, hi=NS)
    px, pz = xt(d, X, Y, Z, s), zt(d, X, Y, Z, s)
    bx, bz = floor(px), floor(pz)
    wx = wz = ZERO
    for k in range(4):
        wx = add(wx, ite(eq(clip(add(bx, num(k - 1))), x), cw(k, sub(px, bx)), ZERO))
        wz = add(wz, ite(eq(mod(add(bz, num(k - 1)), NZ), z), cw(k, sub(pz, bz)), ZERO))
    t = ite(hit(d, X, Y, Z, s), ZERO, mul(wgt(s, ns), mul(wx, wz)))
    e = div(mk_sum(s, ZERO, ns, t), interior_weight(d, X, Y, Z, ns))
    return ite(eq(mod(add(Y, num(off)), NY), y), e, ZERO)


def range_facts(d, ns):
    return []


def nearzero(t):
    """|w| < 1e-9 is read as w == 0."""
    m = {}
    for x in tm.subterms(t):
        if x.op == "lt0":
            p = tm.to_poly(x.args[0])
            c = p.get((), 0)
            ab = [k for k in p if len(k) == 1 and k[0][1] == 1 and k[0][0].op == "fn" and k[0][0].args[0] == "abs"]
            if len(p) == 2 and len(ab) == 1 and p[ab[0]] > 0 and -c / p[ab[0]] > 0 and -c / p[ab[0]] <= tm.F(1, 10**9):
                m[x] = eq0(ab[0][0][0].args[1])
    return merge(subst(t, m)) if m else t


def merge(t):
    """ite(x == 0, a, b) is b where b agrees with a at x = 0."""
    memo = {}

    def go(x):
        r = memo.get(x)
        if r is None:
            r = tm.rebuild(x, go)
            if r.op == "ite" and r.args[0].op == "eq0":
                c, a, b = r.args
                p = tm.to_poly(c.args[0])
                for k in p:
                    if len(k) == 1 and k[0][1] == 1 and k[0][0].op == "fn":
                        v = k[0][0]
                        w = sub(v, div(c.args[0], num(p[k])))
                        if v not in set(tm.subterms(w)) and tm.same(subst(a, {v: w}), subst(b, {v: w})):
                            r = b
                            break
            memo[x] = r
        return r

    return go(t)


def sw(k, u, b):
    """Uninterpreted weights of a stencil moved out of the boundaries, which sum to one."""
    if k < 3:
        return fn("sw", num(k), u, b)
    return sub(ONE, add(*[fn("sw", num(q), u, b) for q in range(3)]))


def shifted(I, args, kw):
    """Weights after shift_weights_out_of_x_boundaries (decided on its own in C01)."""
    names = ("weights_x", "x_base", "x_offsets", "nx", "mxg")
    a = dict(zip(names, args), **kw)
    w, b = I.arr(a["weights_x"]), I.scalar(a["x_base"])
    off = I.const_items(a["x_offsets"])
    if off is None or [numval(I.scalar(q)) for q in off] != [-1, 0, 1, 2]:
        raise Unsupported("offsets")
    if not tm.same(I.scalar(a["nx"]), NX) or not tm.same(I.scalar(a["mxg"]), MXG):
        raise Unsupported("sizes")
    u = w(ZERO)
    if u.op != "fn" or u.args[0] != "cw" or any(not tm.same(w(num(k)), cw(k, u.args[2])) for k in range(4)):
        raise Unsupported("weights")
    return I.new(Arr([num(4)], lambda k: pick([sw(q, u.args[2], b) for q in range(4)], k)))


def hitcases(d, X, Y, Z, ns):
    """Which samples hit a boundary, at least one does not."""
    n = int(numval(ns))
    for b in range(2**n - 1):
        yield [hit(d, X, Y, Z, num(k)) if b >> k & 1 else b_not(hit(d, X, Y, Z, num(k))) for k in range(n)]


def operator_setup(ck, d, ns, rows, more=None):
    """Interpreter whose matrix builder is a table (or just the row sums)."""
    box = []

    def make(I, args, kw):
        n = I.scalar(args[-1]) if args else I.scalar(kw["n_rows"])
        shape = [NROWS] if rows else [NROWS, NCOLS]
        if not tm.same(n, NROWS):
            raise Unsupported("unexpected number of rows")
        ref = I.new(Arr(shape, lambda *ix: ZERO))
        box.append(ref)

        def put(I, row, col, w, replace):
            key = row if rows else Tup([row, col])
            I.setitem(ref, key, w if replace else I.binop("Add", I.getitem(ref, key), w))
            return NONE

        def set_row(I, row, entries):
            its = I.const_items(entries)
            if its is None:
                raise Unsupported("row of unknown length")
            first = True
            for e in its:
                c, w = I.unpack_items(["a", "b"], e)
                put(I, row, c, w, first)
                first = False
            return NONE

        def add_to_entry(I, row, col, weight):
            return put(I, row, col, weight, False)

        def to_csr(I):
            return I.new(Dct({"weights": sym("csr weights"), "columns": sym("csr columns"), "rows": sym("csr rows")}))

        return Abs("builder", {"set_row": callp(set_row), "add_to_entry": callp(add_to_entry), "to_csr": callp(to_csr)})

    I = ck.interp({MOD + ".SparseRowMatrixBuilder": Prim("builder", make), MOD + ".catmull_rom_weights": Prim("stencil", stencil), **(more or {})})
    I.generics[NROWS] = lambda: inj("leg", fresh("t", int=True, lo=0), *cellsyms())
    I.generics[NCOLS] = lambda: inj("cell", fresh("t", int=True, lo=0), *cellsyms())
    m = maps(I, ns is not ONE, ns=ns)
    return I, (m, ns, box)


BOUNDARY = {"forward": 1, "backward": 2}
OFFSET = {"forward": 1, "backward": -1}


def matrix(ck, I, d, mb):
    m, ns, box = mb
    ck.where = ck.location(MOD, "build_leg_destination_operator")
    direction = I.get_global(ck.module(MOD), d.upper() + "_DIRECTION")
    arr = lambda f, dt="int": I.new(Arr([NX, NY, NZ], f, dt))
    cs = I.new(Dct({
        "N_cells": NCOLS, "cell_number": arr(lambda *ix: inj("cell", ZERO, *ix)),
        "forward_boundary_number": arr(lambda *ix: inj("cell", num(1), *ix)),
        "backward_boundary_number": arr(lambda *ix: inj("cell", num(2), *ix))}))
    ls = I.new(Dct({
        "direction_name": d, "n_legs": NROWS,
        "interior_leg_number": arr(lambda *ix: inj("leg", ZERO, *ix)),
        "boundary_leg_number": arr(lambda *ix: inj("leg", ONE, *ix)),
        "interior_fraction": arr(lambda *ix: fn("fraci", *ix), None), "boundary_fraction": arr(lambda *ix: fn("fracb", *ix), None),
        "has_interior_leg": arr(lambda *ix: b_and(inner(ix[0]), has_interior(d, *ix, ns)), "bool"),
        "has_boundary_leg": arr(lambda *ix: b_and(inner(ix[0]), has_boundary(d, *ix, ns)), "bool")}))
    I.call(ck.anchor(I, MOD, "build_leg_destination_operator"), [cs, ls, m, direction], {})
    if len(box) != 1:
        raise Unsupported("%d matrices" % len(box))
    return I.arr(box[0])


def check_entries(ck, lab, d, ns):
    X, Y, Z = cellsyms()
    x, y, z = cellsyms()
    hi, hb = has_interior(d, X, Y, Z, ns), has_boundary(d, X, Y, Z, ns)
    W = interior_weight(d, X, Y, Z, ns)
    ri, rb = inj("leg", ZERO, X, Y, Z), inj("leg", ONE, X, Y, Z)
    I, m = operator_setup(ck, d, ns, False)
    M = matrix(ck, I, d, m)
    here = num(BOUNDARY[d])
    ck.eq(lab + ": boundary leg refers to its boundary cell", M(rb, inj("cell", here, X, Y, Z)), ONE, [hb, inner(X)], fnval=VALSW)
    t = fresh("t", int=True, lo=0, hi=num(3))
    ck.eq(lab + ": boundary leg refers to nothing else", M(rb, inj("cell", t, x, y, z)), ZERO,
          [hb, inner(X), b_not(b_and(eq(t, here), eq(x, X), eq(y, Y), eq(z, Z)))], fnval=VALSW)
    t2 = fresh("t", int=True, lo=1, hi=num(3))
    ck.eq(lab + ": interior leg refers to no boundary cell", M(ri, inj("cell", t2, x, y, z)), ZERO, [hi, inner(X), lt(ZERO, W)], fnval=VALSW)
    # a proof would have to split into the positions of 16 stencil points: compared by valuations only
    ck.eq(lab + ": interior entries", nearzero(M(ri, inj("cell", ZERO, x, y, z))), entry(d, X, Y, Z, x, y, z, ns, OFFSET[d]),
          [hi, inner(X), lt(ZERO, W)], fnval=VALSW, prove=False)


def _w(v, *a):
    from decimal import Decimal as D
    import random
    return D(random.Random("%s/%s" % (v.seed, [str(v.key(x)) for x in a])).randint(1, 9)) / 8


VALSW = dict(VALS, subweight=_w)
