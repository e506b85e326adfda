"""C04: operators read the right direction, plane and cells, and are valid CSR."""
import itertools

from zsa.terms import *
from zsa import terms as tm
from zsa.values import *
from zsa.std import *
from props.mapsin import *
from props.matrix import *

SMALL = ("props.mapsin", "props.matrix")
EXPLANATION = (
    "The entries of each direction's operator at a symbolic row and column (see C01) fix the maps, plane, cells and wrapping. "
    "The row builder is analysed over all histories of up to three set_row/add_to_entry calls on two rows and two columns "
    "with symbolic weights: every exported row must hold exactly the accumulated entries. The exported names are followed "
    "from calculate_parallel_map_operators with the steps replaced by symbols of their direction."
)


def run(ck):
    ck.group("matrix builder", lambda: builder(ck))
    ck.group("exported names", lambda: names(ck))
    for d in DIRS:
        for ns in (ONE, num(2)):
            ck.group("entries " + d, lambda: check_entries(ck, "%s operator%s" % (d, "" if ns is not ONE else " without sub-samples"), d, ns))


def builder(ck):
    rows = 3
    ops = [("add", r, c) for r in (0, 2) for c in (4, 7)] + [("set", 0, (7,)), ("set", 2, (4, 7)), ("set", 0, ())]
    ck.where = ck.location(MOD, "SparseRowMatrixBuilder")
    n = 0
    for k in range(4 if ck.thorough else 3):
        for hist in itertools.product(ops, repeat=k):
            # a row is set only while it is empty
            seen, ok = set(), True
            for o in hist:
                if o[0] == "set" and o[1] in seen:
                    ok = False
                if o[0] == "add" or o[2]:
                    seen.add(o[1])
            if ok:
                n += 1
                ck.group("history %s" % (hist,), lambda: history(ck, rows, hist))
    ck.count("histories", n)
    ck.group("row set twice", lambda: twice(ck))


def history(ck, rows, hist):
    I = ck.interp()
    b = I.call(ck.anchor(I, MOD, "SparseRowMatrixBuilder"), [num(rows)], {})
    want = [{} for _ in range(rows)]
    for q, o in enumerate(hist):
        if o[0] == "add":
            w = sym("w%d" % q)
            I.call(I.getattr(b, "add_to_entry"), [num(o[1]), num(o[2]), w], {})
            want[o[1]][o[2]] = add(want[o[1]].get(o[2], ZERO), w)
        else:
            es = [(c, sym("w%d_%d" % (q, c))) for c in o[2]]
            I.call(I.getattr(b, "set_row"), [num(o[1]), I.new(Lst([Tup([num(c), w]) for c, w in es]))], {})
            want[o[1]] = dict(es)
    r = I.call(I.getattr(b, "to_csr"), [], {})
    W, C, P = [I.arr(get(I, r, k)) for k in ("weights", "columns", "rows")]
    lab = "CSR after %s" % (", ".join("%s %d %s" % o for o in hist) or "nothing")
    nnz = sum(map(len, want))
    ck.shape(lab + ": row pointers", P.shape, [num(rows + 1)])
    ck.shape(lab + ": weights", W.shape, [num(nnz)])
    ck.shape(lab + ": columns", C.shape, [num(nnz)])
    at = 0
    for q in range(rows):
        if not ck.eq(lab + ": row pointer %d" % q, P(num(q)), num(at)):
            return
        end = at + len(want[q])
        left = dict(want[q])
        for e in range(at, end):
            c = numval(C(num(e)))
            if c is None:
                raise Unsupported("column %s" % show(C(num(e))))
            if c not in left:
                ck.violated(lab + ": columns of row %d" % q, ck.where, "column %s, specified %s" % (c, sorted(want[q])))
                return
            ck.eq(lab + ": weight of column %s in row %d" % (c, q), W(num(e)), left.pop(c))
        at = end
    ck.eq(lab + ": last row pointer", P(num(rows)), num(at))


def twice(ck):
    """A row that is set again would lose entries: refused (or the entries are kept)."""
    from zsa.interp import PyRaise

    I = ck.interp()
    b = I.call(ck.anchor(I, MOD, "SparseRowMatrixBuilder"), [ONE], {})
    one = lambda c: I.new(Lst([Tup([num(c), sym("w%d" % c)])]))
    I.call(I.getattr(b, "set_row"), [ZERO, one(1)], {})
    try:
        I.call(I.getattr(b, "set_row"), [ZERO, one(2)], {})
    except PyRaise:
        ck.passed("setting a row again is refused")
        return
    r = I.call(I.getattr(b, "to_csr"), [], {})
    ck.shape("row set again keeps its entries", I.arr(get(I, r, "weights")).shape, [num(2)])


def names(ck):
    ck.where = ck.location(MOD, "calculate_parallel_map_operators")
    made = {}

    def tok(*k):
        return sym("/".join(k))

    def which(I, v):
        return I.getitem(v, "name") if not isinstance(v, Abs) else v.attrs["name"]

    def cells(I, args, kw):
        return I.new(Dct({k: tok("cells", k) for k in ("N_cells", "N_evolving", "cell_number", "forward_boundary_number", "backward_boundary_number")}))

    def legs(I, args, kw):
        a = dict(zip(("cell_space", "maps", "direction"), args), **kw)
        d = I.getitem(a["direction"], "name")
        keys = ("n_legs", "interior_leg_number", "boundary_leg_number", "interior_fraction", "boundary_fraction", "has_interior_leg", "has_boundary_leg")
        return I.new(Dct({"direction_name": d, **{k: tok(d, k) for k in keys}}))

    def weights(I, args, kw):
        a = dict(zip(("leg_space",), args), **kw)
        return tok(I.getitem(a["leg_space"], "direction_name"), "leg_weights")

    def operator(I, args, kw):
        a = dict(zip(("cell_space", "leg_space", "maps", "direction"), args), **kw)
        d = I.getitem(a["direction"], "name")
        if I.getitem(a["leg_space"], "direction_name") != d:
            d += " with the other legs"
        return I.new(Dct({k: tok(d, "csr", k) for k in ("weights", "columns", "rows")}))

    I = ck.interp({MOD + ".assign_cell_space_numbers": Prim("cells", cells), MOD + ".build_leg_space_metadata": Prim("legs", legs),
                   MOD + ".build_leg_weight_vector": Prim("weights", weights), MOD + ".build_leg_destination_operator": Prim("operator", operator)})
    r = I.call(ck.anchor(I, MOD, "calculate_parallel_map_operators"), [maps(I)], {})
    I.need_overrides()
    want = {"total_cells": tok("cells", "N_cells"), "cell_number": tok("cells", "cell_number")}
    for d in DIRS:
        want[d + "_cell_number"] = tok("cells", d + "_boundary_number")
        want["n_%s_legs" % d] = tok(d, "n_legs")
        want[d + "_leg_interior_number"] = tok(d, "interior_leg_number")
        want[d + "_leg_boundary_number"] = tok(d, "boundary_leg_number")
        want[d + "_leg_weights"] = tok(d, "leg_weights")
        for k in ("weights", "columns", "rows"):
            want["%s_%s" % (d, k)] = tok(d, "csr", k)
    ck.where = ck.location(MOD, "calculate_parallel_map_operators")
    keys = I.res(r)
    for k in sorted(want):
        ck.eq("exported %s" % k, I.scalar(get(I, r, k)), want[k])
