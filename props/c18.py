"""C18: iterative solvers."""
from zsa.terms import *
from zsa import terms as tm
from zsa.values import *
from zsa.std import *
from props import elliptic, reverse
from props.reverse import XZ
from props.planes import NX, NZ, stored

PG = "zoidberg.poloidal_grid"
EXPLANATION = (
    "Each iterative solver is summarised by the iteration that leaves its loop, started from arbitrary values of "
    "everything the loop changes. The condition under which it leaves must be false whenever the residual (structured "
    "grids) or the change (tracer, elliptic grids) of any point being solved for is not below the tolerance; points are "
    "excluded from the test only if they are outside the grid, an invariant proved to hold initially and to be kept by "
    "every iteration; and what is returned must be what was tested."
)
TOL = sym("tol", lo=div(ONE, num(100)), hi=ONE)
FAR = add(num(4), sym("far", lo=ZERO))  # not within any tolerance in (0, 1)
AWAY = add(num(div(ONE, num(1000)).args[0]), sym("away", lo=ZERO))
INSIDE = add(ONE, sym("inside", lo=ZERO, hi=ONE))  # an index inside any grid of four or more points


def run(ck):
    for n in (1, 2):
        ck.group("findIndex", lambda: find(ck, n))
    for rank in (0, 1, 2):
        ck.group("findIndex shapes of rank %d" % rank, lambda: shapes(ck, rank))
    for n in (1, 2):
        ck.group("FieldTracerReversible", lambda: tracer(ck, n))
    ck.group("grid_elliptic", lambda: generated(ck, 3, 3))
    ck.group("grid_elliptic result", lambda: returned(ck))


# ------------------------------------------------------------ structured grids
class Found:
    pass


def search(ck, sh):
    """Analysis of StructuredPoloidalGrid.findIndex up to the result."""
    I = ck.interp()
    F = Found()
    calls, mark = [], [0]

    def pos(I, args, kw):
        a = dict(zip(("xind", "zind", "dx", "dz"), args), **kw)
        da, db = I.scalar(a.get("dx", ZERO)), I.scalar(a.get("dz", ZERO))
        calls.append((I.arr(a["xind"]), I.arr(a["zind"]), da, db))
        return Tup([I.elementwise(lambda i, j, q=q: fn("d" + q, da, db, i, j), [a["xind"], a["zind"]]) for q in "RZ"])

    tm.INTFN.add("nearest")
    tm.NONNEGFN.add("nearest")

    def query(I, args, kw):
        p = I.arr(args[0])
        return Tup([I.new(Arr(p.shape[:1], lambda i: fn("neardist", i))), I.new(Arr(p.shape[:1], lambda i: fn("nearest", i), "int"))])

    F.recs = []

    def done(I, rec):
        names = {t[0]: k for k, t in rec["tmpl"].items() if isinstance(t, tuple)}
        pair = None
        for c in calls:
            ts = [a(*[ZERO] * a.rank) for a in c[:2]]
            if numval(c[2]) == 0 and numval(c[3]) == 0 and all(t.op in ("fn", "bfn") and t.args[0] in names for t in ts):
                pair = [t.args[0] for t in ts]
        if pair is None:
            return
        r = Found()
        r.pair, r.names, r.rec = pair, names, rec
        r.keys = [names[n] for n in pair]
        F.recs.append(r)

    cls = ck.anchor(I, PG, "StructuredPoloidalGrid")
    I.iterations, I.on_iteration = [], done
    o = I.new(ObjC(cls, {"nx": NX, "nz": NZ, "R": stored(I, lambda i, j: fn("Rpol", i, j)), "Z": stored(I, lambda i, j: fn("Zpol", i, j)),
                         "tree": Abs("tree", {"query": Prim("query", query)}), "getCoordinate": Prim("getCoordinate", pos)}))
    R, Z = [I.new(Arr(sh, lambda *ix, q=q: fn("target" + q, *ix))) if sh is not None else sym("target" + q) for q in "RZ"]
    out = I.const_items(I.call(I.getattr(o, "findIndex"), [R, Z], {"tol": TOL}))
    if len(F.recs) != 1:
        raise Unsupported("%d searches" % len(F.recs))
    return I, F.recs[0], out


def outside(x):
    return b_or(lt(x, div(ONE, num(2))), lt(sub(NX, div(num(3), num(2))), x))


def value(I, S, key):
    """Array held under a key of a state."""
    SS = I.S
    I.S = S
    try:
        v = I.key_get(S, key)
        return v if isinstance(v, Arr) else I.content(v)
    finally:
        I.S = SS


def find(ck, n):
    ck.where = ck.location(PG, "StructuredPoloidalGrid.findIndex")
    I, r, out = search(ck, [num(n)])
    rec = r.rec
    lab = "findIndex of %d points: " % n
    big = [lt(num(3), NX)]
    x, z = [rec["tmpl"][k][1] for k in r.keys]
    vocab = tuple(r.names)
    xr, zr = [I.arr(v) for v in out]
    # what is returned is what the last test saw
    for j in range(n):
        xj, zj = x(num(j)), z(num(j))
        want = ite(lt(xj, div(ONE, num(2))), num(-1), ite(lt(sub(NX, div(num(3), num(2))), xj), NX, xj))
        for o, g in zip(rec["left"], rec["conds"]):
            xe, ze = [value(I, o.S, k)(num(j)) for k in r.keys]
            ck.eq(lab + "tested x %d" % j, xe, xj, big, vocab=vocab)
            ck.eq(lab + "tested z %d" % j, ze, zj, big, vocab=vocab)
        ck.eq(lab + "returned x %d" % j, xr(num(j)), want, big, vocab=vocab)
        ck.eq(lab + "returned z %d" % j, zr(num(j)), zj, big, vocab=vocab)
    cond = b_or(*rec["conds"])
    used = {t.args[0] for t in tm.subterms(cond) if t.op in ("fn", "bfn")}
    masks = [m for m in r.names if m in used and m not in r.pair]
    if len(masks) > 1:
        raise Unsupported("several masks")
    active = lambda m, j: TRUE
    if masks:
        key = r.names[masks[0]]
        M = rec["tmpl"][key][1]
        t = M(ZERO)
        if t.isb:
            # True: still solved, unless the test then ignores the point
            s = tm.subst(cond, {M(num(j)): TRUE for j in range(n)})
            pol = any(q.op == "fn" and q.args[0] in ("dR", "dZ") for q in tm.subterms(s))
            active = lambda m, j: m(num(j)) if pol else b_not(m(num(j)))
        else:
            active = lambda m, j: b_not(eq(m(num(j)), ZERO))
        # excluded points are outside the grid
        for j in range(n):
            m0, x0 = value(I, rec["before"], key), value(I, rec["before"], r.keys[0])
            ck.holds(lab + "points excluded at first are outside, %d" % j, b_or(active(m0, j), outside(x0(num(j)))), big, vocab=vocab)
            m1, x1 = value(I, rec["end"], key), value(I, rec["end"], r.keys[0])
            t = M(num(j))
            goal = b_or(active(m1, j), outside(x1(num(j))))
            on, off = (ONE, ZERO) if not t.isb else (TRUE, FALSE) if pol else (FALSE, TRUE)
            ck.holds(lab + "points excluded later are outside, %d" % j, tm.subst(goal, {t: on}), big, vocab=vocab)
            for xo in (sub(div(ONE, num(2)), AWAY), add(sub(NX, div(num(3), num(2))), AWAY)):
                ck.holds(lab + "points once excluded stay outside, %d" % j, tm.subst(goal, {t: off, x(num(j)): xo}), big, vocab=vocab)
    for j in range(n):
        xj, zj = x(num(j)), z(num(j))
        for q in "RZ":
            m = {xj: INSIDE}
            if masks:
                for k in range(n):
                    t = M(num(k))
                    m[t] = ONE if not t.isb else (TRUE if pol else FALSE)
            c = tm.subst(cond, m)
            for off in (FAR, neg(FAR)):
                # the target is wherever the position is not
                m = {}
                for k in range(n):
                    for p in "RZ":
                        d = off if (k, p) == (j, q) else fn("off" + p, num(k))
                        m[fn("target" + p, num(k))] = sub(fn("d" + p, ZERO, ZERO, INSIDE if k == j else x(num(k)), z(num(k))), d)
                ck.eq(lab + "not accepted while point %d is off in %s" % (j, q), tm.subst(c, m), FALSE, big, vocab=vocab)
        # opposite and exchanged coordinates, all other points converged
        for what, pos, target in (("at the opposite place in R", (FAR, ONE), (neg(FAR), ONE)), ("at the opposite place in Z", (ONE, FAR), (ONE, neg(FAR))),
                                  ("at the place with R and Z exchanged", (FAR, neg(FAR)), (neg(FAR), FAR))):
            m = {}
            for k in range(n):
                for p, a, b in zip("RZ", pos, target):
                    v = fn("d" + p, ZERO, ZERO, INSIDE if k == j else x(num(k)), z(num(k)))
                    if k == j:
                        m[v] = a
                        m[fn("target" + p, num(k))] = b
                    else:
                        m[fn("target" + p, num(k))] = v
            ck.eq(lab + "not accepted while point %d is %s" % (j, what), tm.subst(c, m), FALSE, big, vocab=vocab)


def shapes(ck, rank):
    ck.where = ck.location(PG, "StructuredPoloidalGrid.findIndex")
    sh = [num(2 + k) for k in range(rank)]
    I, r, out = search(ck, sh)
    for q, v in zip("xz", out):
        a = I.arr(v)
        ck.shape("findIndex %s of rank %d" % (q, rank), a.shape, sh)
    # element order: the unknown of the flattened point
    rec = r.rec
    ix = [fresh("i", int=True, lo=0, hi=s) for s in sh]
    flat = ZERO
    for s, i in zip(sh, ix):
        flat = add(mul(flat, s), i)
    z = rec["tmpl"][r.keys[1]][1]
    ck.eq("findIndex z of rank %d" % rank, I.arr(out[1])(*ix), z(flat), vocab=tuple(r.names))


# --------------------------------------------------------------- implicit steps
def tracer(ck, n):
    ck.where = ck.location(reverse.MOD, "FieldTracerReversible.follow_field_lines")
    for defaults in (False, True):
        I, r, st = reverse.trace(ck, [num(n)], 1, {"rtol": TOL, "eps": sym("eps")}, defaults)
        for s in st:
            lab = "tracer, %d points, step %d%s: " % (n, s.k, ", default tolerance" if defaults else "")
            # uniform direction: the change of point j in c is the free symbol change_c(j)
            h = reverse.H[s.k]
            base = add(reverse.Y0, reverse.H[0]) if s.k else reverse.Y0
            m = {}
            for j in range(n):
                for q, v0, u in zip(XZ, reverse.at(s.k, [num(j)]), s.unknown):
                    step = mul(div(h, num(2)), add(fn("c" + q, base), fn("c" + q, add(base, h))))
                    m[v0] = sub(add(u(num(j)), fn("change" + q, num(j))), step)
            uniform = lambda t: tm.subst(tm.map_named(t, {"dirx", "dirz"}, lambda f: fn("c" + f.args[0][-1], f.args[3])), m)
            cond = uniform(s.cond)
            for j in range(n):
                for c, q in enumerate(XZ):
                    d = fn("change" + q, num(j))
                    ck.eq(lab + "change of %s %d" % (q, j), sub(uniform(s.found[c](num(j))), s.unknown[c](num(j))), d, [b_not(eq(sym("eps"), ZERO))], vocab=tuple(s.pair))
                    for far in (FAR, neg(FAR)):
                        ck.eq(lab + "not accepted while point %d moves in %s" % (j, q), tm.subst(cond, {d: far}), FALSE, [b_not(eq(sym("eps"), ZERO))], vocab=tuple(s.pair))


# ------------------------------------------------------------- elliptic grids
def generated(ck, nx, nz):
    """The exit of the solver loop, for concrete sizes."""
    ck.where = ck.location(PG, "grid_elliptic")
    s = elliptic.generate(ck, num(nx), num(nz), tol=TOL)
    lab = "grid_elliptic %d x %d: " % (nx, nz)
    U = [fnat(s.start[k]) for k in (0, 1)]
    cond = b_or(*s.rec["conds"])
    place = ((3, 7, 12), (2, 11, 5))
    for j in range(nz):
        for c, q in enumerate("RZ"):
            for far in (FAR, neg(FAR)):
                # both boundaries at the same place, to which every point is to move: all are there but one
                m = {}
                for e, u in enumerate(U):
                    for k in range(nz):
                        p = num(place[e][k])
                        m[u(0, k)] = m[u(2, k)] = p
                        m[u(1, k)] = add(p, far) if e == c and k == j else p
                ck.eq(lab + "not accepted while point %d moves in %s" % (j, q), tm.subst(cond, m), FALSE, vocab=tuple(s.names), tries=100)


def fnat(a):
    f = lambda i, j: a(num(i), num(j))
    f.q = a(ZERO, ZERO).args[0]
    return f


def returned(ck):
    """What is returned is what the last iteration found."""
    ck.where = ck.location(PG, "grid_elliptic")
    nx, nz = [sym(n, int=True, lo=5, hi=1000) for n in ("nx", "nz")]
    s = elliptic.generate(ck, nx, nz, tol=TOL, restrict_size=num(1000))
    for c, q in enumerate("RZ"):
        ck.array("grid_elliptic: returned " + q, s.I, s.I.new(s.out[c]), [nx, nz], lambda i, j: s.new[c](i, j), vocab=tuple(s.names))
