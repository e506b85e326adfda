"""C14: field-line maps."""
from fractions import Fraction

from zsa.terms import *
from zsa import terms as tm
from zsa.values import *
from zsa.std import *
from props.mapping import *
from props.c15 import want

EXPLANATION = (
    "make_maps is analysed for symbolic grid sizes on abstract planes: the tracer is an uninterpreted function of one "
    "start point, its y and the requested y, the index search of plane p an uninterpreted function of p and the "
    "position, planes may be missing, and the field's boundary is an uninterpreted predicate of position and y. Every "
    "stored position, index, sub-sample index and quadrature weight at symbolic (x, plane, z) is compared with the "
    "specified one, for up to three offsets in both directions and up to three samples per dimension."
)


def run(ck):
    for ns in (1, 2, 3):
        ck.group("nslice=%d" % ns, lambda: one(ck, ns))
    for spd in (2, 3):
        ck.group("samples_per_dim=%d" % spd, lambda: many(ck, 1, spd))
    ck.group("samples_per_dim=2, nslice=2", lambda: many(ck, 2, 2))
    ck.group("default tracer", lambda: default(ck))


OPTS = dict(refine_parallel_integral=ONE, n_chunks=ONE)


def get(w, r, name):
    if name not in r:
        raise Unsupported("no entry %s" % name)
    return w.I.arr(r[name])


def located(q, p, X, Z):
    y = yof(p)
    return ite(none(p), num(-1), ite(bfn("outside", X, y, Z), num(-1), fn("found_" + q, p, X, Z)))


def centre(ck, w, r, ns, lab, samples=1):
    i, j, k = [fresh(n, int=True, lo=0, hi=m) for n, m in zip("ijk", (w.nx, w.ny, w.nz))]
    full = [w.nx, w.ny, w.nz]
    for q in "RZ":
        a = get(w, r, q)
        ck.shape(lab + q, a.shape, full)
        ck.eq(lab + q, a(i, j, k), fn("pol" + q, j, i, k))
    for d in [Fraction(1, 2), *range(1, ns + 1)]:
        for s in (1, -1):
            o = d * s
            p = add(j, num(o))
            start = [fn("pol" + q, j, i, k) for q in "RZ"]
            pos = [traced(q, *start, yof(j), yof(p)) for q in XZ]
            for q, t in zip("RZ", pos):
                n = want(q, o)
                a = get(w, r, n)
                if ck.shape(lab + n, a.shape, full) is not False:
                    ck.eq(lab + n, a(i, j, k), t)
            if d < 1:
                continue
            for q in XZ:
                n = want(q + "t_prime", o)
                a = get(w, r, n)
                if ck.shape(lab + n, a.shape, full) is not False:
                    ck.eq(lab + n, a(i, j, k), located(q, p, *pos))
                n = want(q + "t_primes", o)
                a = get(w, r, n)
                if ck.shape(lab + n, a.shape, full + [num(samples)]) is not False and samples == 1:
                    ck.eq(lab + n, a(i, j, k, ZERO), located(q, p, *pos))
    return i, j, k


def one(ck, ns):
    w = world(ck)
    r = maps(ck, w, nslice=num(ns), **OPTS)
    lab = "%d offsets: " % ns
    centre(ck, w, r, ns, lab)
    a = get(w, r, "subcell_weights")
    if ck.shape(lab + "weights", a.shape, [ONE]) is not False:
        ck.eq(lab + "weight", a(ZERO), ONE)


def many(ck, ns, spd):
    w = world(ck)
    r = maps(ck, w, nslice=num(ns), samples_per_dim=num(spd), **OPTS)
    lab = "%d offsets, %d samples per direction: " % (ns, spd)
    n2 = spd * spd
    i, j, k = centre(ck, w, r, ns, lab, n2)
    # normalised one-dimensional rule
    total = add(*[fn("weight", num(spd), ZERO, ZERO, num(s)) for s in range(spd)])
    node = lambda s: div(fn("node", num(spd), ZERO, ZERO, num(s)), num(2))
    wt = lambda s: div(fn("weight", num(spd), ZERO, ZERO, num(s)), num(2))
    a = get(w, r, "subcell_weights")
    if ck.shape(lab + "weights", a.shape, [num(n2)]) is False:
        return
    orders = [[divmod(s, spd) for s in range(n2)], [divmod(s, spd)[::-1] for s in range(n2)]]
    for s in range(n2):
        p, q = orders[0][s]
        # the nodes' weights sum to two
        e = {fn("weight", num(spd), ZERO, ZERO, num(spd - 1)): sub(num(2), add(*[fn("weight", num(spd), ZERO, ZERO, num(t)) for t in range(spd - 1)]))}
        ck.eq(lab + "weight %d" % s, tm.subst(a(num(s)), e), tm.subst(mul(wt(p), wt(q)), e))
    first = None
    for d in range(1, ns + 1):
        for sg in (1, -1):
            o = num(d * sg)
            p = add(j, o)
            for q in XZ:
                n = want(q + "t_primes", d * sg)
                a = get(w, r, n)
                order = None
                for cand in orders:
                    ok = True
                    for s in range(n2):
                        if not ck.proves(a(i, j, k, num(s)), sample(w, r, q, p, i, j, k, node(cand[s][0]), node(cand[s][1]), a, s)):
                            ok = False
                            break
                    if ok:
                        order = cand
                        break
                if order is not None and first is None:
                    first = order
                if order is None or order is not first:
                    order = first or orders[0]
                for s in range(n2):
                    ck.eq(lab + n + " sample %d" % s, a(i, j, k, num(s)), sample(w, r, q, p, i, j, k, node(order[s][0]), node(order[s][1]), a, s))
    # tables of positions
    w.kind = {}
    for t, (ax, v) in enumerate(w.tables):
        used(ck, w, lab, t, ax, v, j)
    for d in range(1, ns + 1):
        for sg in (1, -1):
            for q in XZ:
                n = want(q + "t_primes", d * sg)
                t = tables(get(w, r, n)(i, j, k, ZERO))
                if t is None or any(x not in w.kind for x in t):
                    continue
                l = lab + n + ": lines start at the R and Z of their own plane"
                (qr, pr), (qz, pz) = [w.kind[x] for x in t]
                if (qr, qz) != ("R", "Z") or pr.op != "sym" or pr is not pz:
                    ck.violated(l, ck.where, "they start from %s of plane %s and %s of plane %s" % (qr, show(pr), qz, show(pz)))
                else:
                    ck.passed(l)


def sample(w, r, q, p, i, j, k, xo, zo, a, s):
    """Index of a line started at an offset from the cell's centre."""
    tabs = tables(a(i, j, k, num(s)))
    R, Z = [fn(tabs[c], add(i, xo), add(k, zo)) for c in (0, 1)] if tabs else [fn("tableR"), fn("tableZ")]
    X, Y = [traced(c, R, Z, yof(j), yof(p)) for c in XZ]
    return located(q, p, X, Y)


def tables(t):
    """Names of the tables a line starts from: first its x, then its z."""
    for u in tm.subterms(t):
        if u.op == "fn" and u.args[0] in ("traced_x", "traced_z"):
            x, z = u.args[1:3]
            if all(v.op == "fn" and str(v.args[0]).startswith("table") for v in (x, z)):
                return x.args[0], z.args[0]
    return None


def used(ck, w, lab, t, ax, v, j):
    """Positions tabulated over the indices, extended by one row on either side in z."""
    lab = lab + "table %d: " % t
    a = fresh("a", int=True, lo=0, hi=w.nx)
    b = fresh("b", int=True, lo=0, hi=w.nz)
    if ck.shape(lab + "values", v.shape, [w.nx, add(w.nz, num(2))]) is False:
        return
    ck.shape(lab + "x axis", ax[0].shape, [w.nx])
    ck.shape(lab + "z axis", ax[1].shape, [add(w.nz, num(2))])
    ck.eq(lab + "x axis", ax[0](a), a)
    ck.eq(lab + "z axis", ax[1](add(b, ONE)), b)
    ck.eq(lab + "lower end of the z axis", ax[1](ZERO), num(-1))
    ck.eq(lab + "upper end of the z axis", ax[1](add(w.nz, ONE)), w.nz)
    mid = v(a, add(b, ONE))
    names = {u.args[0] for u in tm.subterms(mid) if u.op == "fn"} & {"polR", "polZ"}
    if len(names) != 1:
        raise Unsupported("table of positions")
    q = names.pop()[-1]
    pl = [u for u in tm.subterms(mid) if u.op == "fn" and u.args[0] == "pol" + q][0].args[1]
    ck.eq(lab + "values", mid, fn("pol" + q, pl, a, b))
    ck.eq(lab + "values below", v(a, ZERO), fn("pos" + q, pl, a, num(-1)))
    ck.eq(lab + "values above", v(a, add(w.nz, ONE)), fn("pos" + q, pl, a, w.nz))
    w.kind["table%d" % t] = q, pl


def default(ck):
    """Without a tracer the standard one for this field is used."""
    made = []

    def make(I, args, kw):
        f = args[0] if args else kw["field"]
        made.append(I.res(f))
        return w.tracer

    w = world(ck, {"zoidberg.fieldtracer.FieldTracer": Prim("FieldTracer", make)})
    r = maps(ck, w, nslice=ONE, field_tracer=NONE, **OPTS)
    if not made or any(f is not w.field for f in made):
        raise Unsupported("default tracer")
    centre(ck, w, r, 1, "default tracer: ")
