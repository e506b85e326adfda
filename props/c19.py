"""C19: implicit tracing."""
from zsa.terms import *
from zsa import terms as tm
from zsa.values import *
from zsa.std import *
from props import reverse
from props.reverse import *

EXPLANATION = (
    "FieldTracerReversible.follow_field_lines is analysed for an uninterpreted direction field. Each iterative solve is "
    "summarised by its last iteration, started from arbitrary positions; the positions it returns must equal those it "
    "started from exactly when these satisfy the trapezoidal rule between the step's own start and end y. The sequence "
    "of steps, their sub-step boundaries and what is stored per y value are compared with the specification for 1, 2 "
    "and 3 sub-steps and symbolic y intervals, of either sign."
)


def run(ck):
    for rank in (1, 2):
        for n in (1, 2, 3):
            for defaults in (False, True):
                ck.group("steps", lambda: steps(ck, rank, n, defaults))


def steps(ck, rank, n, defaults):
    ck.where = ck.location(MOD, "FieldTracerReversible.follow_field_lines")
    sh = [sym("n%d" % k, int=True, lo=1) for k in range(rank)]
    I, r, st = reverse.trace(ck, sh, n, {"rtol": sym("rtol"), "eps": sym("eps")}, defaults)
    lab = "rank %d, %d sub-steps%s: " % (rank, n, " by default" if defaults else "")
    if len(st) != 2 * n:
        return ck.violated(lab + "number of steps", ck.where, "%d implicit steps for two intervals of %d sub-steps" % (len(st), n))
    ck.passed(lab + "number of steps")
    ix = [fresh("i", int=True, lo=0, hi=s) for s in sh]
    ck.shape(lab + "result", r.shape, [num(3)] + sh + [num(2)])
    for k in range(3):
        p = reverse.at(k * n, ix)
        for c in (0, 1):
            ck.eq(lab + "position %s at y[%d]" % (XZ[c], k), r(num(k), *ix, num(c)), p[c])
    h = [sym("h1"), sym("h2")]
    for s in st:
        pq = [u(*ix) for u in s.unknown]
        m = reverse.residual(s, n, ix, pq)
        vocab = tuple(s.pair)
        facts = [b_not(eq(h[s.k // n], ZERO)), b_not(eq(sym("eps"), ZERO))]
        if rank == 1 and n < 3:
            linear(ck, lab, s, n, ix)
        for c in (0, 1):
            got = s.found[c](*ix)
            ck.eq(lab + "step %d: a solution is kept, %s" % (s.k, XZ[c]), tm.subst(got, m), pq[c], facts, vocab=vocab)
            # and other positions are not
            dev = dict(m)
            for q, t in list(m.items()):
                dev[q] = add(t, sym("deviation_" + q.args[0]))
            ck.count("steps")
            # the direction at the end of the step decides: the result depends on it
            far = tm.subst(got, dev)
            if ck.proves(far, pq[c], facts):
                ck.violated(lab + "step %d: solves for %s" % (s.k, XZ[c]), ck.where, "the position is kept although it does not satisfy the rule")
            else:
                ck.passed(lab + "step %d: solves for %s" % (s.k, XZ[c]))


def linear(ck, lab, s, n, ix):
    """In a direction field linear in the position one iteration is exact."""
    lin = lambda q, x, z, y: add(add(mul(sym("a" + q), x), mul(sym("b" + q), z)), fn("c" + q, y))
    value = lambda t: lin(t.args[0][-1], *t.args[1:])
    E = [tm.map_named(s.found[c](*ix), {"dirx", "dirz"}, value) for c in (0, 1)]
    x0, z0 = reverse.at(s.k, ix)
    k, j = divmod(s.k, n)
    h = div(H[k], num(n))
    base = add(Y0, H[0]) if k else Y0
    ya, yb = add(base, mul(num(j), h)), add(base, mul(num(j + 1), h))
    half = div(h, num(2))
    ax, bx, az, bz = [mul(half, sym(v)) for v in ("ax", "bx", "az", "bz")]
    # (1 - ax) X - bx Z = rx ; -az X + (1 - bz) Z = rz
    r = [add(v, mul(half, add(lin(q, x0, z0, ya), fn("c" + q, yb)))) for q, v in (("x", x0), ("z", z0))]
    det = sub(mul(sub(ONE, ax), sub(ONE, bz)), mul(bx, az))
    want = [div(add(mul(sub(ONE, bz), r[0]), mul(bx, r[1])), det), div(add(mul(az, r[0]), mul(sub(ONE, ax), r[1])), det)]
    facts = [b_not(eq(det, ZERO)), b_not(eq(sym("eps"), ZERO)), b_not(eq(H[k], ZERO))]
    for c in (0, 1):
        ck.eq(lab + "step %d: exact in a linear field, %s" % (s.k, XZ[c]), E[c], want[c], facts, vocab=tuple(s.pair))
