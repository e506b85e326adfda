"""C25: Poincare data."""
from zsa.terms import *
from zsa import terms as tm
from zsa.values import *
from zsa.std import *
from zsa.interp import PyRaise

from fractions import Fraction as F

MOD = "zoidberg.fieldtracer"
XZ = ("x", "z")
PERIOD = sym("period", lo=ONE)
EXPLANATION = (
    "trace_poincare is analysed with an uninterpreted tracer (a function of start point, first and requested y) for "
    "start points of rank 0 to 2 with symbolic sizes, a symbolic period and small numbers of slices, revolutions and "
    "oversampled points. Every element of the result is compared with the tracer at that revolution's and slice's y, "
    "and the y values handed to the tracer must lie between the requested ones. The condition under which slices are "
    "refused is compared as a formula."
)


def run(ck):
    for nplot in (1, 2, 3):
        for revs in (1, 2, 3):
            for nover in (1, 2, 3):
                ck.group("equal slices", lambda: data(ck, dict(nplot=num(nplot), revs=num(revs), nover=num(nover)), 1))
    for rank in (0, 2):
        ck.group("shapes", lambda: data(ck, dict(nplot=num(2), revs=num(2), nover=num(2)), rank))
    ck.group("lists", lambda: data(ck, dict(nplot=num(2), revs=num(2), nover=num(2)), "list"))
    for ys in ((0,), (2, 5, 7), (7, 2, 5), (5, 2), (0, 10), (3, 3), (9, 0, 4, 1)):
        for nplot in (None, 3, NONE):
            ck.group("given slices", lambda: data(ck, dict(revs=num(2), nover=num(2), **({} if nplot is None else {"nplot": num(3) if nplot == 3 else NONE})), 1, ys))
    for ys in ((4, 10), (10, 1, 3), (F(1, 4), 1), (10,), (F(7, 2), F(19, 2))):
        for revs in (1, 3):
            ck.group("given slices", lambda: data(ck, dict(revs=num(revs), nover=num(3)), 1, ys))
    for n in (1, 2):
        ck.group("range of slices", lambda: refused(ck, n))
    ck.group("no slices", lambda: nothing(ck))


def tracing(ck, rank):
    ck.where = ck.location(MOD, "trace_poincare")
    calls = []
    field = Abs("field", {})

    def follow(I, args, kw):
        a = dict(zip(("x_values", "z_values", "y_values"), args), **kw)
        x, z, y = [I.arr(a[k]) for k in ("x_values", "z_values", "y_values")]
        calls.append((x, z, y))
        sh = x.shape if x.rank else [ONE]
        el = lambda a, ix: a(*ix) if a.rank else a()
        return I.new(Arr([y.shape[0], *sh, num(2)], lambda k, *ix: ite(eq(ix[-1], ZERO), *[
            fn("traced_" + q, el(x, ix[:-1]), el(z, ix[:-1]), y(ZERO), y(k)) for q in XZ])))

    def make(I, args, kw):
        f = args[0] if args else kw["field"]
        if I.res(f) is not field:
            raise Unsupported("tracer of another field")
        return Abs("tracer", {"follow_field_lines": Prim("follow", follow)})

    I = ck.interp({MOD + ".FieldTracer": Prim("FieldTracer", make)})
    f = ck.anchor(I, MOD, "trace_poincare")
    if rank == "list":
        sh = [num(3)]
        start = [I.new(Lst([sym("start_%s%d" % (q, k)) for k in range(3)])) for q in XZ]
        at = lambda q, ix: [sym("start_%s%d" % (q, k)) for k in range(3)][int(numval(ix[0]))] if numval(ix[0]) is not None else tm.fn("?")
    elif rank == 0:
        sh = [ONE]
        start = [sym("start_" + q) for q in XZ]
        at = lambda q, ix: sym("start_" + q)
    else:
        sh = [sym("n%d" % k, int=True, lo=1) for k in range(rank)]
        start = [I.new(Arr(sh, lambda *ix, q=q: fn("start_" + q, *ix))) for q in XZ]
        at = lambda q, ix: fn("start_" + q, *ix)
    return I, f, field, start, sh, at, calls


def data(ck, opts, rank, ys=None):
    I, f, field, start, sh, at, calls = tracing(ck, rank)
    period = PERIOD
    kw = dict(opts)
    lab = ", ".join("%s=%s" % (k, v.args[0] if isinstance(v, T) else v) for k, v in opts.items()) + ", rank %s" % rank
    if ys is None:
        n = int(numval(opts["nplot"]))
        slices = [div(mul(PERIOD, num(k)), num(n)) for k in range(n)]
    else:
        period = num(10)
        n = len(ys)
        kw["y_slices"] = I.new(Lst([num(y) for y in ys]))
        slices = [num(y) for y in sorted(ys)]
        lab += ", slices %s" % (ys,)
    out = I.const_items(I.call(f, [field, *start, period], kw))
    I.need_overrides()
    revs, nover = int(numval(opts["revs"])), int(numval(opts["nover"]))
    lab += ": "
    res = I.arr(out[0])
    full = [num(revs), num(n), *sh, num(2)]
    if ck.shape(lab + "data", res.shape, full) is False:
        return
    ix = [fresh("i", int=True, lo=0, hi=s) if rank != "list" else ONE for s in sh]
    for i in range(revs):
        for k in range(n):
            for c, q in enumerate(XZ):
                y = add(slices[k], mul(num(i), period))
                ck.eq(lab + "revolution %d, slice %d, %s" % (i, k, q), res(num(i), num(k), *ix, num(c)), fn("traced_" + q, at("x", ix), at("z", ix), slices[0], y))
    got = I.arr(out[1])
    if ck.shape(lab + "slices", got.shape, [num(n)]) is not False:
        for k in range(n):
            ck.eq(lab + "slice %d" % k, got(num(k)), slices[k])
    if len(calls) != 1:
        raise Unsupported("%d traces" % len(calls))
    y = calls[0][2]
    total = (revs * n - 1) * nover + 1
    if numval(y.shape[0]) != total:
        return
    # in between, without going back
    for m in range(total - 1):
        ck.holds(lab + "y value %d not below the one before" % (m + 1), le(y(num(m)), y(num(m + 1))))


def refused(ck, n):
    """Slices outside one period."""
    for bad in range(n):
        for lab, v, no in (("below zero", neg(sym("d", lo=ONE)), True), ("beyond the period", add(PERIOD, sym("d", lo=ONE)), True),
                           ("zero", ZERO, False), ("the period", PERIOD, False)):
            I, f, field, start, sh, at, calls = tracing(ck, 1)
            ys = I.new(Lst([v if k == bad else div(PERIOD, num(2)) for k in range(n)]))
            lab = "slice %d of %d %s is %s" % (bad, n, lab, "refused" if no else "accepted")
            try:
                I.call(f, [field, *start, PERIOD], dict(y_slices=ys, revs=num(1), nover=num(1)))
                raised = False
                if I.raises:
                    raise Unsupported("condition of the error")
            except PyRaise as e:
                raised = True
            if raised == no:
                ck.passed(lab)
            else:
                ck.violated(lab, ck.where, "an error is raised" if raised else "no error is raised")


def nothing(ck):
    I, f, field, start, sh, at, calls = tracing(ck, 1)
    try:
        I.call(f, [field, *start, PERIOD], dict(nplot=NONE, y_slices=NONE))
        if I.raises:
            raise Unsupported("condition of the error")
    except PyRaise:
        return ck.passed("neither number nor list of slices is refused")
    ck.violated("neither number nor list of slices is refused", ck.where, "no error is raised")
