"""C13: the caching tracer."""
from zsa.terms import *
from zsa import terms as tm
from zsa.values import *
from zsa.std import *
from zsa.interp import PyRaise

MOD = "zoidberg.fieldtracer"
EXPLANATION = (
    "CachingFieldTracer.follow_field_lines is analysed with symbolic numbers whose text is a token standing for the "
    "number (lossy where digits are dropped). The file name, as a function of the request, is computed for a family of "
    "requests which differ pairwise in one start point, y value, order, split between arguments or option, and must be "
    "different for each; the data read and written, the wrapped call and the returned array are compared element-wise "
    "for symbolic contents."
)


def run(ck):
    ck.group("keys", lambda: keys(ck))
    ck.group("custom name", lambda: keys(ck, "cache/%s"))
    for rank in (1, 2):
        for kw in ({}, {"rtol": sym("tol")}, {"rtol": sym("tol"), "nsteps": num(7)}):
            ck.group("not stored", lambda: miss(ck, rank, kw))
            ck.group("stored", lambda: hit(ck, rank, kw))


def col(I, vs):
    return I.new(Arr([num(len(vs))], lambda i: pick(vs, i)))


def pick(vs, i):
    k = numval(i)
    if k is not None:
        return vs[int(k)]
    r = vs[-1]
    for q in range(len(vs) - 2, -1, -1):
        r = ite(eq(i, num(q)), vs[q], r)
    return r


def request(ck, x, z, y, kw, cachename=None, shape=None):
    """File names used, wrapped calls and result."""
    log = dict(load=[], save=[], calls=[])

    def load(I, args, kw):
        log["load"].append(I.res(args[0]))
        raise PyRaise("FileNotFoundError: no such file")

    def save(I, args, kw):
        log["save"].append((I.res(args[0]), I.arr(args[1])))
        return NONE

    def trace(I, args, kw):
        names = ("x_values", "z_values", "y_values")
        a = dict(zip(names, args), **kw)
        log["calls"].append(a)
        X, Y = I.arr(a["x_values"]), I.arr(a["y_values"])
        return I.new(Arr([Y.shape[0]] + list(X.shape) + [num(2)], lambda *ix: fn("traced", *ix)))

    I = ck.interp({"numpy.loadtxt": Prim("loadtxt", load), "numpy.savetxt": Prim("savetxt", save)})
    I.tokens = True
    tracer = Abs("tracer", {"follow_field_lines": Prim("trace", trace)})
    o = I.call(ck.anchor(I, MOD, "CachingFieldTracer"), [tracer], {"cachename": cachename} if cachename else {})
    args = [col(I, x), col(I, z), col(I, y)]
    if shape:
        args = args[:0] + [I.new(Arr(shape, lambda *ix, q=q: fn("start_" + q, *ix))) for q in "xz"] + [args[2]]
    r = I.call(I.getattr(o, "follow_field_lines"), args, dict(kw))
    I.need_overrides()
    return I, log, r, args


def keys(ck, cachename=None):
    ck.where = ck.location(MOD, "CachingFieldTracer.follow_field_lines")
    a, b, c = [[sym("%s%d" % (q, k)) for k in range(6)] for q in "xzy"]
    t, u = sym("tol"), sym("tol2")
    R = {
        "the base request": (a[:3], b[:3], c[:2], {}),
        "x and z exchanged": (b[:3], a[:3], c[:2], {}),
        "x in another order": ([a[1], a[0], a[2]], b[:3], c[:2], {}),
        "y in another order": (a[:3], b[:3], [c[1], c[0]], {}),
        "fewer points": (a[:2], b[:2], c[:2], {}),
        "more y values": (a[:3], b[:3], c[:3], {}),
        "one point with four values": (a[:1], a[1:2], a[2:6], {}),
        "the same numbers as two points": (a[:2], a[2:4], a[4:6], {}),
        "x equal to z": (a[:3], a[:3], c[:2], {}),
        "a tolerance": (a[:3], b[:3], c[:2], {"rtol": t}),
        "another tolerance": (a[:3], b[:3], c[:2], {"rtol": u}),
        "another option of that value": (a[:3], b[:3], c[:2], {"eps": t}),
        "two options": (a[:3], b[:3], c[:2], {"rtol": t, "eps": u}),
        "two options exchanged": (a[:3], b[:3], c[:2], {"rtol": u, "eps": t}),
        "a number of steps": (a[:3], b[:3], c[:2], {"rtol": t, "nsteps": num(5)}),
        "another number of steps": (a[:3], b[:3], c[:2], {"rtol": t, "nsteps": num(6)}),
    }
    from fractions import Fraction as F

    n = lambda v: num(F(v))
    for k, v in {"joined numbers": ("1.5", "23.5", "4.5", "67.5"), "digits moved from z to x": ("1.52", "3.5", "4.5", "67.5"), "digits moved from y to z": ("1.5", "23.54", "0.5", "67.5"),
                 "whole numbers": ("1", "2", "34", "5"), "whole numbers with digits moved to z": ("1", "23", "4", "5"), "digits moved to x": ("12", "3", "4", "5"),
                 "digits moved within y": ("1", "2", "3", "45"), "a sign moved": ("1", "-2", "34", "5")}.items():
        R[k] = ([n(v[0])], [n(v[1])], [n(v[2]), n(v[3])], {})
    for k in range(3):
        for q, n in ((0, "x"), (1, "z")):
            r = [list(v) for v in (a[:3], b[:3], c[:2])]
            r[q][k] = sym("other")
            R["another %s[%d]" % (n, k)] = (*r, {})
    for k in range(2):
        r = list(c[:2])
        r[k] = sym("other")
        R["another y[%d]" % k] = (a[:3], b[:3], r, {})
    found = {}
    for name, (x, z, y, kw) in R.items():
        I, log, r, args = request(ck, x, z, y, kw, cachename)
        lab = "%s (%s)" % (name, cachename or "default name")
        if len(log["load"]) != 1 or len(log["save"]) != 1:
            raise Unsupported("%d reads, %d writes" % (len(log["load"]), len(log["save"])))
        f, (g, _) = log["load"][0], log["save"][0]
        if not isinstance(f, str) or not isinstance(g, str):
            raise Unsupported("file name")
        if f == g:
            ck.passed("stored under the key looked up: " + lab)
        else:
            ck.violated("stored under the key looked up: " + lab, ck.where, "reads and writes different files for " + name)
        if f in found:
            ck.violated("own key: " + lab, ck.where, "%s and %s use the same file" % (name, found[f]))
        else:
            ck.passed("own key: " + lab)
        found.setdefault(f, name)
        # the same request again
        I, log, r, args = request(ck, x, z, y, kw, cachename)
        ck.count("requests", 2)


def dims(rank):
    return [sym("n%d" % k, int=True, lo=1) for k in range(rank)] if False else [num(2 + k) for k in range(rank)]


def miss(ck, rank, kw):
    ck.where = ck.location(MOD, "CachingFieldTracer.follow_field_lines")
    sh = dims(rank)
    y = [sym("y%d" % k) for k in range(3)]
    I, log, r, args = request(ck, y, y, y, kw, shape=sh)
    lab = "rank %d, options %s: " % (rank, ",".join(kw) or "none")
    if len(log["calls"]) != 1:
        return ck.violated(lab + "traced once", ck.where, "%d calls of the wrapped tracer" % len(log["calls"]))
    c = log["calls"][0]
    for k, v in zip(("x_values", "z_values", "y_values"), args):
        if k not in c:
            raise Unsupported("call of the wrapped tracer")
        w = I.arr(v)
        ck.array(lab + "wrapped tracer's " + k, I, c[k], list(w.shape), lambda *ix: w(*ix))
    for k, v in kw.items():
        if k not in c:
            ck.violated(lab + "option " + k, ck.where, "option %s does not reach the wrapped tracer" % k)
        else:
            ck.eq(lab + "option " + k, I.scalar(c[k]), v)
    ck.array(lab + "returned", I, r, [num(3)] + sh + [num(2)], lambda *ix: fn("traced", *ix))
    flat = lambda q: fn("traced", *unflat(q, [num(3)] + sh))
    for f, d in log["save"]:
        if d.rank != 2:
            raise Unsupported("stored rank")
        n = num(3)
        for s in sh:
            n = mul(n, s)
        ck.shape(lab + "stored", d.shape, [n, num(2)])
        q = fresh("q", int=True, lo=0, hi=n)
        for cc in (0, 1):
            ck.eq(lab + "stored [%d]" % cc, d(q, num(cc)), fn("traced", *unflat(q, [num(3)] + sh), num(cc)))


def unflat(q, sh):
    out = []
    for s in reversed(sh[1:]):
        p = floor(div(q, s))
        out.insert(0, sub(q, mul(s, p)))
        q = p
    return [q] + out


def hit(ck, rank, kw):
    ck.where = ck.location(MOD, "CachingFieldTracer.follow_field_lines")
    sh = dims(rank)
    n = num(3)
    for s in sh:
        n = mul(n, s)
    calls = []

    def trace(I, args, kw):
        calls.append(args)
        return Unk("traced again")

    load = Prim("loadtxt", lambda I, a, k: I.new(Arr([n, num(2)], lambda q, c: fn("stored", q, c))))
    I = ck.interp({"numpy.loadtxt": load})
    I.tokens = True
    o = I.call(ck.anchor(I, MOD, "CachingFieldTracer"), [Abs("tracer", {"follow_field_lines": Prim("trace", trace)})], {})
    y = col(I, [sym("y%d" % k) for k in range(3)])
    x, z = [I.new(Arr(sh, lambda *ix, q=q: fn("start_" + q, *ix))) for q in "xz"]
    r = I.call(I.getattr(o, "follow_field_lines"), [x, z, y], dict(kw))
    I.need_overrides()
    lab = "rank %d, options %s: " % (rank, ",".join(kw) or "none")

    def want(k, *ix):
        q = k
        for s, i in zip(sh, ix):
            q = add(mul(q, s), i)
        return fn("stored", q, ix[-1])

    ck.array(lab + "returned from the file", I, r, [num(3)] + sh + [num(2)], want)
