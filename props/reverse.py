"""The implicit tracer, step by step (C18, C19)."""
from zsa.terms import *
from zsa import terms as tm
from zsa.values import *
from zsa.std import *

MOD = "zoidberg.fieldtracer"
XZ = ("x", "z")
Y0, H = sym("y0"), [sym("h1"), sym("h2")]


class Step:
    """One implicit solve."""


def trace(ck, sh, nsteps, opts, defaults=False):
    """Runs the analysis; returns interpreter, result and the steps found."""
    calls = []

    def direction(I, args, kw):
        a = dict(zip(("pos", "ycoord", "flatten"), args), **kw)
        x, z = I.const_items(a["pos"])
        calls.append((x, z, a["ycoord"], I.arr(x), I.arr(z), I.arr(a["ycoord"])))
        return Tup([I.elementwise(lambda p, q, y, c=c: fn("dir" + c, p, q, y), [x, z, a["ycoord"]]) for c in XZ])

    steps = []
    mark = [0]

    def solved(I, rec):
        s = Step()
        names = {t[0]: k for k, t in rec["tmpl"].items() if isinstance(t, tuple)}
        s.calls = calls[mark[0]:]
        mark[0] = len(calls)
        # unknowns: carried arrays at which the direction is evaluated
        s.pair = None
        for c in s.calls:
            ns = []
            for a in c[3:5]:
                t = a(*[ZERO] * a.rank) if a.rank else a()
                if t.op == "fn" and t.args[0] in names:
                    ns.append(t.args[0])
            if len(ns) == 2:
                s.pair = ns
        if s.pair is None:
            raise Unsupported("unknowns of the implicit step")
        s.keys = [names[n] for n in s.pair]
        s.unknown = [rec["tmpl"][k][1] for k in s.keys]  # arrays at the start of the iteration
        s.found = []
        for k in s.keys:
            v = I.key_get(I.S, k)
            s.found.append(v if isinstance(v, Arr) else I.content(v))
        s.cond = b_or(*rec["conds"])
        s.k = len(steps)
        s.line = rec["st"].lineno
        steps.append(s)
        # what was found is a new symbol from here on
        s.name = ["pos%d_%s" % (s.k, q) for q in XZ]
        for k, n, a in zip(s.keys, s.name, s.found):
            c = Arr(a.shape, lambda *ix, n=n: fn(n, *ix), a.dt)
            I.key_set(I.S, k, c if k[0] == "h" else I.new(c))
        I.S.pc = rec["before"].pc

    I = ck.interp()
    I.iterations, I.on_iteration = [], solved
    f = Abs("field", {"field_direction": Prim("direction", direction)})
    C = ck.anchor(I, MOD, "FieldTracerReversible")
    a, kw = dict(opts, nsteps=num(nsteps)), {}
    if defaults:
        o = I.call(C, [f], a)
    else:
        o = I.call(C, [f], {})
        kw = a
    x, z = [I.new(Arr(sh, lambda *ix, q=q: fn("start_" + q, *ix))) for q in XZ]
    off = [ZERO, H[0], add(*H)]
    y = I.new(Arr([num(3)], lambda k: add(Y0, off[int(numval(k))] if numval(k) is not None else fn("yoff", k))))
    r = I.arr(I.call(I.getattr(o, "follow_field_lines"), [x, z, y], kw))
    return I, r, steps


def at(s, ix):
    """Start of step s at the point ix."""
    return [fn("start_" + q, *ix) for q in XZ] if s == 0 else [fn("pos%d_%s" % (s - 1, q), *ix) for q in XZ]


def residual(s, nsteps, ix, pq):
    """The implicit direction that solves the trapezoidal rule."""
    k, j = divmod(s.k, nsteps)
    h = div(H[k], num(nsteps))
    base = add(Y0, H[0]) if k else Y0
    ya, yb = add(base, mul(num(j), h)), add(base, mul(num(j + 1), h))
    x0, z0 = at(s.k, ix)
    out = {}
    for q, v, v0 in zip(XZ, pq, (x0, z0)):
        out[fn("dir" + q, *pq, yb)] = sub(div(mul(num(2), sub(v, v0)), h), fn("dir" + q, x0, z0, ya))
    return out
