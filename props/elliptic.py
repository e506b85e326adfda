"""Elliptic grid generation, seen as its last iteration (C18, C24)."""
from zsa.terms import *
from zsa import terms as tm
from zsa.values import *
from zsa.std import *

PG = "zoidberg.poloidal_grid"


class Solve:
    """One call of the generator."""


def line(name, R=None, Z=None, n=5):
    def value(q):
        def f(I, args, kw):
            t = args[0] if args else kw["theta"]
            return I.elementwise(lambda x: fn(name + q, x), [t])

        return Prim(q + "value", f)

    def closest(I, args, kw):
        return fn(name + "closest", I.scalar(args[0]), I.scalar(args[1]))

    def position(I, args, kw):
        return Tup([I.elementwise(lambda x, q=q: fn(name + q, x), [args[0]]) for q in "RZ"])

    def points(q):
        if (R if q == "R" else Z) is not None:
            return R if q == "R" else Z
        return lambda I, v: I.new(Arr([num(n)], lambda i: fn(name + "point" + q, i)))

    return Abs(name, {"R": points("R"), "Z": points("Z"), "Rvalue": value("R"), "Zvalue": value("Z"), "position": Prim("position", position), "closestPoint": Prim("closestPoint", closest)})


def generate(ck, nx, nz, overrides=None, lines=(5, 5), first=0, repeated=None, **opts):
    I = ck.interp(overrides or {})
    s = Solve()
    I.repeated = repeated
    recs = []
    I.iterations, I.on_iteration = [], lambda I, rec: recs.append(rec)
    f = ck.anchor(I, PG, "grid_elliptic")
    kw = dict(align=FALSE, return_coords=TRUE, inner_ort=FALSE)
    kw.update(opts)
    s.out = [I.arr(v) for v in I.const_items(I.call(f, [line("inner", n=lines[0]), line("outer", n=lines[1]), nx, nz], kw))]
    s.I = I
    if overrides:
        I.need_overrides()
    # the loop whose carried arrays are returned
    s.rec = None
    for rec in recs:
        names = {t[0]: k for k, t in rec["tmpl"].items() if isinstance(t, tuple)}
        got = []
        for a in s.out:
            used = {t.args[0] for t in tm.subterms(a(*[fresh("i", int=True, lo=0, hi=n) for n in a.shape])) if t.op == "fn"} & set(names)
            got.append(used)
        if got[0] and got[1]:
            s.rec, s.names = rec, names
    if s.rec is None:
        raise Unsupported("no solver loop found")
    # the unknowns: what the returned rows on the inner line come from
    s.start, s.new, s.before = [], [], []
    for a in s.out:
        t = a(num(first), fresh("i", int=True, lo=0, hi=a.shape[1]))
        hit = {x.args[0] for x in tm.subterms(t) if x.op == "fn"} & set(s.names)
        if len(hit) != 1:
            raise Unsupported("unknowns of the solver loop")
        k = s.names[hit.pop()]
        s.start.append(s.rec["tmpl"][k][1])
        s.new.append(held(I, s.rec["end"], k))
        s.before.append(held(I, s.rec["before"], k))
    return s


def held(I, S, key):
    """Array held under a key of a state."""
    SS = I.S
    I.S = S
    try:
        v = I.key_get(S, key)
        return v if isinstance(v, Arr) else I.content(v)
    finally:
        I.S = SS
