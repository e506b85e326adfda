"""doit of stencil_dagp_fv on abstract planes (C17, C27)."""
from zsa.terms import *
from zsa import terms as tm
from zsa.values import *
from zsa.std import *
from zsa.interp import PyRaise

MOD = "zoidberg.stencil_dagp_fv"
DZ = sym("spacing", lo=ONE)  # Lz / nz
HALF = div(ONE, num(2))
tm.UNROLL[0] = 64


class Run:
    pass


def planeR(rect, p, i, k):
    return fn("polR", num(p), i) if rect else fn("polR", num(p), i, k)


def planeZ(rect, p, i, k, nz):
    return add(fn("polZ0", num(p)), mul(k, DZ)) if rect else fn("polZ", num(p), i, k)


def run(ck, planes, nx, nz, rect, slab, singular=False, bar=False):
    r = Run()
    r.calls = []
    ck.where = ck.location(MOD, "doit")

    def pol(p):
        def pos(I, args, kw):
            a = dict(zip(("xind", "zind"), args), **kw)
            x = I.arr(a["xind"])
            r.calls.append((p, x.shape))
            return Tup([I.elementwise(lambda x, z, q=q: fn("pos" + q, num(p), x, z), [a["xind"], a["zind"]]) for q in "RZ"])

        at = {"nx": nx, "nz": nz, "getCoordinate": Prim("getCoordinate", pos), "Lz": mul(nz, DZ),
              "$isinstance": lambda I, c: TRUE if isinstance(c, ClassV) and (c.name == "PoloidalGrid" or rect and c.name == "RectangularPoloidalGrid") else FALSE,
              "R": lambda I, v: I.new(Arr([nx, nz], lambda i, k: planeR(rect, p, i, k))),
              "Z": lambda I, v: I.new(Arr([nx, nz], lambda i, k: planeZ(rect, p, i, k, nz)))}
        return Abs("pol", at, key=(p,))

    wrap = Prim("tqdm", lambda I, a, k: a[0] if a else k["iterable"])
    ov = {MOD + ".tqdm": wrap if bar else NONE}
    I = r.I = ck.interp(ov)
    if singular:
        from zsa import npmodel
        plain = npmodel.np_solve

        def solve(I, args, kw):
            a = I.arr(args[0])
            if a.rank > 2 and numval(a.shape[0]) == numval(nx) - 2:
                raise PyRaise("LinAlgError: Singular matrix")
            return plain(I, args, kw)

        I.overrides["numpy.linalg.solve"] = Prim("solve", solve)
    f = ck.anchor(I, MOD, "doit")
    kw = {"isSlab": TRUE} if slab else {}
    v = I.res(I.call(f, [I.new(Lst([pol(p) for p in range(planes)]))], kw))
    if I.raises:
        raise Unsupported("error under a condition: %s" % (I.raises[0][1],))
    d = I.content(v)
    if not isinstance(d, Dct):
        raise Unsupported("result is not a dictionary")
    r.out = {k: I.arr(x) for k, x in d.d.items()}
    # numbers of points per side
    last = [int(numval(s[-1])) for p, s in r.calls if len(s) == 3 and numval(s[-1]) is not None]
    r.nvol = r.nx = r.nz = None
    per = [s for p, s in r.calls if len(s) == 3 and p == 0]
    if len(per) == 3 and all(numval(s[-1]) is not None for s in per) and numval(per[0][-1]) % 4 == 0:
        r.nvol, r.nx, r.nz = int(numval(per[0][-1])) // 4, int(numval(per[1][-1])), int(numval(per[2][-1]))
    else:
        raise Unsupported("positions are asked for in another way")
    return r


def weight(slab, a, b):
    return ONE if slab else mul(HALF, add(a, b))


def pos(p, x, z):
    return [fn("pos" + q, num(p), x, z) for q in "RZ"]


def volume(p, i, k, n, slab):
    """Around the cell, towards +x at k + 1/2 first."""
    tot = ZERO
    s = [div(sub(num(m), div(num(n - 1), num(2))), num(n - 1)) for m in range(n)]  # -1/2 .. 1/2
    path = [(add(i, t), add(k, HALF)) for t in s] + [(add(i, HALF), sub(k, t)) for t in s] + [(sub(i, t), sub(k, HALF)) for t in s] + [(sub(i, HALF), add(k, t)) for t in s]
    for (x0, z0), (x1, z1) in zip(path, path[1:]):
        if x0 is x1 and z0 is z1:
            continue
        a, b = pos(p, x0, z0), pos(p, x1, z1)
        mid = mul(HALF, add(a[0], b[0]))
        dz = sub(b[1], a[1])
        tot = sub(tot, mul(mid, dz) if slab else mul(HALF, mul(mul(mid, mid), dz)))
    return tot


def face(p, start, end, n, slab, sign):
    """Area weighted normal of the line from start to end."""
    N = [ZERO, ZERO]
    pts = [[add(a, mul(sub(b, a), div(num(m), num(n - 1)))) for a, b in zip(start, end)] for m in range(n)]
    for u, v in zip(pts, pts[1:]):
        a, b = pos(p, *u), pos(p, *v)
        w = weight(slab, a[0], b[0])
        N[0] = add(N[0], mul(w, sub(b[1], a[1])))
        N[1] = sub(N[1], mul(w, sub(b[0], a[0])))
    return N if sign > 0 else [neg(t) for t in N]


def solve(dx, dz, N):
    det = sub(mul(dx[0], dz[1]), mul(dz[0], dx[1]))
    return div(sub(mul(N[0], dz[1]), mul(dz[0], N[1])), det), div(sub(mul(dx[0], N[1]), mul(dx[1], N[0])), det)


def up(k, nz):
    return ite(lt(add(k, ONE), nz), add(k, ONE), ZERO)


def down(k, nz):
    return ite(eq(k, ZERO), sub(nz, ONE), sub(k, ONE))


def xface(p, i, k, nz, n, rect, slab):
    """Between i and i + 1."""
    P = lambda i, k: [planeR(rect, p, i, k), planeZ(rect, p, i, k, nz)]
    N = face(p, (add(i, HALF), sub(k, HALF)), (add(i, HALF), add(k, HALF)), n, slab, 1)
    a, b = P(i, k), P(add(i, ONE), k)
    dx = [sub(y, x) for x, y in zip(a, b)]
    if rect:
        dz = [ZERO, mul(num(2), DZ)]
    else:
        dz = [mul(HALF, add(sub(u1, d1), sub(u2, d2))) for u1, d1, u2, d2 in zip(P(i, up(k, nz)), P(i, down(k, nz)), P(add(i, ONE), up(k, nz)), P(add(i, ONE), down(k, nz)))]
    return solve(dx, dz, N)


def zface(p, i, k, nz, n, rect, slab):
    """Between k and k + 1."""
    P = lambda i, k: [planeR(rect, p, i, k), planeZ(rect, p, i, k, nz)]
    N = face(p, (sub(i, HALF), add(k, HALF)), (add(i, HALF), add(k, HALF)), n, slab, -1)
    u = up(k, nz)
    i0, i1 = sub(i, ONE), add(i, ONE)
    dx = [mul(HALF, add(sub(b1, a1), sub(b2, a2))) for a1, b1, a2, b2 in zip(P(i0, k), P(i1, k), P(i0, u), P(i1, u))]
    if rect:
        dz = [ZERO, DZ]
    else:
        dz = [sub(b, a) for a, b in zip(P(i, k), P(i, u))]
    return solve(dx, dz, N)
