"""C06: rectangular poloidal grids."""
from zsa.terms import *
from zsa.values import *
from zsa.std import *

EXPLANATION = (
    "RectangularPoloidalGrid is constructed abstractly for symbolic sizes, spacing and guard width; positions, "
    "derivatives, indices, stored arrays and metric are compared with the linear map R = Rcentre + (i-(nx-1)/2)*Lx/(nx-2*MXG), "
    "Z = Zcentre + (k-(nz-1)/2)*Lz/nz."
)


def setup(ck, guard):
    I = ck.interp()
    C = ck.anchor(I, "zoidberg.poloidal_grid", "RectangularPoloidalGrid")
    m, nz = sym("m", int=True, lo=1), sym("nz", int=True, lo=1)
    kw = {"Rcentre": sym("Rc"), "Zcentre": sym("Zc")}
    if guard == "default":
        g = num(2)
    elif guard == "zero":
        g = ZERO
        kw["MXG"] = g
    else:
        g = sym("MXG", int=True, lo=0)
        kw["MXG"] = g
    nx = add(m, mul(num(2), g))
    Lx, Lz = sym("Lx", lo=ONE), sym("Lz", lo=ONE)
    o = I.call(C, [nx, nz, Lx, Lz], kw)
    dR, dZ = div(Lx, m), div(Lz, nz)

    def R(i):
        return add(sym("Rc"), mul(sub(i, div(sub(nx, ONE), num(2))), dR))

    def Z(k):
        return add(sym("Zc"), mul(sub(k, div(sub(nz, ONE), num(2))), dZ))

    return I, o, nx, nz, dR, dZ, R, Z


def run(ck):
    for guard in ("default", "zero", "any"):
        def go():
            ck.where = ck.location("zoidberg.poloidal_grid", "RectangularPoloidalGrid")
            I, o, nx, nz, dR, dZ, R, Z = setup(ck, guard)
            p = "guard cells %s: " % guard
            ck.array(p + "stored R", I, I.getattr(o, "R"), [nx, nz], lambda i, k: R(i))
            ck.array(p + "stored Z", I, I.getattr(o, "Z"), [nx, nz], lambda i, k: Z(k))
            ck.eq(p + "nx", I.scalar(I.getattr(o, "nx")), nx)
            ck.eq(p + "nz", I.scalar(I.getattr(o, "nz")), nz)
            met = I.call(I.getattr(o, "metric"), [], {})
            for k, want in dict(dx=dR, dz=dZ, gxx=ONE, g_xx=ONE, gzz=ONE, g_zz=ONE, gxz=ZERO, g_xz=ZERO).items():
                ck.eq(p + "metric " + k, I.scalar(I.getitem(met, k)), want)
            n = [sym("p%d" % k, int=True, lo=1) for k in range(3)]
            ck.where = ck.location("zoidberg.poloidal_grid", "RectangularPoloidalGrid.getCoordinate")
            for rank in (0, 1, 2, 3):
                sh = n[:rank]
                x = I.new(Arr(sh, lambda *ix: fn("xi", *ix))) if rank else sym("xi0")
                z = I.new(Arr(sh, lambda *ix: fn("zi", *ix))) if rank else sym("zi0")
                xa, za = I.arr(x), I.arr(z)

                for a in range(4):
                    for b in range(4):
                        def one():
                            r = I.call(I.getattr(o, "getCoordinate"), [x, z], {"dx": num(a), "dz": num(b)})
                            rr, zz = I.unpack_items(["a", "b"], r)
                            wr = (lambda *ix: R(xa(*ix))) if a + b == 0 else (lambda *ix: dR if (a, b) == (1, 0) else ZERO)
                            wz = (lambda *ix: Z(za(*ix))) if a + b == 0 else (lambda *ix: dZ if (a, b) == (0, 1) else ZERO)
                            ck.array(p + "R derivative (%d,%d), rank %d" % (a, b, rank), I, rr, sh, wr)
                            ck.array(p + "Z derivative (%d,%d), rank %d" % (a, b, rank), I, zz, sh, wz)
                        ck.group(p + "derivative (%d,%d), rank %d" % (a, b, rank), one)
                def inverse():
                    ck.where = ck.location("zoidberg.poloidal_grid", "RectangularPoloidalGrid.findIndex")
                    r = I.call(I.getattr(o, "getCoordinate"), [x, z], {})
                    rr, zz = I.unpack_items(["a", "b"], r)
                    f = I.call(I.getattr(o, "findIndex"), [rr, zz], {})
                    xx, kk = I.unpack_items(["a", "b"], f)
                    ck.array(p + "findIndex inverts getCoordinate in x, rank %d" % rank, I, xx, sh, xa)
                    ck.array(p + "findIndex inverts getCoordinate in z, rank %d" % rank, I, kk, sh, za)
                ck.group(p + "inverse rank %d" % rank, inverse)
        ck.group("guard cells " + guard, go)
    ck.group("rectangular_grid", lambda: stack(ck))


def stack(ck):
    ck.where = ck.location("zoidberg.grid", "rectangular_grid")
    for per in (True, False):
        I = ck.interp()
        f = ck.anchor(I, "zoidberg.grid", "rectangular_grid")
        m, ny, nz = sym("m", int=True, lo=1), sym("ny", int=True, lo=1), sym("nz", int=True, lo=1)
        nx = add(m, num(4))
        Lx, Ly, Lz = sym("Lx", lo=ONE), sym("Ly", lo=ONE), sym("Lz", lo=ONE)
        g = I.call(f, [nx, ny, nz], dict(Lx=Lx, Ly=Ly, Lz=Lz, xcentre=sym("Rc"), zcentre=sym("Zc"), yperiodic=TRUE if per else FALSE))
        p = "rectangular_grid %s: " % ("periodic" if per else "open")
        j = sym("jj", int=True, lo=0, hi=ny)
        pol, y = I.unpack_items(["a", "b"], I.call(I.getattr(g, "getPoloidalGrid"), [j], {}))
        ck.eq(p + "y", I.scalar(y), mul(div(Ly, ny), j if per else add(j, div(ONE, num(2)))))
        ck.array(p + "R", I, I.getattr(pol, "R"), [nx, nz], lambda i, k: add(sym("Rc"), mul(sub(i, div(sub(nx, ONE), num(2))), div(Lx, m))))
        ck.array(p + "Z", I, I.getattr(pol, "Z"), [nx, nz], lambda i, k: add(sym("Zc"), mul(sub(k, div(sub(nz, ONE), num(2))), div(Lz, nz))))
        for nm, a, b in zip(("nx", "ny", "nz"), I.const_items(I.getattr(g, "shape")), (nx, ny, nz)):
            ck.eq(p + nm, I.scalar(a), b)
        ck.eq(p + "periodicity", I.truth(I.getattr(g, "yperiodic")), TRUE if per else FALSE)
        ck.eq(p + "Ly", I.scalar(I.getattr(g, "Ly")), Ly)
