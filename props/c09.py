"""C09: the built-in fields evaluate their formulas and tables."""
from zsa.terms import *
from zsa import terms as tm
from zsa.values import *
from zsa.std import *
from zsa.npmodel import arr_term
from props.fields import *

EXPLANATION = (
    "The constructor and the component functions of each field class are analysed with symbolic parameters and "
    "positions. Analytic fields are compared with their closed formulas (Dommaschk potentials with a reference "
    "implementation analysed by the same engine); tabulated fields with uninterpreted interpolation of the right table, "
    "axis by axis, at the right coordinates."
)
X, Z, Y = sym("px"), sym("pz"), sym("py")
TWOPI = mul(num(2), PI)


def evaluate(I, o, name, rank=1):
    n = sym("n0", int=True, lo=1)
    x = I.new(Arr([n], lambda i: fn("px", i)))
    z = I.new(Arr([n], lambda i: fn("pz", i)))
    y = sym("py")
    r = I.res(I.call(I.getattr(o, name), [x, z, y], {}))
    return r, n


def compare(ck, I, cname, o, spec, facts=(), labels=("Bxfunc", "Byfunc", "Bzfunc", "Rfunc"), **kw):
    for nm in labels:
        def go():
            ck.where = ck.location("zoidberg.field", "%s.%s" % (cname, nm))
            r, n = evaluate(I, o, nm)
            lab = "%s.%s" % (cname, nm)
            f = spec[nm]
            i = fresh("i", int=True, lo=0, hi=n)
            x, z = fn("px", i), fn("pz", i)
            fx = list(facts) + [lt(num(0), x)] if f is not None else []
            if f is None:
                if r is NONE:
                    ck.passed(lab)
                elif isinstance(r, Unk):
                    ck.unknown(lab, repr(r))
                else:
                    ck.violated(lab, ck.where, "major radius of a Cartesian field is not None")
                return
            if r is NONE:
                ck.violated(lab, ck.where, "returns None")
                return
            want = f(x, z, Y)
            if isinstance(r, T):
                got = r
            else:
                a = I.arr(r)
                if isinstance(a, PW):
                    raise Unsupported("unknown shape")
                ck.shape(lab, a.shape, [n])
                got = a(i)
            ck.eq(lab, got, want, fx, **kw)
        ck.group("%s.%s" % (cname, nm), go)


ZEROF = lambda x, z, y: ZERO
ONEF = lambda x, z, y: ONE
XF = lambda x, z, y: x


def run(ck):
    ck.group("Slab", lambda: slab(ck, "Slab"))
    ck.group("CurvedSlab", lambda: slab(ck, "CurvedSlab"))
    ck.group("base", lambda: base(ck))
    for dflt in (False, True):
        ck.group("StraightStellarator", lambda: coils(ck, "StraightStellarator", dflt))
        ck.group("RotatingEllipse", lambda: coils(ck, "RotatingEllipse", dflt))
        ck.group("Screwpinch", lambda: screw(ck, dflt))
    shapes = [(2, 3), (3, 2), (1, 4)] if not ck.thorough else [(2, 3), (3, 2), (1, 5), (4, 4), (6, 2), (2, 6)]
    for m, l in shapes:
        ck.group("DommaschkPotentials", lambda: dommaschk(ck, m, l))
    ck.group("GEQDSK", lambda: geqdsk(ck))
    ck.group("VMEC tables", lambda: vmec(ck))
    ck.group("VMEC file", lambda: vmec_file(ck))
    for plasma in (False, True):
        ck.group("W7X_vacuum", lambda: w7x(ck, "W7X_vacuum", plasma))
    ck.group("W7X_VMEC", lambda: w7x(ck, "W7X_VMEC", False))
    ck.group("W7X_vacuum.field_values", lambda: w7x_values(ck))
    ck.group("W7X_VMEC.field_values", lambda: vmec_values(ck))
    for c in ("W7X_vacuum_on_demand", "FusionSCField"):
        def go():
            I = ck.interp()
            o = bare(I, ck.anchor(I, "zoidberg.field", c))
            o2 = I.new(ObjC(ck.anchor(I, "zoidberg.field", c), {}))
            compare(ck, I, c, o2, dict(Rfunc=XF), labels=("Rfunc",))
        ck.group(c, go)


def base(ck):
    I = ck.interp()
    o = I.call(ck.anchor(I, "zoidberg.field", "MagneticField"), [], {})
    compare(ck, I, "MagneticField", o, dict(Bxfunc=ZEROF, Byfunc=ONEF, Bzfunc=ZEROF, Rfunc=None))
    r, n = evaluate(I, o, "pressure")
    ck.eq("MagneticField.pressure", I.scalar(r) if isinstance(r, T) else None, ZERO)


def slab(ck, cname):
    for dflt in (False, True):
        I = ck.interp()
        cls = ck.anchor(I, "zoidberg.field", cname)
        names = ["By", "Bz", "xcentre", "Bzprime"] + (["Rmaj"] if cname == "CurvedSlab" else [])
        v = dict(By=ONE, Bz=div(ONE, num(10)), xcentre=ZERO, Bzprime=ONE, Rmaj=ONE) if dflt else {k: sym("arg_" + k) for k in names}
        o = I.call(cls, [] if dflt else [v[k] for k in names], {})
        compare(ck, I, cname, o, dict(
            Bxfunc=ZEROF, Byfunc=lambda x, z, y: v["By"],
            Bzfunc=lambda x, z, y: add(v["Bz"], mul(sub(x, v["xcentre"]), v["Bzprime"])),
            Rfunc=(lambda x, z, y: v["Rmaj"]) if cname == "CurvedSlab" else None))


def coils(ck, cname, dflt):
    I = ck.interp()
    cls = ck.anchor(I, "zoidberg.field", cname)
    names = ["xcentre", "zcentre", "radius", "yperiod", "I_coil"] + (["Btor"] if cname == "RotatingEllipse" else [])
    if dflt:
        v = dict(xcentre=ZERO, zcentre=ZERO, radius=div(num(4), num(5)), yperiod=PI, I_coil=div(ONE, num(20)), Btor=ONE)
    else:
        v = {k: sym("arg_" + k) for k in names}
    facts = [] if dflt else [b_not(eq(v["yperiod"], ZERO))]
    o = I.call(cls, [] if dflt else [v[k] for k in names], {})
    iota = div(mul(num(2), PI), v["yperiod"])

    def comp(which):
        def f(x, z, y):
            r = ZERO
            for k in range(4):
                ang = add(mul(div(num(k), num(2)), PI), mul(iota, y))
                dx = sub(x, add(v["xcentre"], mul(v["radius"], tm.cosv(ang))))
                dz = sub(z, add(v["zcentre"], mul(v["radius"], tm.sinv(ang))))
                cur = div(v["I_coil"], num(5))
                if k % 2:
                    cur = neg(cur)
                r = add(r, mul(cur, div(dz if which == "x" else neg(dx), add(mul(dx, dx), mul(dz, dz)))))
            return r
        return f

    ell = cname == "RotatingEllipse"
    compare(ck, I, cname, o, dict(
        Bxfunc=comp("x"), Bzfunc=comp("z"),
        Byfunc=(lambda x, z, y: div(v["Btor"], x)) if ell else ONEF,
        Rfunc=XF if ell else None), facts)


def screw(ck, dflt):
    I = ck.interp()
    cls = ck.anchor(I, "zoidberg.field", "Screwpinch")
    names = ["xcentre", "zcentre", "shear", "yperiod", "Btor"]
    v = dict(xcentre=div(num(3), num(2)), zcentre=ZERO, shear=ZERO, Btor=ONE) if dflt else {k: sym("arg_" + k) for k in names}
    o = I.call(cls, [] if dflt else [v[k] for k in names], {})

    def comp(which):
        def f(x, z, y):
            dx, dz = sub(x, v["xcentre"]), sub(z, v["zcentre"])
            r = tm.sqrt(add(mul(dx, dx), mul(dz, dz)))
            return mul(v["shear"], mul(r, neg(dz) if which == "x" else dx))
        return f

    compare(ck, I, "Screwpinch", o, dict(
        Bxfunc=comp("x"), Bzfunc=comp("z"), Byfunc=lambda x, z, y: div(v["Btor"], x), Rfunc=XF))


def dommaschk(ck, m, l):
    I = ck.interp()
    cls = ck.anchor(I, "zoidberg.field", "DommaschkPotentials")
    ref = ck.reference(I, "dommaschk", "field")
    a = {}
    for i in range(m):
        for j in range(l):
            for k in range(4):
                a[i, j, k] = sym("A_%d%d%d" % (i, j, k), lo=ONE) if j else ZERO
    ck.count("dommaschk_modes", m * (l - 1))
    def table(i, j, k):
        for (p, q, r), t in a.items():
            if numval(i) == p and numval(j) == q and numval(k) == r:
                return t
        raise Unsupported("symbolic mode number")
    A = I.new(Arr([num(m), num(l), num(4)], table))
    R0, B0 = sym("arg_R_0", lo=div(ONE, num(10))), sym("arg_B_0")
    o = I.call(cls, [A, R0, B0], {})
    modes = I.new(Lst([Tup([num(i), num(j)]) for i in range(m) for j in range(1, l)]))
    x, z = sym("qx", lo=div(ONE, num(10))), sym("qz")
    want = I.unpack_items(["a", "b", "c"], I.call(ref, [A, R0, B0, modes, x, z, Y], {}))
    lab = "DommaschkPotentials %dx%d" % (m, l)
    for nm, w in zip(("Bxfunc", "Byfunc", "Bzfunc"), want):
        def go():
            ck.where = ck.location("zoidberg.field", "DommaschkPotentials." + nm)
            r = I.call(I.getattr(o, nm), [x, z, Y], {})
            ck.eq("%s.%s" % (lab, nm), I.scalar(r), I.scalar(w), [lt(ZERO, R0), lt(ZERO, x)], tries=60)
        ck.group(lab, go)
    ck.where = ck.location("zoidberg.field", "DommaschkPotentials.Rfunc")
    ck.eq(lab + ".Rfunc", I.scalar(I.call(I.getattr(o, "Rfunc"), [x, z, Y], {})), x)


# ------------------------------------------------------------------ tables
def reorder(axes, table, coords, der=None):
    """Interpolation on a product of axes does not depend on their order."""
    order = sorted(range(len(axes)), key=lambda k: show(axes[k]))
    a = Arr([table.shape[k] for k in order], lambda *ix: table(*[ix[order.index(k)] for k in range(len(axes))]))
    args = [axes[k] for k in order] + [arr_term(a)]
    return args, order


def table_overrides(ck):
    """Interpolation as an uninterpreted function of axes, table and point."""

    def rgi(I, args, kw):
        pts = [I.arr(p) for p in I.const_items(args[0] if args else kw["points"])]
        vals = I.arr(args[1] if len(args) > 1 else kw["values"])
        if any(isinstance(p, PW) for p in pts) or isinstance(vals, PW):
            raise Unsupported("interpolator")
        key, order = reorder([arr_term(p) for p in pts], vals, None)

        def call(I2, a, k):
            c = a[0] if len(a) == 1 else Tup(a)
            c = I2.res(c)
            cs = I2.const_items(c)
            return I2.elementwise(lambda *t: tm.mk("fn", "linear_interpolation", *key, *[t[q] for q in order]), cs)

        return Prim("interpolator", call)

    def rbs(I, args, kw):
        x, y = I.arr(args[0]), I.arr(args[1])
        t = I.arr(args[2])
        key, order = reorder([arr_term(x), arr_term(y)], t, None)

        def call(I2, a, k):
            g = I2.res(k.get("grid", TRUE))
            if g is not FALSE:
                raise Unsupported("evaluated on a grid")
            d = [I2.scalar(k.get("dx", ZERO)), I2.scalar(k.get("dy", ZERO))]
            return I2.elementwise(
                lambda *p: tm.mk("fn", "spline2", *key, *[d[q] for q in order], *[p[q] for q in order]), a[:2])

        def ev(I2, a, k):
            return call(I2, a, dict(k, grid=FALSE))

        return Abs("spline2", {"__call__": Prim("spline2", call), "ev": Prim("ev", ev), "$isnone": FALSE})

    def ius(I, args, kw):
        x, y = I.arr(args[0]), I.arr(args[1])
        key = [arr_term(x), arr_term(y), I.scalar(kw.get("ext", ZERO))]
        return Prim("spline1", lambda I2, a, k: I2.elementwise(lambda t: tm.mk("fn", "spline1", *key, t), a[:1]))

    def poly(I, args, kw):
        k1, k2 = arr_term(I.arr(args[0])), arr_term(I.arr(args[1]))

        def outside(I2, a, k):
            return I2.elementwise(lambda x, z: bfn("outside", k1, k2, x, z), [a[0], a[2]])

        return Abs("polygon", {"outside": Prim("outside", outside), "key": (k1, k2), "$isnone": FALSE})

    def gridd(I, args, kw):
        p, v = I.arr(args[0]), I.arr(args[1])
        q = I.const_items(args[2] if len(args) > 2 else kw["xi"])
        key = [arr_term(Arr([p.shape[0]], lambda i: p(i, ZERO))), arr_term(Arr([p.shape[0]], lambda i: p(i, ONE))), arr_term(v)]
        return I.elementwise(lambda a, b: tm.mk("fn", "griddata", *key, a, b), q)

    return {
        "scipy.interpolate.RegularGridInterpolator": Prim("rgi", rgi),
        "scipy.interpolate.RectBivariateSpline": Prim("rbs", rbs),
        "scipy.interpolate.InterpolatedUnivariateSpline": Prim("ius", ius),
        "scipy.interpolate.griddata": Prim("griddata", gridd),
        "zoidberg.boundary.PolygonBoundaryXZ": Prim("polygon", poly),
    }


def geqdsk(ck):
    nr, nz = sym("nr", int=True, lo=2), sym("nzf", int=True, lo=2)
    vals = {}

    def read(I, args, kw):
        d = {}
        for k in ("rleft", "rdim", "zmid", "zdim", "simagx", "sibdry"):
            d[k] = sym("g_" + k)
        d["psi"] = Arr([nz, nr], lambda i, j: fn("g_psi", i, j))
        for k in ("fpol", "pres"):
            d[k] = Arr([nr], (lambda k: lambda i: fn("g_" + k, i))(k))
        for k, n in (("rbdry", "nb"), ("zbdry", "nb"), ("rlim", "nl"), ("zlim", "nl")):
            d[k] = Arr([sym(n, int=True, lo=1)], (lambda k: lambda i: fn("g_" + k, i))(k))
        vals.update(d)
        d = {k: (I.new(v) if isinstance(v, Arr) else v) for k, v in d.items()}
        return Abs("geqdsk", {"__getitem__": Prim("get", lambda I2, a, k: d[I2.res(a[-1])]), "$isnone": FALSE})

    ov = table_overrides(ck)
    ov["freeqdsk.geqdsk.read"] = Prim("read", read)
    ov["builtins.open"] = Prim("open", lambda I, a, k: Abs("file", {}))
    I = ck.interp(ov)
    cls = ck.anchor(I, "zoidberg.field", "GEQDSK")
    o = I.call(cls, [sym("gfile")], {})
    g = lambda k: sym("g_" + k)
    rmin, rmax = g("rleft"), add(g("rleft"), g("rdim"))
    zmin, zmax = sub(g("zmid"), div(g("zdim"), num(2))), add(g("zmid"), div(g("zdim"), num(2)))
    lin = lambda a, b, n: Arr([n], lambda i: add(a, mul(i, div(sub(b, a), sub(n, ONE)))))
    r1, z1 = lin(rmin, rmax, nr), lin(zmin, zmax, nz)
    rt, zt = arr_term(r1), arr_term(z1)
    psi = Arr([nr, nz], lambda i, j: fn("g_psi", j, i))
    key, order = reorder([rt, zt], psi, None)
    pol = [arr_term(vals[k]) for k in ("rbdry", "zbdry")]
    pn = Arr([nr, nz], lambda i, j: ite(bfn("outside", pol[0], pol[1], r1(i), z1(j)), ONE,
                                       div(sub(psi(i, j), g("simagx")), sub(g("sibdry"), g("simagx")))))
    nkey, _ = reorder([rt, zt], pn, None)

    def spl(key, x, z, dx, dz):
        p, d = [x, z], [num(dx), num(dz)]
        return tm.mk("fn", "spline2", *key, *[d[q] for q in order], *[p[q] for q in order])

    unit = arr_term(lin(ZERO, ONE, nr))

    def prof(k, x, z):
        return tm.mk("fn", "spline1", unit, arr_term(vals[k]), num(3), spl(nkey, x, z, 0, 0))

    facts = [b_not(eq(g("simagx"), g("sibdry")))]
    compare(ck, I, "GEQDSK", o, dict(
        Bxfunc=lambda x, z, y: neg(div(spl(key, x, z, 0, 1), x)),
        Bzfunc=lambda x, z, y: div(spl(key, x, z, 1, 0), x),
        Byfunc=lambda x, z, y: div(prof("fpol", x, z), x),
        Rfunc=XF, pressure=lambda x, z, y: prof("pres", x, z)), facts,
        labels=("Bxfunc", "Byfunc", "Bzfunc", "Rfunc", "pressure"))

    def attrs():
        ck.where = ck.location("zoidberg.field", "GEQDSK.__init__")
        at = I.getattr(o, "attributes")
        f = I.getitem(at, "psi")
        x, z = sym("qx"), sym("qz")
        ck.eq("GEQDSK attribute psi", I.scalar(I.call(f, [x, z, Y], {})), spl(key, x, z, 0, 0))
        b = I.res(I.getattr(o, "boundary"))
        from zsa.std import fold

        def bkey(v):
            if isinstance(v, Abs) and v.name == "polygon":
                return tm.mk("fn", "polygon_of", *v.attrs["key"])
            return sym("no_boundary")

        ck.eq("GEQDSK boundary", fold(I, b, bkey), tm.mk("fn", "polygon_of", arr_term(vals["rlim"]), arr_term(vals["zlim"])))

    ck.group("GEQDSK attributes", attrs)


def interp3(axes, table, x, z, phi):
    """axes given for (r, z, phi); the table too."""
    key, order = reorder([arr_term(a) for a in axes], table, None)
    p = [x, z, phi]
    return tm.mk("fn", "linear_interpolation", *key, *[p[q] for q in order])


def vmec(ck):
    ns, nt, nze = [sym(k, int=True, lo=2) for k in ("ns", "nt", "nzeta")]
    tabs = {k: Arr([ns, nt, nze], (lambda k: lambda s, t, zz: fn("v_" + k, s, t, zz))(k)) for k in ("r_stz", "z_stz", "br", "bphi", "bz")}
    zeta = Arr([nze], lambda i: fn("v_zeta", i))

    def read(I, args, kw):
        o = args[0]
        for k, a in tabs.items():
            I.setattr(o, k, I.new(a))
        I.setattr(o, "zeta", I.new(zeta))
        I.setattr(o, "nzeta", nze)
        return NONE

    ov = table_overrides(ck)
    ov["zoidberg.field.VMEC.read_vmec_file"] = Prim("read", read)
    I = ck.interp(ov)
    cls = ck.anchor(I, "zoidberg.field", "VMEC")
    nr, nz = sym("arg_nr", int=True, lo=2), sym("arg_nz", int=True, lo=2)
    o = I.call(cls, [sym("file")], dict(nr=nr, nz=nz))
    ref = ck.reference(I, "tables", "vmec")
    args = [I.new(tabs[k]) for k in ("r_stz", "z_stz", "br", "bphi", "bz")] + [I.new(zeta), nr, nz]
    fs = I.unpack_items(["a", "b", "c"], I.call(ref, args, {}))
    w = dict(zip(("Bxfunc", "Byfunc", "Bzfunc"), fs))
    spec = {k: (lambda f: lambda x, z, y: I.scalar(I.call(f, [x, z, mod(y, TWOPI)], {})))(f) for k, f in w.items()}
    spec["Rfunc"] = XF
    compare(ck, I, "VMEC", o, spec, tries=40)


def vmec_file(ck):
    ns, nmn = sym("ns", int=True, lo=2), sym("nmn", int=True, lo=1)
    data = {"ns": ns, "iasym": ZERO, "mpol": sym("mpol", int=True, lo=2), "ntor": sym("ntor", int=True, lo=2)}
    for k in ("rmnc", "zmns", "bsupumnc", "bsupvmnc"):
        data[k] = Arr([ns, nmn], (lambda k: lambda s, q: fn("v_" + k, s, q))(k))
    for k in ("xm", "xn"):
        data[k] = Arr([nmn], (lambda k: lambda q: fn("v_" + k, q))(k))

    def datafile(I, args, kw):
        get = Prim("get", lambda I2, a, k: (lambda d: I2.new(d) if isinstance(d, Arr) else d)(data[I2.res(a[-1])]))
        ob = Abs("datafile", {"__getitem__": get})
        ob.attrs["__enter__"] = Prim("enter", lambda I2, a, k: ob)
        ob.attrs["__exit__"] = Prim("exit", lambda I2, a, k: FALSE)
        return ob

    # values on full surfaces are averaged from half surfaces; not specified here
    def avg(I, args, kw):
        return args[-1]

    ov = {"boututils.datafile.DataFile": Prim("DataFile", datafile)}
    for k in ("zoidberg.field.VMEC.__rolling_average", "zoidberg.field.VMEC._VMEC__rolling_average"):
        ov[k] = Prim("average", avg)
    I = ck.interp(ov)
    cls = ck.anchor(I, "zoidberg.field", "VMEC")
    o = I.new(ObjC(cls, {}))
    ck.where = ck.location("zoidberg.field", "VMEC.read_vmec_file")
    nt, nze = sym("arg_ntheta", int=True, lo=2), sym("arg_nzeta", int=True, lo=2)
    I.call(I.getattr(o, "read_vmec_file"), [sym("file"), nt, nze], {})
    d = lambda k: (lambda s, q: fn("v_" + k, s, q))
    xm, xn = (lambda q: fn("v_xm", q)), (lambda q: fn("v_xn", q))

    def series(f, trig):
        def g(s, t, zz):
            q = fresh("q", int=True, lo=0, hi=nmn)
            th = mul(t, div(TWOPI, sub(nt, ONE)))
            ze = mul(zz, div(TWOPI, sub(nze, ONE)))
            a, b = mul(xm(q), th), mul(xn(q), ze)
            ca, sa, cb, sb = tm.cosv(a), tm.sinv(a), tm.cosv(b), tm.sinv(b)
            w = sub(mul(ca, cb), mul(sa, sb)) if trig == "c" else add(mul(sa, cb), mul(ca, sb))
            return mk_sum(q, ZERO, nmn, mul(f(s, q), w))
        return g

    R = series(d("rmnc"), "c")
    Zs = series(d("zmns"), "s")
    Ru = series(lambda s, q: neg(mul(xm(q), d("rmnc")(s, q))), "s")
    Rv = series(lambda s, q: neg(mul(xn(q), d("rmnc")(s, q))), "s")
    Zu = series(lambda s, q: mul(xm(q), d("zmns")(s, q)), "c")
    Zv = series(lambda s, q: mul(xn(q), d("zmns")(s, q)), "c")
    bu, bv = series(d("bsupumnc"), "c"), series(d("bsupvmnc"), "c")
    want = dict(
        r_stz=R, z_stz=Zs,
        br=lambda *i: add(mul(bu(*i), Ru(*i)), mul(bv(*i), Rv(*i))),
        bz=lambda *i: add(mul(bu(*i), Zu(*i)), mul(bv(*i), Zv(*i))),
        bphi=lambda *i: mul(R(*i), bv(*i)),
    )
    for k, f in want.items():
        ck.array("VMEC.read_vmec_file " + k, I, I.getattr(o, k), [ns, nt, nze], f, tries=40)


def lin(a, b, n):
    return Arr([n], lambda i: add(a, mul(i, div(sub(b, a), sub(n, ONE)))))


def w7x(ck, cname, plasma):
    def values(tag):
        def f(I, args, kw):
            a = [x for x in args if isinstance(I.res(x), Ref)]
            r, p, z = [I.arr(x) for x in a[-3:]] if len(a) >= 3 else [I.arr(args[k]) for k in range(3)]
            return Tup([I.new(Arr(r.shape, (lambda nm: lambda *ix: fn(nm, r(*ix), p(*ix), z(*ix)))(tag + c))) for c in ("r", "phi", "z")])
        return Prim(tag, f)

    ov = table_overrides(ck)
    ov["zoidberg.field.%s.field_values" % cname] = values("vac_")
    ov["zoidberg.field.W7X_vacuum.plasma_field"] = values("plasma_")
    I = ck.interp(ov)
    cls = ck.anchor(I, "zoidberg.field", cname)
    nx, ny, nz = [sym("arg_" + k, int=True, lo=2) for k in ("nx", "ny", "nz")]
    x0, x1, z0, z1 = [sym("arg_" + k) for k in ("x0", "x1", "z0", "z1")]
    kw = dict(nx=nx, ny=ny, nz=nz, x_range=Tup([x0, x1]), z_range=Tup([z0, z1]))
    if cname == "W7X_vacuum":
        kw["include_plasma_field"] = TRUE if plasma else FALSE
    o = I.call(cls, [], kw)
    ax = [lin(x0, x1, nx), lin(z0, z1, nz), lin(ZERO, TWOPI, ny)]

    def comp(c):
        def val(i, j, k):
            a = (ax[0](i), ax[2](k), ax[1](j))
            v = fn("vac_" + c, *a)
            return add(v, fn("plasma_" + c, *a)) if plasma else v
        t = Arr([nx, nz, ny], val)
        return lambda x, z, y: interp3(ax, t, x, z, mod(y, TWOPI))

    compare(ck, I, cname, o, dict(Bxfunc=comp("r"), Byfunc=comp("phi"), Bzfunc=comp("z"), Rfunc=XF), tries=40)


def positions(I):
    n = [sym("n%d" % k, int=True, lo=1) for k in range(3)]
    return n, [I.new(Arr(n, (lambda nm: lambda *ix: fn(nm, *ix))(nm))) for nm in ("pr", "pphi", "pz")]


def cyl(cart):
    def w(c, *ix):
        r, p, z = [fn(nm, *ix) for nm in ("pr", "pphi", "pz")]
        x, y = mul(r, tm.cosv(p)), mul(r, tm.sinv(p))
        b = [fn("Bcart", num(k), x, y, z) for k in range(3)]
        if c == 0:
            return add(mul(b[0], tm.cosv(p)), mul(b[1], tm.sinv(p)))
        if c == 1:
            return sub(mul(b[1], tm.cosv(p)), mul(b[0], tm.sinv(p)))
        return b[2]
    return w


def w7x_values(ck):
    def chunk(I, args, kw):
        a = I.arr(args[-2])
        return I.new(Arr(a.shape, lambda c, *ix: fn("Bcart", c, a(ZERO, *ix), a(ONE, *ix), a(num(2), *ix))))

    ov = {"zoidberg.field.W7X_vacuum._calc_chunk": Prim("chunk", chunk), "os.path.isfile": Prim("isfile", lambda I, a, k: FALSE)}
    I = ck.interp(ov)
    cls = ck.anchor(I, "zoidberg.field", "W7X_vacuum")
    n, p = positions(I)
    ck.where = ck.location("zoidberg.field", "W7X_vacuum.field_values")
    r = I.unpack_items(["a", "b", "c"], I.call(I.getattr(cls, "field_values"), p, {}))
    w = cyl(None)
    for c, nm in enumerate(("Br", "Bphi", "Bz")):
        ck.array("W7X_vacuum.field_values " + nm, I, r[c], n, lambda *ix: w(c, *ix))


def vmec_values(ck):
    """The web service is a field at Cartesian points, elementwise."""
    def client(I, args, kw):
        box = I.new(ObjC(ClassV("Points3D", [], {}, None), {})) if False else None
        return None

    pts = {}

    def points(I, args, kw):
        return I.new(ObjC(pts["cls"], {}))

    def field(I, args, kw):
        pos = args[-1]
        x = [I.arr(I.getattr(pos, k)) for k in ("x1", "x2", "x3")]
        out = {}
        for c in range(3):
            out["x%d" % (c + 1)] = I.new(Arr(x[0].shape, (lambda c: lambda i: fn("Bcart", num(c), x[0](i), x[1](i), x[2](i)))(c)))
        return Abs("res", {"field": Abs("field", out)})

    cl = Abs("client", {"types": Abs("types", {"Points3D": Prim("Points3D", points)}),
                        "service": Abs("service", {"magneticField": Prim("magneticField", field)}), "$isnone": FALSE})
    I = ck.interp({"osa.Client": Prim("Client", lambda I2, a, k: cl)})
    cls = ck.anchor(I, "zoidberg.field", "W7X_VMEC")
    pts["cls"] = ck.reference(I, "tables", "Box")
    n, p = positions(I)
    ck.where = ck.location("zoidberg.field", "W7X_VMEC.field_values")
    o = I.new(ObjC(cls, {}))
    r = I.unpack_items(["a", "b", "c"], I.call(I.getattr(o, "field_values"), p, {}))
    w = cyl(None)
    for c, nm in enumerate(("Br", "Bphi", "Bz")):
        ck.array("W7X_VMEC.field_values " + nm, I, r[c], n, lambda *ix: w(c, *ix))
