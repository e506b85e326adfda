"""C16: what reaches the grid file."""
from zsa.terms import *
from zsa import terms as tm
from zsa.values import *
from zsa.std import *
from zsa.interp import PyRaise
from props.ncfile import File

MOD = "zoidberg.zoidberg"
NAN, INF = tm.mk("sym", "nan"), tm.mk("sym", "inf")
DY = sym("dy", lo=ONE)
EXPLANATION = (
    "MapWriter and write_maps are analysed with a file whose operations are recorded in order, a grid of abstract planes, an "
    "uninterpreted field and an uninterpreted metric. Every written variable is compared element by element with the "
    "specified one under its own name; for every array passed in, each with a NaN, an infinity or a negative infinity in "
    "its first or last element, the analysis must end in an error before that array is written, and the file must be "
    "closed by the context. Writers which were never opened, failed to open or were closed must refuse to write. Sizes "
    "are symbolic except in the non-finite cases and in y."
)
COMPONENTS = ("gxx", "gyy", "gzz", "gxz", "g_xx", "g_yy", "g_zz", "g_xz", "dx", "dy", "dz", "Bxy", "J")
OLD = {"g_yy": "g_22", "gyy": "g22", "gxx": "g11", "gxz": "g13", "gzz": "g33", "g_xx": "g_11", "g_xz": "g_13", "g_zz": "g_33"}


def run(ck):
    for args in ({}, {"metric2d": TRUE}, {"always3d": FALSE}, {"metric2d": TRUE, "always3d": FALSE}):
        ck.group("write_dict", lambda: written(ck, args))
        for bad in range(3):
            for what, v in (("nan", NAN), ("inf", INF), ("-inf", neg(INF))):
                for last in (False, True):
                    ck.group("write_dict", lambda: nonfinite(ck, args, bad, what, v, last))
    for how in ("never opened", "closed", "closed by an error", "not opened"):
        ck.group("refused", lambda: refused(ck, how))
    for err in (False, True):
        ck.group("context", lambda: context(ck, err))
    ck.group("add_grid", lambda: coordinates(ck))
    for per in (True, False):
        for new in (False, True):
            for ny, myg in ((3, 1), (4, 2), (1, 1), (5, 1)):
                for ly in (False, True):
                    ck.group("add_maps", lambda: everything(ck, ny, myg, per, new, ly))
    for new in (False, True):
        ck.group("write_maps", lambda: everything(ck, 3, 1, True, new, False, whole=True))
    for bad in ("R", "MYG", "xt_prime"):
        ck.group("write_maps", lambda: broken(ck, bad))
    ck.group("identifiers", lambda: identifiers(ck))
    for old in ((), ("id",), ("id", "old_id"), ("id", "old_id", "old0_id", "title"), ("grid_id", "software_name", "other")):
        ck.group("update", lambda: update(ck, old))


class World:
    pass


def world(ck, contents=None, fail_open=False, real_metric=False):
    w = World()
    w.file = File({}, contents)
    w.ids = []
    w.opened = []
    w.grids = []

    def datafile(I, args, kw):
        a = dict(zip(("filename", "write", "create", "format"), args), **kw)
        if fail_open:
            raise PyRaise("OSError: injected")
        w.opened.append(a)
        w.file.open = True
        return w.file.datafile()

    def new_id(I, args, kw):
        w.ids.append("id-%d-%d" % (id(w) % 9973, len(w.ids)))
        return w.ids[-1]

    bad = lambda t: t.op == "sym" and t in (NAN, INF) or t is neg(INF)

    def finite(t, kinds):
        if t.op == "ite":
            return ite(t.args[0], finite(t.args[1], kinds), finite(t.args[2], kinds))
        return TRUE if any(t is k for k in kinds) else FALSE

    # every value is finite, except the marked ones
    E = lambda kinds, inv: Prim("isfinite", lambda I, a, k: I.elementwise(lambda t: b_not(finite(t, kinds)) if inv else finite(t, kinds), [a[0]], "bool"))

    def close(I, args, kw):
        a, b = [I.scalar(x) for x in args[:2]]
        if ck.proves(a, b):
            return TRUE
        d = sub(a, b)
        if d.op == "num" or all(x is DY for m, c in tm.to_poly(d).items() for x, e in m):
            return FALSE  # different for some, and with one unknown for all spacings
        return opaque("isclose", isb=True)

    def metric(I, args, kw):
        a = dict(zip(("grid", "magnetic_field"), args), **kw)
        g = I.res(a["grid"])
        if g is w.field:
            raise PyRaise("AttributeError: shape")
        if not isinstance(g, Abs) or I.res(a["magnetic_field"]) is not w.field:
            raise Unsupported("metric of something else")
        g = g.attrs["$tag"]
        sh = w.shape
        m = {c: I.new(Arr(sh, lambda i, j, k, c=c: fn("metric_" + c, g, i, j, k))) for c in COMPONENTS}
        return Tup([I.new(Dct(m)), I.new(Arr(sh, lambda i, j, k: fn("metric_BJg", g, i, j, k)))])

    def pgrid(I, args, kw):
        a = dict(zip(("R", "Z"), args), **kw)
        return Abs("parplane", {"R": a["R"], "Z": a["Z"]}, key=(I.arr(a["R"]), I.arr(a["Z"])))

    def mkgrid(I, args, kw):
        a = dict(zip(("poloidal_grids", "ycoords", "Ly", "yperiodic"), args), **kw)
        n = len(w.grids)
        w.grids.append(dict(planes=[I.res(p) for p in I.const_items(a["poloidal_grids"])], y=I.arr(a["ycoords"]),
                            Ly=I.scalar(a["Ly"]), per=I.truth(a.get("yperiodic", FALSE))))
        return Abs("pargrid", {"$tag": num(100 + n)})

    ov = {"uuid.uuid1": Prim("uuid", new_id), "uuid.uuid4": Prim("uuid", new_id), "boutdata.data.DataFile": None,
          "numpy.isfinite": E((NAN, INF, neg(INF)), True), "numpy.isnan": E((NAN,), False), "numpy.isinf": E((INF, neg(INF)), False), "numpy.isclose": Prim("isclose", close), "math.isfinite": E((NAN, INF, neg(INF)), True)}
    del ov["boutdata.data.DataFile"]
    I = w.I = ck.interp(ov)
    bd = Abs("bdata", {"DataFile": Prim("DataFile", datafile)})
    for n in ("bdata", "DataFile"):
        I.overrides[MOD + "." + n] = bd if n == "bdata" else Prim("DataFile", datafile)
    if not real_metric:
        I.overrides[MOD + ".get_metric"] = Prim("get_metric", metric)
        I.overrides[MOD + ".StructuredPoloidalGrid"] = Prim("StructuredPoloidalGrid", pgrid)
        I.overrides[MOD + ".Grid"] = Prim("Grid", mkgrid)
    w.cls = ck.anchor(I, MOD, "MapWriter")
    w.file.base = tuple(I.S.pc)
    return w


def start(ck, w, opened=True, **kw):
    kw.setdefault("quiet", TRUE)
    w.mw = w.I.call(w.cls, ["out.nc"], kw)
    if opened:
        w.I.call(w.I.getattr(w.mw, "__enter__"), [], {})
        if not w.opened:
            raise Unsupported("file is not opened through DataFile")
    return w.mw


def meth(w, name, *args, **kw):
    r = w.I.call(w.I.getattr(w.mw, name), list(args), kw)
    quiet(w)
    return r


def quiet(w):
    if w.I.raises:
        raise Unsupported("error under a condition: %s" % ((show(w.I.raises[0][0]),) + tuple(w.I.raises[0][1:]),))


def writes(w):
    return [e.split(" ", 1)[1] for e, s in w.file.events if e.startswith("write ")]


def split(args):
    a = dict(args)
    al = {"always3d": a.pop("always3d")} if "always3d" in a else {}
    return a, al


def written(ck, args):
    """Every entry under its own name."""
    ck.where = ck.location(MOD, "MapWriter.write_dict")
    a, al = split(args)
    w = world(ck)
    start(ck, w, **a)
    nx, ny, nz = [sym(n, int=True, lo=2) for n in ("nx", "ny", "nz")]
    d = {n: w.I.new(Arr([nx, ny, nz], lambda i, j, k, n=n: fn("value_" + n, i, j, k))) for n in ("first", "dz", "last")}
    d["scalar"] = sym("scalar")
    d["text"] = "text"
    d["const"] = num(3)
    meth(w, "write_dict", w.I.new(Dct(d)), **al)
    lab = "write_dict(%s): " % ", ".join("%s=%s" % (k, v is TRUE) for k, v in args.items())
    flat = bool(a) and bool(al)
    if set(w.file.vars) != set(d):
        return ck.violated(lab + "names", ck.where, "found %s" % sorted(w.file.vars))
    for n in ("first", "dz", "last"):
        v = w.file.vars[n]
        if flat and n == "dz":
            ck.eq(lab + n, v if isinstance(v, T) else v(), fn("value_dz", ZERO, ZERO, ZERO))
            continue
        sh = [nx, ny] if flat else [nx, ny, nz]
        if not isinstance(v, Arr):
            raise Unsupported("what is written as " + n)
        if ck.shape(lab + n, v.shape, sh) is False:
            continue
        ix = [fresh("i", int=True, lo=0, hi=s) for s in sh]
        ck.eq(lab + n, v(*ix), fn("value_" + n, *ix, *([ZERO] if flat else [])))
    ck.eq(lab + "scalar", w.file.vars["scalar"], sym("scalar"))
    ck.eq(lab + "const", w.file.vars["const"], num(3))


def nonfinite(ck, args, bad, what, v, last):
    ck.where = ck.location(MOD, "MapWriter.write_dict")
    a, al = split(args)
    w = world(ck)
    start(ck, w, **a)
    flat = bool(a) and bool(al)
    names = ("first", "second", "third")
    sh = (2, 2, 2)
    at = (1, 1, 0 if flat else 1) if last else (0, 0, 0)

    def entry(n, isbad):
        def f(i, j, k):
            c = b_and(*[eq(x, num(q)) for x, q in zip((i, j, k), at)])
            return ite(c, v, fn("value_" + n, i, j, k)) if isbad else fn("value_" + n, i, j, k)

        return w.I.new(Arr([num(s) for s in sh], f))

    d = {n: entry(n, k == bad) for k, n in enumerate(names)}
    lab = "write_dict(%s) with %s in the %s element of entry %d" % (", ".join(args), what, "last" if last else "first", bad)
    try:
        w.I.call(w.I.getattr(w.mw, "write_dict"), [w.I.new(Dct(d))], al)
    except PyRaise as e:
        if names[bad] in writes(w):
            return ck.violated(lab, ck.where, "the array is written before it is refused")
        return ck.passed(lab)
    quiet(w)
    if names[bad] not in writes(w):
        return ck.violated(lab, ck.where, "the array is left out without an error")
    ck.violated(lab, ck.where, "the array is written")


def refused(ck, how):
    ck.where = ck.location(MOD, "MapWriter")
    w = world(ck, fail_open=how == "not opened")
    start(ck, w, opened=False)
    if how == "not opened":
        try:
            w.I.call(w.I.getattr(w.mw, "open"), [], {})
            return ck.violated(how, ck.where, "an error on opening the file is not reported")
        except PyRaise:
            pass
    elif how != "never opened":
        meth(w, "open")
        x = [NONE] * 3 if how == "closed" else [Unk("error")] * 3
        meth(w, "__exit__", *x)
    n = len(w.file.events)
    d = w.I.new(Dct({"a": w.I.new(Arr([num(2)] * 3, lambda *ix: fn("value_a", *ix)))}))
    try:
        w.I.call(w.I.getattr(w.mw, "write_dict"), [d], {})
    except PyRaise as e:
        if len(w.file.events) > n:
            return ck.violated(how, ck.where, "something is written")
        if e.name.startswith("AttributeError"):
            return ck.violated(how, ck.where, "not refused: %s" % e.name)
        return ck.passed("writing to a writer which is %s" % how)
    quiet(w)
    ck.violated("writing to a writer which is %s" % how, ck.where, "is not refused")


def context(ck, err):
    ck.where = ck.location(MOD, "MapWriter.__exit__")
    w = world(ck)
    start(ck, w)
    lab = "context left %s" % ("by an error" if err else "normally")
    r = w.I.res(meth(w, "__exit__", *([Unk("error")] * 3 if err else [NONE] * 3)))
    if w.file.open:
        ck.violated(lab, ck.where, "the file is not closed")
    else:
        ck.passed(lab)
    if r is NONE or isinstance(r, T):
        ck.eq(lab + ": error is not hidden", FALSE if r is NONE else w.I.truth(r), FALSE)


# ------------------------------------------------------------- grid and maps
def scene(ck, w, ny, per, nx=None, nz=None):
    nx = nx if nx is not None else sym("nx", int=True, lo=5)
    nz = nz if nz is not None else sym("nz", int=True, lo=2)
    w.shape = [nx, num(ny), nz]

    def pol(j):
        at = {"nx": nx, "nz": nz}
        for q in "RZ":
            at[q] = lambda I, v, q=q: I.new(Arr([nx, nz], lambda i, k: fn("pol" + q, num(j), i, k)))
        return Abs("plane", at, key=(num(j),))

    def get(I, args, kw):
        j = numval(I.scalar(args[0] if args else kw["yindex"]))
        if j is None:
            raise Unsupported("plane number")
        return Tup([pol(int(j)), mul(num(j), DY)])

    w.grid = Abs("grid", {
        "shape": Tup(w.shape), "Ly": mul(num(ny), DY), "yperiodic": TRUE if per else FALSE, "$tag": ZERO,
        "ycoords": lambda I, v: I.new(Arr([num(ny)], lambda j: mul(j, DY))), "getPoloidalGrid": Prim("getPoloidalGrid", get),
        "numberOfPoloidalGrids": Prim("n", lambda I, a, k: num(ny)), "poloidal_grids": lambda I, v: I.new(Lst([pol(j) for j in range(ny)])),
        "__bool__": Prim("bool", lambda I, a, k: TRUE), "$isnone": FALSE, "__setattr__": lambda I, v, n, x: None, "_metric_cache": NONE})

    def attr(n):
        return Prim(n, lambda I, a, k: I.elementwise(lambda r, z, y: fn("attribute_" + n, r, z, y), [dict(zip("xzy", a))[q] for q in "xzy"]))

    w.attributes = ("psi", "pressure", "n0")
    w.field = Abs("field", {"attributes": lambda I, v: I.new(Dct({n: attr(n) for n in w.attributes})), "__bool__": Prim("bool", lambda I, a, k: TRUE), "$isnone": FALSE,
                            "$isinstance": lambda I, c: FALSE})
    return nx, nz


def same_array(ck, w, lab, name, f):
    v = w.file.vars.get(name)
    if v is None:
        return ck.violated(lab + name, ck.where, "is not written")
    if not isinstance(v, Arr):
        raise Unsupported("what is written as " + name)
    if ck.shape(lab + name, v.shape, w.shape) is False:
        return
    i, k = fresh("i", int=True, lo=0, hi=w.shape[0]), fresh("k", int=True, lo=0, hi=w.shape[2])
    for j in range(int(numval(w.shape[1]))):
        ck.eq(lab + "%s in plane %d" % (name, j), v(i, num(j), k), f(i, num(j), k))


def coordinates(ck):
    ck.where = ck.location(MOD, "MapWriter.add_grid")
    for ny in (1, 3):
        w = world(ck)
        scene(ck, w, ny, True)
        start(ck, w)
        meth(w, "add_grid", w.grid)
        for q in "RZ":
            same_array(ck, w, "add_grid, %d planes: " % ny, q, lambda i, j, k, q=q: fn("pol" + q, j, i, k))


def offsets(myg):
    return list(range(1, myg + 1)) + list(range(-1, -myg - 1, -1))


def parname(n, off):
    return ("forward_" if off > 0 else "backward_") + n + ("_%d" % abs(off) if abs(off) > 1 else "")


def themaps(w, myg, ly):
    names = ["R", "Z"] + [parname(n, o) for o in offsets(myg) for n in ("R", "Z", "xt_prime", "zt_prime")] + (["Ly", "Ly_cell_ylow", "Ly_cell_yhigh"] if ly else [])
    d = {n: w.I.new(Arr(w.shape, lambda i, j, k, n=n: fn("map_" + n, i, j, k))) for n in names}
    d["MXG"] = num(1)
    d["MYG"] = num(myg)
    return names, d


def everything(ck, ny, myg, per, new, ly, whole=False):
    ck.where = ck.location(MOD, "MapWriter.add_maps")
    w = world(ck)
    scene(ck, w, ny, per)
    names, d = themaps(w, myg, ly)
    lab = "%d planes, MYG %d%s%s%s: " % (ny, myg, "" if per else ", open", ", new names" if new else "", ", lengths" if ly else "")
    T_ = lambda b: TRUE if b else FALSE
    if whole:
        ck.where = ck.location(MOD, "write_maps")
        lab = "write_maps, " + lab
        f = ck.anchor(w.I, MOD, "write_maps")
        w.I.call(f, [w.grid, w.field, w.I.new(Dct(d)), "out.nc"], {"new_names": T_(new), "metric2d": FALSE, "quiet": TRUE})
        quiet(w)
        if not w.opened:
            raise Unsupported("file is not opened through DataFile")
        if w.file.open:
            ck.violated(lab + "closed", ck.where, "the file is left open")
    else:
        start(ck, w, new_names=T_(new))
        meth(w, "add_grid_field", w.grid, w.field)
        meth(w, "add_maps", w.I.new(Dct(d)))
    A = lambda n, f: same_array(ck, w, lab, n, f)
    for n in names:
        if n in ("R", "Z") or not n.startswith(("forward_g", "backward_g")):
            A(n, lambda i, j, k, n=n: fn("map_" + n, i, j, k))
    A("Rxy", lambda i, j, k: fn("map_R", i, j, k))
    for n in ("ixseps1", "ixseps2"):
        v = w.file.vars.get(n)
        if isinstance(v, T):
            ck.holds(lab + n + " beyond the grid", le(w.shape[0], v))
        else:
            ck.violated(lab + n, ck.where, "is not written")
    # sizes
    for n, s in zip(("nx", "ny", "nz"), w.shape):
        v = w.file.vars.get(n)
        if not isinstance(v, T):
            ck.violated(lab + n, ck.where, "is not written")
        else:
            ck.eq(lab + n, v, s)
    # metric
    post = ("_cell_ylow", "_cell_yhigh")
    nm = (lambda n: n) if new else (lambda n: OLD.get(n, n))
    gm = lambda c, i, j, k: fn("metric_" + c, ZERO, i, j, k)
    for c in COMPONENTS:
        if c == "g_yy" and ly:
            continue
        A(nm(c), lambda i, j, k, c=c: gm(c, i, j, k))
    if ly:
        sq = lambda n: lambda i, j, k: (lambda q: mul(q, q))(div(fn("map_Ly" + n, i, j, k), gm("dy", i, j, k)))
        A(nm("g_yy"), sq(""))
        for p in post:
            A(nm("g_yy") + p, sq(p))
        A("g_yy_correct", sq(""))
        A("g_yy_old", lambda i, j, k: gm("g_yy", i, j, k))
    else:
        for p in post:
            A(nm("g_yy") + p, lambda i, j, k: gm("g_yy", i, j, k))
    for n in w.attributes:
        A(n, lambda i, j, k, n=n: fn("attribute_" + n, fn("polR", j, i, k), fn("polZ", j, i, k), mul(j, DY)))
    # parallel metrics
    offs = offsets(myg)
    for o in offs:
        if ("dx",) and parname("dx", o) not in w.file.vars:
            ck.violated(lab + parname("dx", o), ck.where, "is not written")
            continue
        g = tag(w.file.vars[parname("dx", o)])
        if g is None:
            raise Unsupported("parallel metric")
        if not 0 <= g < len(w.grids):
            ck.violated(lab + parname("dx", o), ck.where, "is the metric of the grid itself")
            continue
        for c in COMPONENTS:
            A(parname(nm(c), o), lambda i, j, k, c=c: fn("metric_" + c, num(100 + g), i, j, k))
        pg = w.grids[g]
        if len(pg["planes"]) != ny:
            ck.violated(lab + "planes of offset %d" % o, ck.where, "%d planes" % len(pg["planes"]))
            continue
        i, k = fresh("i", int=True, lo=0, hi=w.shape[0]), fresh("k", int=True, lo=0, hi=w.shape[2])
        for j in range(ny):
            p = pg["planes"][j]
            if not (isinstance(p, Abs) and p.name == "parplane"):
                raise Unsupported("plane of the parallel grid")
            for q, a in zip("RZ", p.key):
                ck.eq(lab + "%s of plane %d, offset %d" % (q, j, o), a(i, k), fn("map_" + parname(q, o), i, num(j), k))
            if per:
                turns = div(sub(pg["y"](num(j)), mul(num(j + o), DY)), mul(num(ny), DY))
                v = numval(turns)
                if v is None or v != int(v):
                    ck.violated(lab + "y of plane %d, offset %d" % (j, o), ck.where, "%s is not a whole number of turns from %d spacings" % (show(pg["y"](num(j))), j + o))
                else:
                    ck.passed(lab + "y of plane %d, offset %d" % (j, o))
                if j:
                    ck.eq(lab + "spacing of plane %d, offset %d" % (j, o), sub(pg["y"](num(j)), pg["y"](num(j - 1))), DY)
            elif 0 <= j + o < ny:
                ck.eq(lab + "y of plane %d, offset %d" % (j, o), pg["y"](num(j)), mul(num(j + o), DY))
        ck.eq(lab + "Ly of offset %d" % o, pg["Ly"], mul(num(ny), DY))
        ck.eq(lab + "periodicity of offset %d" % o, pg["per"], TRUE if per else FALSE)
    check_ids(ck, w, lab)


def tag(a):
    t = a(ZERO, ZERO, ZERO)
    if t.op == "fn" and str(t.args[0]).startswith("metric_"):
        v = numval(t.args[1])
        return None if v is None else int(v) - 100
    return None


def check_ids(ck, w, lab):
    if not w.ids:
        if any(k in w.file.attrs for k in ("id", "grid_id")):
            raise Unsupported("identifier from another source")
        return ck.violated(lab + "identifier", ck.where, "is not written")
    for n in ("id", "grid_id"):
        if w.file.attrs.get(n) != w.ids[-1]:
            v = w.file.attrs.get(n)
            if v is not None and not isinstance(v, str):
                raise Unsupported("identifier %r" % (v,))
            ck.violated(lab + n, ck.where, "is %s, generated %s" % (v, w.ids))
        else:
            ck.passed(lab + n)


def broken(ck, bad):
    """Non-finite maps: refused, and the file is closed."""
    ck.where = ck.location(MOD, "write_maps")
    w = world(ck)
    scene(ck, w, 2, True, num(2), num(2))
    names, d = themaps(w, 1, False)
    n = bad if bad in ("R", "MYG") else "forward_" + bad
    if bad == "MYG":
        del d["MYG"]  # an error in the middle of writing
    else:
        d[n] = w.I.new(Arr(w.shape, lambda i, j, k: ite(b_and(eq(i, ONE), eq(j, ZERO), eq(k, ONE)), NAN, fn("map_" + n, i, j, k))))
    f = ck.anchor(w.I, MOD, "write_maps")
    lab = "write_maps with %s %s" % (n, "missing" if bad == "MYG" else "not finite")
    try:
        w.I.call(f, [w.grid, w.field, w.I.new(Dct(d)), "out.nc"], {"quiet": TRUE})
    except PyRaise:
        if not w.opened:
            return ck.unknown(lab, "file is not opened")
        if n in writes(w) and n != "R":
            return ck.violated(lab, ck.where, "is written")
        if w.file.open:
            return ck.violated(lab, ck.where, "the file is left open")
        return ck.passed(lab)
    quiet(w)
    ck.violated(lab, ck.where, "is not refused")


def identifiers(ck):
    """Two files never share an identifier."""
    ck.where = ck.location(MOD, "MapWriter._final")
    w = world(ck)
    seen = []
    for n in range(2):
        scene(ck, w, 2, True)
        w.file.attrs.clear()
        start(ck, w)
        names, d = themaps(w, 1, False)
        meth(w, "add_grid_field", w.grid, w.field)
        meth(w, "add_maps", w.I.new(Dct(d)))
        check_ids(ck, w, "file %d: " % n)
        seen.append(w.file.attrs.get("id"))
    if seen[0] == seen[1]:
        ck.violated("new identifier", ck.where, "both files get %s" % seen[0])
    else:
        ck.passed("new identifier")


def update(ck, old):
    """New attributes for an existing file: none of the old values is lost."""
    ck.where = ck.location(MOD, "MapWriter._final")
    w = world(ck)
    scene(ck, w, 2, True)
    start(ck, w)
    meth(w, "add_grid_field", w.grid, w.field)
    before = {n: "before " + n for n in old}
    w.file.attrs.update(before)
    if w.I.class_member(w.cls, "_final") is None:
        raise Unsupported("no _final")
    meth(w, "_final", update=TRUE)
    lab = "update of a file with attributes %s: " % (old,)
    check_ids(ck, w, lab)
    for n, v in before.items():
        if v in w.file.attrs.values():
            ck.passed(lab + n)
        else:
            ck.violated(lab + n, ck.where, "the old value is lost")
