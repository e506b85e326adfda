"""C17: interrupted generation of the DAGP coefficients."""
from zsa.terms import *
from zsa import terms as tm
from zsa.values import *
from zsa.std import *
from zsa.interp import PyRaise
from props.ncfile import File
from props import dagp
import itertools

MOD = "zoidberg.zoidberg"
NX = sym("nx", int=True, lo=4)
NZ = sym("nz", int=True, lo=3)
NAMES = ("dagp_fv_XX", "dagp_fv_XZ", "dagp_fv_ZX", "dagp_fv_ZZ", "dagp_fv_volume")
PROG = "_dagp_generation_progress"
EXPLANATION = (
    "MapWriter.add_dagp is analysed with a file whose every operation (creation of a variable, store into a variable) "
    "is an event of the abstract state, and with uninterpreted coefficients of each plane. After every prefix of the "
    "event sequence (a crash), and after an error raised by every computation and every file operation, the planes "
    "counted by the stored progress must hold their own coefficients under every name; a rerun on that file is analysed in "
    "turn: it must not recompute counted planes and must leave every plane's coefficients in its own slot. Sizes nx and nz "
    "are symbolic; the numbers of planes are the listed ones. What `doit` returns is analysed separately for values which are "
    "never assigned."
)


def run(ck):
    for bar in (False, True):
        for ny in (1, 2, 3):
            ck.group("crashes, %d planes%s" % (ny, ", progress bar" if bar else ""), lambda: crashes(ck, ny, bar, True))
        ck.group("many planes%s" % (", progress bar" if bar else ""), lambda: crashes(ck, 40 if ck.thorough else 17, bar, False))
    for ny in (1, 3):
        for q in range(ny):
            ck.group("error in plane %d of %d" % (q, ny), lambda: error(ck, ny, q))
    ck.group("file without progress", lambda: older(ck, 3))
    for attr in ("grid", "field", "is_open"):
        ck.group("refused", lambda: refused(ck, attr))
    ck.group("initialised", lambda: initialised(ck))


def attempt(ck, ny, contents, bar=False, fail=None, bad=None, slab=False, missing=None):
    """One call of add_dagp on a file; its events and the planes computed."""
    ck.where = ck.location(MOD, "MapWriter.add_dagp")
    file = File({"x": NX, "y": num(ny), "z": NZ}, contents, fail)
    asked = []

    def doit(I, args, kw):
        a = dict(zip(("pols", "plot", "isSlab"), args), **kw)
        pols = [I.res(p) for p in I.const_items(a["pols"])]
        for p in pols:
            if not (isinstance(p, Abs) and p.name == "pol"):
                raise Unsupported("coefficients of something else")
        ks = [p.key[0] for p in pols]
        s = I.truth(a.get("isSlab", FALSE))
        asked.extend((k, s) for k in ks)
        if bad is not None and bad in ks:
            raise PyRaise("LinAlgError: injected")
        return I.new(Dct({n: I.new(Arr([NX, num(len(ks)), NZ], lambda i, j, k, n=n: fn(n, lookup(ks, j), i, k))) for n in NAMES}))

    def lookup(ks, j):
        r = num(ks[-1])
        for q in range(len(ks) - 2, -1, -1):
            r = ite(eq(j, num(q)), num(ks[q]), r)
        return r

    wrap = Prim("tqdm", lambda I, a, k: a[0] if a else k["iterable"])
    I = ck.interp({"zoidberg.stencil_dagp_fv.doit": Prim("doit", doit), MOD + ".tqdm": wrap if bar else NONE})
    cls = ck.anchor(I, MOD, "MapWriter")
    file.base = tuple(I.S.pc)
    mw = I.call(cls, [], {})
    grid = Abs("grid", {"poloidal_grids": lambda I, v: I.new(Lst([Abs("pol", {}, key=(k,)) for k in range(ny)])),
                        "numberOfPoloidalGrids": Prim("n", lambda I, a, k: num(ny)), "shape": Tup([NX, num(ny), NZ]),
                        "getPoloidalGrid": Prim("get", lambda I, a, k: Tup([Abs("pol", {}, key=(int(numval(I.scalar(a[0]))),)), fn("yof", a[0])])),
                        "__bool__": Prim("bool", lambda I, a, k: TRUE), "$isnone": FALSE})
    fld = Abs("field", {"$isinstance": lambda I, c: TRUE if slab and isinstance(c, ClassV) and c.name == "Slab" else FALSE,
                        "__bool__": Prim("bool", lambda I, a, k: TRUE), "$isnone": FALSE})
    o = dict(I.content(mw).attrs)
    o.update(f=file.datafile(), is_open=TRUE, grid=grid, field=fld)
    if missing:
        o[missing] = FALSE if missing == "is_open" else NONE
    I.S.heap[mw.loc] = ObjC(I.content(mw).cls, o)
    err = None
    try:
        I.call(I.getattr(mw, "add_dagp"), [], {})
    except PyRaise as e:
        err = str(e)
    if I.raises:
        raise Unsupported("error under a condition: %s" % (I.raises[0][1],))
    if not contents and fail is None and missing is None and not asked:
        raise Unsupported("coefficients are not computed by doit")
    return file, asked, err


def progress(ck, label, contents):
    if PROG not in contents:
        return 0
    t = contents[PROG](ZERO)
    v = numval(t)
    if v is None:
        # created but not initialised: what is read there is the fill value
        if t.op == "fn" and str(t.args[0]).startswith("fill_"):
            return 0
        raise Unsupported("progress %s" % (show(t),))
    return int(v)


def coefs(ck, label, contents, planes):
    """All coefficients of the planes are in their slots."""
    ok = True
    for n in NAMES:
        a = contents.get(n)
        for p in planes:
            if a is None:
                ck.violated(label + ": %s of plane %d" % (n, p), ck.where, "the variable has not been created")
                ok = False
                continue
            if a.rank != 3:
                raise Unsupported("rank of %s" % n)
            i, k = fresh("i", int=True, lo=0, hi=NX), fresh("k", int=True, lo=0, hi=NZ)
            ok = ck.eq(label + ": %s of plane %d" % (n, p), a(i, num(p), k), fn(n, num(p), i, k)) and ok
    return ok


def after(ck, label, contents, ny, again=True, bar=False):
    """State of the file after an interruption, and of a rerun."""
    p = progress(ck, label, contents)
    if not 0 <= p <= ny:
        return ck.violated(label + ": progress", ck.where, "%d of %d planes" % (p, ny))
    if not coefs(ck, label + ": counted", contents, range(p)):
        return
    if not again:
        return
    if contents.get(PROG) is not None and numval(contents[PROG](ZERO)) is None:
        # reading the fill value of an integer variable: masked, comparison is false
        contents = dict(contents)
        contents[PROG] = Arr([ONE], lambda *i: ZERO)
    file, asked, err = attempt(ck, ny, contents, bar)
    lab = label + ", rerun"
    if err:
        return ck.violated(lab, ck.where, "ends in " + err)
    done = [k for k, s in asked]
    if done != list(range(p, ny)):
        return ck.violated(lab + ": planes computed", ck.where, "%s computed with %d of %d planes done" % (done, p, ny))
    ck.passed(lab + ": planes computed")
    coefs(ck, lab, file.vars, range(ny))
    q = progress(ck, lab, file.vars)
    if q != ny:
        ck.violated(lab + ": progress", ck.where, "%d of %d" % (q, ny))
    else:
        ck.passed(lab + ": progress")


def crashes(ck, ny, bar, full):
    for slab in (False, True) if full else (False,):
        file, asked, err = attempt(ck, ny, {}, bar, slab=slab)
        lab = "%d planes%s%s" % (ny, ", slab" if slab else "", ", progress bar" if bar else "")
        if err:
            return ck.violated(lab, ck.where, "ends in " + err)
        if [k for k, s in asked] != list(range(ny)):
            return ck.violated(lab + ": planes computed", ck.where, "%s" % (asked,))
        for k, s in asked:
            ck.eq(lab + ": plane %d computed as slab" % k, s, TRUE if slab else FALSE)
        coefs(ck, lab, file.vars, range(ny))
        if progress(ck, lab, file.vars) != ny:
            ck.violated(lab + ": progress", ck.where, "%d of %d" % (progress(ck, lab, file.vars), ny))
        ck.count("file_operations", len(file.events))
    events = file.events
    last = None
    for n, (what, snap) in enumerate(events):
        # crash after event n
        if not full and not what.endswith(PROG):
            continue
        ck.count("crash_points")
        after(ck, "%s, crash after operation %d (%s)" % (lab, n, what), snap, ny, full or n > len(events) - 12, bar)
        if ck.bad:
            return
    if full:
        # errors raised by a file operation: the code may still handle them
        for n in range(len(events)):
            f, asked, err = attempt(ck, ny, {}, bar, fail=n)
            ck.count("error_points")
            l = "%s, error in operation %d (%s)" % (lab, n, events[n][0])
            if err is None:
                ck.violated(l, ck.where, "the error is not reported")
            after(ck, l, f.vars, ny, True, bar)
            if ck.bad:
                return


def error(ck, ny, q):
    """A plane whose coefficients cannot be computed."""
    for start in ({},):
        f, asked, err = attempt(ck, ny, start, bad=q)
        l = "error in plane %d of %d" % (q, ny)
        p = progress(ck, l, f.vars)
        if err is None and p > q:
            ck.violated(l, ck.where, "the plane is counted although it was not computed")
        after(ck, l, f.vars, ny)


def older(ck, ny):
    """Coefficients of an older version, without progress."""
    old = {n: Arr([NX, num(ny), NZ], lambda *ix, n=n: fn("old_" + n, *ix)) for n in NAMES}
    f, asked, err = attempt(ck, ny, old)
    if err:
        return ck.violated("older file", ck.where, err)
    coefs(ck, "older file", f.vars, range(ny))


def refused(ck, attr):
    f, asked, err = attempt(ck, 2, {}, missing=attr)
    l = "without %s" % attr
    if err is None:
        return ck.violated(l, ck.where, "is not refused")
    if f.events:
        return ck.violated(l, ck.where, "changes the file")
    ck.passed(l)


def initialised(ck):
    """No element of what doit returns comes from memory which was never assigned."""
    for singular in (False, True):
        r = dagp.run(ck, 1, num(4), num(5), False, True, singular)
        for n, a in r.out.items():
            sh = [numval(x) for x in a.shape]
            if None in sh:
                raise Unsupported("size of " + n)
            bad = [ix for ix in itertools.product(*[range(int(x)) for x in sh]) if unset(a(*[num(j) for j in ix]))]
            l = "%s assigned everywhere%s" % (n, " (singular batch)" if singular else "")
            if bad:
                ck.violated(l, ck.where, "element %s is never assigned" % (bad[0],))
            else:
                ck.passed(l)


def unset(t):
    stack, seen = [t], set()
    while stack:
        x = stack.pop()
        if x in seen:
            continue
        seen.add(x)
        if x.op in ("fn", "sym") and str(x.args[0]).startswith("uninit"):
            return True
        stack.extend(tm._children(x))
    return False
