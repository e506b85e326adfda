"""Models of the standard library, numpy, scipy and sympy functions that occur
in the analysed source.  Functions without a model return an unknown value."""
from fractions import Fraction as F

from . import terms as tm
from .terms import (T, num, ite, ZERO, ONE, TRUE, FALSE, add, sub, mul, div, neg, lt, le, eq, eq0,
                    b_not, b_and, b_or, n2b, b2n, subst, free, numval, mk_sum, mk_any, fresh)
from .values import *  # noqa
from .values import Unsupported, opaque, is_opaque
from . import interp as ip
from .interp import PyRaise, Iter, IterC, ShapeCat, LstMu, UNDEF, CondC

EXT = {}
EXT_TRUTH = {}
METH = {}


def ext(*names):
    def d(f):
        for n in names:
            EXT[n] = f
        return f
    return d


def meth(*names):
    def d(f):
        for n in names:
            METH[n] = f
        return f
    return d


CANON = {
    "np": "numpy",
    "numpy.absolute": "numpy.abs", "numpy.fabs": "numpy.abs", "numpy.amin": "numpy.min", "numpy.amax": "numpy.max",
    "numpy.mod": "numpy.remainder", "numpy.concat": "numpy.concatenate", "numpy.float64": "builtins.float",
    "numpy.int64": "builtins.int", "numpy.int32": "builtins.int", "numpy.int_": "builtins.int", "numpy.intp": "builtins.int",
    "numpy.bool_": "builtins.bool", "numpy.ndarray.reshape": "numpy.reshape",
    "numpy.ndarray.flatten": "numpy.ravel", "numpy.rint": "numpy.round", "numpy.asanyarray": "numpy.asarray",
    "numpy.ascontiguousarray": "numpy.asarray", "numpy.alltrue": "numpy.all",
    "scipy.integrate.cumtrapz": "scipy.integrate.cumulative_trapezoid",
}


def canon(p):
    return CANON.get(p, p)


def ext_attr(I, v, name):
    p = canon(v.path + "." + name)
    if p in ("numpy.pi", "math.pi", "sympy.pi"):
        return tm.PI
    if p == "numpy.newaxis":
        return NONE
    if p in ("numpy.nan", "math.nan"):
        return tm.mk("sym", "nan")
    if p in ("numpy.inf", "math.inf"):
        return tm.mk("sym", "inf")
    if p in I.overrides:
        return I.overrides[p]
    return Ext(p)


def call_ext(I, path, args, kw):
    path = canon(path)
    if path in I.overrides:
        return I.overrides[path].f(I, args, kw)
    if path == "sympy.pi":
        return tm.PI
    h = EXT.get(path)
    if h is None:
        return unknown_call(I, path, args, kw)
    if "**" in kw:
        return unknown_call(I, path, args, kw)
    return h(I, list(args), dict(kw))


def unknown_call(I, why, args, kw):
    """Unknown functions are assumed to have no effect on their arguments
    except through an explicit out= argument."""
    if "out" in kw:
        I.taint(I.res(kw["out"]), why)
    return Unk("result of " + why)


def arg(args, kw, k, name, default=NONE):
    if k < len(args):
        return args[k]
    return kw.get(name, default)


def known(kw, *names):
    for k in kw:
        if k not in names:
            raise Unsupported("keyword %s" % k)


def dtype_of(I, v):
    v = I.res(v)
    if v is NONE:
        return None
    if isinstance(v, (Prim, Ext)):
        n = v.name if isinstance(v, Prim) else canon(v.path)
        n = n.split(".")[-1]
        if n.startswith("int"):
            return "int"
        if n.startswith("bool"):
            return "bool"
        if n.startswith("float"):
            return "float"
    if isinstance(v, str):
        if v.startswith("int") or v == "i":
            return "int"
        if v.startswith("bool"):
            return "bool"
        return "float"
    return None


def shape_of(I, v):
    """Shape argument: tuple of terms or ShapeV/ShapeCat."""
    v = I.res(v)
    if isinstance(v, T):
        return (v,)
    if isinstance(v, (ShapeV, ShapeCat)):
        return v
    if isinstance(v, Tup):
        return tuple(I.scalar(x) for x in v.items)
    if isinstance(v, Ref):
        return tuple(I.scalar(x) for x in I.const_items(v))
    if isinstance(v, IteV):
        a, b = shape_of(I, v.a), shape_of(I, v.b)
        if isinstance(a, tuple) and isinstance(b, tuple) and len(a) == len(b):
            return tuple(ite(v.c, x, y) for x, y in zip(a, b))
    raise Unsupported("shape %r" % (v,))


def filled(I, sh, t, dt):
    if isinstance(sh, ShapeV):
        return I.new(PW(t, dt, None, sh.tag))
    if isinstance(sh, ShapeCat):
        raise Unsupported("shape")
    return I.new(Arr(sh, lambda *ix: t, dt))


@ext("numpy.zeros")
def np_zeros(I, args, kw):
    known(kw, "dtype", "shape")
    dt = dtype_of(I, arg(args, kw, 1, "dtype")) or "float"
    return filled(I, shape_of(I, arg(args, kw, 0, "shape")), FALSE if dt == "bool" else ZERO, dt)


@ext("numpy.ones")
def np_ones(I, args, kw):
    known(kw, "dtype", "shape")
    dt = dtype_of(I, arg(args, kw, 1, "dtype")) or "float"
    return filled(I, shape_of(I, arg(args, kw, 0, "shape")), TRUE if dt == "bool" else ONE, dt)


@ext("numpy.empty")
def np_empty(I, args, kw):
    known(kw, "dtype", "shape")
    sh = shape_of(I, arg(args, kw, 0, "shape"))
    dt = dtype_of(I, arg(args, kw, 1, "dtype")) or "float"
    return uninit(I, sh, dt)


def uninit(I, sh, dt):
    nm = "uninit%d" % I.nloc
    if isinstance(sh, ShapeV):
        return I.new(PW(tm.sym(nm), dt, None, sh.tag))
    if isinstance(sh, ShapeCat):
        raise Unsupported("shape")
    return I.new(Arr(sh, lambda *ix: tm.mk("fn", nm, *ix), dt))


@ext("numpy.full")
def np_full(I, args, kw):
    known(kw, "dtype", "shape", "fill_value")
    v = arg(args, kw, 1, "fill_value")
    dt = dtype_of(I, arg(args, kw, 2, "dtype"))
    sh = shape_of(I, arg(args, kw, 0, "shape"))
    v = I.res(v)
    if isinstance(v, T):
        if dt is None:
            dt = "bool" if v.isb else ("int" if _intlit(I, args, kw) else None)
        return filled(I, sh, I.cast(v, dt), dt)
    if isinstance(v, Unk):
        return v
    a = I.arr(v)
    if isinstance(sh, tuple) and isinstance(a, Arr):
        return I.new(broadcast_to(I, a, sh))
    if isinstance(a, PW):
        return I.new(PW(a.t, dt, None, a.tag))
    if a.rank == 0:
        return filled(I, sh, a(), dt)
    raise Unsupported("full")


def _intlit(I, args, kw):
    """Is the fill value written as an integer literal?"""
    import ast

    n = I.node
    if isinstance(n, ast.Call):
        x = n.args[1] if len(n.args) > 1 else next((k.value for k in n.keywords if k.arg == "fill_value"), None)
        while isinstance(x, ast.UnaryOp):
            x = x.operand
        return isinstance(x, ast.Constant) and type(x.value) is int
    return False


def broadcast_to(I, a, sh):
    r = len(sh)
    off = r - a.rank
    return Arr(sh, lambda *ix: a(*[ZERO if numval(s) == 1 else ix[off + k] for k, s in enumerate(a.shape)]), a.dt, a.mask)


@ext("numpy.broadcast_to")
def np_broadcast_to(I, args, kw):
    return I.new(broadcast_to(I, I.arr(args[0]), shape_of(I, args[1])))


def _like(I, v):
    v = I.res(v)
    if isinstance(v, Unk):
        return None
    return I.arr(v)


@ext("numpy.zeros_like", "numpy.ones_like", "numpy.empty_like", "numpy.full_like")
def np_like(I, args, kw):
    raise Unsupported("like")


def _mklike(fill):
    def f(I, args, kw):
        known(kw, "dtype", "fill_value", "a", "prototype")
        a = _like(I, args[0])
        if a is None:
            return Unk("like of unknown")
        dt = dtype_of(I, kw.get("dtype", NONE)) or a.dt
        sh = a.shape if isinstance(a, Arr) else ShapeV(a.tag)
        if fill is None:
            return uninit(I, sh, dt)
        t = fill if isinstance(fill, T) else I.scalar(arg(args, kw, 1, "fill_value"))
        if dt == "bool":
            t = n2b(t)
        if sh == ():
            return t
        return filled(I, sh, I.cast(t, dt), dt)
    return f


EXT["numpy.zeros_like"] = _mklike(ZERO)
EXT["numpy.ones_like"] = _mklike(ONE)
EXT["numpy.empty_like"] = _mklike(None)
EXT["numpy.full_like"] = _mklike("fill")


@ext("numpy.array", "numpy.asarray")
def np_array(I, args, kw):
    known(kw, "dtype", "copy", "order", "object", "a", "ndmin")
    v = I.res(args[0] if args else kw.get("object", kw.get("a", NONE)))
    dt = dtype_of(I, arg(args, kw, 1, "dtype"))
    return as_array(I, v, dt, True)


def text_items(I, v):
    """Leaves of a nested sequence, or None."""
    v = I.res(v)
    if isinstance(v, (str, T)):
        return [v]
    items = v.items if isinstance(v, Tup) else I.content(v).items if isinstance(v, Ref) and isinstance(I.content(v), Lst) else None
    if items is None:
        return None
    out = []
    for x in items:
        t = text_items(I, x)
        if t is None:
            return None
        out += t
    return out


def raw_bytes(I, v):
    v = I.res(v)
    if isinstance(v, Ref) and is_array(I.S.heap[v.loc]):
        r = [I.token(x, "") for x in I.const_items(I.new(flat(I, I.arr(v))))]
        return None if None in r else "".join(r)
    return None


METH["tobytes"] = METH["tostring"] = lambda I, v, a, k: (raw_bytes(I, v) if I.tokens else None) or Unk("bytes")


def digest(I, args, kw):
    """Hash object: its result is a one-to-one text of what it was given."""
    import hashlib

    box = I.new(Lst([]))

    def update(I, a, k):
        t = a[0] if isinstance(a[0], str) else raw_bytes(I, a[0]) or I.to_str(a[0])
        if t is None:
            I.S.heap[box.loc] = Lst(list(I.S.heap[box.loc].items) + [Unk("hashed")])
        else:
            I.S.heap[box.loc] = Lst(list(I.S.heap[box.loc].items) + [t])
        return NONE

    def result(I, a, k):
        it = I.S.heap[box.loc].items
        if any(not isinstance(x, str) for x in it):
            return Unk("hash of unknown")
        return hashlib.md5("".join(it).encode()).hexdigest()

    if args:
        update(I, args, kw)
    return Abs("hash", {"update": Prim("update", update), "hexdigest": Prim("hexdigest", result), "digest": Prim("digest", result)})


for _n in ("md5", "sha1", "sha256", "sha512", "blake2b", "sha224", "sha384"):
    EXT["hashlib." + _n] = digest


def as_array(I, v, dt, copy):
    if isinstance(v, Unk):
        return v
    if v is NONE:
        return Unk("array of None")
    if isinstance(v, T):
        return I.cast(v, dt) if dt else v
    if isinstance(v, (ShapeV, ShapeCat)):
        return Unk("shape array")
    if isinstance(v, IteV) and not I.arrayish(v):
        return I.branch(v.c, lambda: as_array(I, v.a, dt, copy), lambda: as_array(I, v.b, dt, copy))
    if isinstance(v, Tup) or isinstance(v, Ref) and isinstance(I.S.heap[v.loc], Lst):
        items = v.items if isinstance(v, Tup) else I.S.heap[v.loc].items
        if I.tokens:
            t = text_items(I, v)
            if t is not None and any(isinstance(x, str) for x in t):
                ts = [I.to_str(x) for x in t]
                if None in ts:
                    return Unk("array of unknown")
                return Abs("text array", {"ravel": Prim("ravel", lambda I, a, k: I.new(Lst(ts))), "flatten": Prim("flatten", lambda I, a, k: I.new(Lst(ts))),
                                          "flat": lambda I, v: I.new(Lst(ts)), "size": num(len(ts))})
        for x in items:
            x = I.res(x)
            if isinstance(x, (Unk, str)) or x is NONE:
                return Unk("array of unknown")
        pw = False
        arrs = [I.arr(x) for x in items]
        if any(isinstance(a, PW) for a in arrs):
            return pw_stack(I, arrs)
        a = I.stack(arrs)
        d = dt or _common_dt(arrs)
        return I.new(Arr(a.shape, (lambda *ix: I.cast(a(*ix), dt)) if dt else a.f, d))
    if isinstance(v, (Ext, Prim, Fn, Abs, ClassV)):
        return Unk("array of %r" % (v,))
    a = I.arr(v)
    if isinstance(a, PW):
        return I.new(PW(I.cast(a.t, dt) if dt else a.t, dt or a.dt, a.mask, a.tag))
    if a.rank == 0:
        return I.cast(a(), dt) if dt else a()
    b = Arr(a.shape, (lambda *ix: I.cast(a(*ix), dt)) if dt and dt != a.dt else a.f, dt or a.dt, a.mask)
    if not (dt and dt != a.dt):
        b.memo = a.memo
    return I.new(b)


def pw_stack(I, arrs):
    """np.array([x, z]) of arrays of unknown shape: outer index is known."""
    ts = []
    tag = "pt"
    for a in arrs:
        if isinstance(a, PW):
            if a.mask is not None:
                raise Unsupported("masked")
            ts.append(a.t)
            tag = a.tag
        elif a.rank == 0:
            ts.append(a())
        else:
            raise Unsupported("mixed shapes")
    return I.new(Lst([I.new(PW(t, None, None, tag)) for t in ts]))


def _common_dt(arrs):
    d = {a.dt for a in arrs}
    if len(d) == 1:
        x = d.pop()
        return x
    return None


EXT["numpy.asarray"] = lambda I, args, kw: _asarray(I, args, kw)


def _asarray(I, args, kw):
    known(kw, "dtype", "order", "a")
    v = I.res(args[0] if args else kw.get("a"))
    dt = dtype_of(I, arg(args, kw, 1, "dtype"))
    if isinstance(v, Ref) and isinstance(I.S.heap[v.loc], (Arr, ViewC, PW)):
        c = I.S.heap[v.loc]
        cdt = I.dtof(v)
        if dt is None or dt == cdt or dt == "float" and cdt is None:
            return v  # no copy: aliases
    return as_array(I, v, dt, False)


@ext("numpy.copy", "copy.copy", "copy.deepcopy")
def np_copy(I, args, kw):
    return do_copy(I, args[0])


def do_copy(I, v):
    v = I.res(v)
    if isinstance(v, Ref):
        c = I.content(v)
        if isinstance(c, Arr):
            b = Arr(c.shape, c.f, c.dt, c.mask)
            b.memo = c.memo
            return I.new(b)
        if isinstance(c, (PW, Lst, Dct, Seq, ObjC)):
            if isinstance(c, PW):
                return I.new(PW(c.t, c.dt, c.mask, c.tag))
            if isinstance(c, Lst):
                return I.new(Lst(c.items))
            if isinstance(c, Dct):
                return I.new(Dct(c.d))
            if isinstance(c, ObjC):
                return I.new(ObjC(c.cls, c.attrs))
            return I.new(Seq(c.n, c.f, c.split))
        raise Unsupported("copy")
    if isinstance(v, IteV):
        return I.new(I.content(v))
    return v


@ext("numpy.atleast_1d")
def np_atleast_1d(I, args, kw):
    if len(args) != 1:
        return Tup([np_atleast_1d(I, [x], {}) for x in args])
    v = I.res(args[0])
    if isinstance(v, Unk):
        return v
    if isinstance(v, T):
        return I.new(Arr((ONE,), lambda i: v))
    if isinstance(v, Ref) and isinstance(I.S.heap[v.loc], (Arr, PW, ViewC)):
        return v
    return as_array(I, v, None, True)


@ext("numpy.atleast_2d")
def np_atleast_2d(I, args, kw):
    a = I.arr(args[0])
    if isinstance(a, PW):
        raise Unsupported("atleast_2d")
    if a.rank >= 2:
        return args[0]
    if a.rank == 1:
        return I.new(Arr((ONE,) + a.shape, lambda i, j: a(j), a.dt))
    return I.new(Arr((ONE, ONE), lambda i, j: a(), a.dt))


@ext("numpy.arange")
def np_arange(I, args, kw):
    known(kw, "dtype", "start", "stop", "step")
    a = [I.scalar(x) for x in args]
    if len(a) == 1:
        s, e, st = ZERO, a[0], ONE
    elif len(a) == 2:
        s, e, st = a[0], a[1], ONE
    else:
        s, e, st = a
    n = div(sub(e, s), st)
    if not tm.is_int(n):
        n = neg(tm.floor(neg(n)))
    if n.op == "num" and numval(n) < 0:
        n = ZERO
    isint = all(tm.is_int(x) for x in (s, st)) and tm.is_int(e)
    return I.new(Arr((n,), lambda i: add(s, mul(st, i)), "int" if isint else "float"))


@ext("numpy.linspace")
def np_linspace(I, args, kw):
    known(kw, "num", "endpoint", "dtype", "start", "stop")
    a, b = arg(args, kw, 0, "start"), arg(args, kw, 1, "stop")
    xa, xb = I.arr(a), I.arr(b)
    if isinstance(xa, PW) or isinstance(xb, PW):
        raise Unsupported("linspace")
    if xa.rank or xb.rank:
        n = I.scalar(arg(args, kw, 2, "num", num(50)))
        ep = I.truth(arg(args, kw, 3, "endpoint", TRUE))
        m = ite(ep, sub(n, ONE), n)
        d = I.arr(I.elementwise(lambda p, q: div(sub(q, p), m), [a, b]))
        s = I.arr(I.elementwise(lambda p, q: p, [a, b]))
        return I.new(Arr((n,) + tuple(d.shape), lambda i, *ix: add(s(*ix), mul(d(*ix), i)), "float"))
    a, b = I.scalar(a), I.scalar(b)
    n = I.scalar(arg(args, kw, 2, "num", num(50)))
    ep = I.truth(arg(args, kw, 3, "endpoint", TRUE))
    m = ite(ep, sub(n, ONE), n)
    if m.op == "num" and numval(m) == 0:
        return I.new(Arr((n,), lambda i: a, "float"))
    return I.new(Arr((n,), lambda i: add(a, div(mul(sub(b, a), i), m)), "float"))


@ext("numpy.meshgrid")
def np_meshgrid(I, args, kw):
    known(kw, "indexing", "sparse", "copy")
    ind = kw.get("indexing", "xy")
    arrs = [I.arr(x) for x in args]
    if any(isinstance(a, PW) for a in arrs):
        raise Unsupported("meshgrid")
    arrs = [Arr((ONE,), lambda i, a=a: a(), a.dt) if a.rank == 0 else a for a in arrs]
    if any(a.rank != 1 for a in arrs):
        raise Unsupported("meshgrid rank")
    sh = [a.shape[0] for a in arrs]
    pos = list(range(len(arrs)))
    if ind == "xy" and len(arrs) >= 2:
        pos[0], pos[1] = 1, 0
    full = [None] * len(arrs)
    for k, p in enumerate(pos):
        full[p] = sh[k]
    out = []
    for k, a in enumerate(arrs):
        out.append(I.new(Arr(full, lambda *ix, a=a, p=pos[k]: a(ix[p]), a.dt)))
    return I.new(Lst(out))


@ext("numpy.indices")
def np_indices(I, args, kw):
    sh = shape_of(I, args[0])
    outs = [Arr(sh, lambda *ix, k=k: ix[k], "int") for k in range(len(sh))]
    return I.new(I.stack(outs))


def axis_arg(I, v, rank):
    v = I.res(v)
    if v is NONE:
        return None
    t = I.scalar(v)
    k = numval(t)
    if k is None:
        raise Unsupported("symbolic axis")
    k = int(k)
    return k % rank if rank else k


@ext("numpy.roll")
def np_roll(I, args, kw):
    known(kw, "axis", "shift", "a")
    v = I.res(args[0])
    if isinstance(v, Unk):
        return v
    a = I.arr(v)
    sh = I.res(arg(args, kw, 1, "shift"))
    axv = I.res(arg(args, kw, 2, "axis"))
    if isinstance(a, PW):
        raise Unsupported("roll of unknown shape")
    if isinstance(sh, Tup):
        r = v
        for s, x in zip(sh.items, axv.items):
            r = np_roll(I, [r, s, x], {})
        return r
    s = I.scalar(sh)
    ax = axis_arg(I, axv, a.rank)
    if ax is None:
        if a.rank == 1:
            ax = 0
        else:
            raise Unsupported("roll of flattened array")
    n = a.shape[ax]
    k = numval(s)

    def src(i):
        if k is not None and abs(k) <= 8 and not (n.op == "num" and i.op == "num"):
            j = sub(i, s)
            if k > 0:
                return ite(lt(j, ZERO), add(j, n), j)
            if k < 0:
                return ite(lt(j, n), j, sub(j, n))
            return i
        return tm.mod(sub(i, s), n)

    return I.new(Arr(a.shape, lambda *ix: a(*[src(x) if q == ax else x for q, x in enumerate(ix)]), a.dt))


@ext("numpy.flip")
def np_flip(I, args, kw):
    a = I.arr(args[0])
    if isinstance(a, PW):
        raise Unsupported("flip")
    ax = axis_arg(I, arg(args, kw, 1, "axis"), a.rank)
    axs = range(a.rank) if ax is None else [ax]
    return I.new(Arr(a.shape, lambda *ix: a(*[sub(sub(a.shape[q], ONE), x) if q in axs else x for q, x in enumerate(ix)]), a.dt))


def concat(I, arrs, ax):
    arrs = [a for a in arrs]
    offs = [ZERO]
    for a in arrs:
        offs.append(add(offs[-1], a.shape[ax]))
    sh = list(arrs[0].shape)
    sh[ax] = offs[-1]

    def f(*ix):
        i = ix[ax]

        def at(k):
            j = list(ix)
            j[ax] = sub(i, offs[k])
            return arrs[k](*j)

        # choose the piece lazily
        r = None
        for k in range(len(arrs) - 1, -1, -1):
            if r is None:
                r = at(k)
                continue
            c = I.under_pc(lt(i, offs[k + 1]))
            if c is TRUE:
                r = at(k)
            elif c is FALSE:
                continue
            else:
                r = ite(c, at(k), r)
        return r

    return Arr(sh, f, _common_dt(arrs))


@ext("numpy.concatenate")
def np_concatenate(I, args, kw):
    known(kw, "axis", "dtype")
    v = I.res(args[0])
    c = I.content(v) if isinstance(v, Ref) else None
    if isinstance(c, Seq):
        return concat_seq(I, c, arg(args, kw, 1, "axis", ZERO))
    items = I.const_items(v)
    if any(isinstance(I.res(x), Unk) for x in items):
        return Unk("concatenation of unknown")
    arrs = [I.arr(x) for x in items]
    if any(isinstance(a, PW) for a in arrs):
        raise Unsupported("concatenate")
    axv = I.res(arg(args, kw, 1, "axis", ZERO))
    if axv is NONE:
        arrs = [flat(I, a) for a in arrs]
        axv = ZERO
    r = max(a.rank for a in arrs)
    if r == 0:
        raise PyRaise("ValueError: zero-dimensional arrays cannot be concatenated")
    return I.new(concat(I, arrs, axis_arg(I, axv, r)))


def concat_seq(I, s, axv):
    """Concatenation of the pieces of an array_split: piece(position)."""
    if s.split is None:
        # equal lengths
        k = fresh("c", int=True, lo=0, hi=s.n)
        e = I.arr(s(k))
        ax = axis_arg(I, axv, e.rank)
        m = e.shape[ax]
        if k in free(m):
            raise Unsupported("pieces of varying length")
        sh = list(e.shape)
        sh[ax] = mul(s.n, m)

        def f(*ix):
            i = ix[ax]
            q = tm.floor(div(i, m))
            j = list(ix)
            j[ax] = sub(i, mul(m, q))
            return I.arr(s(q))(*j)

        return I.new(Arr(sh, f, e.dt))
    N, n = s.split[:2]
    k = fresh("c", int=True, lo=0, hi=n)
    e = I.arr(s(k))
    ax = axis_arg(I, axv, e.rank)
    one = sub(tm.fn("splitoff", N, n, add(k, ONE)), tm.fn("splitoff", N, n, k))
    w = div(e.shape[ax], one)
    for c in range(1, 5):
        if tm.same(e.shape[ax], mul(num(c), one)):
            w = num(c)
    if k in free(w):
        raise Unsupported("pieces of unknown length %s" % tm.show(w))
    sh = list(e.shape)
    sh[ax] = mul(N, w)

    def f(*ix):
        i = ix[ax]
        pt = tm.floor(div(i, w))
        c = tm.fn("splitchunk", N, n, pt)
        o = tm.fn("splitoff", N, n, c)
        j = list(ix)
        j[ax] = sub(i, mul(w, o))
        return I.arr(s(c))(*j)

    return I.new(Arr(sh, f, e.dt))


@ext("numpy.append")
def np_append(I, args, kw):
    known(kw, "axis")
    if any(isinstance(I.res(x), Unk) for x in args[:2]):
        return Unk("append")
    a, b = I.arr(args[0]), I.arr(args[1])
    if isinstance(a, PW) or isinstance(b, PW):
        raise Unsupported("append")
    ax = I.res(arg(args, kw, 2, "axis"))
    if ax is NONE:
        return I.new(concat(I, [flat(I, a), flat(I, b)], 0))
    return I.new(concat(I, [a, b], axis_arg(I, ax, a.rank)))


def flat(I, a):
    if a.rank == 0:
        return Arr((ONE,), lambda i: a(), a.dt)
    if a.rank == 1:
        return a
    return reshape(I, a, None)


def prod(ts):
    r = ONE
    for t in ts:
        r = mul(r, t)
    return r


def unflatten(i, shape):
    """Row-major index."""
    out = []
    rest = i
    for k in range(len(shape) - 1, 0, -1):
        n = shape[k]
        q = tm.floor(div(rest, n))
        out.append(sub(rest, mul(n, q)))
        rest = q
    out.append(rest)
    return list(reversed(out))


def flatten_index(ix, shape):
    r = ix[0]
    for k in range(1, len(shape)):
        r = add(mul(r, shape[k]), ix[k])
    return r


def bounded(ix, shape):
    return ix


def reshape(I, a, sh):
    """Row-major reshape; sh None flattens."""
    if a.mask is not None:
        raise Unsupported("reshape of masked")
    tot = prod(a.shape)
    if sh is None:
        sh = (tot,)
    sh = list(sh)
    neg1 = [k for k, s in enumerate(sh) if numval(s) == -1]
    if neg1:
        rest = prod([s for k, s in enumerate(sh) if k != neg1[0]])
        q = div(tot, rest)
        if not tm.is_int(q):
            q = tm.floor(q) if True else q
        sh[neg1[0]] = q
    sh = tuple(sh)
    if len(sh) == a.rank and all(tm.same(x, y) for x, y in zip(sh, a.shape)):
        return a
    # axes that match from the front and the back stay as they are
    pre = 0
    while pre < min(len(sh), a.rank) and tm.same(sh[pre], a.shape[pre]):
        pre += 1
    suf = 0
    while suf < min(len(sh), a.rank) - pre and tm.same(sh[len(sh) - 1 - suf], a.shape[a.rank - 1 - suf]):
        suf += 1
    nm = sh[pre:len(sh) - suf]
    om = a.shape[pre:a.rank - suf]

    def f(*ix):
        mid = ix[pre:len(sh) - suf]
        if nm:
            fl = flatten_index(mid, nm)
        else:
            fl = ZERO
        if om:
            o = unflatten(fl, om)
        else:
            o = []
        return a(*(list(ix[:pre]) + o + list(ix[len(sh) - suf:])))

    return Arr(sh, f, a.dt)


@ext("numpy.reshape")
def np_reshape(I, args, kw):
    known(kw, "newshape", "shape", "order", "a")
    if "order" in kw and kw["order"] != "C":
        raise Unsupported("order")
    v = I.res(args[0])
    if isinstance(v, Unk):
        return v
    rest = args[1:] or [kw.get("newshape", kw.get("shape"))]
    return do_reshape(I, v, rest)


def do_reshape(I, v, rest):
    a = I.arr(v)
    if len(rest) == 1:
        shv = I.res(rest[0])
        if isinstance(shv, (ShapeV, ShapeCat)):
            return pw_reshape(I, a, shv)
        sh = shape_of(I, shv)
    else:
        sh = tuple(I.scalar(x) for x in rest)
    if isinstance(a, PW):
        return pw_reshape(I, a, sh)
    old, new = numval(prod(a.shape)), numval(prod(sh))
    if a.mask is None and old is not None and new is not None and new >= 0 and old != new and all(numval(x) is None or numval(x) >= 0 for x in sh):
        raise PyRaise("ValueError: cannot reshape")
    r = reshape(I, a, sh)
    return I.new(Arr(r.shape, r.f, r.dt)) if r is not a else I.new(_same(a))


def _same(a):
    b = Arr(a.shape, a.f, a.dt, a.mask)
    b.memo = a.memo
    return b


def pw_reshape(I, a, sh):
    if isinstance(a, PW):
        # flattening or restoring: pointwise value is unchanged
        return I.new(PW(a.t, a.dt, a.mask, a.tag))
    raise Unsupported("reshape to unknown shape")


@ext("numpy.ravel")
def np_ravel(I, args, kw):
    v = I.res(args[0])
    if isinstance(v, Unk):
        return v
    a = I.arr(v)
    if isinstance(a, PW):
        return I.new(PW(a.t, a.dt, a.mask, a.tag))
    return I.new(flat(I, a))


@ext("numpy.transpose")
def np_transpose(I, args, kw):
    a = I.arr(args[0])
    if isinstance(a, PW):
        raise Unsupported("transpose")
    ax = I.res(arg(args, kw, 1, "axes"))
    if ax is NONE:
        p = list(range(a.rank))[::-1]
    else:
        p = [int(numval(I.scalar(x))) % a.rank for x in I.const_items(ax)]
    return I.new(transpose(a, p))


def transpose(a, p):
    inv = [p.index(k) for k in range(a.rank)]
    return Arr([a.shape[k] for k in p], lambda *ix: a(*[ix[inv[k]] for k in range(a.rank)]), a.dt)


@ext("numpy.swapaxes")
def np_swapaxes(I, args, kw):
    a = I.arr(args[0])
    p = list(range(a.rank))
    x, y = axis_arg(I, args[1], a.rank), axis_arg(I, args[2], a.rank)
    p[x], p[y] = p[y], p[x]
    return I.new(transpose(a, p))


@ext("numpy.moveaxis")
def np_moveaxis(I, args, kw):
    a = I.arr(args[0])
    x, y = axis_arg(I, args[1], a.rank), axis_arg(I, args[2], a.rank)
    p = [k for k in range(a.rank) if k != x]
    p.insert(y, x)
    return I.new(transpose(a, p))


@ext("numpy.expand_dims")
def np_expand(I, args, kw):
    a = I.arr(args[0])
    x = int(numval(I.scalar(arg(args, kw, 1, "axis")))) % (a.rank + 1)
    return I.new(Arr(a.shape[:x] + (ONE,) + a.shape[x:], lambda *ix: a(*(ix[:x] + ix[x + 1:])), a.dt))


@ext("numpy.squeeze")
def np_squeeze(I, args, kw):
    a = I.arr(args[0])
    keep = [k for k, s in enumerate(a.shape) if numval(s) != 1]

    def f(*ix):
        full = [ZERO] * a.rank
        for q, k in enumerate(keep):
            full[k] = ix[q]
        return a(*full)

    r = Arr([a.shape[k] for k in keep], f, a.dt)
    return I.new(r) if keep else r()


@ext("numpy.stack")
def np_stack(I, args, kw):
    known(kw, "axis")
    items = [I.arr(x) for x in I.const_items(args[0])]
    if any(isinstance(a, PW) for a in items):
        if numval(I.scalar(arg(args, kw, 1, "axis", ZERO))) == 0:
            return pw_stack(I, items)
        raise Unsupported("stack")
    a = I.stack(items)
    ax = int(numval(I.scalar(arg(args, kw, 1, "axis", ZERO)))) % a.rank
    if ax:
        p = list(range(1, a.rank))
        p.insert(ax, 0)
        a = transpose(a, p)
    return I.new(a)


@ext("numpy.column_stack")
def np_column_stack(I, args, kw):
    items = [I.arr(x) for x in I.const_items(args[0])]
    if any(isinstance(a, PW) for a in items):
        # interleaved points of unknown shape
        return I.new(Lst([I.new(a) if isinstance(a, PW) else a() for a in items])) if False else pw_columns(I, items)
    if all(a.rank == 1 for a in items):
        a = I.stack(items)
        return I.new(transpose(a, [1, 0]))
    raise Unsupported("column_stack")


def pw_columns(I, items):
    raise Unsupported("column_stack of unknown shape")


@ext("numpy.vstack")
def np_vstack(I, args, kw):
    items = [I.arr(x) for x in I.const_items(args[0])]
    if all(isinstance(a, Arr) and a.rank == 1 for a in items):
        return I.new(I.stack(items))
    if all(isinstance(a, Arr) and a.rank >= 2 for a in items):
        return I.new(concat(I, items, 0))
    raise Unsupported("vstack")


@ext("numpy.hstack")
def np_hstack(I, args, kw):
    items = [I.arr(x) for x in I.const_items(args[0])]
    if all(isinstance(a, Arr) and a.rank <= 1 for a in items):
        return I.new(concat(I, [flat(I, a) for a in items], 0))
    if all(isinstance(a, Arr) and a.rank >= 2 for a in items):
        return I.new(concat(I, items, 1))
    raise Unsupported("hstack")


@ext("numpy.repeat")
def np_repeat(I, args, kw):
    a = I.arr(args[0])
    n = I.scalar(args[1])
    ax = axis_arg(I, arg(args, kw, 2, "axis"), a.rank)
    if ax is None:
        a = flat(I, a)
        ax = 0
    sh = list(a.shape)
    sh[ax] = mul(sh[ax], n)

    def f(*ix):
        j = list(ix)
        j[ax] = tm.floor(div(ix[ax], n)) if numval(a.shape[ax]) != 1 else ZERO
        return a(*j)

    return I.new(Arr(sh, f, a.dt))


@ext("numpy.tile")
def np_tile(I, args, kw):
    a = I.arr(args[0])
    reps = I.res(args[1])
    reps = [I.scalar(reps)] if isinstance(reps, T) else [I.scalar(x) for x in I.const_items(reps)]
    r = max(a.rank, len(reps))
    reps = [ONE] * (r - len(reps)) + reps
    ash = (ONE,) * (r - a.rank) + a.shape
    sh = [mul(s, n) for s, n in zip(ash, reps)]

    def f(*ix):
        full = []
        for k in range(r):
            s = ash[k]
            full.append(ix[k] if numval(reps[k]) == 1 else (ZERO if numval(s) == 1 else tm.mod(ix[k], s)))
        return a(*full[r - a.rank:])

    return I.new(Arr(sh, f, a.dt))


@ext("numpy.where")
def np_where(I, args, kw):
    if len(args) != 3:
        return Unk("where")
    return I.elementwise(lambda c, a, b: ite(n2b(c), a, b), args)


@ext("numpy.outer", "numpy.multiply.outer")
def np_outer(I, args, kw):
    a, b = I.arr(args[0]), I.arr(args[1])
    a, b = flat(I, a), flat(I, b)
    return I.new(Arr((a.shape[0], b.shape[0]), lambda i, j: mul(a(i), b(j))))


@ext("numpy.dot")
def np_dot(I, args, kw):
    return matmul(I, args, kw, True)


@ext("numpy.matmul")
def np_matmul(I, args, kw):
    return matmul(I, args, kw)


def matmul(I, args, kw, dot=False):
    if any(isinstance(I.res(x), Unk) for x in args):
        return Unk("matmul")
    a, b = I.arr(args[0]), I.arr(args[1])
    if isinstance(a, PW) or isinstance(b, PW):
        raise Unsupported("matmul")
    if a.rank == 0 or b.rank == 0:
        return I.elementwise(mul, args)
    n = a.shape[-1]
    bx = b.rank - 2 if b.rank >= 2 else 0
    k = fresh("m", int=True, lo=0, hi=n)
    sh = a.shape[:-1] + tuple(s for q, s in enumerate(b.shape) if q != bx)
    if a.rank > 2 or b.rank > 2:
        raise Unsupported("matmul rank")

    def f(*ix):
        ia = ix[:a.rank - 1]
        ib = list(ix[a.rank - 1:])
        ib.insert(bx, k)
        return mk_sum(k, ZERO, n, mul(a(*(list(ia) + [k])), b(*ib)))

    r = Arr(sh, f)
    return I.new(r) if sh else r()


# ----------------------------------------------------------- reductions
def reduce_args(I, args, kw):
    v = I.res(args[0])
    ax = I.res(arg(args, kw, 1, "axis"))
    if "out" in kw or "where" in kw or "initial" in kw:
        raise Unsupported("reduction options")
    keep = I.truth(kw.get("keepdims", FALSE)) is TRUE
    return v, ax, keep


def axes_of(I, ax, rank):
    if ax is NONE:
        return list(range(rank))
    if isinstance(ax, Tup):
        return sorted(int(numval(I.scalar(x))) % rank for x in ax.items)
    return [axis_arg(I, ax, rank)]


def reduce_arr(I, a, axs, keep, red):
    """red(list of (symbol, n), body) -> term"""
    rest = [k for k in range(a.rank) if k not in axs]
    sh = [a.shape[k] if k in rest else ONE for k in range(a.rank)] if keep else [a.shape[k] for k in rest]

    def f(*ix):
        full = [None] * a.rank
        vs = []
        pos = 0
        for k in range(a.rank):
            if k in rest:
                full[k] = ix[k] if keep else ix[pos]
                pos += 1
            else:
                s = fresh("r", int=True, lo=0, hi=a.shape[k])
                full[k] = s
                vs.append((s, a.shape[k]))
        t = a(*full)
        m = a.mask(*full) if a.mask is not None else None
        return red(vs, t, m)

    return Arr(sh, f)


def red_sum(vs, t, m):
    t = b2n(t) if t.isb else t
    if m is not None:
        t = ite(n2b(m), t, ZERO)
    for s, n in reversed(vs):
        t = mk_sum(s, ZERO, n, t)
    return t


def red_any(vs, t, m):
    t = n2b(t)
    if m is not None:
        t = b_and(n2b(m), t)
    for s, n in reversed(vs):
        t = mk_any(s, ZERO, n, t)
    return t


def red_all(vs, t, m):
    t = n2b(t)
    if m is not None:
        t = b_or(b_not(n2b(m)), t)
    return b_not(red_any(vs, b_not(t), None))


def arr_term(a):
    """Whole array as an argument of an uninterpreted function."""
    if isinstance(a, T):
        return a
    if isinstance(a, PW):
        return a.t
    if a.rank == 0:
        return a()
    tmp = [fresh("e", int=True, lo=0, hi=s) for s in a.shape]
    body = a(*tmp)
    if body.isb:
        body = b2n(body)
    if a.mask is not None:
        m = n2b(a.mask(*tmp))
        body = ite(m, body, tm.sym("masked"))
    lev = tm._depth(body)
    for k in range(a.rank):
        lev += 1
        body = subst(body, {tmp[k]: tm.sym("%%%d" % lev, int=True)})
    return tm.mk("arr", lev, tuple(a.shape), body)


def red_named(name):
    def red(vs, t, m):
        t = b2n(t) if t.isb else t
        if m is not None:
            t = ite(n2b(m), t, tm.sym("masked"))
        if all(n.op == "num" and numval(n) <= 6 for s, n in vs) and name in ("amax", "amin"):
            vals = [t]
            for s, n in vs:
                vals = [subst(x, {s: num(k)}) for x in vals for k in range(int(numval(n)))]
            if vals:
                r = vals[0]
                for x in vals[1:]:
                    r = tm.maxv(r, x) if name == "amax" else tm.minv(r, x)
                return r
        lev = tm._depth(t)
        body = t
        for s, n in vs:
            lev += 1
            body = subst(body, {s: tm.sym("%%%d" % lev, int=True)})
        return tm.fn(name, tm.mk("arr", lev, tuple(n for s, n in vs), body))
    return red


def reduction(red, name, isb=False):
    def f(I, args, kw):
        known(kw, "axis", "keepdims", "dtype", "a")
        if not args:
            args = [kw["a"]]
        v, ax, keep = reduce_args(I, args, kw)
        if isinstance(v, Unk):
            return Unk(name + " of unknown")
        if isinstance(v, T):
            return n2b(v) if isb else v
        if isinstance(v, Tup) or isinstance(v, Ref) and isinstance(I.S.heap[v.loc], Lst):
            items = [I.res(x) for x in (v.items if isinstance(v, Tup) else I.S.heap[v.loc].items)]
            if any(isinstance(x, Unk) for x in items):
                return Unk(name)
            if any(isinstance(x, Ref) and isinstance(I.S.heap[x.loc], PW) for x in items):
                if not (isinstance(ax, T) and numval(ax) == 0):
                    raise Unsupported("reduction of points")
                if name == "sum":
                    return I.elementwise(lambda *ts: add(*ts), items)
                if name == "any":
                    return I.elementwise(lambda *ts: b_or(*[n2b(t) for t in ts]), items, "bool")
                if name == "all":
                    return I.elementwise(lambda *ts: b_and(*[n2b(t) for t in ts]), items, "bool")
                raise Unsupported("reduction of points")
        a = I.arr(v)
        if isinstance(a, PW):
            if ax is not NONE:
                raise Unsupported("reduction of unknown shape along an axis")
            m = a.mask
            t = a.t
            if a.tag == "scalar":
                return t
            nm = "pw" + name
            if isb:
                if t is TRUE or t is FALSE:
                    return t
                # quantify over the points: the term at the generic point
                return tm.mk("bfn", nm, b2n(t) if m is None else b2n(t), *([] if m is None else [b2n(m)]), isb=True)
            return tm.mk("fn", nm, t, *([] if m is None else [b2n(m)]))
        axs = axes_of(I, ax, a.rank)
        r = reduce_arr(I, a, axs, keep, red)
        if r.rank == 0:
            return r()
        return I.new(Arr(r.shape, r.f, "bool" if isb else None))
    return f


EXT["numpy.sum"] = reduction(red_sum, "sum")
EXT["numpy.any"] = reduction(red_any, "any", True)
EXT["numpy.all"] = reduction(red_all, "all", True)
EXT["numpy.max"] = reduction(red_named("amax"), "amax")
EXT["numpy.min"] = reduction(red_named("amin"), "amin")
EXT["numpy.argmin"] = reduction(red_named("argmin"), "argmin")
EXT["numpy.argmax"] = reduction(red_named("argmax"), "argmax")
EXT["numpy.prod"] = reduction(red_named("prod"), "prod")
EXT["numpy.median"] = reduction(red_named("median"), "median")
EXT["numpy.std"] = reduction(red_named("std"), "std")
EXT["numpy.count_nonzero"] = lambda I, a, k: EXT["numpy.sum"](I, [I.elementwise(lambda t: b2n(n2b(t)), [a[0]])] + a[1:], k)


def _mean(I, args, kw):
    v = I.res(args[0])
    if isinstance(v, Unk):
        return v
    a = I.arr(v)
    if isinstance(a, PW):
        return tm.mk("fn", "pwmean", a.t)
    if a.mask is not None:
        raise Unsupported("mean of masked")
    axs = axes_of(I, I.res(arg(args, kw, 1, "axis")), a.rank)
    n = prod([a.shape[k] for k in axs])
    s = EXT["numpy.sum"](I, args, kw)
    return I.elementwise(lambda t: div(t, n), [s])


EXT["numpy.mean"] = _mean
EXT["numpy.average"] = lambda I, a, k: _mean(I, a, k) if not k else Unk("average")


@ext("numpy.cumsum")
def np_cumsum(I, args, kw):
    known(kw, "axis", "out", "dtype")
    a = I.arr(args[0])
    ax = axis_arg(I, arg(args, kw, 1, "axis"), a.rank)
    if ax is None:
        if a.rank != 1:
            raise Unsupported("cumsum")
        ax = 0

    def f(*ix):
        s = fresh("r", int=True, lo=0)
        j = list(ix)
        j[ax] = s
        return mk_sum(s, ZERO, add(ix[ax], ONE), a(*j))

    r = Arr(a.shape, f, a.dt)
    if "out" in kw:
        I.put(I.res(kw["out"]).loc, r)
        return kw["out"]
    return I.new(r)


@ext("numpy.diff")
def np_diff(I, args, kw):
    known(kw, "axis", "n")
    v = I.res(args[0])
    if isinstance(v, Unk):
        return v
    a = I.arr(v)
    if "n" in kw or len(args) > 1:
        raise Unsupported("diff order")
    ax = axis_arg(I, kw.get("axis", num(-1)), a.rank)
    sh = list(a.shape)
    sh[ax] = sub(sh[ax], ONE)

    def f(*ix):
        j = list(ix)
        j[ax] = add(j[ax], ONE)
        return sub(a(*j), a(*ix))

    return I.new(Arr(sh, f, a.dt))


@ext("numpy.gradient")
def np_gradient(I, args, kw):
    known(kw, "axis")
    a = I.arr(args[0])
    if len(args) > 1 or a.rank != 1 and "axis" not in kw:
        raise Unsupported("gradient")
    ax = axis_arg(I, kw.get("axis", ZERO), a.rank)
    n = a.shape[ax]

    def f(*ix):
        def at(i):
            j = list(ix)
            j[ax] = i
            return a(*j)
        i = ix[ax]
        mid = div(sub(at(add(i, ONE)), at(sub(i, ONE))), num(2))
        lo = sub(at(ONE), at(ZERO))
        hi = sub(at(sub(n, ONE)), at(sub(n, num(2))))
        return ite(eq(i, ZERO), lo, ite(eq(i, sub(n, ONE)), hi, mid))

    return I.new(Arr(a.shape, f))


def short_items(I, v):
    """Elements of a short one-dimensional array of known length, or None."""
    v = I.res(v)
    if isinstance(v, Unk):
        return None
    a = I.arr(v)
    if isinstance(a, PW) or a.rank != 1 or a.mask is not None or numval(a.shape[0]) is None or numval(a.shape[0]) > 8:
        return None
    return [a(num(k)) for k in range(int(numval(a.shape[0])))]


def sorted_terms(ts):
    ts = list(ts)
    if all(numval(t) is not None for t in ts):
        return sorted(ts, key=numval)
    if len(ts) > 4:
        return None
    for i in range(len(ts)):
        for j in range(len(ts) - 1 - i):
            a, b = ts[j], ts[j + 1]
            ts[j], ts[j + 1] = tm.minv(a, b), tm.maxv(a, b)
    return ts


@ext("numpy.sort")
def np_sort(I, args, kw):
    ts = short_items(I, args[0]) if not kw and len(args) == 1 else None
    ts = sorted_terms(ts) if ts is not None else None
    if ts is not None:
        return I.new(I.arr(I.new(Lst(ts))))
    return named_array(I, "sort", args[:1], kw, like=0)


@ext("numpy.argsort")
def np_argsort(I, args, kw):
    return named_array(I, "argsort", args[:1], kw, like=0, dt="int")


def named_array(I, name, args, kw, like=0, dt=None):
    v = I.res(args[like])
    if isinstance(v, Unk):
        return v
    a = I.arr(v)
    if isinstance(a, PW):
        return I.new(PW(tm.mk("fn", "pw" + name, a.t), dt, None, a.tag))
    t = arr_term(a)
    if dt == "int":
        tm.INTARR.add(name)
    return I.new(Arr(a.shape, lambda *ix: tm.mk("fn", name, t, *ix), dt or a.dt))


@ext("numpy.array_split")
def np_array_split(I, args, kw):
    a = I.arr(args[0])
    n = I.scalar(arg(args, kw, 1, "indices_or_sections"))
    if isinstance(a, PW):
        raise Unsupported("array_split")
    ax = axis_arg(I, kw.get("axis", ZERO), a.rank)
    if ax != 0:
        raise Unsupported("array_split axis")
    N = a.shape[0]
    if n.op == "num" and N.op == "num":
        q, r = divmod(int(numval(N)), int(numval(n)))
        out = []
        o = 0
        for c in range(int(numval(n))):
            ln = q + (1 if c < r else 0)
            out.append(I.new(Arr((num(ln),) + a.shape[1:], lambda i, *ix, o=o: a(add(i, num(o)), *ix), a.dt)))
            o += ln
        return I.new(Lst(out))

    def piece(c):
        o = tm.fn("splitoff", N, n, c)
        ln = sub(tm.fn("splitoff", N, n, add(c, ONE)), o)
        return I.new(Arr((ln,) + a.shape[1:], lambda i, *ix: a(add(i, o), *ix), a.dt))

    return I.new(Seq(n, piece, (N, n)))


def _splitoff(N, n, c):
    if numval(c) == 0:
        return ZERO
    if c is n:
        return N
    return tm.mk("fn", "splitoff", N, n, c)


tm.SMART["splitoff"] = _splitoff
EXT["numpy.split"] = EXT["numpy.array_split"]


@ext("numpy.fromiter")
def np_fromiter(I, args, kw):
    known(kw, "dtype", "count")
    a = I.arr(args[0])
    dt = dtype_of(I, arg(args, kw, 1, "dtype"))
    return I.new(Arr(a.shape, lambda *ix: I.cast(a(*ix), dt), dt))


# --------------------------------------------------------- pointwise math
def unary(f, dt=None):
    def g(I, args, kw):
        if len(args) != 1:
            raise Unsupported("ufunc arguments")
        if "out" in kw or "where" in kw:
            raise Unsupported("ufunc options")
        return I.elementwise(f, args, dt)
    return g


def binary(f, dt=None):
    def g(I, args, kw):
        if len(args) != 2 or kw:
            raise Unsupported("ufunc arguments")
        return I.elementwise(f, args, dt)
    return g


def named(n):
    return lambda *a: tm.fn(n, *[b2n(x) if x.isb else x for x in a])


def _sign(t):
    if t.op == "num":
        return num((t.args[0] > 0) - (t.args[0] < 0))
    return ite(lt(t, ZERO), num(-1), ite(eq(t, ZERO), ZERO, ONE))


UN = dict(sin=tm.sinv, cos=tm.cosv, sqrt=tm.sqrt, abs=tm.absv, floor=tm.floor, exp=named("exp"), log=named("log"),
          arctan=named("atan"), tan=lambda t: div(tm.sinv(t), tm.cosv(t)), sign=_sign, tanh=named("tanh"),
          square=lambda t: mul(t, t), conj=lambda t: t, real=lambda t: t, negative=neg, reciprocal=lambda t: div(ONE, t),
          round=named("round"), ceil=lambda t: neg(tm.floor(neg(t))), trunc=tm.trunc, fix=tm.trunc,
          deg2rad=lambda t: div(mul(t, tm.PI), num(180)), radians=lambda t: div(mul(t, tm.PI), num(180)),
          arccos=named("acos"), arcsin=named("asin"), cosh=named("cosh"), sinh=named("sinh"),
          rad2deg=lambda t: div(mul(t, num(180)), tm.PI), degrees=lambda t: div(mul(t, num(180)), tm.PI))
for k, f in UN.items():
    EXT["numpy." + k] = unary(f)
    EXT["math." + {"arctan": "atan", "abs": "fabs", "arccos": "acos", "arcsin": "asin"}.get(k, k)] = unary(f)
EXT["numpy.round"] = lambda I, a, k: I.elementwise(named("round"), a[:1]) if len(a) == 1 and not k else Unk("round")
EXT["numpy.isnan"] = lambda I, a, k: I.elementwise(lambda t: tm.mk("bfn", "isnan", t, isb=True), a, "bool")
EXT["numpy.isfinite"] = lambda I, a, k: I.elementwise(lambda t: tm.mk("bfn", "isfinite", b2n(t), isb=True), a, "bool")
EXT["numpy.isinf"] = lambda I, a, k: I.elementwise(lambda t: tm.mk("bfn", "isinf", t, isb=True), a, "bool")
EXT["numpy.logical_not"] = unary(lambda t: b_not(n2b(t)), "bool")
BI = dict(arctan2=named("atan2"), hypot=lambda a, b: tm.sqrt(add(mul(a, a), mul(b, b))), power=tm.power,
          remainder=tm.mod, floor_divide=lambda a, b: tm.floor(div(a, b)), maximum=tm.maxv, minimum=tm.minv,
          add=add, subtract=sub, multiply=mul, divide=div, true_divide=div, fmax=tm.maxv, fmin=tm.minv)
for k, f in BI.items():
    EXT["numpy." + k] = binary(f)
    EXT["math." + {"arctan2": "atan2"}.get(k, k)] = binary(f)
EXT["math.fmod"] = binary(lambda a, b: sub(a, mul(b, tm.trunc(div(a, b)))))
EXT["numpy.fmod"] = EXT["math.fmod"]
EXT["math.pow"] = binary(tm.power)
for k, f in dict(logical_and=b_and, logical_or=b_or, logical_xor=lambda a, b: tm.b_xor(n2b(a), n2b(b)), less=lt,
                 less_equal=le, greater=lambda a, b: lt(b, a), greater_equal=lambda a, b: le(b, a), equal=eq,
                 not_equal=lambda a, b: b_not(eq(a, b))).items():
    EXT["numpy." + k] = binary(f, "bool")


def _logical(op):
    def red(I, args, kw):
        items = I.const_items(args[0])
        r = items[0]
        for x in items[1:]:
            r = EXT["numpy." + op](I, [r, x], {})
        return r
    return red


EXT["numpy.logical_or.reduce"] = _logical("logical_or")
EXT["numpy.logical_and.reduce"] = _logical("logical_and")


@ext("numpy.clip")
def np_clip(I, args, kw):
    lo, hi = arg(args, kw, 1, "a_min", kw.get("min", NONE)), arg(args, kw, 2, "a_max", kw.get("max", NONE))
    return clip(I, args[0], lo, hi)


def clip(I, x, lo, hi):
    r = x
    if I.res(lo) is not NONE:
        r = I.elementwise(tm.maxv, [r, lo])
    if I.res(hi) is not NONE:
        r = I.elementwise(tm.minv, [r, hi])
    return r


@ext("numpy.isclose", "math.isclose")
def np_isclose(I, args, kw):
    # only used in assertions: treated as equality for the analysis
    return opaque("isclose", isb=True)


@ext("numpy.allclose")
def np_allclose(I, args, kw):
    return opaque("allclose", isb=True)


@ext("numpy.ndim")
def np_ndim(I, args, kw):
    v = I.res(args[0])
    if isinstance(v, T):
        return ZERO
    return getattr_nd(I, v)


def getattr_nd(I, v):
    a = I.arr(v)
    if isinstance(a, PW):
        return tm.fn("ndim_" + a.tag)
    return num(a.rank)


@ext("numpy.shape")
def np_shape(I, args, kw):
    v = I.res(args[0])
    if isinstance(v, T):
        return Tup([])
    a = I.arr(v)
    if isinstance(a, PW):
        return ShapeV(a.tag)
    return Tup(a.shape)


@ext("numpy.size")
def np_size(I, args, kw):
    a = I.arr(args[0])
    if isinstance(a, PW):
        return tm.fn("size", tm.sym(a.tag))
    return prod(a.shape)


@ext("numpy.linalg.norm")
def np_norm(I, args, kw):
    a = I.arr(args[0])
    if isinstance(a, PW) or len(args) > 1:
        raise Unsupported("norm")
    ax = axes_of(I, I.res(kw.get("axis", NONE)), a.rank)
    sq = Arr(a.shape, lambda *ix: mul(a(*ix), a(*ix)), None, a.mask)
    r = reduce_arr(I, sq, ax, False, lambda vs, t, m: tm.sqrt(red_sum(vs, t, m)))
    return r() if r.rank == 0 else I.new(r)


@ext("numpy.linalg.inv")
def np_inv(I, args, kw):
    a = I.arr(args[0])
    if isinstance(a, Arr) and a.rank >= 2 and numval(a.shape[-1]) == 2 and numval(a.shape[-2]) == 2:
        def f(*ix):
            e = [[a(*ix[:-2], num(i), num(j)) for j in range(2)] for i in range(2)]
            d = sub(mul(e[0][0], e[1][1]), mul(e[0][1], e[1][0]))
            m = [[div(e[1][1], d), neg(div(e[0][1], d))], [neg(div(e[1][0], d)), div(e[0][0], d)]]
            r = None
            for i in (1, 0):
                for j in (1, 0):
                    c = b_and(eq(ix[-2], num(i)), eq(ix[-1], num(j)))
                    r = m[i][j] if r is None else ite(c, m[i][j], r)
            return r
        return I.new(Arr(a.shape, f))
    return mat_uninterp(I, "inv", a)


def mat_uninterp(I, name, a):
    t = arr_term(a)
    return I.new(Arr(a.shape, lambda *ix: tm.mk("fn", "matrix_" + name, t, *ix)))


@ext("numpy.linalg.det")
def np_det(I, args, kw):
    a = I.arr(args[0])
    if isinstance(a, Arr) and a.rank >= 2 and numval(a.shape[-1]) == 2 and numval(a.shape[-2]) == 2:
        def f(*ix):
            e = [[a(*ix, num(i), num(j)) for j in range(2)] for i in range(2)]
            return sub(mul(e[0][0], e[1][1]), mul(e[0][1], e[1][0]))
        return f() if a.rank == 2 else I.new(Arr(a.shape[:-2], f))
    if isinstance(a, Arr) and a.rank == 2:
        return tm.fn("matrix_det", arr_term(a))
    raise Unsupported("det")


@ext("numpy.linalg.solve")
def np_solve(I, args, kw):
    a, b = I.arr(args[0]), I.arr(args[1])
    if isinstance(a, Arr) and isinstance(b, Arr) and all(numval(n) == 2 for n in a.shape[-2:]) and (b.rank == a.rank or a.rank == 2 and b.rank == 1):
        nb = b.rank - (a.rank - 2)  # 1 or 2

        def f(*ix):
            pre, row, col = ix[:a.rank - 2], ix[a.rank - 2], ix[a.rank - 1:]
            e = [[a(*pre, num(i), num(j)) for j in range(2)] for i in range(2)]
            r = [b(*pre, num(i), *col) for i in range(2)]
            d = sub(mul(e[0][0], e[1][1]), mul(e[0][1], e[1][0]))
            x = div(sub(mul(r[0], e[1][1]), mul(e[0][1], r[1])), d)
            y = div(sub(mul(e[0][0], r[1]), mul(e[1][0], r[0])), d)
            return ite(eq(row, ZERO), x, y)

        if all(numval(p) is not None or p is q for p, q in zip(a.shape[:-2], b.shape)):
            return I.new(Arr(b.shape, f))
    if isinstance(a, Arr) and isinstance(b, Arr) and b.rank >= 1:
        ta, tb = arr_term(a), arr_term(b)
        return I.new(Arr(b.shape, lambda *ix: tm.mk("fn", "linsolve", ta, tb, *ix)))
    return Unk("solve")


@ext("numpy.random.random", "numpy.loadtxt", "numpy.fft.fft", "numpy.fft.ifft")
def np_unknown(I, args, kw):
    return Unk("unmodelled")


# ---------------------------------------------------------- scipy, sympy
def spline_object(I, kind, key, shape=None, nargs=1):
    """Callable uninterpreted function object."""
    def call(I2, args, kw):
        extra = []
        for k in sorted(kw):
            x = I2.res(kw[k])
            if isinstance(x, T):
                extra.append((k, x))
            elif x is TRUE or x is FALSE:
                extra.append((k, x))
            else:
                return Unk(kind)
        pos = [I2.res(a) for a in args]
        if len(pos) == 1 and isinstance(pos[0], Tup):
            pos = list(pos[0].items)
        if len(pos) == 1 and isinstance(pos[0], Ref) and isinstance(I2.S.heap[pos[0].loc], Lst):
            pos = list(I2.S.heap[pos[0].loc].items)
        if any(isinstance(I2.res(p), Unk) for p in pos):
            return Unk(kind)
        name = kind + "".join(":%s" % k for k, x in extra if k not in ("grid",))
        ex = [b2n(x) if x.isb else x for k, x in extra if k not in ("grid",)]
        return I2.elementwise(lambda *ts: tm.mk("fn", name, *key, *ts, *ex), pos)

    return Prim(kind, call)


@ext("scipy.interpolate.RegularGridInterpolator")
def sp_rgi(I, args, kw):
    pts = I.const_items(args[0])
    vals = I.res(args[1])
    if any(isinstance(I.res(p), Unk) for p in pts) or isinstance(vals, Unk):
        return Unk("interpolator")
    key = [arr_term(I.arr(p)) for p in pts] + [arr_term(I.arr(vals))]
    opts = []
    for k in sorted(kw):
        v = I.res(kw[k])
        opts.append("%s=%s" % (k, v if not isinstance(v, T) else v))
    return spline_object(I, "RegularGridInterpolator(%s)" % ",".join(opts), key)


def _interp_model(name, ndata):
    def f(I, args, kw):
        key = []
        for a in args[:ndata]:
            v = I.res(a)
            if isinstance(v, Unk):
                return Unk(name)
            x = I.arr(v)
            if isinstance(x, PW):
                raise Unsupported(name)
            key.append(arr_term(x))
        opts = []
        for k in sorted(kw):
            v = I.res(kw[k])
            opts.append("%s=%s" % (k, v))
        for a in args[ndata:]:
            opts.append(str(I.res(a)))
        return spline_object(I, "%s(%s)" % (name, ",".join(opts)), key)
    return f


EXT["scipy.interpolate.RectBivariateSpline"] = _interp_model("RectBivariateSpline", 3)
_interp1d = _interp_model("interp1d", 2)


@ext("scipy.interpolate.interp1d")
def sp_interp1d(I, args, kw):
    kw = dict(kw)
    for k in ("copy", "assume_sorted"):
        kw.pop(k, None)
    if len(args) > 2:
        kw["kind"] = args[2]
    if kw.get("kind") == "linear":
        kw.pop("kind")
    return _interp1d(I, args[:2], kw)


@ext("numpy.interp")
def np_interp(I, args, kw):
    """Linear interpolation inside the range of increasing points."""
    known(kw, "x", "xp", "fp")
    x, xp, fp = [arg(args, kw, k, n) for k, n in enumerate(("x", "xp", "fp"))]
    f = _interp1d(I, [xp, fp], {})
    return I.call(f, [x], {}) if not isinstance(f, Unk) else f


@ext("scipy.interpolate.CubicSpline")
def sp_cubic(I, args, kw):
    x, y = I.arr(args[0]), I.arr(args[1])
    if isinstance(x, PW) or isinstance(y, PW) or x.rank != 1:
        raise Unsupported("CubicSpline")
    opts = ",".join("%s=%s" % (k, I.res(kw[k])) for k in sorted(kw))
    tx = arr_term(x)

    def call(I2, args2, kw2):
        if kw2 or len(args2) != 1:
            raise Unsupported("CubicSpline arguments")
        q = I2.arr(args2[0])
        if isinstance(q, PW):
            raise Unsupported("CubicSpline")
        sh = q.shape + y.shape[1:]

        def f(*ix):
            col = ix[q.rank:]
            yc = arr_term(Arr((y.shape[0],), lambda i: y(i, *col)))
            return tm.mk("fn", "CubicSpline(%s)" % opts, tx, yc, q(*ix[:q.rank]))

        r = Arr(sh, f)
        return I2.new(r) if sh else r()

    return Prim("CubicSpline", call)


@ext("scipy.interpolate.splrep")
def sp_splrep(I, args, kw):
    key = []
    for a in args[:2]:
        v = I.res(a)
        if isinstance(v, Unk):
            return Unk("splrep")
        key.append(arr_term(I.arr(v)))
    opts = []
    ts = []
    for k in sorted(kw):
        v = I.res(kw[k])
        if k == "s" and v is ZERO:
            continue
        if isinstance(v, T):
            opts.append(k)
            ts.append(b2n(v) if v.isb else v)
        else:
            opts.append("%s=%s" % (k, v))
    return Abs("tck", {"key": key, "opts": tuple(opts), "ts": ts})


@ext("scipy.interpolate.splev")
def sp_splev(I, args, kw):
    x, tck = I.res(args[0]), I.res(args[1])
    der = arg(args, kw, 2, "der", ZERO)
    if isinstance(tck, IteV):
        return I.lift(tck, lambda t: sp_splev(I, [x, t] + args[2:], kw))
    if not isinstance(tck, Abs) or tck.name != "tck":
        return Unk("splev")
    if isinstance(x, Unk):
        return x
    d = I.scalar(der)
    name = "splev(%s)" % ",".join(tck.attrs["opts"])
    key, ts = tck.attrs["key"], tck.attrs["ts"]
    return I.elementwise(lambda t: tm.mk("fn", name, *key, *ts, d, t), [x])


@ext("scipy.special.roots_jacobi", "scipy.special.roots_legendre", "numpy.polynomial.legendre.leggauss")
def sp_roots(I, args, kw):
    n = I.scalar(args[0])
    a = [I.scalar(x) for x in args[1:]] + [ZERO, ZERO]
    a = a[:2]
    mkf = lambda nm: I.new(Arr((n,), lambda i: tm.mk("fn", nm, n, a[0], a[1], i), "float"))
    return Tup([mkf("jacobi_x"), mkf("jacobi_w")])


@ext("scipy.integrate.odeint")
def sp_odeint(I, args, kw):
    return Unk("odeint")


@ext("scipy.integrate.cumulative_trapezoid")
def sp_cumtrapz(I, args, kw):
    known(kw, "x", "initial", "dx")
    y = I.arr(args[0])
    x = I.arr(arg(args, kw, 1, "x"))
    if isinstance(y, PW) or y.rank != 1 or x.rank != 1:
        raise Unsupported("cumulative_trapezoid")
    init = I.res(kw.get("initial", NONE))

    def s(m):
        k = fresh("r", int=True, lo=0)
        return mk_sum(k, ZERO, m, div(mul(sub(x(add(k, ONE)), x(k)), add(y(add(k, ONE)), y(k))), num(2)))

    if init is NONE:
        return I.new(Arr((sub(y.shape[0], ONE),), lambda i: s(add(i, ONE))))
    v0 = I.scalar(init)
    return I.new(Arr(y.shape, lambda i: ite(eq(i, ZERO), v0, s(i)) if v0 is not ZERO else s(i)))


def _trapz(I, args, kw):
    y = I.arr(args[0])
    x = I.arr(arg(args, kw, 1, "x"))
    if isinstance(y, PW) or y.rank != 1 or x.rank != 1:
        raise Unsupported("trapezoid")
    k = fresh("r", int=True, lo=0)
    return mk_sum(k, ZERO, sub(y.shape[0], ONE), div(mul(sub(x(add(k, ONE)), x(k)), add(y(add(k, ONE)), y(k))), num(2)))


EXT["numpy.trapezoid"] = EXT["numpy.trapz"] = EXT["scipy.integrate.trapezoid"] = _trapz


@ext("sympy.Symbol")
def sy_symbol(I, args, kw):
    n = I.res(args[0])
    return tm.sym("sympy:" + n) if isinstance(n, str) else Unk("symbol")


@ext("sympy.symbols")
def sy_symbols(I, args, kw):
    n = I.res(args[0])
    out = [tm.sym("sympy:" + x) for x in n.replace(",", " ").split()]
    return Tup(out) if len(out) > 1 else out[0]


for k in ("sin", "cos", "sqrt", "exp", "log", "tan"):
    EXT["sympy." + k] = unary(UN[k])
EXT["sympy.atan2"] = binary(named("atan2"))
EXT["sympy.atan"] = unary(named("atan"))
EXT["sympy.Abs"] = unary(tm.absv)


def diff_term(t, x):
    """d t / d x."""
    if x not in free(t):
        return ZERO
    if t is x:
        return ONE
    if t.op == "poly":
        r = ZERO
        for m, c in t.args[0]:
            for j, (a, e) in enumerate(m):
                base = a.args[0] if a.op == "rad" else a
                d = diff_term(base, x)
                if d is ZERO:
                    continue
                rest = tm.mk_poly({tuple(q for k, q in enumerate(m) if k != j): c})
                p = tm.mk_poly({((a, e - 1),): F(1)}) if e != 1 else ONE
                r = add(r, mul(mul(num(e), mul(rest, p)), d))
        return r
    if t.op == "ite":
        return ite(t.args[0], diff_term(t.args[1], x), diff_term(t.args[2], x))
    if t.op == "rad":
        return diff_term(t.args[0], x)
    if t.op == "fn":
        n, a = t.args[0], t.args[1:]
        if n == "cos":
            return neg(mul(tm.sinv(a[0]), diff_term(a[0], x)))
        if n == "sin":
            return mul(tm.cosv(a[0]), diff_term(a[0], x))
        if n == "exp":
            return mul(t, diff_term(a[0], x))
        if n == "log":
            return div(diff_term(a[0], x), a[0])
        if n == "atan":
            return div(diff_term(a[0], x), add(ONE, mul(a[0], a[0])))
        if n == "atan2":
            y, z = a
            return div(sub(mul(z, diff_term(y, x)), mul(y, diff_term(z, x))), add(mul(z, z), mul(y, y)))
        if n == "pow" and x not in free(a[1]):
            return mul(mul(a[1], tm.power(a[0], sub(a[1], ONE))), diff_term(a[0], x))
    raise Unsupported("derivative of %s" % t.op)


@ext("sympy.diff")
def sy_diff(I, args, kw):
    t = I.res(args[0])
    if not isinstance(t, T):
        return Unk("diff")
    xs = [I.res(x) for x in args[1:]]
    for x in xs:
        if not isinstance(x, T) or x.op != "sym":
            return Unk("diff")
        t = diff_term(t, x)
    return t


def sy_subs(I, v, a):
    """sympy substitutes one pair after the other; the same here."""
    if len(a) == 2:
        pairs = [(a[0], a[1])]
    else:
        x = I.res(a[0])
        if isinstance(x, Ref) and isinstance(I.S.heap[x.loc], Dct):
            raise Unsupported("subs of a dict")
        pairs = []
        for it in I.const_items(a[0]):
            pairs.append(tuple(I.const_items(it)))
    for o, n in pairs:
        o, n = I.res(o), I.scalar(n)
        if not isinstance(o, T) or o.op != "sym":
            return Unk("subs")
        v = subst(v, {o: n})
    return v


@ext("sympy.lambdify")
def sy_lambdify(I, args, kw):
    vs = I.res(args[0])
    vs = [I.res(x) for x in (vs.items if isinstance(vs, Tup) else I.const_items(vs))] if not isinstance(vs, T) else [vs]
    e = I.res(args[1])
    if isinstance(e, IteV) or not isinstance(e, T) or any(not isinstance(v, T) for v in vs):
        return Unk("lambdify")

    def call(I2, a, k):
        if k or len(a) != len(vs):
            raise PyRaise("TypeError: lambdified function arguments")
        return I2.elementwise(lambda *ts: subst(e, dict(zip(vs, ts))), a)

    return Prim("lambdified", call)


@ext("sympy.factorial", "math.factorial")
def sy_factorial(I, args, kw):
    t = I.scalar(args[0])
    k = numval(t)
    if k is not None and k.denominator == 1 and 0 <= k <= 30:
        import math
        return num(math.factorial(int(k)))
    return tm.fn("factorial", t)


EXT["math.gamma"] = lambda I, a, k: sy_factorial(I, [sub(I.scalar(a[0]), ONE)], {})


@ext("sympy.Piecewise")
def sy_piecewise(I, args, kw):
    r = tm.sym("nan")
    for a in reversed(args):
        a = I.res(a)
        e, c = a.items
        r = ite(I.truth(c), I.scalar(e), r)
    return r


# --------------------------------------------------------------- builtins
def builtin(name):
    def d(f):
        ip.BUILTINS[name] = Prim("builtins." + name, f)
        EXT["builtins." + name] = f
        return f
    return d


@builtin("range")
def b_range(I, args, kw):
    a = [I.scalar(x) for x in args]
    if len(a) == 1:
        s, e, st = ZERO, a[0], ONE
    elif len(a) == 2:
        s, e, st = a[0], a[1], ONE
    else:
        s, e, st = a
    if st is ONE:
        n = sub(e, s)
    else:
        n = neg(tm.floor(neg(div(sub(e, s), st))))
    if n.op == "num" and numval(n) < 0:
        n = ZERO
    return I.new(Seq(n, lambda k: add(s, mul(st, k)))) if n.op != "num" or numval(n) > 2000 else \
        I.new(Lst([add(s, mul(st, num(k))) for k in range(int(numval(n)))]))


@builtin("len")
def b_len(I, args, kw):
    return I.lift(args[0], lambda v: _len(I, v))


def _len(I, v):
    if isinstance(v, str):
        return num(len(v))
    if isinstance(v, Tup):
        return num(len(v.items))
    if isinstance(v, Unk):
        return Unk("len")
    if isinstance(v, Ref):
        c = I.content(v)
        if isinstance(c, Lst):
            return num(len(c.items))
        if isinstance(c, Seq):
            return c.n
        if isinstance(c, Dct):
            return num(len(c.d))
        if isinstance(c, Arr):
            if c.rank == 0:
                raise PyRaise("TypeError: len of a scalar")
            if c.mask is not None:
                return EXT["numpy.sum"](I, [I.new(Arr(c.mask.shape, lambda *ix: b2n(n2b(c.mask(*ix)))))], {})
            return c.shape[0]
        if isinstance(c, PW):
            return tm.fn("len", tm.sym(c.tag))
        if isinstance(c, ObjC):
            m = I.class_member(c.cls, "__len__")
            if m is not None:
                return I.call(Bound(m, v), [], {})
    if isinstance(v, Iter):
        return v.n
    if isinstance(v, Abs) and "__len__" in v.attrs:
        return v.attrs["__len__"]
    if isinstance(v, ShapeV):
        return tm.fn("ndim_" + v.tag)
    if isinstance(v, T):
        raise PyRaise("TypeError: len of a scalar")
    return Unk("len")


@builtin("abs")
def b_abs(I, args, kw):
    return I.elementwise(tm.absv, args)


@builtin("int")
def b_int(I, args, kw):
    v = I.res(args[0])
    if isinstance(v, str):
        try:
            return num(int(v))
        except ValueError:
            raise PyRaise("ValueError: int")
    if isinstance(v, Unk):
        return v
    if v is NONE:
        raise PyRaise("TypeError: int(None)")
    return I.lift(v, lambda x: tm.trunc(I.scalar(x)))


@builtin("float")
def b_float(I, args, kw):
    v = I.res(args[0])
    if isinstance(v, str):
        try:
            return num(float(v))
        except ValueError:
            raise PyRaise("ValueError: float")
    if isinstance(v, Unk):
        return v
    if v is NONE:
        raise PyRaise("TypeError: float(None)")
    return I.lift(v, lambda x: I.scalar(x))


@builtin("bool")
def b_bool(I, args, kw):
    return I.truth(args[0]) if args else FALSE


@builtin("str")
def b_str(I, args, kw):
    s = I.to_str(args[0]) if args else ""
    return s if s is not None else Unk("str")


@builtin("repr")
def b_repr(I, args, kw):
    return Unk("repr")


@builtin("print")
def b_print(I, args, kw):
    return NONE


@builtin("tuple")
def b_tuple(I, args, kw):
    if not args:
        return Tup([])
    v = I.res(args[0])
    if isinstance(v, (ShapeV, ShapeCat, Tup)):
        return v
    if isinstance(v, Unk):
        return v
    return Tup(I.const_items(v))


@builtin("list")
def b_list(I, args, kw):
    if not args:
        return I.new(Lst([]))
    v = I.res(args[0])
    if isinstance(v, Unk):
        return v
    it = I.iterate(v)
    if it.n.op != "num":
        return I.new(Seq(it.n, it.get, it.split))
    return I.new(Lst(I.const_items(v)))


@builtin("set")
def b_set(I, args, kw):
    return b_list(I, args, kw)


ip.BUILTINS["frozenset"] = ip.BUILTINS["set"]


@builtin("dict")
def b_dict(I, args, kw):
    d = {}
    if args:
        v = I.res(args[0])
        c = I.content(v) if isinstance(v, Ref) else None
        if isinstance(c, Dct):
            d.update(c.d)
        else:
            for x in I.const_items(v):
                k, y = I.const_items(x)
                d[I.key(k)] = y
    d.update(kw)
    return I.new(Dct(d))


FOREVER = tm.sym("forever", int=True, lo=0)


@ext("itertools.repeat")
def it_repeat(I, args, kw):
    n = I.scalar(args[1]) if len(args) > 1 else FOREVER
    return I.new(Seq(n, lambda k, v=args[0]: v))


@ext("itertools.count")
def it_count(I, args, kw):
    a = I.scalar(args[0]) if args else ZERO
    b = I.scalar(args[1]) if len(args) > 1 else ONE
    return I.new(Seq(FOREVER, lambda k: add(a, mul(k, b))))


@builtin("zip")
def b_zip(I, args, kw):
    its = [I.iterate(a) for a in args]
    if not its:
        return I.new(Lst([]))
    ns = [it.n for it in its if it.n is not FOREVER]
    if not ns:
        raise Unsupported("endless zip")
    n = ns[0]
    for it in its[1:]:
        if it.n is n or it.n is FOREVER:
            continue
        if it.n.op == "num" and n.op == "num":
            n = num(min(numval(n), numval(it.n)))
        elif tm.nonneg(sub(it.n, n)):
            pass
        elif tm.nonneg(sub(n, it.n)):
            n = it.n
        else:
            n = tm.minv(n, it.n)
    get = lambda k: Tup([it.get(k) for it in its])
    if n.op == "num":
        return I.new(Lst([get(num(k)) for k in range(int(numval(n)))]))
    sp = next((it.split for it in its if it.split), None)
    return I.new(IterC(Iter(n, get, sp)))


@builtin("enumerate")
def b_enumerate(I, args, kw):
    it = I.iterate(args[0])
    s = I.scalar(arg(args, kw, 1, "start", ZERO))
    if it.n.op == "num":
        return I.new(Lst([Tup([add(s, num(k)), it.get(num(k))]) for k in range(int(numval(it.n)))]))
    return I.new(IterC(Iter(it.n, lambda k: Tup([add(s, k), it.get(k)]), it.split)))


@builtin("reversed")
def b_reversed(I, args, kw):
    it = I.iterate(args[0])
    if it.n.op == "num":
        return I.new(Lst(I.const_items(args[0])[::-1]))
    return I.new(IterC(Iter(it.n, lambda k: it.get(sub(sub(it.n, ONE), k)))))


@builtin("map")
def b_map(I, args, kw):
    its = [I.iterate(a) for a in args[1:]]
    n = its[0].n
    if n.op == "num":
        return I.new(Lst([I.call(args[0], [it.get(num(k)) for it in its], {}) for k in range(int(numval(n)))]))
    return I.new(IterC(Iter(n, lambda k: I.call(args[0], [it.get(k) for it in its], {}))))


@builtin("iter")
def b_iter(I, args, kw):
    return args[0]


@builtin("sum")
def b_sum(I, args, kw):
    it = I.iterate(args[0])
    r = arg(args, kw, 1, "start", ZERO)
    if it.n.op == "num":
        for x in I.const_items(args[0]):
            r = I.binop("Add", r, x)
        return r
    return I.binop("Add", r, EXT["numpy.sum"](I, [I.new(I.seq_arr(Seq(it.n, it.get)))], {"axis": ZERO}))


def _anyall(isany):
    def f(I, args, kw):
        it = I.iterate(args[0])
        if it.n.op == "num":
            ts = [I.truth(x) for x in I.const_items(args[0])]
            return b_or(*ts) if isany else b_and(*ts)
        k = fresh("r", int=True, lo=0, hi=it.n)
        t = I.truth(it.get(k))
        return mk_any(k, ZERO, it.n, t) if isany else b_not(mk_any(k, ZERO, it.n, b_not(t)))
    return f


builtin("any")(_anyall(True))
builtin("all")(_anyall(False))


def _minmax(f, name):
    def g(I, args, kw):
        if kw:
            return Unk(name)
        items = args if len(args) > 1 else None
        if items is None:
            it = I.iterate(args[0])
            if it.n.op != "num":
                return EXT["numpy." + name](I, [I.new(I.seq_arr(Seq(it.n, it.get)))], {})
            items = I.const_items(args[0])
        items = [I.res(x) for x in items]
        if any(isinstance(x, Unk) for x in items):
            return Unk(name)
        r = I.scalar(items[0])
        for x in items[1:]:
            r = f(r, I.scalar(x))
        return r
    return g


builtin("max")(_minmax(lambda a, b: tm.maxv(a, b), "max"))
builtin("min")(_minmax(lambda a, b: tm.minv(a, b), "min"))


@builtin("round")
def b_round(I, args, kw):
    t = I.scalar(args[0])
    return tm.fn("round", t) if not tm.is_int(t) else t


@builtin("pow")
def b_pow(I, args, kw):
    return I.binop("Pow", args[0], args[1])


@builtin("divmod")
def b_divmod(I, args, kw):
    return Tup([I.binop("FloorDiv", *args), I.binop("Mod", *args)])


@builtin("sorted")
def b_sorted(I, args, kw):
    items = I.const_items(args[0])
    if kw:
        return Unk("sorted")
    if all(isinstance(x, str) for x in items):
        return I.new(Lst(sorted(items)))
    if all(isinstance(x, T) and x.op == "num" for x in items):
        return I.new(Lst(sorted(items, key=lambda t: t.args[0])))
    if all(isinstance(x, T) and not x.isb for x in items) and sorted_terms(items) is not None:
        return I.new(Lst(sorted_terms(items)))
    return Unk("sorted")


@builtin("isinstance")
def b_isinstance(I, args, kw):
    v, c = I.res(args[0]), I.res(args[1])
    if isinstance(v, IteV):
        return ite(v.c, b_isinstance(I, [v.a, c], {}), b_isinstance(I, [v.b, c], {}))
    if isinstance(c, Tup):
        return b_or(*[b_isinstance(I, [v, x], {}) for x in c.items])
    n = None
    if isinstance(c, Prim):
        n = c.name.split(".")[-1]
    elif isinstance(c, Ext):
        n = canon(c.path)
    if isinstance(v, Unk):
        return opaque("isinstance", isb=True)
    if isinstance(v, T):
        if n == "int":
            return TRUE if v.isb or tm.is_int(v) else FALSE
        if n == "float":
            return FALSE if v.isb or tm.is_int(v) and v.op == "num" else TRUE
        if n == "bool":
            return TRUE if v.isb else FALSE
        return FALSE
    if isinstance(v, str):
        return TRUE if n == "str" else FALSE
    if isinstance(v, Tup):
        return TRUE if n == "tuple" else FALSE
    if isinstance(v, SliceV):
        return TRUE if n == "slice" else FALSE
    if isinstance(v, Abs):
        if "$isinstance" in v.attrs:
            return v.attrs["$isinstance"](I, c)
        if isinstance(c, ClassV):
            return TRUE if v.cls and any(k.name == c.name for k in (v.cls.mro() if isinstance(v.cls, ClassV) else [])) else FALSE
        return TRUE if v.cls == n else FALSE
    if isinstance(v, Ref):
        k = I.S.heap[v.loc]
        if isinstance(k, CondC):
            k = I.res_content(k)
        if isinstance(k, (Arr, PW, ViewC)):
            return TRUE if n == "numpy.ndarray" else FALSE
        if isinstance(k, (Lst, Seq, LstMu)):
            return TRUE if n == "list" else FALSE
        if isinstance(k, Dct):
            return TRUE if n == "dict" else FALSE
        if isinstance(k, ObjC):
            if isinstance(c, ClassV):
                return TRUE if I.is_subclass(k.cls, c) else FALSE
            return FALSE
        return opaque("isinstance", isb=True)
    if v is NONE:
        return FALSE
    return opaque("isinstance", isb=True)


@builtin("hasattr")
def b_hasattr(I, args, kw):
    v, n = I.res(args[0]), I.res(args[1])
    if isinstance(v, IteV):
        return ite(v.c, b_hasattr(I, [v.a, n], {}), b_hasattr(I, [v.b, n], {}))
    if isinstance(v, Abs):
        return TRUE if n in v.attrs else FALSE
    if isinstance(v, Ref) and isinstance(I.S.heap[v.loc], ObjC):
        c = I.S.heap[v.loc]
        if n in c.attrs:
            return I.present(c.attrs[n])
        return TRUE if I.class_member(c.cls, n) is not None else FALSE
    if isinstance(v, Unk):
        return opaque("hasattr", isb=True)
    try:
        r = I.getattr(v, n)
    except PyRaise:
        return FALSE
    return opaque("hasattr", isb=True) if isinstance(r, Unk) else TRUE


@builtin("getattr")
def b_getattr(I, args, kw):
    n = I.res(args[1])
    if not isinstance(n, str):
        return Unk("getattr")
    return I.getattr(args[0], n, args[2] if len(args) > 2 else None)


@builtin("setattr")
def b_setattr(I, args, kw):
    n = I.res(args[1])
    if not isinstance(n, str):
        raise Unsupported("setattr")
    I.setattr(args[0], n, args[2])
    return NONE


@builtin("slice")
def b_slice(I, args, kw):
    a = list(args)
    if len(a) == 1:
        return SliceV(NONE, a[0], NONE)
    return SliceV(*(a + [NONE] * (3 - len(a))))


@builtin("callable")
def b_callable(I, args, kw):
    v = I.res(args[0])
    if isinstance(v, (Fn, Bound, Prim, ClassV, Ext)):
        return TRUE
    return opaque("callable", isb=True) if isinstance(v, Unk) else FALSE


@builtin("type")
def b_type(I, args, kw):
    v = I.res(args[0])
    if isinstance(v, Ref) and isinstance(I.S.heap[v.loc], ObjC):
        return I.S.heap[v.loc].cls
    return Unk("type")


@builtin("id")
def b_id(I, args, kw):
    return Unk("id")


@builtin("open")
def b_open(I, args, kw):
    return Unk("file")


@builtin("hash")
def b_hash(I, args, kw):
    return Unk("hash")


@builtin("input")
def b_input(I, args, kw):
    return Unk("input")


@builtin("next")
def b_next(I, args, kw):
    it = I.iterate(args[0])
    return it.get(ZERO)


@builtin("filter")
def b_filter(I, args, kw):
    out = []
    for x in I.const_items(args[1]):
        c = I.truth(I.call(args[0], [x], {}) if I.res(args[0]) is not NONE else x)
        if c is TRUE:
            out.append(x)
        elif c is not FALSE:
            raise Unsupported("filter")
    return I.new(Lst(out))


for _e in ("ValueError", "TypeError", "KeyError", "IndexError", "RuntimeError", "Exception", "ImportError", "OSError",
           "NotImplementedError", "AttributeError", "AssertionError", "ModuleNotFoundError", "FileNotFoundError",
           "IOError", "ZeroDivisionError", "StopIteration", "Warning", "UserWarning", "DeprecationWarning",
           "RuntimeWarning", "object", "property", "staticmethod", "classmethod", "complex", "bytes", "super",
           "vars", "dir", "globals", "locals", "exec", "eval", "format", "chr", "ord", "NotImplemented", "Ellipsis"):
    ip.BUILTINS.setdefault(_e, Ext("builtins." + _e))


@ext("itertools.chain")
def it_chain(I, args, kw):
    its = [I.iterate(a) for a in args]
    if all(it.n.op == "num" for it in its):
        out = []
        for it in its:
            out.extend(it.get(num(k)) for k in range(int(numval(it.n))))
        return I.new(Lst(out))
    r = None
    for it in its:
        s = Seq(it.n, it.get)
        r = s if r is None else I.seq_concat(r, s)
    return I.new(r)


@ext("itertools.product")
def it_product(I, args, kw):
    its = [I.iterate(a) for a in args]
    if all(it.n.op == "num" for it in its):
        import itertools
        out = [Tup(x) for x in itertools.product(*[[it.get(num(k)) for k in range(int(numval(it.n)))] for it in its])]
        return I.new(Lst(out))
    sh = tuple(it.n for it in its)

    def get(k):
        ix = unflatten(k, sh)
        return Tup([it.get(j) for it, j in zip(its, ix)])

    return I.new(IterC(Iter(prod(sh), get)))


@ext("collections.namedtuple")
def co_namedtuple(I, args, kw):
    name = I.res(args[0])
    f = I.res(args[1])
    if isinstance(f, str):
        fields = f.replace(",", " ").split()
    else:
        fields = [I.res(x) for x in I.const_items(f)]

    def make(I2, a, k):
        items = list(a)
        for n in fields[len(items):]:
            if n not in k:
                raise PyRaise("TypeError: missing field " + n)
            items.append(k[n])
        if len(items) != len(fields):
            raise PyRaise("TypeError: namedtuple fields")
        return Tup(items, tuple(fields), name)

    return Prim(str(name), make)


@ext("functools.partial")
def ft_partial(I, args, kw):
    f, a0, k0 = args[0], list(args[1:]), dict(kw)
    return Prim("partial", lambda I2, a, k: I2.call(f, a0 + list(a), {**k0, **k}))


@ext("warnings.warn")
def w_warn(I, args, kw):
    return NONE


# ------------------------------------------------------------- attributes
def list_append(I, v, x):
    c = I.S.heap[v.loc]
    if isinstance(c, CondC):
        c = I.res_content(c)
    if isinstance(c, Lst):
        I.S.heap[v.loc] = Lst(c.items + [x])
    elif isinstance(c, LstMu):
        I.S.heap[v.loc] = LstMu(c.key, c.items + [x], c.init)
    elif isinstance(c, Seq):
        I.S.heap[v.loc] = I.seq_concat(c, Lst([x]))
    elif isinstance(c, UnkC):
        pass
    else:
        raise Unsupported("append to %s" % type(c).__name__)


def bound(name, f):
    return Prim(name, f)


def array_attr(I, v, c, name):
    """Attributes of arrays, lists, dictionaries."""
    if isinstance(c, Dct):
        return dict_attr(I, v, c, name)
    if isinstance(c, (Lst, Seq, LstMu)):
        return list_attr(I, v, c, name)
    if isinstance(c, IterC):
        return None
    if isinstance(c, CondC):
        if name in ("append", "keys", "items", "values", "get"):
            return Prim(name, lambda I2, a, k: _cond_method(I2, v, c, name, a, k))
        raise Unsupported("attribute of joined container")
    a = I.content(v)
    if isinstance(a, PW):
        if name == "shape":
            return ShapeV(a.tag)
        if name == "size":
            return tm.fn("size", tm.sym(a.tag))
        if name == "ndim":
            return tm.fn("ndim_" + a.tag)
        if name == "dtype":
            return Ext("builtins." + (a.dt or "float"))
        if name == "T":
            raise Unsupported("transpose")
    elif isinstance(a, Arr):
        if name == "shape":
            if a.mask is not None:
                raise Unsupported("shape of masked")
            return Tup(a.shape)
        if name == "size":
            if a.mask is not None:
                return Unk("size of masked")
            return prod(a.shape)
        if name == "ndim":
            return num(a.rank)
        if name == "T":
            return np_transpose(I, [v], {})
        if name == "flat":
            return I.new(flat(I, a))
        if name == "dtype":
            return Ext("builtins." + (a.dt or "float"))
    if name in ("real", "base", "data"):
        return v
    h = METH.get(name)
    if h is not None:
        return Prim(name, lambda I2, args, kw: h(I2, v, args, kw))
    p = "numpy." + name
    if canon(p) in EXT and name not in ("array",):
        return Prim(name, lambda I2, args, kw: EXT[canon(p)](I2, [v] + list(args), kw))
    return None


def _cond_method(I, v, c, name, args, kw):
    cc = I.res_content(c)

    def sel(which):
        def go():
            I.S.heap[v.loc] = which
            return I.call(I.getattr(v, name), args, kw)
        return go
    if not isinstance(cc, CondC):
        return sel(cc)()
    return I.branch(cc.c, sel(cc.a), sel(cc.b))


@meth("reshape")
def m_reshape(I, v, args, kw):
    if "order" in kw:
        raise Unsupported("order")
    return do_reshape(I, v, args)


@meth("flatten", "ravel")
def m_flatten(I, v, args, kw):
    if args or kw:
        raise Unsupported("flatten order")
    return np_ravel(I, [v], {})


@meth("copy")
def m_copy(I, v, args, kw):
    return do_copy(I, v)


@meth("astype")
def m_astype(I, v, args, kw):
    dt = dtype_of(I, arg(args, kw, 0, "dtype"))
    a = I.arr(v)
    if isinstance(a, PW):
        return I.new(PW(I.cast(a.t, dt), dt, a.mask, a.tag))
    return I.new(Arr(a.shape, lambda *ix: I.cast(a(*ix), dt), dt, a.mask))


@meth("transpose")
def m_transpose(I, v, args, kw):
    if not args:
        return np_transpose(I, [v], {})
    if len(args) == 1:
        return np_transpose(I, [v, args[0]], {})
    return np_transpose(I, [v, Tup(args)], {})


@meth("fill")
def m_fill(I, v, args, kw):
    I.setitem(v, ELLIPSIS, args[0])
    return NONE


@meth("item", "tolist", "conj", "conjugate", "squeeze")
def m_item(I, v, args, kw):
    raise Unsupported("array method")


METH["conj"] = METH["conjugate"] = lambda I, v, a, k: v
METH["squeeze"] = lambda I, v, a, k: np_squeeze(I, [v], {})
METH["tolist"] = lambda I, v, a, k: v
METH["item"] = lambda I, v, a, k: I.scalar(v) if not a else I.getitem(v, a[0])


@meth("sort")
def m_sort(I, v, args, kw):
    r = np_sort(I, [v], {})
    if isinstance(r, Ref):
        I.put(v.loc, I.content(r))
    return NONE


@meth("clip")
def m_clip(I, v, args, kw):
    return clip(I, v, arg(args, kw, 0, "min"), arg(args, kw, 1, "max"))


@meth("dot")
def m_dot(I, v, args, kw):
    return matmul(I, [v] + list(args), {}, True)


@meth("put", "partition", "resize", "itemset", "setflags", "byteswap")
def m_mut(I, v, args, kw):
    I.taint(v, "mutating method")
    return NONE


def dict_attr(I, v, c, name):
    def P(f):
        return Prim("dict." + name, f)

    def live(I2):
        d = I2.content(v)
        if not isinstance(d, Dct):
            raise Unsupported("dict")
        return d

    if name == "get":
        def g(I2, a, k):
            d = live(I2)
            kk = I2.key(a[0])
            default = arg(a, k, 1, "default")
            if kk not in d.d:
                return default
            x = d.d[kk]
            p = I2.under_pc(I2.present(x))
            if p is TRUE:
                return I2.res(x)
            if p is FALSE:
                return default
            return I2.merge_val(p, _strip(x), default)
        return P(g)
    if name == "keys":
        return P(lambda I2, a, k: I2.new(Lst([I2.unkey(q) for q, x in live(I2).d.items() if I2.res(x) is not MISSING])))
    if name == "values":
        return P(lambda I2, a, k: I2.new(Lst([I2.res(x) for x in live(I2).d.values() if I2.res(x) is not MISSING])))
    if name == "items":
        def g(I2, a, k):
            out = []
            for q, x in live(I2).d.items():
                x = I2.res(x)
                if x is MISSING:
                    continue
                out.append(Tup([I2.unkey(q), x]))
            return I2.new(Lst(out))
        return P(g)
    if name == "copy":
        return P(lambda I2, a, k: I2.new(Dct(live(I2).d)))
    if name == "update":
        def g(I2, a, k):
            d = dict(live(I2).d)
            if a:
                o = I2.content(I2.res(a[0]))
                if not isinstance(o, Dct):
                    raise Unsupported("update")
                d.update(o.d)
            d.update(k)
            I2.S.heap[v.loc] = Dct(d)
            return NONE
        return P(g)
    if name == "pop":
        def g(I2, a, k):
            d = dict(live(I2).d)
            kk = I2.key(a[0])
            if kk in d:
                x = d.pop(kk)
                I2.S.heap[v.loc] = Dct(d)
                return I2.res(x)
            if len(a) > 1:
                return a[1]
            raise PyRaise("KeyError: %s" % (kk,))
        return P(g)
    if name == "setdefault":
        def g(I2, a, k):
            d = dict(live(I2).d)
            kk = I2.key(a[0])
            if kk in d:
                return I2.res(d[kk])
            d[kk] = arg(a, k, 1, "default")
            I2.S.heap[v.loc] = Dct(d)
            return d[kk]
        return P(g)
    if name == "clear":
        def g(I2, a, k):
            I2.S.heap[v.loc] = Dct({})
            return NONE
        return P(g)
    return None


def _strip(x):
    while isinstance(x, IteV):
        if x.a is MISSING:
            x = x.b
        elif x.b is MISSING:
            x = x.a
        else:
            return x
    return x


def list_attr(I, v, c, name):
    def P(f):
        return Prim("list." + name, f)

    if name == "append":
        def g(I2, a, k):
            list_append(I2, v, a[0])
            return NONE
        return P(g)
    if name == "add":
        def g(I2, a, k):
            list_append(I2, v, a[0])
            return NONE
        return P(g)
    if name == "extend":
        def g(I2, a, k):
            it = I2.iterate(a[0])
            if it.n.op == "num":
                for x in I2.const_items(a[0]):
                    list_append(I2, v, x)
            else:
                I2.S.heap[v.loc] = I2.seq_concat(I2.S.heap[v.loc], Seq(it.n, it.get))
            return NONE
        return P(g)
    if name == "copy":
        return P(lambda I2, a, k: do_copy(I2, v))
    if name == "insert":
        def g(I2, a, k):
            cc = I2.content(v)
            if not isinstance(cc, Lst):
                raise Unsupported("insert")
            i = numval(I2.scalar(a[0]))
            if i is None:
                raise Unsupported("insert")
            it = list(cc.items)
            it.insert(int(i), a[1])
            I2.S.heap[v.loc] = Lst(it)
            return NONE
        return P(g)
    if name == "pop":
        def g(I2, a, k):
            cc = I2.content(v)
            if not isinstance(cc, Lst):
                raise Unsupported("pop")
            it = list(cc.items)
            i = -1 if not a else int(numval(I2.scalar(a[0])))
            if not it:
                raise PyRaise("IndexError")
            x = it.pop(i)
            I2.S.heap[v.loc] = Lst(it)
            return x
        return P(g)
    if name == "reverse":
        def g(I2, a, k):
            cc = I2.content(v)
            if not isinstance(cc, Lst):
                raise Unsupported("reverse")
            I2.S.heap[v.loc] = Lst(cc.items[::-1])
            return NONE
        return P(g)
    if name in ("sort", "remove", "clear"):
        def g(I2, a, k):
            if name == "sort" and not k:
                r = b_sorted(I2, [v], {})
                if isinstance(r, Ref):
                    I2.S.heap[v.loc] = I2.content(r)
                    return NONE
            raise Unsupported("list." + name)
        return P(g)
    if name == "index":
        def g(I2, a, k):
            for q, x in enumerate(I2.const_items(v)):
                e = I2.values_equal(I2.res(x), I2.res(a[0]))
                if e is TRUE:
                    return num(q)
                if e is not FALSE:
                    raise Unsupported("index")
            raise PyRaise("ValueError: index")
        return P(g)
    if name == "shape" or name in ("T", "reshape", "flatten"):
        # an array assembled from points of unknown shape
        return None
    return None


def scalar_attr(I, v, name):
    if isinstance(v, T):
        if name == "shape":
            return Tup([])
        if name == "size":
            return ONE
        if name == "ndim":
            return ZERO
        if name == "dtype":
            return Ext("builtins." + ("bool" if v.isb else "int" if v.op == "num" and numval(v) == int(numval(v)) else "float"))
        if name in ("T", "real"):
            return v
        if name in ("copy", "item", "flatten", "conj", "tolist"):
            return Prim(name, lambda I2, a, k: v)
        if name in ("any", "all"):
            return Prim(name, lambda I2, a, k: n2b(v))
        if name in ("sum", "max", "min", "mean"):
            return Prim(name, lambda I2, a, k: v)
        if name == "astype":
            return Prim(name, lambda I2, a, k: I2.cast(v, dtype_of(I2, a[0])))
        if name == "is_integer":
            return Prim(name, lambda I2, a, k: eq(v, tm.floor(v)))
        if name in ("doit", "simplify", "expand", "evalf"):
            return Prim(name, lambda I2, a, k: v)
        if name == "diff":
            return Prim(name, lambda I2, a, k: sy_diff(I2, [v] + list(a), k))
        if name == "subs":
            return Prim(name, lambda I2, a, k: sy_subs(I2, v, a))
        return None
    if isinstance(v, str):
        def P(f):
            def g(I2, a, k):
                a = [I2.res(x) for x in a]
                try:
                    pa = []
                    for x in a:
                        if isinstance(x, str):
                            pa.append(x)
                        elif isinstance(x, T) and x.op == "num":
                            q = x.args[0]
                            pa.append(int(q) if q.denominator == 1 else float(q))
                        elif isinstance(x, Tup) and all(isinstance(z, str) for z in x.items):
                            pa.append(tuple(x.items))
                        else:
                            return Unk("string method")
                    pk = {}
                    for q, x in k.items():
                        x = I2.res(x)
                        if isinstance(x, str):
                            pk[q] = x
                        elif isinstance(x, T) and x.op == "num":
                            f0 = x.args[0]
                            pk[q] = int(f0) if f0.denominator == 1 else float(f0)
                        else:
                            return Unk("string method")
                    r = getattr(v, name)(*pa, **pk)
                except (TypeError, ValueError, IndexError, KeyError):
                    return Unk("string method")
                if isinstance(r, bool):
                    return TRUE if r else FALSE
                if isinstance(r, int):
                    return num(r)
                if isinstance(r, list):
                    return I2.new(Lst(r))
                if isinstance(r, str):
                    return r
                return Unk("string method")
            return Prim("str." + name, g)
        if name in ("encode", "decode") and I.tokens:
            return Prim("str." + name, lambda I2, a, k: v)
        if name == "format" and I.tokens:
            def g(I2, a, k):
                import string
                out, auto = [], 0
                for lit, field, spec, conv in string.Formatter().parse(v):
                    out.append(lit)
                    if field is None:
                        continue
                    if field == "":
                        x, auto = a[auto], auto + 1
                    elif field.isdigit():
                        x = a[int(field)]
                    elif field in k:
                        x = k[field]
                    else:
                        return Unk("format")
                    t = I2.token(x, spec) if spec else I2.to_str(x)
                    if t is None:
                        return Unk("format")
                    out.append(t)
                return "".join(out)
            return Prim("str.format", g)
        if name == "join":
            def g(I2, a, k):
                items = [I2.res(x) for x in I2.const_items(a[0])]
                if all(isinstance(x, str) for x in items):
                    return v.join(items)
                return Unk("join")
            return Prim("str.join", g)
        if hasattr(v, name):
            return P(name)
        return None
    if isinstance(v, bytes) and I.tokens:
        return scalar_attr(I, v.decode("latin1"), name)
    return None


def shape_item(I, v, ix):
    if isinstance(ix, SliceV):
        return ShapeCat(v, ix)
    if isinstance(ix, T):
        return tm.fn("dim_" + v.tag, ix)
    raise Unsupported("shape index")


def OBJ_AS_ARRAY(I, v, c):
    return None


def OBJ_ITER(I, v, c):
    return None


def EXTOBJ_ATTR(I, v, c, name):
    return None


def EXTOBJ_ITEM(I, v, c, ix):
    return None


def EXTOBJ_CALL(I, f, c, args, kw):
    return None


def EXTOBJ_ENTER(I, v, c):
    return None
