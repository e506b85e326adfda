"""Value-flow analysis of Python source.

Every function is analysed flow-sensitively over an abstract state (local
frames and a heap) whose values are value numbers (terms.py).  Branches are
joined by gating, helpers are inlined, arrays are index functions, loops of
unknown length are summarised (accumulations, last values, element-wise
stores) and never executed.  Whatever is not understood becomes an opaque
value, about which nothing is claimed.
"""
import ast
import os

from . import terms as tm
from .terms import (T, num, ite, ZERO, ONE, TRUE, FALSE, add, sub, mul, div, neg, lt, le, eq, lt0, eq0,
                    b_not, b_and, b_or, n2b, b2n, subst, free, numval, mk_sum, mk_any, fresh)
from .values import *  # noqa
from .values import Unsupported, opaque, is_opaque, is_array


class PyRaise(Exception):
    """The analysed code certainly raises here."""

    def __init__(self, name, node=None):
        Exception.__init__(self, name)
        self.name = name
        self.node = node


class State:
    __slots__ = ("heap", "frames", "pc")

    def __init__(self, heap, frames, pc):
        self.heap, self.frames, self.pc = heap, frames, pc

    def copy(self):
        return State(dict(self.heap), {k: dict(v) for k, v in self.frames.items()}, self.pc)


class Out:
    __slots__ = ("kind", "S", "val")

    def __init__(self, kind, S, val=None):
        self.kind, self.S, self.val = kind, S, val


class CondC:
    """Gated join of heap contents without a common form."""

    __slots__ = ("c", "a", "b")

    def __init__(self, c, a, b):
        self.c, self.a, self.b = c, a, b


class LstMu:
    """List at the start of an unknown iteration of a loop which appends."""

    __slots__ = ("key", "items", "init")

    def __init__(self, key, items=(), init=None):
        self.key, self.items, self.init = key, list(items), init


class Undef:
    """Loop-carried value which is only meaningful after its first assignment."""

    def __repr__(self):
        return "<undef>"


UNDEF = Undef()


class Iter:
    """Iterable of n elements."""

    def __init__(self, n, get, split=None):
        self.n, self.get, self.split = n, get, split


class Module:
    def __init__(self, name, path, tree):
        self.name, self.path, self.tree = name, path, tree
        self.binds = {}
        self.cache = {}
        for st in tree.body:
            self._collect(st)

    def _collect(self, st):
        if isinstance(st, (ast.FunctionDef, ast.ClassDef)):
            self.binds.setdefault(st.name, []).append(st)
        elif isinstance(st, ast.Import):
            for a in st.names:
                self.binds.setdefault((a.asname or a.name).split(".")[0], []).append((st, a))
        elif isinstance(st, ast.ImportFrom):
            for a in st.names:
                self.binds.setdefault(a.asname or a.name, []).append((st, a))
        elif isinstance(st, (ast.Assign, ast.AnnAssign)):
            tg = st.targets if isinstance(st, ast.Assign) else [st.target]
            for t in tg:
                for n in ast.walk(t):
                    if isinstance(n, ast.Name):
                        self.binds.setdefault(n.id, []).append(st)
        elif isinstance(st, ast.Try):
            for b in (st.body, st.orelse, st.finalbody):
                for s in b:
                    self._collect(s)
            for h in st.handlers:
                for s in h.body:
                    if isinstance(s, (ast.FunctionDef, ast.ClassDef)):
                        if s.name not in self.binds:
                            self._collect(s)
                    else:
                        for n in ast.walk(s):
                            if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store) and n.id not in self.binds:
                                self._collect(s)
        elif isinstance(st, ast.If):
            t = st.test
            if isinstance(t, ast.Compare) and isinstance(t.left, ast.Name) and t.left.id == "__name__":
                return
            for b in (st.body, st.orelse):
                for s in b:
                    self._collect(s)


class Program:
    """Parsed source tree of the package."""

    def __init__(self, root="/repo", package="zoidberg"):
        self.root, self.package = root, package
        self.mods = {}
        self.errors = []

    def load(self, name):
        if name in self.mods:
            return self.mods[name]
        base = os.path.join(self.root, *name.split("."))
        path = base + ".py"
        if os.path.isdir(base):
            path = os.path.join(base, "__init__.py")
        if not os.path.exists(path):
            self.mods[name] = None
            return None
        src = open(path, encoding="utf-8").read()
        m = Module(name, path, ast.parse(src, path))
        self.mods[name] = m
        return m

    def add_source(self, name, src, path="<spec>"):
        m = Module(name, path, ast.parse(src, path))
        self.mods[name] = m
        return m

    def relpath(self, path):
        return os.path.relpath(path, self.root)


def ite_leaves(t, guard=TRUE, out=None):
    if out is None:
        out = []
    if t.op == "ite":
        ite_leaves(t.args[1], b_and(guard, t.args[0]), out)
        ite_leaves(t.args[2], b_and(guard, b_not(t.args[0])), out)
    else:
        if guard is not FALSE:
            out.append((guard, t))
    if len(out) > 64:
        raise Unsupported("too many cases")
    return out


def ite_map(t, f):
    if t.op == "ite":
        return ite(t.args[0], ite_map(t.args[1], f), ite_map(t.args[2], f))
    return f(t)


MAXUNROLL = 90
BUILTINS = {}


class Interp:
    def __init__(self, prog, overrides=None, on_while=None):
        self.prog = prog
        self.generics = {}  # size of an axis -> generic index along it
        self.overridden = set()  # overrides that were called
        self.overrides = {}
        for q, pr in (overrides or {}).items():
            self.overrides[q] = self._tracked(q, pr) if isinstance(pr, Prim) else pr
        self.on_while = on_while
        self.tokens = False  # text of a symbolic number is a token that stands for it
        self.on_iteration = None
        self.repeated = None  # loops with so many turns are summarised by their last one
        self.iterations = None  # list: while loops are summarised by their last iteration
        self.S = State({}, {}, ())
        self.nloc = 0
        self.nfid = 0
        self.fmeta = {}
        self.depth = 0
        self.cstack = []
        self.funcs = set()
        self.sites = 0
        self.stmts = 0
        self.loops = 0
        self.raises = []
        self.trace = []
        self.node = None
        self.steps = 0
        self.limit = 400000
        self.loopdepth = 0
        from . import npmodel

        self.np = npmodel

    # ------------------------------------------------------------ utilities
    def _tracked(self, q, pr):
        def f(I, args, kw):
            self.overridden.add(q)
            return pr.f(I, args, kw)

        return Prim(pr.name, f)

    def need_overrides(self):
        """The specification's abstractions are in the data flow."""
        for q in self.overrides:
            if q not in self.overridden:
                raise Unsupported("%s is not used" % q)

    def new(self, content):
        self.nloc += 1
        self.S.heap[self.nloc] = content
        return Ref(self.nloc)

    def frame(self, parent, mod):
        self.nfid += 1
        self.S.frames[self.nfid] = {}
        self.fmeta[self.nfid] = (parent, mod)
        return self.nfid

    def facts(self):
        return list(self.S.pc)

    def push(self, c):
        if c is TRUE:
            return
        if c.op == "and":
            self.S.pc = self.S.pc + tuple(x for x in c.args if x not in self.S.pc)
        elif c not in self.S.pc:
            self.S.pc = self.S.pc + (c,)

    def under_pc(self, c):
        """Simplify a condition by the conditions which hold here."""
        if c is TRUE or c is FALSE:
            return c
        pc = self.S.pc
        if not pc:
            return c
        if c in pc:
            return TRUE
        if b_not(c) in pc:
            return FALSE
        m = {}
        for p in pc:
            if p.op == "not":
                m[p.args[0]] = FALSE
            elif p.op in ("lt0", "eq0", "bfn", "any", "or"):
                m[p] = TRUE
        if c.op in ("and", "or", "not"):
            parts = set(c.args)
            if any(k in parts for k in m) or any(x.op == "not" and x.args[0] in m for x in parts):
                return subst(c, m)
        return c

    # contents
    def content(self, v):
        """Heap content of a reference, with views resolved to arrays."""
        if isinstance(v, IteV):
            v = self.res(v)
        if isinstance(v, IteV):
            a, b = self.content(v.a), self.content(v.b)
            return self.merge_content(v.c, a, b)
        if not isinstance(v, Ref):
            raise Unsupported("not a reference: %r" % (v,))
        c = self.S.heap[v.loc]
        if isinstance(c, ViewC):
            return self.view_arr(c)
        if isinstance(c, CondC):
            c = self.res_content(c)
        return c

    def res_content(self, c):
        while isinstance(c, CondC):
            g = self.under_pc(c.c)
            if g is TRUE:
                c = c.a
            elif g is FALSE:
                c = c.b
            else:
                break
        return c

    def res(self, v):
        while isinstance(v, IteV):
            c = self.under_pc(v.c)
            if c is TRUE:
                v = v.a
            elif c is FALSE:
                v = v.b
            elif v.a is MISSING:
                v = v.b
            elif v.b is MISSING:
                v = v.a
            elif v.a is UNDEF:
                v = v.b
            elif v.b is UNDEF:
                v = v.a
            else:
                break
        return v

    def view_arr(self, vc):
        base = self.S.heap[vc.base]
        if isinstance(base, ViewC):
            base = self.view_arr(base)
        if isinstance(base, CondC):
            base = self.res_content(base)
        if not isinstance(base, Arr):
            raise Unsupported("view of %r" % type(base).__name__)
        axes = vc.axes

        def f(*ix):
            full = []
            for a in axes:
                if a[0] == "i":
                    full.append(a[1])
                else:
                    full.append(add(a[1], mul(a[2], ix[a[4]])) if a[2] is not ONE else add(a[1], ix[a[4]]))
            return base(*full)

        return Arr(vc.shape, f, base.dt)

    def arr(self, v, why="array"):
        """Numeric array view of a value: Arr or PW (scalars: rank 0)."""
        v = self.res(v)
        if isinstance(v, T):
            return Arr((), lambda: v)
        if isinstance(v, IteV):
            a, b = self.arr(v.a), self.arr(v.b)
            return self.merge_content(v.c, a, b)
        if isinstance(v, (Arr, PW)):
            return v
        if isinstance(v, Tup):
            return self.stack([self.arr(x) for x in v.items])
        if isinstance(v, Ref):
            c = self.content(v)
            if isinstance(c, (Arr, PW)):
                return c
            if isinstance(c, Lst):
                return self.stack([self.arr(x) for x in c.items])
            if isinstance(c, Seq):
                return self.seq_arr(c)
            if isinstance(c, ObjC):
                h = self.np.OBJ_AS_ARRAY(self, v, c)
                if h is not None:
                    return h
            if isinstance(c, UnkC):
                raise Unsupported("unknown value used as %s: %s" % (why, c.why))
        if isinstance(v, Unk):
            raise Unsupported("unknown value used as %s: %s" % (why, v.why))
        raise Unsupported("%r used as %s" % (v, why))

    def arr_gated(self, v):
        """Array of a value to be broadcast; a scalar alternative takes the shape of the other."""
        v = self.res(v)
        if isinstance(v, IteV):
            a, b = self.arr_gated(v.a), self.arr_gated(v.b)
            if isinstance(a, Arr) and isinstance(b, Arr) and (a.rank == 0) != (b.rank == 0) and a.mask is None and b.mask is None:
                sh = b.shape if a.rank == 0 else a.shape
                return Arr(sh, lambda *ix: ite(v.c, a(*ix) if a.rank else a(), b(*ix) if b.rank else b()))
            return self.merge_content(v.c, a, b)
        return self.arr(v, "stored value")

    def stack(self, arrs):
        """np.array of a list of arrays."""
        if not arrs:
            return Arr((ZERO,), lambda i: ZERO)
        if any(isinstance(a, PW) for a in arrs):
            # (x, z) tuples of points of unknown shape
            return Arr((num(len(arrs)),), None) if False else self._stack_pw(arrs)
        r = max(a.rank for a in arrs)
        sh = next(a.shape for a in arrs if a.rank == r)
        if any(a.rank != r for a in arrs):
            raise Unsupported("ragged stack")
        if any(a.mask is not None for a in arrs):
            raise Unsupported("stack of masked")

        def f(i, *ix):
            k = numval(i)
            if k is not None:
                k = int(k)
                if -len(arrs) <= k < len(arrs):
                    return arrs[k](*ix)
                return tm.sym("?outofrange")
            r = arrs[-1](*ix)
            for j in range(len(arrs) - 2, -1, -1):
                r = ite(eq(i, num(j)), arrs[j](*ix), r)
            return r

        dts = {a.dt for a in arrs}
        return Arr((num(len(arrs)),) + sh, f, dts.pop() if len(dts) == 1 else None)

    def _stack_pw(self, arrs):
        raise Unsupported("stack of arrays of unknown shape")

    def seq_arr(self, s):
        i = fresh("q", int=True, lo=0, hi=s.n)
        e = self.arr(s(i))
        if isinstance(e, PW):
            raise Unsupported("sequence of arrays of unknown shape")

        def f(k, *ix):
            x = self.arr(s(k))
            return x(*ix)

        for d in e.shape:
            if i in free(d):
                raise Unsupported("ragged sequence")
        return Arr((s.n,) + e.shape, f, e.dt)

    # ------------------------------------------------------------ merging
    def merge_val(self, c, a, b):
        if a is b:
            return a
        if c is TRUE:
            return a
        if c is FALSE:
            return b
        if a is UNDEF or a is MISSING and b is UNDEF:
            pass
        if isinstance(a, T) and isinstance(b, T):
            return ite(c, a, b)
        if isinstance(a, Ref) and isinstance(b, Ref) and a.loc == b.loc:
            return a
        if isinstance(a, str) and isinstance(b, str) and a == b:
            return a
        if isinstance(a, Tup) and isinstance(b, Tup) and len(a.items) == len(b.items) and a.names == b.names:
            return Tup([self.merge_val(c, x, y) for x, y in zip(a.items, b.items)], a.names, a.tname)
        if isinstance(a, SliceV) and isinstance(b, SliceV):
            return SliceV(*[self.merge_val(c, x, y) for x, y in ((a.start, b.start), (a.stop, b.stop), (a.step, b.step))])
        if isinstance(a, Ext) and isinstance(b, Ext) and a.path == b.path:
            return a
        if isinstance(a, Fn) and isinstance(b, Fn) and a.node is b.node and a.fid == b.fid:
            return a
        if isinstance(a, Bound) and isinstance(b, Bound) and a.fn is b.fn and a.selfv is b.selfv:
            return a
        if isinstance(a, ModV) and isinstance(b, ModV) and a.name == b.name:
            return a
        if isinstance(a, ShapeV) and isinstance(b, ShapeV) and a.tag == b.tag:
            return a
        if isinstance(a, IteV) and a.c is c:
            a = a.a
        if isinstance(b, IteV) and b.c is c:
            b = b.b
        return IteV(c, a, b)

    def merge_content(self, c, a, b):
        if a is b:
            return a
        if c is TRUE:
            return a
        if c is FALSE:
            return b
        if isinstance(a, (Arr, PW)) and isinstance(b, (Arr, PW)):
            if isinstance(a, PW) and isinstance(b, PW):
                if a.mask is b.mask:
                    return PW(ite(c, a.t, b.t), a.dt if a.dt == b.dt else None, a.mask, a.tag)
            elif isinstance(a, Arr) and isinstance(b, Arr) and a.rank == b.rank and a.mask is None and b.mask is None:
                sh = []
                for x, y in zip(a.shape, b.shape):
                    sh.append(x if x is y else ite(c, x, y))
                return Arr(sh, lambda *ix: ite(c, a(*ix), b(*ix)), a.dt if a.dt == b.dt else None)
        if isinstance(a, Dct) and isinstance(b, Dct):
            d = {}
            for k in list(a.d) + [k for k in b.d if k not in a.d]:
                d[k] = self.merge_val(c, a.d.get(k, MISSING), b.d.get(k, MISSING))
            return Dct(d)
        if isinstance(a, ObjC) and isinstance(b, ObjC) and a.cls is b.cls:
            d = {}
            for k in list(a.attrs) + [k for k in b.attrs if k not in a.attrs]:
                d[k] = self.merge_val(c, a.attrs.get(k, MISSING), b.attrs.get(k, MISSING))
            return ObjC(a.cls, d)
        if isinstance(a, Lst) and isinstance(b, Lst) and len(a.items) == len(b.items):
            return Lst([self.merge_val(c, x, y) for x, y in zip(a.items, b.items)])
        if isinstance(a, ViewC) and isinstance(b, ViewC) and a.base == b.base and a.axes == b.axes:
            return a
        return CondC(c, a, b)

    def merge(self, gate, A, B):
        """Join of state A (taken if gate) and state B."""
        k = 0
        while k < len(A.pc) and k < len(B.pc) and A.pc[k] is B.pc[k]:
            k += 1
        heap = {}
        for l in A.heap.keys() | B.heap.keys():
            if l not in A.heap:
                heap[l] = B.heap[l]
            elif l not in B.heap:
                heap[l] = A.heap[l]
            else:
                heap[l] = self.merge_content(gate, A.heap[l], B.heap[l])
        frames = {}
        for f in A.frames.keys() | B.frames.keys():
            if f not in A.frames:
                frames[f] = B.frames[f]
            elif f not in B.frames:
                frames[f] = A.frames[f]
            else:
                fa, fb = A.frames[f], B.frames[f]
                d = {}
                for n in fa.keys() | fb.keys():
                    x, y = fa.get(n, MISSING), fb.get(n, MISSING)
                    d[n] = x if x is y else self.merge_val(gate, x, y)
                frames[f] = d
        ra, rb = b_and(*A.pc[k:]), b_and(*B.pc[k:])
        rest = b_or(ra, rb)
        # (g and p) or (not g and q)
        if rest is not TRUE and gate is not None:
            m1 = subst(ra, {}) if ra is gate else None
            if m1 is not None and rb is b_not(gate):
                rest = TRUE
        pc = A.pc[:k]
        if rest is not TRUE:
            pc = pc + ((rest,) if rest.op != "and" else tuple(rest.args))
        return State(heap, frames, pc)

    def branch(self, c, fa, fb):
        """Evaluate fa() under c and fb() otherwise; join."""
        c = self.under_pc(c)
        if c is TRUE:
            return fa()
        if c is FALSE:
            return fb()
        S0 = self.S
        ra = rb = None
        ea = eb = None
        self.S = S0.copy()
        self.push(c)
        try:
            ra = fa()
        except PyRaise as e:
            ea = e
        SA = self.S
        self.S = S0.copy()
        self.push(b_not(c))
        try:
            rb = fb()
        except PyRaise as e:
            eb = e
        SB = self.S
        if ea and eb:
            self.S = S0
            raise eb
        if ea:
            self.note_raise(SA, ea.name)
            self.S = SB
            return rb
        if eb:
            self.note_raise(SB, eb.name)
            self.S = SA
            return ra
        self.S = self.merge(c, SA, SB)
        return self.merge_val(c, ra, rb)

    def note_raise(self, S, name):
        self.raises.append((b_and(*S.pc), name, getattr(self.node, "lineno", 0), self.cstack[-1] if self.cstack else "?"))

    def lift(self, v, f):
        """Apply f to a value, distributing over gated joins."""
        v = self.res(v)
        if isinstance(v, IteV):
            return self.branch(v.c, lambda: self.lift(v.a, f), lambda: self.lift(v.b, f))
        return f(v)

    # ------------------------------------------------------------- modules
    def module_value(self, mod, name):
        if name in mod.cache:
            r = mod.cache[name]
            if r is None:
                raise Unsupported("recursive module binding " + name)
            return r
        bs = mod.binds.get(name)
        if not bs:
            return None
        mod.cache[name] = None
        b = bs[-1]
        v = None
        try:
            if isinstance(b, ast.FunctionDef):
                v = self.make_fn(b, mod, None)
            elif isinstance(b, ast.ClassDef):
                v = self.make_class(b, mod, None)
            elif isinstance(b, tuple):
                v = self.import_value(mod, *b)
            else:
                fid = self.frame(None, mod)
                S = self.S
                if isinstance(b, ast.Assign):
                    val = None
                    if isinstance(b.value, ast.Name) and b.value.id in BUILTINS and all(
                            isinstance(x, (ast.FunctionDef, ast.ClassDef)) and x.lineno > b.lineno for x in mod.binds.get(b.value.id, ())):
                        val = BUILTINS[b.value.id]  # redefined only further down
                    if val is None:
                        val = self.eval(b.value, fid)
                    for t in b.targets:
                        self.assign(t, val, fid)
                elif b.value is not None:
                    self.assign(b.target, self.eval(b.value, fid), fid)
                v = self.S.frames[fid].get(name, Unk("module " + name))
        except (Unsupported, PyRaise) as e:
            v = Unk("module binding %s: %s" % (name, e))
        finally:
            mod.cache.pop(name, None)
        if isinstance(v, Ref) or not self.persistent(v) or any(v is o for o in self.overrides.values()):
            # mutable module state lives in this analysis only
            self.modstate = getattr(self, "modstate", {})
            self.modstate[(mod.name, name)] = v
            mod_key = ("$mod", mod.name)
            self.S.frames.setdefault(mod_key, {})[name] = v
            return v
        mod.cache[name] = v
        return v

    def persistent(self, v):
        return isinstance(v, (T, str, Fn, ClassV, ModV, Ext, Prim)) or v is NONE

    def get_global(self, mod, name):
        fr = self.S.frames.get(("$mod", mod.name))
        if fr and name in fr:
            return fr[name]
        ms = getattr(self, "modstate", {})
        if (mod.name, name) in ms:
            return ms[(mod.name, name)]
        ov = self.overrides.get(mod.name + "." + name)
        if ov is not None:
            return ov
        v = self.module_value(mod, name)
        if v is not None:
            return v
        if name in BUILTINS:
            return BUILTINS[name]
        if name == "__name__":
            return mod.name
        raise PyRaise("NameError: " + name)

    def import_value(self, mod, st, a):
        if isinstance(st, ast.Import):
            full = a.name if a.asname else a.name.split(".")[0]
            return self.import_module(full)
        base = st.module or ""
        if st.level:
            parts = mod.name.split(".")
            isdir = mod.path.endswith("__init__.py")
            keep = len(parts) - (st.level - (1 if isdir else 0))
            base = ".".join(parts[:keep] + ([st.module] if st.module else []))
        m = self.prog.load(base) if base.split(".")[0] == self.prog.package or base in self.prog.mods else None
        if m is not None:
            bs = m.binds.get(a.name)
            if bs and isinstance(bs[-1], tuple) and isinstance(bs[-1][0], ast.ImportFrom) and bs[-1][0].level and not bs[-1][0].module and bs[-1][1].name == a.name and m.path.endswith("__init__.py"):
                # the package imports its own submodule
                subm = self.prog.load(base + "." + a.name)
                if subm is not None:
                    return ModV(subm.name)
            if a.name in m.binds or (base + "." + a.name) in self.overrides:
                return self.get_global(m, a.name)
            subm = self.prog.load(base + "." + a.name)
            if subm is not None:
                return ModV(subm.name)
            return Unk("import %s.%s" % (base, a.name))
        return self.np.ext_attr(self, Ext(base), a.name)

    def import_module(self, full):
        if full.split(".")[0] == self.prog.package or full in self.prog.mods:
            m = self.prog.load(full)
            if m is not None:
                return ModV(m.name)
        return Ext(full)

    def make_fn(self, node, mod, fid, cls=None):
        d = []
        kd = {}
        a = node.args
        for x in a.defaults:
            d.append(self.eval(x, fid if fid is not None else self.frame(None, mod)))
        for x, y in zip(a.kwonlyargs, a.kw_defaults):
            if y is not None:
                kd[x.arg] = self.eval(y, fid if fid is not None else self.frame(None, mod))
        name = getattr(node, "name", "<lambda>")
        q = mod.name + "." + (cls.name + "." if cls else "") + name
        kind = None
        for dec in getattr(node, "decorator_list", []):
            s = ast.unparse(dec)
            if s in ("staticmethod", "classmethod", "property"):
                kind = s
            elif s.endswith("cached_property"):
                kind = "property"
            elif s.split("(")[0].split(".")[-1] in ("lru_cache", "cache", "wraps", "contextmanager"):
                kind = "decorated:" + s.split("(")[0].split(".")[-1] if "cache" not in s else None
            else:
                kind = "decorated:" + s
        return Fn(node, mod, fid, d, kd, q, cls, kind)

    def make_class(self, node, mod, fid):
        bases = []
        for b in node.bases:
            try:
                bases.append(self.eval(b, fid if fid is not None else self.frame(None, mod)))
            except (Unsupported, PyRaise):
                bases.append(Unk("base"))
        c = ClassV(node.name, node, mod, bases, fid)
        c.members = {}
        for st in node.body:
            if isinstance(st, ast.FunctionDef):
                c.members[st.name] = st
            elif isinstance(st, ast.Assign):
                for t in st.targets:
                    if isinstance(t, ast.Name):
                        c.members[t.id] = st.value
            elif isinstance(st, ast.AnnAssign) and isinstance(st.target, ast.Name) and st.value is not None:
                c.members[st.target.id] = st.value
        c.mcache = {}
        return c

    def class_member(self, cls, name):
        for c in cls.mro():
            q = c.mod.name + "." + c.name + "." + name
            if q in self.overrides:
                return self.overrides[q]
            fr = self.S.frames.get(("$cls", c.mod.name, c.name))
            if fr and name in fr:
                return fr[name]
            if name in c.members:
                if name in c.mcache:
                    return c.mcache[name]
                m = c.members[name]
                if isinstance(m, ast.FunctionDef):
                    v = c.mcache[name] = self.make_fn(m, c.mod, c.fid, c)
                    return v
                v = self.eval(m, c.fid if c.fid is not None else self.frame(None, c.mod))
                if self.persistent(v):
                    c.mcache[name] = v
                else:
                    self.S.frames.setdefault(("$cls", c.mod.name, c.name), {})[name] = v
                return v
        return None

    def is_subclass(self, cls, other):
        return other in cls.mro()

    # ---------------------------------------------------------- attributes
    def getattr(self, v, name, default=None):
        v = self.res(v)
        if isinstance(v, IteV):
            return self.lift(v, lambda x: self.getattr(x, name, default))
        if isinstance(v, Ref):
            c = self.S.heap[v.loc]
            if isinstance(c, CondC):
                c = self.res_content(c)
            if isinstance(c, ObjC):
                if name in c.attrs:
                    r = self.res(c.attrs[name])
                    if r is MISSING:
                        if default is not None:
                            return default
                        raise PyRaise("AttributeError: " + name)
                    return r
                if name == "__class__":
                    return c.cls
                if name == "__dict__":
                    return Unk("__dict__")
                m = self.class_member(c.cls, name)
                if m is not None:
                    if isinstance(m, Fn):
                        if m.kind == "property":
                            return self.call(m, [v], {})
                        if m.kind == "staticmethod":
                            return m
                        if m.kind == "classmethod":
                            return Bound(m, c.cls)
                        return Bound(m, v)
                    if isinstance(m, Prim):
                        return Bound(m, v)
                    return m
                h = self.np.EXTOBJ_ATTR(self, v, c, name)
                if h is not None:
                    return h
                if default is not None:
                    return default
                if any(not isinstance(b, Ext) or b.path not in ("object", "builtins.object") for b in c.cls.ext_bases()):
                    return Unk("attribute %s of %s" % (name, c.cls.name))
                m = self.class_member(c.cls, "__getattr__")
                if m is not None:
                    return self.call(Bound(m, v), [name], {})
                raise PyRaise("AttributeError: %s.%s" % (c.cls.name, name))
            if isinstance(c, UnkC):
                return Unk(c.why + "." + name)
            r = self.np.array_attr(self, v, c, name)
            if r is None:
                if default is not None:
                    return default
                return Unk("attribute " + name)
            return r
        if isinstance(v, Abs):
            if name in v.attrs:
                x = v.attrs[name]
                if callable(x) and not isinstance(x, (Prim, Fn, Bound)):
                    return x(self, v)
                return x
            if default is not None:
                return default
            raise Unsupported("attribute %s of %s not in the model" % (name, v.name))
        if isinstance(v, ModV):
            m = self.prog.load(v.name)
            if name in m.binds or (v.name + "." + name) in self.overrides:
                return self.get_global(m, name)
            subm = self.prog.load(v.name + "." + name)
            if subm is not None:
                return ModV(subm.name)
            raise PyRaise("AttributeError: %s.%s" % (v.name, name))
        if isinstance(v, Ext):
            return self.np.ext_attr(self, v, name)
        if isinstance(v, ClassV):
            m = self.class_member(v, name)
            if m is not None:
                if isinstance(m, Fn) and m.kind == "classmethod":
                    return Bound(m, v)
                return m
            if name == "__name__":
                return v.name
            if default is not None:
                return default
            return Unk("class attribute " + name)
        if isinstance(v, Tup) and v.names and name in v.names:
            return v.items[v.names.index(name)]
        if isinstance(v, Unk):
            return Unk(v.why + "." + name)
        if isinstance(v, ShapeV):
            return Unk("shape." + name)
        if v is MISSING or v is UNDEF:
            raise Unsupported("unbound value")
        if isinstance(v, SliceV):
            if name in ("start", "stop", "step"):
                return getattr(v, name)
        if isinstance(v, Super):
            for c in v.mro:
                q = c.mod.name + "." + c.name + "." + name
                if name in c.members:
                    m = self.class_member(c, name)
                    return Bound(m, v.selfv) if isinstance(m, (Fn, Prim)) else m
            return Prim("object." + name, lambda I, a, k: NONE)
        r = self.np.scalar_attr(self, v, name)
        if r is not None:
            return r
        if default is not None:
            return default
        if v is NONE:
            raise PyRaise("AttributeError: None." + name)
        return Unk("attribute " + name)

    def setattr(self, v, name, val):
        v = self.res(v)
        if isinstance(v, IteV):
            self.branch(v.c, lambda: self.setattr(v.a, name, val), lambda: self.setattr(v.b, name, val))
            return
        if isinstance(v, Ref):
            c = self.S.heap[v.loc]
            if isinstance(c, ObjC):
                d = dict(c.attrs)
                d[name] = val
                self.S.heap[v.loc] = ObjC(c.cls, d)
                return
            if is_array(c) and name == "shape":
                if not isinstance(c, Arr):
                    raise Unsupported("shape assignment")
                r = self.content(self.np.do_reshape(self, v, [val]))
                self.S.heap[v.loc] = r
                return
            if isinstance(c, UnkC):
                return
        if isinstance(v, ClassV):
            self.S.frames.setdefault(("$cls", v.mod.name, v.name), {})[name] = val
            return
        if isinstance(v, ModV):
            self.S.frames.setdefault(("$mod", v.name), {})[name] = val
            return
        if isinstance(v, Abs):
            h = v.attrs.get("__setattr__")
            if h is not None:
                h(self, v, name, val)
                return
            raise Unsupported("setting %s of %s" % (name, v.name))
        if isinstance(v, (Unk, Ext)):
            return
        raise Unsupported("attribute store on %r" % (v,))

    # ---------------------------------------------------------- expressions
    def lookup(self, name, fid):
        f = fid
        while f is not None:
            fr = self.S.frames.get(f)
            if fr is not None and name in fr:
                v = fr[name]
                if isinstance(v, IteV):
                    v = self.res(v)
                if v is MISSING:
                    raise PyRaise("UnboundLocalError: " + name)
                if v is UNDEF:
                    raise Unsupported("value of %s from an earlier iteration" % name)
                return v
            f = self.fmeta[f][0]
        return self.get_global(self.fmeta[fid][1], name)

    def eval(self, e, fid):
        self.steps += 1
        if self.steps > self.limit:
            raise Unsupported("analysis budget exceeded")
        old = self.node
        if hasattr(e, "lineno"):
            self.node = e
        m = getattr(self, "e_" + type(e).__name__, None)
        if m is None:
            raise Unsupported("expression " + type(e).__name__)
        r = m(e, fid)
        self.node = old
        return r

    def e_Constant(self, e, fid):
        v = e.value
        if v is None:
            return NONE
        if v is True:
            return TRUE
        if v is False:
            return FALSE
        if v is Ellipsis:
            return ELLIPSIS
        if isinstance(v, (int, float)):
            return num(v)
        if isinstance(v, (str, bytes)):
            return v
        if isinstance(v, complex):
            return Unk("complex")
        raise Unsupported("constant %r" % (v,))

    def e_Name(self, e, fid):
        return self.lookup(e.id, fid)

    def e_Attribute(self, e, fid):
        return self.getattr(self.eval(e.value, fid), e.attr)

    def e_Tuple(self, e, fid):
        return Tup(self.seq_items(e.elts, fid))

    def e_List(self, e, fid):
        return self.new(Lst(self.seq_items(e.elts, fid)))

    def e_Set(self, e, fid):
        return self.new(Lst(self.seq_items(e.elts, fid)))

    def seq_items(self, elts, fid):
        out = []
        for x in elts:
            if isinstance(x, ast.Starred):
                out.extend(self.const_items(self.eval(x.value, fid)))
            else:
                out.append(self.eval(x, fid))
        return out

    def e_Dict(self, e, fid):
        d = {}
        for k, v in zip(e.keys, e.values):
            if k is None:
                o = self.content(self.eval(v, fid))
                if not isinstance(o, Dct):
                    raise Unsupported("dict expansion")
                d.update(o.d)
            else:
                kk = self.key(self.eval(k, fid))
                d[kk] = self.eval(v, fid)
        return self.new(Dct(d))

    def key(self, k):
        """Hashable constant used as dictionary key."""
        k = self.res(k)
        if isinstance(k, (str, bytes)):
            return k
        if isinstance(k, T):
            if k.op in ("num", "true", "false"):
                return k
            raise Unsupported("symbolic key")
        if k is NONE:
            return NONE
        if isinstance(k, Tup):
            return tuple(self.key(x) for x in k.items)
        if isinstance(k, (Prim, Ext, Fn, ClassV)):
            return k
        raise Unsupported("key %r" % (k,))

    def unkey(self, k):
        if isinstance(k, tuple):
            return Tup([self.unkey(x) for x in k])
        return k

    def e_JoinedStr(self, e, fid):
        out = []
        for x in e.values:
            if isinstance(x, ast.Constant):
                out.append(x.value)
            else:
                v = self.eval(x.value, fid)
                s = None
                if x.format_spec is None:
                    s = self.to_str(v)
                elif self.tokens:
                    f = self.e_JoinedStr(x.format_spec, fid)
                    s = self.token(v, f) if isinstance(f, str) else None
                if s is None:
                    return Unk("string")
                out.append(s)
        return "".join(out)

    def to_str(self, v):
        v = self.res(v)
        if isinstance(v, str):
            return v
        if isinstance(v, T):
            if v.op == "num":
                f = v.args[0]
                if f.denominator == 1:
                    return str(int(f))
                return repr(float(f))
            if v is TRUE:
                return "True"
            if v is FALSE:
                return "False"
        if v is NONE:
            return "None"
        if isinstance(v, bytes):
            return v.decode("latin1")
        if self.tokens:
            return self.token(v, "")
        return None

    def percent(self, a, items):
        import re

        out, k, pos = [], 0, 0
        for m in re.finditer(r"%([-+0 #]*\d*(?:\.\d+)?)([diouxXeEfFgGcrsa%])", a):
            out.append(a[pos:m.start()])
            pos = m.end()
            if m.group(2) == "%":
                out.append("%")
                continue
            if k >= len(items):
                return Unk("string")
            v = self.res(items[k])
            k += 1
            if m.group(2) in "sra":
                t = self.to_str(v)
                t = None if t is None else ("%" + m.group(1) + "s") % t
            else:
                t = self.token(v, m.group(1).lstrip("-+ #") + m.group(2))
            if t is None:
                return Unk("string")
            out.append(t)
        return "".join(out) + a[pos:]

    def token(self, v, spec):
        """Text standing for a number: one-to-one unless digits are lost."""
        v = self.res(v)
        if isinstance(v, T):
            if v.op == "num" and spec:
                q = v.args[0]
                try:
                    return format(int(q) if q.denominator == 1 and spec[-1] not in "eEfFgG%" else float(q), spec)
                except ValueError:
                    return None
            d = "".join(ch for ch in (spec.split(".")[1] if "." in spec else "17") if ch.isdigit())
            short = spec[-1:] in ("f", "F", "d", "n", "%") or int(d or 0) < (16 if spec[-1:] in ("e", "E") else 17)
            if spec and spec[-1] in "srx":
                short = "." in spec
            atoms = [x for x in tm.subterms(v) if x.op in ("sym", "fn")]
            exact = v.op in ("sym", "fn") and (v.op == "sym" or v.args[0] not in tm.SMART) or len(atoms) == 1 and atoms[0].op == "sym" and v.op == "poly"
            if short or not exact:
                return "{lossy %s}" % spec
            return "{%d}" % v.id
        if isinstance(v, Tup):
            r = [self.token(x, "") if not isinstance(self.res(x), str) else repr(self.res(x)) for x in v.items]
            return None if None in r else "(%s)" % ", ".join(r)
        if isinstance(v, str):
            return format(v, spec)
        if isinstance(v, Ref) and is_array(self.content(v)):
            return "{printed array}"
        if isinstance(v, Ref) and isinstance(self.content(v), Lst):
            r = [self.token(x, "") if not isinstance(self.res(x), str) else repr(self.res(x)) for x in self.content(v).items]
            return None if None in r else "[%s]" % ", ".join(r)
        if v is NONE:
            return "None"
        return None

    def e_IfExp(self, e, fid):
        c = self.truth(self.eval(e.test, fid))
        return self.branch(c, lambda: self.eval(e.body, fid), lambda: self.eval(e.orelse, fid))

    def e_BoolOp(self, e, fid):
        isand = isinstance(e.op, ast.And)

        def go(i):
            v = self.eval(e.values[i], fid)
            if i == len(e.values) - 1:
                return v
            c = self.truth(v)
            if isand:
                if isinstance(v, T) and v.isb:
                    return self.branch(c, lambda: go(i + 1), lambda: FALSE)
                return self.branch(c, lambda: go(i + 1), lambda: self.res(v))
            if isinstance(v, T) and v.isb:
                return self.branch(c, lambda: TRUE, lambda: go(i + 1))
            return self.branch(c, lambda: self.res(v), lambda: go(i + 1))

        return go(0)

    def e_UnaryOp(self, e, fid):
        v = self.eval(e.operand, fid)
        if isinstance(e.op, ast.Not):
            return b_not(self.truth(v))
        if isinstance(e.op, ast.UAdd):
            return v
        if isinstance(e.op, ast.Invert):
            def inv(t):
                if t.isb:
                    return b_not(t)
                return sub(num(-1), t)
            return self.elementwise(inv, [v])
        return self.elementwise(lambda t: neg(t), [v])

    def e_BinOp(self, e, fid):
        a = self.eval(e.left, fid)
        b = self.eval(e.right, fid)
        return self.binop(type(e.op).__name__, a, b)

    def e_Compare(self, e, fid):
        a = self.eval(e.left, fid)
        r = None
        for op, x in zip(e.ops, e.comparators):
            b = self.eval(x, fid)
            c = self.compare(type(op).__name__, a, b)
            if r is None:
                r = c
            else:
                r = b_and(self.truth(r), self.truth(c))
            a = b
        return r

    def e_Lambda(self, e, fid):
        return self.make_fn(e, self.fmeta[fid][1], fid)

    def e_Starred(self, e, fid):
        raise Unsupported("starred")

    def e_NamedExpr(self, e, fid):
        v = self.eval(e.value, fid)
        self.assign(e.target, v, fid)
        return v

    def e_Slice(self, e, fid):
        g = lambda x: NONE if x is None else self.eval(x, fid)
        return SliceV(g(e.lower), g(e.upper), g(e.step))

    def e_Subscript(self, e, fid):
        v = self.eval(e.value, fid)
        ix = self.eval(e.slice, fid)
        return self.getitem(v, ix)

    def e_Call(self, e, fid):
        self.sites += 1
        # super()
        if isinstance(e.func, ast.Name) and e.func.id == "super":
            return self.super_value(e, fid)
        f = self.eval(e.func, fid)
        args = []
        for a in e.args:
            if isinstance(a, ast.Starred):
                v = self.eval(a.value, fid)
                args.extend(self.const_items(v))
            else:
                args.append(self.eval(a, fid))
        kw = {}
        for k in e.keywords:
            v = self.eval(k.value, fid)
            if k.arg is None:
                v = self.res(v)
                if isinstance(v, Unk):
                    kw["**"] = v
                    continue
                c = self.content(v)
                if not isinstance(c, Dct):
                    raise Unsupported("** of non-dict")
                for kk, vv in c.d.items():
                    if self.res(vv) is not MISSING:
                        kw[kk] = vv
            else:
                kw[k.arg] = v
        self.node = e
        return self.call(f, args, kw)

    def super_value(self, e, fid):
        f = fid
        while f is not None:
            fr = self.S.frames[f]
            if "$cls" in fr:
                cls, selfv = fr["$cls"], fr["$self"]
                c = self.S.heap[selfv.loc]
                mro = c.cls.mro()
                i = mro.index(cls)
                return Super(mro[i + 1:], selfv)
            f = self.fmeta[f][0]
        raise Unsupported("super")

    # comprehensions
    def e_ListComp(self, e, fid):
        return self.comp(e, fid, e.elt)

    def e_SetComp(self, e, fid):
        return self.comp(e, fid, e.elt)

    def e_GeneratorExp(self, e, fid):
        return self.comp(e, fid, e.elt)

    def e_DictComp(self, e, fid):
        r = self.comp(e, fid, ast.Tuple(elts=[e.key, e.value], ctx=ast.Load()))
        c = self.content(r)
        if not isinstance(c, Lst):
            raise Unsupported("dict of unknown length")
        return self.new(Dct({self.key(x.items[0]): x.items[1] for x in c.items}))

    def comp(self, e, fid, elt):
        f2 = self.frame(fid, self.fmeta[fid][1])
        return self.comp_gen(e.generators, 0, f2, elt)

    def comp_gen(self, gens, gi, fid, elt):
        g = gens[gi]
        it = self.iterate(self.eval(g.iter, fid))
        n = numval(it.n)
        last = gi == len(gens) - 1
        if n is not None and n <= MAXUNROLL:
            out = []
            for k in range(int(n)):
                self.assign(g.target, it.get(num(k)), fid)
                keep = TRUE
                for c in g.ifs:
                    keep = b_and(keep, self.truth(self.eval(c, fid)))
                keep = self.under_pc(keep)
                if keep is FALSE:
                    continue
                if keep is not TRUE:
                    raise Unsupported("conditional comprehension")
                if last:
                    out.append(self.eval(elt, fid))
                else:
                    r = self.content(self.comp_gen(gens, gi + 1, fid, elt))
                    if not isinstance(r, Lst):
                        raise Unsupported("nested comprehension")
                    out.extend(r.items)
            return self.new(Lst(out))
        if g.ifs:
            raise Unsupported("conditional comprehension of unknown length")
        i = fresh("i", int=True, lo=0, hi=it.n)
        S0 = self.S
        pc0 = self.S.pc
        self.push(lt(ZERO, it.n)) if False else None
        before = dict(self.S.heap)
        self.assign(g.target, it.get(i), fid)
        if last:
            v = self.eval(elt, fid)
        else:
            v = self.comp_gen(gens, gi + 1, fid, elt)
            raise Unsupported("nested comprehension of unknown length")
        for l, c in before.items():
            if self.S.heap[l] is not c:
                raise Unsupported("effects in comprehension of unknown length")
        self.S.pc = pc0
        snap = self.freeze(v)
        memo = {}

        def f(k):
            return self.thaw(snap, {i: k})

        return self.new(Seq(it.n, f, it.split))

    # ------------------------------------------------- snapshots of values
    def freeze(self, v):
        """Heap-independent copy of a value (arrays by content)."""
        v = self.res(v)
        if isinstance(v, Ref):
            c = self.content(v)
            return Frozen(self.freeze_content(c))
        if isinstance(v, Tup):
            return Tup([self.freeze(x) for x in v.items], v.names, v.tname)
        if isinstance(v, IteV):
            return IteV(v.c, self.freeze(v.a), self.freeze(v.b))
        return v

    def freeze_content(self, c):
        if isinstance(c, (Arr, PW)):
            return c
        if isinstance(c, Lst):
            return Lst([self.freeze(x) for x in c.items])
        if isinstance(c, Seq):
            return c
        if isinstance(c, Dct):
            return Dct({k: self.freeze(x) for k, x in c.d.items()})
        if isinstance(c, ObjC):
            return ObjC(c.cls, {k: self.freeze(x) for k, x in c.attrs.items()})
        if isinstance(c, UnkC):
            return c
        if isinstance(c, CondC):
            return CondC(c.c, self.freeze_content(c.a), self.freeze_content(c.b))
        raise Unsupported("snapshot of %s" % type(c).__name__)

    def thaw(self, v, m):
        """Fresh copy of a frozen value with symbols substituted."""
        if isinstance(v, T):
            return subst(v, m)
        if isinstance(v, Frozen):
            return self.new(self.thaw_content(v.c, m))
        if isinstance(v, Tup):
            return Tup([self.thaw(x, m) for x in v.items], v.names, v.tname)
        if isinstance(v, IteV):
            return self.merge_val(subst(v.c, m), self.thaw(v.a, m), self.thaw(v.b, m))
        if isinstance(v, Ref):
            raise Unsupported("unfrozen reference")
        if isinstance(v, Abs):
            return self.abs_subst(v, m)
        return v

    def abs_subst(self, v, m):
        if v.key and any(isinstance(k, T) and (free(k) & frozenset(m)) for k in v.key):
            mkr = v.attrs.get("$make")
            if mkr is None:
                raise Unsupported("substitution in " + v.name)
            return mkr(*[subst(k, m) if isinstance(k, T) else k for k in v.key])
        return v

    def thaw_content(self, c, m):
        if isinstance(c, Arr):
            sh = [subst(s, m) for s in c.shape]
            mask = c.mask
            if mask is not None:
                mask = self.thaw_content(mask, m)
            return Arr(sh, lambda *ix: subst(c(*ix), {k: v for k, v in m.items()}) if not any(free(x) & frozenset(m) for x in ix) else _safe_sub(c, ix, m), c.dt, mask)
        if isinstance(c, PW):
            return PW(subst(c.t, m), c.dt, None if c.mask is None else subst(c.mask, m), c.tag)
        if isinstance(c, Lst):
            return Lst([self.thaw(x, m) for x in c.items])
        if isinstance(c, Seq):
            n = subst(c.n, m)
            return Seq(n, lambda k: self.thaw(self.freeze(c(k)), m), c.split and tuple(subst(x, m) if isinstance(x, T) else x for x in c.split))
        if isinstance(c, Dct):
            return Dct({k: self.thaw(x, m) for k, x in c.d.items()})
        if isinstance(c, ObjC):
            return ObjC(c.cls, {k: self.thaw(x, m) for k, x in c.attrs.items()})
        if isinstance(c, UnkC):
            return c
        if isinstance(c, CondC):
            return self.merge_content(subst(c.c, m), self.thaw_content(c.a, m), self.thaw_content(c.b, m))
        raise Unsupported("thaw %s" % type(c).__name__)

    # ------------------------------------------------------------ iteration
    def iterate(self, v):
        v = self.res(v)
        if isinstance(v, Iter):
            return v
        if isinstance(v, Tup):
            return self.const_iter(v.items)
        if isinstance(v, str):
            return self.const_iter(list(v))
        if isinstance(v, Ref):
            c = self.content(v)
            if isinstance(c, Lst):
                return self.const_iter(c.items)
            if isinstance(c, Seq):
                return Iter(c.n, c, c.split)
            if isinstance(c, Dct):
                return self.const_iter([self.unkey(k) for k, x in c.d.items() if self.res(x) is not MISSING])
            if isinstance(c, Arr):
                if c.rank == 0:
                    raise PyRaise("TypeError: iteration over a scalar")
                if c.mask is not None:
                    raise Unsupported("iteration over masked array")

                def get(i, v=v):
                    return self.getitem(v, i)

                return Iter(c.shape[0], get)
            if isinstance(c, IterC):
                return c.it
            if isinstance(c, ObjC):
                h = self.np.OBJ_ITER(self, v, c)
                if h is not None:
                    return h
        if isinstance(v, IteV):
            a, b = self.iterate(v.a), self.iterate(v.b)
            if a.n is b.n:
                return Iter(a.n, lambda k: self.merge_val(v.c, a.get(k), b.get(k)))
        if isinstance(v, Abs) and "__iter__" in v.attrs:
            return v.attrs["__iter__"](self, v)
        raise Unsupported("iteration over %r" % (v,))

    def const_iter(self, items):
        items = list(items)

        def get(k):
            kk = numval(k)
            if kk is None:
                if not items:
                    raise Unsupported("empty")
                r = items[-1]
                for j in range(len(items) - 2, -1, -1):
                    r = self.merge_val(eq(k, num(j)), items[j], r)
                return r
            return items[int(kk)]

        return Iter(num(len(items)), get)

    def const_items(self, v):
        it = self.iterate(v)
        n = numval(it.n)
        if n is None:
            raise Unsupported("sequence of unknown length used where its items are needed")
        if n > 2000:
            raise Unsupported("long sequence")
        return [it.get(num(k)) for k in range(int(n))]

    # --------------------------------------------------------------- truth
    def truth(self, v):
        v = self.res(v)
        if isinstance(v, T):
            return n2b(v)
        if isinstance(v, str):
            return TRUE if v else FALSE
        if v is NONE:
            return FALSE
        if isinstance(v, Tup):
            return TRUE if v.items else FALSE
        if isinstance(v, Unk):
            return opaque("truth of " + v.why[:60], isb=True)
        if isinstance(v, IteV):
            return ite(v.c, self.truth(v.a), self.truth(v.b))
        if isinstance(v, Ref):
            c = self.content(v)
            if isinstance(c, Arr):
                if c.rank == 0:
                    return n2b(c())
                if all(numval(s) == 1 for s in c.shape):
                    return n2b(c(*[ZERO] * c.rank))
                raise Unsupported("truth of an array")
            if isinstance(c, PW):
                return n2b(c.t) if c.tag == "scalar" else opaque("truth of array", isb=True)
            if isinstance(c, Lst):
                return TRUE if c.items else FALSE
            if isinstance(c, Seq):
                return lt(ZERO, c.n)
            if isinstance(c, Dct):
                return TRUE if c.d else FALSE
            if isinstance(c, ObjC):
                for nm in ("__bool__", "__len__"):
                    m = self.class_member(c.cls, nm)
                    if m is not None:
                        return self.truth(self.call(Bound(m, v), [], {}))
                return TRUE
            if isinstance(c, UnkC):
                return opaque("truth of " + c.why[:60], isb=True)
            if isinstance(c, LstMu):
                if c.items:
                    return TRUE
                return opaque("truth of growing list", isb=True)
            raise Unsupported("truth of %s" % type(c).__name__)
        if isinstance(v, Ext):
            if v.path in self.np.EXT_TRUTH:
                return self.np.EXT_TRUTH[v.path]
            if v.path.split(".")[0] in ("tqdm",):
                return opaque("have " + v.path, isb=True)
            return TRUE
        if v is UNDEF or v is MISSING:
            raise Unsupported("unbound")
        return TRUE

    # ----------------------------------------------------- elementwise ops
    def elementwise(self, f, vals, dt=None):
        """Broadcasting application of a term function."""
        vals = [self.res(v) for v in vals]
        if all(isinstance(v, T) for v in vals):
            return f(*vals)
        for v in vals:
            if isinstance(v, Unk):
                return Unk(v.why)
            if v is NONE:
                raise PyRaise("TypeError: None in arithmetic")
            if isinstance(v, str):
                raise PyRaise("TypeError: string in arithmetic")
            if isinstance(v, (Ext, Prim, Fn, ClassV)):
                return Unk("arithmetic on %r" % (v,))
            if isinstance(v, Ref) and isinstance(self.S.heap[v.loc], UnkC):
                return Unk(self.S.heap[v.loc].why)
        for k, v in enumerate(vals):
            if isinstance(v, IteV):
                if not (self.arrayish(v.a) and self.arrayish(v.b)):
                    return self.branch(v.c, lambda: self.elementwise(f, vals[:k] + [v.a] + vals[k + 1:], dt),
                                       lambda: self.elementwise(f, vals[:k] + [v.b] + vals[k + 1:], dt))
        arrs = [self.arr(v) for v in vals]
        c = self.map_arr(f, arrs, dt)
        if isinstance(c, Arr) and c.rank == 0:
            return c()
        return self.new(c)

    def arrayish(self, v):
        v = self.res(v)
        if isinstance(v, T):
            return True
        if isinstance(v, IteV):
            return self.arrayish(v.a) and self.arrayish(v.b)
        if isinstance(v, Ref):
            c = self.S.heap[v.loc]
            return isinstance(c, (Arr, PW, ViewC, Lst, Seq))
        return isinstance(v, Tup)

    def map_arr(self, f, arrs, dt=None):
        if any(isinstance(a, PW) for a in arrs):
            ts, mask, tag = [], None, "pt"
            for a in arrs:
                if isinstance(a, PW):
                    ts.append(a.t)
                    tag = a.tag
                    if a.mask is not None:
                        if mask is not None and mask is not a.mask:
                            raise Unsupported("differently masked arrays")
                        mask = a.mask
                elif a.rank == 0 or all(numval(s) == 1 for s in a.shape):
                    ts.append(a(*[ZERO] * a.rank))
                else:
                    raise Unsupported("array of unknown shape combined with one of known shape")
            return PW(f(*ts), dt, mask, tag)
        mask = None
        masked = [a for a in arrs if a.mask is not None]
        if masked:
            mask = masked[0].mask
            for a in masked[1:]:
                if a.mask is not mask and not self.same_arr(a.mask, mask):
                    raise Unsupported("differently masked arrays")
            for a in arrs:
                if a.mask is None and a.rank != 0 and not all(numval(s) == 1 for s in a.shape):
                    raise Unsupported("masked array combined with a full one")
        sh = self.bshape([a.shape for a in arrs])
        r = len(sh)

        def g(*ix):
            ts = []
            for a in arrs:
                off = r - a.rank
                ts.append(a(*[ZERO if numval(s) == 1 and numval(sh[off + k]) != 1 else ix[off + k] for k, s in enumerate(a.shape)]))
            return f(*ts)

        return Arr(sh, g, dt, mask)

    def same_arr(self, a, b):
        if a is b:
            return True
        if isinstance(a, T) or isinstance(b, T):
            return a is b
        if a.rank != b.rank:
            return False
        ix = [tm.sym("ix%d" % k, int=True, lo=0) for k in range(a.rank)]
        return a(*ix) is b(*ix)

    def bshape(self, shapes):
        r = max(len(s) for s in shapes)
        out = []
        for k in range(r):
            d = ONE
            for s in shapes:
                j = k - (r - len(s))
                if j < 0:
                    continue
                x = s[j]
                if numval(x) == 1:
                    continue
                if d is ONE or numval(d) == 1:
                    d = x
                elif d is not x:
                    if d.op == "num" and x.op == "num":
                        raise PyRaise("ValueError: shapes do not broadcast")
                    # equal, or the code fails
                    if x.op == "num" or len(tm.subterms(x)) < len(tm.subterms(d)):
                        d = x
            out.append(d)
        return tuple(out)

    # ----------------------------------------------------------- operators
    def binop(self, op, a, b, inplace=None):
        a, b = self.res(a), self.res(b)
        if isinstance(a, IteV) and not self.arrayish(a):
            return self.branch(a.c, lambda: self.binop(op, a.a, b), lambda: self.binop(op, a.b, b))
        if isinstance(b, IteV) and not self.arrayish(b):
            return self.branch(b.c, lambda: self.binop(op, a, b.a), lambda: self.binop(op, a, b.b))
        # strings
        if isinstance(a, str) or isinstance(b, str):
            if op == "Add" and isinstance(a, str) and isinstance(b, str):
                return a + b
            if op == "Mod" and isinstance(a, str) and self.tokens:
                return self.percent(a, b.items if isinstance(b, Tup) else [b])
            if op == "Mod" and isinstance(a, str):
                items = [self.to_str(x) for x in (b.items if isinstance(b, Tup) else [b])]
                if all(x is not None for x in items):
                    try:
                        return a % (tuple(items) if isinstance(b, Tup) else items[0])
                    except (TypeError, ValueError):
                        pass
                return Unk("string")
            if op == "Mult" and isinstance(b, T) and b.op == "num":
                return a * int(numval(b))
            return Unk("string operation")
        # tuples and lists
        if isinstance(a, Tup) or isinstance(b, Tup):
            if isinstance(a, Tup) and isinstance(b, Tup) and op == "Add":
                return Tup(a.items + b.items)
            if isinstance(a, (ShapeV, ShapeTail)) or isinstance(b, (ShapeV, ShapeTail)):
                return ShapeCat(a, b)
            if op == "Mult":
                t, n = (a, b) if isinstance(a, Tup) else (b, a)
                if isinstance(n, T) and n.op == "num":
                    return Tup(t.items * int(numval(n)))
        if isinstance(a, (ShapeV, ShapeCat)) or isinstance(b, (ShapeV, ShapeCat)):
            if op == "Add":
                return ShapeCat(a, b)
        if isinstance(a, Ref) and op in ("Add", "Mult"):
            c = self.S.heap[a.loc]
            if isinstance(c, (Lst, Seq)):
                if op == "Add" and isinstance(b, Ref) and isinstance(self.S.heap[b.loc], (Lst, Seq)):
                    d = self.S.heap[b.loc]
                    if isinstance(c, Lst) and isinstance(d, Lst):
                        return self.new(Lst(c.items + d.items))
                    return self.new(self.seq_concat(c, d))
                if op == "Mult" and isinstance(b, T):
                    if b.op == "num":
                        return self.new(Lst(c.items * int(numval(b)))) if isinstance(c, Lst) else Unk("list")
                    if isinstance(c, Lst) and len(c.items) == 1:
                        return self.new(Seq(b, lambda k: c.items[0]))
        if isinstance(b, Ref) and op == "Mult" and isinstance(a, T) and isinstance(self.S.heap[b.loc], Lst):
            return self.binop(op, b, a)
        # user operators
        for x, y, pre in ((a, b, "__"), (b, a, "__r")):
            if isinstance(x, Ref) and isinstance(self.S.heap[x.loc], ObjC):
                c = self.S.heap[x.loc]
                m = self.class_member(c.cls, pre + OPNAME[op] + "__")
                if m is not None:
                    return self.call(Bound(m, x), [y], {})
        f = BINOPS.get(op)
        if f is None:
            if op == "MatMult":
                return self.np.matmul(self, [a, b], {})
            raise Unsupported("operator " + op)
        dt = None
        if op in ("Add", "Sub", "Mult", "FloorDiv", "Mod"):
            da, db = self.dtof(a), self.dtof(b)
            if da == db == "int":
                dt = "int"
        if op in ("BitAnd", "BitOr", "BitXor"):
            da, db = self.dtof(a), self.dtof(b)
            if da == db:
                dt = da
        return self.elementwise(f, [a, b], dt)

    def dtof(self, v):
        v = self.res(v)
        if isinstance(v, T):
            return "bool" if v.isb else ("int" if tm.is_int(v) else "float")
        if isinstance(v, Ref):
            c = self.S.heap[v.loc]
            while isinstance(c, ViewC):
                c = self.S.heap[c.base]
            if isinstance(c, (Arr, PW)):
                return c.dt
        return None

    def seq_concat(self, a, b):
        def asn(c):
            if isinstance(c, Lst):
                it = self.const_iter(c.items)
                return it.n, it.get
            return c.n, c
        na, fa = asn(a)
        nb, fb = asn(b)

        def f(k):
            c = self.under_pc(lt(k, na))
            if c is TRUE:
                return fa(k)
            if c is FALSE:
                return fb(sub(k, na))
            return self.merge_val(c, fa(k), fb(sub(k, na)))

        return Seq(add(na, nb), f)

    def compare(self, op, a, b):
        a, b = self.res(a), self.res(b)
        if op in ("Is", "IsNot"):
            r = self.is_same(a, b)
            return b_not(r) if op == "IsNot" else r
        if op in ("In", "NotIn"):
            r = self.contains(b, a)
            return b_not(r) if op == "NotIn" else r
        if isinstance(a, IteV) and not self.arrayish(a):
            return self.branch(a.c, lambda: self.compare(op, a.a, b), lambda: self.compare(op, a.b, b))
        if isinstance(b, IteV) and not self.arrayish(b):
            return self.branch(b.c, lambda: self.compare(op, a, b.a), lambda: self.compare(op, a, b.b))
        if op in ("Eq", "NotEq"):
            r = self.values_equal(a, b)
            if r is not None:
                return b_not(r) if op == "NotEq" else r
        if isinstance(a, str) and isinstance(b, str):
            return TRUE if {"Lt": a < b, "LtE": a <= b, "Gt": a > b, "GtE": a >= b}[op] else FALSE
        if a is NONE or b is NONE:
            raise PyRaise("TypeError: comparison with None")
        f = CMPOPS[op]
        return self.elementwise(f, [a, b], "bool")

    def is_same(self, a, b):
        if isinstance(a, IteV):
            return ite(a.c, self.is_same(self.res(a.a), b), self.is_same(self.res(a.b), b))
        if isinstance(b, IteV):
            return ite(b.c, self.is_same(a, self.res(b.a)), self.is_same(a, self.res(b.b)))
        if isinstance(a, Unk) or isinstance(b, Unk):
            return opaque("is", isb=True)
        if a is NONE or b is NONE:
            if isinstance(a, Abs) or isinstance(b, Abs):
                x = a if isinstance(a, Abs) else b
                n = x.attrs.get("$isnone")
                if n is not None:
                    return n
            return TRUE if a is b else FALSE
        if isinstance(a, Ref) and isinstance(b, Ref):
            return TRUE if a.loc == b.loc else FALSE
        if isinstance(a, T) and isinstance(b, T):
            return eq(a, b)
        if isinstance(a, Ext) and isinstance(b, Ext):
            return TRUE if a.path == b.path else FALSE
        return TRUE if a is b else FALSE

    def contains(self, cont, x):
        cont = self.res(cont)
        if isinstance(cont, str) and isinstance(x, str):
            return TRUE if x in cont else FALSE
        if isinstance(cont, Unk):
            return opaque("in", isb=True)
        if isinstance(cont, IteV):
            return ite(cont.c, self.contains(cont.a, x), self.contains(cont.b, x))
        if isinstance(cont, Ref) and isinstance(self.content(cont), Dct):
            c = self.content(cont)
            try:
                k = self.key(x)
            except Unsupported:
                return opaque("in", isb=True)
            if k not in c.d:
                return FALSE
            v = c.d[k]
            return self.present(v)
        if isinstance(cont, Abs) and "__contains__" in cont.attrs:
            return cont.attrs["__contains__"](self, x)
        if isinstance(cont, Ref) and isinstance(self.content(cont), ObjC):
            c = self.content(cont)
            m = self.class_member(c.cls, "__contains__")
            if m is not None:
                return self.truth(self.call(Bound(m, cont), [x], {}))
        try:
            items = self.const_items(cont)
        except Unsupported:
            return opaque("in", isb=True)
        r = FALSE
        for y in items:
            e = self.values_equal(x, y)
            if e is None:
                try:
                    e = self.truth(self.compare("Eq", x, y))
                except Unsupported:
                    e = opaque("in", isb=True)
            r = b_or(r, e)
        return r

    def present(self, v):
        if v is MISSING:
            return FALSE
        if isinstance(v, IteV):
            return ite(self.under_pc(v.c), self.present(v.a), self.present(v.b))
        return TRUE

    def values_equal(self, a, b):
        """Equality of non-array values as a condition, None if arrays are involved."""
        if isinstance(a, T) and isinstance(b, T):
            return eq(a, b)
        if isinstance(a, str) or isinstance(b, str):
            if isinstance(a, str) and isinstance(b, str):
                return TRUE if a == b else FALSE
            if isinstance(a, Unk) or isinstance(b, Unk):
                return opaque("string comparison", isb=True)
            return FALSE
        if a is NONE or b is NONE:
            if isinstance(a, Unk) or isinstance(b, Unk):
                return opaque("none", isb=True)
            return TRUE if a is b else FALSE
        if isinstance(a, Tup) and isinstance(b, Tup):
            if len(a.items) != len(b.items):
                return FALSE
            r = TRUE
            for x, y in zip(a.items, b.items):
                e = self.values_equal(self.res(x), self.res(y))
                if e is None:
                    e = opaque("tuple comparison", isb=True)
                r = b_and(r, e)
            return r
        if isinstance(a, ShapeV) and isinstance(b, ShapeV):
            return TRUE if a.tag == b.tag else opaque("shapes", isb=True)
        if isinstance(a, ShapeV) or isinstance(b, ShapeV):
            return opaque("shapes", isb=True)
        if isinstance(a, (ClassV, Ext, Fn)) or isinstance(b, (ClassV, Ext, Fn)):
            return self.is_same(a, b)
        if isinstance(a, Ref) and isinstance(b, Ref):
            ca, cb = self.content(a), self.content(b)
            if isinstance(ca, Lst) and isinstance(cb, Lst):
                return self.values_equal(Tup(ca.items), Tup(cb.items))
            if isinstance(ca, ObjC) and isinstance(cb, ObjC):
                m = self.class_member(ca.cls, "__eq__")
                if m is not None:
                    return self.truth(self.call(Bound(m, a), [b], {}))
                return TRUE if a.loc == b.loc else FALSE
        if isinstance(a, Unk) or isinstance(b, Unk):
            return opaque("comparison", isb=True)
        return None

    # ------------------------------------------------------------ indexing
    def norm_index(self, i, n):
        if tm.nonneg(i):
            return i
        if tm.positive(neg(i)):
            return add(i, n)
        c = self.under_pc(lt(i, ZERO))
        return ite(c, add(i, n), i)

    def slice_bounds(self, s, n):
        """start, step, length of a slice on an axis of length n."""
        step = ONE if s.step is NONE else self.scalar(s.step)
        sv = numval(step)
        if s.start is NONE and s.stop is NONE and sv == 1:
            return ZERO, ONE, n
        if sv is None:
            if not tm.positive(step):
                raise Unsupported("slice step")
            if s.stop is not NONE:
                raise Unsupported("slice with symbolic step and stop")
            a = ZERO if s.start is NONE else self.scalar(s.start)
            if not tm.nonneg(a):
                raise Unsupported("slice start")
            ln = tm.floor(div(add(sub(n, a), sub(step, ONE)), step))
            return a, step, ln
        if sv < 0:
            if sv != -1:
                raise Unsupported("slice step %s" % sv)
            a = sub(n, ONE) if s.start is NONE else self.norm_index(self.scalar(s.start), n)
            if s.stop is NONE:
                ln = add(a, ONE)
            else:
                ln = sub(a, self.norm_index(self.scalar(s.stop), n))
            return a, num(-1), ln
        a = ZERO if s.start is NONE else self.clamp(self.norm_index(self.scalar(s.start), n), n, lower=s.start)
        b = n if s.stop is NONE else self.clamp(self.norm_index(self.scalar(s.stop), n), n, upper=True)
        ln = sub(b, a)
        if sv != 1:
            ln = tm.floor(div(add(ln, num(sv - 1)), num(sv)))
        ln = self.nonneg_len(ln)
        return a, step, ln

    def nonneg_len(self, ln):
        # an empty slice when start > stop; assumed in range unless decidable
        if ln.op == "num" and ln.args[0] < 0:
            return ZERO
        return ln

    def clamp(self, i, n, lower=None, upper=False):
        if i.op == "num" and n.op == "num":
            return num(max(0, min(i.args[0], n.args[0])))
        if upper and tm.nonneg(sub(i, n)):
            return n
        return i

    def scalar(self, v):
        v = self.res(v)
        if isinstance(v, T):
            return b2n(v) if v.isb else v
        if isinstance(v, Ref):
            c = self.content(v)
            if isinstance(c, Arr) and (c.rank == 0 or all(numval(s) == 1 for s in c.shape)):
                return c(*[ZERO] * c.rank)
            if isinstance(c, PW):
                return c.t
        if isinstance(v, IteV):
            return ite(v.c, self.scalar(v.a), self.scalar(v.b))
        if isinstance(v, Unk):
            return opaque(v.why)
        raise Unsupported("%r used as a number" % (v,))

    def expand_index(self, ix, rank):
        items = list(ix.items) if isinstance(ix, Tup) else [ix]
        items = [self.res(x) for x in items]
        used = 0
        for x in items:
            if x is NONE or x is ELLIPSIS:
                continue
            if isinstance(x, Ref):
                a = self.arr(x, "index")
                if isinstance(a, Arr) and a.dt == "bool" or isinstance(a, PW):
                    used += a.rank if isinstance(a, Arr) else 1
                    continue
            used += 1
        if ELLIPSIS in [x if x is ELLIPSIS else None for x in items]:
            k = [i for i, x in enumerate(items) if x is ELLIPSIS][0]
            items = items[:k] + [SliceV(NONE, NONE, NONE)] * (rank - used) + items[k + 1:]
        else:
            items = items + [SliceV(NONE, NONE, NONE)] * (rank - used)
        if used > rank:
            raise PyRaise("IndexError: too many indices")
        return items

    def getitem(self, v, ix):
        v = self.res(v)
        ix = self.res(ix)
        if isinstance(v, IteV):
            if self.arrayish(v):
                try:
                    c = self.content(v)
                    if isinstance(c, (Arr, PW)):
                        v2 = self.new(c)
                        return self.getitem(v2, ix)
                except Unsupported:
                    pass
            return self.branch(v.c, lambda: self.getitem(v.a, ix), lambda: self.getitem(v.b, ix))
        if isinstance(ix, IteV) and not isinstance(ix, T):
            return self.branch(ix.c, lambda: self.getitem(v, ix.a), lambda: self.getitem(v, ix.b))
        if isinstance(v, Unk):
            return Unk(v.why)
        if isinstance(v, str):
            if isinstance(ix, Tup):
                raise PyRaise("TypeError: string indices must be integers")
            if isinstance(ix, T) and ix.op == "num":
                return v[int(numval(ix))]
            if isinstance(ix, SliceV):
                g = lambda x: None if x is NONE else int(numval(self.scalar(x)))
                return v[g(ix.start):g(ix.stop):g(ix.step)]
            return Unk("string index")
        if isinstance(v, Tup):
            return self.index_items(list(v.items), ix, True)
        if isinstance(v, ShapeV):
            return self.np.shape_item(self, v, ix)
        if isinstance(v, ShapeCat):
            raise Unsupported("shape")
        if isinstance(v, Abs):
            if "__getitem__" in v.attrs:
                g = v.attrs["__getitem__"]
                if isinstance(g, Prim):
                    return self.call(g, [ix], {})
                return g(self, v, ix)
            raise Unsupported("index of " + v.name)
        if isinstance(v, Iter):
            if isinstance(ix, T):
                return v.get(ix)
        if isinstance(v, T):
            if ix is ELLIPSIS or (isinstance(ix, Tup) and all(x is ELLIPSIS for x in ix.items)):
                return v
            if ix is NONE or isinstance(ix, Tup) and all(x is NONE or x is ELLIPSIS for x in ix.items):
                k = 1 if ix is NONE else sum(x is NONE for x in ix.items)
                return self.new(Arr((ONE,) * k, lambda *a: v))
            raise PyRaise("TypeError: scalar is not subscriptable")
        if isinstance(v, Ref):
            c = self.S.heap[v.loc]
            if isinstance(c, CondC):
                c = self.res_content(c)
                if isinstance(c, CondC):
                    def sel(which):
                        def go():
                            self.S.heap[v.loc] = which
                            return self.getitem(v, ix)
                        return go
                    return self.branch(c.c, sel(c.a), sel(c.b))
            if isinstance(c, Lst):
                if isinstance(ix, (Ref, Tup)):
                    raise PyRaise("TypeError: list index")
                return self.index_items(c.items, ix, False)
            if isinstance(c, Dct):
                k = self.key(ix)
                if k not in c.d:
                    raise PyRaise("KeyError: %s" % (k,))
                r = self.res(c.d[k])
                if r is MISSING:
                    raise PyRaise("KeyError: %s" % (k,))
                return r
            if isinstance(c, Seq):
                if isinstance(ix, T):
                    return c(self.norm_index(ix, c.n))
                if isinstance(ix, SliceV):
                    a, st, n = self.slice_bounds(ix, c.n)
                    return self.new(Seq(n, lambda k: c(add(a, mul(st, k)))))
                raise Unsupported("sequence index")
            if isinstance(c, LstMu):
                if isinstance(ix, T) and ix.op == "num" and -len(c.items) <= numval(ix) < 0:
                    return c.items[int(numval(ix))]
                raise Unsupported("element of growing list")
            if isinstance(c, UnkC):
                return Unk(c.why)
            if isinstance(c, ObjC):
                m = self.class_member(c.cls, "__getitem__")
                if m is not None:
                    return self.call(Bound(m, v), [ix], {})
                h = self.np.EXTOBJ_ITEM(self, v, c, ix)
                if h is not None:
                    return h
                return Unk("item of " + c.cls.name)
            if isinstance(c, PW):
                return self.pw_index(v, c, ix)
            return self.arr_index(v, ix)
        if isinstance(v, Ext):
            return Unk("item of " + v.path)
        if v is NONE:
            raise PyRaise("TypeError: None is not subscriptable")
        if isinstance(v, (Prim, Fn, Bound)):
            return Unk("item of function")
        raise Unsupported("index of %r" % (v,))

    def index_items(self, items, ix, astuple):
        if isinstance(ix, SliceV):
            g = lambda x: None if x is NONE else numval(self.scalar(x))
            a, b, c = g(ix.start), g(ix.stop), g(ix.step)
            if any(x is not NONE and g(x) is None for x in (ix.start, ix.stop, ix.step)):
                raise Unsupported("symbolic slice of a list")
            toi = lambda x: None if x is None else int(x)
            r = items[toi(a):toi(b):toi(c)]
            return Tup(r) if astuple else self.new(Lst(r))
        if isinstance(ix, T):
            ix = b2n(ix) if ix.isb else ix
            k = numval(ix)
            if k is None:
                if not items:
                    raise PyRaise("IndexError")
                i = self.norm_index(ix, num(len(items)))
                return self.const_iter(items).get(i)
            if not -len(items) <= k < len(items):
                raise PyRaise("IndexError: list index out of range")
            return items[int(k)]
        if isinstance(ix, Unk):
            return Unk(ix.why)
        raise Unsupported("list index %r" % (ix,))

    def pw_index(self, v, c, ix):
        items = list(ix.items) if isinstance(ix, Tup) else [ix]
        if all(x is ELLIPSIS or isinstance(x, SliceV) and x.start is NONE and x.stop is NONE and x.step is NONE for x in items):
            return v
        if len(items) == 1 and isinstance(items[0], Ref):
            m = self.content(items[0])
            if isinstance(m, PW) and m.dt == "bool":
                return self.new(PW(c.t, c.dt, m.t if c.mask is None else b_and(c.mask, m.t), c.tag))
        raise Unsupported("index into an array of unknown shape")

    def arr_index(self, v, ix):
        a = self.content(v)
        if not isinstance(a, Arr):
            raise Unsupported("index of %s" % type(a).__name__)
        items = self.expand_index(ix, a.rank)
        if a.mask is not None:
            if a.mask is not None and isinstance(ix, T):
                raise Unsupported("element of masked array")
            raise Unsupported("index of masked array")
        adv = [x for x in items if isinstance(x, Ref) or isinstance(x, Tup)]
        if not adv:
            axes, sh = [], []
            basic = True
            newaxes = []
            va = 0
            ax = 0
            for x in items:
                if x is NONE:
                    sh.append(ONE)
                    newaxes.append(va)
                    va += 1
                    continue
                n = a.shape[ax]
                if isinstance(x, SliceV):
                    st, step, ln = self.slice_bounds(x, n)
                    axes.append(("s", st, step, ln, va))
                    sh.append(ln)
                    va += 1
                elif isinstance(x, T):
                    axes.append(("i", self.norm_index(b2n(x) if x.isb else x, n)))
                elif isinstance(x, Unk):
                    return Unk(x.why)
                else:
                    raise Unsupported("index %r" % (x,))
                ax += 1
            if not sh:
                return a(*[x[1] for x in axes])
            if newaxes:
                # reshaped view: stores through it are not modelled
                def f(*i):
                    full = [x[1] if x[0] == "i" else add(x[1], mul(x[2], i[x[4]])) for x in axes]
                    return a(*full)

                return self.new(Arr(sh, f, a.dt))
            return self.new(ViewC(v.loc, tuple(axes), sh))
        return self.adv_index(a, items)

    def adv_index(self, a, items):
        arrs = [(k, self.arr(x, "index")) for k, x in enumerate(items) if isinstance(x, (Ref, Tup))]
        if any(isinstance(x, PW) for k, x in arrs):
            raise Unsupported("index array of unknown shape")
        bools = [(k, x) for k, x in arrs if x.dt == "bool" or self.isbool(x)]
        if bools:
            if len(arrs) != 1:
                raise Unsupported("mixed mask index")
            k, m = bools[0]
            # a[mask] : compressed; other axes full slices or scalars
            return self.mask_read(a, items, k, m)
        bsh = self.bshape([x.shape for k, x in arrs])
        br = len(bsh)
        # numpy: adjacent advanced indices stay in place; scalars count as advanced
        isadv = [isinstance(x, (Ref, Tup, T)) for x in items]
        pos = [k for k, t in enumerate(isadv) if t]
        adjacent = all(isadv[k] for k in range(pos[0], pos[-1] + 1))
        first = pos[0] if adjacent else 0
        sh = []
        plan = []
        out = 0
        inserted = False
        layout = []
        for k, x in enumerate(items):
            if not inserted and k == first and adjacent:
                layout.append("B")
                inserted = True
            if x is NONE:
                layout.append(("n",))
            elif isinstance(x, SliceV):
                layout.append(("s", k))
        if not adjacent:
            layout.insert(0, "B")
        axno = {}
        ax = 0
        for k, x in enumerate(items):
            if x is NONE:
                continue
            axno[k] = ax
            ax += 1
        where = {}
        bpos = None
        for l in layout:
            if l == "B":
                bpos = len(sh)
                sh.extend(bsh)
            elif l[0] == "n":
                sh.append(ONE)
            else:
                k = l[1]
                st, step, ln = self.slice_bounds(items[k], a.shape[axno[k]])
                where[k] = (len(sh), st, step)
                sh.append(ln)

        def f(*ix):
            full = []
            b = ix[bpos:bpos + br]
            for k, x in enumerate(items):
                if x is NONE:
                    continue
                n = a.shape[axno[k]]
                if isinstance(x, SliceV):
                    p, st, step = where[k]
                    full.append(add(st, mul(step, ix[p])))
                elif isinstance(x, T):
                    full.append(self.norm_index(x, n))
                else:
                    y = [z for kk, z in arrs if kk == k][0]
                    off = br - y.rank
                    t = y(*[ZERO if numval(s) == 1 and numval(bsh[off + q]) != 1 else b[off + q] for q, s in enumerate(y.shape)])
                    full.append(self.norm_index(b2n(t) if t.isb else t, n))
            return a(*full)

        r = Arr(sh, f, a.dt)
        if not sh:
            return r()
        return self.new(r)

    def isbool(self, x):
        ix = [tm.sym("ix%d" % k, int=True, lo=0) for k in range(x.rank)]
        try:
            t = x(*ix)
        except Unsupported:
            return False
        return t.isb

    def mask_read(self, a, items, k, m):
        if any(not isinstance(x, SliceV) and j != k for j, x in enumerate(items)):
            # integer axes: reduce first
            keep = [j for j, x in enumerate(items) if not isinstance(x, T)]
            ax = 0
            pos = {}
            for j, x in enumerate(items):
                pos[j] = ax
                ax += m.rank if j == k else 1
            vals = {pos[j]: self.norm_index(x, a.shape[pos[j]]) for j, x in enumerate(items) if isinstance(x, T)}
            rest = [q for q in range(a.rank) if q not in vals]
            b = Arr([a.shape[q] for q in rest], lambda *ix: a(*[vals[q] if q in vals else ix[rest.index(q)] for q in range(a.rank)]), a.dt)
            items = [x for x in items if not isinstance(x, T)]
            return self.mask_read(b, items, [j for j, x in enumerate(items) if isinstance(x, (Ref, Tup))][0], m)
        for j, x in enumerate(items):
            if j != k and not (x.start is NONE and x.stop is NONE and x.step is NONE):
                raise Unsupported("mask with slices")
        if k != 0 or m.rank != a.rank:
            if k == 0:
                mm = Arr(a.shape, lambda *ix: m(*ix[:m.rank]), "bool")
                r = Arr(a.shape, a.f, a.dt, mm)
                r.memo = a.memo
                return self.new(r)
            raise Unsupported("mask on inner axes")
        r = Arr(a.shape, a.f, a.dt, m)
        r.memo = a.memo
        return self.new(r)

    # ---------------------------------------------------------- item store
    def setitem(self, v, ix, val):
        v = self.res(v)
        ix = self.res(ix)
        if isinstance(v, IteV):
            self.branch(v.c, lambda: self.setitem(v.a, ix, val), lambda: self.setitem(v.b, ix, val))
            return
        if isinstance(ix, IteV):
            self.branch(ix.c, lambda: self.setitem(v, ix.a, val), lambda: self.setitem(v, ix.b, val))
            return
        if isinstance(v, (Unk, Ext)):
            return
        if isinstance(v, Abs) and "__setitem__" in v.attrs:
            v.attrs["__setitem__"](self, v, ix, val)
            return
        if not isinstance(v, Ref):
            raise Unsupported("item store on %r" % (v,))
        c = self.S.heap[v.loc]
        if isinstance(c, CondC):
            c = self.res_content(c)
            if isinstance(c, CondC):
                def sel(which):
                    def go():
                        self.S.heap[v.loc] = which
                        self.setitem(v, ix, val)
                        return NONE
                    return go
                self.branch(c.c, sel(c.a), sel(c.b))
                return
        if isinstance(c, Dct):
            d = dict(c.d)
            d[self.key(ix)] = val
            self.S.heap[v.loc] = Dct(d)
            return
        if isinstance(c, Lst):
            if isinstance(ix, T) and ix.op == "num":
                k = int(numval(ix))
                if not -len(c.items) <= k < len(c.items):
                    raise PyRaise("IndexError")
                it = list(c.items)
                it[k] = val
                self.S.heap[v.loc] = Lst(it)
                return
            if isinstance(ix, T):
                i = self.norm_index(ix, num(len(c.items)))
                self.S.heap[v.loc] = Lst([self.merge_val(eq(i, num(k)), val, x) for k, x in enumerate(c.items)])
                return
            raise Unsupported("list store")
        if isinstance(c, Seq):
            if isinstance(ix, T):
                i = self.norm_index(ix, c.n)
                self.S.heap[v.loc] = Seq(c.n, lambda k: self.merge_val(eq(k, i), val, c(k)))
                return
            raise Unsupported("sequence store")
        if isinstance(c, ObjC):
            m = self.class_member(c.cls, "__setitem__")
            if m is not None:
                self.call(Bound(m, v), [ix, val], {})
                return
            raise Unsupported("item store on object")
        if isinstance(c, UnkC):
            return
        if isinstance(c, PW):
            items = list(ix.items) if isinstance(ix, Tup) else [ix]
            if len(items) == 1 and isinstance(items[0], Ref):
                m = self.content(items[0])
                if isinstance(m, PW) and (m.dt == "bool" or m.t.isb):
                    x = self.arr(val)
                    t = x.t if isinstance(x, PW) else x(*[ZERO] * x.rank)
                    self.S.heap[v.loc] = PW(ite(m.t, self.cast(t, c.dt), c.t), c.dt, c.mask, c.tag)
                    return
            if all(x is ELLIPSIS or isinstance(x, SliceV) and x.start is NONE and x.stop is NONE for x in items):
                x = self.arr(val)
                t = x.t if isinstance(x, PW) else x(*[ZERO] * x.rank)
                self.S.heap[v.loc] = PW(self.cast(t, c.dt), c.dt, c.mask, c.tag)
                return
            raise Unsupported("store into an array of unknown shape")
        self.arr_store(v.loc, ix, val)

    def cast(self, t, dt):
        if dt == "int":
            return tm.trunc(t)
        if dt == "bool" and not t.isb:
            return n2b(t)
        return t

    def arr_store(self, loc, ix, val):
        a = self.content(Ref(loc))
        if not isinstance(a, Arr):
            raise Unsupported("store into %s" % type(a).__name__)
        items = self.expand_index(ix, a.rank)
        items = [x for x in items if x is not NONE] if not any(isinstance(x, (Ref, Tup)) for x in items) else items
        if any(x is NONE for x in items):
            raise Unsupported("newaxis in store")
        val = self.res(val)
        if isinstance(val, Unk):
            whole = Arr(a.shape, lambda *i: opaque(val.why), a.dt)
            memo = {}
            u = "?store%d:%s" % (self.steps, val.why[:50])
            vfun = lambda *i: tm.mk("fn", u, *i)
            x = None
        else:
            x = self.arr_gated(val)
        adv = [(k, self.arr(y, "index")) for k, y in enumerate(items) if isinstance(y, (Ref, Tup))]
        if any(isinstance(y, PW) for k, y in adv):
            raise Unsupported("index of unknown shape")
        bools = [(k, y) for k, y in adv if y.dt == "bool" or self.isbool(y)]
        if bools:
            if len(adv) != 1:
                raise Unsupported("mixed mask store")
            k, m = bools[0]
            new = self.mask_store(a, items, k, m, x, val)
            self.put(loc, new)
            return
        # layout of the stored value's axes
        cond_parts = []  # per base axis
        bsh = self.bshape([y.shape for k, y in adv]) if adv else ()
        br = len(bsh)
        isadv = [isinstance(y, (Ref, Tup)) or (bool(adv) and isinstance(y, T)) for y in items]
        pos = [k for k, t in enumerate(isadv) if t]
        adjacent = bool(pos) and all(isadv[k] for k in range(pos[0], pos[-1] + 1))
        first = pos[0] if adjacent else 0
        vshape = []
        bpos = None
        spos = {}
        if adv and not adjacent:
            bpos = 0
            vshape.extend(bsh)
        info = []
        for k, y in enumerate(items):
            n = a.shape[k]
            if adv and adjacent and k == first:
                bpos = len(vshape)
                vshape.extend(bsh)
            if isinstance(y, SliceV):
                st, step, ln = self.slice_bounds(y, n)
                spos[k] = len(vshape)
                vshape.append(ln)
                info.append(("s", st, step, ln))
            elif isinstance(y, T):
                info.append(("i", self.norm_index(b2n(y) if y.isb else y, n)))
            elif isinstance(y, Unk):
                raise Unsupported("unknown index in store")
            else:
                info.append(("a", [z for kk, z in adv if kk == k][0]))
        if adv and br != 1:
            if br == 0:
                pass
            else:
                raise Unsupported("store through index arrays of rank %d" % br)
        # solve each index array for its position
        solved = None
        if adv and br == 1:
            solved = self.solve_index(adv[0][1], bsh[0])
            if solved is None:
                raise Unsupported("store through an index array that is not affine")
            if len(adv) > 1:
                raise Unsupported("store through several index arrays")
        vr = len(vshape)
        if x is not None and isinstance(x, PW):
            raise Unsupported("value of unknown shape stored into array of known shape")
        if x is not None and x.mask is not None:
            raise Unsupported("masked value stored")
        if x is not None and x.rank > vr:
            extra = x.rank - vr
            if all(numval(s) == 1 for s in x.shape[:extra]):
                y0 = x
                x = Arr(y0.shape[extra:], lambda *i: y0(*([ZERO] * extra + list(i))), y0.dt)
            else:
                raise PyRaise("ValueError: could not broadcast")

        def new(*ixs):
            cond = TRUE
            vi = [ZERO] * vr
            for k, inf in enumerate(info):
                q = ixs[k]
                if inf[0] == "i":
                    cond = b_and(cond, eq(q, inf[1]))
                elif inf[0] == "s":
                    st, step, ln = inf[1:]
                    n = a.shape[k]
                    if st is ZERO and step is ONE and ln is n:
                        vi[spos[k]] = q
                        continue
                    rel = sub(q, st)
                    if step is not ONE:
                        sv = numval(step)
                        if sv == -1:
                            rel = neg(rel)
                        else:
                            fl = tm.floor(div(rel, step))
                            cond = b_and(cond, eq(rel, mul(step, fl)))
                            rel = fl
                    if not (tm.nonneg(rel)):
                        cond = b_and(cond, le(ZERO, rel))
                    cond = b_and(cond, lt(rel, ln))
                    vi[spos[k]] = rel
                else:
                    p, c2 = solved(q)
                    cond = b_and(cond, c2)
                    vi[bpos] = p
            if cond is FALSE:
                return a(*ixs)
            if x is None:
                w = vfun(*vi)
            else:
                off = vr - x.rank
                w = x(*[ZERO if numval(s) == 1 and numval(vshape[off + j]) != 1 else vi[off + j] for j, s in enumerate(x.shape)])
            w = self.cast(w, a.dt)
            return ite(cond, w, a(*ixs))

        self.put(loc, Arr(a.shape, new, a.dt))

    def solve_index(self, y, n):
        """Index array y of length n: q -> (position, condition that q occurs)."""
        k = fresh("k", int=True, lo=0, hi=n)
        t = y(k)
        d = sub(t, k)
        if k not in free(d):
            def f(q):
                p = sub(q, d)
                c = b_and(TRUE if tm.nonneg(p) else le(ZERO, p), lt(p, n))
                return p, c
            return f
        return None

    def mask_store(self, a, items, k, m, x, val):
        ints = {}
        ax = 0
        pos = {}
        for j, y in enumerate(items):
            pos[j] = ax
            ax += m.rank if j == k else 1
        for j, y in enumerate(items):
            if j == k:
                continue
            if isinstance(y, T):
                ints[pos[j]] = self.norm_index(y, a.shape[pos[j]])
            elif isinstance(y, SliceV) and y.start is NONE and y.stop is NONE and y.step is NONE:
                pass
            else:
                raise Unsupported("mask store with slices")
        m0 = pos[k]
        if x is None:
            raise Unsupported("unknown value stored by mask")
        if isinstance(x, PW):
            raise Unsupported("shape")
        scalarv = x.rank == 0 or all(numval(s) == 1 for s in x.shape)
        if not scalarv:
            if x.mask is None:
                raise Unsupported("full array stored through a mask")
            if not self.same_arr(x.mask, m):
                raise Unsupported("array stored through a different mask")

        def new(*ix):
            c = n2b(m(*ix[m0:m0 + m.rank]))
            for p, t in ints.items():
                c = b_and(c, eq(ix[p], t))
            if c is FALSE:
                return a(*ix)
            w = x(*[ZERO] * x.rank) if scalarv else x(*[ix[p] for p in range(a.rank) if p not in ints])
            return ite(c, self.cast(w, a.dt), a(*ix))

        return Arr(a.shape, new, a.dt)

    def put(self, loc, new):
        """Replace the content of an array location, writing through views."""
        c = self.S.heap[loc]
        if isinstance(c, ViewC):
            base = self.content(Ref(c.base))
            axes, vsh = c.axes, c.shape

            def f(*ix):
                cond = TRUE
                vi = [ZERO] * len(vsh)
                for q, axx, n in zip(ix, axes, base.shape):
                    if axx[0] == "i":
                        cond = b_and(cond, eq(q, axx[1]))
                    else:
                        _, st, step, ln, va = axx
                        if st is ZERO and step is ONE and ln is n:
                            vi[va] = q
                            continue
                        rel = sub(q, st)
                        if step is not ONE:
                            if numval(step) == -1:
                                rel = neg(rel)
                            else:
                                fl = tm.floor(div(rel, step))
                                cond = b_and(cond, eq(rel, mul(step, fl)))
                                rel = fl
                        if not tm.nonneg(rel):
                            cond = b_and(cond, le(ZERO, rel))
                        cond = b_and(cond, lt(rel, ln))
                        vi[va] = rel
                if cond is FALSE:
                    return base(*ix)
                return ite(cond, self.cast(new(*vi), base.dt), base(*ix))

            self.put(c.base, Arr(base.shape, f, base.dt))
            return
        self.S.heap[loc] = new

    # ---------------------------------------------------------------- calls
    def call(self, f, args, kw):
        f = self.res(f)
        if isinstance(f, IteV):
            return self.branch(f.c, lambda: self.call(f.a, args, kw), lambda: self.call(f.b, args, kw))
        if isinstance(f, Prim):
            return f.f(self, args, kw)
        if isinstance(f, Bound):
            return self.call(f.fn, [f.selfv] + list(args), kw)
        if isinstance(f, Fn):
            return self.call_fn(f, args, kw)
        if isinstance(f, ClassV):
            return self.instantiate(f, args, kw)
        if isinstance(f, Ext):
            return self.np.call_ext(self, f.path, args, kw)
        if isinstance(f, Unk):
            return self.np.unknown_call(self, f.why, args, kw)
        if isinstance(f, Abs):
            h = f.attrs.get("__call__")
            if h is not None:
                return h.f(self, args, kw) if isinstance(h, Prim) else self.call(h, args, kw)
            raise Unsupported("call of " + f.name)
        if isinstance(f, Ref):
            c = self.S.heap[f.loc]
            if isinstance(c, ObjC):
                m = self.class_member(c.cls, "__call__")
                if m is not None:
                    return self.call(Bound(m, f), args, kw)
                h = self.np.EXTOBJ_CALL(self, f, c, args, kw)
                if h is not None:
                    return h
            if isinstance(c, UnkC):
                return self.np.unknown_call(self, c.why, args, kw)
        if f is NONE:
            raise PyRaise("TypeError: None is not callable")
        raise Unsupported("call of %r" % (f,))

    def instantiate(self, cls, args, kw):
        q = cls.mod.name + "." + cls.name
        if q in self.overrides:
            return self.overrides[q].f(self, args, kw)
        new = self.class_member(cls, "__new__")
        if new is not None:
            raise Unsupported("__new__")
        o = self.new(ObjC(cls, {}))
        init = self.class_member(cls, "__init__")
        if init is not None:
            self.call(init if not isinstance(init, (Fn, Prim)) else Bound(init, o), args, kw)
        elif any(isinstance(b, Ext) and b.path not in ("object", "builtins.object") for b in cls.ext_bases()):
            pass
        return o

    def bind(self, f, args, kw, fr):
        a = f.node.args
        pos = [x.arg for x in a.posonlyargs + a.args]
        kw = dict(kw)
        unkkw = kw.pop("**", None)
        n = len(pos)
        if len(args) > n and a.vararg is None:
            raise PyRaise("TypeError: too many arguments to " + f.name)
        for name, v in zip(pos, args):
            if name in kw:
                raise PyRaise("TypeError: multiple values for " + name)
            fr[name] = v
        nd = len(f.defaults)
        for k in range(len(args), n):
            name = pos[k]
            if name in kw:
                fr[name] = kw.pop(name)
            elif k >= n - nd:
                fr[name] = f.defaults[k - (n - nd)]
            elif unkkw is not None:
                fr[name] = Unk("**kwargs")
            else:
                raise PyRaise("TypeError: missing argument %s of %s" % (name, f.name))
        if a.vararg is not None:
            fr[a.vararg.arg] = Tup(args[n:])
        for x in a.kwonlyargs:
            if x.arg in kw:
                fr[x.arg] = kw.pop(x.arg)
            elif x.arg in f.kwdefaults:
                fr[x.arg] = f.kwdefaults[x.arg]
            else:
                raise PyRaise("TypeError: missing argument " + x.arg)
        if a.kwarg is not None:
            fr[a.kwarg.arg] = unkkw if unkkw is not None and not kw else self.new(Dct(kw))
        elif kw:
            raise PyRaise("TypeError: unexpected argument %s of %s" % (", ".join(map(str, kw)), f.name))

    def call_fn(self, f, args, kw):
        if f.name in self.overrides:
            return self.overrides[f.name].f(self, args, kw)
        if f.kind and f.kind.startswith("decorated:"):
            raise Unsupported("decorated function " + f.name)
        if self.depth > 40:
            raise Unsupported("call depth")
        if sum(1 for s in self.cstack if s == f.name) >= 3 and not isinstance(f.node, ast.Lambda):
            raise Unsupported("recursion in " + f.name)
        self.funcs.add(f.name)
        fid = self.frame(f.fid, f.mod)
        fr = self.S.frames[fid]
        self.bind(f, args, kw, fr)
        if f.cls is not None and args:
            fr["$cls"] = f.cls
            fr["$self"] = args[0]
        node = self.node
        self.depth += 1
        self.cstack.append(f.name)
        try:
            if isinstance(f.node, ast.Lambda):
                return self.eval(f.node.body, fid)
            isgen = _is_gen(f.node)
            if isgen:
                fr["$yield"] = self.new(Lst([]))
            for s in _locals(f.node):
                if s not in fr:
                    fr[s] = MISSING
            pc0 = self.S.pc
            outs = self.block(f.node.body, fid)
            rets = []
            raised = []
            for o in outs:
                if o.kind == "next":
                    rets.append(Out("return", o.S, NONE))
                elif o.kind == "return":
                    rets.append(o)
                elif o.kind == "raise":
                    raised.append(o)
            if not rets:
                nm = raised[0].val if raised else "?"
                self.S = raised[0].S if raised else self.S
                raise PyRaise(nm)
            for o in raised:
                self.note_raise(o.S, o.val)
            r = rets[0]
            for o in rets[1:]:
                r = self.merge_out(r, o)
            self.S = r.S
            if isgen:
                return self.S.frames[fid]["$yield"]
            return r.val
        finally:
            self.depth -= 1
            self.cstack.pop()
            self.node = node

    def merge_out(self, a, b):
        k = 0
        A, B = a.S, b.S
        while k < len(A.pc) and k < len(B.pc) and A.pc[k] is B.pc[k]:
            k += 1
        ga, gb = b_and(*A.pc[k:]), b_and(*B.pc[k:])
        # prefer the simpler gate
        if len(tm.subterms(gb)) < len(tm.subterms(ga)):
            g = b_not(gb)
        else:
            g = ga
        if ga is TRUE and gb is TRUE:
            raise Unsupported("undistinguished paths")
        if ga is TRUE:
            g = b_not(gb)
        if gb is TRUE:
            g = ga
        S = self.merge(g, A, B)
        va = a.val if a.val is not None else NONE
        vb = b.val if b.val is not None else NONE
        return Out(a.kind, S, self.merge_val(g, va, vb))

    # ------------------------------------------------------------ statements
    def block(self, stmts, fid):
        """Analyse statements from self.S; list of outcomes, one per kind."""
        outs = {}
        for st in stmts:
            self.stmts += 1
            self.node = st
            try:
                res = self.stmt(st, fid)
            except PyRaise as e:
                if " @" not in e.name:
                    e.name += " @%s:%d" % (self.cstack[-1] if self.cstack else "?", st.lineno)
                res = [Out("raise", self.S, e.name)]
            nxt = None
            for o in res:
                if o.kind == "next":
                    nxt = o
                else:
                    if o.kind in outs:
                        if o.kind == "raise":
                            self.note_raise(o.S, o.val)
                        else:
                            outs[o.kind] = self.merge_out(outs[o.kind], o)
                    else:
                        outs[o.kind] = o
            if nxt is None:
                return list(outs.values())
            self.S = nxt.S
        outs["next"] = Out("next", self.S)
        return list(outs.values())

    def stmt(self, st, fid):
        m = getattr(self, "s_" + type(st).__name__, None)
        if m is None:
            raise Unsupported("statement " + type(st).__name__)
        r = m(st, fid)
        if r is None:
            return [Out("next", self.S)]
        return r

    def s_Expr(self, st, fid):
        if isinstance(st.value, ast.Constant):
            return
        if isinstance(st.value, ast.Yield):
            v = self.eval(st.value.value, fid) if st.value.value else NONE
            y = self.lookup("$yield", fid)
            self.np.list_append(self, y, v)
            return
        self.eval(st.value, fid)

    def s_Pass(self, st, fid):
        return

    def s_Assign(self, st, fid):
        v = self.eval(st.value, fid)
        for t in st.targets:
            self.assign(t, v, fid)

    def s_AnnAssign(self, st, fid):
        if st.value is not None:
            self.assign(st.target, self.eval(st.value, fid), fid)

    def assign(self, t, v, fid):
        if isinstance(t, ast.Name):
            g = self.S.frames[fid].get("$global")
            if g and t.id in g:
                self.S.frames.setdefault(("$mod", self.fmeta[fid][1].name), {})[t.id] = v
                return
            nl = self.S.frames[fid].get("$nonlocal")
            if nl and t.id in nl:
                f = self.fmeta[fid][0]
                while f is not None:
                    if t.id in self.S.frames[f]:
                        self.S.frames[f][t.id] = v
                        return
                    f = self.fmeta[f][0]
            self.S.frames[fid][t.id] = v
        elif isinstance(t, (ast.Tuple, ast.List)):
            self.unpack(t.elts, v, fid)
        elif isinstance(t, ast.Attribute):
            self.setattr(self.eval(t.value, fid), t.attr, v)
        elif isinstance(t, ast.Subscript):
            o = self.eval(t.value, fid)
            self.setitem(o, self.eval(t.slice, fid), v)
        elif isinstance(t, ast.Starred):
            raise Unsupported("starred target")
        else:
            raise Unsupported("target")

    def unpack(self, elts, v, fid):
        v = self.res(v)
        if isinstance(v, IteV):
            # distribute over the elements
            a, b = v.a, v.b
            try:
                xa = self.unpack_items(elts, a)
                xb = self.unpack_items(elts, b)
                items = [self.merge_val(v.c, x, y) for x, y in zip(xa, xb)]
            except PyRaise:
                raise Unsupported("unpacking")
        else:
            items = self.unpack_items(elts, v)
        for t, x in zip(elts, items):
            if isinstance(t, ast.Starred):
                t = t.value
            self.assign(t, x, fid)

    def unpack_items(self, elts, v):
        v = self.res(v)
        if isinstance(v, Unk):
            return [Unk(v.why) for _ in elts]
        if isinstance(v, IteV):
            xa, xb = self.unpack_items(elts, v.a), self.unpack_items(elts, v.b)
            return [self.merge_val(v.c, x, y) for x, y in zip(xa, xb)]
        if isinstance(v, Ref) and isinstance(self.S.heap[v.loc], UnkC):
            return [Unk(self.S.heap[v.loc].why) for _ in elts]
        if isinstance(v, ShapeV):
            return [self.np.shape_item(self, v, num(k)) for k in range(len(elts))]
        star = [k for k, e in enumerate(elts) if isinstance(e, ast.Starred)]
        it = self.iterate(v)
        n = numval(it.n)
        if star:
            items = self.const_items(v)
            k = star[0]
            tail = len(elts) - k - 1
            return items[:k] + [self.new(Lst(items[k:len(items) - tail]))] + items[len(items) - tail:]
        if n is not None and n != len(elts):
            raise PyRaise("ValueError: unpacking")
        return [it.get(num(k)) for k in range(len(elts))]

    def s_AugAssign(self, st, fid):
        op = type(st.op).__name__
        t = st.target
        if isinstance(t, ast.Name):
            cur = self.lookup(t.id, fid)
            rhs = self.eval(st.value, fid)
            r = self.iop(op, cur, rhs)
            self.assign(t, r, fid)
        elif isinstance(t, ast.Attribute):
            o = self.eval(t.value, fid)
            cur = self.getattr(o, t.attr)
            rhs = self.eval(st.value, fid)
            self.setattr(o, t.attr, self.iop(op, cur, rhs))
        elif isinstance(t, ast.Subscript):
            o = self.eval(t.value, fid)
            ix = self.eval(t.slice, fid)
            cur = self.getitem(o, ix)
            rhs = self.eval(st.value, fid)
            r = self.iop(op, cur, rhs)
            # a view has been updated in place already
            if isinstance(r, Ref) and isinstance(cur, Ref) and r.loc == cur.loc and isinstance(self.S.heap[r.loc], ViewC):
                return
            self.setitem(o, ix, r)
        else:
            raise Unsupported("augmented target")

    def iop(self, op, cur, rhs):
        cur = self.res(cur)
        if isinstance(cur, IteV):
            if not all(isinstance(self.res(x), T) for x in (cur.a, cur.b)):
                return self.branch(cur.c, lambda: self.iop(op, cur.a, rhs), lambda: self.iop(op, cur.b, rhs))
        if isinstance(cur, Ref):
            c = self.S.heap[cur.loc]
            if isinstance(c, (Lst, LstMu)) and op == "Add":
                q = self.res(rhs)
                if isinstance(c, Lst) and isinstance(q, Ref) and isinstance(self.S.heap[q.loc], (Arr, ViewC)):
                    # the array's addition comes first
                    return self.binop(op, self.new(self.arr(cur)), rhs)
                for x in self.const_items(rhs):
                    self.np.list_append(self, cur, x)
                return cur
            if isinstance(c, (Arr, PW, ViewC)):
                if isinstance(c, (Arr, PW)) and c.mask is not None:
                    return self.binop(op, cur, rhs)
                r = self.binop(op, cur, rhs)
                if isinstance(r, Unk):
                    self.taint(cur, r.why)
                    return cur
                x = self.arr(r)
                if isinstance(c, PW):
                    if not isinstance(x, PW):
                        raise Unsupported("shape")
                    self.S.heap[cur.loc] = PW(self.cast(x.t, c.dt), c.dt, None, c.tag)
                    return cur
                a = self.content(cur)
                if isinstance(x, PW) or x.rank != a.rank:
                    raise Unsupported("in-place operation changes shape")
                new = Arr(a.shape, lambda *ix: self.cast(x(*ix), a.dt), a.dt)
                self.put(cur.loc, new)
                return cur
        return self.binop(op, cur, rhs)

    def taint(self, v, why):
        if isinstance(v, Ref):
            c = self.S.heap[v.loc]
            if isinstance(c, (Arr, ViewC)):
                a = self.content(v)
                nm = "?taint%d:%s" % (self.steps, why[:50])
                self.put(v.loc, Arr(a.shape, lambda *ix: tm.mk("fn", nm, *ix), a.dt))
            elif isinstance(c, PW):
                self.S.heap[v.loc] = PW(opaque(why), c.dt, c.mask, c.tag)
            else:
                self.S.heap[v.loc] = UnkC(why)

    def s_If(self, st, fid):
        c = self.under_pc(self.truth(self.eval(st.test, fid)))
        if c is TRUE:
            return self.block(st.body, fid)
        if c is FALSE:
            return self.block(st.orelse, fid)
        S0 = self.S
        self.S = S0.copy()
        self.push(c)
        A = self.block(st.body, fid)
        self.S = S0.copy()
        self.push(b_not(c))
        B = self.block(st.orelse, fid)
        return self.join(c, A, B)

    def join(self, c, A, B):
        da = {o.kind: o for o in A}
        db = {o.kind: o for o in B}
        out = []
        for k in list(da) + [k for k in db if k not in da]:
            if k in da and k in db:
                S = self.merge(c, da[k].S, db[k].S)
                va = da[k].val if da[k].val is not None else NONE
                vb = db[k].val if db[k].val is not None else NONE
                if k == "raise":
                    out.append(Out(k, S, da[k].val))
                else:
                    out.append(Out(k, S, self.merge_val(c, va, vb) if k == "return" else None))
            else:
                out.append(da.get(k) or db.get(k))
        return out

    def s_Return(self, st, fid):
        v = NONE if st.value is None else self.eval(st.value, fid)
        return [Out("return", self.S, v)]

    def s_Break(self, st, fid):
        return [Out("break", self.S)]

    def s_Continue(self, st, fid):
        return [Out("continue", self.S)]

    def s_Raise(self, st, fid):
        nm = "raise"
        if st.exc is not None:
            x = st.exc.func if isinstance(st.exc, ast.Call) else st.exc
            nm = ast.unparse(x)
        return [Out("raise", self.S, nm + " @%s:%d" % (self.cstack[-1] if self.cstack else "?", st.lineno))]

    def s_Assert(self, st, fid):
        try:
            c = self.under_pc(self.truth(self.eval(st.test, fid)))
        except Unsupported:
            return
        if c is FALSE:
            return [Out("raise", self.S, "AssertionError")]
        if c is not TRUE:
            S = self.S.copy()
            S.pc = S.pc + (b_not(c),)
            self.note_raise(S, "AssertionError")
            if not is_opaque(c):
                self.push(c)

    def s_Global(self, st, fid):
        g = self.S.frames[fid].setdefault("$global", ())
        self.S.frames[fid]["$global"] = tuple(g) + tuple(st.names)
        for n in st.names:
            self.S.frames[fid].pop(n, None)

    def s_Nonlocal(self, st, fid):
        g = self.S.frames[fid].setdefault("$nonlocal", ())
        self.S.frames[fid]["$nonlocal"] = tuple(g) + tuple(st.names)
        for n in st.names:
            self.S.frames[fid].pop(n, None)

    def s_FunctionDef(self, st, fid):
        f = self.make_fn(st, self.fmeta[fid][1], fid)
        self.S.frames[fid][st.name] = f

    def s_ClassDef(self, st, fid):
        self.S.frames[fid][st.name] = self.make_class(st, self.fmeta[fid][1], fid)

    def s_Import(self, st, fid):
        for a in st.names:
            full = a.name if a.asname else a.name.split(".")[0]
            self.S.frames[fid][(a.asname or a.name).split(".")[0]] = self.import_module(full)

    def s_ImportFrom(self, st, fid):
        mod = self.fmeta[fid][1]
        for a in st.names:
            self.S.frames[fid][a.asname or a.name] = self.import_value(mod, st, a)

    def s_Delete(self, st, fid):
        for t in st.targets:
            if isinstance(t, ast.Name):
                self.S.frames[fid][t.id] = MISSING
            elif isinstance(t, ast.Subscript):
                o = self.res(self.eval(t.value, fid))
                ix = self.eval(t.slice, fid)
                c = self.content(o)
                if isinstance(c, Dct):
                    d = dict(c.d)
                    d.pop(self.key(ix), None)
                    self.S.heap[o.loc] = Dct(d)
                elif isinstance(c, Lst) and isinstance(ix, T) and ix.op == "num":
                    it = list(c.items)
                    del it[int(numval(ix))]
                    self.S.heap[o.loc] = Lst(it)
                else:
                    raise Unsupported("del item")
            elif isinstance(t, ast.Attribute):
                o = self.res(self.eval(t.value, fid))
                c = self.content(o)
                if isinstance(c, ObjC):
                    d = dict(c.attrs)
                    d.pop(t.attr, None)
                    self.S.heap[o.loc] = ObjC(c.cls, d)

    def s_Try(self, st, fid):
        nr = len(self.raises)
        res = self.block(st.body, fid)
        # conditional errors below which are handled here are not errors of the caller
        self.raises[nr:] = [r for r in self.raises[nr:] if self.handler_for(st, r[1]) is None]
        out = []
        for o in res:
            if o.kind == "raise":
                h = self.handler_for(st, o.val)
                if h is not None:
                    self.S = o.S
                    if h.name:
                        self.S.frames[fid][h.name] = Unk("exception")
                    hres = self.block(h.body, fid)
                    out.extend(hres)
                    continue
            elif o.kind == "next" and st.orelse:
                self.S = o.S
                out.extend(self.block(st.orelse, fid))
                continue
            out.append(o)
        out = self.combine(out)
        if st.finalbody:
            fin = []
            for o in out:
                self.S = o.S
                for r in self.block(st.finalbody, fid):
                    if r.kind == "next":
                        fin.append(Out(o.kind, r.S, o.val))
                    else:
                        fin.append(r)
            out = self.combine(fin)
        return out

    def combine(self, outs):
        d = {}
        for o in outs:
            if o.kind in d:
                if o.kind == "raise":
                    self.note_raise(o.S, o.val)
                    continue
                d[o.kind] = self.merge_out(d[o.kind], o)
            else:
                d[o.kind] = o
        return list(d.values())

    def handler_for(self, st, exc):
        name = (exc or "").split(" @")[0].split(":")[0].split(".")[-1]
        for h in st.handlers:
            if h.type is None:
                return h
            names = [ast.unparse(x).split(".")[-1] for x in (h.type.elts if isinstance(h.type, ast.Tuple) else [h.type])]
            for n in names:
                if n in ("Exception", "BaseException") or n == name:
                    return h
                if n == "LookupError" and name in ("KeyError", "IndexError"):
                    return h
                if n == "ImportError" and name == "ModuleNotFoundError":
                    return h
                if n == "ArithmeticError" and name == "ZeroDivisionError":
                    return h
        return None

    def s_With(self, st, fid):
        exits = []
        for it in st.items:
            v = self.eval(it.context_expr, fid)
            r = v
            v = self.res(v)
            if isinstance(v, Ref) and isinstance(self.S.heap[v.loc], ObjC):
                m = self.class_member(self.S.heap[v.loc].cls, "__enter__")
                if m is not None:
                    r = self.call(Bound(m, v), [], {})
                    x = self.class_member(self.S.heap[v.loc].cls, "__exit__")
                    exits.append(Bound(x, v))
                else:
                    h = self.np.EXTOBJ_ENTER(self, v, self.S.heap[v.loc])
                    if h is not None:
                        r = h[0]
                        exits.append(h[1])
            elif isinstance(v, Abs) and "__enter__" in v.attrs:
                r = self.call(v.attrs["__enter__"], [], {})
                exits.append(v.attrs["__exit__"])
            if it.optional_vars is not None:
                self.assign(it.optional_vars, r, fid)
        outs = self.block(st.body, fid)
        if exits:
            fin = []
            for o in outs:
                self.S = o.S
                for x in reversed(exits):
                    if x is not None:
                        try:
                            self.call(x, [NONE, NONE, NONE] if o.kind != "raise" else [Unk("exc")] * 3, {})
                        except PyRaise:
                            pass
                fin.append(Out(o.kind, self.S, o.val))
            outs = fin
        return outs

    # ----------------------------------------------------------------- loops
    def s_While(self, st, fid):
        if self.on_while is not None:
            r = self.on_while(self, st, fid)
            if r is not NotImplemented:
                return r
        if self.iterations is not None:
            return self.last_iteration(st, fid)
        # unroll while the condition is decided
        outs = []
        for k in range(MAXUNROLL):
            c = self.under_pc(self.truth(self.eval(st.test, fid)))
            if c is FALSE:
                outs.append(Out("next", self.S))
                return self.combine(outs)
            if c is not TRUE:
                break
            if k > 0 and isinstance(st.test, ast.Constant):
                break
            res = self.block(st.body, fid)
            nxt = []
            for o in res:
                if o.kind in ("next", "continue"):
                    nxt.append(Out("next", o.S))
                elif o.kind == "break":
                    outs.append(Out("next", o.S))
                else:
                    outs.append(o)
            nxt = self.combine(nxt)
            if not nxt:
                return self.combine(outs)
            self.S = nxt[0].S
        return self.havoc_loop(st, fid, outs)

    def last_iteration(self, st, fid, it=None):
        """Iterative solver: the state after the loop is that of one iteration,
        started from arbitrary values of everything the loop changes, which
        leaves the loop.  What was found is recorded for the specification."""
        self.loops += 1
        S0 = self.S
        mod = {}
        for attempt in range(12):
            self.S = S0.copy()
            tmpl = {}
            for key, kind in mod.items():
                self.set_mu(key, kind, tmpl, S0)
            S1 = self.S.copy()
            S1.pc = self.S.pc
            left = []
            if it is None:
                # left before the first iteration, or after one: the test then
                # sees what that iteration found
                S2 = self.S
                self.S = S0.copy()
                self.S.pc = S0.pc
                c = self.under_pc(self.truth(self.eval(st.test, fid)))
                if c is not TRUE:
                    SF = self.S.copy()
                    SF.pc = self.S.pc + (b_not(c),)
                    left.append(Out("next", SF))
                self.S = S2
                c = self.under_pc(self.truth(self.eval(st.test, fid))) if c is not FALSE else FALSE
            else:
                c = TRUE
                self.assign(st.target, it.get(fresh("i", int=True, lo=0, hi=it.n)), fid)
            res = []
            if c is not FALSE:
                self.push(c)
                res = self.block(st.body, fid)
            for o in res:
                if o.kind == "raise":
                    self.note_raise(o.S, o.val)
            nxt = [Out("next", o.S) for o in res if o.kind in ("next", "continue")]
            left += [Out("next", o.S) if o.kind == "break" else o for o in res if o.kind in ("break", "return")]
            if it is None:
                again = []
                for o in nxt:
                    self.S = o.S.copy()
                    self.S.pc = o.S.pc
                    ce = self.under_pc(self.truth(self.eval(st.test, fid)))
                    if ce is not TRUE:
                        SF = self.S.copy()
                        SF.pc = self.S.pc + (b_not(ce),)
                        left.append(Out("next", SF))
                    if ce is not FALSE:
                        again.append(o)
                nxt = again
            end = self.combine(nxt)[0].S if nxt else None
            last = None
            if it is not None and end is not None:
                # all iterations done: seen from the last one
                self.S = S1.copy()
                self.S.pc = S1.pc
                self.assign(st.target, it.get(sub(it.n, ONE)), fid)
                done = [Out("next", o.S) for o in self.block(st.body, fid) if o.kind in ("next", "continue")]
                last = self.combine(done)[0].S if done else None
            if last is not None:
                self.S = last
                for o in self.block(st.orelse, fid) if st.orelse else [Out("next", self.S)]:
                    if o.kind == "raise":
                        res.append(o)
                        self.note_raise(o.S, o.val)
                    else:
                        left.append(o)
            changed = {}
            for S in [o.S for o in left] + ([end] if end is not None else []):
                changed.update(self.diff_state(S1, S, S0))
            new = [k for k in changed if k not in mod and (end is None or k in self.diff_state(S1, end, S0))]
            new = [k for k in new if end is not None and not (k[0] == "h" and k[1] not in S0.heap)]
            for k in new:
                mod[k] = self.mu_kind(k, S0, end, None, None)
                v = self.res(self.key_get(end, k))
                if mod[k] == ("last",) and self.res(self.key_get(S0, k)) is NONE and isinstance(v, T) and v.op == "num":
                    mod[k] = ("either", v)
            if not new:
                break
        else:
            raise Unsupported("loop does not stabilise")
        for k, kind in mod.items():
            if kind[0] == "either" and end is not None and self.res(self.key_get(end, k)) is not kind[1]:
                raise Unsupported("a value set in the loop")
        if not left:
            raise PyRaise("endless loop")
        conds = [b_and(*o.S.pc[len(S1.pc):]) for o in left]
        kept = []
        for o in left:
            kept.append(Out(o.kind, o.S.copy(), o.val))
        outs = self.combine(left)
        rec = dict(st=st, fid=fid, before=S0, start=S1, end=end, left=kept, conds=conds, tmpl=tmpl, raises=[o for o in res if o.kind == "raise"])
        self.iterations.append(rec)
        if self.on_iteration is not None and len(outs) == 1 and outs[0].kind == "next":
            self.S = outs[0].S
            self.on_iteration(self, rec)
            outs = [Out("next", self.S)]
        return outs

    def havoc_loop(self, st, fid, outs=()):
        """A loop that is not understood: what it may change becomes unknown."""
        names, roots = set(), set()
        for n in ast.walk(st):
            if isinstance(n, ast.Name) and isinstance(n.ctx, (ast.Store, ast.Del)):
                names.add(n.id)
        if any(isinstance(n, (ast.Return, ast.Yield)) for n in ast.walk(st)):
            raise Unsupported("return inside a loop which is not understood")
        why = "loop at line %d" % st.lineno
        # objects reachable from names used in the loop
        used = set()
        for n in ast.walk(st):
            if isinstance(n, ast.Name):
                used.add(n.id)
        writes = any(isinstance(n, (ast.Call, ast.AugAssign)) or isinstance(n, (ast.Subscript, ast.Attribute)) and isinstance(n.ctx, ast.Store) for n in ast.walk(st))
        if writes:
            for u in used:
                try:
                    v = self.lookup(u, fid)
                except (PyRaise, Unsupported):
                    continue
                mut = self.may_mutate(st, u)
                if mut and isinstance(v, Ref):
                    self.taint(v, why)
        fr = self.S.frames[fid]
        for n in names:
            old = fr.get(n)
            if isinstance(old, T) and old.isb:
                fr[n] = opaque(why, isb=True)
            elif isinstance(old, Ref) and isinstance(self.S.heap[old.loc], (Arr, ViewC)):
                a = self.content(old)
                nm = "?%s:%s" % (why, n)
                nm = "?loop%d:%s" % (self.steps, nm)
                fr[n] = self.new(Arr(a.shape, lambda *ix, nm=nm: tm.mk("fn", nm, *ix), None))
            elif isinstance(old, Ref) and isinstance(self.S.heap[old.loc], PW):
                fr[n] = self.new(PW(opaque(why)))
            else:
                fr[n] = Unk(why)
        outs = list(outs) + [Out("next", self.S)]
        return outs[-1:] if len(outs) == 1 else self.combine_unk(outs)

    def combine_unk(self, outs):
        rest = [o for o in outs if o.kind not in ("next",)]
        nx = [o for o in outs if o.kind == "next"]
        return rest + nx[-1:]

    def may_mutate(self, st, name):
        """Might the statement change the object bound to name?"""
        for n in ast.walk(st):
            if isinstance(n, (ast.Subscript, ast.Attribute)) and isinstance(n.ctx, (ast.Store, ast.Del)):
                b = n
                while isinstance(b, (ast.Subscript, ast.Attribute)):
                    b = b.value
                if isinstance(b, ast.Name) and b.id == name:
                    return True
            if isinstance(n, ast.AugAssign):
                b = n.target
                while isinstance(b, (ast.Subscript, ast.Attribute)):
                    b = b.value
                if isinstance(b, ast.Name) and b.id == name:
                    return True
            if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute):
                b = n.func.value
                while isinstance(b, (ast.Subscript, ast.Attribute)):
                    b = b.value
                if isinstance(b, ast.Name) and b.id == name and n.func.attr in MUTATORS:
                    return True
        return False

    def s_For(self, st, fid):
        v = self.eval(st.iter, fid)
        v = self.res(v)
        if isinstance(v, Unk):
            return self.havoc_loop(st, fid)
        it = self.iterate(v)
        n = numval(it.n)
        if self.iterations is not None and (n is None or n > 20) and _has_break(st):
            return self.last_iteration(st, fid, it)
        if self.repeated is not None and n is not None and n >= self.repeated:
            return self.last_iteration(st, fid, it)
        if n is not None and n <= MAXUNROLL:
            return self.unroll(st, fid, it, int(n))
        return self.summarise(st, fid, it)

    def unroll(self, st, fid, it, n):
        outs = []
        for k in range(n):
            self.assign(st.target, it.get(num(k)), fid)
            res = self.block(st.body, fid)
            nxt = []
            for o in res:
                if o.kind in ("next", "continue"):
                    nxt.append(Out("next", o.S))
                elif o.kind == "break":
                    outs.append(Out("brk", o.S))
                else:
                    outs.append(o)
            nxt = self.combine(nxt)
            if not nxt:
                break
            self.S = nxt[0].S
        else:
            if st.orelse:
                outs.extend(self.block(st.orelse, fid))
            else:
                outs.append(Out("next", self.S))
        # breaks join the normal exit
        outs = [Out("next", o.S) if o.kind == "brk" else o for o in outs]
        # join later exits first (their conditions are longer)
        d = {}
        for o in reversed(outs):
            if o.kind in d:
                if o.kind == "raise":
                    self.note_raise(o.S, o.val)
                    continue
                d[o.kind] = self.merge_out(o, d[o.kind])
            else:
                d[o.kind] = o
        return list(d.values())

    # ---- loops of unknown length
    def summarise(self, st, fid, it):
        self.loops += 1
        n = it.n
        i = fresh("i", int=True, lo=0, hi=n)
        S0 = self.S
        mod = {}  # key -> mu description
        if st.orelse:
            raise Unsupported("for-else of unknown length")
        for attempt in range(12):
            self.S = S0.copy()
            tmpl = {}
            for key, kind in mod.items():
                self.set_mu(key, kind, tmpl, S0)
            S1 = self.S.copy()
            self.push(lt(ZERO, n)) if not tm.positive(n) else None
            self.assign(st.target, it.get(i), fid)
            r0 = len(self.raises)
            res = self.block(st.body, fid)
            nxt = [Out("next", o.S) for o in res if o.kind in ("next", "continue")]
            exits = [o for o in res if o.kind in ("break", "return")]
            # an iteration that raises ends the run: such runs are not followed
            rs = [o for o in res if o.kind == "raise"]
            for o in rs:
                self.note_raise(o.S, o.val)
            if not nxt and not exits:
                raise PyRaise(rs[0].val if rs else "?")
            if not nxt:
                # every iteration leaves the loop: only the first runs
                return self.first_iteration(st, fid, it, S0)
            end = self.combine(nxt)[0].S
            changed = self.diff_state(S1, end, S0)
            for o in exits:
                for k in self.diff_state(S1, o.S, S0):
                    changed.setdefault(k, "exit")
            new = {k: v for k, v in changed.items() if k not in mod and v != "exit"}
            if not new:
                break
            for k in new:
                mod[k] = self.mu_kind(k, S0, end, st, fid)
        else:
            raise Unsupported("loop does not stabilise")
        if exits:
            return self.loop_with_exit(st, fid, it, i, S0, S1, end, exits, mod, tmpl)
        return self.close_loop(st, fid, it, i, S0, end, mod, tmpl)

    def first_iteration(self, st, fid, it, S0):
        self.S = S0.copy()

        def body():
            self.assign(st.target, it.get(ZERO), fid)
            return self.block(st.body, fid)

        c = lt(ZERO, it.n)
        self.S = S0.copy()
        self.push(c)
        A = body()
        A = [Out("next", o.S) if o.kind == "break" else o for o in A]
        if c is TRUE or tm.positive(it.n):
            return A
        B = S0.copy()
        B.pc = B.pc + (b_not(c),)
        return self.join(c, A, [Out("next", B)])

    def loopvar_names(self, st):
        return {n.id for n in ast.walk(st.target) if isinstance(n, ast.Name)}

    def diff_state(self, A, B, S0):
        """Keys (frame variables, heap locations, object attributes) that differ."""
        out = {}
        for l, c in A.heap.items():
            d = B.heap.get(l)
            if d is c:
                continue
            if isinstance(c, ObjC) and isinstance(d, ObjC):
                for k in c.attrs.keys() | d.attrs.keys():
                    if c.attrs.get(k) is not d.attrs.get(k):
                        out[("a", l, k)] = 1
            elif isinstance(c, Dct) and isinstance(d, Dct):
                for k in c.d.keys() | d.d.keys():
                    if c.d.get(k) is not d.d.get(k):
                        out[("d", l, k)] = 1
            elif isinstance(c, Lst) and isinstance(d, Lst) and len(c.items) == len(d.items):
                for k in range(len(c.items)):
                    if c.items[k] is not d.items[k]:
                        out[("l", l, k)] = 1
            else:
                out[("h", l)] = 1
        for f, fr in A.frames.items():
            g = B.frames.get(f, {})
            for n in fr.keys() | g.keys():
                x, y = fr.get(n, MISSING), g.get(n, MISSING)
                if x is not y and not (isinstance(x, Ref) and isinstance(y, Ref) and x.loc == y.loc):
                    out[("v", f, n)] = 1
        return out

    def key_get(self, S, key):
        if key[0] == "v":
            return S.frames.get(key[1], {}).get(key[2], MISSING)
        if key[0] == "h":
            return S.heap[key[1]]
        if key[0] == "a":
            c = S.heap[key[1]]
            return c.attrs.get(key[2], MISSING) if isinstance(c, ObjC) else MISSING
        if key[0] == "d":
            c = S.heap[key[1]]
            return c.d.get(key[2], MISSING) if isinstance(c, Dct) else MISSING
        if key[0] == "l":
            return S.heap[key[1]].items[key[2]]

    def key_set(self, S, key, v):
        if key[0] == "v":
            S.frames.setdefault(key[1], {})[key[2]] = v
        elif key[0] == "h":
            S.heap[key[1]] = v
        elif key[0] == "a":
            c = S.heap[key[1]]
            d = dict(c.attrs)
            if v is MISSING:
                d.pop(key[2], None)
            else:
                d[key[2]] = v
            S.heap[key[1]] = ObjC(c.cls, d)
        elif key[0] == "d":
            c = S.heap[key[1]]
            d = dict(c.d)
            if v is MISSING:
                d.pop(key[2], None)
            else:
                d[key[2]] = v
            S.heap[key[1]] = Dct(d)
        elif key[0] == "l":
            it = list(S.heap[key[1]].items)
            it[key[2]] = v
            S.heap[key[1]] = Lst(it)

    def mu_kind(self, key, S0, end, st, fid):
        old = self.key_get(S0, key)
        new = self.key_get(end, key)
        if st is not None and key[0] == "v" and key[1] == fid and key[2] in self.loopvar_names(st):
            return ("last",)
        if isinstance(old, IteV):
            old = self.res(old)
        if isinstance(old, T):
            if isinstance(new, T) or isinstance(new, IteV):
                return ("num", fresh("mu", int=tm.is_int(old)) if not old.isb else None)
            return ("last",)
        if isinstance(old, Arr):
            return ("arr", None)
        if isinstance(old, PW):
            return ("pw", fresh("mu"))
        if isinstance(old, (Lst, Seq)):
            return ("list", None)
        if isinstance(old, Ref) and key[0] != "h":
            c = S0.heap.get(old.loc)
            if isinstance(c, (Arr, ViewC)):
                return ("ref", None)
            if isinstance(c, PW):
                return ("refpw", fresh("mu"))
            d = end.heap.get(new.loc) if isinstance(new, Ref) else None
            if isinstance(c, Lst) and isinstance(d, Arr) and len(d.shape) == 1 and numval(d.shape[0]) == len(c.items):
                return ("ref", d)
            return ("last",)
        return ("last",)

    def set_mu(self, key, kind, tmpl, S0):
        old = self.key_get(S0, key)
        if isinstance(old, IteV):
            old = self.res(old)
        if kind[0] == "num":
            if kind[1] is None:
                nm = "mub%d" % self._muno(key)
                t = tm.mk("bfn", nm, isb=True)
            else:
                t = kind[1]
            tmpl[key] = t
            self.key_set(self.S, key, t)
        elif kind[0] in ("arr", "ref"):
            if kind[0] == "ref":
                SS = self.S
                self.S = S0
                a = kind[1] if kind[1] is not None else self.content(old)
                self.S = SS
            else:
                a = old
            nm = "mua%d" % self._muno(key)
            isb = a.dt == "bool" or self.isbool(a)
            if isb:
                f = lambda *ix: tm.mk("bfn", nm, *ix, isb=True)
            else:
                f = lambda *ix: tm.mk("fn", nm, *ix)
            if (a.dt == "int") and not isb:
                tm.INTARR.add(nm)
            shp = a.shape
            c = Arr(shp, f, a.dt)
            tmpl[key] = (nm, c, a)
            if kind[0] == "ref":
                r = self.new(c)
                self.key_set(self.S, key, r)
            else:
                self.key_set(self.S, key, c)
        elif kind[0] == "pw":
            isb = old.t.isb
            t = tm.mk("bfn", "mub%d" % self._muno(key), isb=True) if isb else kind[1]
            tmpl[key] = t
            self.key_set(self.S, key, PW(t, old.dt, None, old.tag))
        elif kind[0] == "refpw":
            o = S0.heap[old.loc]
            isb = o.t.isb
            t = tm.mk("bfn", "mub%d" % self._muno(key), isb=True) if isb else kind[1]
            tmpl[key] = t
            r = self.new(PW(t, o.dt, None, o.tag))
            self.key_set(self.S, key, r)
        elif kind[0] == "list":
            self.key_set(self.S, key, LstMu(key, (), old))
        elif kind[0] == "either":
            # as before the loop, or as every iteration leaves it
            tmpl[key] = None
            self.key_set(self.S, key, IteV(tm.mk("bfn", "mub%d" % self._muno(key), isb=True), old, kind[1]))
        elif kind[0] == "last":
            tmpl[key] = None
            self.key_set(self.S, key, UNDEF)

    def _muno(self, key):
        # a new name each time: nested loops may carry the same location
        self._mu = getattr(self, "_mu", 0) + 1
        return self._mu

    def mus_in(self, t, names):
        """Loop-carried symbols occurring in a term."""
        out = set()
        for x in tm.subterms(t):
            if x.op == "sym" and x.args[0] in names:
                out.add(x.args[0])
            elif x.op in ("fn", "bfn") and x.args[0] in names:
                out.add(x.args[0])
        return out

    def close_loop(self, st, fid, it, i, S0, end, mod, tmpl):
        n = it.n
        names = {}
        for key, kind in mod.items():
            t = tmpl.get(key)
            if isinstance(t, tuple):
                names[t[0]] = key
            elif isinstance(t, T):
                names[t.args[0]] = key
        solved = {}  # name -> function(k) giving value at start of iteration k (T or Arr)
        final = {}
        pending = [k for k in mod]
        why = "loop at line %d" % st.lineno
        progress = True
        info = {}
        while pending and progress:
            progress = False
            for key in list(pending):
                kind = mod[key]
                try:
                    r = self.classify(key, kind, tmpl, S0, end, i, n, names, solved)
                except Unsupported as e:
                    info[key] = str(e)
                    r = None
                if r is not None:
                    at, fin = r
                    t = tmpl.get(key)
                    nm = t[0] if isinstance(t, tuple) else (t.args[0] if isinstance(t, T) else None)
                    if nm is not None and at is not None:
                        solved[nm] = at
                    final[key] = fin
                    pending.remove(key)
                    progress = True
        for key in pending:
            final[key] = self.unknown_for(key, mod[key], S0, why + ": " + info.get(key, ""))
        # state after the loop: everything not modified is as before
        SN = S0.copy()
        keepheap = {l: c for l, c in end.heap.items() if l not in S0.heap}
        SN.heap.update(keepheap)
        for f, fr in end.frames.items():
            if f not in SN.frames:
                SN.frames[f] = dict(fr)
        self.S = SN
        # references first so that views see the new contents
        for key in sorted(mod, key=lambda k: k[0] != "h"):
            v = final[key]
            if callable(v) and not isinstance(v, (Arr, Seq)):
                v = v()
            self.key_set(self.S, key, v)
        return [Out("next", self.S)]

    def unknown_for(self, key, kind, S0, why):
        old = self.key_get(S0, key)
        if isinstance(old, Arr):
            nm = "?loop%d:%s" % (self.steps, why[:60])
            return Arr(old.shape, lambda *ix: tm.mk("fn", nm, *ix), old.dt)
        if isinstance(old, PW):
            return PW(opaque(why), old.dt, None, old.tag)
        if key[0] == "h":
            return UnkC(why)
        if isinstance(old, T):
            return opaque(why, isb=old.isb)
        if isinstance(old, Ref) and isinstance(S0.heap.get(old.loc), (Arr, ViewC)):
            SS = self.S
            self.S = S0
            a = self.content(old)
            self.S = SS
            nm = "?loop%d:%s" % (self.steps, why[:60])
            return lambda: self.new(Arr(a.shape, lambda *ix: tm.mk("fn", nm, *ix), a.dt))
        return Unk(why)

    def resolve_mus(self, t, i, names, solved, own=None):
        """Replace loop-carried symbols by their value at iteration i."""
        for _ in range(6):
            ms = self.mus_in(t, names)
            ms.discard(own)
            if not ms:
                return t
            for m in ms:
                if m not in solved:
                    raise Unsupported("depends on another loop-carried value")
            def value(x):
                a = solved[x.args[0]](i)
                if x.op == "sym":
                    return a
                return a(*x.args[1:]) if isinstance(a, Arr) else a

            t = tm.map_named(t, ms, value)
        raise Unsupported("mutual dependence")

    def classify(self, key, kind, tmpl, S0, end, i, n, names, solved):
        old = self.key_get(S0, key)
        if isinstance(old, IteV):
            old = self.res(old)
        new = self.key_get(end, key)
        SE = end

        def frz(v):
            SS = self.S
            self.S = SE
            try:
                return self.freeze(v)
            finally:
                self.S = SS

        if kind[0] == "num":
            mu = tmpl[key]
            own = mu.args[0]
            if not isinstance(new, T):
                raise Unsupported("changes type")
            at = self.recurrence(new, mu, own, old, i, n, names, solved, ())
            return at, (lambda at=at: at(n))
        if kind[0] in ("pw", "refpw"):
            mu = tmpl[key]
            own = mu.args[0]
            SS = self.S
            self.S = SE
            try:
                c = new if kind[0] == "pw" else self.content(new)
            finally:
                self.S = SS
            if not isinstance(c, PW) or c.mask is not None:
                raise Unsupported("changes shape")
            o = old if kind[0] == "pw" else S0.heap[old.loc]
            at = self.recurrence(c.t, mu, own, o.t, i, n, names, solved, ())
            if kind[0] == "pw":
                return at, (lambda: PW(at(n), o.dt, None, o.tag))
            return at, (lambda: self.new(PW(at(n), o.dt, None, o.tag)))
        if kind[0] in ("arr", "ref"):
            nm, c0, a0 = tmpl[key]
            SS = self.S
            self.S = SE
            try:
                a1 = new if kind[0] == "arr" else self.content(new)
            finally:
                self.S = SS
            if not isinstance(a1, Arr) or a1.mask is not None:
                raise Unsupported("changes kind")
            if a1.rank != a0.rank:
                if kind[0] == "ref":
                    return self.last_ref(key, new, old, i, n, names, solved, end, S0)
                raise Unsupported("changes rank")
            if any(x is not y for x, y in zip(a1.shape, a0.shape)):
                return self.growth(key, kind, tmpl, a0, a1, i, n, names, solved)

            cache = {}

            def at(k):
                if k in cache:
                    return cache[k]

                def f(*ix):
                    own = nm
                    if any(i in free(x) for x in ix):
                        # the element is named by the loop index itself
                        j = fresh("j", int=True, lo=0, hi=n)
                        return subst(f(*[subst(x, {i: j}) for x in ix]), {j: i})
                    body = a1(*ix)
                    mu = c0(*ix)
                    r = self.touch(body, mu, own, a0, a1, c0, ix, i, k, names, solved)
                    if r is not None:
                        return r
                    return self.recurrence(body, mu, own, a0(*ix), i, n, names, solved, ix)(k)

                r = cache[k] = Arr(a0.shape, f, a0.dt)
                return r

            # check on a generic element that the pattern is understood
            gen = [
                self.generics[a0.shape[q]]() if a0.shape[q] in self.generics else tm.sym("ix%d" % q, int=True, lo=0, hi=a0.shape[q])
                for q in range(a0.rank)
            ]
            at(n)(*gen)
            if kind[0] == "arr":
                return at, (lambda: at(n))
            return at, (lambda: self.new(at(n)))
        if kind[0] == "list":
            if isinstance(new, LstMu) and new.key == key:
                if not new.items:
                    return None, (lambda: old)
                fz = [frz(x) for x in new.items]
                for x in fz:
                    self.check_frozen(x, names, solved)
                m = len(fz)

                def elem(k, q):
                    return self.thaw_solved(fz[q], i, k, names, solved)

                if isinstance(old, Lst) and not old.items and m == 1:
                    return None, (lambda: Seq(n, lambda k: elem(k, 0)))
                if m == 1:
                    return None, (lambda: self.seq_concat(old, Seq(n, lambda k: elem(k, 0))))
                # several appends per iteration

                def f(k):
                    q = tm.floor(div(k, num(m)))
                    r = sub(k, mul(num(m), q))
                    v = elem(q, m - 1)
                    for j in range(m - 2, -1, -1):
                        v = self.merge_val(eq(r, num(j)), elem(q, j), v)
                    return v

                if isinstance(old, Lst) and not old.items:
                    return None, (lambda: Seq(mul(num(m), n), f))
                return None, (lambda: self.seq_concat(old, Seq(mul(num(m), n), f)))
            raise Unsupported("list update")
        if kind[0] == "last":
            fz = frz(new)
            self.check_frozen(fz, names, solved)
            last = sub(n, ONE)

            def fin():
                v = self.thaw_solved(fz, i, last, names, solved)
                c = lt(ZERO, n)
                if tm.positive(n):
                    return v
                return self.merge_val(c, v, old)

            return None, fin
        raise Unsupported("loop-carried value")

    def last_ref(self, key, new, old, i, n, names, solved, end, S0):
        raise Unsupported("changes rank")

    def check_frozen(self, v, names, solved):
        for t in self.frozen_terms(v):
            for m in self.mus_in(t, names):
                if m not in solved:
                    raise Unsupported("depends on a loop-carried value")

    def frozen_terms(self, v):
        if isinstance(v, T):
            yield v
        elif isinstance(v, Tup):
            for x in v.items:
                yield from self.frozen_terms(x)
        elif isinstance(v, IteV):
            yield v.c
            yield from self.frozen_terms(v.a)
            yield from self.frozen_terms(v.b)
        elif isinstance(v, Frozen):
            c = v.c
            if isinstance(c, Arr):
                yield c(*[tm.sym("ix%d" % q, int=True, lo=0) for q in range(c.rank)])
            elif isinstance(c, PW):
                yield c.t
            elif isinstance(c, Lst):
                for x in c.items:
                    yield from self.frozen_terms(x)
            elif isinstance(c, Dct):
                for x in c.d.values():
                    yield from self.frozen_terms(x)
            elif isinstance(c, ObjC):
                for x in c.attrs.values():
                    yield from self.frozen_terms(x)

    def thaw_solved(self, v, i, k, names, solved):
        """Value of a frozen loop-body value at iteration k."""
        def tr(t):
            return subst(self.resolve_mus(t, i, names, solved), {i: k})
        return self.map_frozen(v, tr)

    def map_frozen(self, v, tr):
        if isinstance(v, T):
            return tr(v)
        if isinstance(v, Tup):
            return Tup([self.map_frozen(x, tr) for x in v.items], v.names, v.tname)
        if isinstance(v, IteV):
            return self.merge_val(tr(v.c), self.map_frozen(v.a, tr), self.map_frozen(v.b, tr))
        if isinstance(v, Frozen):
            c = v.c
            return self.new(self.map_content(c, tr))
        if isinstance(v, Abs):
            if v.key and any(isinstance(k, T) for k in v.key):
                nk = [tr(k) if isinstance(k, T) else k for k in v.key]
                if any(x is not y for x, y in zip(nk, v.key)):
                    mkr = v.attrs.get("$make")
                    if mkr is None:
                        raise Unsupported("substitution in " + v.name)
                    return mkr(*nk)
            return v
        return v

    def map_content(self, c, tr):
        if isinstance(c, Arr):
            return Arr([tr(s) for s in c.shape], lambda *ix: tr(c(*ix)), c.dt, None if c.mask is None else self.map_content(c.mask, tr))
        if isinstance(c, PW):
            return PW(tr(c.t), c.dt, None if c.mask is None else tr(c.mask), c.tag)
        if isinstance(c, Lst):
            return Lst([self.map_frozen(x, tr) for x in c.items])
        if isinstance(c, Seq):
            return Seq(tr(c.n), lambda k: self.map_frozen(self.freeze(c(k)), tr))
        if isinstance(c, Dct):
            return Dct({k: self.map_frozen(x, tr) for k, x in c.d.items()})
        if isinstance(c, ObjC):
            return ObjC(c.cls, {k: self.map_frozen(x, tr) for k, x in c.attrs.items()})
        if isinstance(c, UnkC):
            return c
        if isinstance(c, CondC):
            return self.merge_content(tr(c.c), self.map_content(c.a, tr), self.map_content(c.b, tr))
        raise Unsupported("content")

    def increment(self, t, mu, memo=None):
        """d with t == mu + d, read off the structure of t (None: no such form)."""
        memo = {} if memo is None else memo
        if t is mu:
            return ZERO
        if t in memo:
            return memo[t]
        r = None
        if t.op == "ite" and mu not in tm.subterms(t.args[0]):
            a = self.increment(t.args[1], mu, memo)
            b = self.increment(t.args[2], mu, memo) if a is not None else None
            if b is not None:
                r = ite(t.args[0], a, b)
        elif t.op == "poly":
            d = tm.to_poly(t)
            hot = [m for m in d if any(mu in tm.subterms(a) for a, e in m)]
            if len(hot) == 1 and d[hot[0]] == 1 and len(hot[0]) == 1 and hot[0][0][1] == 1:
                a = self.increment(hot[0][0][0], mu, memo)
                if a is not None:
                    r = add(tm.mk_poly({m: c for m, c in d.items() if m is not hot[0]}), a)
        memo[t] = r
        return r

    def touch_at(self, body, mu, i):
        """(literal, iteration): the element changes in that iteration only."""
        for x in tm.subterms(body):
            if x.op == "eq0" and i in free(x) and not tm.loose(x):
                ks = self.solve_linear(x.args[0], i)
                if ks is None:
                    ks = self.solve_mod(x.args[0], i)
                if ks is not None and subst(body, {x: FALSE}) is mu:
                    return x, ks
        return None

    def touch(self, body, mu, own, a0, a1, c0, ix, i, k, names, solved):
        """An element which only one iteration assigns."""
        if body is mu:
            return a0(*ix)
        try:
            body = self.resolve_mus(body, i, names, solved, own)
        except Unsupported:
            return None
        if body is mu:
            return a0(*ix)
        lk = self.touch_at(body, mu, i)
        if lk is None:
            return None
        ks = lk[1]
        val = subst(subst(body, {lk[0]: TRUE}), {i: ks})
        def value(x):
            p = x.args[1:]
            if p == tuple(ix):
                return a0(*ix)
            bp, mp = a1(*p), c0(*p)
            if bp is not mp:
                bp = self.resolve_mus(bp, i, names, solved, own)
            if bp is not mp:
                lp = self.touch_at(bp, mp, i)
                if lp is None or self.in_range(lp[1], ks) is not FALSE:
                    raise Unsupported("depends on other elements of the array")
            return a0(*p)

        try:
            val = tm.map_named(val, {own}, value)
        except Unsupported:
            return None
        v0 = a0(*ix)
        return ite(self.in_range(ks, k), val, v0)

    def recurrence(self, body, mu, own, v0, i, n, names, solved, ix):
        """Value at the start of iteration k of x := body(x, i), x0 = v0."""
        if body is mu:
            return lambda k: v0
        body = self.resolve_mus(body, i, names, solved, own)
        if body is mu:
            return lambda k: v0
        if mu.isb or body.isb:
            return self.bool_recurrence(body, mu, own, v0, i, n)
        # other elements of the same array
        for x in tm.subterms(body):
            if x.op == "fn" and x.args[0] == own and x is not mu:
                raise Unsupported("depends on other elements of the array")
        if not (mu in tm.subterms(body)):
            # last value
            def at(k):
                kk = sub(k, ONE)
                v = subst(body, {i: kk})
                if tm.positive(k):
                    return v
                if k.op == "num" and numval(k) <= 0:
                    return v0
                return ite(lt(ZERO, k), v, v0)
            if i not in free(body):
                def at2(k):
                    if tm.positive(k):
                        return body
                    return ite(lt(ZERO, k), body, v0)
                return at2
            return at
        # accumulation, however the increments are combined
        d0 = self.increment(body, mu)
        if d0 is not None:
            return lambda k: add(v0, self.sum_over(i, k, d0))
        d0 = subst(body, {mu: ZERO})
        if d0.op == "ite" or any(x.op == "ite" and mu in tm.subterms(x) for x in tm.subterms(body)):
            from .cmp import equal, _Budget

            try:
                acc = equal(body, add(mu, d0))
            except (_Budget, tm.TooBig):
                acc = False
            if acc:
                return lambda k: add(v0, self.sum_over(i, k, d0))
        leaves = ite_leaves(body)
        for g, l in leaves:
            if mu in tm.subterms(g):
                raise Unsupported("condition depends on the loop-carried value")
        stores, adds, keep = [], [], []
        for g, l in leaves:
            if l is mu:
                keep.append(g)
                continue
            d = sub(l, mu)
            if mu not in tm.subterms(d):
                adds.append((g, d))
            elif mu not in tm.subterms(l):
                stores.append((g, l))
            else:
                raise Unsupported("update is neither a store nor an accumulation")
        if adds and stores:
            raise Unsupported("mixed stores and accumulation")
        if adds:
            d = ite_map(body, lambda l: sub(l, mu))

            def at(k):
                return add(v0, self.sum_over(i, k, d))
            return at
        return self.store_recurrence(stores, v0, i, n)

    def sum_over(self, i, k, d):
        # a sum of a value which is non-zero for a single index is that value
        if d.op == "ite" and numval(d.args[2]) == 0 and i in free(d.args[0]):
            c = self.candidates(d.args[0], i)
            if c:
                ks = c[0]
                g = subst(d.args[0], {i: ks})
                g = b_and(g, self.in_range(ks, k))
                return ite(g, subst(d.args[1], {i: ks}), ZERO)
        return mk_sum(i, ZERO, k, d)

    def in_range(self, ks, k):
        c = TRUE if tm.nonneg(ks) else le(ZERO, ks)
        return b_and(c, lt(ks, k))

    def store_recurrence(self, stores, v0, i, n):
        sols = []
        for g, l in stores:
            if i not in free(g):
                if i not in free(l):
                    sols.append(("const", g, l))
                else:
                    sols.append(("lastk", g, l))
                continue
            cand = self.candidates(g, i)
            if cand:
                sols.append(("at", g, l, cand[0]))
                continue
            if i not in free(l):
                sols.append(("any", g, l))
                continue
            raise Unsupported("store position cannot be solved for the loop index")
        if len(sols) > 1:
            ks = {s[3] for s in sols if s[0] == "at"}
            if not (all(s[0] == "at" for s in sols) and len(ks) == 1):
                if not all(s[0] == "const" for s in sols) and not (all(s[0] in ("at",) for s in sols)):
                    raise Unsupported("several stores")

        def at(k):
            r = v0
            if all(s[0] == "at" for s in sols) and len({s[3] for s in sols}) > 1:
                if len(sols) != 2:
                    raise Unsupported("several stores")
                (a, ga, la, ka), (b, gb, lb, kb) = sols
                ca = b_and(subst(ga, {i: ka}), self.in_range(ka, k))
                cb = b_and(subst(gb, {i: kb}), self.in_range(kb, k))
                va, vb = subst(la, {i: ka}), subst(lb, {i: kb})
                both = ite(lt(ka, kb), vb, va)
                return ite(b_and(ca, cb), both, ite(ca, va, ite(cb, vb, v0)))
            for s in sols:
                if s[0] == "const":
                    c = b_and(s[1], TRUE if tm.positive(k) else lt(ZERO, k))
                    r = ite(c, s[2], r)
                elif s[0] == "lastk":
                    c = b_and(s[1], TRUE if tm.positive(k) else lt(ZERO, k))
                    r = ite(c, subst(s[2], {i: sub(k, ONE)}), r)
                elif s[0] == "any":
                    r = ite(mk_any(i, ZERO, k, s[1]), s[2], r)
                else:
                    ks = s[3]
                    c = b_and(subst(s[1], {i: ks}), self.in_range(ks, k))
                    r = ite(c, subst(s[2], {i: ks}), r)
            return r

        return at

    def candidates(self, g, i):
        """Terms k* such that g(i) can hold only for i == k*."""
        lits = g.args if g.op == "and" else (g,)
        out = []
        for l in lits:
            if l.op == "eq0" and i in free(l):
                p = l.args[0]
                r = self.solve_linear(p, i)
                if r is not None:
                    out.append(r)
                    continue
                r = self.solve_mod(p, i)
                if r is not None:
                    out.append(r)
        if out:
            return out
        # consecutive pieces of an array_split
        offs = {}
        for l in lits:
            for x in tm.subterms(l):
                if x.op == "fn" and x.args[0] == "splitoff":
                    offs.setdefault((x.args[1], x.args[2]), []).append((x, l))
        for (N, m), xs in offs.items():
            los = [(x, l) for x, l in xs if x.args[3] is i]
            his = [(x, l) for x, l in xs if sub(x.args[3], i) is ONE]
            for x, l in his:
                # q - splitoff(i+1) < 0
                if l.op == "lt0":
                    q = add(l.args[0], x)
                    if i not in free(q):
                        return [tm.fn("splitchunk", N, m, q)]
            for x, l in los:
                if l.op == "not" and l.args[0].op == "lt0":
                    q = add(l.args[0].args[0], x)
                    if i not in free(q):
                        return [tm.fn("splitchunk", N, m, q)]
        return []

    def solve_linear(self, p, i):
        d = tm.to_poly(p)
        co = None
        rest = {}
        for m, c in d.items():
            if len(m) == 1 and m[0][0] is i and m[0][1] == 1:
                co = num(c)
            elif any(a is i or i in free(a) for a, e in m):
                # symbolic coefficient
                if sum(1 for a, e in m if a is i and e == 1) == 1 and not any(a is not i and i in free(a) for a, e in m):
                    k = tm.mk_poly({tuple((a, e) for a, e in m if a is not i): c})
                    if co is not None:
                        return None
                    co = k
                else:
                    return None
            else:
                rest[m] = c
        if co is None:
            return None
        r = div(neg(tm.mk_poly(rest)), co)
        if tm.is_int(r):
            return r
        return tm.floor(r)

    def solve_mod(self, p, i):
        """(q - i) - s*floor((q - i)/s) == 0 with 0 <= i < s."""
        fl = [x for x in tm.subterms(p) if x.op == "fn" and x.args[0] == "floor" and i in free(x)]
        if len(fl) != 1:
            return None
        f = fl[0]
        # p = A - s*f
        d = tm.to_poly(p)
        A, s = {}, None
        for m, c in d.items():
            if any(a is f for a, e in m):
                s = tm.mk_poly({tuple((a, e) for a, e in m if a is not f): -c})
            else:
                A[m] = c
        if s is None:
            return None
        A = tm.mk_poly(A)
        sg = 1
        if not tm.same(mul(f.args[1], s), A):
            if tm.same(mul(f.args[1], neg(s)), A):
                s = neg(s)
            elif tm.same(mul(f.args[1], s), neg(A)):
                A = neg(A)
            else:
                return None
        q = add(A, i)
        if i in free(q):
            q = sub(A, i)
            if i in free(q):
                return None
            q = neg(q)
        return sub(q, mul(s, tm.floor(div(q, s))))

    def bool_recurrence(self, body, mu, own, v0, i, n):
        body = n2b(body)
        v0 = n2b(v0)
        for x in tm.subterms(body):
            if x.op == "bfn" and x.args[0] == own and x is not mu:
                raise Unsupported("depends on other elements of the array")
        if mu not in tm.subterms(body):
            def at(k):
                v = subst(body, {i: sub(k, ONE)})
                if tm.positive(k):
                    return v
                return ite(lt(ZERO, k), v, v0)
            return at
        e1, e0 = subst(body, {mu: TRUE}), subst(body, {mu: FALSE})
        if e1 is TRUE:
            return lambda k: b_or(v0, mk_any(i, ZERO, k, e0))
        if e0 is FALSE:
            return lambda k: b_and(v0, b_not(mk_any(i, ZERO, k, b_not(e1))))
        if e1 is b_not(e0):
            def at(k):
                s = add(b2n(v0), mk_sum(i, ZERO, k, b2n(e0)))
                return eq(sub(s, mul(num(2), tm.floor(div(s, num(2))))), ONE)
            return at
        # store pattern: mu := ite(cond, val, mu)
        from .cmp import equal

        keep = b_and(e1, b_not(e0))  # where the old value survives
        if equal(b_and(b_not(e1), e0), FALSE):
            setc = b_not(keep)
            return self.store_recurrence([(setc, e0)], v0, i, n)
        raise Unsupported("boolean update")

    def growth(self, key, kind, tmpl, a0, a1, i, n, names, solved):
        raise Unsupported("array changes size in loop")

    def loop_with_exit(self, st, fid, it, i, S0, S1, end, exits, mod, tmpl):
        n = it.n
        # iterations which do not leave the loop must not change anything but temporaries
        names = {}
        for key, t in tmpl.items():
            if isinstance(t, tuple):
                names[t[0]] = key
            elif isinstance(t, T):
                names[t.args[0]] = key
        for key, kind in mod.items():
            if kind[0] == "last":
                continue
            a, b = self.key_get(S1, key), self.key_get(end, key)
            if a is b:
                continue
            raise Unsupported("loop with early exit changes state")
        k0 = len(S1.pc)
        conds = []
        for o in exits:
            g = b_and(*[x for x in o.S.pc[k0:] if x is not lt(ZERO, n)])
            conds.append(g)
        anyc = FALSE
        for g in conds:
            if self.mus_in(g, names):
                raise Unsupported("early exit depends on a loop-carried value")
            anyc = b_or(anyc, g)
        if is_opaque(anyc):
            raise Unsupported("early exit on an unknown condition")
        ex = mk_any(i, ZERO, n, anyc)
        # index of the first iteration that leaves
        lev = tm._depth(anyc) + 1
        bound = tm.sym("%%%d" % lev, int=True)
        firstk = tm.fn("first", n, tm.mk("arr", lev, (n,), subst(anyc, {i: bound}) if True else anyc))
        tm.INTFN.add("first")
        res = []
        total = None
        for o, g in zip(exits, conds):
            So = o.S
            new = S0.copy()
            new.pc = S0.pc
            # values at the exit
            SS = self.S
            for key in self.diff_state(S0, So, S0):
                v = self.key_get(So, key)
                self.S = So
                fz = self.freeze(v) if key[0] != "h" else None
                if key[0] == "h":
                    if not isinstance(v, (Arr, PW)):
                        self.S = SS
                        raise Unsupported("early exit changes %s" % type(v).__name__)
                    fz = v
                self.S = new
                if key[0] == "h":
                    nv = self.thaw_content(fz, {i: firstk})
                else:
                    if fz is UNDEF:
                        nv = UNDEF
                    else:
                        nv = self.thaw(fz, {i: firstk})
                self.key_set(new, key, nv)
            for l, c in So.heap.items():
                if l not in new.heap:
                    new.heap[l] = c
            val = None
            if o.kind == "return":
                self.S = So
                fz = self.freeze(o.val) if o.val is not None else NONE
                self.S = new
                val = self.thaw(fz, {i: firstk})
            self.S = SS
            gk = subst(g, {i: firstk})
            if len(exits) == 1:
                gk = TRUE
            new.pc = S0.pc + tuple(x for x in (ex, gk) if x is not TRUE)
            res.append(Out("next" if o.kind == "break" else "return", new, val))
        SN = S0.copy()
        SN.pc = S0.pc + ((b_not(ex),) if ex is not FALSE else ())
        for key, kind in mod.items():
            if kind[0] == "last":
                old = self.key_get(S0, key)
                v = self.key_get(end, key)
                self.S = end
                try:
                    fz = self.freeze(v)
                except Unsupported:
                    fz = Unk("loop variable")
                self.S = SN
                nv = self.thaw(fz, {i: sub(n, ONE)}) if not isinstance(fz, Undef) else UNDEF
                self.key_set(SN, key, self.merge_val(lt(ZERO, n), nv, old) if not tm.positive(n) else nv)
        res.append(Out("next", SN))
        return self.combine(res)


class Frozen:
    __slots__ = ("c",)

    def __init__(self, c):
        self.c = c


class IterC:
    """Heap content of an iterator object."""

    def __init__(self, it):
        self.it = it


class Super:
    def __init__(self, mro, selfv):
        self.mro, self.selfv = mro, selfv


class ShapeCat:
    """Shape built from that of an array of unknown rank."""

    def __init__(self, a, b):
        self.a, self.b = a, b


class ShapeTail:
    pass


def _safe_sub(c, ix, m):
    """Substitute in c(*ix) without touching the index terms themselves."""
    tmp = [fresh("s", int=True) for _ in ix]
    t = subst(c(*tmp), m)
    return subst(t, dict(zip(tmp, ix)))


def _has_break(st):
    """Does the loop itself contain a break?"""

    def go(n):
        if isinstance(n, ast.Break):
            return True
        if isinstance(n, (ast.For, ast.While, ast.FunctionDef, ast.Lambda, ast.ClassDef)):
            return False
        return any(go(c) for c in ast.iter_child_nodes(n))

    return any(go(n) for n in st.body)


def _is_gen(node):
    st = list(node.body)
    while st:
        x = st.pop()
        if isinstance(x, (ast.FunctionDef, ast.Lambda, ast.ClassDef)):
            continue
        if isinstance(x, (ast.Yield, ast.YieldFrom)):
            return True
        st.extend(ast.iter_child_nodes(x))
    return False


_LOC = {}


def _locals(node):
    if node in _LOC:
        return _LOC[node]
    out = set()
    glob = set()

    def go(x):
        if isinstance(x, (ast.FunctionDef, ast.ClassDef)):
            out.add(x.name)
            return
        if isinstance(x, (ast.Lambda, ast.ListComp, ast.SetComp, ast.DictComp, ast.GeneratorExp)):
            return
        if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store):
            out.add(x.id)
        if isinstance(x, (ast.Import, ast.ImportFrom)):
            for a in x.names:
                out.add((a.asname or a.name).split(".")[0])
        if isinstance(x, (ast.Global, ast.Nonlocal)):
            glob.update(x.names)
        for y in ast.iter_child_nodes(x):
            go(y)

    for s in node.body:
        go(s)
    out -= glob
    _LOC[node] = out
    return out


def _bitop(f):
    def g(a, b):
        if a.isb and b.isb:
            return f(a, b)
        return opaque("bit operation")
    return g


BINOPS = {
    "Add": add,
    "Sub": sub,
    "Mult": mul,
    "Div": div,
    "Pow": lambda a, b: tm.power(a, b),
    "FloorDiv": lambda a, b: tm.floor(div(a, b)),
    "Mod": lambda a, b: tm.mod(a, b),
    "BitAnd": _bitop(b_and),
    "BitOr": _bitop(b_or),
    "BitXor": _bitop(tm.b_xor),
}
OPNAME = dict(Add="add", Sub="sub", Mult="mul", Div="truediv", Pow="pow", FloorDiv="floordiv", Mod="mod",
              BitAnd="and", BitOr="or", BitXor="xor", MatMult="matmul", LShift="lshift", RShift="rshift")
CMPOPS = {
    "Lt": lambda a, b: lt(a, b),
    "LtE": lambda a, b: le(a, b),
    "Gt": lambda a, b: lt(b, a),
    "GtE": lambda a, b: le(b, a),
    "Eq": lambda a, b: eq(a, b) if not (a.isb != b.isb) else eq(b2n(a) if a.isb else a, b2n(b) if b.isb else b),
    "NotEq": lambda a, b: b_not(eq(a, b)),
}
MUTATORS = {"append", "extend", "insert", "pop", "remove", "sort", "reverse", "clear", "update", "setdefault", "fill",
            "popitem", "put", "partition", "resize", "itemset", "add", "discard", "write", "set_row", "add_to_entry"}
