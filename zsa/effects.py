"""Alias and effect analysis.

A function is analysed with abstract arguments: every object that exists before
the call is a node named by its access path (parameter, self, class attribute,
module variable, default value), every object made during the call a node named
by its creation site.  Assignments, views and container elements propagate sets
of nodes flow-sensitively, package functions are analysed in the context of
their call, and stores to nodes that existed before the call are the effects.
"""
import ast
import os

MAXDEPTH = 9
MAXPATH = 4
# methods which change their receiver
MUTATORS = {
    "sort", "append", "extend", "insert", "pop", "remove", "clear", "update", "setdefault", "fill", "resize", "put",
    "itemset", "partition", "reverse", "popitem", "add", "discard", "setflags", "appendleft", "popleft", "__setitem__",
    "__delitem__", "__iadd__", "__imul__", "__isub__", "itruediv", "intersection_update", "difference_update",
}
ARRAYMUT = {"sort", "fill", "resize", "put", "itemset", "partition", "reverse", "setflags"}
# methods whose result shares memory with (or is an element of) the receiver
VIEWS = {"ravel", "reshape", "transpose", "swapaxes", "squeeze", "view", "diagonal", "asarray", "__iter__"}
ELEMENTS = {"get", "values", "items", "pop", "setdefault", "__getitem__"}
# numpy functions whose result may be (a view of) the first argument
NPVIEW = {
    "asarray", "asanyarray", "ascontiguousarray", "asfarray", "asfortranarray", "atleast_1d", "atleast_2d", "atleast_3d",
    "squeeze", "ravel", "reshape", "transpose", "swapaxes", "moveaxis", "rollaxis", "expand_dims", "broadcast_to", "flip",
    "fliplr", "flipud", "rot90", "real", "imag", "diagonal", "require", "asarray_chkfinite",
}
NPVIEWS = {"broadcast_arrays", "split", "array_split", "hsplit", "vsplit", "atleast_1d", "atleast_2d"}
# numpy functions which change their first argument
NPMUT = {"copyto", "put", "place", "putmask", "fill_diagonal", "put_along_axis", "shuffle"}
# methods which objects of other packages have too
NOTOURS = {"plot", "show", "open", "close", "read", "write", "load", "save", "start", "coil", "test"}
# queries whose own analysis shows that they return new values
QUERIES = {"follow_field_lines", "field_direction", "Bxyzfunc", "Bxfunc", "Byfunc", "Bzfunc", "Bmag", "Rfunc", "pressure", "outside", "getB"}
NOTOURS |= QUERIES
PASS = {"iter", "reversed", "list", "tuple", "sorted", "next"}


class Fun:
    """A function definition with its environment."""

    def __init__(self, node, mod, cls=None, fid=None, kind=None):
        self.node, self.mod, self.cls, self.fid, self.kind = node, mod, cls, fid, kind
        n = getattr(node, "name", "<lambda>")
        self.name = n
        self.qual = "%s.%s" % (cls.qual if cls else mod.name, n)
        self.keeps = None


class Cls:
    def __init__(self, node, mod, outer=None):
        self.node, self.mod, self.name = node, mod, node.name
        self.qual = "%s.%s" % (outer or mod.name, node.name)
        self.methods, self.attrs, self.bases = {}, {}, []
        for st in node.body:
            if isinstance(st, (ast.FunctionDef, ast.AsyncFunctionDef)):
                kind = None
                for d in st.decorator_list:
                    s = ast.unparse(d)
                    if s in ("staticmethod", "classmethod", "property"):
                        kind = s
                    elif s.endswith((".setter", ".deleter")):
                        kind = "setter"
                    elif "property" in s:
                        kind = "property"
                if kind != "setter":
                    self.methods[st.name] = Fun(st, mod, self, None, kind)
            elif isinstance(st, ast.Assign):
                for t in st.targets:
                    if isinstance(t, ast.Name):
                        self.attrs[t.id] = st.value
            elif isinstance(st, ast.AnnAssign) and st.value is not None and isinstance(st.target, ast.Name):
                self.attrs[st.target.id] = st.value

    def mro(self):
        out = [self]
        for b in self.bases:
            for c in b.mro():
                if c not in out:
                    out.append(c)
        return out

    def find(self, name):
        for c in self.mro():
            if name in c.methods:
                return c.methods[name]
        return None

    def find_attr(self, name):
        for c in self.mro():
            if name in c.attrs:
                return c
        return None

    def init_attrs(self):
        """Attributes which methods of the hierarchy assign on the instance."""
        out = set()
        for c in self.mro():
            for f in c.methods.values():
                a = f.node.args.posonlyargs + f.node.args.args
                if not a:
                    continue
                me = a[0].arg
                for x in ast.walk(f.node):
                    if isinstance(x, ast.Attribute) and isinstance(x.ctx, ast.Store) and isinstance(x.value, ast.Name) and x.value.id == me:
                        out.add((f.name, x.attr))
        return out


class Mod:
    def __init__(self, name, path, tree):
        self.name, self.path, self.tree = name, path, tree
        self.funs, self.classes, self.imports, self.vars = {}, {}, {}, {}
        pk = name.rsplit(".", 1)[0] if "." in name else name
        for st in ast.walk(tree):
            if isinstance(st, ast.Import):
                for a in st.names:
                    if a.asname:
                        self.imports[a.asname] = a.name
                    else:
                        self.imports[a.name.split(".")[0]] = a.name.split(".")[0]
            elif isinstance(st, ast.ImportFrom):
                base = (pk + ("." + st.module if st.module else "")) if st.level else st.module
                for a in st.names:
                    self.imports[a.asname or a.name] = base + "." + a.name

        def top(body):
            for st in body:
                if isinstance(st, (ast.FunctionDef, ast.AsyncFunctionDef)):
                    self.funs[st.name] = Fun(st, self)
                elif isinstance(st, ast.ClassDef):
                    self.classes[st.name] = Cls(st, self)
                elif isinstance(st, ast.Assign):
                    for t in st.targets:
                        if isinstance(t, ast.Name):
                            self.vars[t.id] = st.value
                elif isinstance(st, ast.AnnAssign) and isinstance(st.target, ast.Name) and st.value is not None:
                    self.vars[st.target.id] = st.value
                elif isinstance(st, ast.Try):
                    top(st.body)
                    for h in st.handlers:
                        top(h.body)
                    top(st.orelse)
                elif isinstance(st, ast.If):
                    if isinstance(st.test, ast.Compare) and ast.unparse(st.test).startswith("__name__"):
                        continue
                    top(st.body)
                    top(st.orelse)

        top(tree.body)


class Package:
    def __init__(self, mods):
        self.mods = mods
        self.returned = {}
        self.by_method = {}
        for m in mods.values():
            for c in m.classes.values():
                for b in c.node.bases:
                    k = self.lookup_class(m, b)
                    if k is not None and k is not c:
                        c.bases.append(k)
                for n, f in c.methods.items():
                    self.by_method.setdefault(n, []).append(f)

    def returns(self, name):
        """Parameters which some class's query of this name may return itself: (position, name)."""
        if name not in self.returned:
            self.returned[name] = set()
            for f in self.by_method.get(name, []):
                if f.kind is not None:
                    continue
                A = Analysis(self)
                A.root(f)
                pos = [p.arg for p in f.node.args.posonlyargs + f.node.args.args][1:]
                for i, p in enumerate(pos):
                    if X("P:" + p) in A.result:
                        self.returned[name].add((i, p))
        return self.returned[name]

    def lookup_class(self, m, b):
        if isinstance(b, ast.Name):
            if b.id in m.classes:
                return m.classes[b.id]
            p = m.imports.get(b.id)
            if p and p.rsplit(".", 1)[0] in self.mods:
                return self.mods[p.rsplit(".", 1)[0]].classes.get(p.rsplit(".", 1)[1])
        elif isinstance(b, ast.Attribute) and isinstance(b.value, ast.Name):
            p = m.imports.get(b.value.id)
            if p in self.mods:
                return self.mods[p].classes.get(b.attr)
        return None


EMPTY = frozenset()


def X(root, *path):
    return ("x", root, tuple(path))


def ext(v):
    return [a for a in v if a[0] == "x"]


def names_of(node):
    return {x.id for x in ast.walk(node) if isinstance(x, ast.Name)}


def is_container_expr(e):
    """Expression which makes a mutable container or array."""
    if isinstance(e, (ast.List, ast.Dict, ast.Set, ast.ListComp, ast.DictComp, ast.SetComp)):
        return True
    if isinstance(e, ast.Call):
        s = ast.unparse(e.func)
        if s in ("list", "dict", "set", "bytearray", "defaultdict", "collections.defaultdict", "OrderedDict", "collections.OrderedDict", "deque", "collections.deque"):
            return True
        h, _, t = s.rpartition(".")
        if h in ("np", "numpy") and t in ("array", "zeros", "ones", "empty", "full", "linspace", "arange", "asarray", "zeros_like", "eye"):
            return True
    return False


class State:
    __slots__ = ("frames", "heap")

    def __init__(self, frames=None, heap=None):
        self.frames = frames if frames is not None else {}
        self.heap = heap if heap is not None else {}

    def copy(self):
        return State({k: dict(v) for k, v in self.frames.items()}, dict(self.heap))


def join(A, B):
    if A is None:
        return B
    if B is None:
        return A
    fr = {}
    for k in A.frames.keys() | B.frames.keys():
        a, b = A.frames.get(k), B.frames.get(k)
        if a is None or b is None:
            fr[k] = dict(b if a is None else a)
            continue
        d = {}
        for n in a.keys() | b.keys():
            d[n] = a.get(n, EMPTY) | b.get(n, EMPTY)
        fr[k] = d
    hp = {}
    for k in A.heap.keys() | B.heap.keys():
        a, b = A.heap.get(k), B.heap.get(k)
        if a is b:
            hp[k] = a
            continue
        if a is None or b is None:
            if k[0] == "x":
                # the other state still has what was there before
                d = {}
                for n, v in (b if a is None else a).items():
                    d[n] = v | frozenset([step(k, n)])
                hp[k] = d
            else:
                hp[k] = dict(b if a is None else a)
            continue
        d = {}
        for n in a.keys() | b.keys():
            if n in a and n in b:
                d[n] = a[n] | b[n]
            else:
                v = a.get(n) if n in a else b.get(n)
                o = b if n in a else a
                d[n] = v | (frozenset([step(k, n)]) if k[0] == "x" else o.get("{}", EMPTY) if n[1:2] in ("'", '"') else EMPTY)
        hp[k] = d
    return State(fr, hp)


def same(A, B):
    return A is not None and B is not None and A.frames == B.frames and A.heap == B.heap


def step(atom, key):
    p = atom[2] + (key,)
    if len(p) > MAXPATH:
        p = p[:MAXPATH]
    return ("x", atom[1], p)


class Effect:
    def __init__(self, kind, atom, line, fn, text, aug=False, deps=EMPTY, path="", rhs=None):
        self.kind, self.atom, self.line, self.fn, self.text, self.aug, self.deps, self.path = kind, atom, line, fn, text, aug, deps, path
        self.rhs = rhs

    def key(self):
        return (self.kind, self.atom, self.line, self.fn)


class Analysis:
    def __init__(self, pkg):
        self.pkg = pkg
        self.fn_table = []
        self.reset()
        self.calls = self.stmts = 0

    def reset(self):
        self.S = State()
        self.effects = []
        self.depth = 0
        self.nf = 0
        self.meta = {}
        self.stack = []
        self.cls_of = {}  # fresh site -> Cls
        self.self_cls = None
        self.visited = set()
        self.in_init = False
        self.memo = {}
        self.ver = 0

    # -------------------------------------------------------------- frames
    def push(self, parent, fun):
        self.nf += 1
        self.S.frames[self.nf] = {}
        self.meta[self.nf] = (parent, fun)
        return self.nf

    def lookup(self, name, fid):
        f = fid
        while f is not None:
            fr = self.S.frames.get(f)
            if fr is not None and name in fr:
                return fr[name]
            f = self.meta[f][0]
        mod = self.meta[fid][1].mod
        return self.global_value(mod, name)

    def global_value(self, mod, name):
        if name in mod.vars:
            e = mod.vars[name]
            if is_container_expr(e) or isinstance(e, (ast.Call, ast.Constant)):
                a = X("G:%s.%s" % (mod.name, name))
                return frozenset([a])
            return EMPTY
        if name in mod.funs:
            return self.fnval(mod.funs[name])
        if name in mod.classes:
            return frozenset([("cls", mod.classes[name])])
        if name in mod.imports:
            p = mod.imports[name]
            if p in self.pkg.mods:
                return frozenset([("mod", p)])
            h, _, t = p.rpartition(".")
            if h in self.pkg.mods:
                if h + "." + t in self.pkg.mods:
                    return frozenset([("mod", h + "." + t)])
                return self.global_value(self.pkg.mods[h], t)
            return frozenset([("ext", p)])
        return frozenset([("ext", name)])

    def fnval(self, fun, selfv=None):
        return frozenset([("fn", fun, selfv)])

    # ------------------------------------------------------------- effects
    def effect(self, kind, v, node, text, aug=False, deps=EMPTY, rhs=None):
        for a in v:
            if a[0] == "x":
                e = Effect(kind, a, getattr(node, "lineno", 0), self.stack[-1] if self.stack else "?", text, aug, deps,
                           self.meta[self.cur][1].mod.path if self.cur in self.meta else "", rhs)
                self.effects.append(e)

    # ------------------------------------------------------------- reading
    def read(self, v, key):
        """Contents of the nodes v under key ('.a' attribute, '[]' element, "['k']")."""
        out = set()
        for a in v:
            if a[0] == "f" or a[0] == "x":
                h = self.S.heap.get(a)
                if a[0] == "x":
                    if h is not None and key in h:
                        out |= h[key]
                    else:
                        out.add(step(a, key))
                        if h is not None and key == "[]":
                            for k, w in h.items():
                                if k.startswith("["):
                                    out |= w
                elif h is not None:
                    if key in h:
                        out |= h[key]
                    if key.startswith("["):
                        if key == "[]":
                            for k, w in h.items():
                                if k.startswith("["):
                                    out |= w
                        elif "[]" in h:
                            out |= h["[]"]
                        if "{}" in h and key not in h and key[1:2] in ("'", '"'):
                            out |= h["{}"]  # elements of a copied dictionary
        return frozenset(out)

    def write(self, v, key, val, weak=False):
        recv = [a for a in v if a[0] in ("f", "x")]
        for a in recv:
            h = dict(self.S.heap.get(a, {}))
            if len(recv) == 1 and not weak and key != "[]":
                h[key] = val
            else:
                old = h.get(key)
                if old is None:
                    old = frozenset([step(a, key)]) if a[0] == "x" else EMPTY
                h[key] = old | val
            self.S.heap[a] = h
            self.ver += 1

    def fresh(self, node, tag="", of=None):
        return ("f", (self.stack[-1] if self.stack else "", getattr(node, "lineno", 0), getattr(node, "col_offset", 0), tag, len(self.stack), of and hash(of)))

    # --------------------------------------------------------- expressions
    def ev(self, e, fid):
        self.cur = fid
        m = getattr(self, "e_" + type(e).__name__, None)
        if m is not None:
            return m(e, fid)
        for c in ast.iter_child_nodes(e):
            if isinstance(c, ast.expr):
                self.ev(c, fid)
        return EMPTY

    def e_Constant(self, e, fid):
        return EMPTY

    def e_Name(self, e, fid):
        return self.lookup(e.id, fid)

    def e_NamedExpr(self, e, fid):
        v = self.ev(e.value, fid)
        self.bind(e.target, v, fid, e)
        return v

    def e_BoolOp(self, e, fid):
        out = EMPTY
        for x in e.values:
            out |= self.ev(x, fid)
        return out

    def e_IfExp(self, e, fid):
        self.ev(e.test, fid)
        t = self.pruned(e.test, fid)
        out = EMPTY
        if t is not False:
            out |= self.ev(e.body, fid)
        if t is not True:
            out |= self.ev(e.orelse, fid)
        return out

    def e_Tuple(self, e, fid):
        a = self.fresh(e, "tup")
        h = {}
        for i, x in enumerate(e.elts):
            if isinstance(x, ast.Starred):
                h["[]"] = h.get("[]", EMPTY) | self.read(self.ev(x.value, fid), "[]")
            else:
                h["[%d]" % i] = self.ev(x, fid)
        if "[]" in h:  # positions are not known
            h = {"[]": frozenset().union(*h.values())}
        self.S.heap[a] = h
        return frozenset([a])

    e_List = e_Tuple
    e_Set = e_Tuple

    def e_Dict(self, e, fid):
        a = self.fresh(e, "dict")
        h = {}
        for k, x in zip(e.keys, e.values):
            v = self.ev(x, fid)
            if k is None:
                for b in v:
                    for kk, w in self.S.heap.get(b, {}).items():
                        h[kk] = h.get(kk, EMPTY) | w
                    if b[0] == "x":
                        h["[]"] = h.get("[]", EMPTY) | frozenset([step(b, "[]")])
            else:
                kk = "[%r]" % k.value if isinstance(k, ast.Constant) else "[]"
                self.ev(k, fid)
                h[kk] = h.get(kk, EMPTY) | v
        self.S.heap[a] = h
        return frozenset([a])

    def comp(self, e, fid, elts):
        f = self.push(fid, self.meta[fid][1])
        for g in e.generators:
            it = self.ev(g.iter, f if g is not e.generators[0] else fid)
            self.bind(g.target, self.elements(it), f, e)
            for c in g.ifs:
                self.ev(c, f)
        out = EMPTY
        for x in elts:
            out |= self.ev(x, f)
        a = self.fresh(e, "comp")
        self.S.heap[a] = {"[]": out}
        if not any(isinstance(x, ast.Lambda) for x in ast.walk(e)):
            self.S.frames.pop(f, None)
        return frozenset([a])

    def e_ListComp(self, e, fid):
        return self.comp(e, fid, [e.elt])

    e_SetComp = e_ListComp
    e_GeneratorExp = e_ListComp

    def e_DictComp(self, e, fid):
        self_keys = [e.value]
        return self.comp(e, fid, self_keys)

    def e_Lambda(self, e, fid):
        return self.fnval(Fun(e, self.meta[fid][1].mod, None, fid))

    def e_Starred(self, e, fid):
        return self.read(self.ev(e.value, fid), "[]")

    def e_BinOp(self, e, fid):
        a = self.ev(e.left, fid)
        b = self.ev(e.right, fid)
        # concatenated lists and tuples keep their elements
        if isinstance(e.op, ast.Add):
            src = [x for x in a | b if x[0] == "f" and x[1][3] in ("tup", "comp", "cat", "list")]
            if src:
                n = self.fresh(e, "cat")
                self.S.heap[n] = {"[]": self.read(frozenset(src), "[]")}
                return frozenset([n])
        return EMPTY

    def e_Await(self, e, fid):
        return self.ev(e.value, fid)

    def e_Yield(self, e, fid):
        if e.value is not None:
            v = self.ev(e.value, fid)
            fr = self.S.frames[fid]
            fr["$yield"] = fr.get("$yield", EMPTY) | v
        return EMPTY

    def e_YieldFrom(self, e, fid):
        v = self.ev(e.value, fid)
        fr = self.S.frames[fid]
        fr["$yield"] = fr.get("$yield", EMPTY) | self.read(v, "[]")
        return EMPTY

    def e_Attribute(self, e, fid):
        v = self.ev(e.value, fid)
        return self.attr(v, e.attr, e, fid)

    def attr(self, v, name, node, fid):
        out = set()
        for a in v:
            if a[0] == "mod":
                m = self.pkg.mods[a[1]]
                out |= self.global_value(m, name)
            elif a[0] == "ext":
                out.add(("ext", a[1] + "." + name))
            elif a[0] == "cls":
                f = a[1].find(name)
                if f is not None:
                    out |= self.fnval(f, frozenset([a]) if f.kind == "classmethod" else None)
                c = a[1].find_attr(name)
                if c is not None:
                    out.add(X("C:%s.%s" % (c.qual, name)))
            elif a[0] in ("f", "x"):
                c = self.class_of(a)
                if name in ("T", "real", "imag", "flat") and c is None:
                    out.add(a)
                    continue
                if name in ("__class__",) and c is not None:
                    out.add(("cls", c))
                    continue
                if name == "__dict__":
                    out.add(a)
                    continue
                if c is not None:
                    h = self.S.heap.get(a, {})
                    if "." + name in h:
                        out |= h["." + name]
                        continue
                    f = c.find(name)
                    if f is not None:
                        if f.kind == "property":
                            out |= self.call_fun(f, [frozenset([a])], {}, node)
                        elif f.kind == "staticmethod":
                            out |= self.fnval(f)
                        elif f.kind == "classmethod":
                            out |= self.fnval(f, frozenset([("cls", c)]))
                        else:
                            out |= self.fnval(f, frozenset([a]))
                        continue
                    k = c.find_attr(name)
                    if k is not None:
                        init = {n for m, n in c.init_attrs() if m == "__init__"} if not (a[0] == "f" or self.in_init) else set()
                        if name not in init:
                            out.add(X("C:%s.%s" % (k.qual, name)))
                            continue
                    if a[0] == "x":
                        out.add(step(a, "." + name))
                    continue
                out |= self.read(frozenset([a]), "." + name)
        return frozenset(out)

    def class_of(self, a):
        if a[0] == "f":
            return self.cls_of.get(a)
        if a[0] == "x" and a[1] == "self" and not a[2]:
            return self.self_cls
        return None

    def key_of(self, s, fid):
        """How a subscript selects: '' (a view of the same memory), '[k]' or '[]' (an element), None (a copy)."""
        if isinstance(s, ast.Constant):
            if s.value is None or s.value is Ellipsis:
                return ""
            return "[%r]" % s.value
        if isinstance(s, ast.Slice):
            return ""
        if isinstance(s, ast.Tuple):
            ks = [self.key_of(x, fid) for x in s.elts]
            if any(k is None for k in ks):
                return None
            if any(k == "" for k in ks):
                return ""
            return "[]"
        if isinstance(s, ast.UnaryOp) and isinstance(s.op, ast.USub):
            return self.key_of(s.operand, fid) and "[]"
        if isinstance(s, ast.Name):
            fr, f = None, fid
            while f is not None:
                k = self.kinds.get((f, s.id))
                if k is not None:
                    return "[]" if k == "int" else None
                f = self.meta[f][0]
            return None
        if isinstance(s, ast.JoinedStr):
            return "[]"
        if isinstance(s, ast.BinOp):
            if isinstance(s.left, ast.Constant) and isinstance(s.left.value, str) or isinstance(s.right, ast.Constant) and isinstance(s.right.value, str):
                return "[]"
            ks = [self.key_of(x, fid) for x in (s.left, s.right)]
            return "[]" if all(k is not None and k != "" for k in ks) else None
        if isinstance(s, ast.Call):
            f = ast.unparse(s.func)
            if f == "slice" or f == "np.s_":
                return ""
            if f == "len" or f == "int":
                return "[]"
            return None
        return None

    def e_Subscript(self, e, fid):
        v = self.ev(e.value, fid)
        self.ev(e.slice, fid)
        k = self.key_of(e.slice, fid)
        if k is None:
            # a copy of an array; an element of a list of objects
            return frozenset(b for b in self.read(frozenset(a for a in v if a[0] == "f"), "[]"))
        if k == "":
            return frozenset(a for a in v if a[0] in ("x", "f"))
        return self.read(v, k)

    def elements(self, v):
        return self.read(v, "[]")

    # ---------------------------------------------------------------- calls
    def e_Call(self, e, fid):
        self.calls += 1
        args, star = [], EMPTY
        # super()
        if isinstance(e.func, ast.Name) and e.func.id == "super":
            return frozenset([("super",)])
        f = e.func
        recv = None
        if isinstance(f, ast.Attribute):
            recv = self.ev(f.value, fid)
        fv = None if recv is not None else self.ev(f, fid)
        self.cur = fid
        argv = []
        for a in e.args:
            if isinstance(a, ast.Starred):
                argv.append(("*", self.ev(a.value, fid)))
            else:
                argv.append(("", self.ev(a, fid)))
        kw = {}
        for k in e.keywords:
            v = self.ev(k.value, fid)
            if k.arg is None:
                kw["**"] = v
            else:
                kw[k.arg] = v
        args = []
        for t, v in argv:
            if t == "*":
                # elements in order when known
                n = 0
                hs = [self.S.heap.get(a, {}) for a in v if a[0] == "f"]
                if len(v) == 1 and hs and "[]" not in hs[0] and all(k.startswith("[") for k in hs[0]):
                    for i in range(len(hs[0])):
                        args.append(hs[0].get("[%d]" % i, EMPTY))
                        n += 1
                else:
                    star |= self.read(v, "[]")
            else:
                args.append(v)
        self.cur = fid
        if recv is not None:
            return self.method(e, f.attr, recv, args, kw, star, fid)
        return self.apply(e, fv, args, kw, star, fid)

    def apply(self, e, fv, args, kw, star, fid):
        out = set()
        for a in fv:
            if a[0] == "fn":
                out |= self.call_fun(a[1], ([a[2]] if a[2] is not None else []) + args, kw, e, star)
            elif a[0] == "cls":
                out |= self.construct(a[1], args, kw, e, star)
            elif a[0] == "ext":
                out |= self.external(e, a[1], args, kw, star, fid)
            elif a[0] in ("x", "f"):
                c = self.class_of(a)
                f = c.find("__call__") if c is not None else None
                if f is not None:
                    out |= self.call_fun(f, [frozenset([a])] + args, kw, e, star)
                else:
                    self.callbacks(args, kw, e)
        return frozenset(out)

    def method(self, e, name, recv, args, kw, star, fid):
        out = set()
        for a in recv:
            one = frozenset([a])
            if a[0] == "super":
                fun = self.meta[fid][1]
                c = fun.cls
                f, k = None, fid
                while c is None and self.meta[k][0] is not None:
                    k = self.meta[k][0]
                    c = self.meta[k][1].cls
                if c is not None:
                    for b in c.mro()[1:]:
                        if name in b.methods:
                            f = b.methods[name]
                            break
                if f is not None:
                    p = fun.node.args.args
                    me = self.lookup(p[0].arg, fid) if p else EMPTY
                    out |= self.call_fun(f, [me] + args, kw, e, star)
                continue
            if a[0] in ("mod", "cls", "ext"):
                if a[0] == "ext" and name == "at" and a[1].startswith(("numpy", "np")) and args:
                    self.effect("store", args[0], e, ast.unparse(e)[:80])
                    continue
                if a[0] == "cls":
                    f = a[1].find(name)
                    if f is not None:
                        first = [one] if f.kind == "classmethod" else []
                        out |= self.call_fun(f, first + args, kw, e, star)
                        continue
                out |= self.apply(e, self.attr(one, name, e, fid), args, kw, star, fid)
                continue
            if a[0] == "fn":
                continue
            if a[0] == "x" and name in QUERIES:
                for i, p in self.pkg.returns(name):
                    out |= args[i] if i < len(args) else kw.get(p, EMPTY)
            c = self.class_of(a)
            if c is not None:
                v = self.attr(one, name, e, fid)
                if v:
                    out |= self.apply(e, v, args, kw, star, fid)
                    continue
            out |= self.container(e, name, a, args, kw, star, fid)
        return frozenset(out)

    def container(self, e, name, a, args, kw, star, fid):
        one = frozenset([a])
        if name in VIEWS:
            return one
        if name == "copy" or name == "astype" or name == "flatten":
            if name == "astype" and self.false_kw(e, "copy"):
                return one
            n = self.fresh(e, "copy", a)
            self.S.heap[n] = {k: w for k, w in self.S.heap.get(a, {}).items()}
            if a[0] == "x":
                # a shallow copy holds the same elements; of an array, copies of them
                self.S.heap[n].setdefault("{}", frozenset([step(a, "[]")]))
            return frozenset([n])
        if name in MUTATORS:
            if name in ("update", "add", "put", "remove", "insert", "clear", "resize") and a[0] == "x" and self.user_object(a, name):
                pass
            else:
                if name in ("pop", "setdefault", "popitem"):
                    r = self.read(one, "[]")
                else:
                    r = EMPTY
                self.effect("store", one, e, ast.unparse(e)[:80])
                for v in args:
                    if name in ("extend", "update"):
                        self.write(one, "[]", self.read(v, "[]"))
                    else:
                        self.write(one, "[]", v)
                return r
        if name in ELEMENTS:
            if e.args and isinstance(e.args[0], ast.Constant):
                return self.read(one, "[%r]" % e.args[0].value)
            if name == "items":
                n = self.fresh(e, "items", a)
                t = self.fresh(e, "pair", a)
                self.S.heap[t] = {"[1]": self.read(one, "[]") | self.S.heap.get(a, {}).get("{}", EMPTY)}
                self.S.heap[n] = {"[]": frozenset([t])}
                return frozenset([n])
            if name == "values":
                n = self.fresh(e, "values", a)
                self.S.heap[n] = {"[]": self.read(one, "[]") | self.S.heap.get(a, {}).get("{}", EMPTY)}
                return frozenset([n])
            return self.read(one, "[]")
        if a[0] == "x" or a in self.cls_of or a[0] == "f":
            # methods of this package by name
            fs = self.pkg.by_method.get(name, [])
            fs = [f for f in fs if f.kind is None]
            if name.startswith("__") or name in NOTOURS or not fs or len(fs) > 6 or a[0] == "f" and a[1][3] != "obj":
                v = self.read(one, "." + name)
                self.callbacks(args, kw, e)
                for k in ("out",):
                    if k in kw:
                        self.effect("store", kw[k], e, ast.unparse(e)[:80])
                return EMPTY
            out = EMPTY
            S0 = self.S
            R = None
            for f in fs:
                self.S = S0.copy()
                old = self.self_cls, self.cls_of.get(a)
                self.cls_of2[a] = f.cls
                out |= self.call_fun(f, [one] + args, kw, e, star)
                self.cls_of2.pop(a, None)
                R = join(R, self.S)
            self.S = R
            return out
        return EMPTY

    def user_object(self, a, name):
        return bool(a[2]) and a[2][-1].startswith(".") and any(f for f in self.pkg.by_method.get(name, []))

    def false_kw(self, e, name):
        for k in e.keywords:
            if k.arg == name:
                return isinstance(k.value, ast.Constant) and not k.value.value
        return False

    def callbacks(self, args, kw, e):
        """Functions handed to code outside the package may be called by it."""
        for v in list(args) + list(kw.values()):
            for a in v:
                if a[0] == "fn":
                    n = len(a[1].node.args.args) - (1 if a[2] is not None else 0)
                    self.call_fun(a[1], ([a[2]] if a[2] is not None else []) + [EMPTY] * max(n, 0), {}, e)

    def external(self, e, path, args, kw, star, fid):
        self.cur = fid
        h, _, t = path.rpartition(".")
        top = path.split(".")[0]
        src = ast.unparse(e)[:80]
        if "out" in kw and top in ("numpy", "scipy"):
            self.effect("store", kw["out"], e, src)
            v = kw["out"]
            # out=(a,)
            for a in v:
                if a[0] == "f" and a[1][3] == "tup":
                    self.effect("store", self.read(frozenset([a]), "[]"), e, src)
            return v
        if path in ("setattr", "delattr", "builtins.setattr") and args:
            n = e.args[1].value if len(e.args) > 1 and isinstance(e.args[1], ast.Constant) else None
            self.set_attr(args[0], str(n) if n else "?", args[2] if len(args) > 2 else EMPTY, e, fid)
            return EMPTY
        if path == "getattr" and args:
            n = e.args[1].value if len(e.args) > 1 and isinstance(e.args[1], ast.Constant) else None
            return self.attr(args[0], n, e, fid) if n else EMPTY
        if path == "vars" and args:
            return args[0]
        if path == "type" and len(args) == 1:
            return frozenset(("cls", self.class_of(a)) for a in args[0] if self.class_of(a) is not None)
        if top in ("numpy", "scipy"):
            if t in NPMUT and args:
                self.effect("store", args[0], e, src)
                return EMPTY
            if t in NPVIEW and args:
                v = args[0]
                # of a list, a new array
                return frozenset(a for a in v if a[0] == "x" or a[0] == "f" and a[1][3] not in ("tup", "comp", "cat", "list"))
            if t in NPVIEWS and args:
                n = self.fresh(e, "list")
                self.S.heap[n] = {"[]": frozenset().union(*args)}
                return frozenset([n])
            if t in ("array", "nan_to_num") and args and self.false_kw(e, "copy"):
                return args[0]
            if t == "meshgrid" and self.false_kw(e, "copy"):
                n = self.fresh(e, "list")
                self.S.heap[n] = {"[]": frozenset().union(*args)}
                return frozenset([n])
            self.callbacks(args, kw, e)
            n = self.fresh(e, "arr")
            self.S.heap.setdefault(n, {})
            return frozenset([n])
        if path in ("copy.copy",) and args:
            n = self.fresh(e, "copy")
            self.S.heap[n] = {}
            for a in args[0]:
                for k, w in self.S.heap.get(a, {}).items():
                    self.S.heap[n][k] = self.S.heap[n].get(k, EMPTY) | w
                if a[0] == "x":
                    self.S.heap[n].setdefault("{}", frozenset([step(a, "[]")]))
            return frozenset([n])
        if path in ("random.shuffle", "heapq.heapify", "heapq.heappush", "heapq.heappop") and args:
            self.effect("store", args[0], e, src)
            return EMPTY
        if path in ("zip", "enumerate", "itertools.product"):
            n, tp = self.fresh(e, "list"), self.fresh(e, "tup")
            if path == "enumerate":
                self.S.heap[tp] = {"[1]": self.read(args[0], "[]")} if args else {}
            else:
                self.S.heap[tp] = {"[%d]" % i: self.read(v, "[]") for i, v in enumerate(args)}
                if star:
                    self.S.heap[tp] = {"[]": star | frozenset().union(*[self.read(v, "[]") for v in args])}
            self.S.heap[n] = {"[]": frozenset([tp])}
            return frozenset([n])
        if path in PASS and args:
            if path == "next":
                return self.read(args[0], "[]")
            n = self.fresh(e, "list")
            self.S.heap[n] = {"[]": self.read(args[0], "[]")}
            return frozenset([n])
        if path in ("dict", "collections.OrderedDict"):
            n = self.fresh(e, "dict")
            hh = {"[%r]" % k: w for k, w in kw.items() if k != "**"}
            for v in args + ([kw["**"]] if "**" in kw else []):
                for a in v:
                    for k, w in self.S.heap.get(a, {}).items():
                        if k.startswith("["):
                            hh[k] = hh.get(k, EMPTY) | w
                    if a[0] == "x":
                        hh["[]"] = hh.get("[]", EMPTY) | frozenset([step(a, "[]")])
            self.S.heap[n] = hh
            return frozenset([n])
        if path in ("functools.partial",) and args:
            self.callbacks(args[:1], {}, e)
            return EMPTY
        if path in ("max", "min") and len(args) > 1:
            return EMPTY
        self.callbacks(args, kw, e)
        return EMPTY

    def construct(self, c, args, kw, e, star=EMPTY):
        a = self.fresh(e, "obj")
        self.cls_of[a] = c
        self.S.heap[a] = {}
        f = c.find("__init__")
        if f is not None:
            self.call_fun(f, [frozenset([a])] + args, kw, e, star)
        return frozenset([a])

    def call_fun(self, fun, args, kw, e, star=EMPTY):
        if self.depth >= MAXDEPTH or self.stack.count(fun.qual) >= 2:
            return EMPTY
        self.visited.add(fun.qual)
        key = None
        if not star and not any(a[0] == "f" and self.S.heap.get(a) for v in list(args) + list(kw.values()) for a in v):
            key = (id(fun.node), fun.fid, tuple(args), tuple(sorted(kw.items(), key=lambda q: q[0])), self.ver)
            if key in self.memo:
                return self.memo[key]
        r = self.call_fun1(fun, args, kw, e, star)
        if key is not None:
            self.memo[key] = r
        return r

    def call_fun1(self, fun, args, kw, e, star):
        fid = self.push(fun.fid, fun)
        fr = self.S.frames[fid]
        a = fun.node.args
        pos = a.posonlyargs + a.args
        nd = len(a.defaults)
        kw = dict(kw)
        unk = kw.pop("**", EMPTY)
        for i, p in enumerate(pos):
            if i < len(args):
                fr[p.arg] = args[i]
            elif p.arg in kw:
                fr[p.arg] = kw.pop(p.arg)
            elif star:
                fr[p.arg] = star
            elif i >= len(pos) - nd:
                fr[p.arg] = self.default(fun, p.arg, a.defaults[i - (len(pos) - nd)])
            else:
                fr[p.arg] = EMPTY
        if a.vararg is not None:
            n = self.fresh(e, "tup")
            self.S.heap[n] = {"[%d]" % i: v for i, v in enumerate(args[len(pos):])} if not star else {"[]": star | frozenset().union(*args[len(pos):])}
            fr[a.vararg.arg] = frozenset([n])
        for p, d in zip(a.kwonlyargs, a.kw_defaults):
            if p.arg in kw:
                fr[p.arg] = kw.pop(p.arg)
            elif d is not None:
                fr[p.arg] = self.default(fun, p.arg, d)
            else:
                fr[p.arg] = EMPTY
        if a.kwarg is not None:
            n = self.fresh(e, "dict")
            self.S.heap[n] = {"[%r]" % k: v for k, v in kw.items()}
            fr[a.kwarg.arg] = frozenset([n])
        return self.run_body(fun, fid)

    def default(self, fun, name, d):
        if is_container_expr(d) or isinstance(d, ast.Call):
            return frozenset([X("D:%s(%s)" % (fun.qual, name))])
        return EMPTY

    def run_body(self, fun, fid):
        node = fun.node
        self.depth += 1
        self.stack.append(fun.qual)
        oldret, oldcur = getattr(self, "rets", None), getattr(self, "cur", None)
        self.rets = []
        self.cur = fid
        try:
            if isinstance(node, ast.Lambda):
                return self.ev(node.body, fid)
            self.index_kinds(node, fid)
            live = self.block(node.body, fid)
            S = self.S if live else None
            out = EMPTY
            for v, s in self.rets:
                out |= v
                S = join(S, s)
            if S is not None:
                self.S = S
            y = self.S.frames.get(fid, {}).get("$yield")
            if y is not None:
                n = ("f", (fun.qual, 0, 0, "gen", len(self.stack)))
                self.S.heap[n] = {"[]": y}
                out |= frozenset([n])
            if fun.keeps is None:
                fun.keeps = any(x is not node and isinstance(x, (ast.FunctionDef, ast.Lambda)) for x in ast.walk(node))
            if not fun.keeps:
                self.S.frames.pop(fid, None)
            return out
        finally:
            self.depth -= 1
            self.stack.pop()
            self.rets = oldret
            self.cur = oldcur

    kinds = {}
    cls_of2 = {}

    def index_kinds(self, node, fid):
        """Which local names are integers (loop counters) or masks."""
        for x in ast.walk(node):
            if isinstance(x, (ast.For, ast.comprehension)):
                it, t = x.iter, x.target
                f = ast.unparse(it.func) if isinstance(it, ast.Call) else ""
                if f in ("range", "np.arange", "numpy.arange", "arange", "trange", "tqdm") and isinstance(t, ast.Name):
                    self.kinds[(fid, t.id)] = "int"
                if f == "enumerate" and isinstance(t, ast.Tuple) and isinstance(t.elts[0], ast.Name):
                    self.kinds[(fid, t.elts[0].id)] = "int"
                if isinstance(it, (ast.Tuple, ast.List)) and isinstance(t, ast.Name) and it.elts and all(isinstance(q, ast.Constant) and isinstance(q.value, str) for q in it.elts):
                    self.kinds[(fid, t.id)] = "int"

    # ------------------------------------------------------------ statements
    def block(self, body, fid):
        """True if control can reach the end."""
        for st in body:
            self.stmts += 1
            self.cur = fid
            if not self.stmt(st, fid):
                return False
        return True

    def stmt(self, st, fid):
        m = getattr(self, "s_" + type(st).__name__, None)
        if m is None:
            return True
        r = m(st, fid)
        return True if r is None else r

    def s_Expr(self, st, fid):
        self.ev(st.value, fid)

    def s_Assert(self, st, fid):
        self.ev(st.test, fid)

    def s_Return(self, st, fid):
        v = self.ev(st.value, fid) if st.value is not None else EMPTY
        self.rets.append((v, self.S))
        self.S = self.S.copy()
        return False

    def s_Raise(self, st, fid):
        if st.exc is not None:
            self.ev(st.exc, fid)
        return False

    def s_Break(self, st, fid):
        self.breaks.append(self.S.copy())
        return False

    def s_Continue(self, st, fid):
        self.conts.append(self.S.copy())
        return False

    def s_Global(self, st, fid):
        for n in st.names:
            self.globals.add((fid, n))

    def s_Nonlocal(self, st, fid):
        for n in st.names:
            self.nonlocals.add((fid, n))

    globals = set()
    nonlocals = set()

    def s_FunctionDef(self, st, fid):
        self.S.frames[fid][st.name] = self.fnval(Fun(st, self.meta[fid][1].mod, None, fid))

    def s_ClassDef(self, st, fid):
        self.S.frames[fid][st.name] = frozenset([("cls", Cls(st, self.meta[fid][1].mod))])

    def s_Import(self, st, fid):
        for a in st.names:
            n = a.asname or a.name.split(".")[0]
            p = a.name if a.asname else a.name.split(".")[0]
            self.S.frames[fid][n] = frozenset([("mod", p) if p in self.pkg.mods else ("ext", p)])

    def s_ImportFrom(self, st, fid):
        mod = self.meta[fid][1].mod
        for a in st.names:
            n = a.asname or a.name
            p = mod.imports.get(n)
            if p is None:
                continue
            old = mod.vars.pop(n, None)
            self.S.frames[fid][n] = self.global_value(mod, n)
            if old is not None:
                mod.vars[n] = old

    def s_Delete(self, st, fid):
        for t in st.targets:
            if isinstance(t, ast.Subscript):
                self.effect("store", self.ev(t.value, fid), st, ast.unparse(st)[:80])
            elif isinstance(t, ast.Attribute):
                v = self.ev(t.value, fid)
                self.effect("rebind", frozenset(step(a, "." + t.attr) for a in v if a[0] == "x"), st, ast.unparse(st)[:80])

    def s_Assign(self, st, fid):
        v = self.ev(st.value, fid)
        self.rhs = st.value
        for t in st.targets:
            self.bind(t, v, fid, st)

    def s_AnnAssign(self, st, fid):
        if st.value is not None:
            v = self.ev(st.value, fid)
            self.rhs = st.value
            self.bind(st.target, v, fid, st)

    rhs = None

    def bind(self, t, v, fid, st):
        if isinstance(t, ast.Name):
            if (fid, t.id) in self.globals:
                self.effect("global", frozenset([X("G:%s.%s" % (self.meta[fid][1].mod.name, t.id))]), st, ast.unparse(st)[:80])
                return
            if (fid, t.id) in self.nonlocals:
                f = self.meta[fid][0]
                while f is not None and t.id not in self.S.frames.get(f, {}):
                    f = self.meta[f][0]
                if f is not None:
                    self.S.frames[f][t.id] = v
                return
            self.S.frames[fid][t.id] = v
        elif isinstance(t, (ast.Tuple, ast.List)):
            for i, x in enumerate(t.elts):
                if isinstance(x, ast.Starred):
                    n = self.fresh(x, "list")
                    self.S.heap[n] = {"[]": self.read(v, "[]")}
                    self.bind(x.value, frozenset([n]), fid, st)
                else:
                    self.bind(x, self.read(v, "[%d]" % i), fid, st)
        elif isinstance(t, ast.Starred):
            self.bind(t.value, v, fid, st)
        elif isinstance(t, ast.Subscript):
            r = self.ev(t.value, fid)
            self.ev(t.slice, fid)
            k = self.key_of(t.slice, fid)
            self.effect("store", r, st, ast.unparse(st)[:80], rhs=getattr(st, "value", None))
            objs = frozenset(a for a in v if a[0] in ("f", "x", "fn"))
            self.write(r, k if k else "[]", objs, weak=not k)
        elif isinstance(t, ast.Attribute):
            r = self.ev(t.value, fid)
            self.set_attr(r, t.attr, v, st, fid)

    def set_attr(self, r, name, v, st, fid):
        src = ast.unparse(st)[:80]
        for a in r:
            if a[0] == "x":
                if name == "shape" or name == "dtype":
                    self.effect("shape", frozenset([a]), st, src)
                    continue
                self.effect("rebind", frozenset([step(a, "." + name)]), st, src, rhs=getattr(st, "value", None))
            elif a[0] == "cls":
                c = a[1].find_attr(name) or a[1]
                self.effect("rebind", frozenset([X("C:%s.%s" % (c.qual, name))]), st, src)
            elif a[0] == "mod":
                self.effect("global", frozenset([X("G:%s.%s" % (a[1], name))]), st, src)
        self.write(frozenset(a for a in r if a[0] in ("x", "f")), "." + name, v)

    def s_AugAssign(self, st, fid):
        self.ev(st.value, fid)
        t = st.target
        src = ast.unparse(st)[:80]
        if isinstance(t, ast.Name):
            if (fid, t.id) in self.globals:
                self.effect("global", frozenset([X("G:%s.%s" % (self.meta[fid][1].mod.name, t.id))]), st, src)
                return
            v = self.lookup(t.id, fid)
            self.effect("store", v, st, src, aug=True)
            if isinstance(st.op, ast.Add):
                self.write(v, "[]", self.read(self.ev(st.value, fid), "[]"))
        elif isinstance(t, ast.Subscript):
            r = self.ev(t.value, fid)
            self.ev(t.slice, fid)
            self.effect("store", r, st, src)
        elif isinstance(t, ast.Attribute):
            r = self.ev(t.value, fid)
            self.effect("rebind", frozenset(step(a, "." + t.attr) for a in r if a[0] == "x"), st, src, aug=True)
            self.effect("store", self.attr(r, t.attr, st, fid), st, src, aug=True)

    def pruned(self, test, fid):
        return None

    def s_If(self, st, fid):
        self.ev(st.test, fid)
        S0 = self.S
        self.S = S0.copy()
        a = self.block(st.body, fid)
        A = self.S if a else None
        self.S = S0
        b = self.block(st.orelse, fid)
        B = self.S if b else None
        R = join(A, B)
        if R is None:
            return False
        self.S = R
        return True

    def loop(self, st, fid, head):
        oldb, oldc = getattr(self, "breaks", None), getattr(self, "conts", None)
        self.breaks = []
        end = None
        S = self.S
        for n in range(3):
            self.S = S.copy()
            self.conts = []
            head()
            ex = self.S.copy()
            live = self.block(st.body, fid)
            R = self.S if live else None
            for c in self.conts:
                R = join(R, c)
            N = join(S.copy(), R)
            end = join(end, ex)
            if R is not None:
                end = join(end, R)
            if same(N, S):
                break
            S = N
        self.S = join(S, end)
        if st.orelse:
            self.block(st.orelse, fid)
        for b in self.breaks:
            self.S = join(self.S, b)
        self.breaks, self.conts = oldb, oldc
        return True

    def s_For(self, st, fid):
        it = self.ev(st.iter, fid)
        return self.loop(st, fid, lambda: self.bind(st.target, self.elements(it), fid, st))

    def s_While(self, st, fid):
        return self.loop(st, fid, lambda: self.ev(st.test, fid))

    def s_With(self, st, fid):
        for i in st.items:
            v = self.ev(i.context_expr, fid)
            if i.optional_vars is not None:
                self.bind(i.optional_vars, v if not ext(v) else EMPTY, fid, st)
        return self.block(st.body, fid)

    def s_Try(self, st, fid):
        S0 = self.S.copy()
        live = self.block(st.body, fid)
        A = self.S if live else None
        H = join(S0, self.S.copy())
        if live and st.orelse:
            live = self.block(st.orelse, fid)
            A = self.S if live else None
        R = A
        for h in st.handlers:
            self.S = H.copy()
            if self.block(h.body, fid):
                R = join(R, self.S)
        if R is None:
            self.S = H
            if st.finalbody:
                self.block(st.finalbody, fid)
            return False
        self.S = R
        if st.finalbody:
            return self.block(st.finalbody, fid)
        return True

    def s_Match(self, st, fid):
        self.ev(st.subject, fid)
        S0, R = self.S, None
        for c in st.cases:
            self.S = S0.copy()
            if self.block(c.body, fid):
                R = join(R, self.S)
        self.S = join(R, S0)
        return True

    # ----------------------------------------------------------------- roots
    def root(self, fun):
        """Analyse a function with unknown arguments; its effects."""
        self.reset()
        self.kinds, self.globals, self.nonlocals, self.cls_of2 = {}, set(), set(), {}
        self.self_cls = fun.cls
        self.in_init = fun.name == "__init__"
        fid = self.push(None, fun)
        fr = self.S.frames[fid]
        a = fun.node.args
        pos = a.posonlyargs + a.args
        self.params = [p.arg for p in pos + a.kwonlyargs]
        defaults = {}
        for p, d in list(zip(reversed(pos), reversed(a.defaults))) + [(p, d) for p, d in zip(a.kwonlyargs, a.kw_defaults) if d is not None]:
            defaults[p.arg] = d
        for i, p in enumerate(pos + a.kwonlyargs):
            if i == 0 and fun.cls is not None and fun.kind not in ("staticmethod", "classmethod"):
                fr[p.arg] = frozenset([X("self")])
            elif i == 0 and fun.kind == "classmethod":
                fr[p.arg] = frozenset([("cls", fun.cls)])
            else:
                v = frozenset([X("P:" + p.arg)])
                if p.arg in defaults:
                    v |= self.default(fun, p.arg, defaults[p.arg])
                fr[p.arg] = v
        if a.vararg is not None:
            fr[a.vararg.arg] = frozenset([X("P:*" + a.vararg.arg)])
        if a.kwarg is not None:
            n = ("f", ("", 0, 0, "dict", 0))
            self.S.heap[n] = {"[]": frozenset([X("P:**" + a.kwarg.arg, "[]")])}
            fr[a.kwarg.arg] = frozenset([n])
        self.visited.add(fun.qual)
        self.result = self.run_body(fun, fid)
        out, seen = [], set()
        for e in self.effects:
            if e.key() not in seen:
                seen.add(e.key())
                out.append(e)
        return out


def load(root, skip=lambda rel: False):
    import glob

    mods = {}
    for p in sorted(glob.glob(os.path.join(root, "zoidberg") + "/**/*.py", recursive=True)):
        rel = os.path.relpath(p, root)
        b = os.path.basename(p)
        if b.startswith("test_") or b.endswith("_test.py") or b == "conftest.py" or "/examples/" in rel or "/tests/" in rel or skip(rel):
            continue
        m = rel[:-3].replace(os.sep, ".")
        if m.endswith(".__init__"):
            m = m[:-9]
        mods[m] = Mod(m, rel, ast.parse(open(p).read(), rel))
    return Package(mods)
