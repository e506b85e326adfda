"""Definite assignment and name resolution over the syntax tree.

States of the analysis are sets of (assigned names, facts): facts are the values of conditions which have been tested
since the names in them were last assigned, so that correlated tests are understood. States with the same assigned
names are joined (facts are intersected). `for` loops are taken to run at least once."""
import ast
import builtins
import re

BUILTIN = set(dir(builtins)) | {"__file__", "__name__", "__doc__", "__path__", "__spec__", "__package__", "__loader__", "__builtins__", "__class__"}
LIMIT = 400
IMPORT_ERRORS = {"ImportError", "ModuleNotFoundError", "Exception", "BaseException", "Warning"}


class S:
    """One abstract state."""

    __slots__ = ("a", "f")

    def __init__(self, a, f):
        self.a, self.f = a, f

    def bind(self, n, val=None):
        f = self.f
        if any(n in WORDS(k) for k in f):
            f = {k: v for k, v in f.items() if n not in WORDS(k)}
        if val is not None:
            f = dict(f)
            f[n] = val == "T"
            if val != "T":
                f[n + " is None"] = val == "N"
            else:
                f[n + " is None"] = False
        return S(self.a | {n}, f)

    def unbind(self, n):
        f = {k: v for k, v in self.f.items() if n not in WORDS(k)}
        return S(self.a - {n}, f)

    def fact(self, k, v):
        f = dict(self.f)
        f[k] = v
        return S(self.a, f)


_words = {}


def WORDS(k):
    r = _words.get(k)
    if r is None:
        r = _words[k] = frozenset(re.findall(r"[A-Za-z_]\w*", k))
    return r


def norm(t):
    """Condition as (key, polarity)."""
    if isinstance(t, ast.UnaryOp) and isinstance(t.op, ast.Not):
        k, p = norm(t.operand)
        return k, not p
    if isinstance(t, ast.Compare) and len(t.ops) == 1:
        l, r = ast.unparse(t.left), ast.unparse(t.comparators[0])
        op = t.ops[0]
        if isinstance(op, ast.IsNot):
            return "%s is %s" % (l, r), False
        if isinstance(op, ast.NotEq):
            return "%s == %s" % (l, r), False
        if isinstance(op, ast.NotIn):
            return "%s in %s" % (l, r), False
        if isinstance(op, ast.GtE):
            return "%s < %s" % (l, r), False
        if isinstance(op, ast.Gt):
            return "%s < %s" % (r, l), True
        if isinstance(op, ast.LtE):
            return "%s < %s" % (r, l), False
    return ast.unparse(t), True


def value(t, s):
    """Truth of a condition in a state, or None."""
    if isinstance(t, ast.Constant):
        return bool(t.value)
    if isinstance(t, ast.BoolOp):
        vs = [value(x, s) for x in t.values]
        if isinstance(t.op, ast.And):
            return False if False in vs else True if all(v is True for v in vs) else s.f.get(ast.unparse(t))
        return True if True in vs else False if all(v is False for v in vs) else s.f.get(ast.unparse(t))
    if isinstance(t, ast.UnaryOp) and isinstance(t.op, ast.Not):
        v = value(t.operand, s)
        return None if v is None else not v
    k, p = norm(t)
    v = s.f.get(k)
    if v is None and isinstance(t, ast.Name) and s.f.get(k + " is None"):
        v = False
    if v is None and isinstance(t, ast.Name) and s.f.get(k + " == 0") is False:
        v = True  # a counter
    if v is None and k.endswith(" is None") and s.f.get(k[:-8]):
        v = False
    return None if v is None else v == p


def assume(t, truth, s):
    v = value(t, s)
    if v is not None:
        return s if v == truth else None
    if isinstance(t, ast.UnaryOp) and isinstance(t.op, ast.Not):
        return assume(t.operand, not truth, s)
    if isinstance(t, ast.BoolOp):
        if isinstance(t.op, ast.And) == truth:
            for x in t.values:
                s = assume(x, truth, s)
                if s is None:
                    return None
            return s
        left = [x for x in t.values if value(x, s) is None]
        if len(left) == 1:
            return assume(left[0], truth, s)
        return s.fact(ast.unparse(t), truth)
    k, p = norm(t)
    return s.fact(k, truth == p)


class Scope:
    """Names bound in a function, class or module body."""

    def __init__(self, node, parent, kind):
        self.node, self.parent, self.kind = node, parent, kind
        self.bound, self.globals, self.nonlocals = set(), set(), set()
        if kind == "function":
            a = node.args
            for x in a.posonlyargs + a.args + a.kwonlyargs + [y for y in (a.vararg, a.kwarg) if y]:
                self.bound.add(x.arg)
        body = node.body if isinstance(node.body, list) else [node.body]
        for st in body:
            self.collect(st)
        self.bound -= self.globals | self.nonlocals

    def collect(self, n):
        if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef)):
            self.bound.add(n.name)
            for d in n.decorator_list:
                self.collect(d)
            return
        if isinstance(n, ast.Lambda):
            return
        if isinstance(n, (ast.ListComp, ast.SetComp, ast.DictComp, ast.GeneratorExp)):
            for x in ast.walk(n):
                if isinstance(x, ast.NamedExpr):
                    self.bound.add(x.target.id)
            return
        if isinstance(n, ast.Name) and isinstance(n.ctx, (ast.Store, ast.Del)):
            self.bound.add(n.id)
        elif isinstance(n, (ast.Import, ast.ImportFrom)):
            for a in n.names:
                self.bound.add(a.asname or a.name.split(".")[0])
        elif isinstance(n, ast.ExceptHandler) and n.name:
            self.bound.add(n.name)
        elif isinstance(n, ast.Global):
            self.globals |= set(n.names)
        elif isinstance(n, ast.Nonlocal):
            self.nonlocals |= set(n.names)
        for c in ast.iter_child_nodes(n):
            self.collect(c)


class Module:
    def __init__(self, name, path, tree):
        self.name, self.path, self.tree = name, path, tree
        self.scope = Scope(tree, None, "module")
        self.star = any(isinstance(n, ast.ImportFrom) and any(a.name == "*" for a in n.names) for n in ast.walk(tree))
        # names assigned by `global` in functions
        for n in ast.walk(tree):
            if isinstance(n, ast.Global):
                self.scope.bound |= set(n.names)


class Analysis:
    def __init__(self, mod, report):
        self.mod, self.report = mod, report
        self.optional = set()
        self.functions = 0
        self.reads = 0
        self.nodes = 0
        self.stack = []
        self.open = []  # reads under tests which are not understood
        self._tests, self._derived = {}, {}

    def tests(self, body):
        """Enclosing tests of every name in a body."""
        r = self._tests.get(id(body))
        if r is not None:
            return r
        r = self._tests[id(body)] = {}

        def go(n, ts):
            if isinstance(n, ast.Name):
                r[id(n)] = ts
            if isinstance(n, ast.If):
                go(n.test, ts)
                for x in n.body + n.orelse:
                    go(x, ts + (n.test,))
                return
            for c in ast.iter_child_nodes(n):
                go(c, ts)

        for st in body.body if isinstance(body.body, list) else [body.body]:
            go(st, ())
        return r

    def derived(self, body):
        r = self._derived.get(id(body))
        if r is None:
            r = self._derived[id(body)] = {}
            for x in ast.walk(body):
                if isinstance(x, ast.Assign):
                    for t in x.targets:
                        if isinstance(t, ast.Name):
                            r.setdefault(t.id, set()).update(y.id for y in ast.walk(x.value) if isinstance(y, ast.Name))
        return r

    # ---------------------------------------------------------------- driver
    def run(self):
        tree = self.mod.tree
        # modules which may be missing: imported in a try with a handler for that
        for n in ast.walk(tree):
            if isinstance(n, ast.Try) and any(self.catches_import(h) for h in n.handlers):
                for st in n.body:
                    if isinstance(st, (ast.Import, ast.ImportFrom)):
                        self.optional |= {a.asname or a.name.split(".")[0] for a in st.names}
        F = Frame(self, self.mod.scope, "<module>")
        end = F.block(tree.body, [S(frozenset(), {})])
        end = F.leave(end)
        flags = self.module_flags()
        # state in which functions are called: everything that is assigned on all paths, and what is known of the flags
        always = self.mod.scope.bound - self.optional
        start = []
        for s in end:
            f = {k: v for k, v in s.f.items() if WORDS(k) - {"is", "None", "not"} <= flags | self.optional}
            start.append(S(frozenset(s.a | always), f))
        start = self.join(start) or [S(frozenset(always), {})]
        self.start = start
        for node, scope, cls in F.defs:
            self.function(node, scope, start, node.name)
        for c in F.classes:
            self.klass(c, start)

    def module_flags(self):
        """Names assigned only at module level, and only constants."""
        bad = {x for n in ast.walk(self.mod.tree) if isinstance(n, ast.Global) for x in n.names}
        out = set()
        for n in self.mod.tree.body:
            for x in ast.walk(n) if isinstance(n, (ast.Try, ast.Assign, ast.If)) else ():
                if isinstance(x, ast.Assign) and isinstance(x.value, ast.Constant):
                    out |= {t.id for t in x.targets if isinstance(t, ast.Name)}
        return out - bad

    def catches_import(self, h):
        if h.type is None:
            return True
        return any(ast.unparse(t).split(".")[-1] in IMPORT_ERRORS for t in (h.type.elts if isinstance(h.type, ast.Tuple) else [h.type]))

    def klass(self, c, start):
        node, defs, sub = c
        ok = start
        init = [d for d in defs if d[0].name == "__init__"]
        for d in init:
            r = self.function(d[0], d[1], start, node.name + ".__init__", ret=True)
            # the other methods run on objects whose constructor did not fail
            alive = [s for s in start if any(self.covers(e, s) for e in r)]
            ok = alive or start
        for d in defs:
            if d not in init:
                deco = {ast.unparse(x) for x in d[0].decorator_list}
                self.function(d[0], d[1], start if deco & {"staticmethod", "classmethod"} else ok, node.name + "." + d[0].name)
        for x in sub:
            self.klass(x, start)

    def covers(self, end, st):
        g = self.mod.scope.bound
        return (end.a & g) >= (st.a & g) and all(v == end.f.get(k, v) for k, v in st.f.items()) and not ((end.a - st.a) & self.optional)

    def function(self, node, scope, start, name, ret=False, inherited=frozenset()):
        self.functions += 1
        F = Frame(self, scope, name)
        params = scope_params(node)
        first = [S((s.a - (scope.bound - params)) | params | inherited, {k: v for k, v in s.f.items() if not (WORDS(k) & scope.bound)}) for s in start]
        if isinstance(node, ast.Lambda):
            F.expr(node.body, first)
            return first
        end = F.leave(F.block(node.body, self.join(first)))
        for n, sc, states in F.inner:
            inh = frozenset(sc_chain(scope))
            self.function(n, sc, states, name + "." + getattr(n, "name", "<lambda>"), inherited=inh)
        for c in F.classes:
            self.klass(c, [S(s.a | frozenset(sc_chain(scope)), s.f) for s in start])
        return end

    def join(self, states):
        d = {}
        for s in states:
            k = (s.a, tuple(sorted((n, s.f.get(n), s.f.get(n + " is None")) for n in self.optional if n in s.a)))
            if k in d:
                f = d[k].f
                if f is not s.f:
                    d[k] = S(s.a, {x: v for x, v in f.items() if s.f.get(x) == v})
            else:
                d[k] = s
        return list(d.values())


def sc_chain(scope):
    out = set()
    while scope is not None and scope.kind == "function":
        out |= scope.bound
        scope = scope.parent
    return out


def scope_params(node):
    a = node.args
    return frozenset(x.arg for x in a.posonlyargs + a.args + a.kwonlyargs + [y for y in (a.vararg, a.kwarg) if y])


class Frame:
    """Analysis of one body."""

    def __init__(self, A, scope, name):
        self.A, self.scope, self.name = A, scope, name
        self.rets, self.brk, self.cont = [], [], []
        self.inner, self.defs, self.classes = [], [], []
        self.imprecise = False
        self.raising = []  # collectors of states at possible exceptions

    def leave(self, states):
        return self.A.join(list(states) + self.rets)

    # ----------------------------------------------------------- expressions
    def correlated(self, n, node):
        """The read and the assignments are under different tests of related values, which are not understood."""
        A = self.A
        body = self.scope.node if hasattr(self.scope, "node") else None
        if body is None or node is None:
            return False
        here = A.tests(body)
        mine = here.get(id(node), ())
        sets = [here.get(id(x), ()) for x in ast.walk(body) if isinstance(x, ast.Name) and x.id == n and isinstance(x.ctx, ast.Store)]
        keys = {norm(t)[0] for g in sets for t in g}
        other = [t for t in mine if norm(t)[0] not in keys]
        if not other:
            return False
        dep = A.derived(body)

        def names(ts):
            w = set()
            for t in ts:
                w |= {x.id for x in ast.walk(t) if isinstance(x, ast.Name)}
            for _ in range(4):
                for x in list(w):
                    w |= dep.get(x, set())
            return w - BUILTIN

        flags = {x.id for t in other for x in ast.walk(t) if isinstance(x, ast.Name)}
        return any(names(other) & names([t for t in g]) for g in sets)

    def read(self, n, states, line, node=None):
        A = self.A
        A.reads += 1
        sc = self.scope
        # where does the name live
        while sc is not None:
            if n in sc.bound and not (sc.kind == "class" and sc is not self.scope):
                break
            sc = sc.parent
        if sc is None:
            if n in BUILTIN or A.mod.star:
                return
            A.report(self.name, line, n, "is not defined anywhere")
            return
        if sc.kind == "module" and self.scope.kind != "module":
            if n not in A.optional:
                return
        elif sc is not self.scope and sc.kind == "function":
            return  # of an enclosing function, which has run
        elif sc.kind == "class" or sc.kind == "module":
            if n in BUILTIN:
                return
        miss = [s for s in states if n not in s.a]
        if miss and len(miss) < len(states) and self.correlated(n, node):
            A.open.append((self.name, line, n))
            return
        if miss and not (self.imprecise and len(miss) < len(states)):
            how = " and ".join("%s is %s" % (k, v) for k, v in sorted(miss[0].f.items())[:4])
            A.report(self.name, line, n, ("is not assigned on any path" if len(miss) == len(states) else "is not assigned on the path where " + (how or "a branch is not taken")))

    def absent(self, n, states, line, what):
        """Use of a module which is None here."""
        if n in self.A.optional:
            bad = [s for s in states if n in s.a and s.f.get(n + " is None")]
            if bad and not self.imprecise:
                self.A.report(self.name, line, n, "is None where it is %s (optional dependency)" % what)

    def expr(self, e, states):
        """Visit reads in evaluation order; returns states (walrus)."""
        if e is None or not states:
            return states
        A = self.A
        A.nodes += 1
        if isinstance(e, ast.Name):
            if isinstance(e.ctx, ast.Load):
                self.read(e.id, states, e.lineno, e)
            return states
        if isinstance(e, ast.Constant):
            return states
        if isinstance(e, ast.BoolOp):
            cur = states
            out = []
            for x in e.values:
                cur = self.expr(x, cur)
                t = isinstance(e.op, ast.And)
                out += [y for y in (assume(x, not t, s) for s in cur) if y is not None]
                cur = [y for y in (assume(x, t, s) for s in cur) if y is not None]
            return states if not has_walrus(e) else A.join(cur + out)
        if isinstance(e, ast.IfExp):
            st = self.expr(e.test, states)
            self.expr(e.body, [y for y in (assume(e.test, True, s) for s in st) if y is not None])
            self.expr(e.orelse, [y for y in (assume(e.test, False, s) for s in st) if y is not None])
            return st
        if isinstance(e, ast.Lambda):
            for d in e.args.defaults + [x for x in e.args.kw_defaults if x]:
                states = self.expr(d, states)
            self.closure(e, states)
            return states
        if isinstance(e, (ast.ListComp, ast.SetComp, ast.GeneratorExp, ast.DictComp)):
            states = self.expr(e.generators[0].iter, states)
            bound = {x.id for g in e.generators for x in ast.walk(g.target) if isinstance(x, ast.Name)}
            sub = Frame(A, CompScope(bound, self.scope), self.name)
            sub.imprecise = self.imprecise
            inner = [S(s.a | bound, {k: v for k, v in s.f.items() if not (WORDS(k) & bound)}) for s in states]
            # names of the enclosing body are read at once: check them here
            for k, g in enumerate(e.generators):
                if k:
                    self.comp(sub, g.iter, inner)
                for c in g.ifs:
                    self.comp(sub, c, inner)
                    inner = [y for y in (assume(c, True, s) for s in inner) if y is not None]
            for x in ([e.key, e.value] if isinstance(e, ast.DictComp) else [e.elt]):
                self.comp(sub, x, inner)
            return states
        if isinstance(e, ast.NamedExpr):
            states = self.expr(e.value, states)
            return [s.bind(e.target.id) for s in states]
        if isinstance(e, ast.Call):
            if isinstance(e.func, ast.Name):
                self.absent(e.func.id, states, e.lineno, "called")
            states = self.expr(e.func, states)
            for a in e.args:
                states = self.expr(a, states)
            for k in e.keywords:
                states = self.expr(k.value, states)
            return states
        if isinstance(e, ast.Attribute):
            if isinstance(e.value, ast.Name):
                self.absent(e.value.id, states, e.lineno, "used")
            return self.expr(e.value, states)
        for c in ast.iter_child_nodes(e):
            if isinstance(c, ast.expr):
                states = self.expr(c, states)
            elif isinstance(c, (ast.keyword, ast.FormattedValue)):
                states = self.expr(c.value, states)
        return states

    def comp(self, sub, x, states):
        """Expression in a comprehension, which runs now."""
        old, self.scope = self.scope, MergedScope(self.scope, sub.scope.bound)
        try:
            self.expr(x, states)
        finally:
            self.scope = old

    def closure(self, node, states):
        sc = Scope(node, self.scope, "function")
        self.inner.append((node, sc, states))

    # ------------------------------------------------------------ statements
    def store(self, t, states, val=None):
        if isinstance(t, ast.Name):
            if t.id in self.scope.globals:
                return states
            return [s.bind(t.id, val) for s in states]
        if isinstance(t, (ast.Tuple, ast.List)):
            for x in t.elts:
                states = self.store(x, states)
            return states
        if isinstance(t, ast.Starred):
            return self.store(t.value, states)
        if isinstance(t, ast.Attribute):
            states = self.expr(t.value, states)
            return [S(s.a, {k: v for k, v in s.f.items() if "." not in k or t.attr not in WORDS(k)}) for s in states]
        if isinstance(t, ast.Subscript):
            states = self.expr(t.value, states)
            states = self.expr(t.slice, states)
            w = ast.unparse(t.value)
            return [S(s.a, {k: v for k, v in s.f.items() if w not in k or "[" not in k and " in " not in k}) for s in states]
        return self.expr(t, states)

    def block(self, body, states):
        for st in body:
            if not states:
                break
            states = self.A.join(states)
            if len(states) > LIMIT:
                self.imprecise = True
                a = frozenset.intersection(*[s.a for s in states])
                states = [S(a, {})]
            if self.raising and may_raise(st):
                self.raising[-1].extend((s, st) for s in states)
            states = self.stmt(st, states)
        return states

    def stmt(self, st, states):
        m = getattr(self, "s_" + type(st).__name__, None)
        if m is not None:
            return m(st, states)
        for c in ast.iter_child_nodes(st):
            if isinstance(c, ast.expr):
                states = self.expr(c, states)
        return states

    def s_Expr(self, st, states):
        states = self.expr(st.value, states)
        if isinstance(st.value, ast.Call) and ast.unparse(st.value.func) in ("sys.exit", "exit", "quit", "os._exit"):
            return []
        return states

    def s_Assign(self, st, states):
        states = self.expr(st.value, states)
        val = None
        if isinstance(st.value, ast.Constant):
            val = "N" if st.value.value is None else "T" if st.value.value else "F"
        for t in st.targets:
            states = self.store(t, states, val)
        return states

    def s_AnnAssign(self, st, states):
        if st.value is None:
            return states
        return self.store(st.target, self.expr(st.value, states))

    def s_AugAssign(self, st, states):
        if isinstance(st.target, ast.Name):
            if st.target.id not in self.scope.globals:
                self.read(st.target.id, states, st.lineno)
        states = self.expr(st.value, states)
        return self.store(st.target, states)

    def s_Import(self, st, states):
        for a in st.names:
            n = a.asname or a.name.split(".")[0]
            states = [s.bind(n, "T") for s in states]
        return states

    s_ImportFrom = s_Import

    def s_Global(self, st, states):
        return states

    s_Nonlocal = s_Global

    def s_Pass(self, st, states):
        return states

    def s_Delete(self, st, states):
        for t in st.targets:
            if isinstance(t, ast.Name):
                self.read(t.id, states, st.lineno)
                states = [s.unbind(t.id) for s in states]
            else:
                states = self.expr(t, states)
        return states

    def s_Return(self, st, states):
        self.rets += self.expr(st.value, states)
        return []

    def s_Raise(self, st, states):
        states = self.expr(st.exc, states)
        self.expr(st.cause, states)
        return []

    def s_Assert(self, st, states):
        states = self.expr(st.test, states)
        bad = [y for y in (assume(st.test, False, s) for s in states) if y is not None]
        self.expr(st.msg, bad)
        return [y for y in (assume(st.test, True, s) for s in states) if y is not None]

    def s_If(self, st, states):
        states = self.expr(st.test, states)
        a = [y for y in (assume(st.test, True, s) for s in states) if y is not None]
        b = [y for y in (assume(st.test, False, s) for s in states) if y is not None]
        return self.A.join(self.block(st.body, a) + self.block(st.orelse, b))

    def s_For(self, st, states):
        states = self.expr(st.iter, states)
        ob, oc = self.brk, self.cont
        self.brk, self.cont = [], []
        cur = self.store(st.target, states)
        end = self.block(st.body, cur)
        cur = self.A.join(end + self.cont)
        for _ in range(2):  # further turns: what the first one assigned
            self.cont = []
            nxt = self.block(st.body, self.store(st.target, cur))
            cur = self.A.join(cur + nxt + self.cont)
        out = self.A.join(self.block(st.orelse, cur) + self.brk)
        self.brk, self.cont = ob, oc
        return out

    s_AsyncFor = s_For

    def s_While(self, st, states):
        ob, oc = self.brk, self.cont
        self.brk, self.cont = [], []
        states = self.expr(st.test, states)
        const = isinstance(st.test, ast.Constant) and st.test.value
        cur = [y for y in (assume(st.test, True, s) for s in states) if y is not None]
        skip = [y for y in (assume(st.test, False, s) for s in states) if y is not None]
        out = list(skip)
        for _ in range(3):
            self.cont = []
            end = self.block(st.body, cur)
            end = self.A.join(end + self.cont)
            end = self.expr(st.test, end)
            out += [y for y in (assume(st.test, False, s) for s in end) if y is not None]
            cur = self.A.join(cur + [y for y in (assume(st.test, True, s) for s in end) if y is not None])
        if const:
            out = []
        out = self.A.join(self.block(st.orelse, self.A.join(out)) + self.brk)
        self.brk, self.cont = ob, oc
        return out

    def s_Break(self, st, states):
        self.brk += states
        return []

    def s_Continue(self, st, states):
        self.cont += states
        return []

    def s_With(self, st, states):
        for i in st.items:
            states = self.expr(i.context_expr, states)
            if i.optional_vars is not None:
                states = self.store(i.optional_vars, states)
        return self.block(st.body, states)

    s_AsyncWith = s_With

    def s_Try(self, st, states):
        entry = states
        self.raising.append([])
        nr, nb, nc = len(self.rets), len(self.brk), len(self.cont)
        end = self.block(st.body, states)
        raised = self.raising.pop()
        outs = self.block(st.orelse, end)
        for h in st.handlers:
            only = h.type is not None and all(ast.unparse(t).split(".")[-1] in ("ImportError", "ModuleNotFoundError") for t in (h.type.elts if isinstance(h.type, ast.Tuple) else [h.type]))
            src = [s for s, x in raised if not only or isinstance(x, (ast.Import, ast.ImportFrom)) or contains_import(x)]
            if not src:
                src = [s for s, x in raised] if not only else []
            if only and not src:
                src = [s for s, x in raised]
            hs = self.A.join(src)
            hs = self.expr(h.type, hs)
            if h.name:
                hs = [s.bind(h.name) for s in hs]
            hs = self.block(h.body, hs)
            if h.name:
                hs = [s.unbind(h.name) for s in hs]
            outs = outs + hs
        if self.raising and not any(h.type is None for h in st.handlers):
            self.raising[-1].extend(raised)
        outs = self.A.join(outs)
        if st.finalbody:
            # also entered by errors and jumps
            saved = self.imprecise
            errs = self.A.join([s for s, x in raised] + self.rets[nr:] + self.brk[nb:] + self.cont[nc:])
            if errs:
                k = (len(self.rets), len(self.brk), len(self.cont))
                self.block(st.finalbody, errs)
                del self.rets[k[0]:], self.brk[k[1]:], self.cont[k[2]:]
            outs = self.block(st.finalbody, outs)
            self.imprecise = saved
        return outs

    s_TryStar = s_Try

    def s_FunctionDef(self, st, states):
        for d in st.decorator_list:
            states = self.expr(d, states)
        for d in st.args.defaults + [x for x in st.args.kw_defaults if x]:
            states = self.expr(d, states)
        states = [s.bind(st.name) for s in states]
        sc = Scope(st, self.scope, "function")
        if self.scope.kind == "function":
            self.inner.append((st, sc, states))
        else:
            self.defs.append((st, sc, None))
        return states

    s_AsyncFunctionDef = s_FunctionDef

    def s_ClassDef(self, st, states):
        for d in st.decorator_list + st.bases:
            states = self.expr(d, states)
        for k in st.keywords:
            states = self.expr(k.value, states)
        sc = Scope(st, self.scope, "class")
        F = Frame(self.A, sc, st.name)
        F.block(st.body, states)
        for n, s2, ss in F.inner:
            self.inner.append((n, s2, ss))
        self.classes.append((st, F.defs, F.classes))
        return [s.bind(st.name) for s in states]


class CompScope:
    def __init__(self, bound, parent):
        self.bound, self.parent, self.kind = bound, parent, "function"
        self.globals = self.nonlocals = set()


class MergedScope:
    """Scope of a body together with the targets of a comprehension."""

    def __init__(self, scope, extra):
        self.bound = scope.bound | extra
        self.parent, self.kind = scope.parent, scope.kind
        self.node = getattr(scope, "node", None)
        self.globals, self.nonlocals = scope.globals - extra, scope.nonlocals - extra


def has_walrus(e):
    return any(isinstance(x, ast.NamedExpr) for x in ast.walk(e))


def contains_import(st):
    return any(isinstance(x, (ast.Import, ast.ImportFrom, ast.Call)) for x in ast.walk(st))


def may_raise(st):
    if isinstance(st, (ast.Pass, ast.Break, ast.Continue, ast.Global, ast.Nonlocal, ast.FunctionDef)):
        return False
    return any(isinstance(x, (ast.Call, ast.Subscript, ast.Attribute, ast.BinOp, ast.Compare, ast.Import, ast.ImportFrom, ast.Raise, ast.Assert, ast.For, ast.While, ast.With)) for x in ast.walk(st))
