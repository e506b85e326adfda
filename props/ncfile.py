"""Model of a grid file opened through boutdata/netCDF4 (C16, C17): variables are
arrays of the analysis, every change is an event."""
from zsa.terms import *
from zsa import terms as tm
from zsa.values import *
from zsa.std import *
from zsa.interp import PyRaise


class File:
    """Contents by variable name, and the events in order."""

    def __init__(self, sizes, contents=None, fail=None, base=()):
        self.sizes = dict(sizes)  # dimension name -> size
        self.vars = dict(contents or {})
        self.attrs = {}
        self.events = []
        self.fail = fail  # number of the event which does not happen
        self.base = base
        self.open = False
        self.held = {}

    def snapshot(self):
        return dict(self.vars)

    def event(self, I, what):
        if any(c is not TRUE and c not in self.base for c in I.S.pc):
            raise Unsupported("file operation under a condition %s" % [tm.show(c) for c in I.S.pc])
        if self.fail is not None and len(self.events) == self.fail:
            self.events.append(("failed", self.snapshot()))
            raise PyRaise("OSError: injected")
        self.events.append((what, None))

    def done(self):
        self.events[-1] = (self.events[-1][0], self.snapshot())

    # -------------------------------------------------------- netCDF variables
    def var(self, name):
        def ref(I):
            a = self.vars[name]
            return I.new(a)

        def get(I, v, ix):
            return I.getitem(ref(I), self.fit(I, v, ix))

        def put(I, v, ix, val):
            ix = self.fit(I, v, ix)
            self.event(I, "store " + name)
            r = ref(I)
            tgt = I.getitem(r, ix)
            n = self.rank(I, tgt)
            w = I.res(val)
            if isinstance(w, Ref) and isinstance(I.content(w), (Arr, Lst)):
                a = I.arr(w)
                if a.rank > n:
                    keep = [k for k in range(a.rank) if a.shape[k] is not ONE]
                    if len(keep) != n:
                        raise Unsupported("value of rank %d stored in %d dimensions" % (a.rank, n))
                    val = I.new(Arr([a.shape[k] for k in keep], lambda *x, a=a, keep=keep: a(*[x[keep.index(k)] if k in keep else ZERO for k in range(a.rank)])))
            I.setitem(r, ix, val)
            self.vars[name] = I.arr(r)
            self.done()

        def assign(I, args, kw):
            put(I, None, num(0), args[0])
            return NONE

        a = self.vars[name]
        return Abs("variable " + name, {
            "__getitem__": get, "__setitem__": put, "shape": Tup(list(a.shape)), "name": name, "ndim": num(a.rank),
            "assignValue": Prim("assignValue", assign), "getValue": Prim("getValue", lambda I, x, k: I.getitem(ref(I), ZERO)),
            "__bool__": Prim("bool", lambda I, x, k: TRUE), "$isnone": FALSE}, key=(name,))

    def fit(self, I, v, ix):
        """Scalars are variables with one element here."""
        i = I.res(ix)
        if isinstance(i, Tup) and not i.items:
            return ZERO
        return ix

    def rank(self, I, v):
        w = I.res(v)
        if isinstance(w, Ref) and isinstance(I.content(w), Arr):
            return I.arr(w).rank
        return 0

    def get(self, I, k):
        k = I.res(k)
        if not isinstance(k, str):
            raise Unsupported("name of a variable")
        if k not in self.vars:
            raise PyRaise("KeyError: " + k)
        return self.var(k)

    def create(self, I, args, kw):
        a = dict(zip(("varname", "datatype", "dimensions"), args), **kw)
        name = I.res(a["varname"])
        if name in self.vars:
            raise PyRaise("RuntimeError: NetCDF: String match to name in use")
        dims = I.const_items(a["dimensions"]) if "dimensions" in a else []
        sh = [self.sizes[d] for d in dims] or [ONE]
        self.event(I, "create " + name)
        self.vars[name] = Arr(sh, lambda *ix, name=name: fn("fill_" + name, *ix))
        self.done()
        return self.var(name)

    def handle(self):
        get = lambda I, v, ix: self.get(I, ix)
        has = lambda I, x: TRUE if I.res(x) in self.vars else FALSE
        names = lambda I, a, k: I.new(Lst(list(self.vars)))

        def default(I, a, k):
            return self.var(I.res(a[0])) if I.res(a[0]) in self.vars else (a[1] if len(a) > 1 else NONE)

        variables = Abs("variables", {"__getitem__": get, "__contains__": has, "keys": Prim("keys", names), "get": Prim("get", default)})
        nothing = Prim("sync", lambda I, a, k: NONE)
        return Abs("dataset", {"variables": variables, "createVariable": Prim("createVariable", self.create), "sync": nothing, "__getitem__": get,
                               "set_auto_mask": nothing, "set_auto_maskandscale": nothing})

    # ---------------------------------------------------------------- DataFile
    def datafile(self):
        def write(I, args, kw):
            a = dict(zip(("name", "data", "info"), args), **kw)
            name = I.res(a["name"])
            if not isinstance(name, str):
                raise Unsupported("name of a variable")
            self.event(I, "write " + name)
            v = I.res(a["data"])
            self.vars[name] = I.arr(v) if isinstance(v, Ref) and isinstance(I.content(v), Arr) else v
            self.done()
            return NONE

        def attr(I, args, kw):
            a = dict(zip(("attr", "value"), args), **kw)
            name = I.res(a.get("attr", a.get("attribute")))
            self.event(I, "attribute " + str(name))
            self.attrs[name] = I.res(a["value"])
            self.done()
            return NONE

        def enter(I, a, k):
            self.open = True
            return self.df

        def leave(I, a, k):
            self.event(I, "close")
            self.open = False
            self.done()
            return NONE

        names = Prim("list", lambda I, a, k: I.new(Lst(list(self.vars))))
        read = lambda I, a, k: self.vars[I.res(a[0])] if not isinstance(self.vars[I.res(a[0])], Arr) else I.new(self.vars[I.res(a[0])])
        self.df = Abs("datafile", {
            "impl": Abs("impl", {"handle": self.handle()}), "write": Prim("write", write), "write_file_attribute": Prim("attribute", attr),
            "list": names, "keys": names, "read": Prim("read", read), "__getitem__": lambda I, v, ix: read(I, [ix], {}),
            "__setitem__": lambda I, v, ix, val: write(I, [ix, val], {}), "close": Prim("close", leave),
            "list_file_attributes": Prim("attrs", lambda I, a, k: I.new(Lst(list(self.attrs)))),
            "read_file_attribute": Prim("attr", lambda I, a, k: self.attrs[I.res(a[0])]),
            "__enter__": Prim("enter", enter), "__exit__": Prim("exit", leave), "__bool__": Prim("bool", lambda I, a, k: TRUE), "$isnone": FALSE})
        return self.df
