"""Abstract values and heap contents of the value-flow analysis."""
from . import terms as tm
from .terms import T, num, ite, ZERO, ONE


class Unsupported(Exception):
    """Construct outside what the analysis models; the obligation is undecided."""


class NoneV:
    def __repr__(self):
        return "None"


NONE = NoneV()


class MissingV:
    def __repr__(self):
        return "<unbound>"


MISSING = MissingV()
ELLIPSIS = object()
NEWAXIS = NONE


class Ref:
    __slots__ = ("loc",)

    def __init__(self, loc):
        self.loc = loc

    def __repr__(self):
        return "@%d" % self.loc


class Tup:
    __slots__ = ("items", "names", "tname")

    def __init__(self, items, names=None, tname=None):
        self.items = tuple(items)
        self.names = names
        self.tname = tname

    def __repr__(self):
        return "(%s)" % ", ".join(map(repr, self.items))


class SliceV:
    def __init__(self, start, stop, step):
        self.start, self.stop, self.step = start, stop, step


class Fn:
    def __init__(self, node, mod, fid, defaults, kwdefaults, name, cls=None, kind=None):
        self.node, self.mod, self.fid = node, mod, fid
        self.defaults, self.kwdefaults = defaults, kwdefaults
        self.name, self.cls, self.kind = name, cls, kind

    def __repr__(self):
        return "<fn %s>" % self.name


class Bound:
    def __init__(self, fn, selfv):
        self.fn, self.selfv = fn, selfv

    def __repr__(self):
        return "<bound %r>" % self.fn


class ClassV:
    def __init__(self, name, node, mod, bases, fid):
        self.name, self.node, self.mod, self.bases, self.fid = name, node, mod, bases, fid

    def mro(self):
        out = [self]
        for b in self.bases:
            if isinstance(b, ClassV):
                for c in b.mro():
                    if c not in out:
                        out.append(c)
        return out

    def ext_bases(self):
        return [b for c in self.mro() for b in c.bases if not isinstance(b, ClassV)]

    def __repr__(self):
        return "<class %s>" % self.name


class ModV:
    def __init__(self, name):
        self.name = name

    def __repr__(self):
        return "<module %s>" % self.name


class Ext:
    """Something imported from outside the package, named by its path."""

    def __init__(self, path):
        self.path = path

    def __repr__(self):
        return "<ext %s>" % self.path


class Prim:
    """A modelled function: f(interp, args, kwargs) -> value."""

    def __init__(self, name, f):
        self.name, self.f = name, f

    def __repr__(self):
        return "<prim %s>" % self.name


class IteV:
    """A gated join of values that have no common term form."""

    def __init__(self, c, a, b):
        self.c, self.a, self.b = c, a, b

    def __repr__(self):
        return "IteV(%r, %r, %r)" % (self.c, self.a, self.b)


class Unk:
    """A value the analysis does not understand."""

    def __init__(self, why):
        self.why = why

    def __repr__(self):
        return "<? %s>" % self.why


class Abs:
    """Abstract object supplied by a specification: attribute name -> value or
    (interp, obj) -> value."""

    def __init__(self, name, attrs, cls=None, key=()):
        self.name, self.attrs, self.cls, self.key = name, attrs, cls, key

    def __repr__(self):
        return "<abs %s>" % self.name


# ------------------------------------------------------------ heap contents
class Arr:
    """Array of known rank: shape of terms and index function."""

    __slots__ = ("shape", "f", "dt", "memo", "mask")

    def __init__(self, shape, f, dt=None, mask=None):
        self.shape = tuple(shape)
        self.f = f
        self.dt = dt
        self.memo = {}
        self.mask = mask  # compressed by a mask (value of a[mask])

    def __call__(self, *idx):
        r = self.memo.get(idx)
        if r is None:
            r = self.memo[idx] = self.f(*idx)
        return r

    @property
    def rank(self):
        return len(self.shape)


class PW:
    """Array of unknown shape, represented by its value at a generic point."""

    __slots__ = ("t", "dt", "mask", "tag")

    def __init__(self, t, dt=None, mask=None, tag="pt"):
        self.t, self.dt, self.mask, self.tag = t, dt, mask, tag


class ViewC:
    """Basic-indexing view of another location."""

    __slots__ = ("base", "axes", "shape")

    def __init__(self, base, axes, shape):
        self.base = base  # loc
        self.axes = axes  # per base axis ("i", idx) or ("s", start, step, n, viewaxis)
        self.shape = tuple(shape)


class Lst:
    __slots__ = ("items",)

    def __init__(self, items):
        self.items = list(items)


class Seq:
    """List of symbolic length."""

    __slots__ = ("n", "f", "memo", "split")

    def __init__(self, n, f, split=None):
        self.n, self.f = n, f
        self.memo = {}
        self.split = split

    def __call__(self, i):
        r = self.memo.get(i)
        if r is None:
            r = self.memo[i] = self.f(i)
        return r


class Dct:
    __slots__ = ("d",)

    def __init__(self, d):
        self.d = dict(d)


class ObjC:
    __slots__ = ("cls", "attrs")

    def __init__(self, cls, attrs):
        self.cls, self.attrs = cls, dict(attrs)


class UnkC:
    __slots__ = ("why",)

    def __init__(self, why):
        self.why = why


class ShapeV:
    """Shape of an array of unknown rank."""

    def __init__(self, tag="pt"):
        self.tag = tag

    def __repr__(self):
        return "<shape %s>" % self.tag


def is_array(c):
    return isinstance(c, (Arr, PW, ViewC))


_opq = [0]


def opaque(why="", isb=False):
    _opq[0] += 1
    n = "?%d:%s" % (_opq[0], why)
    if isb:
        return tm.mk("bfn", n, isb=True)
    return tm.sym(n)


def is_opaque(t):
    for x in tm.subterms(t):
        if x.op == "sym" and x.args[0].startswith("?"):
            return True
        if x.op in ("fn", "bfn") and x.args[0].startswith("?"):
            return True
    return False
