"""Abstract magnetic fields for the specifications."""
import ast
from zsa.terms import *
from zsa.values import *
from zsa.std import *


def component(name):
    def f(I, args, kw):
        x, z, phi = [args[k] if k < len(args) else kw[n] for k, n in enumerate(("x", "z", "phi"))]
        return I.elementwise(lambda a, b, c: fn(name, a, b, c), [x, z, phi])

    return Prim(name, f)


def none(I, args, kw):
    return NONE


def bare(I, cls, R="R", **extra):
    """Instance of a field class whose components are uninterpreted functions."""
    attrs = dict(Bxfunc=component("Bx"), Byfunc=component("By"), Bzfunc=component("Bz"))
    attrs["Rfunc"] = component(R) if R else Prim("Rfunc", none)
    if I.class_member(cls, "Bxyzfunc") is not None:
        attrs["Bxyzfunc"] = Prim("Bxyz", lambda I, a, k: Tup([component(n).f(I, a, k) for n in ("Bx", "By", "Bz")]))
    attrs.update(extra)
    return I.new(ObjC(cls, attrs))


def field_classes(ck, I):
    """All classes of zoidberg.field that derive from MagneticField."""
    m = ck.module("zoidberg.field")
    base = ck.anchor(I, "zoidberg.field", "MagneticField")
    out = []
    for st in m.tree.body:
        if isinstance(st, ast.ClassDef):
            c = I.get_global(m, st.name)
            if isinstance(c, ClassV) and base in c.mro():
                out.append(c)
    return out
