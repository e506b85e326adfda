"""C11: instances do not share mutable state."""
import ast

from zsa import effects
from props.effects_common import *

EXPLANATION = (
    "Alias and effect analysis of every function and method: containers and objects stored on classes, in default arguments and in "
    "module variables are nodes, as are the containers a constructor takes as arguments; what constructors store in an instance "
    "is followed into the methods. No store may reach a node of a class, a default argument or a module variable which is "
    "read elsewhere, and no method may change a container which its constructor took over without copying. Module variables "
    "which start as None may be set once (handles)."
)


def read_elsewhere(pkg, name, node_fn):
    """Is a module variable read by a function other than as the receiver of append and the like?"""
    m, v = name.rsplit(".", 1)
    if m not in pkg.mods:
        return True
    for mod in pkg.mods.values():
        if mod is not pkg.mods[m] and not any(p in (m, name) for p in mod.imports.values()):
            continue
        for f in list(mod.funs.values()) + [g for c in mod.classes.values() for g in c.methods.values()]:
            skip = set()
            for x in ast.walk(f.node):
                if isinstance(x, ast.Call) and isinstance(x.func, ast.Attribute) and x.func.attr in ("append", "extend", "add") and isinstance(x.func.value, ast.Name):
                    skip.add(id(x.func.value))
            for x in ast.walk(f.node):
                if isinstance(x, ast.Name) and x.id == v and isinstance(x.ctx, ast.Load) and id(x) not in skip:
                    return True
                if isinstance(x, ast.Attribute) and x.attr == v and isinstance(x.value, ast.Name) and mod is not pkg.mods[m]:
                    return True
    return False


def run(ck):
    pkg = package(ck)
    A = effects.Analysis(pkg)
    taken = {}  # class -> attribute -> shared nodes its constructor stores
    for m in pkg.mods.values():
        for c in m.classes.values():
            f = c.find("__init__")
            if f is None:
                continue
            g = effects.Fun(f.node, f.mod, f.cls, None, f.kind)
            ck.group(c.qual, lambda: taken.__setitem__(c, constructor(A, c, g)))
    for f in all_functions(pkg):
        ck.group(f.qual, lambda: one(ck, A, pkg, f, taken))
    ck.stmts, ck.sites = A.stmts, A.calls


def constructor(A, c, f):
    A.root(f)
    out = {}
    for (a, h) in A.S.heap.items():
        if a == effects.X("self"):
            for k, v in h.items():
                for x in v:
                    if x[0] == "x" and x[1][:2] in ("D:", "C:", "G:", "P:"):
                        out.setdefault(k, set()).add(x)
    return out


def one(ck, A, pkg, f, taken):
    es = A.root(f)
    ck.funcs |= A.visited
    found = {}
    for e in es:
        root, path = e.atom[1], e.atom[2]
        where = None
        if root.startswith("C:"):
            if e.aug and not path and e.kind == "store" and not container_attr(pkg, root[2:]):
                continue
            where = "class attribute " + root[2:]
        elif root.startswith("D:"):
            where = "default argument " + root[2:]
        elif root.startswith("G:"):
            if e.kind == "global" and handle(pkg, root[2:], e):
                continue
            if not read_elsewhere(pkg, root[2:], f):
                continue
            where = "module variable " + root[2:]
        elif root == "self" and path and f.cls is not None and e.kind == "store" and f.name != "__init__":
            if e.aug and len(path) == 1 and not container_self(pkg, f.cls, path[0][1:]):
                continue
            for x in taken.get(f.cls, {}).get(path[0], ()):
                if x[1].startswith("P:"):
                    if path[0] in SERVICE or len(path) > 1:
                        continue
                    where = "%s, which the constructor took from its argument %s without copying" % (path[0][1:], x[1][2:])
                else:
                    where = {"D": "default argument ", "C": "class attribute ", "G": "module variable "}[x[1][0]] + x[1][2:]
        if where:
            found.setdefault(where, e)
    for where, e in found.items():
        ck.violated("%s does not change %s" % (f.qual, where), "%s:%d %s" % (e.path, e.line, e.fn), "%s is changed by %s" % (where, e.text))
    if not found:
        ck.passed("%s changes no shared state" % f.qual)
    ck.count("stores_examined", len(es))


def container_attr(pkg, qual):
    cl, a = qual.rsplit(".", 1)
    for m in pkg.mods.values():
        for c in m.classes.values():
            if c.qual == cl and a in c.attrs:
                return effects.is_container_expr(c.attrs[a]) or isinstance(c.attrs[a], ast.Call)
    return False


def container_self(pkg, cls, a):
    return any(effects.is_container_expr(v) for v in initial(cls).get(a, []))


def handle(pkg, name, e):
    """A module variable which starts as None and is set when first needed."""
    m, v = name.rsplit(".", 1)
    mod = pkg.mods.get(m)
    i = mod.vars.get(v) if mod else None
    return i is None or isinstance(i, ast.Constant) and (i.value is None or isinstance(i.value, bool))
