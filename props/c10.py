"""C10: queries leave the caller's data and cached state alone."""
import ast

from zsa import effects
from props.effects_common import *

EXPLANATION = (
    "Alias and effect analysis of the queries and builders of the package: every parameter, and every object reachable from it by "
    "attributes and elements, is a node; assignments, views, slices and containers propagate the nodes through the function and "
    "the package functions it calls, and each store (item, slice, in-place operator, mutating method, out argument, attribute) to a "
    "node which existed before the call is an effect. Arrays, lists, dictionaries and objects passed in must have none; the "
    "object a query is made of may only fill caches, that is attributes which its constructor leaves empty, with values which do "
    "not depend on the arguments of the query unless these are compared or used as key."
)


def run(ck):
    pkg = package(ck)
    arrays = array_attrs(pkg)
    A = effects.Analysis(pkg)
    for f in roots(pkg):
        ck.group(f.qual, lambda: one(ck, A, pkg, f, arrays))
    ck.stmts, ck.sites = A.stmts, A.calls


def one(ck, A, pkg, f, arrays):
    es = A.root(f)
    ck.funcs |= A.visited
    found = {}
    me = [p.arg for p in f.node.args.args][:1]
    for e in es:
        why = bad(A, pkg, f, e, arrays)
        if why:
            found.setdefault((e.atom[1], e.atom[2][:1], why), e)
    for (root, path, why), e in found.items():
        obj = root[2:] if root.startswith("P:") else "self"
        ck.violated("%s leaves %s%s unchanged" % (f.qual, obj, "".join(path)), "%s:%d %s" % (e.path, e.line, e.fn),
                    "%s (%s); called from %s" % (why, e.text, f.qual))
    if not found:
        ck.passed("%s changes nothing that was there before (%d functions)" % (f.qual, len(A.visited)))
    ck.count("stores_examined", len(es))


def private_owner(pkg, e, attr):
    """Is the store made by a method of a class which has this attribute?"""
    for m in pkg.mods.values():
        for c in m.classes.values():
            if e.fn.startswith(c.qual + ".") and (attr in initial(c)):
                return True
    return False


def attr_inits(pkg, f, e, attr):
    """What constructors assign to the attribute a store changes."""
    out = []
    if e.atom[1] == "self" and len(e.atom[2]) == 1 and f.cls is not None:
        return initial(f.cls).get(attr, [])
    for m in pkg.mods.values():
        for c in m.classes.values():
            if e.fn.startswith(c.qual + "."):
                return initial(c).get(attr, [])
    for m in pkg.mods.values():
        for c in m.classes.values():
            out += initial(c).get(attr, [])
    return out


def bad(A, pkg, f, e, arrays):
    root, path = e.atom[1], e.atom[2]
    own = root == "self"
    if not own and not root.startswith("P:"):
        return None
    if any(s in SERVICE for s in path):
        return None
    if root == "P:config":
        return None
    attrs = [s[1:] for s in path if s.startswith(".")]
    if own and f.name in SETUP:
        return None
    if e.kind == "rebind":
        if own and len(path) == 1 and f.name in SETUP:
            return None
        attr = path[-1][1:]
        inits = attr_inits(pkg, f, e, attr)
        if is_cache(inits):
            if not own and not private_owner(pkg, e, attr):
                if any(e.fn.startswith(c.qual + ".") for m in pkg.mods.values() for c in m.classes.values()):
                    return None
                return "sets %s of an object which was passed in" % attr
            return stale(pkg, e, attr)
        if e.rhs is not None and keeps(e.rhs, attr):
            return None
        return "sets %s, which is not a cache" % attr
    if e.aug:
        if not path:
            if not own and is_array_param(f, root[2:].lstrip("*")):
                return "updates the argument in place"
            return None
        last = path[-1]
        if last.startswith("["):
            if last[1:2] in ("'", '"'):
                return "updates an element of the argument in place" if not own else "updates stored values in place"
            return None
        if attrs and attrs[-1] in arrays:
            return "updates %s in place" % attrs[-1]
        return None
    if e.kind in ("store", "shape"):
        if own and not path:
            return None
        if path and path[0].startswith(".") and own:
            inits = attr_inits(pkg, f, e, attrs[0])
            if inits and is_cache(inits):
                return None
            if not inits and attrs[0] not in arrays:
                return None
        if not own and any(s.startswith("._") for s in path):
            a = [s for s in path if s.startswith("._")][0][1:]
            if private_owner(pkg, e, a):
                return None
        return "stores into it"
    return None


def keeps(rhs, attr):
    """self.a = asarray(self.a) and the like leave the values."""
    s = ast.unparse(rhs)
    return bool(re.fullmatch(r"(np\.|numpy\.)?(asarray|array|list|tuple|float|int)?\(?self\.%s\)?" % re.escape(attr), s))


def stale(pkg, e, attr):
    """A cached value which depends on arguments that are not part of what is looked up."""
    for m in pkg.mods.values():
        for c in m.classes.values():
            for g in c.methods.values():
                if g.qual != e.fn:
                    continue
                params = {p.arg for p in (g.node.args.posonlyargs + g.node.args.args)[1:] + g.node.args.kwonlyargs}
                dep = set(params)
                for _ in range(4):
                    for x in ast.walk(g.node):
                        if isinstance(x, ast.Assign) and effects.names_of(x.value) & dep:
                            for t in x.targets:
                                dep |= {q.id for q in ast.walk(t) if isinstance(q, ast.Name) and isinstance(q.ctx, ast.Store)}
                if e.rhs is None or not effects.names_of(e.rhs) & dep:
                    return None
                for x in ast.walk(g.node):
                    # compared with, or indexed by, what the value depends on
                    if isinstance(x, (ast.Compare, ast.Call)) and any(isinstance(q, ast.Attribute) and isinstance(q.value, ast.Name) and q.value.id == "self" for q in ast.walk(x)):
                        if isinstance(x, ast.Compare) and effects.names_of(x) & dep:
                            return None
                        if isinstance(x, ast.Call) and re.search(r"array_equal|allclose", ast.unparse(x.func)):
                            return None
                read = any(
                    isinstance(q, ast.Attribute) and isinstance(q.ctx, ast.Load) and q.attr == attr
                    for k in c.mro()
                    for h in k.methods.values()
                    for q in ast.walk(h.node)
                )
                if read:
                    return "keeps a value which depends on this call's arguments in %s" % attr
    return None
