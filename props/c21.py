"""C21: names and attributes are bound where they are read."""
import ast
import builtins
import glob
import importlib
import os
import re

from zsa import names

EXPLANATION = (
    "Every function, method, lambda, comprehension, class and module body of the package (tests and example scripts excluded) is "
    "analysed for definite assignment: states are sets of assigned names with the values of the conditions tested so far, "
    "exceptions may leave a try at every statement which can raise, and imports inside a try with a handler for a missing "
    "module may fail; functions start in every state in which their module can end (with or without each optional "
    "dependency), methods in those in which the constructor succeeds. Each read of a name must be assigned in every "
    "state, resolve to an enclosing scope, the module or a builtin; a name which is None because its module is missing must not "
    "be called or have attributes read. Names imported from the package, attributes of its modules and of imported "
    "standard modules and numpy must exist; attributes read from self must be set somewhere in the class hierarchy. For loops are "
    "taken to run at least once; reads under tests that are related to, but different from, those of the assignment "
    "are left undecided."
)
STDLIB = {"warnings", "os", "sys", "time", "math", "itertools", "functools", "pickle", "json", "copy", "string", "random", "re", "pathlib", "uuid", "collections", "hashlib", "tempfile", "datetime", "operator", "types", "typing", "shutil", "subprocess", "threading", "glob", "argparse", "contextlib", "inspect", "struct", "timeit"}


def sources(ck):
    out = []
    root = os.path.join(ck.root, "zoidberg")
    for p in sorted(glob.glob(root + "/**/*.py", recursive=True)):
        rel = os.path.relpath(p, ck.root)
        b = os.path.basename(p)
        if b.startswith("test_") or b.endswith("_test.py") or b == "conftest.py" or "/examples/" in rel or "/tests/" in rel:
            continue
        m = rel[:-3].replace(os.sep, ".")
        if m.endswith(".__init__"):
            m = m[:-9]
        out.append(names.Module(m, rel, ast.parse(open(p).read(), rel)))
    return out


def run(ck):
    mods = sources(ck)
    if not mods:
        from zsa.report import AnchorMissing

        raise AnchorMissing("package zoidberg")
    by = {m.name: m for m in mods}
    for m in mods:
        ck.group("names of " + m.name, lambda: assigned(ck, m))
        ck.group("imports of " + m.name, lambda: imported(ck, m, by))
    ck.group("attributes", lambda: attributes(ck, mods, by))


def assigned(ck, m):
    found = {}

    def report(fn, line, n, why):
        found.setdefault((fn, n), (line, why))

    A = names.Analysis(m, report)
    A.run()
    ck.count("functions", A.functions)
    ck.count("name_reads", A.reads)
    ck.count("expressions", A.nodes)
    ck.stmts += sum(isinstance(x, ast.stmt) for x in ast.walk(m.tree))
    ck.sites += sum(isinstance(x, ast.Call) for x in ast.walk(m.tree))
    fns = [x.name for x in ast.walk(m.tree) if isinstance(x, (ast.FunctionDef, ast.AsyncFunctionDef))]
    ck.funcs |= {m.name + "." + f for f in fns}
    for (fn, n), (line, why) in sorted(found.items()):
        ck.violated("%s: %s in %s" % (m.name, n, fn), "%s:%d %s" % (m.path, line, fn), "%s %s" % (n, why))
    for fn, line, n in sorted(set(A.open)):
        ck.unknown("%s: %s in %s" % (m.name, n, fn), "assigned under a related test")
    if not found:
        ck.passed("%s: every name read is bound (%d functions)" % (m.name, len(fns)))


def resolve(m, st):
    base = st.module or ""
    if st.level:
        parts = m.name.split(".")
        keep = len(parts) - (st.level - (1 if m.path.endswith("__init__.py") else 0))
        base = ".".join(parts[:keep] + ([st.module] if st.module else []))
    return base


_ext = {}


def external(name):
    """Words defined by a module outside the package, or None if not known."""
    if name in _ext:
        return _ext[name]
    r = None
    if name in STDLIB:
        try:
            r = set(dir(importlib.import_module(name)))
        except Exception:
            r = None
    elif name == "numpy":
        # from the text of its interface files: nothing is imported
        for p in glob.glob("/opt/venv/lib/python3*/site-packages/numpy/__init__.pyi"):
            d = os.path.dirname(p)
            r = set(re.findall(r"\w+", open(p).read())) | set(re.findall(r"\w+", open(os.path.join(d, "__init__.py")).read()))
            r |= {f.split(".")[0] for f in os.listdir(d)}
    _ext[name] = r
    return r


def imported(ck, m, by):
    """from package imports, and attributes of imported modules."""
    mods = {}
    bad = 0
    for st in ast.walk(m.tree):
        if isinstance(st, ast.Import):
            for a in st.names:
                if a.asname:
                    mods.setdefault(a.asname, set()).add(a.name)
                else:
                    mods.setdefault(a.name.split(".")[0], set()).add(a.name.split(".")[0])
        elif isinstance(st, ast.ImportFrom):
            base = resolve(m, st)
            if base in by:
                for a in st.names:
                    if a.name == "*":
                        continue
                    sub = base + "." + a.name
                    if sub in by:
                        if not (a.name in by[base].scope.bound and base != m.name):
                            mods.setdefault(a.asname or a.name, set()).add(sub)
                        continue
                    if os.path.isdir(os.path.join(ck.root, *sub.split("."))):
                        continue
                    if a.name not in by[base].scope.bound and not by[base].star:
                        bad += 1
                        ck.violated("%s imports %s" % (m.name, sub), "%s:%d" % (m.path, st.lineno), "%s is not defined in %s" % (a.name, base))
            elif base.split(".")[0] == "zoidberg" and base not in by and not os.path.isdir(os.path.join(ck.root, *base.split("."))) and not os.path.exists(os.path.join(ck.root, *base.split(".")) + ".py"):
                if base != "zoidberg._version":
                    bad += 1
                    ck.violated("%s imports %s" % (m.name, base), "%s:%d" % (m.path, st.lineno), "there is no module %s" % base)
    # attributes of modules, where the name is never anything else
    stores = {x.id for x in ast.walk(m.tree) if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store)} | {x.arg for x in ast.walk(m.tree) if isinstance(x, ast.arg)}
    guarded = {id(y) for x in ast.walk(m.tree) if isinstance(x, ast.Try) for s in x.body for y in ast.walk(s)}
    n = 0
    for x in ast.walk(m.tree):
        if isinstance(x, ast.Attribute) and isinstance(x.value, ast.Name) and x.value.id in mods and x.value.id not in stores and isinstance(x.ctx, ast.Load) and id(x) not in guarded:
            src = mods[x.value.id]
            if len(src) != 1:
                continue
            src = next(iter(src))
            if src in by:
                known = set(by[src].scope.bound) | {k.rsplit(".", 1)[1] for k in by if k.startswith(src + ".")} | {"__version__", "__name__", "__file__", "__doc__"}
                if by[src].star:
                    continue
            else:
                known = external(src)
            if known is None:
                continue
            n += 1
            if x.attr not in known:
                bad += 1
                ck.violated("%s: %s" % (m.name, ast.unparse(x)), "%s:%d" % (m.path, x.lineno), "%s has no %s" % (src, x.attr))
    ck.count("module_attribute_reads", n)
    if not bad:
        ck.passed("%s: imported names and attributes of modules exist (%d reads)" % (m.name, n))


# ------------------------------------------------------------- instance attributes
def attributes(ck, mods, by):
    classes = {}
    for m in mods:
        for c in ast.walk(m.tree):
            if isinstance(c, ast.ClassDef):
                classes.setdefault(c.name, []).append((m, c))
    # any attribute which is set on some object from outside
    outside = set()
    for m in mods:
        for x in ast.walk(m.tree):
            if isinstance(x, ast.Attribute) and isinstance(x.ctx, ast.Store) and not (isinstance(x.value, ast.Name) and x.value.id == "self"):
                outside.add(x.attr)
    info = {}
    for n, cs in classes.items():
        for m, c in cs:
            info[id(c)] = own(c)
    total = 0
    for n, cs in sorted(classes.items()):
        for m, c in cs:
            known, ext = set(outside), False
            todo, seen = [c], set()
            while todo:
                k = todo.pop()
                if id(k) in seen:
                    continue
                seen.add(id(k))
                known |= info[id(k)][0]
                ext = ext or info[id(k)][1]
                for b in k.bases:
                    bn = ast.unparse(b).split(".")[-1]
                    if bn in classes:
                        todo += [x for _, x in classes[bn]]
                    elif bn != "object":
                        ext = True
            # what subclasses provide
            below, grown = {n}, True
            while grown:
                grown = False
                for k, ks in classes.items():
                    if k not in below and any(ast.unparse(b).split(".")[-1] in below for _, x in ks for b in x.bases):
                        below.add(k)
                        grown = True
                        for _, x in ks:
                            known |= info[id(x)][0]
                            ext = ext or info[id(x)][1]
            if ext:
                continue
            known |= set(dir(object)) | {"__dict__", "__class__"}
            bad = {}
            for name, line in info[id(c)][2]:
                total += 1
                if name not in known:
                    bad.setdefault(name, line)
            for a, line in sorted(bad.items()):
                ck.violated("%s.%s: self.%s" % (m.name, n, a), "%s:%d %s" % (m.path, line, n), "self.%s is read but no class in the hierarchy sets it" % a)
            if not bad:
                ck.passed("%s.%s: attributes read from self are set" % (m.name, n))
    ck.count("self_attribute_reads", total)


def own(c):
    """(attributes set, not analysable, reads)"""
    sets, reads, ext = set(), [], False
    for st in c.body:
        for x in ast.walk(st) if not isinstance(st, (ast.FunctionDef, ast.ClassDef)) else ():
            if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store):
                sets.add(x.id)
        if isinstance(st, (ast.FunctionDef, ast.ClassDef)):
            sets.add(st.name)
            if st.name in ("__getattr__", "__getattribute__"):
                ext = True
        if isinstance(st, ast.FunctionDef) and st.args.args:
            me = st.args.args[0].arg
            guarded = {id(y) for x in ast.walk(st) if isinstance(x, ast.Try) and any("AttributeError" in ast.unparse(h.type) if h.type else True for h in x.handlers) for s in x.body for y in ast.walk(s)}
            for x in ast.walk(st):
                if isinstance(x, ast.Attribute) and isinstance(x.value, ast.Name) and x.value.id == me:
                    if isinstance(x.ctx, ast.Store):
                        sets.add(x.attr)
                    elif isinstance(x.ctx, ast.Load) and id(x) not in guarded and not x.attr.startswith("__"):
                        reads.append((x.attr, x.lineno))
                    if x.attr == "__dict__":
                        ext = True
                if isinstance(x, ast.Call) and isinstance(x.func, ast.Name) and x.func.id in ("setattr", "vars", "hasattr", "getattr") and x.args and isinstance(x.args[0], ast.Name) and x.args[0].id == me:
                    if x.func.id in ("hasattr", "getattr") and len(x.args) > 1 and isinstance(x.args[1], ast.Constant):
                        sets.add(x.args[1].value)
                    else:
                        ext = True
    return sets, ext, reads
