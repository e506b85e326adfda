"""Sensitivity test of one check: apply small syntactic mutations to given
definitions in a scratch copy and list those the check does not report.
usage: mutate.py ID module.py:Def[.method] ... [-n MAX] [-j JOBS]"""
import ast, copy, os, random, shutil, subprocess, sys, tempfile
from concurrent.futures import ThreadPoolExecutor
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("ZSA_REPO", "/repo")

def find(tree, name):
    body = tree.body
    node = None
    if name == "*":
        return tree
    for part in name.split("."):
        for st in body:
            if isinstance(st, (ast.FunctionDef, ast.ClassDef)) and st.name == part:
                node, body = st, st.body
                break
        else:
            raise SystemExit("no " + name)
    return node

def sites(node):
    out = []
    for n in ast.walk(node):
        if isinstance(n, ast.BinOp):
            alt = {ast.Add: [ast.Sub], ast.Sub: [ast.Add], ast.Mult: [ast.Div], ast.Div: [ast.Mult], ast.FloorDiv: [ast.Div], ast.Mod: [ast.Mult], ast.Pow: [ast.Mult], ast.BitAnd: [ast.BitOr], ast.BitOr: [ast.BitAnd]}
            for a in alt.get(type(n.op), []):
                out.append((n, "op", a))
            if isinstance(n.op, (ast.Sub, ast.Div)):
                out.append((n, "swap", None))
        elif isinstance(n, ast.Compare) and len(n.ops) == 1:
            alt = {ast.Lt: [ast.LtE, ast.Gt], ast.LtE: [ast.Lt, ast.GtE], ast.Gt: [ast.GtE, ast.Lt], ast.GtE: [ast.Gt, ast.LtE], ast.Eq: [ast.NotEq], ast.NotEq: [ast.Eq], ast.Is: [ast.IsNot], ast.IsNot: [ast.Is]}
            for a in alt.get(type(n.ops[0]), []):
                out.append((n, "cmp", a))
        elif isinstance(n, ast.Constant) and isinstance(n.value, (int, float)) and not isinstance(n.value, bool):
            out.append((n, "const", n.value + 1))
            if n.value:
                out.append((n, "const", n.value - 1 if n.value != 1 else 0))
        elif isinstance(n, ast.Constant) and isinstance(n.value, bool):
            out.append((n, "const", not n.value))
        elif isinstance(n, ast.UnaryOp) and isinstance(n.op, (ast.USub, ast.Not, ast.Invert)):
            out.append((n, "dropunary", None))
        elif isinstance(n, ast.BoolOp):
            out.append((n, "bool", ast.And if isinstance(n.op, ast.Or) else ast.Or))
        elif isinstance(n, ast.Call) and len(n.args) >= 2 and not any(isinstance(a, ast.Starred) for a in n.args):
            out.append((n, "swapargs", None))
        elif isinstance(n, ast.AugAssign):
            alt = {ast.Add: ast.Sub, ast.Sub: ast.Add, ast.Mult: ast.Div, ast.Div: ast.Mult}
            if type(n.op) in alt:
                out.append((n, "aug", alt[type(n.op)]))
        if isinstance(n, (ast.If,)):
            out.append((n, "negif", None))
        if hasattr(n, "body") and isinstance(n.body, list):
            for k, st in enumerate(n.body):
                if isinstance(st, (ast.Assign, ast.AugAssign, ast.Expr)) and not (isinstance(st, ast.Expr) and isinstance(st.value, ast.Constant)):
                    if isinstance(st, ast.Expr) and isinstance(st.value, ast.Call) and getattr(st.value.func, "id", "") == "print":
                        continue
                    out.append((n, "del", k))
        if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Load):
            alt = {"x": "z", "z": "x", "dx": "dz", "dz": "dx", "R": "Z", "Z": "R", "nx": "nz", "nz": "nx", "forward": "backward", "Bx": "Bz", "Bz": "Bx", "i": "j", "j": "i", "a": "b", "b": "a"}
            if n.id in alt:
                out.append((n, "name", alt[n.id]))
    return out

def apply(s):
    n, k, a = s
    if k == "op": n.op = a()
    elif k == "swap": n.left, n.right = n.right, n.left
    elif k == "cmp": n.ops = [a()]
    elif k == "const": n.value = a
    elif k == "dropunary":
        # replace with the operand: emulate by double negation
        n.op = ast.UAdd() if not isinstance(n.op, ast.Not) else n.op
        if isinstance(n.op, ast.Not): n.operand = ast.UnaryOp(ast.Not(), n.operand)
    elif k == "bool": n.op = a()
    elif k == "swapargs": n.args[0], n.args[1] = n.args[1], n.args[0]
    elif k == "aug": n.op = a()
    elif k == "negif": n.test = ast.UnaryOp(ast.Not(), n.test)
    elif k == "del": n.body[a] = ast.Pass()
    elif k == "name": n.id = a

def main():
    args = sys.argv[1:]
    mx, jobs, seed = 60, 8, 1
    if "-n" in args:
        k = args.index("-n"); mx = int(args[k + 1]); del args[k:k + 2]
    if "-j" in args:
        k = args.index("-j"); jobs = int(args[k + 1]); del args[k:k + 2]
    if "-s" in args:
        k = args.index("-s"); seed = int(args[k + 1]); del args[k:k + 2]
    pid, targets = args[0], args[1:]
    muts = []
    for t in targets:
        f, d = t.split(":")
        path = os.path.join(REPO, "zoidberg", f)
        src = open(path).read()
        n = len(sites(find(ast.parse(src), d)))
        for i in range(n):
            tree = ast.parse(src)
            s = sites(find(tree, d))[i]
            line = getattr(s[0], "lineno", 0)
            apply(s)
            try:
                new = ast.unparse(ast.fix_missing_locations(tree))
                compile(new, f, "exec")
            except Exception:
                continue
            muts.append((f, d, line, s[1], s[2], new))
    random.Random(seed).shuffle(muts)
    muts = muts[:mx]
    base = tempfile.mkdtemp(prefix="mut")
    def one(k):
        f, d, line, kind, a, new = muts[k]
        root = os.path.join(base, str(k))
        os.makedirs(root)
        shutil.copytree(os.path.join(REPO, "zoidberg"), os.path.join(root, "zoidberg"), ignore=shutil.ignore_patterns("__pycache__", "test_*"))
        open(os.path.join(root, "zoidberg", f), "w").write(new)
        env = dict(os.environ, ZSA_NOEVIDENCE="1")
        try:
            p = subprocess.run([sys.executable, os.path.join(HERE, "check.py"), pid, "--root", root], capture_output=True, text=True, timeout=900, env=env)
            rc, out = p.returncode, p.stdout
        except subprocess.TimeoutExpired:
            rc, out = "timeout", ""
        shutil.rmtree(root)
        return k, rc, out
    tot = {}
    miss = []
    with ThreadPoolExecutor(jobs) as ex:
        for k, rc, out in ex.map(one, range(len(muts))):
            tot[rc] = tot.get(rc, 0) + 1
            if rc != 1:
                und = out.split(" undecided")[0].split(", ")[-1] if "undecided" in out else "?"
                miss.append((muts[k], rc, und))
    shutil.rmtree(base)
    print(pid, "mutants", len(muts), "by exit", tot)
    orig = {}
    for (f, d, line, kind, a, new), rc, und in sorted(miss, key=lambda m: (m[0][0], m[0][2])):
        src = orig.setdefault(f, open(os.path.join(REPO, "zoidberg", f)).read().split("\n"))
        print("  rc=%s undecided=%s %s:%d %s %s | %s" % (rc, und, f, line, kind, getattr(a, "__name__", a), src[line - 1].strip()))
main()
