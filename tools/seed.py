"""Build one planted bug: seed.py NAME SPEC.py
SPEC.py defines PROPERTY, NEEDS, BREAKS, EDITS=[(file, old, new)], DEMO (python source run with cwd /repo).
Confirms in a scratch copy: the demo passes before and fails after, and the quick tests pass."""
import json, os, shutil, subprocess, sys, tempfile, runpy
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
name, spec = sys.argv[1], runpy.run_path(sys.argv[2])
d = os.path.join(V, "seeded", name)
os.makedirs(d, exist_ok=True)
w = tempfile.mkdtemp(prefix="seed")
try:
    r = os.path.join(w, "repo")
    subprocess.check_call(["git", "clone", "-q", "/repo", r])
    open(os.path.join(d, "demo.py"), "w").write(spec["DEMO"].lstrip("\n"))
    open(os.path.join(d, "demo.sh"), "w").write('#!/bin/bash\n# exit 0: the property holds for this case\nexport PYTHONDONTWRITEBYTECODE=1 MPLBACKEND=Agg PYTHONPATH="$PWD"\nexec /opt/venv/bin/python "$(cd "$(dirname "$0")" && pwd)/demo.py"\n')
    demo = lambda: subprocess.run(["bash", os.path.join(d, "demo.sh")], cwd=r, capture_output=True, text=True)
    p = demo()
    assert p.returncode == 0, "demo fails on the unchanged tree:\n" + p.stdout + p.stderr
    for f, old, new in spec["EDITS"]:
        path = os.path.join(r, f)
        s = open(path).read()
        assert s.count(old) == 1, "%d occurrences of %r" % (s.count(old), old)
        open(path, "w").write(s.replace(old, new))
    p = demo()
    assert p.returncode != 0, "demo passes with the bug"
    print("demo says:", (p.stdout + p.stderr).strip().split("\n")[-1])
    diff = subprocess.check_output(["git", "diff"], cwd=r, text=True)
    open(os.path.join(d, "patch.diff"), "w").write(diff)
    json.dump(dict(property=spec["PROPERTY"], needs=spec["NEEDS"], what_it_breaks=spec["BREAKS"]), open(os.path.join(d, "meta.json"), "w"), indent=1)
    t = subprocess.run(["/opt/venv/bin/python", "-m", "pytest", "-q", "-x", "-p", "no:cacheprovider", "zoidberg", "--deselect", "zoidberg/test_volume_dommaschk.py"],
        cwd=r, capture_output=True, text=True, env=dict(os.environ, PYTHONPATH=r, PYTHONDONTWRITEBYTECODE="1", MPLBACKEND="Agg"))
    print("tests:", t.stdout.strip().split("\n")[-1])
    c = subprocess.run([sys.executable, os.path.join(V, "check.py"), spec["PROPERTY"], "--root", r], capture_output=True, text=True, env=dict(os.environ, ZSA_NOEVIDENCE="1"))
    print("check exit", c.returncode, [l for l in c.stdout.split("\n") if "violated:" in l][:3])
finally:
    shutil.rmtree(w)
