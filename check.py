#!/usr/bin/env python3
"""Decide one property from the current source of the package.

usage: check.py ID [--tier quick|thorough]
exit 0: holds; 1: violated (VIOLATION line); 2: the analysis could not be done
"""
import argparse
import importlib
import json
import os
import sys
import traceback

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
sys.setrecursionlimit(30000)
import threading

threading.stack_size(512 * 1024 * 1024)


def known_findings(pid):
    out = []
    p = os.path.join(HERE, "KNOWN_FINDINGS.json")
    if os.path.exists(p):
        for e in json.load(open(p)):
            if e.get("property") == pid and e.get("status") == "known":
                out.append(e)
    return out


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("id")
    ap.add_argument("--tier", default="quick", choices=("quick", "thorough"))
    ap.add_argument("--root", default=None)
    ap.add_argument("-v", action="store_true")
    a = ap.parse_args()
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    from zsa import report

    try:
        mod = importlib.import_module("props." + a.id.lower())
        ck = report.Check(a.id, a.tier, seed, a.root)
        # whatever has been decided when time is up is the answer
        dog = threading.Timer(3300 if a.tier == "thorough" else 660, lambda: overtime(a, ck, mod))
        dog.daemon = True
        dog.start()
        mod.run(ck)
        if any(l not in ck.sampled for l, w in ck.undecided) and not ck.bad and isinstance(getattr(mod, "SMALL", None), tuple):
            # what is left is decided for small concrete sizes, with loops unrolled
            from zsa import std

            std.SMALL[0] = True
            for name in mod.SMALL:
                importlib.reload(importlib.import_module(name))
            mod = importlib.reload(mod)
            ck.prefix = "small sizes: "
            mod.run(ck)
    except report.AnchorMissing as e:
        print("ERROR property=%s: %s is missing, the property cannot be located" % (a.id, e))
        return 2
    except SyntaxError as e:
        print("ERROR property=%s: source does not parse: %s" % (a.id, e))
        return 2
    return result(a, ck, mod)


def overtime(a, ck, mod):
    rc = 2
    try:
        ck.unknown("the rest", "time limit")
        rc = result(a, ck, mod)
        sys.stdout.flush()
    finally:
        os._exit(rc)


_done = threading.Lock()


def result(a, ck, mod):
    from zsa import report

    _done.acquire()
    ev = ck.finish(getattr(mod, "LEVEL", "other"), mod.EXPLANATION, getattr(mod, "TRUSTED", TRUSTED))
    c = ev["coverage"]
    print(
        "%s: %d obligations: %d proved, %d violated, %d undecided; %d functions, %d statements, %d call sites, %d loops analysed in %.1f s"
        % (a.id, c["obligations"], c["discharged"], len(ck.bad), c["undecided"], len(c["functions_analysed"]),
           c["statements_interpreted"], c["call_sites"], c["loops_summarised"], ev["wall_s"])
    )
    if a.v:
        for l, h in ck.ok:
            print("  ok  ", l)
    for l, w in ck.undecided:
        print("  UNDECIDED %s: %s" % (l, w if a.v else w[:160]))
    known = known_findings(a.id)
    new = []
    for l, w, x in ck.bad:
        k = [e for e in known if e["obligation"] == l]
        if k:
            print("KNOWN-FINDING: property=%s %s" % (a.id, k[0]["what"]))
        else:
            new.append((l, w, x))
    if not os.environ.get("ZSA_NOEVIDENCE"):
        report.write_evidence(ev, a.id)
    if not new:
        return 0
    path = os.path.join(HERE, "evidence", a.id + ".violation.txt")
    os.makedirs(os.path.dirname(path), exist_ok=True)
    with open(path, "w") as f:
        for l, w, x in new:
            f.write("%s\n  obligation: %s\n  %s\n" % (w, l, x))
    for l, w, x in new:
        print("  violated: %s\n    obligation: %s\n    %s" % (w, l, x))
    print("VIOLATION property=%s replay=%s" % (a.id, path))
    return 1


TRUSTED = [
    "CPython's ast module",
    "the analyser in /verif/zsa (term normalisation, abstract semantics of Python and of the numpy/scipy/sympy functions in npmodel.py)",
    "the specification in /verif/props",
]

if __name__ == "__main__":
    rc = [2]

    def go():
        try:
            rc[0] = main()
        except SystemExit as e:
            rc[0] = e.code if isinstance(e.code, int) else 2
        except BaseException:
            traceback.print_exc()
            rc[0] = 2

    t = threading.Thread(target=go)
    t.start()
    t.join()
    sys.stdout.flush()
    sys.exit(rc[0])
