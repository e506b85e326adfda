"""Obligations, verdicts, evidence."""
import json
import os
import sys
import time
import traceback

from . import cmp
from . import terms as tm
from .terms import T, TRUE, FALSE, b_and, b_not, num, numval, fresh, lt, eq, same, show, TooBig
from .values import Unsupported, Arr, PW, Ref, IteV, Unk, Tup, NONE, is_opaque
from .interp import Interp, Program, PyRaise

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("ZSA_REPO", "/repo")


class AnchorMissing(Exception):
    pass


class Check:
    """One property: collects obligations over the current source."""

    def __init__(self, pid, tier="quick", seed=1, root=None):
        self.pid, self.tier, self.seed = pid, tier, seed
        self.root = root or REPO
        self.prog = Program(self.root)
        self.t0 = time.time()
        self.ok, self.bad, self.undecided = [], [], []
        self.funcs = set()
        self.stmts = self.sites = self.loops = 0
        self.samples = 0
        self.interps = []
        self.counts = {}
        self.rules = {}
        self.assumptions = []
        self.cur = None
        self.where = "?"
        self.prefix = ""
        self.sampled = set()  # undecided, but evaluated

    @property
    def thorough(self):
        return self.tier == "thorough"

    def interp(self, overrides=None, on_while=None):
        I = Interp(self.prog, overrides, on_while)
        self.interps.append(I)
        return I

    def count(self, name, k=1):
        self.counts[name] = self.counts.get(name, 0) + k

    # --------------------------------------------------------------- anchors
    def module(self, name):
        m = self.prog.load(name)
        if m is None:
            raise AnchorMissing("module %s" % name)
        return m

    def anchor(self, I, mod, name):
        """Module-level function or class that is part of the public interface."""
        m = self.prog.load(mod)
        if m is None:
            raise AnchorMissing("module %s" % mod)
        v = I.get_global(m, name)
        if v is None:
            raise AnchorMissing("%s.%s" % (mod, name))
        return v

    def reference(self, I, file, name):
        """Reference function from /verif/specs, analysed by the same engine."""
        mod = "spec_" + file
        m = self.prog.load(mod) if mod in self.prog.mods else None
        if m is None:
            path = os.path.join(VERIF, "specs", file + ".py")
            m = self.prog.add_source(mod, open(path).read(), path)
        return I.get_global(m, name)

    def location(self, mod, name):
        """file:line of a (possibly dotted) definition, for reports."""
        import ast

        m = self.prog.load(mod)
        body, line = m.tree.body, 0
        for part in name.split("."):
            for st in body:
                if isinstance(st, (ast.FunctionDef, ast.ClassDef)) and st.name == part:
                    body, line = st.body, st.lineno
                    break
        return "%s:%d %s" % (self.prog.relpath(m.path), line, name)

    # ----------------------------------------------------------- obligations
    def rule(self, label, text):
        self.rules[label] = text

    def passed(self, label, how="proved"):
        self.ok.append((self.prefix + label, how))

    def violated(self, label, where, what):
        self.bad.append((self.prefix + label, where, what))

    def unknown(self, label, why):
        self.undecided.append((self.prefix + label, str(why)[:400]))

    def group(self, label, thunk, raises_ok=False):
        """Run an analysis step; anything not understood leaves it undecided."""
        if self.prefix and self.bad:
            return
        old = self.where
        limit = self.t0 + (3000 if self.thorough else 500)
        outer = tm.DEADLINE[0]
        now = time.time()
        if now > limit:
            return self.unknown(label, "time limit")
        tm.DEADLINE[0] = min(limit, now + (900 if self.thorough else 150), outer or limit)
        try:
            return thunk()
        except AnchorMissing:
            raise
        except PyRaise as e:
            if raises_ok:
                self.unknown(label, "raises " + e.name)
            else:
                self.violated(label, self.where, "always ends in an exception for valid input: %s" % e.name)
        except (Unsupported, TooBig, RecursionError) as e:
            self.unknown(label, "%s: %s" % (type(e).__name__, e))
        except cmp._Budget:
            self.unknown(label, "comparison budget")
        except Exception as e:
            if os.environ.get("ZSA_DEBUG"):
                del os.environ["ZSA_DEBUG"]
                traceback.print_exc(limit=-8)
            tb = traceback.extract_tb(e.__traceback__)
            self.unknown(label, "analyser: %s: %s (%s:%d)" % (type(e).__name__, e, os.path.basename(tb[-1].filename), tb[-1].lineno))
        finally:
            tm.DEADLINE[0] = outer
            self.where = old

    def eq(self, label, found, spec, facts=(), where=None, tries=None, fnval=None, vocab=(), maxsize=6, given=None, need=2, prove=True):
        """found == spec for all values satisfying facts."""
        where = where or self.where
        facts = [f for f in facts if f is not TRUE]
        if found is None or not isinstance(found, T):
            self.unknown(label, "value not understood: %r" % (found,))
            return None
        if not isinstance(spec, T):
            raise RuntimeError("spec is not a term: %r" % (spec,))
        try:
            if found is spec or prove and cmp.equal(found, spec, facts):
                self.passed(label)
                return True
        except cmp._Budget:
            pass
        except TooBig:
            pass
        tries = tries or (1500 if self.thorough else 400)
        w, used, unk = cmp.differ(
            found, spec, facts, tries=tries, seed=self.seed, fnval=fnval, maxsize=maxsize, need=need, given=given, vocab=vocab
        )
        self.samples += used
        if w is not None:
            self.violated(label, where, str(w))
            return False
        if used >= 25 and not unk:
            self.sampled.add(self.prefix + label)
        self.unknown(label, "neither proved nor refuted (%d valuations agree, %d unknown): found %s ; spec %s" % (
            used, unk, show(found)[:600], show(spec)[:600]))
        return None

    def proves(self, found, spec, facts=()):
        """Is the equality provable? (records nothing)"""
        try:
            return bool(cmp.equal(found, spec, [f for f in facts if f is not TRUE]))
        except (cmp._Budget, TooBig, Unsupported, RecursionError):
            return False

    def holds(self, label, cond, facts=(), where=None, **kw):
        return self.eq(label, cond, TRUE, facts, where, **kw)

    def shape(self, label, found, spec, facts=(), where=None):
        if len(found) != len(spec):
            self.violated(label + " rank", where or self.where, "rank %d, specified %d" % (len(found), len(spec)))
            return False
        r = True
        for k, (a, b) in enumerate(zip(found, spec)):
            r = self.eq("%s size of axis %d" % (label, k), a, b, facts, where) and r
        return r

    def array(self, label, I, found, shape, f, facts=(), where=None, **kw):
        """found is an array of the given shape with elements f(index)."""
        a = I.arr(found)
        if isinstance(a, PW):
            raise Unsupported("array of unknown shape")
        if a.mask is not None:
            raise Unsupported("masked result")
        if self.shape(label, a.shape, shape, facts, where) is False:
            return False
        ix = [fresh("i%d" % k, int=True, lo=0, hi=s) for k, s in enumerate(shape)]
        fx = [x for x in list(facts) + [lt(tm.ZERO, s) for s in shape] if x is not TRUE]
        # short axes are taken element by element
        cases = [[]]
        for k, s in enumerate(shape):
            q = numval(s)
            vs = [num(j) for j in range(int(q))] if q is not None and 0 < q <= 4 and len(cases) * q <= 64 else [ix[k]]
            cases = [c + [v] for c in cases for v in vs]
        r = True
        for c in cases:
            l = label if len(cases) == 1 else label + " [%s]" % ", ".join(show(v) if v.op == "num" else ":" for v in c)
            e = self.eq(l, a(*c), f(*c), fx, where, **kw)
            r = r and e
            if e is False:
                break
        return r

    # --------------------------------------------------------------- results
    def finish(self, level, explanation, trusted):
        for I in self.interps:
            self.funcs |= I.funcs
            self.stmts += I.stmts
            self.sites += I.sites
            self.loops += I.loops
        n = len(self.ok) + len(self.bad) + len(self.undecided)
        cov = dict(
            obligations=n,
            discharged=len(self.ok),
            undecided=len(self.undecided),
            functions_analysed=sorted(self.funcs),
            statements_interpreted=self.stmts,
            call_sites=self.sites,
            loops_summarised=self.loops,
            valuations_compared=self.samples,
            explanation=explanation,
            checker_cmd="python3 /verif/check.py %s --tier %s" % (self.pid, self.tier),
            trusted_base=trusted,
            rules=self.rules,
            obligation_list=[l for l, h in self.ok],
            undecided_list=[dict(obligation=l, why=w) for l, w in self.undecided],
        )
        cov.update(self.counts)
        ev = dict(
            property=self.pid,
            tier=self.tier,
            seed=self.seed,
            level=level,
            coverage=cov,
            assumptions=self.assumptions,
            violations=[dict(obligation=l, where=w, what=x) for l, w, x in self.bad],
            wall_s=round(time.time() - self.t0, 3),
        )
        return ev


def write_evidence(ev, pid):
    d = os.path.join(VERIF, "evidence")
    os.makedirs(d, exist_ok=True)
    tmp = os.path.join(d, pid + ".json.tmp")
    with open(tmp, "w") as f:
        json.dump(ev, f, indent=1)
        f.write("\n")
    os.replace(tmp, os.path.join(d, pid + ".json"))
