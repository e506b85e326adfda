"""Comparison of value numbers.

equal(a, b) proves equality by normal form, splitting on the conditions that
occur in the two terms.  differ(a, b) looks for a valuation of the symbols and
uninterpreted functions (random interpretation of the terms) under which the
two terms differ: only then are they reported as different.  Terms that
contain something the analysis does not understand ("?" names) can never be
reported as different on account of it.
"""
import time
import math
import random
from fractions import Fraction
from decimal import Decimal as D, getcontext, localcontext

from .terms import *  # noqa
from . import terms as tm

getcontext().prec = 60
EPS = D(10) ** -35


class Unknown(Exception):
    """The value depends on something that was not understood."""


class BadSample(Exception):
    pass


# ------------------------------------------------------------ elementary functions
def _dpi():
    return D("3.14159265358979323846264338327950288419716939937510582097494459230781640628620899")


PI_D = _dpi()


def d_cos(x):
    x = x % (2 * PI_D)
    s, t, i = D(1), D(1), 0
    while abs(t) > D(10) ** -58:
        i += 2
        t = -t * x * x / (i * (i - 1))
        s += t
    return s


def d_sin(x):
    x = x % (2 * PI_D)
    s, t, i = x, x, 1
    while abs(t) > D(10) ** -58:
        i += 2
        t = -t * x * x / (i * (i - 1))
        s += t
    return s


def d_atan(x):
    if abs(x) > D("0.4"):
        return 2 * d_atan(x / (1 + (1 + x * x).sqrt()))
    s, t, i = x, x, 1
    while abs(t) > D(10) ** -58:
        t = -t * x * x
        i += 2
        s += t / i
    return s


def d_atan2(y, x):
    if x > 0:
        return d_atan(y / x)
    if x < 0:
        return d_atan(y / x) + (PI_D if y >= 0 else -PI_D)
    if y == 0:
        return D(0)
    return PI_D / 2 if y > 0 else -PI_D / 2


def d_floor(x):
    r = x.to_integral_value()
    if abs(x - r) < EPS:
        return r
    return x.to_integral_value(rounding="ROUND_FLOOR")


def _q(x):
    """Quantised key of a value."""
    if isinstance(x, bool):
        return int(x)
    r = x.to_integral_value()
    if abs(x - r) < EPS:
        return int(r)
    return str(x.quantize(D(10) ** -30))


class Val:
    """A valuation: symbols, and deterministic pseudo-random uninterpreted functions."""

    def __init__(self, seed, style=0, given=None, fnval=None, maxsize=6, vocab=None):
        self.seed = seed
        self.rng = random.Random(seed)
        self.style = style
        self.env = dict(given or {})
        self.fnval = fnval or {}
        self.memo = {}
        self.maxsize = maxsize
        self.steps = 0
        self.vocab = vocab
        self.force = {}  # name: (expression, offset)

    # -- symbols
    def sym(self, t):
        name = t.args[0]
        if name in self.env:
            return self.env[name]
        if name in self.force:
            e, off = self.force.pop(name)
            try:
                v = self.num(e) + off
                f = SYM.get(name, {})
                if ("lo" not in f or v >= self.num(f["lo"])) and ("hi" not in f or v < self.num(f["hi"])) and not (f.get("int") and v != v.to_integral_value()) and name not in self.env:
                    self.env[name] = v
            except (BadSample, Unknown, ArithmeticError, ValueError):
                pass
            if name in self.env:
                return self.env[name]
        if name == "pi":
            return PI_D
        if name.startswith("?"):
            raise Unknown(name)
        if name in ("nan", "inf", "-inf"):
            raise Unknown(name)
        if name.startswith("%"):
            raise BadSample("unbound " + name)
        f = SYM.get(name, {})
        lo = self.ev(f["lo"]) if "lo" in f else None
        hi = self.ev(f["hi"]) if "hi" in f else None
        rng = random.Random("%s/%s" % (self.seed, name))
        if f.get("bool"):
            v = bool(rng.getrandbits(1))
        elif f.get("int"):
            if lo is None and hi is None:
                a, b = -3, 9
            elif lo is None:
                a, b = int(hi) - 8, int(hi) - 1
            elif hi is None:
                a, b = int(lo), int(lo) + self.maxsize
            else:
                a, b = int(math.ceil(lo)), int(math.ceil(hi)) - 1
            if b < a:
                raise BadSample
            v = D(rng.randint(a, b))
        else:
            st = self.style if self.style != 2 else rng.randint(0, 1)
            if st == 3 and lo is None and hi is None:
                self.env[name] = v = D(rng.randint(0, 2)) + D(rng.randint(1, 9)) / 1000
                return v
            if lo is None:
                lo = D(-2) if hi is None else hi - 9
            if hi is None:
                hi = lo + 9
            if st == 3:
                v = lo + (hi - lo) * (D(rng.randint(0, 3)) / 4 + D(rng.randint(1, 9)) / 5000)
            elif st == 0:
                n = int((hi - lo) * 2)
                v = lo + D(rng.randint(0 if f.get("pos") is None else 1, max(n, 1))) / 2
                if v > hi:
                    v = (lo + hi) / 2
            else:
                v = lo + (hi - lo) * D(rng.randint(1, 9973)) / 9974
        self.env[name] = v
        return v

    def hash(self, name, args):
        key = "%s/%s/%s" % (self.seed, name, args)
        rng = random.Random(key)
        if name in tm.INTARR:
            return D(rng.randint(0, 7))
        if self.style == 0:
            return D(rng.randint(-4, 14)) / 2
        if self.style == 3:
            return D(rng.randint(0, 2)) + D(rng.randint(1, 9)) / 1000
        return D(rng.randint(-30011, 90011)) / 10007

    def bhash(self, name, args):
        return bool(random.Random("%s/%s/%s" % (self.seed, name, args)).getrandbits(1))

    # -- terms
    def ev(self, t):
        r = self.memo.get(t)
        if r is not None:
            return r
        self.steps += 1
        if self.steps > 400000:
            raise BadSample("too long")
        r = self._ev(t)
        if not tm.loose(t):
            self.memo[t] = r
        return r

    def num(self, t):
        v = self.ev(t)
        if isinstance(v, bool):
            return D(int(v))
        return v

    def _ev(self, t):
        op = t.op
        if op == "num":
            f = t.args[0]
            return D(f.numerator) / D(f.denominator)
        if op == "sym":
            return self.sym(t)
        if op == "true":
            return True
        if op == "false":
            return False
        if op == "poly":
            s = D(0)
            for m, c in t.args[0]:
                p = D(c.numerator) / D(c.denominator)
                for a, e in m:
                    if a.op == "rad":
                        b = self.num(a.args[0])
                    else:
                        b = self.num(a)
                    if e.denominator == 1:
                        if e < 0 and abs(b) < EPS:
                            raise BadSample("division by zero")
                        p *= b ** int(e)
                    else:
                        if b < 0:
                            if b > -EPS:
                                b = D(0)
                            else:
                                raise BadSample("root of negative")
                        if e < 0 and abs(b) < EPS:
                            raise BadSample("division by zero")
                        if e.denominator != 2:
                            raise Unknown("power")
                        p *= b.sqrt() ** abs(e.numerator) if e > 0 else 1 / (b.sqrt() ** abs(e.numerator))
                s += p
            return s
        if op == "rad":
            return self.num(t.args[0])
        if op == "ite":
            return self.ev(t.args[1]) if self.b(t.args[0]) else self.ev(t.args[2])
        if op == "not":
            return not self.b(t.args[0])
        if op in ("and", "or"):
            # an operand that is not understood matters only if the others do not decide
            unk = None
            for x in t.args:
                try:
                    v = self.b(x)
                except (Unknown, BadSample) as e:
                    unk = e if unk is None or isinstance(e, Unknown) else unk
                    continue
                if op == "and" and not v:
                    return False
                if op == "or" and v:
                    return True
            if unk is not None:
                raise unk
            return op == "and"
        if op == "lt0":
            v = self.num(t.args[0])
            if abs(v) < EPS:
                return False
            if abs(v) < D(10) ** -20:
                raise BadSample
            return v < 0
        if op == "eq0":
            v = self.num(t.args[0])
            if abs(v) < EPS:
                return True
            if abs(v) < D(10) ** -20:
                raise BadSample
            return False
        if op in ("sum", "any"):
            lev, n, body = t.args
            name = "%%%d" % lev
            nn = int(d_floor(self.num(n)))
            if nn > 4000:
                raise BadSample
            old = self.env.get(name)
            s = D(0)
            found = False
            unk = None
            for k in range(nn):
                self.env[name] = D(k)
                if op == "sum":
                    s += self.num(body)
                else:
                    try:
                        if self.b(body):
                            found = True
                            break
                    except (Unknown, BadSample) as e:
                        unk = e
            if old is None:
                self.env.pop(name, None)
            else:
                self.env[name] = old
            if op == "any":
                if found:
                    return True
                if unk is not None:
                    raise unk
                return False
            return s
        if op == "bfn":
            name = t.args[0]
            if name.startswith("?"):
                raise Unknown(name)
            if name in self.fnval:
                return self.fnval[name](self, *t.args[1:])
            if self.vocab is not None and name not in self.vocab:
                raise Unknown("library predicate " + name)
            return self.bhash(name, tuple(self.key(x) for x in t.args[1:]))
        if op == "fn":
            name = t.args[0]
            if name.startswith("?"):
                raise Unknown(name)
            if name in self.fnval:
                return self.fnval[name](self, *t.args[1:])
            h = ELEM.get(name)
            if h is not None:
                return h(*[self.num(x) for x in t.args[1:]])
            if name in SPECIALEV:
                return SPECIALEV[name](self, *t.args[1:])
            if name == "div0":
                raise BadSample("division by zero")
            if name in tm.INJFN:
                r = D(0)
                for x in t.args[1:]:
                    q = self.num(x)
                    if q != int(q) or not 0 <= q < 97:
                        raise BadSample("one-to-one function of large arguments")
                    r = r * 97 + q
                return r
            if self.vocab is not None and name not in self.vocab and not name.startswith("uninit"):
                raise Unknown("library function " + name)
            return self.hash(name, tuple(self.key(x) for x in t.args[1:]))
        if op == "arr":
            raise Unknown("array value")
        raise Unknown(op)

    def key(self, x):
        if not isinstance(x, T):
            return str(x)
        if x.op == "arr":
            # extensional key on small ranges
            lev, shape, body = x.args
            dims = [int(self.num(s)) for s in shape]
            n = 1
            for k in dims:
                n *= max(k, 0)
            if n > 600:
                raise BadSample
            names = ["%%%d" % (lev - len(dims) + 1 + k) for k in range(len(dims))]
            olds = [self.env.get(m) for m in names]
            out = []
            for flat in range(n):
                r = flat
                for m, k in reversed(list(zip(names, dims))):
                    self.env[m] = D(r % k)
                    r //= k
                out.append(_q(self.ev(body)))
            for m, o in zip(names, olds):
                if o is None:
                    self.env.pop(m, None)
                else:
                    self.env[m] = o
            return (tuple(dims), tuple(out))
        return _q(self.ev(x))

    def ev_masked(self, t):
        if t.op == "sym" and t.args[0] == "masked":
            return None
        if t.op == "ite":
            return self.ev_masked(t.args[1] if self.b(t.args[0]) else t.args[2])
        return self.ev(t)

    def b(self, t):
        v = self.ev(t)
        if isinstance(v, bool):
            return v
        return abs(v) > EPS


def _elem_pow(a, b):
    if a <= 0:
        raise BadSample
    return (b * a.ln()).exp()


def _elem_log(a):
    if a <= 0:
        raise BadSample
    return a.ln()


def _round(x):
    return x.to_integral_value(rounding="ROUND_HALF_EVEN")


ELEM = dict(
    cos=d_cos,
    sin=d_sin,
    floor=d_floor,
    abs=abs,
    atan2=d_atan2,
    exp=lambda x: x.exp() if abs(x) < 400 else (_ for _ in ()).throw(BadSample()),
    log=_elem_log,
    pow=_elem_pow,
    round=_round,
)
ELEM["atan"] = d_atan


def _splitoff(v, N, n, c):
    N, n, c = int(v.num(N)), int(v.num(n)), int(v.num(c))
    if n <= 0 or c < 0 or c > n:
        raise BadSample
    q, r = divmod(N, n)
    return D(c * q + min(c, r))


def _splitchunk(v, N, n, i):
    N, n, i = int(v.num(N)), int(v.num(n)), int(v.num(i))
    if n <= 0:
        raise BadSample
    q, r = divmod(N, n)
    o = 0
    for c in range(n):
        o2 = o + q + (1 if c < r else 0)
        if o <= i < o2:
            return D(c)
        o = o2
    raise BadSample


def _arr_items(v, a):
    """Values of a bound array term in row-major order; None for masked entries."""
    lev, shape, body = a.args
    dims = [int(v.num(s)) for s in shape]
    n = 1
    for k in dims:
        n *= max(k, 0)
    if n > 2000:
        raise BadSample
    names = ["%%%d" % (lev - len(dims) + 1 + k) for k in range(len(dims))]
    olds = [v.env.get(m) for m in names]
    out = []
    try:
        for flat in range(n):
            r = flat
            for m, k in reversed(list(zip(names, dims))):
                v.env[m] = D(r % k)
                r //= k
            out.append(v.ev_masked(body))
    finally:
        for m, o in zip(names, olds):
            if o is None:
                v.env.pop(m, None)
            else:
                v.env[m] = o
    return out


def _extreme(f, arg=False):
    def g(v, a):
        if a.op != "arr":
            raise Unknown("extreme")
        xs = _arr_items(v, a)
        if arg and None in xs:
            raise Unknown("masked")
        ys = [D(int(x)) if isinstance(x, bool) else x for x in xs if x is not None]
        if not ys:
            raise BadSample
        r = f(ys)
        return D(ys.index(r)) if arg else r
    return g


def _first(v, n, a):
    xs = _arr_items(v, a)
    for k, x in enumerate(xs):
        if isinstance(x, bool) and x or not isinstance(x, bool) and x is not None and abs(x) > EPS:
            return D(k)
    raise BadSample


SPECIALEV = dict(
    splitoff=_splitoff,
    splitchunk=_splitchunk,
    first=_first,
    amax=_extreme(max),
    amin=_extreme(min),
    argmax=_extreme(max, True),
    argmin=_extreme(min, True),
)
tm.INTFN.add("splitoff")
tm.INTFN.add("splitchunk")


# ------------------------------------------------------------------ equality
def _atoms(t, out):
    """Condition atoms of gated joins, outermost first."""
    st = [t]
    seen = set()
    while st:
        x = st.pop(0)
        if x in seen:
            continue
        seen.add(x)
        if x.op in ("lt0", "eq0", "bfn") or (x.op == "sym" and x.isb) or x.op == "any":
            if not tm.loose(x):
                out.setdefault(x, None)
            if x.op == "bfn":
                continue
        st.extend(tm._children(x))
    return out


def _solve(p):
    """Solve p == 0 for a symbol: (symbol, expression) or None."""
    d = to_poly(p)
    best = None
    for m, c in d.items():
        if len(m) == 1 and m[0][1] == 1 and m[0][0].op == "sym" and not m[0][0].args[0].startswith("%"):
            a = m[0][0]
            rest = {k: v for k, v in d.items() if k != m}
            r = mk_poly(rest)
            if a in free(r):
                continue
            if tm.is_int(a) and not tm.is_int(scale(r, -1 / c)):
                continue
            cand = (a, scale(r, -1 / c))
            if best is None or a.id > best[0].id:
                best = cand
    return best


class _Budget(Exception):
    pass


_LIT = ("lt0", "eq0", "bfn", "any")


def equal(a, b, facts=(), budget=3000):
    """True if a and b are equal for all values (given facts), else False (not shown)."""
    if a is b:
        return True
    try:
        n = [budget]
        a, b = expand_extremes(expand_floors(a)), expand_extremes(expand_floors(b))
        fl = []
        for f in facts:
            f = expand_extremes(expand_floors(f))
            fl.extend(f.args if f.op == "and" else [f])
        lits = [f for f in fl if (f.op in _LIT or f.op == "not" and f.args[0].op in _LIT) and not any(x.op == "ite" for x in tm.subterms(f))]
        rest = [f for f in fl if f not in lits]
        path = []
        for f in lits:
            l, truth = (f.args[0], False) if f.op == "not" else (f, True)
            path.append(f)
            a, b = _assume(a, l, truth), _assume(b, l, truth)
            rest = [_assume(g, l, truth) for g in rest]
        if FALSE in rest or _contradiction(path):
            return True
        a, b = _underpath(a, path), _underpath(b, path)
        return _eq(a, b, [g for g in rest if g is not TRUE], path, n)
    except (_Budget, TooBig, RecursionError):
        return False


def expand_floors(t):
    """floor(p/q) with -2q <= p < 3q becomes a case distinction."""
    m = {}
    for x in tm.subterms(t):
        if x.op == "fn" and x.args[0] == "floor" and not tm.loose(x):
            r = x.args[1]
            d = to_poly(r)
            den = {}
            ok = True
            for mono, c in d.items():
                for a, e in mono:
                    if e < 0:
                        if e.denominator != 1 or a.op == "rad":
                            ok = False
                        else:
                            den[a] = max(den.get(a, 0), -e)
            if not ok or not den:
                continue
            q = mk_poly({tuple(sorted(den.items(), key=lambda z: z[0].id)): Fraction(1)})
            if not tm.positive(q):
                continue
            p = tm.mul(r, q)
            lo = next((k for k in (0, -1, -2) if nonneg(sub(p, scale(q, k)))), None)
            hi = next((k for k in (1, 2, 3) if tm.positive(sub(scale(q, k), p))), None)
            if lo is None or hi is None:
                continue
            v = num(hi - 1)
            for k in range(hi - 2, lo - 1, -1):
                v = tm.ite(tm.lt(p, scale(q, k + 1)), num(k), v)
            m[x] = v
    return subst(t, m) if m else t


def expand_extremes(t):
    """c + min(a) < 0 becomes: some element with c + a[i] < 0; likewise for max."""
    m = {}
    for x in tm.subterms(t):
        if x.op != "lt0":
            continue
        d = to_poly(x.args[0])
        ext = [
            (mono, c)
            for mono, c in d.items()
            if len(mono) == 1 and mono[0][1] == 1 and mono[0][0].op == "fn" and mono[0][0].args[0] in ("amin", "amax")
        ]
        if len(ext) != 1:
            continue
        mono, c = ext[0]
        f = mono[0][0]
        a = f.args[1]
        if a.op != "arr" or any(y is f for k in d if k != mono for y, e in k):
            continue
        lev, shape, body = a.args
        if any(z.op == "sym" and z.args[0] == "masked" for z in tm.subterms(body)):
            continue
        names = [tm.sym("%%%d" % (lev - len(shape) + 1 + k), int=True) for k in range(len(shape))]
        if any(z.args[0].startswith("%") and z not in names for z in free(a) | free(x)):
            continue
        vs = [fresh("e", int=True, lo=0, hi=s) for s in shape]
        b = subst(body, dict(zip(names, vs)))
        rest = mk_poly({k: v for k, v in d.items() if k != mono})
        lit = lt0(add(rest, scale(b, c)))
        exists = (f.args[0] == "amin") == (c > 0)
        r = lit if exists else b_not(lit)
        for v, s in reversed(list(zip(vs, shape))):
            r = tm.mk_any(v, ZERO, s, r)
        m[x] = r if exists else b_not(r)
    return subst(t, m) if m else t


def implied(cond, facts=()):
    return equal(cond, TRUE, facts)


def _contradiction(lits):
    """Simple refutation of a set of literals: pairs of linear conditions."""
    for f in lits:
        if f is FALSE:
            return True
    s = set(lits)
    for f in lits:
        if b_not(f) in s:
            return True
        if f.op == "not" and f.args[0].op == "eq0":
            p = f.args[0].args[0]
            if b_not(lt0(p)) in s and b_not(lt0(neg(p))) in s:
                return True
    ge = []  # p >= 0 or p > 0
    for f in lits:
        if f.op == "lt0":
            p = f.args[0]
            ge.append((sub(neg(p), ONE), False) if tm.is_int(p) else (neg(p), True))
        elif f.op == "not" and f.args[0].op == "lt0":
            ge.append((f.args[0].args[0], False))
        elif f.op == "eq0":
            p = f.args[0]
            ge.append((p, False))
            ge.append((neg(p), False))
    # symbol bounds and floor bounds are handled by nonneg()
    for p, st in ge:
        if tm.positive(neg(p)) or (st and nonneg(neg(p))):
            return True
    k = len(ge)
    polys = [to_poly(g[0]) for g in ge]
    for i in range(k):
        for j in range(i + 1, k):
            qs = [add(ge[i][0], ge[j][0])]
            # cancel a common monomial
            for m, c in polys[i].items():
                d = polys[j].get(m)
                if m and d is not None and c * d < 0 and abs(c) != abs(d):
                    qs.append(add(scale(ge[i][0], abs(d)), scale(ge[j][0], abs(c))))
            for q in qs:
                if tm.positive(neg(q)) or ((ge[i][1] or ge[j][1]) and nonneg(neg(q))):
                    return True
    if k <= 14:
        for i in range(k):
            for j in range(i + 1, k):
                pij = add(ge[i][0], ge[j][0])
                for l in range(j + 1, k):
                    q = add(pij, ge[l][0])
                    if tm.positive(neg(q)) or ((ge[i][1] or ge[j][1] or ge[l][1]) and nonneg(neg(q))):
                        return True
    return False


def _assume(t, lit, truth):
    """Rewrite t under the assumption that atom lit has the given truth value."""
    m = {lit: TRUE if truth else FALSE}
    # consequences for atoms over the same polynomial
    if lit.op in ("lt0", "eq0"):
        p = lit.args[0]
        if truth:
            if lit.op == "eq0":
                m[mk("lt0", p, isb=True)] = FALSE
                m[mk("lt0", neg(p), isb=True)] = FALSE
            else:
                m[mk("eq0", p, isb=True)] = FALSE
                m[mk("eq0", neg(p), isb=True)] = FALSE
                m[mk("lt0", neg(p), isb=True)] = FALSE
    return subst(t, m)


def _absfix(t, p, sign):
    """Replace |p| once its sign is known."""
    m = {}
    a = absv(p)
    if a.op == "fn":
        q = a.args[1]
        # a = |q|, with q = +-p
        if same(q, p):
            m[a] = p if sign >= 0 else neg(p)
        else:
            m[a] = p if sign >= 0 else neg(p)
        return subst(t, m)
    return t


def _eq(a, b, facts, path, n):
    n[0] -= 1
    if n[0] <= 0:
        raise _Budget
    if a is b or (not a.isb and not b.isb and same(a, b)):
        return True
    ats = {}
    _atoms(a, ats)
    _atoms(b, ats)
    for f in facts:
        _atoms(f, ats)
    if not ats:
        return _contradiction(path) or not a.isb and not b.isb and _sums_equal(a, b, facts, path, n)
    # prefer atoms that are smallest
    lit = min(ats, key=lambda x: (_gated(x), x.op == "any", len(subterms(x)), x.id))
    for truth in (True, False):
        l = lit if truth else b_not(lit)
        np = path + [l]
        if _contradiction(np):
            continue
        fs = []
        dead = False
        for f in facts:
            g = _assume(f, lit, truth)
            if g is FALSE:
                dead = True
                break
            if g is not TRUE:
                fs.append(g)
        if dead:
            continue
        x, y = _assume(a, lit, truth), _assume(b, lit, truth)
        zero = lit.op == "eq0" and truth
        if lit.op == "lt0" and not truth and b_not(lt0(neg(lit.args[0]))) in path:
            zero = True
        if zero:
            s = _solve(lit.args[0])
            if s:
                m = {s[0]: s[1]}
                x, y = subst(x, m), subst(y, m)
                fs = [subst(f, m) for f in fs]
                if FALSE in fs:
                    continue
                fs = [f for f in fs if f is not TRUE]
                np = [subst(f, m) for f in np]
                np = [f for f in np if f is not TRUE]
                if _contradiction(np):
                    continue
        if lit.op == "lt0":
            x, y = (_absfix(z, lit.args[0], -1 if truth else 1) for z in (x, y))
        x, y = _underpath(x, np), _underpath(y, np)
        fs = [_underpath(f, np) for f in fs]
        if FALSE in fs:
            continue
        if not _eq(x, y, fs, np, n):
            return False
    return True


def _sums_equal(a, b, facts, path, n):
    """a - b as sums over the same ranges whose summands cancel for every index."""
    groups = {}
    rest = {}
    for m, c in to_poly(sub(a, b)).items():
        ss = [x for x, e in m if x.op == "sum" and e == 1 and not tm.loose(x)]
        if not ss:
            rest[m] = c
            continue
        s = max(ss, key=lambda x: (tm._depth(x), x.id))
        k = mk_poly({tuple((x, e) for x, e in m if x is not s): c})
        groups.setdefault(s.args[1], []).append((k, s))
    if rest or not groups or len(groups) > 4:
        return False
    for size, terms in groups.items():
        i = fresh("s", int=True, lo=0, hi=size)
        body = tm.ZERO
        for k, s in terms:
            body = add(body, tm.mul(k, subst(s.args[2], {sym("%%%d" % s.args[0], int=True): i})))
        if not _eq(_underpath(body, path), tm.ZERO, facts, path, n):
            return False
    return True


def _gated(x):
    """Literal over a gated value: decided after its gates."""
    return x.op != "any" and any(y.op == "ite" and not tm.loose(y) for y in tm.subterms(x))


def _underpath(t, path):
    """Floors and absolute values which the literals on the path determine."""
    m = {}
    for x in tm.subterms(t):
        if x.op in ("lt0", "eq0"):
            y = _clear(x, path)
            if y is not x:
                m[x] = y
            continue
        if x.op != "fn" or x.args[0] not in ("floor", "abs"):
            continue
        if tm.loose(x):
            continue
        r = x.args[1]
        if x.args[0] == "abs":
            if _contradiction(path + [_raw_lt0(r)]):
                m[x] = r
            elif _contradiction(path + [_raw_lt0(neg(r))]):
                m[x] = neg(r)
            continue
        q = _denominator(r)
        if q is None or not tm.positive(q):
            continue
        p = tm.mul(r, q)
        for k in (0, -1, 1, -2, 2):
            d = sub(p, scale(q, k))
            e = sub(scale(q, k + 1), p)
            if _geq0(d, path) and _gt0(e, path):
                m[x] = num(k)
                break
    return subst(t, m) if m else t


def _clear(x, path):
    """Multiply a condition by denominators whose sign the path determines."""
    p = x.args[0]
    den = {}
    for mono, c in to_poly(p).items():
        for a, e in mono:
            if e < 0 and e.denominator == 1 and (a.op in ("rad", "sym") or a.op == "fn"):
                den[a] = max(den.get(a, 0), -e)
    if not den:
        return x
    changed = False
    for r, e in den.items():
        a = r.args[0] if r.op == "rad" else r
        if tm.loose(a):
            continue
        if _entails(path, b_not(lt0(neg(a)))):
            sign = 1
        elif _entails(path, b_not(lt0(a))):
            sign = -1
        elif x.op == "eq0" and b_not(tm.eq(a, ZERO)) in path:
            sign = 1
        else:
            continue
        p = scale(_times(p, r, e), sign ** int(e))
        changed = True
    if not changed:
        return x
    return lt0(p) if x.op == "lt0" else tm.eq(p, ZERO)


def _times(p, atom, k):
    """p * atom**k, cancelling negative powers before anything is expanded."""
    out = ZERO
    base = atom.args[0] if atom.op == "rad" else atom
    for mono, c in to_poly(p).items():
        e = k
        rest = []
        for a, x in mono:
            if a is atom:
                e += x
            else:
                rest.append((a, x))
        t = mk_poly({tuple(rest): c})
        if e > 0 and e.denominator == 1:
            for _ in range(int(e)):
                t = tm.mul(t, base)
        elif e != 0:
            t = tm.mul(t, mk_poly({((atom, e),): Fraction(1)}))
        out = add(out, t)
    return out


def _raw_lt0(p):
    return lt0(p)


def _geq0(p, path):
    return nonneg(p) or _entails(path, lt0(p))


def _gt0(p, path):
    return tm.positive(p) or _entails(path, b_not(lt0(neg(p))))


def _entails(path, negated):
    if negated is FALSE:
        return True
    if negated is TRUE:
        return False
    return _contradiction(path + [negated])


def _denominator(r):
    den = {}
    for mono, c in to_poly(r).items():
        for a, e in mono:
            if e < 0:
                if e.denominator != 1 or a.op == "rad":
                    return None
                den[a] = max(den.get(a, 0), -e)
    if not den:
        return ONE
    return mk_poly({tuple(sorted(den.items(), key=lambda z: z[0].id)): Fraction(1)})


# -------------------------------------------------------------- refutation
class Witness:
    def __init__(self, seed, env, a, b):
        self.seed, self.env, self.a, self.b = seed, env, a, b

    def __str__(self):
        e = ", ".join(
            "%s=%s" % (k, _short(v)) for k, v in sorted(self.env.items()) if not k.startswith("%") and "#" not in k
        )
        return "at {%s}: found %s, specified %s" % (e, _short(self.a), _short(self.b))


def _short(v):
    if isinstance(v, bool):
        return str(v)
    r = v.to_integral_value()
    if abs(v - r) < EPS:
        return str(int(r))
    return "%.6g" % float(v)


def names_of(t):
    return {x.args[0] for x in tm.subterms(t) if x.op in ("fn", "bfn")}


VOCAB = set()  # names introduced by the specifications


def _edges(ts):
    """Symbols solved from the conditions occurring in terms."""
    out = {}
    for t in ts:
        for x in list(_atoms(t, {}))[:200]:
            if x.op in ("lt0", "eq0"):
                d = to_poly(x.args[0])
                for m, c in d.items():
                    if len(m) == 1 and m[0][1] == 1 and m[0][0].op == "sym" and not m[0][0].args[0].startswith("%"):
                        y = m[0][0]
                        r = mk_poly({k: v for k, v in d.items() if k != m})
                        if y not in free(r):
                            out.setdefault((y.args[0], scale(r, -1 / c)), x.op == "lt0")
    return [(n, e, s) for (n, e), s in out.items()]


def differ(a, b, facts=(), tries=400, seed=1, fnval=None, maxsize=6, need=2, given=None, vocab=None):
    """A Witness that a and b differ under a valuation satisfying facts, or None.
    Returns (witness, samples_used, unknown_count)."""
    used = unk = 0
    found = []
    if vocab is not None:
        vocab = set(vocab) | VOCAB | names_of(b)
        for f in facts:
            vocab |= names_of(f)
    t0 = time.time()
    edges = None
    for k in range(tries):
        if time.time() - t0 > 40:
            return (found[0] if found else None), used, unk
        v = Val("%s.%d" % (seed, k), style=(0, 1, 2, 0, 1, 3)[k % 6], fnval=fnval, maxsize=maxsize, given=given, vocab=vocab)
        if k % 2 and k > 5:
            # on or next to where a condition changes
            if edges is None:
                edges = _edges((a, b))
            if edges:
                r = random.Random("edge%d" % k)
                for n, e, strict in r.sample(edges, min(len(edges), r.randint(1, 3))):
                    v.force.setdefault(n, (e, r.choice((D(0), D(-1), D(1))) if strict else D(0)))
        try:
            ok = True
            for f in facts:
                if not v.b(f):
                    ok = False
                    break
            if not ok:
                continue
            x = v.ev(a)
            y = v.ev(b)
        except BadSample:
            continue
        except Unknown:
            unk += 1
            continue
        except (ArithmeticError, ValueError, OverflowError):
            continue
        used += 1
        if isinstance(x, bool) or isinstance(y, bool):
            xb = x if isinstance(x, bool) else (None if _q(x) not in (0, 1) else _q(x) == 1)
            yb = y if isinstance(y, bool) else (None if _q(y) not in (0, 1) else _q(y) == 1)
            d = xb is not yb if (xb is None or yb is None) else xb != yb
        else:
            d = abs(x - y) > D(10) ** -9 * (1 + abs(x) + abs(y))
        if d:
            found.append(Witness(k, dict(v.env), x, y))
            if len(found) >= need:
                return found[0], used, unk
    return None, used, unk
