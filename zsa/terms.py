"""Value numbers.

Hash-consed terms in a normal form: numeric terms are Laurent polynomials with
rational coefficients over atoms (symbols, uninterpreted applications, gated
joins), Boolean terms are formulas over sign conditions of such polynomials.
Two program values with the same number are equal for every input.
"""
from fractions import Fraction as F
import math
import time

class TooBig(Exception):
    pass

_TAB = {}
_N = [0]
MAXTERMS = 4000


class T:
    __slots__ = ("op", "args", "id", "isb", "_fs", "_int")

    def __repr__(self):
        return show(self)

    def __lt__(self, o):
        return self.id < o.id


def mk(op, *args, isb=False):
    k = (op, args)
    t = _TAB.get(k)
    if t is None:
        t = T.__new__(T)
        t.op = op
        t.args = args
        t.isb = isb
        t._fs = None
        t._int = None
        _N[0] += 1
        t.id = _N[0]
        _TAB[k] = t
        if _N[0] & 1023 == 0 and DEADLINE[0] is not None and time.time() > DEADLINE[0]:
            raise TooBig("time limit")
    return t


DEADLINE = [None]


# ---------------------------------------------------------------- numbers
def rat(x):
    """A literal as a rational; floats that print like a simple fraction are it."""
    if isinstance(x, F):
        return x
    if isinstance(x, bool):
        return F(int(x))
    if isinstance(x, int):
        return F(x)
    f = F(repr(x)) if math.isfinite(x) else None
    if f is None:
        raise ValueError
    if f.denominator > 5000:
        g = f.limit_denominator(5000)
        if g != 0 and abs(f - g) <= abs(f) * F(1, 10**13):
            return g
    return f


def num(x):
    if isinstance(x, float) and not math.isfinite(x):
        return mk("sym", "nan" if x != x else ("inf" if x > 0 else "-inf"))
    return mk("num", rat(x))


ZERO = num(0)
ONE = num(1)
TRUE = mk("true", isb=True)
FALSE = mk("false", isb=True)

SYM = {}  # symbol facts: name -> dict(int=, lo=, hi=)


def sym(name, int=False, lo=None, hi=None):
    if int or lo is not None or hi is not None:
        d = SYM.setdefault(name, {})
        if int:
            d["int"] = True
        if lo is not None:
            d["lo"] = lo if isinstance(lo, T) else num(lo)
        if hi is not None:
            d["hi"] = hi if isinstance(hi, T) else num(hi)
    return mk("sym", name)


_fresh = [0]


def fresh(prefix, **kw):
    _fresh[0] += 1
    return sym("%s#%d" % (prefix, _fresh[0]), **kw)


PI = sym("pi")
SYM["pi"] = dict(lo=num(F(314159265, 10**8)), hi=num(F(314159266, 10**8)))


def is_num(t):
    return t.op == "num"


def numval(t):
    return t.args[0] if t.op == "num" else None


def to_poly(t):
    if t.isb:
        t = b2n(t)
    if t.op == "num":
        return {(): t.args[0]} if t.args[0] != 0 else {}
    if t.op == "poly":
        return dict(t.args[0])
    return {((t, F(1)),): F(1)}


def mk_poly(d):
    d = {m: c for m, c in d.items() if c != 0}
    if not d:
        return ZERO
    if len(d) > MAXTERMS:
        raise TooBig
    if len(d) == 1:
        (m, c), = d.items()
        if m == ():
            return num(c)
        if c == 1 and len(m) == 1 and m[0][1] == 1:
            return m[0][0]
    return mk("poly", tuple(sorted(d.items(), key=lambda mc: _mkey(mc[0]))))


def _mkey(m):
    return tuple((a.id, e) for a, e in m)


def b2n(b):
    if b is TRUE:
        return ONE
    if b is FALSE:
        return ZERO
    return mk("ite", b, ONE, ZERO)


def n2b(t):
    """Truth value of a term."""
    if t.isb:
        return t
    return b_not(eq0(t))


def add(*ts):
    d = {}
    for t in ts:
        for m, c in to_poly(t).items():
            d[m] = d.get(m, 0) + c
    return mk_poly(d)


def scale(t, c):
    return mk_poly({m: v * c for m, v in to_poly(t).items()})


def neg(t):
    return scale(t, F(-1))


def sub(a, b):
    return add(a, neg(b))


def _mono_mul(m1, m2):
    d = dict(m1)
    for a, e in m2:
        d[a] = d.get(a, F(0)) + e
    extra = []
    out = []
    for a, e in d.items():
        if e == 0:
            continue
        if a.op == "rad" and e >= 1:
            k = math.floor(e)
            extra.append((a.args[0], k))
            e = e - k
            if e == 0:
                continue
        out.append((a, e))
    out.sort(key=lambda x: x[0].id)
    return tuple(out), extra


def mul(a, b):
    p, q = to_poly(a), to_poly(b)
    if len(p) * len(q) > MAXTERMS * 4:
        raise TooBig
    d = {}
    ex = []
    for m1, c1 in p.items():
        for m2, c2 in q.items():
            m, extra = _mono_mul(m1, m2)
            if extra:
                ex.append((m, c1 * c2, extra))
            else:
                d[m] = d.get(m, 0) + c1 * c2
    r = mk_poly(d)
    for m, c, extra in ex:
        t = mk_poly({m: c})
        for base, k in extra:
            t = mul(t, ipow(base, k))
        r = add(r, t)
    return r


def ipow(t, n):
    if n < 0:
        return ipow(inv(t), -n)
    r = ONE
    for _ in range(n):
        r = mul(r, t)
    return r


def _content(d):
    """Positive rational content of a polynomial."""
    g = F(0)
    for c in d.values():
        c = abs(c)
        g = c if g == 0 else F(math.gcd(g.numerator * c.denominator, c.numerator * g.denominator), g.denominator * c.denominator)
    return g


def _lead(d):
    m = max(d, key=_mkey)
    return d[m]


def _monogcd(d):
    ms = list(d)
    g = dict(ms[0])
    for m in ms[1:]:
        md = dict(m)
        for a in list(g):
            if a not in md:
                # common factor exponent min with 0
                if g[a] > 0:
                    del g[a]
            else:
                g[a] = min(g[a], md[a])
        for a, e in md.items():
            if a not in g and e < 0:
                g[a] = e
    return tuple(sorted(((a, e) for a, e in g.items() if e != 0 and e.denominator == 1), key=lambda x: x[0].id))


def inv(t):
    p = to_poly(t)
    if not p:
        return mk("fn", "div0", ONE)
    if len(p) == 1:
        (m, c), = p.items()
        return _expand_mono(tuple((a, -e) for a, e in m), 1 / c)
    g = _content(p)
    if _lead(p) < 0:
        g = -g
    mg = _monogcd(p)
    minv = tuple((a, -e) for a, e in mg)
    q = {}
    for m, c in p.items():
        mm, extra = _mono_mul(m, minv)
        assert not extra or True
        q[mm] = c / g
    base = mk_poly(q)
    if base.op != "poly":
        return mul(inv(base), mk_poly({minv: 1 / g}))
    r = mk("rad", base)
    m, extra = _mono_mul(((r, F(-1)),), minv)
    return mk_poly({m: 1 / g})


def _expand_mono(m, c):
    mm, extra = _mono_mul(m, ())
    t = mk_poly({mm: c})
    for base, k in extra:
        t = mul(t, ipow(base, k))
    return t


def div(a, b):
    if b.op == "num" and b.args[0] == 0:
        return mk("fn", "div0", a)
    return mul(a, inv(b))


def _isqrt(fr):
    n, d = fr.numerator, fr.denominator
    if n < 0:
        return None
    a, b = math.isqrt(n), math.isqrt(d)
    if a * a == n and b * b == d:
        return F(a, b)
    return None


def sqrt(t):
    p = to_poly(t)
    if not p:
        return ZERO
    if len(p) == 1:
        (m, c), = p.items()
        s = _isqrt(c)
        if m == () and s is not None:
            return num(s)
        if len(m) == 1 and m[0][1] == 2 and s is not None:
            return scale(absv(m[0][0]), s)
    g = _content(p)
    s = _isqrt(g)
    if s is None:
        s, g = F(1), F(1)
    base = mk_poly({m: c / g for m, c in p.items()})
    return mk_poly({((mk("rad", base), F(1, 2)),): s})


def power(a, b):
    n = numval(b)
    if n is not None:
        if n.denominator == 1 and abs(n) <= 12:
            if n > 1 and a.op == "poly" and len(to_poly(a)) > 12:
                return mk("fn", "pow", a, b)  # not expanded
            return ipow(a, int(n))
        if n.denominator == 2 and abs(n) <= 6:
            r = ipow(sqrt(a), abs(n.numerator))
            return r if n > 0 else inv(r)
    return mk("fn", "pow", a, b)


# --------------------------------------------------- provable sign by bounds
_NN = {}


def nonneg(p, depth=7):
    """True if p >= 0 follows from the bounds of the symbols in it (linear
    substitution of the least favourable bound); False means unknown."""
    if p.isb:
        return True
    if p.op == "num":
        return p.args[0] >= 0
    k = (p, depth)
    r = _NN.get(k)
    if r is None:
        _NN[k] = False
        r = _NN[k] = _nonneg(p, depth)
    return r


def _atom_nonneg(a, depth):
    if a.op == "sym":
        lo = SYM.get(a.args[0], {}).get("lo")
        return lo is not None and (lo.op == "num" and lo.args[0] >= 0 or (lo.op != "num" and depth > 0 and nonneg(lo, depth - 1)))
    if a.op == "fn" and a.args[0] in ("abs", "len", "size"):
        return True
    if a.op == "fn" and a.args[0] in NONNEGFN:
        return True
    if a.op == "rad":
        return False
    if a.op == "ite":
        return depth > 0 and nonneg(a.args[1], depth - 1) and nonneg(a.args[2], depth - 1)
    if a.op == "sum":
        return depth > 0 and nonneg(a.args[2], depth + 1)
    if a.op == "fn" and a.args[0] == "floor":
        return depth > 0 and nonneg(a.args[1], depth - 1)
    return False


NONNEGFN = set()
INJFN = set()  # uninterpreted functions which are one-to-one


def _nonneg(p, depth):
    d = to_poly(p)
    # every monomial nonnegative
    ok = True
    for m, c in d.items():
        if c < 0:
            ok = False
            break
        for a, e in m:
            if e.denominator == 1 and e.numerator % 2 == 0:
                continue
            if a.op == "rad" and e == F(1, 2):
                continue
            if not _atom_nonneg(a, depth - 1):
                ok = False
                break
        if not ok:
            break
    if ok:
        return True
    if depth <= 0 or len(d) > 40:
        return False
    cand = []
    for m in d:
        for a, e in m:
            if a.op == "sym" and a.args[0] in SYM and a not in cand:
                cand.append(a)
            elif a.op == "fn" and a.args[0] in ("floor", "splitoff", "splitchunk") and a not in cand:
                cand.append(a)
    # symbols whose bounds mention other symbols first
    def rank(a):
        if a.op != "sym":
            return 0
        f = SYM[a.args[0]]
        h = f.get("hi")
        return 1 if h is not None and h.op != "num" else 2

    cand.sort(key=lambda a: (rank(a), -a.id))
    for a in cand[:5]:
        A, B = {}, {}
        bad = False
        for m, c in d.items():
            es = [e for b, e in m if b is a]
            if not es:
                if any(a in subterms(b) for b, e in m):
                    bad = True
                    break
                B[m] = c
            elif es[0] == 1:
                A[tuple((b, e) for b, e in m if b is not a)] = c
            else:
                bad = True
                break
        if bad:
            continue
        A, B = mk_poly(A), mk_poly(B)
        if a.op == "sym":
            f = SYM[a.args[0]]
            lo, hi = f.get("lo"), f.get("hi")
            if hi is not None and f.get("int"):
                hi = sub(hi, ONE)
        elif a.args[0] == "floor":
            x = a.args[1]
            lo, hi = sub(x, ONE), x  # strictly above x-1
        elif a.args[0] == "splitoff":
            lo, hi = ZERO, a.args[1]
        else:
            lo, hi = ZERO, sub(a.args[2], ONE)
        if lo is not None and nonneg(A, depth - 2):
            if nonneg(add(mul(A, lo), B), depth - 1):
                return True
        if hi is not None and nonneg(neg(A), depth - 2):
            if nonneg(add(mul(A, hi), B), depth - 1):
                return True
    return False


def positive(p, depth=7):
    """p > 0 provable."""
    if p.op == "num":
        return p.args[0] > 0
    if is_int(p):
        return nonneg(sub(p, ONE), depth)
    L = math.lcm(*[c.denominator for c in to_poly(p).values()])
    if L != 1 and is_int(scale(p, F(L))):
        return nonneg(sub(scale(p, F(L)), ONE), depth)
    if nonneg(p, depth):
        d = to_poly(p)
        if len(d) == 1:
            (m, c), = d.items()
            return c > 0 and all(_atom_pos(a) for a, e in m)
        k = d.get((), 0)
        if k > 0 and nonneg(sub(p, num(k)), depth):
            return True
        for m, c in d.items():
            if c > 0 and m and all(_atom_pos(a) for a, e in m) and nonneg(sub(p, mk_poly({m: c})), depth):
                return True
    return False


def _atom_pos(a):
    if a.op == "sym":
        lo = SYM.get(a.args[0], {}).get("lo")
        return lo is not None and (lo.op == "num" and lo.args[0] > 0 or lo.op != "num" and positive(lo, 3)) or bool(SYM.get(a.args[0], {}).get("pos"))
    return False


# ------------------------------------------------- interpreted functions
INTFN = {"floor", "trunc", "round", "len", "argmin", "argmax", "count", "ceil", "shape"}


def is_int(t):
    if t._int is None:
        t._int = _is_int(t)
    return t._int


def _is_int(t):
    if t.isb:
        return True
    if t.op == "num":
        return t.args[0].denominator == 1
    if t.op == "sym":
        return bool(SYM.get(t.args[0], {}).get("int"))
    if t.op == "ite":
        return is_int(t.args[1]) and is_int(t.args[2])
    if t.op == "fn":
        return t.args[0] in INTFN or t.args[0] in INTARR
    if t.op == "sum":
        return is_int(t.args[2])
    if t.op == "poly":
        return all(
            c.denominator == 1 and all(e > 0 and e.denominator == 1 and is_int(a) for a, e in m)
            for m, c in t.args[0]
        )
    return False


INTARR = set()  # names of uninterpreted integer-valued array selections


def absv(t):
    if t.op == "num":
        return num(abs(t.args[0]))
    if t.op == "fn" and t.args[0] == "abs":
        return t
    p = to_poly(t)
    if _lead(p) < 0:
        t = neg(t)
        p = to_poly(t)
    if len(p) == 1:
        (m, c), = p.items()
        if c != 1:
            return scale(absv(mk_poly({m: F(1)})), abs(c))
    return mk("fn", "abs", t)


def floor(t):
    if t.op == "num":
        return num(math.floor(t.args[0]))
    if is_int(t):
        return t
    if t.op == "ite":
        return ite(t.args[0], floor(t.args[1]), floor(t.args[2]))
    p = to_poly(t)
    ip = {}
    rp = {}
    for m, c in p.items():
        if m == ():
            k = math.floor(c)
            if k:
                ip[m] = F(k)
            if c != k:
                rp[m] = c - k
        elif c.denominator == 1 and is_int(mk_poly({m: F(1)})):
            ip[m] = c
        elif is_int(mk_poly({m: F(1)})) and abs(c) >= 1:
            k = F(math.floor(c))
            ip[m] = k
            rp[m] = c - k
        else:
            rp[m] = c
    r = mk_poly(rp)
    if not rp:
        return mk_poly(ip)
    # floor(n / b) with 0 <= n < b
    fr = mk("fn", "floor", r) if r.op != "num" else num(math.floor(r.args[0]))
    if r.op != "num" and _unit_fraction(r):
        fr = ZERO
    return add(mk_poly(ip), fr)


def _unit_fraction(r):
    """0 <= r < 1 provable, after clearing a common monomial denominator."""
    d = to_poly(r)
    den = {}
    for m, c in d.items():
        for a, e in m:
            if e < 0 and e.denominator == 1 and a.op != "rad":
                den[a] = max(den.get(a, 0), -e)
            elif e < 0:
                return False
    dm = mk_poly({tuple(sorted(den.items(), key=lambda x: x[0].id)): F(1)}) if den else ONE
    if den and not positive(dm):
        return False
    n = mul(r, dm)
    return nonneg(n) and positive(sub(dm, n))


def trunc(t):
    if t.isb:
        return b2n(t)
    if t.op == "num":
        return num(math.trunc(t.args[0]))
    if is_int(t):
        return t
    if t.op == "ite":
        return ite(t.args[0], trunc(t.args[1]), trunc(t.args[2]))
    return ite(lt0(t), neg(floor(neg(t))), floor(t))


def mod(a, b):
    if a.op == "num" and b.op == "num" and b.args[0] != 0:
        return num(a.args[0] - b.args[0] * math.floor(a.args[0] / b.args[0]))
    # idempotence: (x - b*floor(x/b)) mod b
    return sub(a, mul(b, floor(div(a, b))))


def _quarter(t):
    """t = k*pi/2 + rest with 0 <= coefficient of pi in rest < 1/2."""
    p = to_poly(t)
    key = ((PI, F(1)),)
    c = p.get(key)
    if c is None:
        return 0, t
    k = math.floor(2 * c)
    if k == 0:
        return 0, t
    return k % 4, sub(t, scale(PI, F(k, 2)))


def _atan2(t):
    return t.args[1:] if t.op == "fn" and t.args[0] == "atan2" and len(t.args) == 3 else None


def cosv(t):
    k, t = _quarter(t)
    if k:
        return (None, lambda x: neg(sinv(x)), lambda x: neg(cosv(x)), sinv)[k](t)
    p = to_poly(t)
    if t.op == "num" and t.args[0] == 0:
        return ONE
    if p and _lead(p) < 0:
        t2 = neg(t)
        k, r = _quarter(t2)
        if k:
            return cosv(t2)
        t = t2
    a = _atan2(t)
    if a:
        return div(a[1], sqrt(add(mul(a[0], a[0]), mul(a[1], a[1]))))
    return mk("fn", "cos", t)


def sinv(t):
    k, t = _quarter(t)
    if k:
        return (None, cosv, lambda x: neg(sinv(x)), lambda x: neg(cosv(x)))[k](t)
    p = to_poly(t)
    if not p:
        return ZERO
    if _lead(p) < 0:
        return neg(sinv(neg(t)))
    a = _atan2(t)
    if a:
        return div(a[0], sqrt(add(mul(a[0], a[0]), mul(a[1], a[1]))))
    return mk("fn", "sin", t)


def ite(c, a, b):
    if c is TRUE:
        return a
    if c is FALSE:
        return b
    if a is b:
        return a
    if a.isb and b.isb:
        return b_or(b_and(c, a), b_and(b_not(c), b))
    if a.isb:
        a = b2n(a)
    if b.isb:
        b = b2n(b)
    if a is b:
        return a
    if c.op == "not":
        return ite(c.args[0], b, a)
    if a is ZERO and c.op in ("and", "or"):
        n = b_not(c)
        if n.op != "not":
            return mk("ite", n, b, a)
    return mk("ite", c, a, b)


def minv(a, b):
    if a.op == "num" and b.op == "num":
        return num(min(a.args[0], b.args[0]))
    return ite(lt(b, a), b, a)


def maxv(a, b):
    if a.op == "num" and b.op == "num":
        return num(max(a.args[0], b.args[0]))
    return ite(lt(a, b), b, a)


def fn(name, *args):
    """Build an application through its smart constructor."""
    h = SMART.get(name)
    if h is not None:
        return h(*args)
    return mk("fn", name, *args)


def bfn(name, *args):
    h = BSMART.get(name)
    if h is not None:
        r = h(*args)
        if r is not None:
            return r
    return mk("bfn", name, *args, isb=True)


SMART = dict(abs=absv, floor=floor, trunc=trunc, cos=cosv, sin=sinv, pow=power)
BSMART = {}


def _nlog(t):
    if t.op == "num" and t.args[0] == 1:
        return ZERO
    return mk("fn", "log", t)


SMART["log"] = _nlog


# ---------------------------------------------------------------- booleans
def _normsign(p):
    """Positive content scaled out."""
    d = to_poly(p)
    g = _content(d)
    if g not in (0, 1):
        p = mk_poly({m: c / g for m, c in d.items()})
    return p


def lt0(p):
    if p.isb:
        p = b2n(p)
    if p.op == "num":
        return TRUE if p.args[0] < 0 else FALSE
    if nonneg(p):
        return FALSE
    if positive(neg(p)):
        return TRUE
    if p.op == "ite":
        return ite(p.args[0], lt0(p.args[1]), lt0(p.args[2]))
    if is_int(p):
        d = to_poly(p)
        k = d.pop((), F(0))
        g = _content(d)
        lead_neg = _lead(d) < 0
        # q*g + k < 0  <=>  q < -k/g  <=> q <= ceil(-k/g)-1 <=> q - ceil(-k/g) < 0
        q = mk_poly({m: c / g for m, c in d.items()})
        th = F(math.ceil(-k / g))
        if lead_neg:
            # q < th  <=> not (q >= th) <=> not(-q <= -th) <=> not(-q + th - 1 < 0)
            return b_not(mk("lt0", add(neg(q), num(th - 1)), isb=True))
        return mk("lt0", sub(q, num(th)), isb=True)
    return mk("lt0", _normsign(p), isb=True)


def eq0(p):
    if p.isb:
        return b_not(p)
    if p.op == "num":
        return TRUE if p.args[0] == 0 else FALSE
    if p.op == "ite":
        return ite(p.args[0], eq0(p.args[1]), eq0(p.args[2]))
    d = to_poly(p)
    if len(d) == 1:
        (m, c), = d.items()
        # product of atoms with positive exponents is zero iff a factor is
        if m and all(e > 0 for a, e in m):
            return b_or(*[mk("eq0", a, isb=True) if a.op != "ite" else eq0(a) for a, e in m if not _atom_pos(a)])
    if INJFN and len(d) == 2:
        (m1, c1), (m2, c2) = d.items()
        if c1 == -c2 and len(m1) == len(m2) == 1 and m1[0][1] == m2[0][1] == 1:
            a, b = m1[0][0], m2[0][0]
            if a.op == "fn" and b.op == "fn" and a.args[0] in INJFN and a.args[0] == b.args[0]:
                return b_and(*[eq(x, y) for x, y in zip(a.args[1:], b.args[1:])])
    if _lead(d) < 0:
        p = neg(p)
    p = _normsign(p)
    if is_int(p):
        dd = to_poly(p)
        k = dd.pop((), F(0))
        if k:
            g = _content(dd)
            if (k / g).denominator != 1:
                return FALSE
    if positive(p) or positive(neg(p)):
        return FALSE
    return mk("eq0", p, isb=True)


def lt(a, b):
    return lt0(sub(a, b))


def le(a, b):
    return b_not(lt0(sub(b, a)))


def eq(a, b):
    if a.isb and b.isb:
        return b_or(b_and(a, b), b_and(b_not(a), b_not(b)))
    return eq0(sub(a, b))


def b_not(a):
    if a is TRUE:
        return FALSE
    if a is FALSE:
        return TRUE
    if a.op == "not":
        return a.args[0]
    if a.op == "and":
        return b_or(*[b_not(x) for x in a.args])
    if a.op == "or":
        return b_and(*[b_not(x) for x in a.args])
    return mk("not", a, isb=True)


def _flat(op, xs, unit, zero):
    s = []
    seen = set()
    for x in xs:
        if x is unit:
            continue
        if x is zero:
            return None
        for y in x.args if x.op == op else (x,):
            if y not in seen:
                seen.add(y)
                s.append(y)
    for y in s:
        if b_not(y) in seen:
            return None
    # absorption: p or (not p and q) is p or q, p or (p and q) is p (and dually)
    dual = "and" if op == "or" else "or"
    if len(s) > 1 and any(y.op == dual for y in s):
        out = []
        for k, y in enumerate(s):
            if y.op == dual:
                if any(a in seen for a in y.args):
                    continue
                keep = [a for a in y.args if b_not(a) not in seen]
                if len(keep) < len(y.args):
                    return _flat(op, out + s[k + 1:] + [(b_and if dual == "and" else b_or)(*keep)], unit, zero)
            out.append(y)
        s = out
    return s


def b_and(*xs):
    xs = [n2b(x) for x in xs]
    s = _flat("and", xs, TRUE, FALSE)
    if s is None:
        return FALSE
    if not s:
        return TRUE
    if len(s) == 1:
        return s[0]
    return mk("and", *sorted(s), isb=True)


def b_or(*xs):
    xs = [n2b(x) for x in xs]
    s = _flat("or", xs, FALSE, TRUE)
    if s is None:
        return TRUE
    if not s:
        return FALSE
    if len(s) == 1:
        return s[0]
    return mk("or", *sorted(s), isb=True)


def b_xor(a, b):
    return b_or(b_and(a, b_not(b)), b_and(b_not(a), b))


# ---------------------------------------------------------- sums, any, all
UNROLL = [10]  # sums up to this length are written out


def mk_sum(i, lo, hi, body):
    """sum_{i=lo}^{hi-1} body, with factors that do not depend on i pulled out."""
    if body.isb:
        body = b2n(body)
    l, h = numval(lo), numval(hi)
    if l is not None and h is not None and h - l <= UNROLL[0]:
        r = ZERO
        k = l
        while k < h:
            r = add(r, subst(body, {i: num(k)}))
            k += 1
        return r
    r = ZERO
    for m, c in to_poly(body).items():
        out = tuple((a, e) for a, e in m if i not in free(a))
        inn = tuple((a, e) for a, e in m if i in free(a))
        if not inn:
            r = add(r, mul(mk_poly({m: c}), sub(hi, lo)))
            continue
        b = mk_poly({inn: F(1)})
        if b.op == "ite" and b.args[2] is not ZERO:
            d = sub(b.args[1], b.args[2])
            if d.op == "num":
                s = add(mk_sum(i, lo, hi, b.args[2]), scale(mk_sum(i, lo, hi, ite(b.args[0], ONE, ZERO)), numval(d)))
                r = add(r, mul(mk_poly({out: c}), s))
                continue
        # normalise the range to start at zero
        if numval(lo) != 0:
            b = subst(b, {i: add(i, lo)})
        r = add(r, mul(mk_poly({out: c}), _bind("sum", i, sub(hi, lo), b)))
    return r


def _depth(t):
    d = 0
    stack = [t]
    seen = set()
    while stack:
        x = stack.pop()
        if not isinstance(x, T) or x in seen:
            continue
        seen.add(x)
        if x.op in ("sum", "any", "arr"):
            d = max(d, x.args[0] if x.op != "arr" else x.args[0])
        for y in _children(x):
            stack.append(y)
    return d


def _bind(op, i, n, body, isb=False):
    lev = _depth(body) + 1
    v = sym("%%%d" % lev, int=True)
    return mk(op, lev, n, subst(body, {i: v}), isb=isb)


def mk_any(i, lo, hi, body):
    if body is FALSE:
        return FALSE
    l, h = numval(lo), numval(hi)
    if l is not None and h is not None and h - l <= 10:
        r = FALSE
        k = l
        while k < h:
            r = b_or(r, subst(body, {i: num(k)}))
            k += 1
        return r
    if i not in free(body):
        return b_and(lt(lo, hi), body)
    if body.op == "ite":
        body = b_or(b_and(body.args[0], body.args[1]), b_and(b_not(body.args[0]), body.args[2]))
    if body.op == "or":
        return b_or(*[mk_any(i, lo, hi, x) for x in body.args])
    if body.op == "and":
        o = [x for x in body.args if i not in free(x)]
        inn = [x for x in body.args if i in free(x)]
        if o:
            return b_and(*o, mk_any(i, lo, hi, b_and(*inn)))
    if numval(lo) != 0:
        body = subst(body, {i: add(i, lo)})
    return _bind("any", i, sub(hi, lo), body, isb=True)


def mk_all(i, lo, hi, body):
    return b_not(mk_any(i, lo, hi, b_not(body)))


# -------------------------------------------------------------- traversal
def _children(t):
    if t.op == "poly":
        for m, c in t.args[0]:
            for a, e in m:
                yield a
        return
    for a in t.args:
        if isinstance(a, T):
            yield a
        elif isinstance(a, tuple):
            for b in a:
                if isinstance(b, T):
                    yield b


def free(t):
    """All symbols occurring in t (bound placeholders included)."""
    if t._fs is None:
        if t.op == "sym":
            t._fs = frozenset([t])
        else:
            s = set()
            for c in _children(t):
                s |= free(c)
            t._fs = frozenset(s)
    return t._fs


_LOOSE = {}
_NOLOOSE = frozenset()


def loose(t):
    """Bound placeholders occurring in t outside their binder."""
    r = _LOOSE.get(t)
    if r is None:
        if not any(s.args[0][0] == "%" for s in free(t)):
            r = _NOLOOSE
        elif t.op == "sym":
            r = frozenset([t.args[0]])
        else:
            s = set()
            if t.op in ("sum", "any"):
                s = set(loose(t.args[2]))
                s.discard("%%%d" % t.args[0])
                s |= loose(t.args[1])
            elif t.op == "arr":
                s = set(loose(t.args[2]))
                for k in range(len(t.args[1])):
                    s.discard("%%%d" % (t.args[0] - k))
                for c in t.args[1]:
                    s |= loose(c)
            else:
                for c in _children(t):
                    s |= loose(c)
            r = frozenset(s)
        _LOOSE[t] = r
    return r


def subterms(t, out=None):
    if out is None:
        out = {}
    st = [t]
    while st:
        x = st.pop()
        if x in out:
            continue
        out[x] = 1
        st.extend(_children(x))
    return out


def rebuild(t, f):
    """Rebuild t from transformed children through the smart constructors."""
    op = t.op
    if op in ("num", "sym", "true", "false"):
        return t
    if op == "poly":
        parts = []
        dirty = False
        cache = {}
        for m, c in t.args[0]:
            for a, e in m:
                if a not in cache:
                    b = f(a)
                    cache[a] = b
                    if b is not a:
                        dirty = True
        if not dirty:
            return t
        r = {}
        rest = []
        for m, c in t.args[0]:
            if all(cache[a] is a for a, e in m):
                r[m] = c
            else:
                x = num(c)
                for a, e in m:
                    b = cache[a]
                    if e.denominator == 1:
                        x = mul(x, ipow(b, int(e)))
                    else:
                        x = mul(x, _fpow(b, e))
                rest.append(x)
        return add(mk_poly(r), *rest)
    if op == "rad":
        b = f(t.args[0])
        if b is t.args[0]:
            return t
        return mk("radv", b)
    if op == "ite":
        c = f(t.args[0])
        if c is TRUE:
            return f(t.args[1])
        if c is FALSE:
            return f(t.args[2])
        return ite(c, f(t.args[1]), f(t.args[2]))
    if op == "not":
        return b_not(f(t.args[0]))
    if op == "and":
        return b_and(*[f(x) for x in t.args])
    if op == "or":
        return b_or(*[f(x) for x in t.args])
    if op == "lt0":
        return lt0(f(t.args[0]))
    if op == "eq0":
        return eq0(f(t.args[0]))
    if op in ("sum", "any"):
        n, b = f(t.args[1]), f(t.args[2])
        if n is t.args[1] and b is t.args[2]:
            return t
        v = sym("%%%d" % t.args[0], int=True)
        tmp = fresh("b", int=True, lo=0, hi=n)
        b = subst(b, {v: tmp}) if v in free(b) else b
        return (mk_sum if op == "sum" else mk_any)(tmp, ZERO, n, b)
    if op == "fn" or op == "bfn":
        a = tuple(f(x) if isinstance(x, T) else x for x in t.args[1:])
        if a == t.args[1:]:
            return t
        return fn(t.args[0], *a) if op == "fn" else bfn(t.args[0], *a)
    if op == "arr":
        sh = tuple(f(x) for x in t.args[1])
        b = f(t.args[2])
        if sh == t.args[1] and b is t.args[2]:
            return t
        return mk("arr", t.args[0], sh, b)
    raise AssertionError(op)


def _fpow(b, e):
    """b is a transformed 'rad' (marked radv) or another atom, e a fraction."""
    base = b.args[0] if b.op in ("radv", "rad") else b
    if e.denominator == 2:
        r = ipow(sqrt(base), abs(e.numerator))
        return r if e > 0 else inv(r)
    return mk("fn", "pow", base, num(e))


def subst(t, m):
    if not m:
        return t
    keys = frozenset(m)
    memo = {}
    symkeys = all(k.op == "sym" for k in keys)

    def go(x):
        r = memo.get(x)
        if r is not None:
            return r
        if x in m:
            r = m[x]
        elif symkeys and not (free(x) & keys):
            r = x
        else:
            r = rebuild(x, go)
        memo[x] = r
        return r

    return _fixrad(go(t))


def map_named(t, names, f):
    """Replace every symbol and application named in names by f(it), with bound
    variables opened so that f sees ordinary symbols."""
    memo = {}
    occurs = {}

    def occ(x):
        r = occurs.get(x)
        if r is None:
            if x.op in ("sym", "fn", "bfn") and x.args[0] in names:
                r = True
            else:
                r = any(occ(c) for c in _children(x))
            occurs[x] = r
        return r

    def go(x):
        if not occ(x):
            return x
        r = memo.get(x)
        if r is not None:
            return r
        if x.op in ("sym", "fn", "bfn") and x.args[0] in names:
            if x.op != "sym":
                x = mk(x.op, x.args[0], *[go(a) if isinstance(a, T) else a for a in x.args[1:]], isb=x.isb)
            r = f(x)
        elif x.op in ("sum", "any") and not loose(x.args[1]):
            n = go(x.args[1])
            v = sym("%%%d" % x.args[0], int=True)
            tmp = fresh("b", int=True, lo=0, hi=n)
            b = map_named(subst(x.args[2], {v: tmp}), names, f)
            r = (mk_sum if x.op == "sum" else mk_any)(tmp, ZERO, n, b)
        elif x.op == "arr":
            sh = tuple(go(q) for q in x.args[1])
            vs = [sym("%%%d" % (x.args[0] - len(sh) + 1 + k), int=True) for k in range(len(sh))]
            tmp = [fresh("b", int=True, lo=0, hi=n) for n in sh]
            b = map_named(subst(x.args[2], dict(zip(vs, tmp))), names, f)
            lev = _depth(b)
            for q in tmp:
                lev += 1
                b = subst(b, {q: sym("%%%d" % lev, int=True)})
            r = mk("arr", lev, sh, b)
        else:
            r = rebuild(x, go)
        memo[x] = r
        return r

    return _fixrad(go(t))


def _fixrad(t):
    return t


# a 'rad' atom with exponent -1 appears in polynomials; rebuild() turns it into
# ipow(radv(base), -1), which must become inv(base)
_old_ipow = ipow


def ipow(t, n):  # noqa: F811
    if t.op == "radv":
        return _old_ipow(t.args[0], n)
    return _old_ipow(t, n)


# --------------------------------------------------------------- zero test
def is_zero(t):
    """Is the Laurent polynomial identically zero (over independent atoms)?"""
    for _ in range(12):
        d = to_poly(t)
        if not d:
            return True
        worst = None
        for m in d:
            for a, e in m:
                if a.op == "rad" and e < 0:
                    if worst is None or e < worst[1] or True:
                        worst = (a, e) if worst is None or (a is worst[0] and e < worst[1]) else worst
        if worst is None:
            return False
        a = worst[0]
        k = max(math.ceil(-e) for m in d for b, e in m if b is a)
        t = mul(t, _radpow(a, k))
    return False


def _radpow(a, k):
    return mk_poly({((a, F(k)),): F(1)}) if False else _RawPow(a, k)


def _RawPow(a, k):
    # multiply by rad(a)^k: handled by _mono_mul's exponent arithmetic
    t = T.__new__(T)
    t.op = "poly"
    t.args = ((((((a, F(k)),), F(1)),)),)
    t.args = (tuple([(((a, F(k)),), F(1))]),)
    t.isb = False
    t._fs = None
    t._int = None
    t.id = -1
    return t


def same(a, b):
    if a is b:
        return True
    if a.isb != b.isb:
        return False
    if a.isb:
        return False
    try:
        return is_zero(sub(a, b))
    except TooBig:
        return False


# ------------------------------------------------------------------- show
def show(t, d=0):
    if d > 14:
        return "…"
    o = t.op
    if o == "num":
        return str(t.args[0])
    if o == "sym":
        return t.args[0]
    if o == "true":
        return "True"
    if o == "false":
        return "False"
    if o == "poly":
        out = []
        for m, c in t.args[0][:14]:
            fs = []
            for a, e in m:
                s = show(a, d + 1)
                if e != 1:
                    s = "%s^%s" % (s, e)
                fs.append(s)
            if not fs:
                fs = [str(c)]
            elif c == -1:
                fs[0] = "-" + fs[0]
            elif c != 1:
                fs.insert(0, str(c))
            out.append("*".join(fs))
        if len(t.args[0]) > 14:
            out.append("…")
        return "(" + " + ".join(out) + ")"
    if o in ("rad", "radv"):
        return "{" + show(t.args[0], d + 1) + "}"
    if o == "ite":
        return "(%s if %s else %s)" % (show(t.args[1], d + 1), show(t.args[0], d + 1), show(t.args[2], d + 1))
    if o == "not":
        return "not " + show(t.args[0], d + 1)
    if o in ("and", "or"):
        return "(" + (" %s " % o).join(show(x, d + 1) for x in t.args) + ")"
    if o == "lt0":
        return show(t.args[0], d + 1) + "<0"
    if o == "eq0":
        return show(t.args[0], d + 1) + "==0"
    if o in ("fn", "bfn"):
        return "%s(%s)" % (t.args[0], ", ".join(show(x, d + 1) if isinstance(x, T) else str(x) for x in t.args[1:]))
    if o in ("sum", "any"):
        return "%s[%%%d<%s](%s)" % (o, t.args[0], show(t.args[1], d + 1), show(t.args[2], d + 1))
    if o == "arr":
        return "arr[%s](%s)" % (",".join(show(x, d + 1) for x in t.args[1]), show(t.args[2], d + 1))
    return o
