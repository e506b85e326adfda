"""C15: output names."""
from fractions import Fraction

from zsa.terms import *
from zsa import terms as tm
from zsa.values import *
from zsa.std import *

MOD = "zoidberg.zoidberg"
EXPLANATION = (
    "parallel_slice_field_name is analysed for every field name the map writer uses (and others) and all offsets up to 12 in "
    "magnitude, and update_metric_names for a dictionary with every metric component in all y locations and with other "
    "names; the resulting strings are compared with the specified ones and checked for collisions."
)
FIELDS = ["R", "Z", "xt_prime", "zt_prime", "xt_primes", "zt_primes", "g_22", "g22", "g_yy", "dy", "B", "J", "Bxy", "R_1", "g_22_cell_ylow", "x"]


def run(ck):
    ck.group("parallel_slice_field_name", lambda: names(ck))
    for old in (0, 1):
        ck.group("update_metric_names", lambda: metric(ck, old))


def want(field, off):
    if abs(off) < 1:
        return field + ("_cell_yhigh" if off > 0 else "_cell_ylow")
    n = abs(off)
    return ("forward_" if off > 0 else "backward_") + field + ("_%d" % n if n > 1 else "")


def names(ck):
    I = ck.interp()
    f = ck.anchor(I, MOD, "parallel_slice_field_name")
    ck.where = ck.location(MOD, "parallel_slice_field_name")
    offs = [s * n for n in [Fraction(1, 2)] + list(range(1, 13)) for s in (1, -1)]
    seen = {}
    for fl in FIELDS:
        for o in offs:
            r = I.res(I.call(f, [fl, num(o)], {}))
            lab = "name of %s at offset %s" % (fl, float(o))
            if not isinstance(r, str):
                ck.unknown(lab, "name not understood")
                continue
            if r != want(fl, o):
                ck.violated(lab, ck.where, "name is %r, specified %r" % (r, want(fl, o)))
                return
            ck.passed(lab)
            if fl != "R_1" and fl != "g_22_cell_ylow":
                if r in seen:
                    ck.violated("distinct names", ck.where, "%r for %s and %s" % (r, seen[r], (fl, o)))
                seen[r] = (fl, o)
    ck.count("names", len(seen))


POST = ("", "_cell_ylow", "_cell_yhigh")
NEW = {"g_yy": "g_22", "gyy": "g22", "gxx": "g11", "gxz": "g13", "gzz": "g33", "g_xx": "g_11", "g_xz": "g_13", "g_zz": "g_33"}
OTHER = ["dx", "dy", "dz", "B", "Bxy", "pressure", "Rxy", "Zxy", "J", "Ly", "Ly_cell_ylow", "g_yy_old", "g_yy_correct", "gyy_x", "psi", "G1", "R", "Z", "x", "y", "z"]


def metric(ck, rev):
    I = ck.interp()
    f = ck.anchor(I, MOD, "update_metric_names")
    ck.where = ck.location(MOD, "update_metric_names")
    names = [k + p for k in NEW for p in POST] + OTHER
    if rev:
        names = names[::-1]
    d = I.new(Dct({k: sym("value of " + k) for k in names}))
    r = I.call(f, [d], {})
    got = I.S.heap[I.res(r).loc].d
    spec = {}
    for k in names:
        base = next((b for b in NEW for p in POST if b + p == k), None)
        spec[k if base is None else NEW[base] + k[len(base):]] = sym("value of " + k)
    for k in sorted(set(spec) | set(got)):
        if k not in got:
            ck.violated("component " + k, ck.where, "missing")
        elif k not in spec:
            ck.violated("component " + k, ck.where, "unexpected name, holds %s" % show(I.scalar(got[k])))
        else:
            ck.eq("component " + k, I.scalar(got[k]), spec[k])
