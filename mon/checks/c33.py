"""C33: the series helpers return the Taylor polynomials of their functions.

Exact rational coefficients (from recurrences independent of the tables in gpkit) judge
every term of the returned expressions, and exact values judge compound arguments.
"""
import math
from fractions import Fraction
import numpy as np
from ..core import Violation, Skip
from .. import alg

PROP = "C33"
RULE = ("a case is a helper, a number of terms and an argument (scalar or array variable, "
        "monomial, posynomial, number; plain, angle or ratio units); identified by all three")
TECH = "monitor on returned polynomials against exact rational series, term by term"
NOTE = ("coefficients are judged to 1e-12 relative; orders up to 25 (tangent to its "
        "documented 15) quick, 60 thorough")


def _zigzag(n):
    "the first n+1 up/down numbers, by the boustrophedon rule"
    out, row = [1], [1]
    for _ in range(n):
        new = [0]
        for v in reversed(row):
            new.append(new[-1] + v)
        row = new
        out.append(row[-1])
    return out


def series(which, n):
    "exact [(power, coefficient)], with n non-constant terms"
    if which == "exp":
        return [(i, Fraction(1, math.factorial(i))) for i in range(1, n+1)]
    z = _zigzag(2*n + 1)
    if which == "sec":
        return [(2*i, Fraction(z[2*i], math.factorial(2*i))) for i in range(n+1)]
    return [(2*i-1, Fraction(z[2*i-1], math.factorial(2*i-1))) for i in range(1, n+1)]


FACTOR = {"degree": math.pi/180, "rad": 1.0, "percent": .01, "ft/m": .3048, "m/km": 1e-3}
LIMIT = {"exp": 170, "sec": 60, "tan": 15}


def helper(which):
    from gpkit.tools import tools
    return {"exp": tools.te_exp_minus1, "sec": tools.te_secant, "tan": tools.te_tangent}[which]


def order(rng, which):
    return min(rng.choice([0, 1, 2, 3, rng.randint(0, 8), rng.randint(0, 14),
                           rng.randint(8, 25), rng.randint(10, 60)]), LIMIT[which])


def check_terms(rec, got, want, scale, base, key, what):
    "Monitor: a polynomial in one monomial, term by term"
    terms = alg.terms(got) if hasattr(got, "hmap") else None
    if terms is None:
        if len(want) == 0 and got == 0 or len(want) == 1 and want[0][0] == 0 and got == 1:
            rec.ev("empty_series")
            return
        raise Violation("wrong-series", "%s returned %r" % (what, got))
    found = {}
    for c, exps in terms:
        exps = frozenset((k.name, float(e)) for k, e in exps.items())
        found[exps] = found.get(exps, 0) + c
    expect = {}
    for p, c in want:
        if abs(p*math.log(scale or 1)) > 600 or abs(p*math.log(base)) > 600:
            raise Skip("beyond floating point")
        expect[key(p)] = float(c)*scale**p
        if not 1e-290 < expect[key(p)] < 1e290:
            raise Skip("beyond floating point")
    f = alg.unit_factor(got.units)[0] if getattr(got, "units", None) else 1.0
    if set(found) != set(expect):
        raise Violation("wrong-terms", "%s has powers %s, the series %s"
                        % (what, sorted(map(str, found)), sorted(map(str, expect))))
    for k, c in expect.items():
        v = found[k]*f
        if not v > 0 or abs(v - c) > 1e-12*c:
            raise Violation("wrong-coefficient", "%s: coefficient of %s is %r, not %r"
                            % (what, k, v, c))
        rec.ev("coefficients")


def single(rng, rec):
    "a variable or monomial argument: each coefficient"
    import gpkit
    which = rng.choice(["exp", "sec", "tan"])
    n = order(rng, which)
    unit = rng.choice([None, None, None, "-", "degree", "rad", "percent", "ft/m", "m/km"])
    try:
        x = gpkit.Variable("x", unit) if unit else gpkit.Variable("x")
        if rng.random() < .3:
            x = gpkit.Variable("x", unit, "described", constant=False) if unit else x
    except Exception as e:  # pylint: disable=broad-except
        if type(e).__name__ == "UndefinedUnitError":
            raise Skip("no such unit")
        raise
    c, e = 1.0, 1
    arg = x
    if rng.random() < .5:
        c, e = round(math.exp(rng.uniform(-2, 2)), 4), rng.choice([1, 2, .5, -1, 1.5])
        arg = c*x**e
    pre = str(arg)
    if unit and (n if which == "exp" else 2*n)*abs(e) > 60:
        raise Skip("units raised beyond floating point")
    what = "te_%s(%s [%s], %i)" % (which, pre, unit, n)
    res = helper(which)(arg, n)
    uf = FACTOR.get(unit, 1.0)
    vk = x.key
    check_terms(rec, res, series(which, n), c*uf**e, uf**e,
                lambda p: frozenset([(vk.name, float(p*e))]) if p else frozenset(), what)
    if str(arg) != pre:
        raise Violation("argument-changed", what)
    rec.ev("te_" + which)
    rec.sig(what)
    rec.sample("%s = %s" % (what, str(res)[:200]))


def compound(rng, rec):
    "a posynomial or array argument: values at points"
    import gpkit
    which = rng.choice(["exp", "exp", "sec", "tan"])
    shape = rng.choice([(), (), (2,), (3,), (2, 2)])
    names = ["a", "b", "c"][:rng.randint(1, 3)]
    units = {n: rng.choice([None, None, "ft/m", "degree"]) for n in names}
    vs = {n: gpkit.VectorVariable(shape, n, units[n] or "-") if shape and rng.random() < .7
          else gpkit.Variable(n, units[n]) if units[n] else gpkit.Variable(n) for n in names}
    nt = rng.randint(1, 3)
    parts = []
    for _ in range(nt):
        parts.append((round(math.exp(rng.uniform(-1.5, .5)), 3),
                      {n: rng.choice([1, 2, .5, -1]) for n in
                       rng.sample(names, rng.randint(1, len(names)))}))
    arg = None
    for c, ex in parts:
        t = c
        for n, e in ex.items():
            t = t*vs[n]**e
        arg = t if arg is None else arg + t
    n = order(rng, which)
    power = {"exp": n, "sec": 2*n, "tan": 2*n}[which]
    while math.comb(power + nt, nt) > 700 or power > 40:
        n -= 1
        power = {"exp": n, "sec": 2*n, "tan": 2*n}[which]
    what = "te_%s(%s, %i)" % (which, arg, n)
    res = helper(which)(arg, n)
    idxs = list(np.ndindex(*shape)) if np.shape(arg) else [None]
    for idx in idxs:
        pt = {m: math.exp(rng.uniform(-1, .5)) for m in names}
        vals = {m: pt[m]*FACTOR.get(units[m], 1)
                for m in names}
        y = sum(c*math.prod(vals[m]**e for m, e in ex.items()) for c, ex in parts)
        want = float(sum(c*Fraction(y)**p for p, c in series(which, n)))
        r = res if idx is None or not np.shape(res) else res[idx]
        if hasattr(r, "hmap"):
            got = 0.0
            for exps, c in r.hmap.items():
                if c <= 0:
                    raise Violation("negative-coefficient", "%s gives %s" % (what, r))
                got += c*math.prod(pt[k.name]**e for k, e in exps.items())
            got *= alg.unit_factor(r.units)[0] if r.units else 1
        else:
            got = float(r)
        if abs(got - want) > 1e-9*max(abs(want), 1e-300):
            raise Violation("wrong-value", "%s is %r at %s (argument %r), the series %r"
                            % (what, got, pt, y, want))
        rec.ev("values")
    rec.ev("array_arguments" if shape else "scalar_arguments")
    rec.sig(what)


def limits(rng, rec):
    "numbers as arguments, and refusals"
    which = rng.choice(["exp", "sec", "tan"])
    n = order(rng, which)
    if which == "tan" and rng.random() < .5:
        import gpkit
        try:
            helper(which)(gpkit.Variable("x"), rng.randint(16, 40))
        except NotImplementedError:
            rec.ev("refused")
            rec.sig("refused")
            return
        raise Violation("not-refused", "te_tangent beyond 15 terms")
    y = rng.choice([.1, .5, 1.0, rng.uniform(0, 1.5)])
    got = helper(which)(y, n)
    want = float(sum(c*Fraction(y)**p for p, c in series(which, n)))
    if abs(got - want) > 1e-12*max(want, 1e-300):
        raise Violation("wrong-value", "te_%s(%r, %i) is %r, not %r" % (which, y, n, got, want))
    f = {"exp": math.expm1, "sec": lambda v: 1/math.cos(v), "tan": math.tan}[which](y)
    if n and y > 1e-3:
        less = helper(which)(y, n-1)
        if f - got > f - less + 1e-12*f or got > f*(1 + 1e-9):
            raise Violation("no-closer", "te_%s(%r): %r with %i terms, %r with one fewer; "
                            "the function is %r" % (which, y, got, n, less, f))
        rec.ev("closer")
    rec.ev("numbers")
    rec.sig((which, n, y))


KINDS = {"single": (single, 400, 6000), "compound": (compound, 250, 5000),
         "limits": (limits, 200, 3000)}
NEED = {"coefficients": 1500, "values": 200, "array_arguments": 40, "te_sec": 60,
        "te_tan": 60, "te_exp": 60, "closer": 50, "refused": 10}
