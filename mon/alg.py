"""An independent algebra: expression trees over dimensioned positive numbers.

Nothing here uses gpkit's own algebra.  Trees are built by dimension-aware random
generators, evaluated with plain floats in SI units, and separately turned into gpkit
objects with Python operators.  measure() reads a gpkit expression's public terms
(.exps, .cs/.hmap, .units) and evaluates them the same way.
"""
import math
import re
import numpy as np
from .core import Skip

# unit -> (factor to SI, (length, mass, time))
UNITS = {
    "m": (1.0, (1, 0, 0)), "cm": (0.01, (1, 0, 0)), "mm": (1e-3, (1, 0, 0)),
    "km": (1e3, (1, 0, 0)), "ft": (0.3048, (1, 0, 0)),
    "inch": (0.0254, (1, 0, 0)), "mile": (1609.344, (1, 0, 0)),
    "s": (1.0, (0, 0, 1)), "min": (60.0, (0, 0, 1)), "hr": (3600.0, (0, 0, 1)),
    "kg": (1.0, (0, 1, 0)), "g": (1e-3, (0, 1, 0)),
    "lb": (0.45359237, (0, 1, 0)),
    "N": (1.0, (1, 1, -2)), "kN": (1e3, (1, 1, -2)),
    "lbf": (0.45359237*9.80665, (1, 1, -2)),
    "J": (1.0, (2, 1, -2)), "W": (1.0, (2, 1, -3)), "kW": (1e3, (2, 1, -3)),
    "Pa": (1.0, (-1, 1, -2)), "kPa": (1e3, (-1, 1, -2)),
    "m/s": (1.0, (1, 0, -1)), "ft/s": (0.3048, (1, 0, -1)),
    "knot": (1852.0/3600, (1, 0, -1)), "km/hr": (1/3.6, (1, 0, -1)),
    "m^2": (1.0, (2, 0, 0)), "ft^2": (0.3048**2, (2, 0, 0)),
    "cm^2": (1e-4, (2, 0, 0)),
    "m^3": (1.0, (3, 0, 0)), "ft^3": (0.3048**3, (3, 0, 0)),
    "1/m": (1.0, (-1, 0, 0)), "1/ft": (1/0.3048, (-1, 0, 0)),
    "1/s": (1.0, (0, 0, -1)), "kg/m^3": (1.0, (-3, 1, 0)),
    "lb/ft^3": (0.45359237/0.3048**3, (-3, 1, 0)),
    "m/s^2": (1.0, (1, 0, -2)), "ft/s^2": (0.3048, (1, 0, -2)),
    "N/m": (1.0, (0, 1, -2)), "lbf/ft": (0.45359237*9.80665/0.3048, (0, 1, -2)),
}
DIMLESS = (0, 0, 0)
BYDIM = {}
for _u, (_f, _d) in UNITS.items():
    BYDIM.setdefault(_d, []).append(_u)
NONE_UNITS = [None, "", "-"]
_KEYS = ("[length]", "[mass]", "[time]")


class DimError(Exception):
    "The independent algebra refuses this combination."


def dim_of(quantity):
    "Dimension vector of a pint object, by pint's own definition"
    d = dict(quantity.dimensionality)
    vec = tuple(round(float(d.pop(k, 0)), 9) for k in _KEYS)
    if any(abs(float(x)) > 1e-9 for x in d.values()):
        raise DimError("unknown dimensions %s" % d)
    return vec


def unit_factor(units):
    "(SI factor, dims) of a Quantity, Unit or None (pint's definitions trusted)"
    if units is None:
        return 1.0, DIMLESS
    import gpkit
    q = units if hasattr(units, "magnitude") else gpkit.ureg.Quantity(1, units)
    b = q.to_base_units()
    return float(b.magnitude), dim_of(b)


def decl_factor(unit):
    "(SI factor, dims) of a unit as declared in the harness"
    if unit in (None, "", "-"):
        return 1.0, DIMLESS
    return UNITS[unit]


class Val:
    "value in SI, sum of magnitudes of contributions (for tolerances), dims"
    __slots__ = ("v", "a", "d")

    def __init__(self, v, a=None, d=DIMLESS):
        self.v, self.a = float(v), abs(float(v)) if a is None else float(a)
        self.d = tuple(d)

    def __repr__(self):
        return "Val(%.12g, %s)" % (self.v, self.d)

    # operators, so that object arrays of Vals can be handed to numpy
    def __add__(self, other): return _op(lambda o: vadd(self, o), other)
    def __radd__(self, other): return _op(lambda o: vadd(o, self), other)
    def __sub__(self, other): return _op(lambda o: vadd(self, o, -1), other)
    def __rsub__(self, other): return _op(lambda o: vadd(o, self, -1), other)
    def __mul__(self, other): return _op(lambda o: vmul(self, o), other)
    def __rmul__(self, other): return _op(lambda o: vmul(o, self), other)
    def __truediv__(self, other): return _op(lambda o: vdiv(self, o), other)
    def __rtruediv__(self, other): return _op(lambda o: vdiv(o, self), other)
    def __neg__(self): return Val(-self.v, self.a, self.d)
    def __pow__(self, n): return Val(1.0) if n == 0 else vpow(self, n)


def _op(f, other):
    return NotImplemented if isinstance(other, np.ndarray) else f(val(other))


def val(x):
    "Val of a Val or a plain number"
    return x if isinstance(x, Val) else Val(float(x))


def dimadd(d1, d2, k=1):
    return tuple(round(a + k*b, 9) for a, b in zip(d1, d2))


def vadd(x, y, sign=1):
    if x.d != y.d:
        raise DimError("%s + %s" % (x.d, y.d))
    return Val(x.v + sign*y.v, x.a + y.a, x.d)


def vmul(x, y):
    return Val(x.v*y.v, x.a*y.a, dimadd(x.d, y.d))


def vdiv(x, y):
    return Val(x.v/y.v, x.a/abs(y.v), dimadd(x.d, y.d, -1))


def vpow(x, n):
    return Val(x.v**n, abs(x.a**n) if n >= 0 else abs(x.v**n),
               tuple(round(a*n, 9) for a in x.d))


def same(got, want, rel=1e-9):
    "Equal value (relative to the magnitudes involved) and dimensions"
    if math.isnan(got.v) or math.isnan(want.v):
        return False
    tol = rel*max(got.a, want.a, abs(want.v)) + 1e-300
    if abs(got.v - want.v) > tol:
        return False
    return got.d == want.d


# ---------------------------------------------------------------- reading gpkit
def unitof(decls, vk):
    "declared unit of a varkey, by name (elements share their vector's)"
    return decls[vk.name]


def key_id(vk):
    "(name, idx) identity of a varkey, as the harness names points"
    return (vk.name, tuple(vk.idx) if vk.idx else None)


def terms(expr):
    "[(coefficient, {varkey: exponent})] of a gpkit expression, public data only"
    out = []
    cs = expr.cs
    cs = getattr(cs, "magnitude", cs)
    for c, exp in zip(cs, expr.exps):
        out.append((float(c), dict(exp)))
    return out


def measure(expr, point, decls, keyid=key_id):
    """Evaluates a gpkit expression or number at a point {key id: SI value}.

    decls: {name: declared unit}
    """
    if hasattr(expr, "exps"):
        f, d = unit_factor(expr.units)
        total, mag = 0.0, 0.0
        for c, exp in terms(expr):
            t = c
            for vk, x in exp.items():
                uf, _ = decl_factor(unitof(decls, vk))
                t *= (point[keyid(vk)]/uf)**float(x)
            total += t
            mag += abs(t)
        return Val(total*f, mag*f, d)
    if hasattr(expr, "magnitude"):
        m = expr.magnitude
        f, d = unit_factor(expr.units)
        if hasattr(m, "exps"):   # a Quantity wrapping a nomial (made by pint)
            inner = measure(m, point, decls, keyid)
            return Val(inner.v*f, inner.a*f, dimadd(inner.d, d))
        return Val(float(m)*f, None, d)
    return Val(float(expr))


def rebuilt(expr):
    "An expression assembled afresh from the public terms of another"
    import gpkit
    out = None
    unit = expr.units
    for c, exp in zip(expr.cs, expr.exps):
        t = gpkit.nomials.Signomial(1)
        for vk, x in exp.items():
            t = t*gpkit.Variable(vk)**x
        t = gpkit.nomials.Signomial(t.hmap)
        c = float(getattr(c, "magnitude", c))
        hmap = gpkit.nomials.NomialMap({next(iter(t.hmap)): c})
        hmap.units = unit
        t = gpkit.nomials.Signomial(hmap)
        out = t if out is None else out + t
    return out


def check_fresh(rec, expr, what):
    "Monitor: equality, hash and addition do not depend on how an expression arose"
    import gpkit
    from .core import Violation
    if not hasattr(expr, "hmap") or not expr.hmap:
        return
    with gpkit.SignomialsEnabled():
        if all(c == 0 for c, _ in terms(expr)):
            return
        new = rebuilt(expr)
        if type(new) is gpkit.Monomial:    # == makes a constraint
            same_ = (new.hmap == expr.hmap and new.units == expr.units
                     and bool(new == expr))
        else:
            same_ = bool(new == expr) and bool(expr == new) and not new != expr
        if not same_ or hash(new) != hash(expr):
            raise Violation("history-dependent", "%s: %s and the same terms assembled"
                            " afresh differ in equality or hash" % (what, expr))
        both = expr + new
        if len(both.hmap) != len(expr.hmap) or len((new + expr).hmap) != len(expr.hmap):
            raise Violation("history-dependent", "%s: %s does not merge with the same terms"
                            " assembled afresh: %s" % (what, expr, both))
    rec.ev("fresh_checked")


# ---------------------------------------------------------------- trees
# ("num", c) ("qty", c, unit, form) ("var", name, idx)
# ("add",a,b) ("sub",a,b) ("mul",a,b) ("div",a,b) ("pow",a,n) ("neg",a)
class World:
    "Variables (name -> declared unit), their gpkit objects and random points"

    def __init__(self, rng, nvars=4, units=True, names=None, dims=None):
        self.rng = rng
        self.decls, self.objs = {}, {}
        names = names or ["x", "y", "z", "w", "u", "t"][:nvars]
        pool = list(UNITS) if units else []
        for i, name in enumerate(names):
            if not units or rng.random() < .3:
                self.decls[name] = rng.choice(NONE_UNITS[:2])
            elif i and rng.random() < .5 and any(
                    self.decls[n] for n in list(self.decls)):
                other = rng.choice([n for n in self.decls if self.decls[n]])
                self.decls[name] = rng.choice(
                    BYDIM[UNITS[self.decls[other]][1]])
            else:
                self.decls[name] = rng.choice(pool)

    def make(self):
        "Creates the gpkit variables"
        import gpkit
        for name, unit in self.decls.items():
            self.objs[name] = (gpkit.Variable(name, unit) if unit
                               else gpkit.Variable(name))
        return self

    def dim(self, name):
        return decl_factor(self.decls[name])[1]

    def point(self, rng=None, spread=1.5):
        "A random positive point, SI values, O(1) in declared units"
        rng = rng or self.rng
        return {(n, None): decl_factor(u)[0]*math.exp(rng.uniform(-spread, spread))
                for n, u in self.decls.items()}


COEFS = [1, 2, 3, 0.5, 0.25, 10, 1.5, 7, 1e-3, 1e3, 0.1, 1/3.]
EXPS = [1, 1, 1, 2, 2, 3, -1, -1, -2, 0.5, -0.5, 1.5, 0, 4]


def gen_mono(rng, w, maxvars=3):
    "A random monomial tree and its dims"
    names = [rng.choice(list(w.decls)) for _ in range(rng.randint(0, maxvars))]
    tree = None
    d = DIMLESS
    for n in names:
        x = rng.choice(EXPS)
        t = ("var", n, None) if x == 1 and rng.random() < .8 else \
            ("pow", ("var", n, None), x)
        d = dimadd(d, tuple(a*x for a in w.dim(n)))
        if tree is None:
            tree = t
        elif rng.random() < .7:
            tree = ("mul", tree, t)
        else:
            tree = ("div", tree, t)
            d = dimadd(d, tuple(a*x for a in w.dim(n)), -2)
    if tree is None or rng.random() < .5:
        c = ("num", rng.choice(COEFS))
        tree = c if tree is None else (
            ("mul", c, tree) if rng.random() < .5 else ("mul", tree, c))
    return tree, d


def unit_for(rng, d):
    "A (unit string, factor) with dims d, possibly composed, or None if dimless"
    if d == DIMLESS:
        return None
    cands = BYDIM.get(d)
    if cands and rng.random() < .8:
        return rng.choice(cands)
    parts = []
    for base, x in zip(("m", "kg", "s"), d):
        if x:
            alts = {"m": ["m", "ft", "cm"], "kg": ["kg", "lb"],
                    "s": ["s", "min"]}[base]
            parts.append("%s**%s" % (rng.choice(alts), repr(float(x))))
    return "*".join(parts)


def unit_value(unit):
    "SI factor and dims of a (possibly composed) unit string of the harness"
    if unit in (None, "", "-"):
        return 1.0, DIMLESS
    if unit in UNITS:
        return UNITS[unit]
    f, d = 1.0, DIMLESS
    # composed strings look like a**1.0*b**-2.0
    for name, x in re.findall(r"([a-z]+)\*\*(-?[0-9.]+)", unit):
        uf, ud = UNITS[name]
        x = float(x)
        f *= uf**x
        d = dimadd(d, tuple(a*x for a in ud))
    return f, d


def gen_const(rng, d, positive=True):
    "A constant tree of dims d"
    c = rng.choice(COEFS)
    if not positive and rng.random() < .4:
        c = -c
    if d == DIMLESS:
        return ("num", c)
    return ("qty", c, unit_for(rng, d), rng.choice(["mono", "mono", "mono2"]))


def gen_like(rng, w, d, depth, signed):
    """A random tree of exactly dims d: a random tree times the needed units"""
    if depth <= 0 or rng.random() < .35:
        tree, td = gen_mono(rng, w)
    else:
        tree, td = gen(rng, w, depth-1, signed)
    miss = dimadd(d, td, -1)
    if miss != DIMLESS:
        tree = ("mul", tree, ("qty", rng.choice([1, 1, 2, .5]),
                              unit_for(rng, miss), "mono"))
    return tree


def gen(rng, w, depth=3, signed=False):
    "A random (tree, dims)"
    r = rng.random()
    if depth <= 0 or r < .12:
        return gen_mono(rng, w)
    if r < .45:
        a, d = gen(rng, w, depth-1, signed)
        b = gen_like(rng, w, d, depth-1, signed)
        op = "sub" if signed and rng.random() < .45 else "add"
        q = rng.random()
        if q < .12:    # reuse the same subtree: exact merging and cancelling
            b = a
        elif q < .2:
            b = gen_const(rng, d)
        if rng.random() < .5:
            a, b = b, a
        return (op, a, b), d
    if r < .62:
        a, d = gen(rng, w, depth-1, signed)
        b, e = gen(rng, w, depth-2, signed)
        return ("mul", a, b), dimadd(d, e)
    if r < .72:
        a, d = gen(rng, w, depth-1, signed)
        b, e = gen_mono(rng, w)
        return ("div", a, b), dimadd(d, e, -1)
    if r < .82:
        a, d = gen(rng, w, depth-2, signed)
        n = rng.choice([0, 1, 2, 2, 3])
        return ("pow", a, n), tuple(round(x*n, 9) for x in d)
    if r < .88 and signed:
        a, d = gen(rng, w, depth-1, signed)
        return ("neg", a), d
    if r < .95:
        a, d = gen(rng, w, depth-1, signed)
        c = rng.choice(COEFS)
        op = rng.choice(["mul", "rmul", "div"])
        if op == "mul":
            return ("mul", a, ("num", c)), d
        if op == "rmul":
            return ("mul", ("num", c), a), d
        return ("div", a, ("num", c)), d
    a, d = gen_mono(rng, w)
    n = rng.choice([-2, -1, -0.5, 0.5, 1.5, 2, 0])
    return ("pow", a, n), tuple(round(x*n, 9) for x in d)


def size(tree):
    "an upper bound of the number of terms"
    op = tree[0]
    if op in ("add", "sub"):
        return size(tree[1]) + size(tree[2])
    if op in ("mul", "div"):
        return size(tree[1])*size(tree[2])
    if op == "pow":
        n, k = size(tree[1]), tree[2]
        return math.comb(n+int(k)-1, int(k)) if n > 1 and k > 0 else 1
    return size(tree[1]) if op == "neg" else 1


def evaluate(tree, point):
    "The tree's value at a point, by plain arithmetic"
    try:
        val = value_of(tree, point)
    except OverflowError:
        raise Skip("too large for floats")
    if val.a > 1e120 or 0 < abs(val.v) < 1e-120:
        raise Skip("too large for floats")
    return val


def value_of(tree, point):
    op = tree[0]
    if op == "num":
        return Val(tree[1])
    if op == "qty":
        f, d = unit_value(tree[2])
        return Val(tree[1]*f, None, d)
    if op == "var":
        v, d = point[(tree[1], tree[2])]
        return Val(v, None, d)
    if op == "neg":
        x = evaluate(tree[1], point)
        return Val(-x.v, x.a, x.d)
    if op == "pow":
        x = evaluate(tree[1], point)
        if tree[2] == 0:
            return Val(1.0)
        if isinstance(tree[2], int) and tree[2] > 0:
            return vpow(x, tree[2])
        return vpow(x, tree[2])
    a, b = evaluate(tree[1], point), evaluate(tree[2], point)
    if op == "add":
        return vadd(a, b)
    if op == "sub":
        return vadd(a, b, -1)
    if op == "mul":
        return vmul(a, b)
    if op == "div":
        return vdiv(a, b)
    raise ValueError(op)


def dimmed(point, w):
    "Adds dims to a point"
    return {k: (v, w.dim(k[0])) for k, v in point.items()}


def build_qty(c, unit, form):
    import gpkit
    if form == "mono":
        return c*gpkit.units(unit)
    if form == "mono2":
        return gpkit.units(unit)*c
    if form == "mono0":
        return gpkit.units(unit)
    return gpkit.ureg.Quantity(c, unit)


def build(tree, objs):
    "The tree as a gpkit expression, through Python operators only"
    op = tree[0]
    if op == "num":
        return tree[1]
    if op == "qty":
        return build_qty(tree[1], tree[2], tree[3])
    if op == "var":
        o = objs[tree[1]]
        return o if tree[2] is None else o[tree[2]]
    if op == "neg":
        return -build(tree[1], objs)
    if op == "pow":
        return build(tree[1], objs)**tree[2]
    a, b = build(tree[1], objs), build(tree[2], objs)
    if op == "add":
        return a + b
    if op == "sub":
        return a - b
    if op == "mul":
        return a * b
    if op == "div":
        return a / b
    raise ValueError(op)


def show(tree):
    "Readable tree"
    op = tree[0]
    if op == "num":
        return "%g" % tree[1]
    if op == "qty":
        return "%g[%s]" % (tree[1], tree[2])
    if op == "var":
        return tree[1] + ("" if tree[2] is None else str(list(tree[2])))
    if op == "neg":
        return "-(%s)" % show(tree[1])
    if op == "pow":
        return "(%s)**%s" % (show(tree[1]), tree[2])
    sym = {"add": "+", "sub": "-", "mul": "*", "div": "/"}[op]
    return "(%s %s %s)" % (show(tree[1]), sym, show(tree[2]))


def tree_size(tree):
    return 1 + sum(tree_size(t) for t in tree[1:] if isinstance(t, tuple)
                   and t and isinstance(t[0], str))


def has_op(tree, names):
    if tree[0] in names:
        return True
    return any(has_op(t, names) for t in tree[1:]
               if isinstance(t, tuple) and t and isinstance(t[0], str))


def grad(tree, fp, key):
    "(value, derivative) as Vals, by forward differentiation of the tree"
    op = tree[0]
    kd = fp[key][1]
    if op in ("num", "qty"):
        x = evaluate(tree, fp)
        return x, Val(0.0, 0.0, dimadd(x.d, kd, -1))
    if op == "var":
        x = evaluate(tree, fp)
        return x, Val(1.0 if (tree[1], tree[2]) == key else 0.0, None,
                      dimadd(x.d, kd, -1))
    if op == "neg":
        x, dx = grad(tree[1], fp, key)
        return -x, -dx
    if op == "pow":
        x, dx = grad(tree[1], fp, key)
        n = tree[2]
        if n == 0:
            return Val(1.0), Val(0.0, 0.0, dimadd(DIMLESS, kd, -1))
        y = vpow(x, n)
        return y, vmul(vmul(Val(n), vpow(x, n-1) if n != 1 else Val(1.0)), dx)
    a, da = grad(tree[1], fp, key)
    b, db = grad(tree[2], fp, key)
    if op == "add":
        return vadd(a, b), vadd(da, db)
    if op == "sub":
        return vadd(a, b, -1), vadd(da, db, -1)
    if op == "mul":
        return vmul(a, b), vadd(vmul(da, b), vmul(a, db))
    if op == "div":
        return vdiv(a, b), vadd(vdiv(da, b), vdiv(vmul(a, db), vmul(b, b)), -1)
    raise ValueError(op)
