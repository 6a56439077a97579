"""C02: canonical form, equality, hash and class, against exact polynomial algebra.

Expressions use only dyadic coefficients and exponents, so that every coefficient gpkit
computes is exact and can be compared with rational arithmetic on {exponents: coefficient}.
"""
from fractions import Fraction as F
import math
import numpy as np
from ..core import Violation, Skip
from .. import alg

PROP = "C02"
RULE = ("a case is a random exact polynomial built twice along different routes, plus a "
        "perturbed neighbour; non-trivial if it has a variable, identified by its terms")
COEF = [1, 2, 3, 4, .5, .25, 1.5, 8, 5]
EXPO = [1, 1, 2, 3, -1, -2, .5, 1.5, -.5]


# ---- exact polynomials {frozenset((name, exponent)): coefficient}
def pmul(p, q):
    out = {}
    for e1, c1 in p.items():
        for e2, c2 in q.items():
            e = dict(e1)
            for k, x in e2:
                e[k] = e.get(k, 0) + x
            e = frozenset((k, x) for k, x in e.items() if x)
            out[e] = out.get(e, 0) + c1*c2
    return {e: c for e, c in out.items() if c}


def padd(p, q, s=1):
    out = dict(p)
    for e, c in q.items():
        out[e] = out.get(e, 0) + s*c
    return {e: c for e, c in out.items() if c}


def pdiff(p, name):
    out = {}
    for e, c in p.items():
        d = dict(e)
        x = d.pop(name, None)
        if x is None:
            continue
        if x != 1:
            d[name] = x - 1
        out[frozenset(d.items())] = c*x
    return out


UNITSETS = [{"x": "m", "y": "kg", "z": "s", "w": "m"},
            {"x": "ft", "y": "lb", "z": "min", "w": "kg"}, {}]
BASE = {}


class Env:
    def __init__(self, rng):
        import gpkit
        self.names = ["x", "y", "z", "w"][:rng.randint(1, 4)]
        us = rng.choice(UNITSETS)
        if us and us.get("w") == "kg" and "w" in self.names:
            us = dict(us, w="lb")
        self.units = {n: us.get(n) for n in self.names}
        self.base = {}     # dimension -> base unit
        for n, u in self.units.items():
            if u:
                self.base[alg.UNITS[u][1]] = u
        self.objs = {n: (gpkit.Variable(n, u) if u else gpkit.Variable(n))
                     for n, u in self.units.items()}

    def dims(self, e):
        d = {}
        for k, x in e:
            u = self.units[k]
            if u:
                d[u] = d.get(u, 0) + x
        return tuple(sorted((u, x) for u, x in d.items() if x))

    def unitmono(self, dims):
        "the gpkit monomial of exactly these base units"
        import gpkit
        out = 1
        for u, x in dims:
            out = out*gpkit.units(u)**(int(x) if x == int(x) else float(x))
        return out


def addunits(d1, d2, k=1):
    d = dict(d1)
    for u, x in d2:
        d[u] = d.get(u, 0) + k*x
    return tuple(sorted((u, x) for u, x in d.items() if x))


def gen(rng, env, depth, signed):
    "(exact poly, gpkit object, unit dims)"
    if depth <= 0 or rng.random() < .2:
        e, obj, u = {}, None, ()
        for n in rng.sample(env.names, rng.randint(1, len(env.names))):
            x = F(rng.choice(EXPO))
            e[n] = x
            v = env.objs[n]
            t = v if x == 1 else v**(int(x) if x == int(x) else float(x))
            obj = t if obj is None else obj*t
        c = rng.choice(COEF)
        if signed and rng.random() < .3:
            c = -c
        if rng.random() < .3 and not any(env.units.values()):    # said outright, by name
            import gpkit
            u = rng.choice([(), (("m", 1),)])
            obj = gpkit.nomials.Signomial(
                {n: (int(x) if x == int(x) else float(x)) for n, x in e.items()},
                gpkit.ureg.Quantity(c, "m") if u else c)
            return {frozenset(e.items()): F(c)}, obj, u
        e = frozenset(e.items())
        return {e: F(c)}, (c*obj if rng.random() < .5 or c != 1 else obj), env.dims(e)
    r = rng.random()
    p, a, u = gen(rng, env, depth-1, signed)
    if r < .5:
        if rng.random() < .35:
            q, b, v = p, a, u
            if rng.random() < .5:
                k = rng.choice([2, .5, 3])
                q, b = {e: c*F(k) for e, c in p.items()}, k*a
        else:
            q, b, v = gen(rng, env, depth-1, signed)
        b = b*env.unitmono(addunits(u, v, -1)) if u != v else b
        if signed and rng.random() < .5:
            return padd(p, q, -1), a - b, u
        return padd(p, q), a + b, u
    q, b, v = gen(rng, env, depth-2, signed)
    if r < .62 and signed and len(p) <= 3 and len(q) <= 3:   # cross terms cancel exactly
        b = b*env.unitmono(addunits(u, v, -1)) if u != v else b
        left, right = (padd(p, q), a + b), (padd(p, q, -1), a - b)
        if left[0] and right[0]:
            if rng.random() < .5:
                left, right = right, left
            return pmul(left[0], right[0]), left[1]*right[1], addunits(u, u)
    if r < .8:
        return pmul(p, q), a*b, addunits(u, v)
    if len(q) == 1 and all(c > 0 for c in q.values()):
        (e, c), = q.items()
        if math.log2(c.numerator) % 1 == 0:
            inv = {frozenset((k, -x) for k, x in e): 1/c}
            return pmul(p, inv), a/b, addunits(u, v, -1)
    if len(p) <= 3:
        k = rng.choice([0, 1, 2, 2, 2, 3, 5, 6] if len(p) <= 2 else [0, 1, 2, 2, 3])
        out, v = {frozenset(): F(1)}, ()
        for _ in range(k):
            out, v = pmul(out, p), addunits(u, v)
            if any(c.numerator.bit_length() > 40 or c.denominator.bit_length() > 40
                   for c in out.values()):    # floats would have to round
                return p, a, u
        return out, a**k, v
    return p, a, u


def canon(p, env, units, rng):
    "the same polynomial built as a shuffled sum of shuffled, possibly split, terms"
    items = list(p.items())
    rng.shuffle(items)
    out = None
    for e, c in items:
        names = list(e)
        rng.shuffle(names)
        t = None
        for n, x in names:
            v = env.objs[n]
            x = int(x) if x == int(x) else float(x)
            f = v**x if rng.random() < .7 or isinstance(x, float) else v**(x+1)/v
            t = f if t is None else f*t if rng.random() < .5 else t*f
        parts = [c]
        if rng.random() < .3:
            parts = [c/2, c/4, c/4] if rng.random() < .5 else [c/2, c/2]
        miss = addunits(units, env.dims(e), -1)
        m = env.unitmono(miss)
        for part in parts:
            part = float(part)
            g = part if t is None else part*t
            g = m*g if rng.random() < .5 else g*m
            if not hasattr(g, "hmap"):
                from gpkit.nomials import Signomial
                g = Signomial(g)
            out = g if out is None else (out + g if rng.random() < .5 else g + out)
    return out


def terms_of(obj):
    "{frozenset((name, exponent)): coefficient} of a gpkit expression"
    out = {}
    for c, exp in alg.terms(obj):
        key = frozenset((vk.name, F(x)) for vk, x in exp.items())
        if key in out:
            raise Violation("duplicate-terms", "%s holds the same term twice" % obj)
        out[key] = F(c)
    return out


def check_form(rec, obj, p, what):
    "Monitor: exact terms, no zero exponents or coefficients, right class"
    import gpkit
    if not hasattr(obj, "hmap"):
        raise Violation("not-an-expression", "%s gave %r" % (what, obj))
    t = terms_of(obj)
    if p and t != p:
        raise Violation("wrong-terms", "%s has terms %s, expected %s"
                        % (what, sorted(map(str, t.items())), sorted(map(str, p.items()))))
    for c, exp in alg.terms(obj):
        if any(x == 0 for x in exp.values()):
            raise Violation("zero-exponent", "%s keeps a zero exponent: %s" % (what, exp))
        if c == 0 and len(obj.exps) > 1:
            raise Violation("zero-coefficient", "%s keeps a zero term" % what)
    rec.ev("forms_checked")
    if not p:
        return
    kinds = (isinstance(obj, gpkit.Monomial), isinstance(obj, gpkit.Posynomial))
    pos = all(c > 0 for c in p.values())
    want = (pos and len(p) == 1, pos)
    if kinds != want:
        raise Violation("wrong-class", "%s with %i terms, positive=%s is a %s"
                        % (what, len(p), pos, type(obj).__name__))
    rec.ev("class_" + type(obj).__name__)


def equal(a, b):
    return bool(a == b) and not bool(a != b)


def check_equal(rec, a, b, what):
    if not equal(a, b) or not equal(b, a):
        raise Violation("unequal", "%s: %s and %s have the same terms and units but"
                        " compare unequal" % (what, a, b))
    if hash(a) != hash(b):
        raise Violation("hash", "%s: %s and %s are equal but hash differently"
                        % (what, a, b))
    rec.ev("equal_pairs")


def tree(rng, rec):
    import gpkit
    env = Env(rng)
    signed = rng.random() < .5
    with gpkit.SignomialsEnabled():
        p, a, u = gen(rng, env, rng.choice([1, 2, 3, 3, 4]), signed)
        if len(p) > 40 or any(abs(c.numerator) > 2**40 or c.denominator > 2**40
                              for c in p.values()):
            raise Skip("too large to stay exact")
        check_form(rec, a, p, "built expression")
        if not p:
            raise Skip("cancelled to nothing")
        rec.sig(sorted(map(str, p.items())), sorted(env.units.items(), key=str))
        ha = hash(a)
        b = canon(p, env, u, rng)
        check_form(rec, b, p, "canonical sum")
        check_equal(rec, a, b, "two routes")
        c = canon(p, env, u, rng)
        check_equal(rec, b, c, "two shuffles")
        if {a: 1}.get(b) is None and not isinstance(a, gpkit.Monomial):
            raise Violation("hash", "dict lookup fails for an equal expression")
        # neighbours that must differ
        q = dict(p)
        e = rng.choice(list(q))
        how = rng.choice(["coef", "near", "drop", "exp", "add", "unit", "sign"])
        v = u
        if how == "near":
            q[e] = q[e]*(1 + F(1, 2**rng.choice([8, 10, 12, 20, 30, 40])))
        elif how == "coef":
            q[e] = q[e]*2
        elif how == "sign":
            q[e] = -q[e]
        elif how == "drop" and len(q) > 1:
            del q[e]
        elif how == "exp":
            n = rng.choice(env.names)
            d = dict(e)
            d[n] = d.get(n, F(0)) + 3
            f = frozenset((k, x) for k, x in d.items() if x)
            if f in q:
                raise Skip("neighbour collides")
            q[f] = q.pop(e)
        elif how == "add":
            f = frozenset([(rng.choice(env.names), F(7))])
            if f in q:
                raise Skip("neighbour collides")
            q[f] = F(1)
        else:
            how = "unit"
            v = addunits(u, (("g", 1),)) if rng.random() < .5 else \
                addunits(u, (("inch", F(1)),))
        if how != "unit" and padd(q, p, -1) == {}:
            raise Skip("neighbour identical")
        d = canon(q, env, v, rng)
        if bool(a == d) or bool(d == a):
            raise Violation("equal-but-different", "%s == %s though they differ (%s)"
                            % (a, d, how))
        rec.ev("unequal_pairs")
        # derivatives keep the canonical form
        n = rng.choice(env.names)
        check_form(rec, a.diff(env.objs[n]), pdiff(p, n), "derivative by %s" % n)
        n2 = rng.choice(env.names)
        d1, d2 = a.diff(env.objs[n]).diff(env.objs[n2]), \
            b.diff(env.objs[n2]).diff(env.objs[n])
        check_form(rec, d1, pdiff(pdiff(p, n), n2), "second derivative")
        if pdiff(pdiff(p, n), n2) and d1.units == d2.units:
            if not isinstance(d1, gpkit.Monomial):
                check_equal(rec, d1, d2, "mixed derivatives")
        # substituted expressions too
        val = rng.choice([4, .25, 16, 1])
        ps = {}
        for e, c in p.items():
            e = dict(e)
            x = e.pop(n, F(0))
            e = frozenset(e.items())
            ps[e] = ps.get(e, F(0)) + c*F(float(val)**float(x))
        ps = {e: c for e, c in ps.items() if c}
        if ps and max(abs(c.numerator) for c in ps.values()) < 2**45:
            sub = a.sub({env.objs[n]: val})
            check_form(rec, sub, ps, "substituted")
            rec.ev("substituted_forms")
            rest = {e for e in ps}
            if all(env.dims(e) == () for e in rest) or not env.base:
                env2 = canon(ps, env, u, rng)
                if env2 is not None and env2.units == sub.units:
                    check_equal(rec, sub, env2, "substituted and rebuilt")
                    rec.ev("substituted_equal")
        # hash and equality survive everything done above, and derived copies
        if hash(a) != ha or not equal(a, b):
            raise Violation("hash-changed", "hash or equality of %s changed" % a)
        for f, g in ((lambda z: z*1, "times one"), (lambda z: z + 0, "plus zero"),
                     (lambda z: z**1, "to the first"), (lambda z: z/1, "over one"),
                     (lambda z: -(-z), "double negation"),
                     (lambda z: z.sub({}), "empty substitution")):
            check_equal(rec, f(a), b, g)
        # adding the (zero) derivative of itself by something else changes nothing
        absent = gpkit.Variable("absent")
        zero = a.diff(absent)
        check_equal(rec, a + zero, b, "plus a zero derivative")
        check_equal(rec, zero + a, b, "a zero derivative plus it")
        # its terms, taken apart
        parts = a.chop()
        if len(parts) != len(p):
            raise Violation("wrong-parts", "%s was chopped into %s" % (a, parts))
        for part in parts:
            t, = terms_of(part).items()
            if p.get(t[0]) != t[1] or part.units != a.units:
                raise Violation("wrong-parts", "%s was chopped into %s" % (a, parts))
        rec.ev("chopped")
        pos, neg = a.posy_negy()
        for got, want in ((pos, {e: c for e, c in p.items() if c > 0}),
                          (neg, {e: -c for e, c in p.items() if c < 0})):
            if not hasattr(got, "hmap"):
                if want or got:
                    raise Violation("wrong-parts", "%s was parted into %s, %s" % (a, pos, neg))
                continue
            check_form(rec, got, want, "terms of one sign")
            if got.units != a.units:
                raise Violation("wrong-parts", "%s: %s has other units" % (a, got))
        # what is hashed before arithmetic must not leak into results
        hash(a), hash(b)
        s = a + b
        check_form(rec, s, {k: 2*x for k, x in p.items()}, "doubled")
        check_equal(rec, s, 2*a, "a+a and 2a")
        rec.ev("class_checked")
    rec.sample("%s [%s] == %s" % (a, a.units, b))


def unit_change(rng, rec):
    "same numbers, other units: never equal; the same quantity rebuilt: same hash"
    import gpkit
    u1, u2 = rng.sample(["m", "ft", "cm", "kg", "lb", "s", "min", None], 2)
    x = gpkit.Variable("x", u1) if u1 else gpkit.Variable("x")
    x2 = gpkit.Variable("x", u2) if u2 else gpkit.Variable("x")
    y = gpkit.Variable("y")
    f = rng.choice([lambda v: v, lambda v: v*y, lambda v: v + 3*v*y, lambda v: v**2/y,
                    lambda v: v**2 + v**2*y + 2*v**2])
    a, b = f(x), f(x2)
    if bool(a == b):
        raise Violation("equal-but-different", "%s[%s] == %s[%s]" % (a, u1, b, u2))
    rec.ev("unequal_pairs")
    c = f(gpkit.Variable("x", u1) if u1 else gpkit.Variable("x"))
    if not equal(a, c) or hash(a) != hash(c):
        raise Violation("unequal", "%s rebuilt from equal variables differs" % a)
    rec.ev("equal_pairs")
    rec.sig(u1, u2, str(a))
    # and constants, which are not of an expression's units only because of their number
    n = rng.choice([1, 2, -2, .5, 3])
    with gpkit.SignomialsEnabled():
        const = (f(x) - f(x) + n*f(x).units if u1 else f(x)*0 + n) if n < 0 or rng.random() < .5 \
            else n*gpkit.units(u1) if u1 else gpkit.nomials.Monomial(n)
    if not hasattr(const, "hmap") or const.vks:
        return
    for other, same in ((n, not const.units), (gpkit.ureg.Quantity(n, const.units or "dimensionless"), True),
                        (n+1, False), (gpkit.ureg.Quantity(n, "candela"), False)):
        import contextlib
        import io
        with contextlib.redirect_stdout(io.StringIO()):   # says that it's infeasible
            got = bool(const == other)
        if got != same:
            raise Violation("equal-but-different" if got else "unequal", "%r == %r is %s"
                            % (const, other, got))
        rec.ev("numbers_compared")


def sums(rng, rec):
    "array sums and products are canonical too"
    import gpkit
    names = ["x", "y"]
    env = {n: gpkit.Variable(n) for n in names}
    with gpkit.SignomialsEnabled():
        p, els = {}, []
        for _ in range(rng.randint(1, 6)):
            if rng.random() < .3:
                c = rng.choice([1, -1, 2, -2, .5])
                els.append(c)
                t = {frozenset(): F(c)}
            else:
                n, x, c = rng.choice(names), rng.choice([1, 2, -1]), \
                    rng.choice([1, -1, 2, -2, .5])
                els.append(c*env[n]**x)
                t = {frozenset([(n, F(x))]): F(c)}
            p = padd(p, t)
        if not any(hasattr(e, "hmap") for e in els):
            raise Skip("no variables")
        s = gpkit.NomialArray(els).sum()
        check_form(rec, s, p, "sum of %s" % els)
        prod = {frozenset(): F(1)}
        for e in els:
            prod = pmul(prod, terms_of(e) if hasattr(e, "hmap") else {frozenset(): F(e)})
        q = gpkit.NomialArray(els).prod()
        check_form(rec, q, prod, "product of %s" % els)
        again = gpkit.NomialArray([e*1 if hasattr(e, "hmap") else e for e in els])
        if hash(gpkit.NomialArray(els)) != hash(again):
            raise Violation("hash", "arrays of the same %s hash differently" % els)
        rec.sig("sum", str(els))
        rec.ev("array_forms")


def arrays(rng, rec):
    "arrays are equal when all of their elements are, and only then"
    import gpkit
    env = Env(rng)
    with gpkit.SignomialsEnabled():
        n = rng.randint(1, 5)
        polys, els = [], []
        while len(els) < n:
            p, obj, u = gen(rng, env, rng.choice([0, 0, 1]), False)
            if not p or not hasattr(obj, "hmap"):
                continue
            polys.append((p, u))
            els.append(obj)
        other, same = list(els), [True]*n
        for i in range(n):
            p, u = polys[i]
            r = rng.random()
            if r < .35:    # the same expression, made again another way
                other[i] = canon(p, env, u, rng)
            elif r < .5:
                p2, obj, u2 = gen(rng, env, 0, False)
                if not p2 or not hasattr(obj, "hmap") or p2 == p and u2 != u:
                    continue
                other[i], same[i] = obj, p2 == p and u2 == u
            elif r < .55:
                other[i], same[i] = 2*els[i], False
        shape = rng.choice([(n,), (n,), (1, n), (n, 1)] + ([(2, 2)] if n == 4 else []))

        def arr(elements):
            return gpkit.NomialArray(np.array(elements + [None], dtype=object)[:-1].reshape(shape))
        a, b = arr(els), arr(other)
        what = "%s == %s" % (a, b)
        got = bool(a == b), bool(b == a)
        if got != (all(same),)*2:
            raise Violation("equal-but-different" if any(got) else "unequal",
                            "%s is %s for elements %s" % (what, got, same))
        rec.ev("arrays_equal" if all(same) else "arrays_unequal")
        if any(same) and not all(same):
            rec.ev("arrays_mixed")
        if all(same) and hash(a) != hash(b):
            raise Violation("hash", "%s hash differently" % what)
        if len(shape) == 1:
            got = bool(a == other)
            if got != all(same):
                raise Violation("unequal", "%s is %s with a list" % (what, got))
        if rng.random() < .4:    # with a single expression
            i = rng.randrange(n)
            if any(polys[j][0] == polys[i][0] and polys[j][1] != polys[i][1] for j in range(n)):
                return
            want = all(polys[j] == polys[i] for j in range(n))
            got = bool(a == els[i])
            if got != want:
                raise Violation("equal-but-different" if got else "unequal",
                                "%s == %s is %s" % (a, els[i], got))
            rec.ev("arrays_to_one")
    rec.sig(what)


KINDS = {"arrays": (arrays, 400, 6000), "tree": (tree, 1500, 30000), "unit": (unit_change, 150, 1500),
         "sums": (sums, 300, 4000)}
NEED = {"forms_checked": 3000, "equal_pairs": 5000, "unequal_pairs": 400,
        "class_Monomial": 100, "class_Posynomial": 100, "class_Signomial": 100,
        "array_forms": 100, "arrays_equal": 40, "arrays_mixed": 80,
        "arrays_to_one": 60, "substituted_forms": 300, "substituted_equal": 100}
