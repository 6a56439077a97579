"""C01: arithmetic is a homomorphism into dimensioned numbers.

The same random program (a tree of operators, or a sequence of array statements) is run
twice: on gpkit objects, and on dimensioned floats at random positive points.  The terms
of every result gpkit produces are then evaluated at those points and compared.
"""
import operator
import numpy as np
from ..core import Violation, Skip
from .. import alg
from ..alg import Val, DimError

PROP = "C01"
RULE = ("a case is a random operator tree or array program over variables with units, "
        "numbers and dimensioned numbers, executed on gpkit objects and on floats at "
        "random points; non-trivial if the result has at least one variable, identified "
        "by the program text")
ASSUME = ["pint's unit conversion factors are trusted",
          "a pint Quantity as the left operand is outside the supported interface"]


def enabled():
    import gpkit
    return gpkit.SignomialsEnabled()


def compare(rec, got, wants, points, decls, what, key="value"):
    "Monitor: one gpkit result against its expected values at the points"
    for want, pt in zip(wants, points):
        g = alg.measure(got, pt, decls)
        ok = alg.same(g, want)
        if not ok and not hasattr(got, "exps") and not hasattr(got, "magnitude") \
                and g.v == 0 and abs(want.v) <= 1e-9*want.a + 1e-300:
            ok = True   # plain zero stands for zero in any units
        if not ok:
            raise Violation("wrong-" + key if g.d == want.d else "wrong-units",
                            "%s: gpkit result %s evaluates to %r, expected %r at %s"
                            % (what, got, g, want, pt))
        rec.ev("points_compared")


def scalar(rng, rec):
    signed = rng.random() < .5
    w = alg.World(rng, rng.randint(1, 5), units=rng.random() < .75).make()
    high = rng.random() < .12
    if high:    # high powers of short expressions
        tree, d = alg.gen(rng, w, rng.choice([1, 1, 2]), signed)
        tree = ("pow", tree, rng.randint(3, 8))
        if alg.size(tree) > 300:
            raise Skip("too many terms")
    else:
        tree, _ = alg.gen(rng, w, rng.choice([2, 3, 3, 4, 5]), signed)
    points = [w.point() for _ in range(3)]
    try:
        wants = [alg.evaluate(tree, alg.dimmed(p, w)) for p in points]
        if signed:
            with enabled():
                got = alg.build(tree, w.objs)
        else:
            got = alg.build(tree, w.objs)
        if high and any(not np.isfinite(alg.measure(got, p, w.decls).v) for p in points):
            raise OverflowError
    except OverflowError:   # such as units of which a prefactor is 1e-350
        if high:
            raise Skip("too large for floats")
        raise
    rec.ev("trees")
    if high:
        rec.ev("high_powers")
    if hasattr(got, "exps") and any(got.exps):
        rec.sig(alg.show(tree), sorted(w.decls.items(), key=str))
        rec.ev("terms", len(got.exps))
        alg.check_fresh(rec, got, alg.show(tree))
    compare(rec, got, wants, points, w.decls, alg.show(tree))
    rec.sample("%s with %s -> %s" % (alg.show(tree), w.decls, got))


def chain(rng, rec):
    "Register machine: every operator form, reflected, in-place, numpy and pint operands"
    import gpkit
    w = alg.World(rng, rng.randint(1, 4), units=rng.random() < .7).make()
    points = [w.point() for _ in range(2)]
    dps = [alg.dimmed(p, w) for p in points]
    regs = []
    for n in w.decls:
        regs.append((w.objs[n], [Val(dp[(n, None)][0], None, dp[(n, None)][1])
                                 for dp in dps], n))
    log = []
    nums = [2, 3, 0.5, 1, 10, 0.1, np.float64(1.5), np.int64(3), -2, -0.5]
    signed = rng.random() < .6
    if not signed:
        nums = [n for n in nums if n > 0]

    def apply(f, *args):
        if signed:
            with gpkit.SignomialsEnabled():
                return f(*args)
        return f(*args)

    for _ in range(rng.randint(3, 12)):
        obj, vals, txt = rng.choice(regs)
        r = rng.random()
        dim = vals[0].d
        if r < .3:       # nomial op nomial
            o2, v2, t2 = rng.choice(regs)
            op = rng.choice(["+", "-", "*", "/"] if signed else ["+", "*", "/"])
            if op in "+-" and v2[0].d != dim:
                op = "*"
            if op == "/" and not (isinstance(o2, gpkit.Monomial)):
                op = "*"
            f = {"+": operator.add, "-": operator.sub, "*": operator.mul,
                 "/": operator.truediv}[op]
            new, nv, nt = apply(f, obj, o2), [f(a, b) for a, b in zip(vals, v2)], \
                "(%s %s %s)" % (txt, op, t2)
        elif r < .6:     # nomial op number, either side
            c = rng.choice(nums)
            op = rng.choice(["*", "r*", "/", "r/", "+", "r+", "-", "r-", "*=", "+="])
            if dim != alg.DIMLESS and op.strip("r=") in "+-":
                op = "r*"
            if "-" in op and not signed:
                op = "*"
            if op == "r/" and not isinstance(obj, gpkit.Monomial):
                op = "/"
            f = {"+": operator.add, "-": operator.sub, "*": operator.mul,
                 "/": operator.truediv, "*=": operator.imul,
                 "+=": operator.iadd}[op.strip("r")]
            if isinstance(c, np.generic) and op.startswith("r"):
                c = float(c)
            if op.startswith("r"):
                new, nv = apply(f, c, obj), [f(float(c), a) for a in vals]
                nt = "(%r %s %s)" % (c, op[1], txt)
            else:
                g = {"*=": operator.mul, "+=": operator.add}.get(op, f)
                new, nv = apply(f, obj, c), [g(a, float(c)) for a in vals]
                nt = "(%s %s %r)" % (txt, op, c)
        elif r < .78:    # nomial op dimensioned number
            c = rng.choice([1, 2, .5, 3.7, 12])
            op = rng.choice("+*/-" if signed else "+*/")
            u = alg.unit_for(rng, dim) if op in "+-" else rng.choice(list(alg.UNITS))
            if u is None:
                continue
            uf, ud = alg.unit_value(u)
            q = rng.choice([lambda: c*gpkit.units(u), lambda: gpkit.ureg.Quantity(c, u),
                            lambda: gpkit.ureg.Quantity(c, u)])()
            f = {"+": operator.add, "-": operator.sub, "*": operator.mul,
                 "/": operator.truediv}[op]
            new, nv = apply(f, obj, q), [f(a, Val(c*uf, None, ud)) for a in vals]
            nt = "(%s %s %r%s)" % (txt, op, c, u)
        elif r < .93:    # powers
            if isinstance(obj, gpkit.Monomial):
                n = rng.choice([2, -1, .5, -1.5, 0, 3, np.float64(2), np.int64(2)])
            else:
                n = rng.choice([0, 1, 2, 3])
                if len(obj.exps) > 6:
                    n = 2
            new, nv = apply(operator.pow, obj, n), [a**float(n) if n else Val(1.0)
                                                    for a in vals]
            nt = "(%s)**%r" % (txt, n)
        elif signed:
            new, nv, nt = apply(operator.neg, obj), [-a for a in vals], "-(%s)" % txt
        else:
            continue
        if hasattr(new, "exps") and len(new.exps) > 60:
            continue
        if any(not (abs(v.v) < 1e80 and v.a < 1e80
                    and (v.v == 0 or abs(v.v) > 1e-80)) for v in nv):
            continue
        log.append(nt)
        compare(rec, new, nv, points, w.decls, nt)
        rec.ev("chain_ops")
        if hasattr(new, "exps"):
            regs.append((new, nv, nt))
            rec.sig(nt, sorted(w.decls.items(), key=str))
    # everything built earlier still means what it meant
    for obj, vals, txt in regs:
        compare(rec, obj, vals, points, w.decls, txt + " (re-read)", "value-later")


SHAPES = [(1,), (2,), (3,), (4,), (2, 2), (2, 3), (3, 1), (1, 3), (2, 1, 2), (2, 2, 2)]


def arrays(rng, rec):
    "Array statements: elementwise, broadcasting, reductions, products, indexing"
    import gpkit
    from gpkit import NomialArray, VectorVariable
    decls, objs, regs = {}, {}, []
    points = [{}, {}]
    signed = rng.random() < .4
    units = rng.random() < .7

    def newpoint(name, idx, unit):
        for p in points:
            p[(name, idx)] = alg.decl_factor(unit)[0]*np.exp(rng.uniform(-1.2, 1.2))
        d = alg.decl_factor(unit)[1]
        return [Val(p[(name, idx)], None, d) for p in points]

    base = rng.choice(SHAPES)
    pool = rng.choice([["m", "ft", "cm"], ["kg", "lb"], ["N", "lbf"], [None]]) \
        if units else [None]
    for i in range(rng.randint(2, 3)):
        shape = rng.choice([base, base, base[-1:], ()])
        unit = rng.choice(pool)
        name = "abcde"[i]
        decls[name] = unit
        args = (unit,) if unit else ()
        if shape == ():
            v = gpkit.Variable(name, *args)
            ex = newpoint(name, None, unit)
            regs.append((v, [np.array(e, dtype=object)[()] for e in ex], name))
            continue
        v = VectorVariable(shape if len(shape) > 1 or rng.random() < .5 else shape[0],
                           name, *args)
        exs = [np.empty(shape, object) for _ in points]
        for idx in np.ndindex(*shape):
            for a, e in zip(exs, newpoint(name, idx, unit)):
                a[idx] = e
        regs.append((v, exs, name))
    if rng.random() < .4:
        arr = np.round(np.exp([[rng.uniform(-1, 1) for _ in range(base[-1])]]), 3)[0]
        if rng.random() < .4:
            arr = np.arange(1, base[-1]+1)
        regs.append((arr, [arr, arr], "np%s" % arr.tolist()))

    def isarr(o):
        return isinstance(o, np.ndarray) and o.shape

    def run(f, *args):
        if signed:
            with gpkit.SignomialsEnabled():
                return f(*args)
        return f(*args)

    ops = 0
    for _ in range(rng.randint(4, 14)):
        o1, v1, t1 = rng.choice(regs)
        kind = rng.choice(["bin", "bin", "bin", "num", "pow", "sum", "sumax", "prod",
                           "prodax", "outer", "index", "neg", "mat", "T", "list"])
        try:
            if kind == "bin":
                o2, v2, t2 = rng.choice(regs)
                if not (isinstance(o1, np.ndarray) or isinstance(o2, np.ndarray)):
                    continue
                op = rng.choice("+-*/" if signed else "+**/")
                f = {"+": operator.add, "-": operator.sub, "*": operator.mul,
                     "/": operator.truediv}[op]
                if op == "/" and not all(isinstance(e, (gpkit.Monomial, int, float,
                                                        np.generic))
                                         for e in np.asarray(o2, object).flat):
                    f, op = operator.mul, "*"
                nv = [f(a, b) for a, b in zip(v1, v2)]
                g, args, nt = f, (o1, o2), "(%s %s %s)" % (t1, op, t2)
            elif kind == "num":
                if not isinstance(o1, NomialArray):
                    continue
                c = rng.choice([2, .5, 3, 10, np.float64(1.5)])
                f = rng.choice([lambda a, c=c: a*c, lambda a, c=c: c*a,
                                lambda a, c=c: a/c, lambda a, c=c: a+c,
                                lambda a, c=c: c+a])
                if isinstance(c, np.generic):
                    f = lambda a, c=c: a*c
                nv, g, args = [f(a) for a in v1], f, (o1,)
                nt = "num%r(%s)" % (c, t1)
            elif kind == "pow":
                if not isinstance(o1, NomialArray):
                    continue
                mono = all(isinstance(e, gpkit.Monomial) for e in o1.flat)
                n = rng.choice([2, -1, .5, 3, 0] if mono else [2, 1, 2])
                nv = []
                for a in v1:
                    out = np.empty(a.shape, object)
                    for idx in np.ndindex(*a.shape):
                        out[idx] = alg.val(a[idx])**n
                    nv.append(out)
                g, args, nt = operator.pow, (o1, n), "%s**%r" % (t1, n)
            elif kind == "neg":
                if not signed:
                    continue
                nv, g, args, nt = [-a for a in v1], operator.neg, (o1,), "-" + t1
            elif not isinstance(o1, NomialArray):
                continue
            elif kind == "sum":
                nv, g, args, nt = [a.sum() for a in v1], lambda o: o.sum(), (o1,), \
                    t1 + ".sum()"
            elif kind == "prod":
                nv, g, args, nt = [a.prod() for a in v1], lambda o: o.prod(), (o1,), \
                    t1 + ".prod()"
            elif kind in ("sumax", "prodax"):
                ax = rng.randrange(-o1.ndim, o1.ndim)
                meth = kind[:-2]
                pos = rng.random() < .5
                f = (lambda o, ax=ax, m=meth, pos=pos:
                     getattr(o, m)(ax) if pos else getattr(o, m)(axis=ax))
                nv, g, args, nt = [f(a) for a in v1], f, (o1,), \
                    "%s.%s(axis=%s)" % (t1, meth, ax)
            elif kind == "outer":
                o2, v2, t2 = rng.choice(regs)
                if not isarr(o2) or o2.ndim != 1 or o1.ndim != 1:
                    continue
                nv = [np.multiply.outer(a, b) for a, b in zip(v1, v2)]
                g, args, nt = (lambda a, b: a.outer(b)), (o1, o2), \
                    "%s.outer(%s)" % (t1, t2)
            elif kind == "mat":
                o2, v2, t2 = rng.choice(regs)
                if not isarr(o2) or o1.shape[-1] != o2.shape[max(0, o2.ndim-2)] \
                        or o1.ndim > 2 or o2.ndim > 2 or (o1.ndim == 0):
                    continue
                f = rng.choice([operator.matmul, lambda a, b: a.dot(b)])
                nv = [np.dot(a, b) for a, b in zip(v1, v2)]
                g, args, nt = f, (o1, o2), "(%s @ %s)" % (t1, t2)
            elif kind == "T":
                nv, g, args, nt = [a.T for a in v1], lambda o: o.T, (o1,), t1 + ".T"
            elif kind == "list":
                o2, v2, t2 = rng.choice(regs)
                if not isinstance(o2, NomialArray):
                    continue
                picks = [(o1.flat[0], [a.flat[0] for a in v1]),
                         (o2.flat[-1], [a.flat[-1] for a in v2])]
                nv = []
                for k in range(2):
                    a = np.empty(2, object)
                    a[0], a[1] = picks[0][1][k], picks[1][1][k]
                    nv.append(a)
                g, args = (lambda a, b: NomialArray([a, b])), (picks[0][0], picks[1][0])
                nt = "[%s.first, %s.last]" % (t1, t2)
            else:   # index
                idx = tuple(rng.choice([rng.randrange(s), slice(None),
                                        slice(0, max(1, s-1)), -1]) for s in o1.shape)
                if rng.random() < .3:
                    idx = idx[:1]
                f = lambda o, idx=idx: o[idx]
                nv, g, args, nt = [f(a) for a in v1], f, (o1,), "%s[%s]" % (t1, idx)
        except (DimError, ValueError, SystemError):  # SystemError: numpy object loops
            continue    # numpy or the dimensions refuse this combination
        if np.size(nv[0]) == 0 or np.size(nv[0]) > 40:
            continue
        flat = [alg.val(x) for a in nv for x in np.asarray(a, object).flat]
        if any(not (1e-60 < abs(x.v) < 1e60 and x.a < 1e60) for x in flat):
            continue
        if kind in ("prod", "prodax", "pow"):    # keep expansions small
            terms = [max(1, len(getattr(e, "exps", ()))) for e in o1.flat]
            if np.prod(np.array(terms, float))**(n if kind == "pow" else 1) > 200:
                continue
        new = run(g, *args)
        arr, want0 = np.asarray(new, dtype=object), np.asarray(nv[0], dtype=object)
        if arr.shape != want0.shape:
            raise Violation("wrong-shape", "%s has shape %s, expected %s"
                            % (nt, arr.shape, want0.shape))
        biggest = 0
        for idx in np.ndindex(*arr.shape):
            el = arr[idx]
            compare(rec, el, [alg.val(np.asarray(a, object)[idx]) for a in nv], points,
                    decls, "%s element %s" % (nt, idx), "array-value")
            rec.ev("elements_compared")
            biggest = max(biggest, len(getattr(el, "exps", ())))
        rec.ev("op_" + kind)
        ops += 1
        rec.sig(nt, base, sorted(decls.items(), key=str))
        if biggest <= 12 and len(nt) < 400:
            regs.append((new, nv, nt))
    rec.ev("array_ops", ops)
    if ops:
        rec.sample("%s over %s" % (regs[-1][2], decls))
    for obj, vals, txt in regs:   # operands unchanged
        for idx in np.ndindex(*np.shape(obj)):
            compare(rec, np.asarray(obj, object)[idx],
                    [alg.val(np.asarray(a, object)[idx]) for a in vals], points, decls,
                    txt + " (re-read)", "value-later")


class Poly(dict):
    """Exact polynomial: exponents -> (coefficient, sum of absolute contributions)"""
    def add(self, other, sign=1):
        out = Poly(self)
        for e, (c, a) in other.items():
            c0, a0 = out.get(e, (0, 0))
            out[e] = (c0 + sign*c, a0 + a)
        return out

    def mul(self, other):
        out = Poly()
        for e1, (c1, a1) in self.items():
            for e2, (c2, a2) in other.items():
                e = tuple(sorted(e1 + e2))
                c0, a0 = out.get(e, (0, 0))
                out[e] = (c0 + c1*c2, a0 + a1*a2)
        return out


def coeffs(rng, rec):
    "Every coefficient of sums and products of polynomials, by exact fractions"
    import gpkit
    from fractions import Fraction
    names = "xyz"[:rng.randint(1, 3)]
    v = {n: gpkit.Variable(n) for n in names}
    near = rng.choice([1e-3, 1e-5, 1e-6, 3e-7, 1e-8, 1e-10])
    tiny = rng.choice([1, 1, 1, 1e-4, 1e-9, 1e6, 1e12])

    def leaf():
        "a small polynomial; coefficients which nearly cancel are common"
        p, expr = Poly(), None
        for _ in range(rng.randint(1, 3)):
            e = "".join(sorted(rng.choice(names) for _ in range(rng.choice([0, 1, 1, 2]))))
            c = rng.choice([1., -1., 2., -2., 1 + near, -(1 + near), -(1 - near), .1, -.3,
                            round(rng.uniform(-5, 5), 3) or 1., near])
            c *= rng.choice([1, 1, tiny])
            t = c
            for n in e:
                t = t*v[n]
            expr = t if expr is None else expr + t
            p = p.add(Poly({tuple(e): (Fraction(c), abs(Fraction(c)))}))
        return p, expr

    with gpkit.SignomialsEnabled():
        p, expr = leaf()
        for _ in range(rng.randint(1, 5)):
            q, e2 = leaf()
            op = rng.choice("+-**c")
            if op == "c":       # (A + B)*(A - (1 + near)*B) nearly cancels A*B
                b, e3 = leaf()
                f = rng.choice([1 + near, 1 - near, 1])
                b2 = b.mul(Poly({(): (Fraction(f), Fraction(f))}))
                q2, e2 = q.add(b).mul(q.add(b2, -1)), (e2 + e3)*(e2 - f*e3)
                q = q2
                op = rng.choice("+-*")
            if op == "*" and len(p)*len(q) > 60:
                op = "+"
            if op == "*" and rng.random() < .2:
                q, e2 = p, expr     # squares, by product or by power
                if rng.random() < .5:
                    p, expr = p.mul(p), (expr**2 if hasattr(expr, "hmap") else expr*expr)
                    continue
            p, expr = (p.mul(q), expr*e2) if op == "*" else \
                (p.add(q), expr + e2) if op == "+" else (p.add(q, -1), expr - e2)
    got = {}
    if hasattr(expr, "hmap"):
        for exp, c in expr.hmap.items():
            e = tuple(sorted("".join(k.name*int(n) for k, n in exp.items())))
            rec.check(all(n == int(n) and n > 0 for n in exp.values()) and e not in got,
                      "wrong-exponents", "exponents %r in %s" % (exp, expr))
            got[e] = float(c)
    else:
        got[()] = float(expr)
    for e in set(got) | set(p):
        c, a = p.get(e, (0, 0))
        if not rec.check(abs(got.get(e, 0.) - float(c)) <= 3e-14*float(a),
                         "wrong-coefficient", "the coefficient of %s in %s is %r, exactly "
                         "it is %r" % ("*".join(e) or "1", expr, got.get(e, 0.), float(c))):
            return
        rec.ev("coefficients")
        if c and abs(c) < 1e-4*a:
            rec.ev("near_cancelled")
    if any(e for e in got):
        rec.sig("coeffs", sorted((e, float(c)) for e, (c, _) in p.items()))


def mixed(rng, rec):
    "Sums of arrays holding numbers, zeros, quantities and nomials at once"
    import gpkit
    from gpkit import NomialArray
    unit = rng.choice([None, None, "m", "ft", "kg", "hr"])
    alts = {"m": ["m", "ft", "cm"], "ft": ["m", "ft"], "kg": ["kg", "lb"],
            "hr": ["hr", "s"], None: ["-", "m/ft", "-"]}[unit]
    decls, point, objs = {}, {}, []
    for n in "ab":
        u = None if unit is None else rng.choice(alts)
        decls[n] = u
        x = gpkit.Variable(n, *([u] if u else []))
        f, d = alg.decl_factor(u)
        point[(n, None)] = f*np.exp(rng.uniform(-1, 1))
        objs.append((x, Val(point[(n, None)], None, d)))

    def element():
        r = rng.random()
        if r < .3:
            z = rng.choice([0, 0.0, np.float64(0), np.int64(0)])
            return z, Val(0., 0., alg.DIMLESS), "0"
        if r < .45 and unit is None:
            c = rng.choice([1, 2.5, np.float64(.5), np.int64(3)])
            return c, Val(float(c)), repr(float(c))
        if r < .6 and unit is not None:
            u, c = rng.choice(alts), rng.choice([1, .5, 7.])
            f, d = alg.unit_value(u)
            return gpkit.ureg.Quantity(c, u), Val(c*f, None, d), "%s%s" % (c, u)
        x, val = rng.choice(objs)
        c = rng.choice([1, 1, 2, .5])
        return c*x, val*float(c), "%s*%s" % (c, x)
    shape = rng.choice([(2,), (3,), (4,), (2, 2), (3, 2)])
    els = [element() for _ in range(int(np.prod(shape)))]
    if rng.random() < .25 and shape == (2,):
        # zeros which come from a product with an array
        x, val = rng.choice(objs)
        vec = gpkit.VectorVariable(2, "w", *([unit] if unit else []))
        f, d = alg.decl_factor(unit)
        fac = rng.choice([[0, 1], [1, 0], [0., 0.], [2, 0], [0, 0]])
        arr = vec*rng.choice([list, np.array])(fac)
        vals = []
        decls["w"] = unit
        for i in range(2):
            point[("w", (i,))] = f*np.exp(rng.uniform(-1, 1))
            vals.append(Val(point[("w", (i,))], None, d)*float(fac[i]))
        text = "w*%s" % fac
    else:
        a = np.empty(len(els), object)
        for i, e in enumerate(els):
            a[i] = e[0]
        arr = NomialArray(a.reshape(shape))
        vals = [e[1] for e in els]
        text = "NomialArray([%s])%s" % (", ".join(e[2] for e in els), shape)
    vals = np.array(vals + [None], object)[:-1].reshape(shape)

    def total(v):
        "zero may be added to anything"
        out = None
        for x in v:
            if x.v or x.a:
                out = x if out is None else out + x
        return Val(0., 0.) if out is None else out

    got = arr.sum()
    hasnomial = any(hasattr(e, "hmap") for e in arr.flat)
    check_total(rec, got, total(vals.flat), point, decls, text + ".sum()")
    rec.ev("mixed_sums")
    rec.sig("mixed", text, str(decls))
    if any(hasattr(e, "magnitude") for e in arr.flat):
        return
    for ax in range(len(shape)):
        got = np.asarray(arr.sum(axis=ax), object)
        want = np.apply_along_axis(lambda col: [total(col)], ax, vals) \
            if len(shape) > 1 else np.array([total(vals), None], object)[:1]
        want = np.asarray(want, object).reshape(-1)
        for g, wv in zip(got.reshape(-1), want):
            check_total(rec, g, wv, point, decls, "%s.sum(axis=%i)" % (text, ax))
            rec.ev("mixed_axis_sums")
    if hasnomial and unit is not None:
        # anything but a zero must have the right dimensions
        bad = np.empty(2, object)
        bad[0], bad[1] = objs[0][0], rng.choice([1.5, np.float64(2)])
        for b in (bad, bad[::-1]):
            try:
                out = NomialArray(b).sum()
            except Exception as e:  # pylint: disable=broad-except
                rec.check(type(e).__name__ == "DimensionalityError", "wrong-error",
                          "summing %s raised %r" % (list(b), e))
                rec.ev("mixed_refused")
            else:
                rec.fail("units-lost", "summing %s gave %s" % (list(b), out))


def check_total(rec, got, want, point, decls, what):
    if not want.a:      # nothing but zeros
        g = alg.measure(got, point, decls)
        rec.check(g.v == 0, "wrong-value", "%s gave %s" % (what, got))
        return
    compare(rec, got, [want], [point], decls, what)


def integers(rng, rec):
    "numpy's integers are numbers like any other: their limits aren't an expression's"
    import gpkit
    dtype = rng.choice([np.int64, np.int64, np.int32, np.int16, np.int8])
    k = rng.randint(2, 100)
    x, xv = gpkit.Variable("x"), rng.uniform(.2, 5)
    start = rng.choice(["mono", "times", "plus", "qty", "sum", "cs"])
    if start == "mono":
        m, v = gpkit.Monomial(dtype(k)), float(k)
    elif start == "cs":
        m, v = gpkit.Monomial({"x": 2}, dtype(k)), k*xv**2
    elif start == "times":
        m, v = gpkit.Monomial(3)*dtype(k)*x, 3.*k*xv
    elif start == "qty":
        m, v = gpkit.ureg.Quantity(dtype(k), "m")*x, k*xv
    elif start == "plus":
        m, v = (x + dtype(k))*1, xv + k
    else:
        m, v = gpkit.NomialArray([x, dtype(k), dtype(1)]).sum(), xv + k + 1
    mono = isinstance(m, gpkit.Monomial)
    unit = 1 if start == "qty" else 0
    n = rng.choice([-3, -2, -1, -1, 12, 20, 30, .5] if mono else [4, 9, 15])
    out, want = (m**n, v**n) if n != -1 or rng.random() < .5 else (1/m, 1/v)
    if rng.random() < .5:
        c = rng.randint(2, 100)
        out, want = out*dtype(c), want*c
    rec.ev("integer_coefficients")
    rec.sig(str(dtype), k, start, n)
    got = alg.measure(out, {("x", None): xv}, {"x": None})
    if not abs(got.v/want - 1) < 1e-9 or got.d[0] != unit*n:
        raise Violation("numpy-integer", "%s(%i), %s, to the power of %s: %s at x=%r is %r, "
                        "expected %r" % (dtype.__name__, k, start, n, out, xv, got, want))


def unsupported(rng, rec):
    "What isn't a signomial is refused, or else is right"
    import gpkit
    w = alg.World(rng, 2, units=rng.random() < .5).make()
    names = list(w.decls)
    d = w.dim(names[0])
    tree, _ = alg.gen(rng, w, rng.choice([1, 2, 2]), False)
    p = alg.build(tree, w.objs)
    if not isinstance(p, gpkit.Posynomial) or isinstance(p, gpkit.Monomial):
        raise Skip("one term")
    point = w.point()
    v = alg.evaluate(tree, alg.dimmed(point, w))
    x = w.objs[names[0]]
    xv = Val(point[(names[0], None)], None, d)
    c = rng.choice([2, .5, 3, np.float64(2.5), 1])
    n = rng.choice([-1, -2, -3, .5, 1.5, 2.0, -0.5, np.float64(3), np.int64(-2), np.int64(2)])
    how, f, want = rng.choice([
        ("p**%r" % n, lambda: p**n, v**float(n)), ("p**%r" % n, lambda: p**n, v**float(n)),
        ("p**%r" % n, lambda: (p*1)**n, v**float(n)),
        ("%r/p" % c, lambda: c/p, Val(float(c))/v), ("x/p", lambda: x/p, xv/v),
        ("p/p", lambda: p/p, v/v), ("p/(p+p)", lambda: p/(p + p), v/(v + v)),
        ("p/x", lambda: p/x, v/xv), ("p/%r" % c, lambda: p/c, v/Val(float(c)))])
    rec.sig(alg.show(tree), how)
    try:
        if rng.random() < .3:
            with enabled():
                out = f()
        else:
            out = f()
    except TypeError:
        rec.ev("unsupported_refused")
        rec.check(how.startswith("p**") and float(n) not in (2., 3.) or how.endswith("p")
                  or ")" in how or isinstance(n, float), "refused", "%s, p = %s" % (how, p))
        return
    rec.ev("unsupported_allowed")
    compare(rec, out, [want], [point], w.decls, "%s, p = %s" % (how, alg.show(tree)))


KINDS = {"unsupported": (unsupported, 1000, 12000), "scalar": (scalar, 1600, 30000), "chain": (chain, 800, 15000),
         "arrays": (arrays, 700, 14000), "coeffs": (coeffs, 1200, 24000),
         "mixed": (mixed, 500, 8000), "integers": (integers, 300, 5000)}
NEED = {"trees": 1000, "high_powers": 60, "points_compared": 8000, "chain_ops": 2000, "array_ops": 1500,
        "elements_compared": 4000, "op_sum": 30, "op_prod": 30, "op_sumax": 30,
        "op_outer": 10, "op_mat": 5, "op_index": 50,
        "coefficients": 3000, "near_cancelled": 100, "mixed_sums": 250,
        "mixed_axis_sums": 150, "mixed_refused": 50,
        "integer_coefficients": 200, "unsupported_refused": 80,
        "unsupported_allowed": 40}
