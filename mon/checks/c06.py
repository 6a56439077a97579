"""C06: .diff() against forward-mode differentiation of the same operator tree."""
from ..core import Violation, Skip
from .. import alg
from ..alg import Val

PROP = "C06"
RULE = ("a case is a random expression (with units) and a variable; non-trivial if the "
        "variable appears in it, identified by expression text and variable")
ASSUME = ["pint's unit conversion factors are trusted"]


def agree(rec, got, wants, pts, decls, what):
    for want, pt in zip(wants, pts):
        g = alg.measure(got, pt, decls)
        rec.ev("points_compared")
        if alg.same(g, want, 1e-8):
            continue
        if g.v == 0 and abs(want.v) <= 1e-9*max(want.a, 1e-300):
            if g.d == want.d:
                continue    # a plain zero
        raise Violation("wrong-derivative" if g.d == want.d else "wrong-units",
                        "%s = %s evaluates to %r, expected %r at %s"
                        % (what, got, g, want, pt))


def diff(rng, rec):
    import gpkit
    signed = rng.random() < .5
    w = alg.World(rng, rng.randint(1, 4), units=rng.random() < .75).make()
    tree, d = alg.gen(rng, w, rng.choice([1, 2, 3, 4]), signed)
    pts = [w.point() for _ in range(3)]
    fps = [alg.dimmed(p, w) for p in pts]
    with gpkit.SignomialsEnabled():
        expr = alg.build(tree, w.objs)
        if not hasattr(expr, "diff"):
            expr = gpkit.nomials.Signomial(expr)
    before = (str(expr.hmap), hash(expr))
    for name in list(w.decls):
        key = (name, None)
        var = w.objs[name]
        got = expr.diff(rng.choice([var, var.key]))
        gv = [alg.grad(tree, fp, key) for fp in fps]
        what = "d(%s)/d%s" % (alg.show(tree), name)
        agree(rec, got, [g for _, g in gv], pts, w.decls, what)
        alg.check_fresh(rec, got, what)
        if any(var.key in e for e in expr.exps):
            rec.sig(alg.show(tree), name, sorted(w.decls.items(), key=str))
            rec.ev("appearing")
        else:
            rec.ev("absent")
            if any(float(c) != 0 for c, _ in alg.terms(got)):
                raise Violation("nonzero-for-absent", "%s = %s" % (what, got))
        other = rng.choice(list(w.decls))
        d1 = expr.diff(var).diff(w.objs[other])
        d2 = expr.diff(w.objs[other]).diff(var)
        for pt in pts:
            a, b = alg.measure(d1, pt, w.decls), alg.measure(d2, pt, w.decls)
            if not (alg.same(a, b, 1e-8) or (a.v == 0 and b.v == 0)):
                raise Violation("not-commuting", "%s then %s: %s vs %s"
                                % (what, other, d1, d2))
        rec.ev("second_derivatives")
    # an absent variable
    q = gpkit.Variable("q_absent", "m")
    z = expr.diff(q)
    if alg.measure(z, pts[0], dict(w.decls, q_absent="m")).v != 0:
        raise Violation("nonzero-for-absent", "d(%s)/dq = %s" % (expr, z))
    if before != (str(expr.hmap), hash(expr)):
        raise Violation("operand-changed", "diff changed %s" % expr)
    rec.sample("%s: derivatives match" % expr)


def rules(rng, rec):
    "linearity and product rule, through gpkit's own operators"
    import gpkit
    w = alg.World(rng, rng.randint(1, 3), units=rng.random() < .7).make()
    with gpkit.SignomialsEnabled():
        t1, d = alg.gen(rng, w, 2, True)
        t2 = alg.gen_like(rng, w, d, 2, True)
        p, q = (alg.build(t, w.objs) for t in (t1, t2))
        if not (hasattr(p, "diff") and hasattr(q, "diff")):
            raise Skip("not an expression")
        x = w.objs[rng.choice(list(w.decls))]
        psum, pscaled, pprod = (p + q).diff(x), (3*p).diff(x), (p*q).diff(x)
    xd = w.dim(x.key.name)
    for _ in range(2):
        pt = w.point()
        P, Q = alg.measure(p, pt, w.decls), alg.measure(q, pt, w.decls)
        dp, dq = alg.measure(p.diff(x), pt, w.decls), alg.measure(q.diff(x), pt, w.decls)
        for dv, base in ((dp, P), (dq, Q)):
            if dv.v == 0:
                dv.d = alg.dimadd(base.d, xd, -1)
        with gpkit.SignomialsEnabled():
            parts = p.diff(x) + q.diff(x)    # zero derivatives can be added too
        if len(parts.hmap) > 1 and any(c == 0 for c, _ in alg.terms(parts)):
            raise Violation("zero-term", "%s keeps a zero term" % parts.hmap)
        for name, got, want in (("sum", psum, dp + dq), ("sum-of-derivatives", parts, dp + dq),
                                ("scaled", pscaled, 3*dp),
                                ("product", pprod, dp*Q + P*dq)):
            g = alg.measure(got, pt, w.decls)
            if g.v == 0:
                g.d = want.d
            if not alg.same(g, want, 1e-8):
                raise Violation("rule-" + name, "%s rule fails for p=%s q=%s by %s: %r, %r"
                                % (name, p, q, x, g, want))
            rec.ev("rules_checked")
    rec.sig("rule", alg.show(t1), alg.show(t2), str(x))


def vectors(rng, rec):
    "derivatives by vector elements, of sums, products and indexed vectors"
    import gpkit
    unit = rng.choice([None, "m", "ft"])
    n = rng.randint(2, 4)
    v = gpkit.VectorVariable(n, "v", *([unit] if unit else []))
    y = gpkit.Variable("y", "kg")
    f, d = alg.decl_factor(unit)
    pt = {("v", (i,)): f*rng.uniform(.5, 2) for i in range(n)}
    pt[("y", None)] = rng.uniform(.5, 2)
    decls = {"v": unit, "y": "kg"}
    vals = [Val(pt[("v", (i,))], None, d) for i in range(n)]
    Y = Val(pt[("y", None)], None, alg.UNITS["kg"][1])
    k = rng.randrange(n)
    s, p = v.sum(), v.prod()
    prod_wo = Val(1.0)
    for i in range(n):
        if i != k:
            prod_wo = prod_wo*vals[i]
    for got, want, what in (
            (s.diff(v[k]), Val(1.0), "sum"), (p.diff(v[k]), prod_wo, "prod"),
            ((y*s).diff(v[k].key), Y, "scaled sum"),
            ((v[k]**3*y).diff(v[k]), Val(3.0)*vals[k]*vals[k]*Y, "element"),
            ((v[k]**3*y).diff(v[(k+1) % n]), None, "other element")):
        g = alg.measure(got, pt, decls)
        rec.ev("points_compared")
        ok = g.v == 0 if want is None else alg.same(g, want)
        if not ok:
            raise Violation("wrong-derivative", "%s by v[%i]: %s = %r, expected %r"
                            % (what, k, got, g, want))
    rec.sig("vec", n, unit, k)


KINDS = {"diff": (diff, 1200, 25000), "rules": (rules, 400, 8000),
         "vectors": (vectors, 100, 600)}
NEED = {"points_compared": 3000, "appearing": 800, "absent": 50,
        "second_derivatives": 1000, "fresh_checked": 800, "rules_checked": 500}
