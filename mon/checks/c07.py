"""C07: monomial approximations: tangency, units and the lower-bound property."""
import math
from ..core import Violation, Skip
from .. import alg
from ..alg import Val

PROP = "C07"
RULE = ("a case is a random expression, positive at a random point, approximated there; "
        "non-trivial if it has two or more terms, identified by text and point")
ASSUME = ["pint's unit conversion factors are trusted"]


def x0_of(rng, w, pt):
    "the point in declared units, keyed in various ways"
    out = {}
    for n, u in w.decls.items():
        v = pt[(n, None)]/alg.decl_factor(u)[0]
        out[rng.choice([w.objs[n], w.objs[n].key, n])] = v
    return out


def approx(rng, rec):
    import gpkit
    signed = rng.random() < .4
    w = alg.World(rng, rng.randint(1, 4), units=rng.random() < .7).make()
    tree, d = alg.gen(rng, w, rng.choice([1, 2, 3, 3]), signed)
    with gpkit.SignomialsEnabled():
        expr = alg.build(tree, w.objs)
    if not hasattr(expr, "hmap") or not any(expr.exps):
        raise Skip("constant")
    for _ in range(6):
        pt = w.point(spread=1.0)
        want = alg.evaluate(tree, alg.dimmed(pt, w))
        if want.v > 1e-2*want.a:
            break
    else:
        raise Skip("not positive")
    before = (str(expr.hmap), hash(expr))
    x0 = x0_of(rng, w, pt)
    keep = {k: v for k, v in x0.items()}
    if rng.random() < .3:
        x0[gpkit.Variable("unrelated")] = 4.0
        keep = dict(x0)
    mono = expr.mono_approximation(x0)
    what = "approximation of %s at %s" % (alg.show(tree), {str(k): v
                                                           for k, v in x0.items()})
    if len(mono.exps) != 1:
        raise Violation("not-monomial", "%s is %s" % (what, mono))
    (c, exp), = alg.terms(mono)
    got = alg.measure(mono, pt, w.decls)
    cond = want.a/abs(want.v)
    if not alg.same(got, Val(want.v, want.a, want.d), 1e-8):
        raise Violation("wrong-value" if got.d == want.d else "wrong-units",
                        "%s is %s, value %r, expected %r" % (what, mono, got, want))
    if mono.units != expr.units:
        raise Violation("wrong-units", "%s has units %s, not %s"
                        % (what, mono.units, expr.units))
    xs = {vk.name: x for vk, x in exp.items()}
    for n in w.decls:
        y, dy = alg.grad(tree, alg.dimmed(pt, w), (n, None))
        e = dy.v*pt[(n, None)]/y.v
        tol = 1e-8*max(1.0, dy.a*pt[(n, None)]/abs(y.v), cond)
        if abs(xs.get(n, 0.0) - e) > tol:
            raise Violation("not-tangent", "%s: exponent of %s is %s, log-derivative %s"
                            % (what, n, xs.get(n, 0.0), e))
        rec.ev("exponents_checked")
    posy = isinstance(expr, gpkit.Posynomial)
    if posy:
        lb = expr.mono_lower_bound(x0)
        for _ in range(6):
            q = w.point(spread=rng.choice([.01, .3, 2, 4]))
            for k in q:   # around the point of approximation
                q[k] = pt[k]*math.exp(rng.uniform(-1, 1)*rng.choice([.01, .3, 2]))
            p = alg.evaluate(tree, alg.dimmed(q, w))
            for m in (mono, lb):
                mv = alg.measure(m, q, w.decls)
                if not mv.v <= p.v*(1 + 1e-8):
                    raise Violation("above-posynomial", "%s exceeds it at %s: %r > %r"
                                    % (what, q, mv, p))
            rec.ev("lower_bound_points")
        rec.ev("posynomials")
    else:
        rec.ev("signomials")
    if before != (str(expr.hmap), hash(expr)) or keep != x0:
        raise Violation("operand-changed", what + " changed its inputs")
    if len(expr.exps) > 1:
        rec.sig(alg.show(tree), sorted(pt.items(), key=str))
    rec.sample(what + " = %s" % mono)


def posy_tree(rng, w, d, n):
    t = None
    for _ in range(n):
        u = alg.gen_like(rng, w, d, 0, False)
        t = u if t is None else ("add", t, u)
    return t


def constraint(rng, rec):
    "A signomial constraint approximated at a point is never looser than the original"
    import gpkit
    w = alg.World(rng, rng.randint(2, 4), units=rng.random() < .7).make()
    lt, d = alg.gen(rng, w, 1, False)
    lt = posy_tree(rng, w, d, rng.randint(1, 3)) if rng.random() < .5 else lt
    gt = posy_tree(rng, w, d, rng.randint(1, 3))
    equality = rng.random() < .25
    pt = w.point(spread=.8)
    # scale so that the point is near the boundary
    a, b = alg.evaluate(lt, alg.dimmed(pt, w)), alg.evaluate(gt, alg.dimmed(pt, w))
    k = a.v/b.v*math.exp(rng.uniform(-.4, .4))
    gt = ("mul", ("num", float("%.6g" % k)), gt)
    with gpkit.SignomialsEnabled():
        l, r = alg.build(lt, w.objs), alg.build(gt, w.objs)
        if not hasattr(l, "hmap") or not hasattr(r, "hmap"):
            raise Skip("constant side")
        diff = l - r
        cs = [c for c, _ in alg.terms(diff)] if hasattr(diff, "hmap") else []
        if not (any(c > 0 for c in cs) and any(c < 0 for c in cs)):
            raise Skip("one side cancelled entirely")
        try:
            if equality:
                from gpkit.nomials import SingleSignomialEquality
                con = SingleSignomialEquality(l, r)
            elif rng.random() < .5:
                con = gpkit.nomials.SignomialInequality(l, "<=", r)
            else:
                con = gpkit.nomials.SignomialInequality(r, ">=", l)
        except (gpkit.exceptions.PrimalInfeasible, AttributeError) as e:
            # its approximation at the default guess (all ones) is a false comparison
            # of constants; refused loudly, and nothing this property speaks about
            if isinstance(e, AttributeError) and "'bool'" not in str(e):
                raise
            raise Skip("approximation at all ones is constant")
    x0 = {w.objs[n].key: pt[(n, None)]/alg.decl_factor(u)[0]
          for n, u in w.decls.items()}
    def nearby(spread=None):
        return {k2: v*math.exp(rng.uniform(-1, 1)*(spread or rng.choice([.05, .5, 2])))
                for k2, v in pt.items()}

    def ratio(c, q):
        s, g = (c.left, c.right) if c.oper in ("<=", "=") else (c.right, c.left)
        return alg.measure(s, q, w.decls).v/alg.measure(g, q, w.decls).v

    def orig(q):
        return (alg.evaluate(lt, alg.dimmed(q, w)).v
                / alg.evaluate(gt, alg.dimmed(q, w)).v)
    try:
        ap = con.as_gpconstr(x0)
    except gpkit.exceptions.PrimalInfeasible:
        if equality or all(orig(nearby()) > 1 for _ in range(20)):
            raise Skip("infeasible everywhere")
        raise
    except (OverflowError, ZeroDivisionError):
        raise Skip("overflow")
    # sides merge when the constraint is formed, so compare feasibility, not ratios
    f0 = orig(pt)
    if equality:
        raise_ = abs(math.log(ratio(ap, pt)))
        if (abs(math.log(f0)) < 1e-9) != (raise_ < 1e-9):
            raise Violation("not-tangent", "equality approximation %s differs at its point"
                            % ap)
        rec.ev("equalities")
        rec.sig("eq", alg.show(lt), alg.show(gt))
        return
    if abs(math.log(f0)) > 1e-6 and (ratio(ap, pt) <= 1) != (f0 <= 1):
        raise Violation("not-tangent", "approximation %s of %s judges its own point"
                        " differently: %s vs %s" % (ap, con, ratio(ap, pt), f0))
    for _ in range(10):
        q = nearby()
        if ratio(ap, q) <= 1 - 1e-9 and orig(q) > 1 + 1e-7:
            raise Violation("looser", "approximation %s accepts %s, which %s refuses (%s)"
                            % (ap, q, con, orig(q)))
        rec.ev("accepted" if ratio(ap, q) <= 1 else "refused")
    rec.ev("constraints")
    rec.sig("con", alg.show(lt), alg.show(gt), sorted(pt.items(), key=str))


def incomplete(rng, rec):
    "There's no approximation at a point which isn't one"
    import gpkit
    n = rng.randint(1, 4)
    xs = [gpkit.Variable("x%i" % i) for i in range(n)]
    terms = []
    for _ in range(rng.randint(1, 4)):
        t = rng.uniform(.2, 3)
        for x in rng.sample(xs, rng.randint(1, n)):
            t = t*x**rng.choice([1, 2, -1, .5])
        terms.append(t)
    expr = sum(terms)
    used = [x for x in xs if x.key in expr.vks]
    missing = rng.sample(used, rng.randint(1, max(1, len(used)-1)))
    x0 = {rng.choice([x, x.key, x.key.name]): rng.uniform(.3, 3) for x in xs
          if not any(x is m for m in missing)}
    f = rng.choice(["mono_approximation", "mono_lower_bound"])
    if isinstance(expr, gpkit.Monomial) and f == "mono_lower_bound":
        f = "mono_approximation"
    rec.ev("incomplete_points")
    rec.sig(str(expr), str(missing), f)
    try:
        out = getattr(expr, f)(x0)
    except (ValueError, KeyError):
        return
    if isinstance(expr, gpkit.Monomial) and out.hmap == expr.hmap:
        return      # is its own, anywhere
    raise Violation("incomplete", "%s of %s at %s, without %s, was %s"
                    % (f, expr, x0, missing, out))


KINDS = {"incomplete": (incomplete, 300, 4000), "approx": (approx, 1500, 30000), "constraint": (constraint, 600, 12000)}
NEED = {"exponents_checked": 1500, "lower_bound_points": 2000, "signomials": 60,
        "constraints": 200, "accepted": 100, "refused": 100, "incomplete_points": 200, "equalities": 30}
