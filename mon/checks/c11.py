"""C11: sensitivities are the log-derivatives of the optimal cost.

The optimum of a geometric program is convex in the logs of its constants and of factors
relaxing its constraints, so the reported sensitivity has to lie between the slopes to a
slightly smaller and a slightly larger value, both taken from fresh solves of the altered
model.  Local solves are compared to multipliers from gradients at the point found.  Where convexity does not hold (computed constants, signomial constraints that
constants make geometric) the slopes are compared when they agree with each other.
"""
import math
import copy
import numpy as np
from ..core import Violation, Skip
from .. import alg, models
from . import c10
from .c08 import signomials

PROP = "C11"
RULE = ("a case is a random feasible geometric model, some of whose constants, pinned "
        "variables and constraints are perturbed and re-solved; non-trivial when at least "
        "one sensitivity was compared, identified by model text")
TECH = "monitor comparing reported sensitivities with slopes from fresh perturbed solves"
NOTE = ("slopes over +-2% (convex bracket), tolerance 4e-3 absolute plus 0.5%; a wrong "
        "sensitivity closer than that to the truth is not seen")
ASSUME = ["solver accuracy about 1e-6 on log cost"]
H = 0.02


def scaled_spec(spec, scale):
    s = copy.copy(spec)
    s.consts = dict(spec.consts)
    for (n, i), k in scale.items():
        v, u, shape = s.consts[n]
        if i is None:
            v = v*k
        else:
            v = np.array(v, float)
            v[i] *= k
        s.consts[n] = (v, u, shape)
    return s


def log_cost(spec, scale=None, pins=None, extra=None, relax=None):
    "log of the optimal cost (SI) of a freshly built, altered model; None if infeasible"
    import gpkit
    s = scaled_spec(spec, scale or {})
    objs = s.make_vars()
    if relax is not None:
        i, k = relax
        s.cons = list(s.cons)
        c = dict(s.cons[i])
        big = "l" if c["op"] == ">=" else "r"
        c[big] = ("mul", ("num", k), c[big])
        s.cons[i] = c
    built = [s.build_con(c, objs) for c in s.cons]
    if any(b is False for b in built):
        return None, None     # an equality that holds nowhere
    if extra:
        built += extra(objs)
    m = gpkit.Model(s.build_cost(objs), built, s.subs(objs))
    for (n, i), v in (pins or {}).items():
        o = objs[n] if i is None else objs[n][i]
        m.substitutions[o] = v/alg.decl_factor(spec.free[n][0])[0]
    try:
        sol = m.solve(verbosity=0)
    except gpkit.exceptions.Infeasible:
        return None, m
    f = alg.unit_factor(m.cost.units)[0]
    return math.log(float(sol["cost"])*f), m


def bracket(f0, fm, fp, h):
    "slopes to either side (None: infeasible there)"
    lo = (f0-fm)/h if fm is not None else -math.inf
    hi = (fp-f0)/h if fp is not None else math.inf
    return lo, hi


def compare(rec, what, s, lo, hi, convex=True):
    tol = 4e-3 + 5e-3*abs(s)
    if not convex:
        if not (math.isfinite(lo) and math.isfinite(hi)) or abs(hi-lo) > .05*(1+abs(s)):
            rec.ev("kinks_skipped")
            return False
        mid, tol = (lo+hi)/2, tol + .6*abs(hi-lo)
        lo = hi = mid
    if lo > hi + 1e-3:
        if lo > hi + .02*(1+abs(lo)):
            rec.ev("nonconvex_slopes")
        return False
    if not lo - tol <= s <= hi + tol:
        raise Violation("wrong-sensitivity", "%s: reported %.6g, slopes of fresh solves %.6g"
                        " and %.6g" % (what, s, lo, hi))
    rec.ev("sensitivities_compared")
    if abs(lo) > .01 and abs(hi-lo) < .1*abs(lo):
        rec.ev("sharp_nonzero")
    return True


def reported(sol, o, which="variables"):
    try:
        v = sol["sensitivities"][which][o]
    except KeyError:
        return 0.0
    return 0.0 if np.ndim(v) == 0 and np.isnan(v) else float(v)


def constants(rng, rec):
    spec = models.random_gp(rng, odd=rng.choice([0, .25]), nconst=rng.randint(1, 5), nfree=rng.randint(1, 4),
                            constvec=.5, constterms=.3)
    fkeys = spec.keys()
    pins = {}
    if rng.random() < .3 and len(fkeys) > 1:
        pins = {k: spec.hidden[k] for k in rng.sample(fkeys, rng.randint(1, len(fkeys)//2))}
    m = spec.model()
    for (n, i), v in pins.items():
        o = m.v_objs[n] if i is None else m.v_objs[n][i]
        m.substitutions[o] = v/alg.decl_factor(spec.free[n][0])[0]
    import gpkit
    try:
        sol = c10.solve(rng, m)
    except gpkit.exceptions.UnboundedGP:
        raise Skip("nothing left to bound")
    what = spec.text() + (" pins %s" % pins if pins else "")
    f = alg.unit_factor(m.cost.units)[0]
    f0 = math.log(float(sol["cost"])*f)
    used = spec.used()
    cands = [k for k in spec.keys("consts") if k in used] + list(pins)
    if not cands:
        raise Skip("no constant used")
    hit = False
    for k in rng.sample(cands, min(len(cands), 3)):
        o = m.v_objs[k[0]] if k[1] is None else m.v_objs[k[0]][k[1]]
        s = reported(sol, o)
        out = []
        for sg in (-1, 1):
            if k in pins:
                fx, _ = log_cost(spec, pins={**pins, k: pins[k]*math.exp(sg*H)})
            else:
                fx, _ = log_cost(spec, {k: math.exp(sg*H)}, pins)
            out.append(fx)
        lo, hi = bracket(f0, out[0], out[1], H)
        hit |= compare(rec, "%s: sensitivity to %s" % (what, k), s, lo, hi)
        if s == 0:
            rec.ev("zero_sensitivities")
        if sol["sensitivities"]["constants"] is not sol["sensitivities"]["variables"]:
            s2 = reported(sol, o, "constants")
            if abs(s2 - s) > 1e-12:
                raise Violation("wrong-sensitivity", what + " constants differ from variables")
    # dual feasibility: free variables have no sensitivity left
    for n, i in fkeys:
        if (n, i) not in pins:
            o = m.v_objs[n] if i is None else m.v_objs[n][i]
            s = reported(sol, o)
            if abs(s) > 2e-3:
                raise Violation("free-sensitivity", "%s: free %s has sensitivity %g"
                                % (what, (n, i), s))
            rec.ev("free_checked")
    # cost sensitivities: partial derivatives of log cost at the solution
    point = dict(pins)
    for n, i in fkeys:
        if (n, i) not in pins:
            o = m.v_objs[n] if i is None else m.v_objs[n][i]
            point[(n, i)] = float(sol["freevariables"][o])*alg.unit_factor(o.units)[0]
    csens = {alg.key_id(k): float(v) for k, v in sol["sensitivities"]["cost"].items()}
    c0 = spec.costval(point).v
    for k in used:
        up, dn = (spec.full(point) for _ in range(2))
        e = 1e-5
        for d, sg in ((up, 1), (dn, -1)):
            v, dd = d[k]
            d[k] = (v*math.exp(sg*e), dd)
        g = (math.log(models.evaluate(spec.cost, up).v)
             - math.log(models.evaluate(spec.cost, dn).v))/(2*e)
        if abs(csens.get(k, 0.0) - g) > 1e-4:
            raise Violation("wrong-cost-sensitivity", "%s: cost sensitivity of %s is %s,"
                            " d log cost/d log is %g" % (what, k, csens.get(k), g))
        rec.ev("cost_sensitivities")
    if hit:
        rec.sig(what)
    rec.sample(what)


def constraints(rng, rec):
    spec = models.random_gp(rng, odd=rng.choice([0, .25]), nfree=rng.randint(1, 4), equalities=.8,
                            constterms=.4, nconst=rng.randint(1, 4))
    m = spec.model()
    sol = c10.solve(rng, m)
    what = spec.text()
    f = alg.unit_factor(m.cost.units)[0]
    f0 = math.log(float(sol["cost"])*f)
    cs = sol["sensitivities"]["constraints"]
    point = spec.read(sol["freevariables"], m.v_objs)
    hit = False

    def elements(i):
        b, con = m.v_built[i], spec.cons[i]
        if con["shape"] is None:
            return [b]
        out = []
        for j in np.ndindex(*con["shape"]):
            c = b
            for q in j:
                c = c[q]
            out.append(c)
        return out

    for i, con in enumerate(spec.cons):
        for (r, eq), c in zip(spec.ratios(con, point), elements(i)):
            if c in cs and not eq and r < 1 - 1e-2:
                if abs(float(cs[c])) > 2e-3:
                    raise Violation("slack-sensitivity", "%s: slack constraint %s (ratio %s)"
                                    " has sensitivity %s" % (what, c, r, cs[c]))
                rec.ev("slack_checked")
    scalars = [i for i, c in enumerate(spec.cons) if c["shape"] is None]
    for i in rng.sample(scalars, min(3, len(scalars))):
        c = m.v_built[i]
        if not hasattr(c, "vks"):
            continue
        s = float(cs.get(c, 0.0))
        if s < 0:
            raise Violation("wrong-constraint-sensitivity", "%s: negative %s" % (what, s))
        out = [log_cost(spec, relax=(i, math.exp(sg*H)))[0] for sg in (-1, 1)]
        lo, hi = bracket(f0, out[0], out[1], H)     # slopes of log cost in the factor
        if spec.cons[i]["op"] == "=":
            sign = -1 if lo + hi < 0 else 1
            if not math.isfinite(lo + hi):
                sign = 1 if math.isinf(hi) and lo > 0 else -1
            s *= sign
        else:
            s = -s
        try:
            hit |= compare(rec, "%s: sensitivity of constraint %i" % (what, i), s, lo, hi)
        except Violation as v:
            raise Violation("wrong-constraint-sensitivity", v.msg)
        rec.ev("constraints_compared")
        if spec.cons[i]["op"] == "=":
            rec.ev("equalities_compared")
    # array constraints: total of the elements, relaxed together
    arrays = [i for i, c in enumerate(spec.cons) if c["shape"]]
    for i in rng.sample(arrays, min(1, len(arrays))):
        s = sum(float(cs.get(c, 0.0)) for c in elements(i))
        out = [log_cost(spec, relax=(i, math.exp(sg*H)))[0] for sg in (-1, 1)]
        lo, hi = bracket(f0, out[0], out[1], H)
        try:
            hit |= compare(rec, "%s: sensitivity of array constraint %i" % (what, i),
                           -s, lo, hi)
        except Violation as v:
            raise Violation("wrong-constraint-sensitivity", v.msg)
        rec.ev("arrays_compared")
    if hit:
        rec.sig(what)
    rec.sample(what)


def signomial(rng, rec):
    "Signomial constraints made geometric by constants"
    import gpkit
    spec = models.random_gp(rng, nfree=rng.randint(1, 3), nconst=rng.randint(1, 3),
                            vectors=0, ncons=rng.randint(0, 2))
    import random
    seed = rng.random()

    def extra(objs):
        return signomials(random.Random(seed), spec, objs)[0]
    try:
        f0, m = log_cost(spec, extra=extra)
    except gpkit.exceptions.InvalidGPConstraint:
        raise Skip("not geometric")
    if f0 is None:
        raise Skip("infeasible")
    sol = m.solution
    objs = {vk.name: vk for vk in m.varkeys}
    what = spec.text() + " with %s" % extra(spec.make_vars())
    hit = False
    for k in spec.keys("consts"):
        if k[0] not in objs:
            continue
        s = reported(sol, objs[k[0]])
        out = []
        for sg in (-1, 1):
            try:
                out.append(log_cost(spec, {k: math.exp(sg*H/4)}, extra=extra)[0])
            except gpkit.exceptions.InvalidGPConstraint:
                out.append(None)
        lo, hi = bracket(f0, out[0], out[1], H/4)
        hit |= compare(rec, "%s: sensitivity to %s" % (what, k), s, lo, hi, convex=False)
        rec.ev("signomial_compared")
    if hit:
        rec.sig(what)


FNS = {
    "sum": (lambda a, b: a + 2*b), "prod": (lambda a, b: 3*a*b**2),
    "ratio": (lambda a, b: a/(a + b)), "poly": (lambda a, b: a**2 + b**3 + 1),
    "sqrt": (lambda a, b: (a*b + 1)**0.5),
}


def linked(rng, rec):
    "Constants computed from other constants, possibly themselves computed from others"
    import gpkit
    base = {"a": math.exp(rng.uniform(-1, 1)), "b": math.exp(rng.uniform(-1, 1))}
    nlink = rng.randint(1, 3)
    fns = [rng.choice(sorted(FNS)) for _ in range(nlink)]
    shape = rng.choice([None, None, 2])
    incost = rng.random() < .6
    also = rng.random() < .5      # inputs also appear directly
    cost_uses = rng.choice(["a", "b", None])
    coeffs = [round(rng.uniform(.5, 2), 3) for _ in range(6)]
    powers = [rng.choice([1, -1, .5, 2]) for _ in range(4)]

    def build(scale):
        A = gpkit.Variable("a", base["a"]*scale.get("a", 1))
        B = gpkit.Variable("b", base["b"]*scale.get("b", 1))
        L = []
        for j, fn in enumerate(fns):
            f = FNS[fn]
            if shape and j == 0:
                def vec(c, f=f):
                    return [f(c[A.key], c[B.key]), 2*f(c[B.key], c[A.key])]
                L.append(gpkit.VectorVariable(2, "l%i" % j, vec))
            else:
                L.append(gpkit.Variable("l%i" % j, lambda c, f=f: f(c[A.key], c[B.key])))
        x, y = gpkit.Variable("x"), gpkit.Variable("y")
        flat = [e for l in L for e in (list(l) if shape and l is L[0] else [l])]
        cons = [x >= coeffs[0]*flat[0]**powers[0] + coeffs[1]*y**-1,
                y <= coeffs[2]*flat[-1]**powers[1], y >= .01*coeffs[3], x <= 1e4]
        cons += [coeffs[5]*x**2 >= e**powers[2] for e in flat[1:]]
        if also:
            cons.append(x >= coeffs[4]*A + B*y**-.5)
        cost = x*y**-.3
        if incost:
            cost = cost*flat[0]**powers[3] + x*coeffs[1]
        if cost_uses:
            cost = cost + {"a": A, "b": B}[cost_uses]*x
        # the inputs have to be in the model to be known as constants
        for n, v in (("a", A), ("b", B)):
            if not also and cost_uses != n:
                cons.append(v <= 1e6*base[n])
        return gpkit.Model(cost, cons), A, B
    m, A, B = build({})
    sol = m.solve(verbosity=0)
    f0 = math.log(float(sol["cost"]))
    what = "linked %s %s %s cost(%s,%s) also %s powers %s coeffs %s shape %s" % (
        fns, base, m.cost, incost, cost_uses, also, powers, coeffs, shape)
    hit = False
    h = H/4
    for n, v in (("a", A), ("b", B)):
        s = reported(sol, v)
        out = []
        for sg in (-1, 1):
            mm, _, _ = build({n: math.exp(sg*h)})
            out.append(math.log(float(mm.solve(verbosity=0)["cost"])))
        lo, hi = bracket(f0, out[0], out[1], h)
        hit |= compare(rec, "%s: sensitivity to %s" % (what, n), s, lo, hi, convex=False)
        rec.ev("linked_compared")
    if incost and cost_uses:   # in the cost by itself and within the computed one
        def logcost(a, b):
            f0 = FNS[fns[0]](a, b)
            X, Y = (float(sol["variables"][k]) for k in ("x", "y"))
            return math.log(X*Y**-.3*f0**powers[3] + X*coeffs[1]
                            + {"a": a, "b": b}[cost_uses]*X)
        e = 1e-5
        up, down = ({n: v*(math.exp(s*e) if n == cost_uses else 1) for n, v in base.items()}
                    for s in (1, -1))
        want = (logcost(**up) - logcost(**down))/(2*e)
        got = reported(sol, {"a": A, "b": B}[cost_uses].key, "cost")
        if abs(got - want) > 1e-4*(1+abs(want)):
            raise Violation("wrong-cost-sensitivity", "%s: cost sensitivity to %s reported as"
                            " %.6g, is %.6g" % (what, cost_uses, got, want))
        rec.ev("linked_cost")
    if hit:
        rec.sig(what)
    rec.sample(what)


def negatives(rng, rec):
    "Constants below zero, whose terms merge with others (and are outweighed by them)"
    import gpkit
    n = rng.randint(1, 3)
    exps = [[rng.choice([1, 1, -1, .5, 2]) for _ in range(n)] for _ in range(3)]
    co = [round(rng.uniform(.5, 3), 3) for _ in range(6)]
    neg = {"a": -round(rng.uniform(.1, .45), 3), "b": round(rng.uniform(.3, 2), 3)}
    odd = rng.choice([1, 1, 3])
    incost = rng.random() < .5
    swap = rng.random() < .5
    late = rng.random() < .5      # set by substitution, not declaration

    def build(scale):
        vals = {k: v*scale.get(k, 1) for k, v in neg.items()}
        a, b = (gpkit.Variable(k) if late else gpkit.Variable(k, vals[k]) for k in "ab")
        xs = [gpkit.Variable("x%i" % i) for i in range(n)]

        def mono(e):
            out = 1
            for x, p in zip(xs, e):
                out = out*x**p
            return out
        lim = gpkit.Variable("u")
        terms = [co[0]*mono(exps[0]), co[0]*a**odd*b*mono(exps[0])/2, co[1]*b*mono(exps[1])]
        if swap:
            terms.reverse()
        cons = [sum(terms[1:], terms[0]) <= lim]
        cons += [x >= co[2]*.3 for x in xs] + [x <= 30. for x in xs]
        cost = lim + co[3]*mono(exps[2])
        if incost:
            cost = cost + co[4]*mono(exps[1]) + a*co[4]*mono(exps[1])
        m = gpkit.Model(cost, cons)
        if late:
            m.substitutions.update({a: vals["a"], b: vals["b"]})
        return m, a, b
    m, A, B = build({})
    sol = m.solve(verbosity=0)
    f0 = math.log(float(sol["cost"]))
    what = "negative %s, exponents %s, coefficients %s, odd %s, incost %s, late %s, swap %s" % (
        neg, exps, co, odd, incost, late, swap)
    h, hit = H/4, False
    for k, v in (("a", A), ("b", B)):
        out = [math.log(float(build({k: math.exp(sg*h)})[0].solve(verbosity=0)["cost"]))
               for sg in (-1, 1)]
        lo, hi = bracket(f0, out[0], out[1], h)
        hit |= compare(rec, "%s: sensitivity to %s" % (what, k), reported(sol, v), lo, hi,
                       convex=False)
        rec.ev("negative_compared")
    if hit:
        rec.sig(what)


class Local:
    """Signomial (or geometric) models in which every constraint has a factor of its own

    so that each constraint's sensitivity is that of its factor, whichever way the model
    is composed: in parts, with constraints or parts listed more than once.
    """

    def __init__(self, rng):
        self.signomial = rng.random() < .7
        n = rng.randint(2, 3)
        self.h = [math.exp(rng.uniform(-.7, .7)) for _ in range(n)]
        self.cvals = [round(math.exp(rng.uniform(-1, 1)), 3) for _ in range(rng.randint(1, 4))]
        # (kind, [(coefficient with constants, exponents, those of constants)], [(..)], part)
        self.cons = []
        kinds = ["posy", "monoeq"] if not self.signomial else \
            ["sigeq", "sigeq", "sigeq", "sigge", "posy"]
        for i in range(rng.randint(1, 2)):
            kind = kinds[0] if i and not self.signomial else rng.choice(kinds)
            if i == 0 and self.signomial:
                kind = rng.choice(["sigeq", "sigge"])
            # terms of both sides which merge: a factor on one of them is then within
            # coefficients, instead of only scaling terms as the constraint's own does
            shared = kind in ("sigeq", "sigge") and rng.random() < .3
            nleft = 1 if kind == "monoeq" else rng.randint(2, 3)
            nright = 1 if kind in ("monoeq", "posy") else rng.choice([1, 1, 2])
            both = self.terms(rng, nleft + nright, distinct=not shared)
            left, right = both[:nleft], both[nleft:]
            if shared and nright > 1:
                right[0] = (.4*left[0][0],) + left[0][1:]
            lv, rv = self.value(left), self.value(right)
            k = {"posy": .9, "sigge": 1/.9}.get(kind, 1.)*rv/lv
            left = [(c*k, e, j) for c, e, j in left]
            if kind != "monoeq":
                left = self.split(rng, left)
            self.cons.append((kind, left, right, rng.random() < .5))
        for i in range(n):
            self.cons.append(("lower", i, rng.uniform(.4, .9), rng.random() < .5))
            self.cons.append(("upper", i, rng.uniform(.4, .9), rng.random() < .5))
        self.cost = self.split(rng, self.terms(rng, rng.choice([1, 2])))
        self.costk = rng.random() < .5
        self.repeat = [rng.choice([0, 0, 0, 1, 1, 2]) for _ in self.cons]
        self.twice = rng.random() < .3
        self.names = ["r%i" % i for i in range(len(self.cons))] + ["b", "k"] \
            + ["c%i" % i for i in range(len(self.cvals))]
        self.bvals = rng.uniform(.5, 2)

    def terms(self, rng, n, distinct=False):
        out = []
        while len(out) < n:
            es = [rng.choice([0, 1, 1, 2, -1, .5]) for _ in self.h]
            if not distinct or (any(es) and es not in [o[1] for o in out]):
                out.append((round(rng.uniform(.3, 2), 3), es,
                            [rng.choice([0, 1, 1, -1, 2]) for _ in self.cvals]))
        return out

    def merging(self, i):
        "whether the constraint has a constant term, or one that is on both sides"
        if self.cons[i][0] in ("lower", "upper"):
            return False
        left, right = ([t[1] for t in side] for side in self.cons[i][1:3])
        return any(not any(e) or e in right for e in left) or not all(any(e) for e in right)

    def split(self, rng, terms):
        "Terms which become one when constants are put in, split"
        out = []
        for c, es, js in terms:
            n = rng.choice([1, 1, 2, 3])
            at = [rng.uniform(.2, 1) for _ in range(n)]
            for a in at:
                out.append((c*a/sum(at), es, js if len(out) % 3 == 0 else
                            [rng.choice([j, 0, 1]) for j in js]))
        rng.shuffle(out)
        return out

    def value(self, terms):
        return sum(c*math.prod(x**e for x, e in zip(self.h, es))
                   for c, es, _ in terms)

    def model(self):
        "(model, variables, {name: constant}, constraint objects)"
        import gpkit
        from gpkit import Variable, Model
        from gpkit.constraints.sigeq import SignomialEquality
        val = {n: 1. for n in self.names}
        val["b"] = self.bvals
        val.update({"c%i" % i: v for i, v in enumerate(self.cvals)})
        x = [Variable("x%i" % i) for i in range(len(self.h))]
        k = {n: Variable(n, val[n]) for n in self.names}
        out = []

        def posy(terms):
            tot = None
            for c, es, js in terms:
                t = c/math.prod(v**j for v, j in zip(self.cvals, js))
                both = [(v, e) for v, e in zip(x, es)] + \
                    [(k["c%i" % i], j) for i, j in enumerate(js)]
                for v, e in both:
                    t = t*v**e
                tot = t if tot is None else tot + t
            return tot

        def build(i, spec):
            r = k["r%i" % i]
            if spec[0] == "lower":
                return x[spec[1]] >= r*spec[2]*self.h[spec[1]]
            if spec[0] == "upper":
                return x[spec[1]]*r <= self.h[spec[1]]/spec[2]
            kind, left, right, _ = spec
            left = posy(left)*r*k["b"]/self.bvals
            right = posy(right)
            if kind == "posy":
                return left <= right
            if kind == "monoeq":
                return left == right
            with gpkit.SignomialsEnabled():
                if kind == "sigge":
                    return left >= right
                return SignomialEquality(left, right)
        me = self

        class Part(Model):
            "holds some of the constraints"
            def setup(self):
                mine = []
                for i, spec in enumerate(me.cons):
                    if spec[3]:
                        c = build(i, spec)
                        out.append((i, c))
                        mine += [c] + [{"again": c}]*min(me.repeat[i], 1) \
                            + [c]*max(0, me.repeat[i] - 1)
                return mine
        part = Part()
        mine = [part]
        if self.twice:
            mine.append({"a": [part]})
        for i, spec in enumerate(self.cons):
            if not spec[3]:
                c = build(i, spec)
                out.append((i, c))
                mine += [c] + [[c]]*self.repeat[i]
        cost = posy(self.cost)*(k["k"] if self.costk else 1)
        return Model(cost, mine), x, k, dict(out)

    def multipliers(self, at):
        """The slopes of log cost to that of each factor and to each constant within terms

        or None where there is no one answer
        """
        from scipy.optimize import nnls
        y = np.log(at)

        def logsum(terms):
            parts = [c*math.exp(np.dot(e, y)) for c, e, _ in terms]
            tot = sum(parts)
            return math.log(tot), *(sum(p/tot*np.array(t[i], float) for p, t in
                                        zip(parts, terms)) for i in (1, 2))
        cols, whose, signs, withc = [], [], [], {}
        for i, spec in enumerate(self.cons):
            if spec[0] in ("lower", "upper"):
                v, k = spec[1:3]
                grad = np.zeros(len(y))
                if spec[0] == "lower":     # log(r k h) - y <= 0
                    g, grad[v] = math.log(k*self.h[v]) - y[v], -1
                else:
                    g, grad[v] = y[v] - math.log(self.h[v]/k), 1
                sign = 1
            else:
                (lv, lg, lc), (rv, rg, rc) = logsum(spec[1]), logsum(spec[2])
                g, grad, sign = lv - rv, lg - rg, 1
                withc[i] = lc - rc
                if spec[0] == "sigge":     # right - left <= 0
                    g, grad, sign = -g, -grad, -1
                if spec[0] in ("sigeq", "monoeq"):
                    if abs(g) > 1e-6:
                        return None
                    cols.append(-grad)
                    whose.append(i)
                    signs.append(-1)
            if g > 1e-6:
                return None
            if g < -1e-3:
                continue
            if g < -1e-6:
                return None     # nearly active
            cols.append(grad)
            whose.append(i)
            signs.append(sign)
        out = [0.]*len(self.cons)
        _, grad, ofc = logsum(self.cost)
        if cols:
            # those of the directions which are independent
            uniq = [c for c, i, n in zip(cols, whose, range(len(cols))) if i not in whose[:n]]
            sv = np.linalg.svd(np.array(uniq).T, compute_uv=False)
            if len(uniq) > len(y) or sv[-1] < .03*sv[0]:
                return None
            mult, resid = nnls(np.array(cols).T, -grad)
            for m, i, s in zip(mult, whose, signs):
                out[i] += m*s
        else:
            resid = np.linalg.norm(grad)
        if resid > 1e-4:
            return None
        return out, ofc + sum(out[i]*w for i, w in withc.items())

    def solve(self, x0=None):
        "None if there is no such point"
        import gpkit
        m, x, k, cons = self.model()
        try:
            if self.signomial:
                sol = m.localsolve(verbosity=-1, reltol=1e-8, iteration_limit=100,
                                   x0=dict(zip(x, x0 if x0 is not None else self.h)))
            else:
                sol = m.solve(verbosity=0)
        except (gpkit.exceptions.Infeasible, gpkit.exceptions.UnnecessarySGP):
            return None
        if any("slack" in str(v).lower() or "relax" in str(v).lower()
               for v in sol["variables"]):
            return None
        return sol, x, k, cons


def local(rng, rec):
    "Local solves, repeated constraints, and what models' sensitivities add up to"
    loc = Local(rng)
    cost, at = None, None
    for _ in range(5):   # a local solve may stop early, where steps are slow
        res = loc.solve(x0=at)
        if res is None:
            raise Skip("not solved locally")
        sol, x, k, cons = res
        at = [float(sol["freevariables"][v]) for v in x]
        settled = cost is not None and abs(math.log(sol["cost"]/cost)) < 1e-7
        if settled or not loc.signomial:
            break
        cost = sol["cost"]
    else:
        rec.ev("did_not_settle")
    what = "local %s repeats %s twice %s cost %s %s" % (
        loc.cons, loc.repeat, loc.twice, loc.cost, loc.bvals)
    cs = sol["sensitivities"]["constraints"]
    expected = {}
    for i, c in cons.items():
        leaf = c[0] if isinstance(c, list) else c    # signomial equalities hold one
        if leaf not in cs and loc.merging(i):
            continue    # it holds everywhere
        if leaf not in cs:
            raise Violation("missing-constraint", "%s: constraint %s" % (what, c))
        s, r = float(cs[leaf]), reported(sol, k["r%i" % i])
        expected[leaf] = s
        if abs(s - abs(r)) > 1e-5*(1 + abs(r)) and not loc.merging(i):
            raise Violation("wrong-constraint-sensitivity", "%s: constraint %i %s has %.6g, "
                            "the factor on it %.6g" % (what, i, c, s, r))
        rec.ev("local_constraints")
        if loc.repeat[i] or (loc.twice and loc.cons[i][3]):
            rec.ev("repeated_constraints")
        if loc.cons[i][0] == "sigeq" and s > .01:
            rec.ev("signomial_equalities")
    if set(cs) != set(expected):
        raise Violation("extra-constraint", "%s: %s" % (what, [str(c) for c in cs
                                                                if c not in expected]))
    # models' sensitivities
    want = {}
    for c, s in expected.items():
        name = ".".join(n + (str(i) if i else "") for n, i in c.lineage)
        want[name] = want.get(name, 0) + s
    for vk in sol["sensitivities"]["variables"]:
        name = ".".join(n + (str(i) if i else "") for n, i in vk.lineage or ())
        want[name] = want.get(name, 0) + abs(float(sol["sensitivities"]["variables"][vk]))
    got = {m: float(v) for m, v in sol["sensitivities"]["models"].items()}
    if set(got) != set(want) or any(abs(got[m]-want[m]) > 1e-4*(1 + want[m]) for m in want):
        raise Violation("wrong-model-sensitivity", "%s: %s, adding up what is in them %s"
                        % (what, got, want))
    rec.ev("models_added")
    unknown = [v for v in sol["sensitivities"]["cost"]
               if v.name not in loc.names and v.name[0] != "x"]
    if unknown:
        raise Violation("wrong-cost-sensitivity", "%s: %s" % (what, unknown))
    # the cost's own
    parts = [t[0]*math.exp(np.dot(t[1], np.log(at))) for t in loc.cost]
    slopes = [sum(q/sum(parts)*np.array(t[i], float) for q, t in zip(parts, loc.cost))
              for i in (1, 2)]
    own = dict(zip((v.key for v in x), slopes[0]))
    own.update({k["c%i" % i].key: v for i, v in enumerate(slopes[1])})
    own[k["k"].key] = float(loc.costk)
    have = sol["sensitivities"]["cost"]
    for v, w in own.items():
        if abs(float(have.get(v, 0)) - w) > 1e-4*(1 + abs(w)):
            raise Violation("wrong-cost-sensitivity", "%s: cost sensitivity of %s is %s, by the"
                            " cost's terms %.6g" % (what, v, have.get(v, 0), w))
        rec.ev("cost_sensitivities_local")
    # against multipliers found from gradients at the solution
    exact = loc.multipliers(at)
    if exact is None:
        rec.ev("not_optimal_or_degenerate")
        return
    exact, ofc = exact
    for n in loc.names:
        if n[0] == "c":
            w = ofc[int(n[1:])]
            rec.ev("constants_in_terms")
        elif n == "b":
            w = sum(exact[i] for i, c in enumerate(loc.cons)
                    if c[0] not in ("lower", "upper"))
        elif n == "k":
            w = float(loc.costk)
        else:
            w = exact[int(n[1:])]
        s = reported(sol, k[n])
        if abs(s - w) > 2e-3*(1 + abs(w)):
            raise Violation("wrong-sensitivity", "%s: sensitivity to %s: reported %.6g, by "
                            "gradients at the solution %.6g" % (what, n, s, w))
        rec.ev("local_slopes")
    rec.sig(what)


KINDS = {"constants": (constants, 350, 8000), "constraints": (constraints, 220, 5000),
         "signomial": (signomial, 120, 2500), "linked": (linked, 120, 2500),
         "local": (local, 200, 6000), "negatives": (negatives, 80, 2000)}
NEED = {"sensitivities_compared": 800, "sharp_nonzero": 200, "slack_checked": 300,
        "cost_sensitivities": 800, "linked_compared": 100, "linked_cost": 15, "negative_compared": 80, "signomial_compared": 60,
        "equalities_compared": 20, "arrays_compared": 60, "free_checked": 500,
        "local_slopes": 600, "local_constraints": 500, "repeated_constraints": 250,
        "signomial_equalities": 40, "models_added": 80, "constants_in_terms": 200}
