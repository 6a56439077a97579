"""C16: autosweep bounds bracket the true optimum within tolerance.

A counting tap sits on the real solver while models are autoswept; the recorded tree and
the sampled bounds are then judged against direct solves of fresh models at the samples.
"""
import math
import pickle
import numpy as np
from ..core import Violation, Skip
from .. import alg, models

PROP = "C16"
RULE = ("a case is a random feasible geometric model autoswept over one constant, vector "
        "element or free variable; non-trivial when at least one interior sample was "
        "compared with a direct solve, identified by model, interval and tolerance")
TECH = "counting tap on the real solver; offline bracket oracle from direct solves of fresh models"
NOTE = ("bracketing judged at 5 sampled values per sweep, to 3e-5; models in which the swept "
        "variable enters only through positive terms (geometric with it free)")
ASSUME = ["direct solves are accurate to 1e-5 in cost (checked by C10)"]
CPU_LIMIT = 60
QUICK_S = 100
SOLVERTOL = 3e-5


def magnitudes(x):
    return np.array(getattr(x, "magnitude", x), float)


def pick(rng):
    spec = models.random_gp(rng, nfree=rng.randint(1, 3), nconst=rng.randint(1, 3),
                            equalities=.1, vectors=.3, wide=4.0)
    used = spec.used()
    r = rng.random()
    consts = [k for k in spec.keys("consts") if k in used]
    if r < .8 and consts:
        key = rng.choice(consts)
        base, u = spec.constpoint()[key], spec.consts[key[0]][1]
        spread = rng.choice([1.05, 1.2, 1.5, 2.5, 4])
    else:
        frees = spec.keys()
        if len(frees) < 2:
            raise Skip("nothing else free")
        key = rng.choice(frees)
        base, u = spec.hidden[key], spec.free[key[0]][0]
        spread = rng.choice([1.02, 1.1, 1.3])
    f = alg.decl_factor(u)[0]
    lo = float("%.5g" % (base/f/(spread**rng.uniform(.2, 1))))
    hi = float("%.5g" % (base/f*(spread**rng.uniform(.2, 1))))
    if hi <= lo*1.001:
        raise Skip("empty interval")
    return spec, key, lo, hi


def obj(objs, key):
    return objs[key[0]] if key[1] is None else objs[key[0]][key[1]]


def counting(log):
    from gpkit.solvers.cvxopt import optimize

    def solver(**kw):
        kw.setdefault("kktsolver", "ldl")
        log.append(1)
        return optimize(**kw)
    return solver


def snapshot(m):
    out = {}
    for k in sorted(m.substitutions, key=str):
        v = dict.__getitem__(m.substitutions, k)
        out[str(k)] = repr(np.array(v).tolist()) if not callable(v) else id(v)
    return out


def leaves(bst):
    if bst.splits:
        return leaves(bst.splits[0]) + leaves(bst.splits[1])
    return [bst]


def check_tree(rec, bst, lo, hi, logtol, key, objs, nsolves, what):
    o = obj(objs, key)
    vals = [float(s["variables"][o]) for s in bst.sollist]
    if not (abs(vals[0]-lo) <= 1e-12*lo and abs(vals[-1]-hi) <= 1e-12*hi
            and all(a < b for a, b in zip(vals, vals[1:]))):
        raise Violation("not-ordered", "%s: solutions at %s" % (what, vals))
    if bst.nsols != len(vals) or nsolves is not None and nsolves != len(vals):
        raise Violation("solve-count", "%s: %s solutions, %s solves, nsols %s"
                        % (what, len(vals), nsolves, bst.nsols))
    ls = leaves(bst)
    edges = [ls[0].bounds[0]] + [l.bounds[1] for l in ls]
    if any(a.bounds[1] != b.bounds[0] for a, b in zip(ls, ls[1:])) or any(
            abs(e-v) > 1e-12*v for e, v in zip(edges, vals)):
        raise Violation("not-spanning", "%s: leaves %s, solutions %s"
                        % (what, [l.bounds for l in ls], vals))
    for l in ls:
        for b, s in zip(l.bounds, l.sols):
            v = float(s["variables"][o])
            if abs(v-b) > 1e-12*b:
                raise Violation("wrong-solution", "%s: solution at %r kept for %r"
                                % (what, v, b))
    if not bst.tol <= logtol*(1+1e-9):
        raise Violation("tolerance", "%s: tol %r" % (what, bst.tol))
    widest = max((l.splitub-l.splitlb)/2 for l in ls)
    if not abs(bst.tol - widest) <= 1e-9*logtol:
        raise Violation("tolerance", "%s: tol %r, yet the bounds of its widest part are %r"
                        " from their middle" % (what, bst.tol, widest))
    for x in (lo*(1-1e-6), hi*(1+1e-6)):       # nothing is known outside
        for ask in (lambda at: at("cost"), lambda at: at.cost_lb(), lambda at: at(o)):
            try:
                got = ask(bst.sample_at([vals[0], x]))
            except ValueError:
                rec.ev("outside_refused")
            else:
                raise Violation("extrapolated", "%s: at %r, outside, it gives %s"
                                % (what, x, got))
    rec.ev("trees_checked")
    rec.ev("leaves", len(ls))
    arr = bst.solarray
    if len(ls) >= 1:
        a = np.ravel(magnitudes(arr["variables"][o]))
        if len(a) != len(vals) or np.abs(a/vals-1).max() > 1e-12:
            raise Violation("not-ordered", "%s: solarray %s, %s" % (what, a, vals))
    return vals


def fresh_cost(spec, key, value, what):
    "cost and values of a direct solve of a fresh model"
    import gpkit
    m = spec.model()
    m.substitutions[obj(m.v_objs, key)] = value
    try:
        return m, m.solve(verbosity=0)
    except gpkit.exceptions.Infeasible as e:
        raise Skip("direct solve fails: %s" % type(e).__name__)


def check_samples(rec, rng, spec, key, samples, sampled, logtol, what):
    cost, lb, ub = (magnitudes(sampled["cost"]), magnitudes(sampled.cost_lb()),
                    magnitudes(sampled.cost_ub()))
    if not len(cost) == len(lb) == len(ub) == len(samples):
        raise Violation("sample-count", "%s: %s %s %s" % (what, cost, lb, ub))
    for x, c, l, u in zip(samples, cost, lb, ub):
        if not l <= c*(1+SOLVERTOL) or not c <= u*(1+SOLVERTOL):
            raise Violation("estimate-outside", "%s at %r: %r not within %r..%r"
                            % (what, x, c, l, u))
        if math.log(u/l) > 2*logtol + 1e-6:
            raise Violation("too-wide", "%s at %r: %r..%r, logtol %s"
                            % (what, x, l, u, logtol))
        rec.ev("widths_checked")
    for i in sorted(rng.sample(range(len(samples)), min(5, len(samples)))):
        x = float(samples[i])
        _, sol = fresh_cost(spec, key, x, what)
        t = float(magnitudes(sol["cost"]))
        if not lb[i]*(1-SOLVERTOL) <= t <= ub[i]*(1+SOLVERTOL):
            raise Violation("not-bracketed", "%s at %r: true cost %r, bounds %r..%r"
                            % (what, x, t, lb[i], ub[i]))
        rec.ev("brackets_checked")


def sweep(rng, rec):
    import gpkit
    from gpkit.tools.autosweep import autosweep_1d
    spec, key, lo, hi = pick(rng)
    logtol = rng.choice([.1, .03, 1e-2, 1e-2, 3e-3, 1e-3, 3e-4, 1e-4])
    m = spec.model()
    o = obj(m.v_objs, key)
    what = "%s over %s in %r..%r to %s" % (spec.text(), key, lo, hi, logtol)
    before, log = snapshot(m), []
    method = rng.random() < .5
    n = rng.randint(2, 9)
    try:
        if method:
            skey = rng.choice([o, o.key] + ([key[0]] if key[1] is None else []))
            kw = {} if logtol == 1e-2 and rng.random() < .5 else {"tol": logtol}
            sampled = m.autosweep({skey: (lo, hi)}, samplepoints=n, verbosity=0,
                                  solver=counting(log), **kw)
            bst, samples = sampled.bst, np.linspace(lo, hi, n)
            rec.ev("method_sweeps")
        else:
            bst = autosweep_1d(m, logtol, o if rng.random() < .5 else o.key, [lo, hi],
                               verbosity=0, solver=counting(log))
            samples = [rng.uniform(lo, hi) for _ in range(n)] + [lo, hi]
            rng.shuffle(samples)
            sampled = bst.sample_at(samples)
    except gpkit.exceptions.Infeasible as e:
        if snapshot(m) != before:
            raise Violation("constants-changed", "%s failed, and substitutions %s are now"
                            " %s" % (what, before, snapshot(m)))
        rec.ev("failures_restored")
        raise Skip("infeasible: %s" % type(e).__name__)
    if snapshot(m) != before:
        raise Violation("constants-changed", "%s: substitutions %s are now %s"
                        % (what, before, snapshot(m)))
    rec.ev("constants_restored")
    vals = check_tree(rec, bst, lo, hi, logtol, key, m.v_objs, len(log), what)
    check_samples(rec, rng, spec, key, samples, sampled, logtol, what)
    # at the values solved, everything is as in a direct solve
    picks = rng.sample(range(len(vals)), min(2, len(vals)))
    at = bst.sample_at([vals[i] for i in picks])
    for j, i in enumerate(picks):
        sol = bst.sollist[i]
        for name, v in m.v_objs.items():
            if v not in sol["variables"] and v.key not in sol["variables"]:
                continue
            if len(sol["variables"].keymap.get(v.key.name, ())) == 0:
                continue
            want = magnitudes(sol["variables"][v.key])
            if np.isnan(want).any():
                continue
            got = magnitudes(at(v))[j] if v.key.shape else float(magnitudes(at(v))[j])
            if np.abs(got/want - 1).max() > 1e-6:
                raise Violation("wrong-value-at-solved", "%s: %s at %r is %r, solved %r"
                                % (what, name, vals[i], got, want))
            rec.ev("solved_values_checked")
        # a direct solve of the same model, at that value
        if rng.random() < .5:
            mm, direct = fresh_cost(spec, key, vals[i], what)
            c0 = float(magnitudes(direct["cost"]))
            c1 = float(magnitudes(at["cost"])[j])
            if abs(c1/c0-1) > SOLVERTOL:
                raise Violation("wrong-value-at-solved", "%s: cost at %r is %r, direct %r"
                                % (what, vals[i], c1, c0))
            rec.ev("direct_solves")
        # arbitrary posynomials, with units
        names = [n for n, v in m.v_objs.items() if not v.key.shape
                 and v.key in sol["variables"]]
        if names:
            a, b = m.v_objs[rng.choice(names)], m.v_objs[rng.choice(names)]
            expr = rng.choice([2*a*b, a**2/b, 3*a])
            va, vb = float(sol["variables"][a]), float(sol["variables"][b])
            got = at(expr)
            got = got[j]
            gf = alg.unit_factor(getattr(got, "units", None))[0]*float(
                getattr(got, "magnitude", got))
            fa, fb = alg.unit_factor(a.units)[0], alg.unit_factor(b.units)[0]
            want = {str(2*a*b): 2*va*fa*vb*fb, str(a**2/b): (va*fa)**2/(vb*fb),
                    str(3*a): 3*va*fa}[str(expr)]
            if abs(gf/want-1) > 1e-6:
                raise Violation("wrong-value-at-solved", "%s: %s at %r is %r, expected %r SI"
                                % (what, expr, vals[i], got, want))
            rec.ev("expressions_checked")
    if rng.random() < .2:
        again = pickle.loads(pickle.dumps(bst))
        s2 = again.sample_at(samples)
        for f in ("cost_lb", "cost_ub"):
            a, b = magnitudes(getattr(s2, f)()), magnitudes(getattr(sampled, f)())
            if np.abs(a/b-1).max() > 1e-12:
                raise Violation("reload-differs", "%s: %s %s after reloading %s"
                                % (what, f, a, b))
        rec.ev("reloads")
    rec.sig(what)
    rec.sample(what + " -> %s solves" % len(vals))


def several(rng, rec):
    "Several variables in one call, from zero or absent originals, and failures"
    import gpkit
    x, y = gpkit.Variable("x"), gpkit.Variable("y")
    orig = rng.choice([0, 0.0, 1.5, None])
    a = gpkit.Variable("a", orig) if orig is not None else gpkit.Variable("a")
    b = gpkit.VectorVariable(2, "b", [1.0, 2.0])
    p, cap = rng.uniform(.3, 2), rng.uniform(5, 9)
    m = gpkit.Model(x*y**p, [x >= a + b[0], y >= b.sum()/x, x <= cap, y >= .1*a + .01])
    if orig is None:
        m.substitutions[a] = 1.0
        del m.substitutions[a]
    before = snapshot(m)
    lo, hi = rng.uniform(.3, 1), rng.uniform(1.5, 2)
    fail = rng.random() < .4
    if fail:
        hi = cap + rng.uniform(0, 2)
    what = "a=%r in %r..%r, cap %r" % (orig, lo, hi, cap)
    sweeps = {a: (lo, hi)}
    if orig and not fail:
        sweeps[b[rng.randint(0, 1)]] = (1, 2.5)
    try:
        out = m.autosweep(sweeps, samplepoints=4, verbosity=0)
        if fail:
            raise Violation("missed-infeasible", what)
    except gpkit.exceptions.Infeasible:
        if not fail:
            raise
        rec.ev("failures_restored")
        out = None
    if snapshot(m) != before:
        raise Violation("constants-changed", "%s: substitutions %s are now %s"
                        % (what, before, snapshot(m)))
    rec.ev("constants_restored")
    if out is not None:
        outs = out if isinstance(out, list) else [out]
        rec.require(len(outs) == len(sweeps), "sweep-count", what)
        for (k, (l, h)), s in zip(sweeps.items(), outs):
            for xs, c0, c1 in zip(np.linspace(l, h, 4), magnitudes(s.cost_lb()),
                                  magnitudes(s.cost_ub())):
                m2 = gpkit.Model(m.cost, list(m))
                m2.substitutions.update(m.substitutions)
                m2.substitutions[k] = xs
                t = float(m2.solve(verbosity=0)["cost"])
                if not c0*(1-SOLVERTOL) <= t <= c1*(1+SOLVERTOL):
                    raise Violation("not-bracketed", "%s: %s=%r: true cost %r, bounds"
                                    " %r..%r" % (what, k, xs, t, c0, c1))
                rec.ev("brackets_checked")
    rec.sig(what, str(sorted(map(str, sweeps))))


def refused(rng, rec):
    "What cannot be autoswept is refused, leaving the constants alone"
    import gpkit
    from gpkit.tools.autosweep import autosweep_1d
    x, y = gpkit.Variable("x"), gpkit.Variable("y")
    orig = rng.choice([0, 1.5, None])
    a = gpkit.Variable("a", orig) if orig is not None else gpkit.Variable("a")
    c = round(rng.uniform(.5, 2), 3)
    how = rng.choice(["sp", "equal", "reversed", "three", "one"])
    if how == "sp":
        with gpkit.SignomialsEnabled():
            m = gpkit.Model(x, [x >= rng.choice([a - c*y, a*y - c, a + c*(1 - y)]), y <= .9,
                                x >= .1, y >= .05])
    else:
        m = gpkit.Model(x*y, [x >= c*a + 1, y >= a + 1/x])
    lo = round(rng.uniform(2, 3), 3)
    bounds = {"sp": [lo, lo+1], "equal": [lo, lo], "reversed": [lo+1, lo],
              "three": [lo, lo+1, lo+2], "one": [lo]}[how]
    before = snapshot(m)
    what = "%s %s of a=%r in %s" % (how, bounds, orig, m)
    solved = []
    try:
        if rng.random() < .5 or how == "one":
            autosweep_1d(m, 1e-2, a, bounds, verbosity=0, solver=counting(solved))
        else:
            m.autosweep({a: tuple(bounds)}, samplepoints=4, verbosity=0,
                        solver=counting(solved))
    except (ValueError, TypeError, gpkit.exceptions.InvalidGPConstraint) as e:
        if how == "sp" and not isinstance(e, gpkit.exceptions.InvalidGPConstraint):
            raise
        if how != "sp" and not isinstance(e, (ValueError, TypeError)):
            raise
        rec.ev("refused")
    else:
        raise Violation("silently-accepted", what)
    if snapshot(m) != before:
        raise Violation("constants-changed", "%s: substitutions %s are now %s"
                        % (what, before, snapshot(m)))
    rec.sig(what)


KINDS = {"refused": (refused, 40, 400), "sweep": (sweep, 170, 4000), "several": (several, 40, 600)}
NEED = {"refused": 25, "outside_refused": 200, "trees_checked": 60, "brackets_checked": 250, "constants_restored": 80,
        "failures_restored": 15, "solved_values_checked": 100, "expressions_checked": 40,
        "leaves": 150, "reloads": 5}
