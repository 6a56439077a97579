"""C10: a returned solution is feasible, optimal and reported under the right keys.

Feasibility and cost are evaluated from the harness's own trees at the reported values;
optimality is refuted by exhibiting a feasible point of lower cost (found by scipy's SLSQP
on the same trees, or by the hidden feasible point the model was built around).
"""
import math
import numpy as np
from ..core import Violation, Skip
from .. import alg, models

PROP = "C10"
RULE = ("a case is a random feasible bounded geometric model solved with the real solver; "
        "non-trivial when a solution came back, identified by the model text")
TECH = "monitors on solutions of real solves: independent feasibility, cost, optimality and key oracles"
NOTE = ("optimality is refuted only by a feasible point at least 0.1% cheaper; solver "
        "tolerance is taken as 1e-4 on constraints and 1e-5 on the cost expression")
ASSUME = ["pint's unit conversion factors are trusted", "scipy SLSQP only proposes points; "
          "they are verified"]
FEAS, COST, OPT = 1e-4, 1e-5, 1e-3


def flatten(kd):
    "{(name, idx): [values]} of every entry of a KeyDict, arrays by element"
    out = {}
    for k, v in kd.items():
        if k.shape:
            v = np.asarray(v)
            if tuple(v.shape) != tuple(k.shape):
                raise Violation("wrong-keys", "%s has shape %s, reported %s"
                                % (k, k.shape, v.shape))
            for i in np.ndindex(*k.shape):
                if not np.isnan(v[i]):   # absent elements of partly present vectors
                    out.setdefault((k.name, i), []).append(float(v[i]))
        else:
            out.setdefault((k.name, tuple(k.idx) if k.idx else None), []).append(float(v))
    return out


def check_keys(rec, what, kd, want, maybe=()):
    got = flatten(kd)
    if not set(want) <= set(got) <= set(want) | set(maybe):
        raise Violation("wrong-keys", "%s: reported %s, expected %s" % (
            what, sorted(got, key=str), sorted(want, key=str)))
    for k, vs in got.items():
        if len(vs) != 1:
            raise Violation("wrong-keys", "%s: %s reported %s times" % (what, k, len(vs)))
        rec.ev("keys_checked")


def check_solution(rec, spec, sol, objs, what, pins=None, cost=None, opt=True,
                   names=True, exactconst=True):
    "All monitors on one (non-swept) solution"
    pins = pins or {}
    point = spec.read(sol["freevariables"], objs) if not pins else None
    if point is None:
        point = dict(pins)
        for n, i in spec.keys():
            if (n, i) not in pins:
                o = objs[n] if i is None else objs[n][i]
                point[(n, i)] = float(sol["freevariables"][o])*alg.unit_factor(o.units)[0]
    bad = [k for k, v in point.items() if not (v > 0 and math.isfinite(v))]
    if bad:
        raise Violation("not-positive", "%s: %s" % (what, {k: point[k] for k in bad}))
    viol, which = spec.violation(point)
    if viol > FEAS:
        raise Violation("infeasible-solution", "%s: constraint %s violated by %g at %s"
                        % (what, which, viol, point))
    rec.ev("constraints_evaluated", len(spec.cons))
    c = spec.costval(point).v
    if cost is None:
        cu = alg.unit_factor(getattr(sol["cost"], "units", None))[0]
        unit = spec_cost_units(spec, objs)
        reported = float(getattr(sol["cost"], "magnitude", sol["cost"]))
        reported *= cu if hasattr(sol["cost"], "units") else unit
    else:
        reported = cost
    if abs(math.log(reported/c)) > COST:
        raise Violation("wrong-cost", "%s: reported cost %r, cost expression is %r at %s"
                        % (what, reported, c, point))
    rec.ev("costs_checked")
    if opt:
        better = {} if pins else spec.hidden
        best = None
        if not pins:
            best = models.slsqp(spec, start=spec.hidden)
            h = spec.costval(spec.hidden).v
            if spec.violation(spec.hidden)[0] < 1e-9 and (best is None or h < best[0]):
                best = h, spec.hidden
            if best is None:
                rec.ev("no_independent_optimum")
            else:
                rec.ev("optima_compared")
                if c > best[0]*(1 + OPT):
                    raise Violation("suboptimal", "%s: cost %r, but %r at feasible %s"
                                    % (what, c, best[0], best[1]))
                if c < best[0]*(1 - OPT):
                    rec.ev("better_than_independent")
    if names:
        fk = [k for k in spec.keys() if k not in pins]
        used = spec.used()
        ck = [k for k in spec.keys("consts") if k in used] + list(pins)
        # a vector given as a whole may bring along elements nothing uses
        maybe = [k for k in spec.keys("consts") if k not in used
                 and any(u[0] == k[0] for u in used)]
        check_keys(rec, what + " freevariables", sol["freevariables"], fk)
        check_keys(rec, what + " constants", sol["constants"], ck, maybe)
        check_keys(rec, what + " variables", sol["variables"], fk + ck, maybe)
        want = {k: v for k, v in spec.constpoint().items() if k in used}
        got = spec.read(sol["constants"], objs, "consts", want)
        for k, v in want.items():
            if abs(got[k]-v) > 1e-12*abs(v):
                raise Violation("constant-changed", "%s: constant %s reported %r, is %r"
                                % (what, k, got[k], v))
        allv = spec.read(sol["variables"], objs, "consts", want)
        for k in spec.keys():
            o = objs[k[0]] if k[1] is None else objs[k[0]][k[1]]
            allv[k] = float(sol["variables"][o])*alg.unit_factor(o.units)[0]
        for k, v in allv.items():
            w = want[k] if k in want else point[k]
            if abs(v-w) > 1e-9*abs(w):
                raise Violation("wrong-keys", "%s: variables[%s] is %r, expected %r"
                                % (what, k, v, w))
    return point, c


def spec_cost_units(spec, objs):
    return alg.unit_factor(spec.build_cost(objs).units)[0]


def la_only(**kw):
    "A solver that returns posynomial multipliers only, dropping the cost's"
    from gpkit.solvers.cvxopt import optimize
    kw.setdefault("kktsolver", "ldl")
    kw.pop("p_idxs")
    out = optimize(**kw)
    if "nu" in out:
        nu, k, la, i = np.ravel(out.pop("nu")), kw["k"], [], 0
        for n in k:
            la.append(sum(nu[i:i+n]))
            i += n
        out["la"] = la[1:]
    return out


def nu_only(**kw):
    "A solver that returns monomial multipliers"
    from gpkit.solvers.cvxopt import optimize
    kw.setdefault("kktsolver", "ldl")
    p_idxs = kw.pop("p_idxs")
    out = optimize(**kw)
    la = np.ravel(out.pop("la"))
    k = kw["k"]
    if len(la) == len(k) - 1:
        la = np.hstack(([1.0], la))
    z = np.log(np.array(kw["c"])) + kw["A"].dot(np.ravel(out["primal"]))
    nu = []
    for p in range(len(k)):
        e = np.exp(z[p_idxs == p])
        nu += list(la[p]*e/e.sum())
    out["nu"] = nu
    return out


SOLVERS = [None, None, None, "cvxopt", la_only, nu_only]


def solve(rng, m, **kw):
    "A real solve through one of the supported solver interfaces"
    return m.solve(rng.choice(SOLVERS), verbosity=0, **kw)


def clean(rec, sys_stdout, what):
    "No solution-check warning may have been printed for an honest solver"
    out = sys_stdout.getvalue()
    if "Solution check warning" in out:
        raise Violation("spurious-warning", "%s: %s" % (
            what, [l for l in out.splitlines() if "check warning" in l][:2]))
    rec.ev("unwarned")
    return out


def plain(rng, rec):
    import sys
    big = rng.random() < .15
    spec = models.random_gp(rng, odd=rng.choice([0, .3]), nfree=rng.randint(4, 6) if big else None,
                            ncons=rng.randint(4, 8) if big else None)
    what = spec.text()
    m = spec.model()
    r = rng.random()
    if r < .7:
        sol = solve(rng, m)
    elif r < .85:
        sol = m.gp().solve(verbosity=0)
        rec.ev("program_solves")
    else:
        sol = m.solve(use_leqs=False, verbosity=0)
        rec.ev("no_leqs_solves")
    check_solution(rec, spec, sol, m.v_objs, what)
    clean(rec, sys.stdout, what)
    rec.ev("solutions")
    rec.sig(what)
    rec.sample(what)


def pinned(rng, rec):
    "Free variables, or single elements of vectors, turned into constants"
    spec = models.random_gp(rng, nfree=rng.randint(2, 4), vectors=.6)
    fkeys = spec.keys()
    pins = {}
    for key in rng.sample(fkeys, rng.randint(1, max(1, len(fkeys)//2))):
        if len(pins) < len(fkeys) - 1:
            pins[key] = spec.hidden[key]
    m = spec.model()
    subs = {}
    for (n, i), v in pins.items():
        o = m.v_objs[n] if i is None else m.v_objs[n][i]
        f = alg.decl_factor(spec.free[n][0])[0]
        if rng.random() < .5 or o.units is None:
            subs[o] = v/f
        else:
            subs[o] = (v/f)*o.units
    form = rng.random()
    if form < .5:
        m.substitutions.update(subs)
    else:
        for k, v in subs.items():
            m.substitutions[k] = v
    what = spec.text() + " pins %s" % pins
    import gpkit
    try:
        sol = solve(rng, m)
    except gpkit.exceptions.UnboundedGP:
        raise Skip("nothing left to bound")
    check_solution(rec, spec, sol, m.v_objs, what, pins)
    rec.ev("pinned_solutions")
    rec.sig(what)


def composed(rng, rec):
    "The same model spread over submodels that share variables"
    import gpkit
    spec = models.random_gp(rng, odd=rng.choice([0, .3]), nfree=rng.randint(2, 4), ncons=rng.randint(2, 5))
    objs = spec.make_vars()
    built = [spec.build_con(c, objs) for c in spec.cons]
    rng.shuffle(built)
    n = rng.randint(1, len(built))
    subm = [gpkit.Model(None, built[:n])] if rng.random() < .5 else \
        [gpkit.Model(spec.build_cost(objs), built[:n], spec.subs(objs))]
    rest = built[n:]
    if rng.random() < .5:
        subm.append(gpkit.Model(None, rest))
        rest = []
    m = gpkit.Model(spec.build_cost(objs), subm + rest, spec.subs(objs))
    sol = solve(rng, m)
    what = spec.text() + " composed"
    check_solution(rec, spec, sol, objs, what, opt=rng.random() < .3)
    rec.ev("composed_solutions")
    rec.sig(what)


def scaled(rng, rec):
    "Values many orders of magnitude away from one"
    spec = models.random_gp(rng, nfree=rng.randint(1, 3), vectors=.2, wide=2.0)
    far = rng.choice([6, 6, 12, 28])
    k = {n: 10.0**rng.randint(-far, far) for n in spec.free}
    # the same program in variables scaled by k: x = X/k
    def sc(t):
        if t[0] == "var" and t[1] in k:
            return ("mul", ("num", 1/k[t[1]]), t)
        if t[0] in ("vv", "vsum") and t[1] in k:
            return ("mul", ("num", 1/k[t[1]]), t)
        if t[0] == "vprod":
            raise Skip("product")
        return tuple(sc(x) if isinstance(x, tuple) and x and isinstance(x[0], str)
                     else x for x in t)
    spec.cost = sc(spec.cost)
    for c in spec.cons:
        c["l"], c["r"] = sc(c["l"]), sc(c["r"])
    spec.hidden = {key: v*k[key[0]] for key, v in spec.hidden.items()}
    m = spec.model()
    sol = solve(rng, m)
    what = spec.text()
    check_solution(rec, spec, sol, m.v_objs, what)
    rec.ev("scaled_solutions")
    if any(not 1e-20 < v < 1e20 for v in k.values()):
        rec.ev("very_far_solutions")
    rec.sig(what)


KINDS = {"plain": (plain, 500, 12000), "pinned": (pinned, 150, 3000),
         "composed": (composed, 150, 3000), "scaled": (scaled, 100, 2000)}
NEED = {"solutions": 300, "optima_compared": 300, "keys_checked": 3000,
        "pinned_solutions": 60, "composed_solutions": 80, "program_solves": 30,
        "scaled_solutions": 40, "very_far_solutions": 5}
