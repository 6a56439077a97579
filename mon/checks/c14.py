"""C14: local solves of signomial models.

The solver given to `localsolve` is the real one behind a tap that records every program it
is handed and every answer.  Offline, each recorded program is compared with the one the
harness derives itself, at the previous answer, from its own term lists (posynomials,
monomial approximations); the returned point is judged on the original constraints.
"""
import math
import warnings
import numpy as np
from ..core import Violation, Skip
from .. import alg, models
from .c08 import check_program, consistency, side, nest
from .c10 import check_keys

PROP = "C14"
RULE = ("a case is a random feasible model with signomial constraints, solved locally; "
        "non-trivial when a solution came back, identified by the model text")
TECH = ("trace of the sequence of programs given to the real solver, replayed against an "
        "independent approximation oracle; monitors on the returned point")
NOTE = ("equivalence of each approximate program judged at sampled points; approximations "
        "which reduce to a false comparison of constants are refused by gpkit and skipped")
ASSUME = ["pint's unit conversion factors are trusted"]
CPU_LIMIT = 40
QUICK_S = 100


# --------------------------------------------------------------- generation
class Sig:
    "sum(P) <= sum(N) (or =), as lists of monomial trees"
    def __init__(self, P, N, eq):
        self.P, self.N, self.eq = P, N, eq

    def text(self):
        return "%s %s %s" % (" + ".join(map(models.alg_show, self.P)),
                             "=" if self.eq else "<=",
                             " + ".join(map(models.alg_show, self.N)))


def monoterm(rng, spec, keys, d, fp, n=None):
    "random monomial of dimension d, with value about 1 SI at fp"
    t, td = models.mono(rng, spec, keys, n)
    if t is None:
        return None
    v = models.evaluate(t, fp).v
    return t, v, alg.dimadd(d, td, -1)


def freeexp(spec, tree, fp, onlyfree=True):
    "exponents of a monomial tree, from its log-derivatives"
    out = []
    for k in spec.keys() + ([] if onlyfree else spec.keys("consts")):
        y, dy = alg.grad(tree, fp, k)
        x = dy.v*fp[k][0]/y.v
        if abs(x) > 1e-9:
            out.append((k, round(x, 6)))
    return tuple(out)


def gen_sig(rng, spec, eq=False, merge=.15):
    fkeys, ckeys = spec.keys(), spec.keys("consts")
    fp = spec.full(spec.hidden)
    first, d = models.mono(rng, spec, fkeys, rng.randint(1, 2))

    def terms(n, keys, total):
        out = []
        for i in range(n):
            if rng.random() < .1:
                t, v, miss = None, 1.0, d
            else:
                t, v, miss = monoterm(rng, spec, keys, d, fp, rng.choice([1, 1, 2]))
            c = float("%.4g" % (total/n*math.exp(rng.uniform(-.8, .8))/v))
            k = models.num(c, miss, rng)
            out.append(k if t is None else ("mul", k, t))
        return out

    S = math.exp(rng.uniform(-1, 1))*models.evaluate(first, fp).v
    keys = fkeys + fkeys + ckeys
    N = terms(rng.randint(2, 3), keys, S)
    if rng.random() < .15:   # a term and its inverse: exponents that vanish somewhere
        t, v, miss = monoterm(rng, spec, fkeys, d, fp, 1)
        N = [("mul", models.num(float("%.4g" % (S/2/v)), miss, rng), t)]
        miss2 = alg.dimadd(d, alg.dimadd(alg.DIMLESS, miss, -1), 0)
        td = alg.dimadd(d, miss, -1)
        N.append(("div", models.num(float("%.4g" % (S/2*v)), alg.dimadd(d, td), rng), t))
    P = terms(rng.randint(1, 3), keys, S)
    plain = [k for k in fkeys if not spec.free[k[0]][0]]
    if rng.random() < .12 and d == alg.DIMLESS and len(plain) > 1 and not eq:
        # terms equal where all variables are one: their approximation there has the
        # exponents of another term, with which it merges into a constant
        a, b = rng.sample(plain, 2)
        c = round(rng.uniform(.5, 2), 2)
        N = [("mul", ("num", c), models.ref(rng, k)) for k in (a, b)]
        P = P[:rng.randint(0, 2)] + [("mul", ("num", round(c*rng.uniform(.1, .9), 3)),
                                      ("pow", ("mul", models.ref(rng, a),
                                               models.ref(rng, b)), 0.5))]
    Sn = sum(models.evaluate(t, fp).v for t in N)
    r = rng.random()
    if len(N) == 2 and r < .25 and not eq:
        # a term equal to the geometric mean of the two, i.e. to their approximation
        # where they are equal
        c = rng.uniform(.2, 1.4)
        P.append(("mul", ("num", round(c, 3)), ("pow", ("mul", N[0], N[1]), 0.5)))
    Sp = sum(models.evaluate(t, fp).v for t in P)
    rho = 1.0 if eq else rng.uniform(.4, .97)
    P = [("mul", ("num", Sn*rho/Sp), t) for t in P]
    # terms must differ, as written, within and across the sides
    es = [freeexp(spec, t, fp, False) for t in P + N]
    if len(set(es)) < len(es):
        return None
    fe = [freeexp(spec, t, fp) for t in P + N]
    if len(set(fe)) < len(fe) and rng.random() > merge:
        return None
    if not any(fe):
        return None
    s = Sig(P, N, eq)
    # after substitution of the constants
    tot = {}
    for t, e, sg in zip(P + N, fe, [1]*len(P) + [-1]*len(N)):
        tot[e] = tot.get(e, 0) + sg*models.evaluate(t, fp).v
    if any(abs(v) < 1e-6*Sn for v in tot.values()):
        return None
    pos = [e for e, v in tot.items() if v > 0]
    neg = [e for e, v in tot.items() if v < 0]
    if not neg or not pos:
        return None
    s.compat = not eq and len(neg) == 1
    return s


def total(trees, fp):
    return sum(models.evaluate(t, fp).v for t in trees)


def tree_sum(terms):
    out = terms[0]
    for t in terms[1:]:
        out = ("add", out, t)
    return out


def build_sig(rng, sig, objs):
    import gpkit
    P, N = list(sig.P), list(sig.N)
    rng.shuffle(P)
    rng.shuffle(N)
    p = rng.randint(1, len(P)) if rng.random() < .5 else len(P)
    n = rng.randint(1, len(N)) if rng.random() < .5 else len(N)
    small, big = tree_sum(P[:p]), tree_sum(N[:n])
    for t in N[n:]:
        small = ("sub", small, t)
    for t in P[p:]:
        big = ("sub", big, t)
    with gpkit.SignomialsEnabled():
        s, b = models.build(small, objs), models.build(big, objs)
        try:
            if sig.eq:
                sides = [s, b] if rng.random() < .5 else [b, s]
                r = rng.randrange(8)
                if r < 2:      # an array of one equality, on either side or both
                    sides[r] = gpkit.NomialArray([sides[r]])
                elif r == 2:
                    sides = [gpkit.NomialArray([side]) for side in sides]
                return gpkit.SignomialEquality(*sides)
            c = (b >= s) if rng.random() < .5 else (s <= b)
        except (gpkit.exceptions.PrimalInfeasible, AttributeError) as e:
            if isinstance(e, AttributeError) and "'bool'" not in str(e):
                raise
            raise Skip("approximation at all ones is constant")
    if isinstance(c, (bool, np.bool_)):
        raise Skip("constant constraint")
    return c


# --------------------------------------------------------------- the tap
def tap(log):
    from gpkit.solvers.cvxopt import optimize

    def solver(*, c, A, k, meq_idxs, p_idxs, **kw):
        call = {"c": np.array(c, float), "A": np.asarray(A.tocsr().todense(), float),
                "k": list(k), "p_idxs": np.array(p_idxs), "all": set(meq_idxs.all),
                "first": set(meq_idxs.first_half), "kw": dict(kw),
                "cols": log.columns()}
        log.calls.append(call)
        kw.setdefault("kktsolver", "ldl")
        out = optimize(c=c, A=A, k=k, meq_idxs=meq_idxs, p_idxs=p_idxs, **kw)
        call["primal"] = np.ravel(out["primal"]).astype(float)
        call["objective"] = float(out["objective"])
        return out
    return solver


class Log:
    def __init__(self):
        self.calls, self.program = [], None

    def columns(self):
        p = self.program() if callable(self.program) else self.program
        gp, = [g for g in vars(p).values() if hasattr(g, "varlocs")]
        return list(gp.varlocs)


def isslack(vk):
    return vk.name == "C" and bool(vk.lineage) and vk.lineage[-1][0] == "RelaxPCCP"


def keyof(vk):
    return vk.name, tuple(vk.idx) if vk.idx else None


def without_slack(rec, call, pccp, penalty, nsig, what):
    "The same program at slack = 1; monitors how the slack enters it"
    cols = call["cols"]
    js = [j for j, vk in enumerate(cols) if isslack(vk)]
    if len(js) != (1 if pccp else 0):
        raise Violation("slack", "%s: columns %s" % (what, cols))
    A, keep = call["A"], [j for j in range(len(cols)) if j not in js]
    keepposy, groups, first = [], 0, 0
    start = 0
    for p, n in enumerate(call["k"]):
        rows = slice(start, start+n)
        start += n
        if js:
            x = A[rows, js[0]]
            if p == 0:
                rec.require(np.all(x == penalty), "slack", "%s: cost has slack to the %s"
                            % (what, x))
            elif np.any(x):
                groups += 1
                rec.require(np.all(x == -1), "slack", "%s: a constraint has slack to the %s"
                            % (what, x))
        if p and not np.any(A[rows][:, keep]):   # nothing but slack, and constants
            tot = call["c"][rows].sum()
            if tot == 1:
                first += 1
            elif tot > 1 + 1e-3:
                raise Violation("extra-constraint", "%s: constant constraint %s <= slack"
                                % (what, tot))
            continue
        keepposy.append(p)
    if js:
        rec.require(first >= 1, "slack", "%s: slack is not bounded by 1" % what)
        rec.require(groups <= nsig + 1, "slack", "%s: slack in %s constraints, %s signomial"
                    % (what, groups, nsig))
    starts = np.cumsum([0] + call["k"])
    rows = np.concatenate([np.arange(starts[p], starts[p+1]) for p in keepposy])
    newstart = dict(zip([starts[p] for p in keepposy],
                        np.cumsum([0] + [call["k"][p] for p in keepposy[:-1]])))
    k = [call["k"][p] for p in keepposy]
    return {"c": call["c"][rows], "A": A[rows][:, keep], "k": k,
            "p_idxs": np.repeat(np.arange(len(k)), k),
            "all": {int(newstart[i]) for i in call["all"]}, "groups": groups,
            "first": {int(newstart[i]) for i in call["first"]}}, [cols[j] for j in keep]


def check_call(rec, rng, spec, sigs, call, x0, pccp, penalty, costunit, what):
    "One recorded program against the approximation of the model at x0 (SI)"
    nsig = sum(2 if s.eq else 1 for s in sigs if not s.compat)
    slim, cols = without_slack(rec, call, pccp, penalty, nsig, what)
    colkeys = [(keyof(vk), alg.decl_factor(spec.free[vk.name][0])[0]) for vk in cols]
    consistency(rec, slim, len(cols))
    fns = [side(spec, l, op, r) for con in spec.cons for l, op, r in spec.elements(con)]
    fp0 = spec.full(x0)

    def approx(trees):
        "monomial approximation of a sum of monomials at x0"
        vals = [models.evaluate(t, fp0).v for t in trees]
        S = sum(vals)
        exps = {}
        for t, v in zip(trees, vals):
            for key, x in freeexp(spec, t, fp0):
                exps[key] = exps.get(key, 0) + x*v/S

        def f(p):
            return S*math.exp(sum(x*math.log(p[key]/x0[key]) for key, x in exps.items()))
        return f
    for s in sorted(sigs, key=lambda s: not s.compat):
        if s.compat:
            fns.append(lambda p, s=s: (total(s.P, spec.full(p)),
                                       total(s.N, spec.full(p)), False))
            continue
        M = approx(s.N)
        if s.eq:
            L = approx(s.P)
            fns.append(lambda p, L=L, M=M: (L(p), M(p), False))
            fns.append(lambda p, L=L, M=M: (M(p), L(p), False))
        else:
            fns.append(lambda p, s=s, M=M: (total(s.P, spec.full(p)), M(p), False))
    free = {key for key, _ in colkeys}
    # sample around x0, where the approximations are meant to hold
    mid = {key: math.sqrt(v*spec.hidden[key]) for key, v in x0.items()}
    for f in fns[len(fns)-nsig:] if nsig else []:
        rs = []
        for _ in range(6):
            a, b, _ = f({key: v*math.exp(rng.uniform(-1, 1)) for key, v in mid.items()})
            rs.append(math.log(a/b))
        if max(rs)-min(rs) < .02:   # can't be told from a constant
            rec.ev("nearly_constant_approximations")
            return
    if pccp:   # every approximation, and the bound of the slack itself
        rec.require(slim["groups"] == nsig + 1, "slack", "%s: slack in %s constraints, %s"
                    " signomial" % (what, slim["groups"], nsig))
        rec.ev("slack_placements")
    check_program(rec, slim, colkeys, lambda p: spec.costval(p).v, costunit, fns, mid,
                  free, rng, what)
    rec.ev("programs_checked")


# --------------------------------------------------------------- kinds
def pick_model(rng, eqs=.2):
    spec = models.random_gp(rng, nfree=rng.randint(2, 4), ncons=rng.randint(0, 2),
                            nconst=rng.randint(0, 3), equalities=.15, vectors=.2)
    sigs = []
    for _ in range(rng.randint(1, 3)):
        for _ in range(5):
            s = gen_sig(rng, spec, eq=rng.random() < eqs and not any(s.eq for s in sigs))
            if s:
                sigs.append(s)
                break
    if all(s.compat for s in sigs):
        raise Skip("geometric")
    return spec, sigs


def make(rng, spec, sigs, objs=None):
    import gpkit
    objs = objs or spec.make_vars()
    built = [spec.build_con(c, objs) for c in spec.cons]
    extra = [build_sig(rng, s, objs) for s in sigs]
    cost = spec.build_cost(objs)
    m = gpkit.Model(cost, nest(rng, built + extra), spec.subs(objs))
    m.v_cu = alg.unit_factor(cost.units)[0]
    return m, objs


def guess(rng, spec, objs):
    "(x0 argument, SI point it stands for)"
    point = {k: alg.decl_factor(spec.free[k[0]][0])[0] for k in spec.keys()}  # ones
    r = rng.random()
    if r < .3:
        return (None if rng.random() < .5 else {}), point
    x0 = {}
    for n, (u, shape) in spec.free.items():
        if rng.random() < .15:
            continue
        f = alg.decl_factor(u)[0]
        o = objs[n]

        def v(key):
            return float("%.5g" % (spec.hidden[key]/f*(1 if r < .6 else
                                                      math.exp(rng.uniform(-.7, .7)))))
        if shape is None:
            x = v((n, None))
            key = rng.choice([o, o.key, n])
            point[(n, None)] = x*f
            if u and rng.random() < .25:
                x = x*o.units
            x0[key] = x
        elif rng.random() < .5:
            arr = np.array([v((n, i)) for i in np.ndindex(*shape)]).reshape(shape)
            for i in np.ndindex(*shape):
                point[(n, i)] = arr[i]*f
            x0[rng.choice([o.key, n])] = arr
        else:
            for i in np.ndindex(*shape):
                x = v((n, i))
                x0[rng.choice([o[i], o[i].key])] = x
                point[(n, i)] = x*f
    # guesses for constants must not replace their values
    for n, (val, u, shape) in spec.consts.items():
        if rng.random() < .3:
            x0[objs[n].key] = np.asarray(val)*1.7 if shape else val*1.7
    if rng.random() < .2:
        import gpkit
        x0[gpkit.Variable("unrelated")] = 3.0
    return x0, point


def final_checks(rec, spec, sigs, sol, objs, m, log, reltol, warned, pccp, what):
    res = spec.read(sol["freevariables"], objs)
    bad = [k for k, v in res.items() if not (v > 0 and math.isfinite(v))]
    if bad:
        raise Violation("not-positive", "%s: %s" % (what, {k: res[k] for k in bad}))
    objectives = [call["objective"] for call in log.calls]
    if len(objectives) < 2:
        raise Violation("not-converged", "%s: returned after %s programs"
                        % (what, len(objectives)))
    a, b = objectives[-2:]
    if abs(a-b)/(a+b) > max(reltol, 1e-5)*(1+1e-9) or b > a*(1 + 1e-5):
        raise Violation("not-converged", "%s: reltol %s, last costs %r" % (
            what, reltol, objectives[-3:]))
    rec.ev("convergence_checked")
    rises = sum(d > c*(1 + 1e-5) for c, d in zip(objectives, objectives[1:]))
    said = sum("SGP not convergent" in w for w in warned)
    if rises and not said or said > sum(d > c for c, d in zip(objectives, objectives[1:])):
        raise Violation("rise-warning", "%s: warned %s times of costs %r"
                        % (what, said, objectives))
    if rises:
        rec.ev("rises_then_converged")
    if warned:
        rec.ev("warned_solves")
        return
    viol, which = spec.violation(res)
    if viol > 1e-4:
        raise Violation("infeasible-solution", "%s: constraint %s violated by %g at %s"
                        % (what, which, viol, res))
    fp = spec.full(res)
    for s in sigs:
        r = total(s.P, fp)/total(s.N, fp)
        v = abs(math.log(r)) if s.eq else math.log(r)
        tol = 1e-4
        if s.eq:   # exact only to second order in the last step
            tol += 40*laststep(log)**2
        if v > tol:
            raise Violation("infeasible-solution", "%s: signomial %s violated by %g at %s"
                            % (what, s.text(), v, res))
        rec.ev("signomials_evaluated")
    c = spec.costval(res).v
    cost = sol["cost"]
    f = alg.unit_factor(cost.units)[0] if hasattr(cost, "units") else m.v_cu
    reported = float(getattr(cost, "magnitude", cost))*f
    if abs(math.log(reported/c)) > 3e-4:
        raise Violation("wrong-cost", "%s: reported %r, cost expression is %r at %s"
                        % (what, reported, c, res))
    rec.ev("costs_checked")
    used = usedkeys(spec, sigs)
    check_keys(rec, what + " freevariables", sol["freevariables"], spec.keys())
    ck = [k for k in spec.keys("consts") if k in used]
    maybe = [k for k in spec.keys("consts") if k not in used
             and any(u[0] == k[0] for u in used)]
    check_keys(rec, what + " constants", sol["constants"], ck, maybe)
    check_keys(rec, what + " variables", sol["variables"], spec.keys() + ck, maybe)
    want = {k: v for k, v in spec.constpoint().items() if k in used}
    got = spec.read(sol["constants"], objs, "consts", want)
    for k, v in want.items():
        if abs(got[k]-v) > 1e-12*abs(v):
            raise Violation("constant-changed", "%s: constant %s reported %r, is %r"
                            % (what, k, got[k], v))
    return reported


def check_slack(rec, sol, log, pccp, warned, what):
    "A solution speaks of the slack, everywhere and with a warning, only if it was used"
    value = None
    if log:
        last = log.calls[-1]
        at = [float(x) for vk, x in zip(last["cols"], last["primal"]) if isslack(vk)]
        value = math.exp(at[0]) - 1 if at else 0.0
    senss = sol["sensitivities"]
    places = {"variables": sol["variables"], "freevariables": sol["freevariables"],
              "sensitivities": senss["variables"], "cost sensitivities": senss["cost"]}
    shown = {k: any(isslack(vk) for vk in d) for k, d in places.items()}
    shown["models"] = any("RelaxPCCP" in str(k) for k in senss["models"])
    shown["constraints"] = any(
        {vk.name for vk in getattr(c, "vks", ())} == {"C"}
        and all(isslack(vk) for vk in c.vks) for c in senss["constraints"])
    if not pccp or value is not None and value < 5e-7:
        rec.require(not any(shown.values()), "slack", "%s: an unused slack (%s) is in %s"
                    % (what, value, shown))
        rec.ev("slack_unused")
    elif value is not None and value > 2e-6:
        rec.require(all(shown[k] for k in ("variables", "freevariables")), "slack",
                    "%s: slackened by %s, but shown only in %s" % (what, value, shown))
        rec.require(any("slacken" in w for w in warned), "slack",
                    "%s: slackened by %s without a warning" % (what, value))
        rec.ev("slack_used")


def usedkeys(spec, sigs):
    cons = list(spec.cons)
    try:
        for s in sigs:
            spec.cons.append(models.con(tree_sum(s.P), "<=", tree_sum(s.N)))
        return spec.used()
    finally:
        spec.cons[:] = cons


def laststep(log):
    "largest logarithmic change of a variable in the last iteration"
    a, b = [dict(zip(c["cols"], c["primal"])) for c in log.calls[-2:]]
    return max(abs(b[k]-a[k]) for k in b if k in a)


def local(rng, rec):
    import gpkit
    spec, sigs = pick_model(rng)
    what = spec.text() + " | " + "; ".join(s.text() for s in sigs)
    m, objs = make(rng, spec, sigs)
    x0, point = guess(rng, spec, objs)
    pccp, penalty = rng.random() < .75, rng.choice([2e2, 2e2, 50, 400.])
    reltol = rng.choice([1e-4, 1e-4, 1e-2, 1e-6])
    kw = {"reltol": reltol} if reltol != 1e-4 else {}
    if not pccp:
        kw["use_pccp"] = False
    elif penalty != 2e2:
        kw["pccp_penalty"] = penalty
    log = Log()
    initkw = {k: kw.pop(k) for k in list(kw) if k in ("use_pccp", "pccp_penalty")}
    with warnings.catch_warnings(record=True) as caught:
        warnings.simplefilter("always")
        try:
            prog = m.sp(**initkw)
            log.program = prog
            first = list(prog.gp().varlocs)
            kw.update({"x0": x0} if x0 is not None or rng.random() < .5 else {})
            limit = rng.choice([1, 2, 3, 5]) if rng.random() < .15 else 50
            if limit != 50:
                kw["iteration_limit"] = limit
            res = prog.localsolve(tap(log), verbosity=0, **kw)
            if rng.random() < .8:
                sol = res
            else:
                sol = m.localsolve(verbosity=0, x0=x0, **{k: v for k, v in kw.items()
                                                          if k != "x0"}, **initkw)
        except (gpkit.exceptions.Infeasible, gpkit.exceptions.UnboundedGP) as e:
            sol = None
            err = e
    what += " | x0 %s, pccp %s, reltol %s" % (x0, pccp and penalty, reltol)
    # every program, whether or not the sequence ended well
    rest = list(range(2, len(log.calls)))
    for i in sorted(set([0, 1, len(log.calls)-1] + rng.sample(rest, min(2, len(rest))))):
        if not 0 <= i < len(log.calls):
            continue
        if i:
            prev = log.calls[i-1]
            at = dict(point)
            for vk, v in zip(prev["cols"], prev["primal"]):
                if not isslack(vk):
                    at[keyof(vk)] = math.exp(v)*alg.decl_factor(spec.free[vk.name][0])[0]
        else:
            at = point
        check_call(rec, rng, spec, sigs, log.calls[i], at, pccp, penalty, m.v_cu,
                   "program %i of %s" % (i, what))
    if len({tuple(c["k"]) for c in log.calls}) > 1:
        rec.ev("structure_changes")
    if len(log.calls) > limit + 1:
        raise Violation("iteration-limit", "%s: %s programs, limit %s"
                        % (what, len(log.calls), limit))
    if sol is None and "Unsolved after" in str(err):
        if len(log.calls) < limit:
            raise Violation("iteration-limit", "%s: gave up after %s programs, limit %s"
                            % (what, len(log.calls), limit))
        rec.ev("limit_reached")
    if sol is None:
        rec.ev("unsuccessful")
        # started feasible, without slack: every program contains the previous point
        if (not pccp and spec.violation(point)[0] < 1e-9 and not any(s.eq for s in sigs)
                and all(total(s.P, spec.full(point)) < total(s.N, spec.full(point))*.999
                        for s in sigs) and "Unsolved" not in str(err)
                and isinstance(err, gpkit.exceptions.PrimalInfeasible)):
            raise Violation("lost-feasible-point", "%s: %r although the initial guess is"
                            " feasible" % (what, err))
        return
    relevant = [str(w.message) for w in caught if "SGP not convergent" in str(w.message)
                or "slacken" in str(w.message)]
    slack = [vk for vk in sol["variables"] if isslack(vk)]
    if slack and not relevant:
        raise Violation("slack", "%s: slack %s reported without a warning"
                        % (what, sol["variables"][slack[0]]))
    check_slack(rec, sol, log if sol is res else None, pccp, relevant, what)
    rec.ev("solves")
    if sol is res:
        reported = final_checks(rec, spec, sigs, sol, objs, m, log, reltol, relevant, pccp,
                                what)
        if (reported and not pccp and not any(s.eq for s in sigs)
                and spec.violation(point)[0] < 1e-9
                and all(total(s.P, spec.full(point)) < total(s.N, spec.full(point))
                        for s in sigs)):
            rec.ev("feasible_starts")
            if reported > spec.costval(point).v*(1 + 1e-3):
                raise Violation("worse-than-start", "%s: cost %r, initial guess %r"
                                % (what, reported, spec.costval(point).v))
    elif relevant:
        pass
    else:   # the model's own entry point gives what its program gave
        rec.ev("model_solves")
        a, b = float(res["cost"]), float(sol["cost"])
        if abs(a-b) > 2e-4*abs(a):
            raise Violation("entry-points-differ", "%s: program %r, model %r"
                            % (what, a, b))
    rec.ev("signomial_equalities", sum(s.eq for s in sigs))
    rec.ev("iterations", len(log.calls))
    rec.sig(what)
    rec.sample(what + " -> %s iterations" % len(log.calls))


def swept(rng, rec):
    "Local solves over a sweep, and repeated, are those of the points alone"
    import gpkit
    spec, sigs = pick_model(rng, eqs=0)
    used = usedkeys(spec, sigs)
    cs = [n for n, c in spec.consts.items() if c[2] is None and (n, None) in used]
    if not cs:
        raise Skip("no constant to sweep")
    n = rng.choice(cs)
    base = spec.consts[n][0]
    vals = [float("%.4g" % (base*f)) for f in sorted(rng.sample([.9, .95, 1, 1.05, 1.1],
                                                                rng.randint(2, 3)))]
    objs = spec.make_vars()
    state = rng.getstate()
    m, _ = make(rng, spec, sigs, objs)
    what = spec.text() + " | " + "; ".join(s.text() for s in sigs) + " | %s over %s" % (n,
                                                                                       vals)
    with warnings.catch_warnings(record=True) as caught:
        warnings.simplefilter("always")
        try:
            singles = []
            for v in vals:
                m.substitutions[objs[n]] = v
                singles.append(m.localsolve(verbosity=0))
            again = m.localsolve(verbosity=0)
            m.substitutions[objs[n]] = ("sweep", vals)
            sol = m.localsolve(verbosity=0)
        except (gpkit.exceptions.Infeasible, gpkit.exceptions.UnboundedGP,
                gpkit.exceptions.UnnecessarySGP) as e:
            raise Skip("unsuccessful: %s" % type(e).__name__)
    if any("SGP not" in str(w.message) or "slacken" in str(w.message) for w in caught):
        raise Skip("warned")
    if abs(again["cost"] - singles[-1]["cost"]) > 1e-9*again["cost"]:
        raise Violation("not-repeatable", "%s: %r then %r" % (what, singles[-1]["cost"],
                                                              again["cost"]))
    costs = np.ravel(sol["cost"])
    rec.require(len(costs) == len(vals), "sweep-points", "%s: costs %s" % (what, costs))
    for i, s in enumerate(singles):
        if abs(costs[i] - s["cost"]) > 1e-7*s["cost"]:
            raise Violation("sweep-differs", "%s: point %s has cost %r swept, %r alone"
                            % (what, i, costs[i], s["cost"]))
        for k in spec.keys():
            o = objs[k[0]] if k[1] is None else objs[k[0]][k[1]]
            a, b = float(np.asarray(sol["variables"][o])[i]), float(s["variables"][o])
            if abs(a-b) > 1e-6*abs(b):
                raise Violation("sweep-differs", "%s: point %s has %s=%r swept, %r alone"
                                % (what, i, k, a, b))
        rec.ev("sweep_points")
    rec.ev("local_sweeps")
    rec.sig(what)


def external(rng, rec):
    "A user's constraint is asked for approximations at each previous solution"
    import gpkit
    x, y = gpkit.Variable("x"), gpkit.Variable("y")
    lo, hi = rng.uniform(.2, 1), rng.uniform(1.5, 4)
    p, q = rng.uniform(.5, 2), rng.uniform(.3, 3)
    seen = []

    def f(v):
        return q*(1 + v**p)*math.exp(.3*v)

    def slope(v):
        h = 1e-6
        return (math.log(f(v*(1+h))) - math.log(f(v*(1-h))))/(2*h)

    class External:
        def as_gpconstr(self, x0):
            "y >= local power law of f"
            if x not in x0:
                seen.append(None)
                return y >= q*x
            v = float(x0[x])
            seen.append(v)
            return y >= f(v)*(x/v)**slope(v)
    start = rng.uniform(lo, hi) if rng.random() < .6 else None
    a, b = rng.uniform(.2, 3), rng.uniform(.5, 2)
    m = gpkit.Model(y + a/x**b, [External(), x >= lo, x <= hi])
    log = Log()
    log.program = lambda: m.program
    kw = {"x0": {rng.choice([x, x.key, "x"]): start}} if start else {}
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        try:
            sol = m.localsolve(tap(log), verbosity=0, **kw)
        except gpkit.exceptions.Infeasible as e:
            raise Skip("unsuccessful %s" % e)
    want = []
    for c in log.calls:
        j, = [j for j, vk in enumerate(c["cols"]) if vk == x.key]
        want.append(math.exp(c["primal"][j]))
    want = ([start] if start else []) + want[:-1]
    got = seen[1:] if start else seen[1:]
    what = "y >= %g(1+x^%g)e^.3x, x in %g..%g from %s" % (q, p, lo, hi, start)
    if seen[0] is not None or len(got) != len(want) or any(
            abs(g-w) > 1e-12*w for g, w in zip(got, want)):
        raise Violation("approximated-elsewhere", "%s: asked at %s, solutions %s"
                        % (what, seen, want))
    xv, yv = float(sol["variables"][x]), float(sol["variables"][y])
    prev = want[-1]
    if abs(math.log(yv/(f(prev)*(xv/prev)**slope(prev)))) > 1e-4:
        raise Violation("infeasible-solution", "%s: y=%r at x=%r" % (what, yv, xv))
    rec.ev("external_approximations", len(seen))
    rec.sig(what)


def slack(rng, rec):
    "Sums of bounded variables asked for a little more, or less, than they can give"
    import gpkit
    n = rng.randint(2, 3)
    us = [None, "m", "ft"]
    d = rng.random() < .5
    units = [rng.choice(us[1:]) if d else None for _ in range(n)]
    names = ["x", "y", "z"][:n]
    xs = [gpkit.Variable(a, u or "-") for a, u in zip(names, units)]
    tops = [float("%.3g" % math.exp(rng.uniform(-1, 1))) for _ in xs]
    lows = [float("%.3g" % (t*rng.uniform(.3, .9))) for t in tops]
    f = [alg.decl_factor(u)[0] for u in units]
    e = rng.choice([-.3, -.05, 1e-5, 1e-4, 1e-3, 5e-3, 9e-3, .03, .2, 1.])
    w = [rng.randint(1, 3) for _ in xs]
    const = rng.choice([0, rng.uniform(.1, 2)])    # is put on the other side
    total_ = sum(wi*t*fi for wi, t, fi in zip(w, tops, f))
    base = gpkit.units("m") if d else 1
    want = total_*(1 + e) + const
    with gpkit.SignomialsEnabled():
        lhs = const*base + sum(wi*x for wi, x in zip(w, xs))
        con = (lhs >= want*base) if not rng.random() < .3 else \
            (lhs - want*base*.25 >= want*base*.75)
    p = rng.choice([None, 200., 60., 1000.])
    cost = 1
    for x in xs:
        cost = cost*x
    cons = [con, [x <= t*(x.units or 1) for x, t in zip(xs, tops)],
            [x >= lo*(x.units or 1) for x, lo in zip(xs, lows)]]
    m = gpkit.Model(cost, nest(rng, cons))
    what = "min prod(x) with x %s of units %s <= %s, %s + sum(%s x) >= %s (%+g), penalty %s" % (
        names, units, tops, const, w, want, e, p)
    kw = {} if p is None else {"pccp_penalty": p}
    if rng.random() < .5:
        kw["verbosity"] = 0
    else:
        kw["verbosity"] = 1
    log = Log()
    log.program = lambda: m.program
    with warnings.catch_warnings(record=True) as caught:
        warnings.simplefilter("always")
        sol = m.localsolve(tap(log), **kw)
    warned = [str(x.message) for x in caught]
    check_slack(rec, sol, log, True, warned, what)
    got = [float(v) for vk, v in sol["variables"].items() if isslack(vk)]
    C = 1 + max(e, 0)
    if (C > 1) != bool(got) or got and abs(got[0]/C - 1) > 2e-6 + e*1e-4:
        raise Violation("slack", "%s: slack %s" % (what, got))
    at = {a: float(sol["freevariables"][x]) for a, x in zip(names, xs)}
    have = const + sum(wi*at[a]*fi for wi, a, fi in zip(w, names, f))
    if have - const < (want - const)/C*(1 - 1e-4) or any(at[a] > t*(1 + 1e-5) for a, t in zip(names, tops)):
        raise Violation("infeasible-solution", "%s: %s" % (what, at))
    rec.ev("slackened" if got else "not_slackened")
    # none, if not allowed
    with warnings.catch_warnings(record=True) as caught:
        warnings.simplefilter("always")
        try:
            sol = m.localsolve(verbosity=0, use_pccp=False, x0=dict(zip(xs, tops)))
        except gpkit.exceptions.Infeasible:
            sol = None
    if sol is None and e < 0 or sol is not None and (
            e > 1e-4 or any(isslack(vk) for vk in sol["variables"])):
        raise Violation("slack", "%s: without slack, %s" % (what, sol and sol["variables"]))
    rec.ev("without_slack")
    # as cheap as not meeting it, if the penalty is small enough
    q = rng.choice([.02, .05])
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        sol = m.localsolve(verbosity=0, pccp_penalty=q)
    at = {a: float(sol["freevariables"][x]) for a, x in zip(names, xs)}
    if any(abs(at[a]/lo - 1) > 1e-3 for a, lo in zip(names, lows)):
        raise Violation("penalty-ignored", "%s: with penalty %s, %s instead of %s"
                        % (what, q, at, lows))
    rec.ev("penalties_honoured")
    rec.sig(what)
    rec.sample(what)


KINDS = {"local": (local, 260, 5200), "slack": (slack, 60, 1500), "swept": (swept, 50, 900),
         "external": (external, 40, 600)}
NEED = {"programs_checked": 300, "solves": 100, "signomials_evaluated": 100,
        "convergence_checked": 80, "signomial_equalities": 10, "sweep_points": 20,
        "external_approximations": 80, "feasible_starts": 5, "slackened": 20, "not_slackened": 5, "limit_reached": 3,
        "rises_then_converged": 1, "penalties_honoured": 30, "structure_changes": 2}
