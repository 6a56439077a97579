"""C08: the program handed to the solver is the model as written.

A solver function given by the user records its arguments (the trace) and answers with a
distinct fake value per column, which identifies columns from the reported solution.  An
offline checker then evaluates every generated posynomial and every constraint as written
at random points: (large - small)/(1 - posynomial) has to be one positive monomial over
all points for each inequality, and log posynomial = +-log ratio for each equality.
"""
import math
import numpy as np
from ..core import Violation, Skip
from .. import alg, models

PROP = "C08"
RULE = ("a case is a random feasible geometric model (scalars, vectors, units, constants, "
        "nested containers, equalities, signomial constraints that substitution makes "
        "geometric); non-trivial when the solver was called, identified by the model text")
TECH = "solver-call trace recorded by a stand-in solver, offline equivalence checker"
NOTE = ("random models; equivalence judged at sampled points to 1e-6, so a wrong term that "
        "is negligible at all sampled points would be missed")
ASSUME = ["pint's unit conversion factors are trusted"]




def make_solver(log):
    def recorder(*, c, A, k, meq_idxs, p_idxs, **kw):
        csr = A.tocsr()
        M = np.asarray(csr.todense(), float)
        n = M.shape[1]
        log.append({"c": np.array(c, float), "A": M, "k": list(k),
                    "p_idxs": np.array(p_idxs), "all": set(meq_idxs.all),
                    "first": set(meq_idxs.first_half), "kw": dict(kw)})
        return {"status": "optimal", "objective": 1.0,
                "primal": np.array([0.001*(j+1) for j in range(n)]),
                "nu": np.full(len(c), 1e-3)}
    return recorder


def nest(rng, built, depth=0):
    "The same constraints in random nested containers"
    from gpkit import ConstraintSet
    items = list(built)
    rng.shuffle(items)
    if len(items) < 2 or depth > 2:
        return items
    out = []
    while items:
        n = rng.randint(1, len(items))
        part, items = items[:n], items[n:]
        r = rng.random()
        if r < .4:
            out += part
        elif r < .55:
            out.append(nest(rng, part, depth+1))
        elif r < .7:
            out.append(ConstraintSet(nest(rng, part, depth+1)))
        elif r < .85:
            out.append({"c%i" % i: p for i, p in enumerate(part)})
        else:
            out.append(tuple(part))
    return out


def posyvals(call, logx):
    "values of the generated posynomials at a point of column logs"
    z = call["c"]*np.exp(call["A"] @ logx)
    out, i = [], 0
    for n in call["k"]:
        out.append(float(z[i:i+n].sum()))
        i += n
    return out


def consistency(rec, call, nfree):
    "Structural monitors on one solver call"
    k = call["k"]
    N = len(call["c"])
    rec.require(sum(k) == N and call["A"].shape[0] == N and all(n >= 1 for n in k),
                "inconsistent-matrix", "k sums to %s, %s coefficients, A %s"
                % (sum(k), N, call["A"].shape))
    want = np.repeat(np.arange(len(k)), k)
    rec.require(np.array_equal(call["p_idxs"], want), "inconsistent-matrix",
                "p_idxs %s is not %s" % (call["p_idxs"], want))
    rec.require((call["c"] > 0).all() and np.isfinite(call["c"]).all(), "bad-coefficient",
                "coefficients %s" % call["c"])
    rec.require(call["A"].shape[1] == nfree, "wrong-columns", "%s columns for %s free"
                " variables" % (call["A"].shape[1], nfree))
    starts = set(np.cumsum([0] + list(k[:-1])).tolist())
    rec.require(call["all"] <= starts and call["first"] <= call["all"]
                and len(call["all"]) == 2*len(call["first"]),
                "equality-markers", "all %s first %s starts %s" % (
                    call["all"], call["first"], starts))
    for i in call["all"]:
        rec.require(k[call["p_idxs"][i]] == 1 and i > 0, "equality-markers",
                    "monomial equality with several terms")
    rec.ev("matrices_checked")


def check_program(rec, call, colkeys, cost, costunit, cons, point, free, rng, what):
    """cons: [(function(point)->[(small, large, is_eq)] )] scalar constraints as written

    colkeys: harness key and unit factor of every column
    """
    def logx(p):
        return np.array([math.log(p[key]/f) for key, f in colkeys])

    def near(spread):
        return {k2: v*math.exp(rng.uniform(-spread, spread)) if k2 in free else v
                for k2, v in point.items()}
    pairs = []
    for s in (.1, .4, 1.0, .7, 1.5):
        p, q = near(s), near(s)
        mid = {k2: math.sqrt(p[k2]*q[k2]) for k2 in p}
        pairs.append((p, q, mid))
    pts = [x for pr in pairs for x in pr]
    G = [posyvals(call, logx(p)) for p in pts]
    W = [[c(p) for c in cons] for p in pts]
    # objective
    for p, g in zip(pts, G):
        want = cost(p)/costunit
        if abs(g[0]-want) > 1e-8*abs(want):
            raise Violation("objective", "%s: objective %r at %s, cost %r"
                            % (what, g[0], p, want))
        rec.ev("objective_points")
    ncon = len(cons)
    flagged = [False]*len(call["k"])
    for i in call["all"]:
        flagged[call["p_idxs"][i]] = True
    firsts = [False]*len(call["k"])
    for i in call["first"]:
        firsts[call["p_idxs"][i]] = True

    def matches(j, i):
        "does posynomial j say the same as constraint i?  (sign for equalities)"
        if W[0][i][2]:
            if not flagged[j]:
                return False
            sign = None
            for g, w in zip(G, W):
                r = math.log(w[i][0]/w[i][1])
                lg = math.log(g[j])
                if abs(lg-r) < 1e-7*(1+abs(r)):
                    s = 1
                elif abs(lg+r) < 1e-7*(1+abs(r)):
                    s = -1
                else:
                    return False
                if abs(r) < 1e-6:
                    continue
                if sign is None:
                    sign = s
                if s != sign:
                    return False
            return sign or 1
        if flagged[j]:
            return False
        tested = 0
        hs = []
        for n, (g, w) in enumerate(zip(G, W)):
            D, scale = w[i][1]-w[i][0], abs(w[i][1])+abs(w[i][0])
            E = 1-g[j]
            if abs(D) < 1e-4*scale or abs(E) < 1e-4*(1+g[j]):
                if abs(D) > .1*scale and abs(E) < 1e-3:
                    return False
                hs.append(None)
                continue
            if D*E <= 0:
                return False
            tested += 1
            hs.append(math.log(D/E))
        for n in range(0, len(hs), 3):
            a, b, m = hs[n:n+3]
            if None not in (a, b, m) and abs(m-(a+b)/2) > 1e-5*(1+abs(a)+abs(b)):
                return False
        return tested >= 3

    used = {}
    npos = len(call["k"])
    constant = []
    for i in range(ncon):
        rs = [w[i][0]/w[i][1] if w[i][1] else math.nan for w in W]
        const = not any(math.isnan(r) for r in rs) and max(rs)-min(rs) < 1e-11*max(rs)
        constant.append(const)
        if const:
            continue
        found = {}
        for j in range(1, npos):
            s = matches(j, i)
            if s:
                used.setdefault(j, []).append(i)
                found[s] = found.get(s, 0) + 1
        if W[0][i][2]:
            if not (1 in found and -1 in found):
                raise Violation("constraint-missing", "%s: equality %i not represented"
                                " both ways: %s" % (what, i, found))
        elif not found:
            raise Violation("constraint-missing", "%s: constraint %i is not represented;"
                            " ratios %s, posynomials %s" % (
                                what, i, rs[:3], [g[1:] for g in G[:3]]))
        rec.ev("equalities_matched" if W[0][i][2] else "inequalities_matched")
    extra = [j for j in range(1, npos) if j not in used]
    if extra:
        raise Violation("extra-constraint", "%s: posynomials %s match nothing written;"
                        " values %s" % (what, extra, [[g[j] for j in extra] for g in G[:4]]))
    rec.ev("constant_constraints", sum(constant))
    # of each equality pair, one half carries the first-half marker
    for i in range(ncon):
        if W[0][i][2] and not constant[i]:
            js = [j for j in used if i in used[j]]
            if 2*sum(firsts[j] for j in js) != len(js):
                raise Violation("equality-markers", "%s: equality %i has posynomials %s,"
                                " first halves %s" % (what, i, js, firsts))


def columns(sol, spec, objs, pins):
    "Identifies columns from the fake values"
    out = {}
    fv = sol["freevariables"]
    for n, i in spec.keys():
        if (n, i) in pins:
            continue
        o = objs[n] if i is None else objs[n][i]
        v = math.log(float(fv[o]))/0.001
        j = int(round(v)) - 1
        if abs(v-1-j) > 1e-6 or j in out:
            raise Violation("wrong-columns", "column %s of %s already taken or unknown: %s"
                            % (v, (n, i), out))
        out[j] = ((n, i), alg.decl_factor(spec.free[n][0])[0])
    return [out[j] for j in sorted(out)], out


def program(rng, rec):
    import gpkit
    spec = models.random_gp(rng, odd=rng.choice([0, .25]), nfree=rng.randint(1, 5), ncons=rng.randint(0, 5),
                            nconst=rng.randint(0, 5))
    objs = spec.make_vars()
    built = [spec.build_con(c, objs) for c in spec.cons]
    cost = spec.build_cost(objs)
    extras, cons = signomials(rng, spec, objs) if rng.random() < .35 else ([], [])
    m = gpkit.Model(cost, nest(rng, built + extras), spec.subs(objs))
    pins = {}
    fkeys = spec.keys()
    if rng.random() < .4 and len(fkeys) > 1:
        for key in rng.sample(fkeys, rng.randint(1, max(1, len(fkeys)//2))):
            pins[key] = spec.hidden[key]
            o = objs[key[0]] if key[1] is None else objs[key[0]][key[1]]
            f = alg.decl_factor(spec.free[key[0]][0])[0]
            m.substitutions[o] = spec.hidden[key]/f
        rec.ev("pinned_models")
    free = {k for k in fkeys if k not in pins}
    if not free:
        raise Skip("nothing free")
    log = []
    try:
        sol = m.solve(make_solver(log), verbosity=0)
    except gpkit.exceptions.UnboundedGP:
        raise Skip("pinned equality leaves nothing")
    call = log[0]
    what = spec.text() + (" pins %s" % pins if pins else "") + \
        (" extra %s" % extras if extras else "")
    seen = {(vk.name, tuple(vk.idx) if vk.idx else None) for vk in m.program.varlocs}
    if not seen <= free:
        raise Violation("wrong-columns", "%s: columns %s, free %s" % (what, seen, free))
    # a variable may lose its column only if nothing that depends on it remains
    consistency(rec, call, len(seen))
    if seen != free:
        raise Violation("wrong-columns", "%s: no column for %s" % (what, free - seen))
    cols, _ = columns(sol, spec, objs, pins)
    fns = []
    for ci, con in enumerate(spec.cons):
        for l, op, r in spec.elements(con):
            fns.append(side(spec, l, op, r))
    fns += cons
    cu = alg.unit_factor(cost.units)[0]
    check_program(rec, call, cols, lambda p: spec.costval(p).v, cu, fns,
                  spec.hidden, free, rng, what)
    if rng.random() < .3:
        by_hand(rng, rec, m, cost, call, what)
    rec.sig(what)
    rec.ev("programs")
    rec.sample(what)


def by_hand(rng, rec, m, cost, call, what):
    "the same program made by hand, its constants given as numbers or in other units"
    import gpkit
    from gpkit.constraints.gp import GeometricProgram
    subs = {}
    for k, v in m.program.substitutions.items():
        if rng.random() < .5 and np.ndim(v) == 0 and np.isfinite(v) and v > 0:
            q = gpkit.ureg.Quantity(float(v), k.units or "dimensionless")
            q = q.to_base_units() if rng.random() < .7 else q
            if rng.random() < .2 and not k.units:
                q = float(v)*100*gpkit.ureg.Quantity(1, "cm/m")
            v = gpkit.nomials.Monomial(q)
            rec.ev("constants_by_hand")
        subs[k] = v
    log = []
    gp = GeometricProgram(cost, m, subs)
    gp.solve(make_solver(log), verbosity=0)
    order = {k: i for i, k in enumerate(gp.varlocs)}
    perm = [order.get(k) for k in m.program.varlocs]
    if None in perm or len(perm) != len(order):
        raise Violation("by-hand", "%s: columns %s by hand" % (what, list(order)))
    got = log[0]
    if list(got["k"]) != list(call["k"]) or not np.allclose(got["c"], call["c"], rtol=1e-9, atol=0) \
            or not np.allclose(np.asarray(got["A"])[:, perm], np.asarray(call["A"]), atol=1e-12):
        raise Violation("by-hand", "%s: coefficients %s when its constants are given as %s,"
                        " instead of %s" % (what, got["c"], subs, call["c"]))
    rec.ev("programs_by_hand")


def side(spec, l, op, r):
    def f(p):
        fp = spec.full(p)
        a, b = models.evaluate(l, fp).v, models.evaluate(r, fp).v
        return (b, a, False) if op == ">=" else (a, b, op == "=")
    return f


def signomials(rng, spec, objs):
    "Signomial constraints that the constants make geometric"
    import gpkit
    extras, fns = [], []
    fkeys, ckeys = spec.keys(), spec.keys("consts")
    fp = spec.full(spec.hidden)
    for _ in range(rng.randint(1, 2)):
        base, d = models.mono(rng, spec, fkeys, rng.randint(1, 2))
        bv = models.evaluate(base, fp).v
        # greater side: (sum of constants)*base, i.e. one monomial after substitution
        gt, gv = None, 0
        for _ in range(rng.randint(1, 3)):
            if ckeys and rng.random() < .8:
                k = rng.choice(ckeys)
                cd = spec.dim(k[0])
                cv = fp[k][0]
                t = ("mul", ("mul", models.num(float("%.4g" % (rng.uniform(.5, 2)/cv)),
                                               alg.dimadd(alg.DIMLESS, cd, -1), rng),
                             models.ref(rng, k)), base)
            else:
                t = ("mul", ("num", round(rng.uniform(.5, 2), 3)), base)
            tv = models.evaluate(t, fp).v
            neg = gt is not None and rng.random() < .4 and gv > 1.3*tv
            gt = t if gt is None else ("sub" if neg else "add", gt, t)
            gv += -tv if neg else tv
        lt, _ = models.posy(rng, spec, fkeys + ckeys, rng.randint(1, 3), d, fp, gv*.3)
        lv = models.evaluate(lt, fp).v
        k = float("%.5g" % (gv*rng.uniform(.4, .9)/lv))
        lt = ("mul", ("num", k), lt)
        if rng.random() < .5:   # some of it moved to the other side
            t, _ = models.posy(rng, spec, fkeys, 1, d, fp, bv*.05)
            tv = models.evaluate(t, fp).v
            if tv > .3*(gv - k*lv):
                t = ("mul", ("num", float("%.4g" % (.3*(gv-k*lv)/tv))), t)
            gt = ("sub", gt, t)
        ge = rng.random() < .5
        with gpkit.SignomialsEnabled():
            L, R = models.build(lt, objs), models.build(gt, objs)
            c = (R >= L) if ge else (L <= R)
        extras.append(c)
        fns.append(side(spec, lt, "<=", gt))
    return extras, fns


def exact(rng, rec):
    "Coefficients and exponents of every posynomial to 1e-11, by exact fractions"
    import gpkit
    from fractions import Fraction as F
    n = rng.randint(1, 4)
    xs = [gpkit.Variable("x%i" % i) for i in range(n)]
    hidden = [math.exp(rng.uniform(-1, 1)) for _ in range(n)]

    def mono(zero=.3):
        e = tuple(rng.choice([0]*int(8*zero) + [1, 1, -1, 2, -2, .5, -1.5])
                  for _ in range(n))
        return e if any(e) else (1,) + e[1:]

    def value(e):
        return math.prod(h**a for h, a in zip(hidden, e))

    def obj(c, e):
        out = c
        for x, a in zip(xs, e):
            if a:
                out = out*x**a
        return out

    cons, wants, texts = [], [], []

    def put(terms, const, right, flip):
        """sum of terms + const <= right, the terms (c, exps), right (c, exps) or a number
        with the zero vector; flip writes it as right >= ..."""
        lhs = None
        parts = [obj(c, e) for c, e in terms] + ([const] if const else [])
        order = list(range(len(parts)))
        rng.shuffle(order)
        for i in order:
            lhs = parts[i] if lhs is None else lhs + parts[i]
        rhs = obj(*right)
        cons.append(rhs >= lhs if flip else lhs <= rhs)
        want = {}
        rc, re = F(right[0]), right[1]
        for c, e in terms + ([(const, (0,)*n)] if const else []):
            k = tuple(a - b for a, b in zip(e, re))
            want[k] = want.get(k, 0) + F(c)/rc
        free = want.pop((0,)*n, 0)
        wants.append({k: float(c/(1 - free)) for k, c in want.items()})
        texts.append("%s + %s <= %s" % (terms, const, right))

    for x in range(n):      # bounded whatever else is there
        e = tuple(1 if i == x else 0 for i in range(n))
        put([(round(.1/hidden[x], 4), e)], 0, (1., (0,)*n), rng.random() < .5)
        put([(round(.1*hidden[x], 4), tuple(-a for a in e))], 0, (1., (0,)*n),
            rng.random() < .5)
    for _ in range(rng.randint(1, 4)):
        terms = [(round(rng.uniform(.1, 2), 3), mono()) for _ in range(rng.randint(1, 3))]
        right = (1., (0,)*n) if rng.random() < .4 else (round(rng.uniform(.5, 2), 3), mono())
        if all(e == right[1] for _, e in terms):
            continue
        rv = right[0]*value(right[1])
        tv = sum(c*value(e) for c, e in terms)
        terms = [(float("%.6g" % (c*.5*rv/tv)), e) for c, e in terms]
        if any(e == right[1] for _, e in terms) and \
                sum(c for c, e in terms if e == right[1]) > .9*right[0]:
            continue
        const = 0
        r = rng.random()
        if r < .6:
            const = rng.choice([1e-2, 1e-3, 3e-4, 1e-4, 2e-5, 1e-6, 2e-7, 1e-8, .3, .9])
            if not any(right[1]):
                rec.ev("constant_left_of_number")
            if const < 2e-3:
                rec.ev("tiny_constants")
            const *= .5*rv
            const = float("%.5g" % const)
        put(terms, const, right, rng.random() < .5)
        if rng.random() < .4:
            # says almost, but not exactly, the same
            f = 1 + rng.choice([1e-4, -1e-4, 1e-5, 1e-6, -1e-7, 1e-8])
            twin = [(c*f, e) for c, e in terms]
            if rng.random() < .3:
                twin, right = terms, (right[0]*f, right[1])
            put(twin, const, right, rng.random() < .5)
            rec.ev("near_twins")
    log = []
    m = gpkit.Model(sum(xs[1:], xs[0]), nest(rng, cons))
    sol = m.solve(make_solver(log), verbosity=0)
    call = log[0]
    consistency(rec, call, n)
    perm = [int(round(math.log(float(sol["freevariables"][x]))/0.001)) - 1 for x in xs]
    rec.require(sorted(perm) == list(range(n)), "wrong-columns", "columns %s" % perm)
    got, i = [], 0
    for k in call["k"]:
        posy = {}
        for j in range(i, i+k):
            e = tuple(float(a) for a in call["A"][j][perm])
            rec.require(e not in posy, "repeated-exponents", "%s has %s twice" % (texts, e))
            posy[e] = call["c"][j]
        got.append(posy)
        i += k

    def close(a, b):
        return set(a) == set(b) and all(abs(a[k]-b[k]) <= 1e-11*abs(b[k]) for k in b)
    wants = [{tuple(map(float, k)): c for k, c in w.items()} for w in wants]
    for w, t in zip(wants, texts):
        if not w:
            continue
        if not rec.check(any(close(g, w) for g in got[1:]), "coefficients-differ",
                         "%s should be %s, the solver was given %s" % (t, w, got[1:])):
            return
        rec.ev("exact_posynomials")
    for g in got[1:]:
        rec.check(any(close(g, w) for w in wants), "extra-posynomial",
                  "the solver was given %s, not in %s" % (g, texts))
    rec.sig(texts)


def negative(rng, rec):
    "Negative and zero constants never reach the solver as nonpositive coefficients"
    import gpkit
    spec = models.random_gp(rng, nfree=rng.randint(1, 3), ncons=rng.randint(1, 4),
                            nconst=rng.randint(1, 4))
    objs = spec.make_vars()
    cost = spec.build_cost(objs)
    m = gpkit.Model(cost, nest(rng, [spec.build_con(c, objs) for c in spec.cons]),
                    spec.subs(objs))
    subs = {}
    for n in rng.sample(list(spec.consts), rng.randint(1, len(spec.consts))):
        v, _, shape = spec.consts[n]
        scale = rng.choice([-1, -1, -1e-6, -1e-12, 0])
        if shape:
            scale = np.where(np.arange(int(np.prod(shape))).reshape(shape)
                             == rng.randrange(int(np.prod(shape))), scale, 1)
        subs[n] = np.asarray(v)*scale if shape else v*scale
    zeros = any(np.any(np.asarray(v) == 0) for v in subs.values())
    within = {k.veckey or k for k in m.varkeys}
    unused = not any(objs[n].key in within for n in subs)
    m.substitutions.update({objs[n]: v for n, v in subs.items() if objs[n].key in within})
    what = "%s with %s" % (spec.text(), subs)
    log = []
    form = rng.choice(["solve", "gp", "localsolve"])
    try:
        if form == "solve":
            m.solve(make_solver(log), verbosity=0)
        elif form == "gp":
            m.gp().solve(make_solver(log), verbosity=0)
        else:
            m.localsolve(make_solver(log), verbosity=-1)
    except Exception as e:  # pylint: disable=broad-except
        if not log and unused and form != "localsolve":
            raise Violation("refused", "%s: %r though it uses none of these" % (what, e))
        rec.ev("negative_" + ("refused" if not log else "handed"))
    for call in log:
        # (a constant of zero may be divided by)
        if (call["c"] <= 0).any() or not (zeros or np.isfinite(call["c"]).all()):
            raise Violation("bad-coefficient", "%s: %s is told coefficients %s"
                            % (what, form, call["c"]))
    rec.sig(what)


KINDS = {"program": (program, 900, 20000), "negative": (negative, 300, 5000), "exact": (exact, 600, 10000)}
NEED = {"programs": 400, "programs_by_hand": 100, "constants_by_hand": 80, "negative_refused": 100, "inequalities_matched": 3000, "equalities_matched": 60,
        "pinned_models": 80, "objective_points": 5000,
        "exact_posynomials": 2000, "tiny_constants": 150, "near_twins": 100,
        "constant_left_of_number": 50}
