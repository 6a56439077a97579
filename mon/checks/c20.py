"""C20: relaxations are sound, admit the original, and report exactly what was relaxed.

The relaxed constraints themselves are evaluated at random points and random factors (they
must be the original ratios divided by exactly their factor); relaxed models are solved and
judged on the harness's own trees with the factors and constants the solution reports.
"""
import copy
import itertools
import math
import re
import numpy as np
from ..core import Violation, Skip
from .. import alg, models, reader
from . import c11, c14

PROP = "C20"
RULE = ("a case is a random model, often made infeasible by tightening some constraints or "
        "moving constants, relaxed in one of the three ways and solved; non-trivial when "
        "relaxed constraints or a relaxed solution were judged, identified by model and kind")
TECH = ("monitors on relaxed constraints at random points and on solutions of relaxed models, "
        "against independent constraint ratios; warnings compared with factors")
NOTE = ("solver tolerance 1e-4; whether slightly relaxed factors (0.1% to 1%) are listed is "
        "left open, as documented; relaxing inside Vectorize is not covered")
ASSUME = ["optimality of relaxed solutions judged against the unrelaxed optimum only"]
CPU_LIMIT = 60
QUICK_S = 100
TOL = 1e-4


def tighten(rng, spec, n=None):
    "Makes some constraints harder (typically infeasible); returns the altered spec"
    s = copy.copy(spec)
    s.cons = list(spec.cons)
    for i in rng.sample(range(len(s.cons)), min(len(s.cons), n or rng.randint(1, 3))):
        c = dict(s.cons[i])
        small = "r" if c["op"] == ">=" else "l"
        c[small] = ("mul", ("num", float("%.4g" % math.exp(rng.uniform(.2, 2.5)))), c[small])
        s.cons[i] = c
    return s


def allratios(spec, point):
    "[(log ratio, equality)] of all constraint elements"
    out = []
    for con in spec.cons:
        out += [(math.log(r), eq) for r, eq in spec.ratios(con, point)]
    return out


def ratio_of(c, point, decls):
    "log of smaller over larger side of a gpkit constraint"
    l, r = alg.measure(c.left, point, decls), alg.measure(c.right, point, decls)
    if c.oper == ">=":
        l, r = r, l
    if c.oper == "=":
        raise Violation("not-inequality", "relaxed into equality %s" % c)
    return math.log(l.v/r.v)


def judge_constraints(rec, rng, spec, relaxed, relaxvars, what, each):
    "At random points and factors, relaxed ratios are original ones over their factor"
    flat = flatcons(relaxed)
    rkeys = {v.key: v for v in np.ravel(relaxvars)}
    point = {k: v*math.exp(rng.uniform(-.5, .5)) for k, v in spec.hidden.items()}
    facs = {k: math.exp(rng.uniform(0, 1)) for k in rkeys}
    full = {k: v for k, (v, _) in spec.full(point).items()}

    def keyid(vk):
        return vk if vk in rkeys else alg.key_id(vk)
    pt = dict(full)
    pt.update(facs)
    decls = spec.decls()
    decls["C"] = None
    got, usedfac = [], []
    for c in flat:
        mine = {vk for side in (c.left, c.right) for vk in getattr(side, "vks", ())
                if vk in rkeys}
        if len(mine) != 1:
            raise Violation("factor-count", "%s: %s has factors %s" % (what, c, mine))
        vk, = mine
        l = measure(c.left, pt, decls, keyid)
        r = measure(c.right, pt, decls, keyid)
        if c.oper == ">=":
            l, r = r, l
        elif c.oper != "<=":
            raise Violation("not-inequality", "%s: relaxed into %s" % (what, c))
        got.append(math.log(l/r) + math.log(facs[vk]))
        usedfac.append(vk)
    want = []
    for lr, eq in allratios(spec, point):
        want += [lr, -lr] if eq else [lr]
    if len(got) != len(want) or any(abs(a-b) > 1e-9*(1+abs(a)) for a, b in
                                    zip(sorted(got), sorted(want))):
        raise Violation("wrong-relaxation", "%s: relaxed ratios times factors %s, original"
                        " ratios %s" % (what, sorted(got), sorted(want)))
    if each:
        n = len(allratios(spec, point))
        if len(set(usedfac)) != n or len(rkeys) != n:
            raise Violation("factor-count", "%s: %s factors used of %s for %s constraints"
                            % (what, len(set(usedfac)), len(rkeys), n))
    rec.ev("relaxed_constraints_evaluated", len(got))
    return {vk: [g for g, u in zip(got, usedfac) if u == vk] for vk in set(usedfac)}


def flatcons(relaxed):
    "single constraints of the relaxation"
    from gpkit import ConstraintSet
    cs = relaxed["relaxed constraints"]
    return list(cs.flat()) if hasattr(cs, "flat") else list(ConstraintSet(cs).flat())


def measure(expr, pt, decls, keyid):
    return alg.measure(expr, pt, decls, keyid).v


def solved(m, **kw):
    import gpkit
    try:
        return m.solve(verbosity=0, **kw)
    except gpkit.exceptions.UnknownInfeasible:
        raise Skip("solver gives up")


def factor(sol, v):
    r = float(sol["variables"][v])
    if r < 1 - 1e-5:
        raise Violation("factor-below-one", "%s is %r" % (v, r))
    return r


TEXT = re.compile(r"relaxed, from +(.*) (>=|<=|=) (.*)\n +to +(.*) (>=|<=|=) (.*)$", re.S)


def relaxed_text(rec, what, msg, original, f, full, decls):
    "the constraint a warning shows is the original, with one side moved by its factor"
    found = TEXT.search(msg)
    if not found:
        raise Violation("unreadable-relaxation", "%s: %r" % (what, msg))
    l0, op0, r0, l1, op1, r1 = [" ".join(t.split()) for t in found.groups()]
    if [l0, op0, r0] != [" ".join(str(t).split())
                         for t in (original.left, original.oper, original.right)]:
        raise Violation("another-original", "%s: %s for %s" % (what, msg, original))
    if re.search(r"\bC\b(?!\])", l1 + " , " + r1):
        raise Violation("factor-unnamed", "%s: %r shows a name for the factor" % (what, msg))
    names, mags = {}, {}
    for (n, i), (v, d) in full.items():
        name = n + ("" if i is None else "[%s]" % ",".join(map(str, i)))
        names[name] = reader.T(v, 0, d)
        mags[name] = reader.T(v/alg.decl_factor(decls[n])[0])

    def reads(text, terms):
        out = []
        try:
            if terms:     # printed from terms: of numbers in the variables' own units
                for g, u in reader.readings(text, mags, True):
                    if isinstance(g, reader.T):
                        out.append(g*reader.T(*(u[:1] if u else (1.,))))
            for g, u in reader.readings(text, names):
                if isinstance(g, reader.T) and (u is None or g.d in (u[1], None)):
                    out.append(g)
        except reader.ReadError:
            pass
        return out
    sides = [reads(l0, 0)[:1], reads(r0, 0)[:1], reads(l1, 1), reads(r1, 1)]
    if not all(sides):
        rec.ev("text-unread")
        return
    if op0 != "=" and op1 != op0:    # may be shown the other way around
        sides[2:] = sides[3], sides[2]
    for four in itertools.product(*sides):
        vals = [t.v for t in four]
        slack = .006 + sum(t.e/abs(t.v) if t.v else math.inf for t in four)
        if not min(vals) > 0 or not slack < .5:
            return
        moved = math.log(vals[2]*vals[1]/vals[3]/vals[0])
        away = math.log(f)*(-1 if op0 == "<=" else 1)
        if op0 == "=" and abs(abs(moved) - math.log(f)) <= 1.5*slack or \
                abs(moved - away) <= 1.5*slack:
            rec.ev("text-read")
            rec.ev("text-telling", int(math.log(f) > 3*slack))
            return
    raise Violation("wrong-relaxed-text", "%s: %r reads as %s, factor %g" % (what, msg, sides, f))


def lists(sol, cat):
    return list(sol.get("warnings", {}).get(cat, []))


def expect_listed(rec, what, factors, listed):
    "factors: {id: value}, listed: ids. Exactly the noticeably relaxed ones"
    most = max(factors.values())
    for k, v in factors.items():
        if v > 1.0101 and k not in listed:
            raise Violation("relaxed-unlisted", "%s: %s relaxed by %r, listed %s"
                            % (what, k, v, sorted(map(str, listed))))
        if v < 1.00095 and k in listed:
            raise Violation("listed-unrelaxed", "%s: %s has factor %r, but is listed"
                            % (what, k, v))
    extra = set(listed) - set(factors)
    if extra or len(set(listed)) != len(listed):
        raise Violation("listed-unknown", "%s: %s listed" % (what, listed))
    rec.ev("listings_checked")
    if any(v > 1.0101 for v in factors.values()):
        rec.ev("relaxed_listed")
    if most < 1.0009:
        rec.ev("nothing_relaxed")


def container(rng, spec, built):
    from gpkit import ConstraintSet, Model
    from .c08 import nest
    items = nest(rng, built)
    return items if rng.random() < .5 else ConstraintSet(items)


def percent(msg):
    return int(msg.split("%")[0].split()[-1])


def base_and_penalty(spec):
    "optimal log cost of the original, and a penalty that makes relaxing unprofitable"
    m0 = spec.model()
    import gpkit
    try:
        s0 = m0.solve(verbosity=0)
    except gpkit.exceptions.Infeasible:
        raise Skip("original not solved")
    f = alg.unit_factor(m0.cost.units)[0]
    sens = sum(s0["sensitivities"]["constraints"].values())
    return math.log(float(s0["cost"])*f), sens


def constraints(rng, rec):
    "Relaxing constraints, equally or each"
    import gpkit
    from gpkit.constraints.relax import ConstraintsRelaxed, ConstraintsRelaxedEqually
    orig = models.random_gp(rng, nfree=rng.randint(1, 3), ncons=rng.randint(0, 3),
                            equalities=.35)
    hard = rng.random() < .7
    spec = tighten(rng, orig) if hard else orig
    each = rng.random() < .55
    objs = spec.make_vars()
    try:
        built = [spec.build_con(c, objs) for c in spec.cons]
    except gpkit.exceptions.PrimalInfeasible:
        if not hard:
            raise
        raise Skip("terms cancel into a false comparison of numbers")
    if any(b is False for b in built):
        raise Skip("an equality of numbers, false by rounding")
    what = ("each of " if each else "all of ") + spec.text()
    cost = spec.build_cost(objs)
    if rng.random() < .4:
        cons = gpkit.Model(cost, container(rng, spec, built), spec.subs(objs))
        subs = {}
    else:
        cons, subs = container(rng, spec, built), spec.subs(objs)
    relaxed = (ConstraintsRelaxed if each else ConstraintsRelaxedEqually)(cons)
    rv = relaxed.relaxvars if each else [relaxed.relaxvar]
    where = judge_constraints(rec, rng, spec, relaxed, rv, what, each)
    if not hard:
        f0, sens = base_and_penalty(spec)
        K = math.ceil(1 + 2*sens)
    else:
        K = rng.choice([1, 3, 10, 30])
        f0 = None
    m = gpkit.Model(cost*np.prod(rv)**K, relaxed, subs)
    if rng.random() < .2 and hard:   # just the feasibility problem
        m = gpkit.Model(np.prod(rv), relaxed, subs)
        # variables may be left unbounded only if the box was; it is not
    sol = solved(m)
    rec.ev("relaxed_solves")
    point = spec.read(sol["variables"], objs)
    facs = {v.key: factor(sol, v) for v in np.ravel(rv)}
    # every original constraint holds up to its factor
    full = {k: v for k, (v, _) in spec.full(point).items()}
    pt = dict(full)
    pt.update({vk: 1.0 for vk in facs})
    decls = dict(spec.decls(), C=None)
    worst = {}
    for c in flatcons(relaxed):
        vk, = {vk for side in (c.left, c.right) for vk in getattr(side, "vks", ())
               if vk in facs}
        l, r = (measure(s, pt, decls, lambda k: k if k in facs else alg.key_id(k))
                for s in (c.left, c.right))
        lr = math.log(l/r) if c.oper == "<=" else math.log(r/l)
        worst[vk] = max(worst.get(vk, 0), lr)
        if lr > math.log(facs[vk]) + TOL:
            raise Violation("not-up-to-factor", "%s: %s violated by %g, factor %g"
                            % (what, c, math.exp(lr), facs[vk]))
    spworst = max(lr if not eq else abs(lr) for lr, eq in allratios(spec, point))
    if spworst > math.log(max(facs.values())) + TOL:
        raise Violation("not-up-to-factor", "%s: violated by %g, factors %s"
                        % (what, math.exp(spworst), facs))
    rec.ev("soundness_checked", len(worst))
    if f0 is not None:
        c = math.log(spec.costval(point).v)
        if max(facs.values()) > 1.002 or abs(c-f0) > 1e-3:
            raise Violation("feasible-relaxed", "%s: penalty %s, factors %s, cost %g"
                            " instead of %g" % (what, K, facs, math.exp(c), math.exp(f0)))
        rec.ev("feasible_unchanged")
    # what is reported
    w = lists(sol, "Relaxed Constraints")
    if each:
        flat = list(relaxed.original_constraints)
        byid = {i: facs[relaxed.relaxvars[i].key] for i in range(len(flat))}
        got = []
        for msg, data in w:
            i = [j for j, c in enumerate(flat) if c is data]
            if len(i) != 1 or int(msg.split(":")[0]) != i[0]:
                raise Violation("listed-unknown", "%s: %s" % (what, msg))
            got.append(i[0])
            if abs(percent(msg.split("relaxed")[0]) - 100*(byid[i[0]]-1)) > 1.01:
                raise Violation("wrong-percentage", "%s: %s for %r" % (what, msg, byid[i[0]]))
            relaxed_text(rec, what, msg, data, byid[i[0]], spec.full(point),
                         spec.decls())
        expect_listed(rec, what, byid, got)
        # each factor sits on its own original
        for i, c in enumerate(flat):
            l, r = (measure(s, pt, decls, alg.key_id) for s in (c.left, c.right))
            lr = math.log(l/r) if c.oper == "<=" else math.log(r/l)
            lr = abs(lr) if c.oper == "=" else lr
            if lr > math.log(byid[i]) + TOL:
                raise Violation("wrong-factor", "%s: constraint %s violated by %g, its"
                                " factor is %g" % (what, c, math.exp(lr), byid[i]))
    else:
        got = ["all"] if w else []
        f, = facs.values()
        expect_listed(rec, what, {"all": f}, got)
        if w and abs(percent(w[0][0]) - 100*(f-1)) > 1.01:
            raise Violation("wrong-percentage", "%s: %s for %r" % (what, w[0][0], f))
    rec.sig(what, K)
    rec.sample("%s, penalty %s -> %s" % (what, K, sorted(map(lambda x: round(x, 4),
                                                              facs.values()))))


def constants(rng, rec):
    "Relaxing constants"
    import gpkit
    from gpkit.constraints.relax import ConstantsRelaxed
    orig = models.random_gp(rng, nfree=rng.randint(1, 3), nconst=rng.randint(1, 4),
                            constvec=.5, vectors=.5, equalities=.2)
    hard = rng.random() < .6
    spec = orig
    used = spec.used()
    names = [n for n in spec.consts if any(u[0] == n for u in used)]
    if not names:
        raise Skip("no constant used")
    if hard:   # some constants moved far away
        spec = c11.scaled_spec(orig, {k: math.exp(rng.choice([-1, 1])*rng.uniform(.5, 3))
                                      for k in orig.keys("consts") if rng.random() < .6})
    kw, chosen = {}, set(names)
    r = rng.random()
    if r < .2:
        ex = rng.sample(names, rng.randint(1, len(names)))
        kw["exclude"] = rng.choice([set, list, tuple])(ex)
        chosen -= set(ex)
    elif r < .4:
        inc = rng.sample(names, rng.randint(1, len(names)))
        kw["include_only"] = rng.choice([set, list, tuple])(inc)
        chosen &= set(inc)
    m0 = spec.model()
    objs = m0.v_objs
    before = {str(k): repr(np.array(v).tolist()) for k, v in m0.substitutions.items()}
    what = "constants of %s %s" % (spec.text(), {k: sorted(v) for k, v in kw.items()})
    tants = ConstantsRelaxed(m0, **kw)
    # the relaxed constants are exactly the chosen ones
    freed = {alg.key_id(v.key): i for i, v in enumerate(tants.freedvars)}
    ucons = {k for c in spec.cons for k in usedby(spec, c)}
    wantfreed = {k for k in spec.keys("consts") if k in used and k[0] in chosen}
    must = {k for k in wantfreed if k in ucons}
    if not must <= set(freed) <= {k for k in spec.keys("consts") if k[0] in chosen} \
            or len(freed) != len(tants.freedvars) or len(freed) != len(tants.relaxvars):
        raise Violation("wrong-constants", "%s: freed %s, expected %s"
                        % (what, sorted(freed, key=str), sorted(wantfreed, key=str)))
    if hard:
        K, f0 = rng.choice([2, 10, 30]), None
    else:
        f0, _ = base_and_penalty(spec)
        s0 = m0.solve(verbosity=0)
        K = math.ceil(1 + 2*sum(abs(v) for v in
                                s0["sensitivities"]["variables"].values()
                                if np.ndim(v) == 0 and not np.isnan(v))
                      + 2*sum(np.nansum(np.abs(v)) for v in
                              s0["sensitivities"]["variables"].values() if np.ndim(v)))
    pen = tants.relaxvars.prod()**K if len(tants.relaxvars) else 1
    m = gpkit.Model(m0.cost*pen, tants)
    try:
        sol = solved(m)
    except gpkit.exceptions.PrimalInfeasible:
        if not hard:
            raise Violation("original-refused", what)
        # the numbers in the model may contradict each other whatever the constants
        rec.ev("still_infeasible")
        if chosen != set(names):
            raise Skip("not all constants relaxed")
        check_really(rng, spec, what)
        raise Skip("infeasible with relaxed constants")
    rec.ev("relaxed_constants_solves")
    decls = spec.decls()
    cp = spec.constpoint()
    scale, facs = {}, {}
    for k, i in freed.items():
        if k not in used:
            continue
        f = factor(sol, tants.relaxvars[i])
        facs[k] = f
        o = objs[k[0]] if k[1] is None else objs[k[0]][k[1]]
        v = float(sol["variables"][o])*alg.decl_factor(decls[k[0]])[0]
        if abs(math.log(v/cp[k])) > math.log(f) + 1e-5:
            raise Violation("not-up-to-factor", "%s: %s went from %r to %r, factor %r"
                            % (what, k, cp[k], v, f))
        scale[k] = v/cp[k]
        a = float(sol["variables"][tants.freedvars[i]])
        if abs(a*alg.decl_factor(decls[k[0]])[0]/v-1) > 1e-9:
            raise Violation("wrong-constants", "%s: freed %s is %r, not %r" % (what, k, a, v))
    for k in spec.keys("consts"):
        if k in used and k not in freed:
            o = objs[k[0]] if k[1] is None else objs[k[0]][k[1]]
            v = float(sol["variables"][o])*alg.decl_factor(decls[k[0]])[0]
            if abs(v/cp[k]-1) > 1e-9:
                raise Violation("constant-changed", "%s: %s not relaxed but %r instead of"
                                " %r" % (what, k, v, cp[k]))
            rec.ev("kept_constants")
    point = spec.read(sol["variables"], objs)
    viol, which = spec.violation(point, scale)
    if viol > TOL:
        raise Violation("not-up-to-factor", "%s: constraint %s violated by %g with the"
                        " relaxed constants" % (what, which, viol))
    rec.ev("soundness_checked", len(scale))
    if f0 is not None:
        c = math.log(spec.costval(point).v)
        if facs and max(facs.values()) > 1.002 or abs(c-f0) > 1e-3:
            raise Violation("feasible-relaxed", "%s: penalty %s, factors %s, cost %g"
                            " instead of %g" % (what, K, facs, math.exp(c), math.exp(f0)))
        rec.ev("feasible_unchanged")
    if facs:
        w = lists(sol, "Relaxed Constants")
        got = []
        for msg, data in w:
            k = alg.key_id(data.key)
            got.append(k)
            a, b = (float(x) for x in msg.split("relaxed from")[1].split(" to "))
            u = alg.decl_factor(decls[k[0]])[0]
            if abs(a*u/cp[k]-1) > 2e-3 or abs(b*u/cp[k]/scale[k]-1) > 2e-3:
                raise Violation("wrong-values-listed", "%s: %s; from %r to %r"
                                % (what, msg, cp[k]/u, cp[k]*scale[k]/u))
        expect_listed(rec, what, facs, got)
    if {str(k): repr(np.array(v).tolist()) for k, v in m0.substitutions.items()} != before:
        raise Violation("original-changed", "%s: substitutions %s are now %s" % (
            what, before, m0.substitutions))
    if facs and rng.random() < .4:
        sens_of_original(rng, rec, spec, kw, K, sol, objs, rng.choice(sorted(facs, key=str)),
                         what)
    rec.sig(what, K)
    rec.sample("%s, penalty %s -> %s" % (what, K, {k: round(f, 4) for k, f in facs.items()}))


def usedby(spec, con):
    s = copy.copy(spec)
    s.cost, s.cons = ("num", 1.0), [con]
    return s.used()


def check_really(rng, spec, what):
    "Is there no assignment of the constants that makes the constraints feasible?"
    s = copy.copy(spec)
    s.free = dict(spec.free)
    for n, (v, u, shape) in spec.consts.items():
        s.free[n] = (u, shape)
    s.hidden = dict(spec.hidden)
    s.hidden.update(spec.constpoint())
    s.consts, s.how = {}, {}
    s.cost = ("num", 1.0)
    out = models.slsqp(s, start=s.hidden)
    if out is not None and s.violation(out[1])[0] < -1e-6:
        raise Violation("missed-feasible", "%s: feasible at %s" % (what, out[1]))


def sens_of_original(rng, rec, spec, kw, K, sol, objs, k, what):
    "Sensitivity to the original value, against slopes of freshly relaxed models"
    import gpkit
    from gpkit.constraints.relax import ConstantsRelaxed
    o = objs[k[0]] if k[1] is None else objs[k[0]][k[1]]
    s = c11.reported(sol, o)

    def logcost(h):
        s2 = c11.scaled_spec(spec, {k: math.exp(h)})
        m = s2.model()
        t = ConstantsRelaxed(m, **kw)
        try:
            return math.log(float(gpkit.Model(m.cost*t.relaxvars.prod()**K, t).solve(
                verbosity=0)["cost"]))
        except gpkit.exceptions.Infeasible:
            return None
    f = [logcost(h) for h in (-c11.H, 0, c11.H)]
    if None in f:
        raise Skip("perturbed model not solved")
    lo, hi = c11.bracket(f[1], f[0], f[2], c11.H)
    if c11.compare(rec, "%s: sensitivity to relaxed %s" % (what, k), s, lo, hi):
        rec.ev("relaxed_sensitivities")


def odd(rng, rec):
    "Constants that are zero, negative or computed; swept; signomial; nothing to relax"
    import gpkit
    from gpkit.constraints.relax import (ConstantsRelaxed, ConstraintsRelaxed,
                                         ConstraintsRelaxedEqually)
    kind = rng.choice(["neg", "linked", "none", "sp", "nested"])
    x, y = gpkit.Variable("x", "m"), gpkit.Variable("y")
    what = kind
    if kind == "neg":
        va = rng.choice([0, -1.5, -round(rng.uniform(.1, 2), 2)])
        vb = round(rng.uniform(3, 5), 2)
        a, b = gpkit.Variable("a", va, "m"), gpkit.Variable("b", vb, "m")
        cap = round(rng.uniform(.5, 8), 2)
        top = gpkit.Variable("top", cap, "m")
        m0 = gpkit.Model(x, [x >= vb*gpkit.units.m + a, x <= top, y >= 1, y <= 2,
                             b >= 1e-3*x])
        t = ConstantsRelaxed(m0)
        sol = solved(gpkit.Model(x*y*t.relaxvars.prod()**30, t))
        v = {n: float(sol["variables"][k]) for n, k in (("a", a), ("b", b), ("t", top),
                                                        ("x", x))}
        what = "x >= %r + %r, x <= %r -> %s" % (vb, va, cap, v)
        if v["a"] != va:
            raise Violation("constant-changed", what)
        need = vb + va
        if v["x"] < need*(1-TOL) or v["x"] > v["t"]*(1+TOL):
            raise Violation("not-up-to-factor", what)
        if need < cap*.999 and abs(v["x"]/need-1) > 1e-3:
            raise Violation("feasible-relaxed", what)
    elif kind == "linked":
        va = round(rng.uniform(1, 3), 2)
        a = gpkit.Variable("a", va, "m")
        k = rng.uniform(.5, 2)
        b = gpkit.Variable("b", "cm", lambda c: k*c(a))
        d = gpkit.Variable("d", "ft", lambda c: c(b) + c(a))
        vec = gpkit.VectorVariable(2, "v", "m", lambda c: [c[a], 2*c[a]])
        cap = round(rng.uniform(1, 12)*va, 2)
        m0 = gpkit.Model(x, [x >= a + b + d + vec.sum(), x <= cap*gpkit.units.m])
        vals = {"a": va, "b": k*va, "d": (k+1)*va, "v0": va, "v1": 2*va}
        need = sum(vals.values())
        t = ConstantsRelaxed(m0)
        sol = solved(gpkit.Model(x*t.relaxvars.prod()**30, t))
        got = {"a": sol(a), "b": sol(b), "d": sol(d), "v0": sol(vec)[0], "v1": sol(vec)[1]}
        got = {n: float(q.to("m").magnitude) for n, q in got.items()}
        xs = float(sol(x).to("m").magnitude)
        what = "linked %s need %r cap %r -> %s x=%r" % (vals, need, cap, got, xs)
        if xs < sum(got.values())*(1-TOL) or xs > cap*(1+TOL):
            raise Violation("not-up-to-factor", what)
        if need < cap*.999:
            if abs(xs/need-1) > 1e-3 or any(abs(got[n]/vals[n]-1) > 1e-3 for n in vals):
                raise Violation("feasible-relaxed", what)
        names = {str(v.key): float(sol["variables"][r])
                 for v, r in zip(t.freedvars, t.relaxvars)}
        for (n, f), vk in zip(sorted(names.items()), ["a", "b", "d", "v0", "v1"]):
            if abs(math.log(got[vk]/vals[vk])) > math.log(f) + 1e-5:
                raise Violation("not-up-to-factor", "%s: %s factor %r" % (what, n, f))
        if len(names) != 5:
            raise Violation("wrong-constants", "%s: %s" % (what, names))
    elif kind == "none":
        lo = round(rng.uniform(.5, 5), 2)
        m0 = gpkit.Model(x, [x >= lo*gpkit.units.m])
        t = ConstantsRelaxed(m0)
        sol = solved(gpkit.Model(x, t))
        if abs(float(sol["cost"])/lo-1) > 1e-5 or len(t.relaxvars):
            raise Violation("feasible-relaxed", "x >= %r gives %r" % (lo, sol["cost"]))
        what = "none %r" % lo
    elif kind == "sp":
        # signomial constraints, with equalities
        from gpkit.constraints.sigeq import SignomialEquality
        z = gpkit.Variable("z")
        a, b = round(rng.uniform(.5, 2), 2), round(rng.uniform(.5, 3), 2)
        cap = round(rng.uniform(.3, 4), 2)
        with gpkit.SignomialsEnabled():
            cons = [y >= a, z >= b*(1 - y/10), y + z <= cap, y*z >= .01]
        each = rng.random() < .5
        R = (ConstraintsRelaxed if each else ConstraintsRelaxedEqually)(cons)
        rv = np.ravel(R.relaxvars if each else [R.relaxvar])
        m = gpkit.Model(y*z*np.prod(rv)**rng.choice([20, 30]), R)
        try:
            sol = m.localsolve(verbosity=0)
        except (gpkit.exceptions.Infeasible, RuntimeWarning) as e:
            raise Skip("local solve: %s" % type(e).__name__)
        Y, Z = float(sol["variables"][y]), float(sol["variables"][z])
        f = [factor(sol, r) for r in rv]
        f = f if each else f*4
        what = "sp %s a=%r b=%r cap=%r -> y=%r z=%r %s" % (each, a, b, cap, Y, Z, f)
        if (Y*f[0] < a*(1-TOL) or f[1]*(Z + b*Y/10) < b*(1-TOL) and not
                f[1]*Z >= b*(1-Y/10)*(1-TOL) or Y + Z > cap*f[2]*(1+TOL)):
            raise Violation("not-up-to-factor", what)
    else:
        # relaxing relaxed models
        va = round(rng.uniform(2, 5), 2)
        a = gpkit.Variable("a", va, "m")
        cap = round(rng.uniform(.5, 1.9), 2)
        m0 = gpkit.Model(x, [x >= a, x <= cap*gpkit.units.m])
        t = ConstantsRelaxed(m0)
        R = ConstraintsRelaxedEqually(t)
        p, q = rng.choice([(30, 5), (5, 30)])
        sol = solved(gpkit.Model(x*t.relaxvars.prod()**p*R.relaxvar**q, R))
        A, X = float(sol["variables"][a]), float(sol["variables"][x])
        fa, fr = factor(sol, t.relaxvars[0]), factor(sol, R.relaxvar)
        what = "nested a=%r cap=%r penalties %s -> x=%r a=%r factors %r %r" % (
            va, cap, (p, q), X, A, fa, fr)
        if X*fr < A*(1-TOL) or X > fr*cap*(1+TOL) or A*fa*fr < va*(1-TOL):
            raise Violation("not-up-to-factor", what)
    rec.ev("odd_" + kind)
    rec.sig(what)


def debug(rng, rec):
    "Model.debug: constants first, then constraints; the model is left as it was"
    import gpkit
    import sys
    orig = models.random_gp(rng, nfree=rng.randint(1, 3), nconst=rng.randint(0, 3),
                            equalities=.2)
    spec = orig
    mode = rng.choice(["consts", "cons", "both", "feasible"])
    if mode in ("consts", "both"):
        spec = c11.scaled_spec(spec, {k: math.exp(rng.choice([-1, 1])*rng.uniform(.5, 2.5))
                                      for k in orig.keys("consts") if rng.random() < .7})
    if mode in ("cons", "both"):
        spec = tighten(rng, spec)
    try:
        m = spec.model()
    except gpkit.exceptions.PrimalInfeasible:
        raise Skip("terms cancel into a false comparison of numbers")
    objs = m.v_objs
    before = {str(k): repr(np.array(v).tolist()) for k, v in m.substitutions.items()}
    what = "debug of " + spec.text()
    try:
        s0 = m.solve(verbosity=0)
        first = float(s0["cost"])
        steep = max([float(np.nanmax(np.abs(v))) for v in
                     s0["sensitivities"]["variables"].values()], default=0) > 20
    except gpkit.exceptions.Infeasible as e:
        first = type(e).__name__
    mark = len(sys.stdout.getvalue())
    sol = m.debug(verbosity=1)
    out = sys.stdout.getvalue()[mark:]
    if {str(k): repr(np.array(v).tolist()) for k, v in m.substitutions.items()} != before:
        raise Violation("original-changed", "%s: substitutions %s are now %s" % (
            what, before, m.substitutions))
    if sol is None:
        if "not feasible" not in out:
            raise Violation("no-diagnosis", "%s: nothing returned, printed %r" % (what, out))
        rec.ev("not_diagnosed")
        raise Skip("debug finds nothing")
    rec.ev("debugs")
    point = spec.read(sol["variables"], objs)
    used = spec.used()
    cp = spec.constpoint()
    scale = {}
    for k in spec.keys("consts"):
        if k in used:
            o = objs[k[0]] if k[1] is None else objs[k[0]][k[1]]
            scale[k] = float(sol["variables"][o])*alg.decl_factor(
                spec.decls()[k[0]])[0]/cp[k]
    moved = {k: max(v, 1/v) for k, v in scale.items()}
    viol, which = spec.violation(point, scale)
    if "Relaxed Constraints" in out:
        rec.ev("debugged_constraints")
        if "not feasible with relaxed constants" not in out:
            raise Violation("no-diagnosis", "%s: %r" % (what, out))
        if any(v > 1.0001 for v in moved.values()):
            raise Violation("constant-changed", "%s: %s" % (what, moved))
    elif "not feasible" not in out:
        if viol > 1e-3:
            raise Violation("not-up-to-factor", "%s: constraint %s violated by %g, printed"
                            " %r" % (what, which, viol, out))
        far = {k: v for k, v in moved.items() if v > 1.0102}
        for k in far:
            name = k[0] if k[1] is None else "%s[%s]" % (k[0], ",".join(map(str, k[1])))
            if not re.search(r"^  %s( \[[^]]*\])?: relaxed from" % re.escape(name), out,
                             re.M):
                raise Violation("relaxed-unlisted", "%s moved by %r, printed %r: %s"
                                % (name, moved[k], out, what))
        if far:
            rec.ev("debugged_constants")
        elif isinstance(first, float) and not steep:
            if "relaxed from" in out:
                raise Violation("listed-unrelaxed", "%s: %r" % (what, out))
            rec.ev("debugged_feasible")
    elif viol > .03:
        raise Violation("relaxed-unlisted", "%s: constraint %s violated by %g, printed"
                        " %r" % (what, which, viol, out))
    if isinstance(first, float):
        again = float(m.solve(verbosity=0)["cost"])
        if abs(again/first-1) > 1e-6:
            raise Violation("original-changed", "%s: cost %r, after debug %r"
                            % (what, first, again))
    rec.sig(what)


def least(rng, rec):
    "debug relaxes no more than it takes, whatever the cost would gain from more"
    import gpkit
    import sys
    hi = rng.uniform(.5, 5)
    r = math.exp(rng.uniform(.05, 1.5))
    n = rng.choice([1, 2, 4, 8, 12])
    x = gpkit.Variable("x", "m")
    consts = rng.random() < .5
    if consts:
        lo = gpkit.Variable("lo", hi*r, "m")
        up = gpkit.Variable("up", hi, "m")
    else:
        lo, up = hi*r*x.units, hi*x.units
    small = rng.random() < .5   # the cost wants x small, or large
    m = gpkit.Model(x**n if small else 1/x**n, [x >= lo, x <= up])
    mark = len(sys.stdout.getvalue())
    sol = m.debug(verbosity=rng.choice([0, 1]))
    what = "debug of min x^%s, %s <= x <= %s%s" % (n if small else -n, hi*r, hi,
                                                  " constants" if consts else "")
    out = sys.stdout.getvalue()[mark:]
    if sol is None:
        raise Violation("no-diagnosis", "%s: %r" % (what, out))
    got = float(sol["variables"][x])
    want = hi if small else hi*r
    if abs(math.log(got/want)) > 5e-3:
        raise Violation("relaxed-too-much", "%s: x = %s instead of %s" % (what, got, want))
    if consts:
        a, b = float(sol["variables"][lo]), float(sol["variables"][up])
        if abs(math.log(a/want)) > 5e-3 or abs(math.log(b/want)) > 5e-3:
            raise Violation("relaxed-too-much", "%s: constants %s, %s" % (what, a, b))
    rec.ev("least_relaxed")
    rec.sig(what)


def diagnosed(rng, rec):
    "what debug says of a model of which the trouble is known"
    import gpkit
    import sys
    unit = rng.choice([None, "m", "ft"])
    uo = [unit] if unit else []
    u = gpkit.units(unit) if unit else 1
    kind = rng.choice(["consts", "cons", "fine"])
    size = math.exp(rng.choice([0, 0, -18, 18, 25, -25]) + rng.uniform(-1, 1))
    r = math.exp(rng.uniform(.1, 1.5)) if kind != "fine" else math.exp(-rng.uniform(.3, 1.5))
    x = gpkit.Variable("x", *uo)
    if kind == "cons":
        lo, up = size*r*u, size*u
    else:
        lo, up = gpkit.Variable("lo", size*r, *uo), gpkit.Variable("up", size, *uo)
    cons = [x >= lo, x <= up]
    rng.shuffle(cons)
    small = rng.random() < .5
    cost = x if small else 1/x
    loose = {}
    if kind != "cons" and rng.random() < .6:    # without its other bound
        for n in rng.sample(["y", "z", "w"], rng.randint(1, 2)):
            v = gpkit.Variable(n)
            up_ = rng.random() < .5
            if rng.random() < .5:
                cost = cost/v if up_ else cost*v
            else:
                cons.append(v**2*1e-3 <= 1e3*v**3 if up_ else 1e3*v**2 >= v**3)
                cost = cost/v if up_ else cost*v
            loose[n] = "upper" if up_ else "lower"
    m = gpkit.Model(cost, cons)
    verbosity = rng.choice([0, 1, 1])
    mark = len(sys.stdout.getvalue())
    sol = m.debug(verbosity=verbosity)
    out = sys.stdout.getvalue()[mark:]
    what = "debug (verbosity %i) of min %s with %s, lo = %.5g, up = %.5g" % (
        verbosity, cost, [str(c) for c in cons], size*r, size)
    if sol is None:
        raise Violation("no-diagnosis", "%s: %r" % (what, out))
    got = float(sol["variables"][x])/size
    want = (1. if small else r) if kind != "fine" else (r if small else 1.)
    if abs(math.log(got/want)) > 5e-3:
        raise Violation("relaxed-too-much", "%s: x = %s times its limit, instead of %s"
                        % (what, got, want))
    heads = {k: [w[0] for w in ws] for k, ws in sol.get("warnings", {}).items()}
    if verbosity == 0 and "Solution check" not in out and out:
        raise Violation("noise", "%s: printed %r" % (what, out))
    # variables at the bounds debug set
    listed = "\n".join(heads.pop("Arbitrarily Bounded Variables", []))
    for n, way in loose.items():
        bound = "%s bound of %s" % (way, "1e+30" if way == "upper" else "1e-30")
        if not re.search(r"%s: .*\b%s\b" % (re.escape(bound), n), listed):
            raise Violation("unbounded-unlisted", "%s: %r says nothing of %s and its %s"
                            % (what, listed, n, bound))
        if verbosity and not re.search(r"%s: .*\b%s\b" % (re.escape(bound), n), out):
            raise Violation("unprinted", "%s: printed %r" % (what, out))
        rec.ev("debugged_unbounded")
    # a solver's multipliers may exceed the threshold of "sensitive" by themselves
    near = "\n".join(l for l in listed.split("\n") if "value near" in l)
    if near and not loose:
        raise Violation("bounded-listed", "%s: %r" % (what, listed))
    if re.search(r"\bx\b", near):
        raise Violation("bounded-listed", "%s: %r" % (what, listed))
    # what was relaxed
    if kind == "consts":
        lines = "\n".join(heads.pop("Relaxed Constants", []))
        n, was, now = ("lo", size*r, size) if small else ("up", size, size*r)
        near = re.findall(r"^ *(\w+)(?: \[[^]]*\])?: relaxed from (\S+) to (\S+)", lines, re.M)
        if [e[0] for e in near] != [n] or abs(float(near[0][1])/was - 1) > 6e-3 \
                or abs(float(near[0][2])/now - 1) > 2e-2:
            raise Violation("relaxed-unlisted", "%s: said %r, should be %s from %.4g to %.4g"
                            % (what, lines, n, was, now))
        if verbosity and not re.search(r"%s( \[[^]]*\])?: relaxed from" % n, out):
            raise Violation("unprinted", "%s: printed %r" % (what, out))
    elif kind == "cons":
        lines = "\n".join(heads.pop("Relaxed Constraints", []))
        percents = [int(p) for p in re.findall(r"(\d+)% relaxed, from", lines)]
        factor = float(np.prod([1+p/100 for p in percents]))
        if not percents or abs(math.log(factor/r)) > .012*len(percents)+.01:
            raise Violation("relaxed-unlisted", "%s: said %r, should add up to %.4g"
                            % (what, lines, r))
        if verbosity and not re.search(r"\d% relaxed, from", out):
            raise Violation("unprinted", "%s: printed %r" % (what, out))
    heads = {k: v for k, v in heads.items() if k.startswith("Relaxed")}
    if heads:
        raise Violation("listed-unrelaxed", "%s: %s" % (what, heads))
    if kind == "fine" and not listed and verbosity and "without modification" not in out:
        raise Violation("listed-unrelaxed", "%s: %r" % (what, out))
    rec.ev("diagnosed_" + kind)
    rec.sig(what)


KINDS = {"diagnosed": (diagnosed, 120, 2500), "least": (least, 60, 800), "constraints": (constraints, 170, 4000), "constants": (constants, 200, 4500),
         "odd": (odd, 90, 1500), "debug": (debug, 80, 1500)}
NEED = {"relaxed_constraints_evaluated": 800, "relaxed_solves": 60, "text-read": 20, "text-telling": 15, "feasible_unchanged": 40,
        "relaxed_constants_solves": 80, "listings_checked": 120, "relaxed_listed": 50,
        "soundness_checked": 300, "kept_constants": 10, "debugs": 30,
        "debugged_constants": 5, "debugged_constraints": 5, "relaxed_sensitivities": 10,
        "odd_neg": 8, "debugged_unbounded": 20, "diagnosed_consts": 12, "diagnosed_cons": 12, "diagnosed_fine": 12, "least_relaxed": 40, "odd_linked": 8, "odd_none": 5, "odd_sp": 3, "odd_nested": 2}
