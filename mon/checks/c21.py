"""C21: Tight, Loose and Bounded report exactly what they should, and change nothing else.

Declarations are wrapped around random constraints of random models, nested in each other and
in containers.  Which of them have to be reported is worked out from the values (and
constraint sensitivities) in the solution by evaluating the declared constraints' two sides;
for artificial bounds, re-solving with the bound moved decides whether it matters.
"""
import math
import numpy as np
from ..core import Violation, Skip
from .. import alg, models
from . import c14

PROP = "C21"
RULE = ("a case is a random model with nested declarations, solved; non-trivial when at "
        "least one declaration was judged, identified by model and declarations")
TECH = ("monitors on warnings and result entries of real solves, against sides evaluated at "
        "the solution, reported sensitivities, and solves with moved bounds")
NOTE = "differences within 1e-6 (relative) of a tolerance are not judged"
ASSUME = ["reported constraint sensitivities are right (C11)"]
CPU_LIMIT = 60
QUICK_S = 100
LOOSECAT, TIGHTCAT = "Unexpectedly Loose Constraints", "Unexpectedly Tight Constraints"
BOUNDCAT = "Arbitrarily Bounded Variables"
NEAR = math.exp(3)


def leaves(c):
    "single constraints of a constraint or array of constraints (without absorbing values)"
    if isinstance(c, (list, tuple, np.ndarray)):
        return [l for part in c for l in leaves(part)]
    return [c]


class Declared:
    def __init__(self, kind, tol, inside, obj):
        self.kind, self.tol, self.inside, self.obj = kind, tol, inside, obj


def wrap(rng, items, pick, decls, depth=0):
    """random nesting of constraints in declarations and containers"""
    from gpkit import ConstraintSet, Model
    from gpkit.constraints.tight import Tight
    from gpkit.constraints.loose import Loose
    items = list(items)
    rng.shuffle(items)
    out = []
    while items:
        n = rng.randint(1, len(items))
        part, items = items[:n], items[n:]
        inside = [l for c in part for l in leaves(c)]
        sub = wrap(rng, part, pick, decls, depth+1) if depth < 3 and rng.random() < .6 \
            else part
        r = rng.random()
        if r < .5:
            if rng.random() < .3:
                sub = {"n%i" % i: c for i, c in enumerate(sub)}
            elif rng.random() < .2:
                sub = ConstraintSet(sub)
            kind = rng.choice(["tight", "loose"])
            cls, default = (Tight, 1e-3) if kind == "tight" else (Loose, 1e-5)
            opt = "reltol" if kind == "tight" else "senstol"
            how, tol = rng.random(), pick(kind, inside)
            if how < .3:
                tol, obj = default, cls(sub)
            elif how < .5:    # declared by class
                obj = type("Own", (cls,), {opt: tol})(sub)
            else:
                obj = cls(sub, **{opt: tol})
            decls.append(Declared(kind, tol, inside, obj))
            out.append(obj)
        elif r < .6:
            out.append({"k%i" % i: c for i, c in enumerate(sub)})
        elif r < .7:
            out.append(ConstraintSet(sub))
        elif r < .78:
            out.append(Model(None, sub))
        elif r < .86:
            out.append(tuple(sub))
        else:
            out += sub
    return out


def sides(c, pt, decls):
    l, r = (alg.measure(s, pt, decls) for s in (c.left, c.right))
    return l, r


def reldiff(c, pt, decls):
    l, r = sides(c, pt, decls)
    return abs(1-l.v/r.v)


def judge(rec, decls_, warns, pt, vardecls, senss, what):
    "warnings are exactly those the declarations ask for"
    got = {"tight": list(warns.get(LOOSECAT, [])), "loose": list(warns.get(TIGHTCAT, []))}
    judged = 0
    for kind in ("tight", "loose"):
        want = []     # (leaf, tol, value)
        unsure = []
        for d in decls_:
            if d.kind != kind:
                continue
            for leaf in d.inside:
                v = reldiff(leaf, pt, vardecls) if kind == "tight" else senss.get(leaf, 0)
                if kind == "tight" and abs(v-d.tol) < 1e-6*d.tol+1e-11:
                    unsure.append(leaf)
                    continue
                judged += 1
                rec.ev(kind+"_judged")
                if v >= d.tol:
                    want.append((leaf, d.tol, v))
                    rec.ev(kind+"_reported")
        left = list(got[kind])
        for leaf, tol, v in want:
            hit = [i for i, (msg, c) in enumerate(left) if c is leaf and says(msg, kind, tol)]
            if not hit:
                raise Violation("unreported-"+kind, "%s: %s declared %s to %g, is %g; warnings"
                                " %s" % (what, leaf, kind, tol, v, got[kind]))
            msg, c = left.pop(hit[0])
            if kind == "tight":
                a, op, b = msg.tightvalues if hasattr(msg, "tightvalues") else c.tightvalues
                l, r = sides(leaf, pt, vardecls)
                f = alg.unit_factor(leaf.left.units)[0] if leaf.left.units else 1
                if abs(a*f/l.v-1) > 1e-9 or abs(a/b/(l.v/r.v)-1) > 1e-9 or op != leaf.oper:
                    raise Violation("wrong-values", "%s: %s reported as %s %s %s, sides are"
                                    " %r and %r SI" % (what, leaf, a, op, b, l, r))
                rd = float(c.rel_diff)
                pct = float(msg.split("Actual error: ")[1].split("%")[0])
                if not hasattr(msg, "rel_diff"):
                    rd = v
                else:
                    rd = float(msg.rel_diff)
                if abs(rd/v-1) > 1e-6 or abs(pct/100/v-1) > 6e-2:
                    raise Violation("wrong-values", "%s: %s off by %r, said %r and %s%%"
                                    % (what, leaf, v, rd, pct))
            else:
                s = float(msg.split("sensitivity of ")[1].split(". ")[0])
                if abs(s-v) > 6e-4*abs(v):
                    raise Violation("wrong-values", "%s: %s has %r, %s" % (what, leaf, v, msg))
        left = [(m, c) for m, c in left if not any(c is u for u in unsure)]
        if left:
            raise Violation("wrongly-reported-"+kind, "%s: %s" % (what, left))
    return judged


def says(msg, kind, tol):
    if kind == "tight":
        t = float(msg.split("Allowable error: ")[1].split("%")[0])/100
    else:
        t = float(msg.split("Allowable sensitivity: ")[1].split(")")[0])
    return abs(t/tol-1) < 1e-3


def bare(spec):
    import gpkit
    m = spec.model()
    try:
        return m, m.solve(verbosity=0)
    except gpkit.exceptions.UnknownInfeasible:
        raise Skip("solver gives up")


def picker(rng, rels, sens):
    "tolerances on either side of what they will be compared with"
    def pick(kind, inside):
        src = rels if kind == "tight" else sens
        vals = [src[id_] for id_ in src if src[id_] > (1e-3 if kind == "tight" else 1e-4)]
        r = rng.random()
        if vals and r < .75:
            return rng.choice(vals)*rng.choice([.5, .9, 1.1, 2])
        return 10**rng.uniform(-4, 0) if kind == "tight" else 10**rng.uniform(-5, 0)
    return pick


def declared(rng, rec):
    "Nested Tight and Loose declarations of a geometric program"
    import gpkit
    from gpkit.constraints.bounded import Bounded
    spec = models.random_gp(rng, nfree=rng.randint(1, 3), ncons=rng.randint(0, 3))
    m0, s0 = bare(spec)
    pt0 = spec.full(spec.read(s0["variables"], m0.v_objs))
    vals = {k: v for k, (v, _) in pt0.items()}
    vd = spec.decls()
    flat0 = [l for b in m0.v_built for l in leaves(b)]
    rels = {i: reldiff(l, vals, vd) for i, l in enumerate(flat0)}
    sens = {i: s0["sensitivities"]["constraints"].get(l, 0) for i, l in enumerate(flat0)}
    objs = spec.make_vars()
    built = [spec.build_con(c, objs) for c in spec.cons]
    decls = []
    cons = wrap(rng, built, picker(rng, rels, sens), decls)
    what = "%s with %s" % (spec.text(), [(d.kind, d.tol, [str(l) for l in d.inside])
                                         for d in decls])
    if rng.random() < .3:
        cons = [Bounded(gpkit.ConstraintSet(cons, spec.subs(objs)))]
    m = gpkit.Model(spec.build_cost(objs), cons, spec.subs(objs))
    for again in range(rng.choice([1, 1, 2])):
        if again:     # solved again with other constants
            ks = [n for n in spec.consts]
            if not ks or any(spec.consts[n][2] for n in ks):
                break
            n = rng.choice(ks)
            spec = models_scaled(spec, n, math.exp(rng.uniform(-.15, .15)))
            v, u, _ = spec.consts[n]
            m.substitutions[objs[n]] = float(v)
            try:
                f0 = None
                bare(spec)
            except gpkit.exceptions.Infeasible:
                raise Skip("infeasible after the change")
            what += " and %s = %r" % (n, v)
        try:
            sol = m.solve(verbosity=0)
        except gpkit.exceptions.UnknownInfeasible:
            raise Skip("solver gives up")
        pt = {k: v for k, (v, _) in spec.full(spec.read(sol["variables"], objs)).items()}
        n = judge(rec, decls, sol.get("warnings", {}), pt, vd,
                  sol["sensitivities"]["constraints"], what)
        if not again:
            f = alg.unit_factor(m.cost.units)[0]
            f0 = alg.unit_factor(m0.cost.units)[0]
            d = math.log(float(sol["cost"])*f) - math.log(float(s0["cost"])*f0)
            if abs(d) > 1e-4:
                raise Violation("optimum-changed", "%s: log cost off by %g" % (what, d))
            rec.ev("same_optimum")
        if n:
            rec.sig(what)
            rec.ev("nested" if len(decls) > 1 else "single")
    rec.sample(what)


def models_scaled(spec, name, f):
    import copy
    s = copy.copy(spec)
    s.consts = dict(spec.consts)
    v, u, sh = spec.consts[name]
    s.consts[name] = (v*f, u, sh)
    return s


def swept(rng, rec):
    "Declarations in sweeps are judged point by point"
    import gpkit
    spec = models.random_gp(rng, nfree=rng.randint(1, 3), nconst=rng.randint(1, 3),
                            constvec=0, ncons=rng.randint(0, 3))
    used = [n for n in spec.consts if (n, None) in spec.used()]
    if not used:
        raise Skip("no constant used")
    name = rng.choice(used)
    v, u, _ = spec.consts[name]
    m0, s0 = bare(spec)
    pt0 = spec.full(spec.read(s0["variables"], m0.v_objs))
    vals = {k: v for k, (v, _) in pt0.items()}
    vd = spec.decls()
    flat0 = [l for b in m0.v_built for l in leaves(b)]
    rels = {i: reldiff(l, vals, vd) for i, l in enumerate(flat0)}
    sens = {i: s0["sensitivities"]["constraints"].get(l, 0) for i, l in enumerate(flat0)}
    objs = spec.make_vars()
    built = [spec.build_con(c, objs) for c in spec.cons]
    decls = []
    cons = wrap(rng, built, picker(rng, rels, sens), decls)
    m = gpkit.Model(spec.build_cost(objs), cons, spec.subs(objs))
    pts = [v*math.exp(rng.uniform(-.2, .2)) for _ in range(rng.randint(2, 4))]
    m.substitutions[objs[name]] = ("sweep", pts)
    what = "%s with %s, swept over %s = %s" % (
        spec.text(), [(d.kind, d.tol, [str(l) for l in d.inside]) for d in decls], name, pts)
    try:
        sol = m.solve(verbosity=0, skipsweepfailures=True)
    except RuntimeWarning:
        raise Skip("nothing feasible")
    judged = 0
    for i in range(len(sol)):
        x = float(np.ravel(sol["variables"][objs[name]])[i])
        sp = models_scaled(spec, name, x/v)
        at = {objs_key: None for objs_key in ()}
        src = sol.atindex(i) if len(sol) > 1 else sol
        at = sp.read(src["variables"], objs)
        pt = {k: w for k, (w, _) in sp.full(at).items()}
        warns = {}
        for cat, entries in sol.get("warnings", {}).items():
            warns[cat] = entries[i] if len(sol) > 1 else entries
        senss = {c: np.ravel(s)[i] for c, s in sol["sensitivities"]["constraints"].items()} \
            if len(sol) > 1 else sol["sensitivities"]["constraints"]
        judged += judge(rec, decls, warns, pt, vd, senss, what + " point %i" % i)
        rec.ev("swept_points")
    if judged:
        rec.sig(what)
    rec.sample(what)


def local(rng, rec):
    "Tight around signomial constraints, solved locally"
    import gpkit
    from gpkit.constraints.tight import Tight
    from gpkit.constraints.loose import Loose
    spec, sigs = c14.pick_model(rng)
    objs = spec.make_vars()
    built = [spec.build_con(c, objs) for c in spec.cons]
    sb = [c14.build_sig(rng, s, objs) for s in sigs]
    if any(not hasattr(s, "oper") for s in sb):
        raise Skip("not a constraint")
    decls = []

    def pick(kind, inside):
        return 10**rng.uniform(-3, .5) if kind == "tight" else 10**rng.uniform(-4, 0)
    cons = wrap(rng, built + sb, pick, decls)
    what = "%s; %s with %s" % (spec.text(), [s.text() for s in sigs],
                               [(d.kind, d.tol, [str(l) for l in d.inside]) for d in decls])
    m = gpkit.Model(spec.build_cost(objs), cons, spec.subs(objs))
    try:
        sol = m.localsolve(verbosity=0)
    except (gpkit.exceptions.Infeasible, RuntimeWarning, gpkit.exceptions.InvalidPosynomial):
        raise Skip("not solved")
    pt = {k: v for k, (v, _) in spec.full(spec.read(sol["variables"], objs)).items()}
    if judge(rec, decls, sol.get("warnings", {}), pt, spec.decls(),
             sol["sensitivities"]["constraints"], what):
        rec.sig(what)
        rec.ev("local_solves")
    rec.sample(what)


# ------------------------------------------------------------------ Bounded
def elements(spec, objs):
    return {k: (objs[k[0]] if k[1] is None else objs[k[0]][k[1]]) for k in spec.keys()}


def bounded(rng, rec):
    "Bounded models, some of them unbounded without"
    import gpkit
    from gpkit.constraints.bounded import Bounded
    from .c08 import nest
    spec = models.random_gp(rng, nfree=rng.randint(1, 3), nconst=rng.randint(0, 2),
                            ncons=rng.randint(0, 2), equalities=.2)
    boxes = [i for i, c in enumerate(spec.cons) if c["tag"] == "box"]
    open_ = set(rng.sample(boxes, rng.randint(0, min(len(boxes), 3)))) \
        if rng.random() < .75 else set()
    if len(open_) == len(spec.cons):
        raise Skip("no constraints")
    kw = {}
    r = rng.random()
    lower, upper = 1e-30, 1e30
    if r < .4:
        kw["eps"] = eps = 10.0**-rng.randint(2, 8)
        lower, upper = eps, 1/eps
    elif r < .6:
        kw["lower"] = lower = 10.0**-rng.randint(2, 8)
        kw["upper"] = upper = 10.0**rng.randint(2, 8)
    elif r < .7:
        kw["lower"] = lower = 10.0**-rng.randint(2, 8)
    elif r < .8:
        kw["upper"] = upper = 10.0**rng.randint(2, 8)
    elif r < .9:
        kw["eps"] = eps = 10.0**-rng.randint(2, 8)
        kw["upper"] = upper = 10.0**rng.randint(2, 8)
        lower = eps
    style = rng.choice(["list", "set", "model", "class"])
    if style == "list" and any(h != "var" for h in spec.how.values()):
        style = "set"
    seed = rng.random()

    def fresh():
        "the constraints again, of new variables"
        import random
        r2 = random.Random(seed)
        o = spec.make_vars()
        bl = [spec.build_con(c, o) for i, c in enumerate(spec.cons) if i not in open_]
        cost, subs = spec.build_cost(o), spec.subs(o)
        if style == "list":
            return nest(r2, bl), cost, subs, o
        if style == "model":
            return gpkit.Model(cost, nest(r2, bl), subs), cost, {}, o
        if style == "set":
            return gpkit.ConstraintSet(nest(r2, bl), subs), cost, {}, o
        holder = {}

        class Own(gpkit.Model):
            def setup(self):
                o = spec.make_vars()
                gpkit.Variable("extra")     # used nowhere
                bl = [spec.build_con(c, o) for i, c in enumerate(spec.cons)
                      if i not in open_]
                self.cost = holder["cost"] = spec.build_cost(o)
                holder["objs"] = o
                return nest(r2, bl), spec.subs(o)
        inner = Own()
        return inner, holder["cost"], {}, holder["objs"]
    inner, cost, subs, objs = fresh()
    b = Bounded(inner, **kw)
    what = "Bounded(%s) as %s of %s without %s" % (kw, style, spec.text(), sorted(open_))
    # which variables occur in what is left
    occ = occurring(spec, open_, with_cost=style in ("model", "class"))
    els = {k: v for k, v in elements(spec, objs).items()}
    left = {alg.key_id(vk) for c in b["original constraints"].flat() for vk in c.vks}
    if style in ("model", "class"):
        left |= {alg.key_id(vk) for vk in cost.vks}    # terms may have cancelled
    want = {els[k].key for k in els if k in occ}
    must = {els[k].key for k in els if k in occ and k in left}
    if not must <= set(b.bound_varkeys) <= want:
        raise Violation("wrong-variables-bounded", "%s: %s bounded instead of %s"
                        % (what, sorted(map(str, b.bound_varkeys)),
                           sorted(map(str, want))))
    rec.ev("bound_sets")
    m = gpkit.Model(cost, b, subs)
    try:
        sol = m.solve(verbosity=0)
    except gpkit.exceptions.UnboundedGP:
        if occurring(spec, open_, True) - left:
            raise Skip("cost variable in no constraint")
        raise Violation("still-unbounded", what)
    except gpkit.exceptions.UnknownInfeasible:
        raise Skip("solver gives up")
    except gpkit.exceptions.Infeasible:
        inside = all(lower*1.1 < hv/alg.decl_factor(spec.free[k[0]][0])[0] < upper/1.1
                     for k, hv in spec.hidden.items())
        if inside:
            raise Violation("infeasible", what)
        raise Skip("hidden point outside of the bounds")
    rec.ev("bounded_solves")
    result = sol["boundedness"]
    vals = {k: float(sol["variables"][els[k]]) for k in els
            if k in occ and k in left}
    senss = sol["sensitivities"]["constraints"]
    # bounds themselves, identified by variable and side
    bsens, bcount = {}, {}
    for c in gpkit.ConstraintSet(b["variable bounds"]).flat():
        vks = set(c.left.vks) | set(c.right.vks)
        if len(vks) != 1:
            raise Violation("odd-bound", "%s: %s" % (what, c))
        vk, = vks
        varleft = bool(c.left.vks)
        upperside = (c.oper == "<=") == varleft
        k = (alg.key_id(vk), "upper" if upperside else "lower")
        bcount[k] = bcount.get(k, 0) + 1
        bsens[k] = senss.get(c, 0)
    for k in bcount:
        if bcount[k] != 1:
            raise Violation("odd-bound", "%s: %s bounded %i times" % (what, k, bcount[k]))
    got = {}
    for text, vks in result.items():
        for vk in vks:
            got.setdefault(alg.key_id(vk), set()).add(text)
    active = []
    for k, v in vals.items():
        if not lower*(1-1e-5) <= v <= upper*(1+1e-5):
            raise Violation("bound-not-kept", "%s: %s = %r" % (what, k, v))
        want, unsure = set(), set()
        for side_, bound in (("lower", lower), ("upper", upper)):
            d = abs(math.log(v/bound))
            near = "value near %s bound of %.2g" % (side_, bound)
            sens = "sensitive to %s bound of %.2g" % (side_, bound)
            if abs(d-3) < 1e-6:
                unsure.add(near)
            elif d <= 3:
                want.add(near)
                rec.ev("near_bounds")
            if bsens.get((k, side_), 0) >= 1e-7:
                want.add(sens)
                rec.ev("sensitive_bounds")
                active.append((k, side_))
        if got.get(k, set()) - unsure != want:
            raise Violation("wrong-boundedness", "%s: %s = %r reported %s, expected %s"
                            % (what, k, v, sorted(got.get(k, ())), sorted(want)))
        rec.ev("bounds_judged", 2)
    if set(got) - set(vals):
        raise Violation("wrong-boundedness", "%s: %s reported" % (what, set(got)-set(vals)))
    # the warnings say the same as the entry
    lines = [msg for msg, _ in sol.get("warnings", {}).get(BOUNDCAT, [])]
    said = {}
    for l in lines:
        head, tail = l.split(": ", 1)
        if head.strip() in said:
            raise Violation("warned-twice", "%s: %s" % (what, lines))
        said[head.strip()] = sorted(tail.split(", "))
    if said != {t: sorted(str(v) for v in vks) for t, vks in result.items()}:
        raise Violation("wrong-warnings", "%s: %s for %s" % (what, lines, dict(result)))
    # does the optimum depend on the bounds, as said?
    if not active:
        rec.ev("inactive")
        if rng.random() < .5:
            inner, cost, subs, _ = fresh()
            m1 = gpkit.Model(cost, inner, subs)
            try:
                s1 = m1.solve(verbosity=0)
            except (gpkit.exceptions.Infeasible, gpkit.exceptions.UnboundedGP):
                s1 = None    # unbounded all the same, without effect on the cost
            if s1 is not None:
                d = math.log(float(sol["cost"])/float(s1["cost"]))
                if abs(d) > 1e-4:
                    raise Violation("optimum-changed", "%s: log cost off by %g" % (what, d))
                rec.ev("same_optimum")
    elif rng.random() < .5:
        # widen a bound that is said not to matter, or one that is
        side_ = rng.choice(["lower", "upper"])
        lo, hi = (lower/3, upper) if side_ == "lower" else (lower, upper*3)
        inner, cost, subs, _ = fresh()
        m1 = gpkit.Model(cost, Bounded(inner, lower=lo, upper=hi), subs)
        try:
            s1 = m1.solve(verbosity=0)
        except (gpkit.exceptions.Infeasible, gpkit.exceptions.UnboundedGP):
            raise Skip("not solved with wider bounds")
        d = math.log(float(s1["cost"])/float(sol["cost"]))
        total = sum(s for (k, sd), s in bsens.items() if sd == side_)
        if abs(d) > 1e-3 and total < 1e-7 or d > 1e-4:
            raise Violation("effect-unreported", "%s: widening the %s bound changes the log"
                            " cost by %g; reported %s" % (what, side_, d, dict(result)))
        # by convexity the change is at most the sensitivity times the widening
        if -d > total*math.log(3)+1e-3:
            raise Violation("effect-underreported", "%s: widening the %s bound changes the"
                            " log cost by %g; sensitivities %g" % (what, side_, d, total))
        rec.ev("moved_bounds")
    rec.sig(what)
    rec.sample("%s -> %s" % (what, {t: sorted(map(str, v)) for t, v in result.items()}))


def occurring(spec, open_, with_cost):
    "free elements in the constraints left (and the cost)"
    import copy
    s = copy.copy(spec)
    s.cons = [c for i, c in enumerate(spec.cons) if i not in open_]
    if not with_cost:
        s.cost = ("num", 1.0)
    return {k for k in s.used() if k in set(spec.keys())}


def odd(rng, rec):
    "raiseerror, labels, partly fixed vectors, nested Boundeds, debug()"
    import gpkit
    from gpkit.constraints.tight import Tight
    from gpkit.constraints.loose import Loose
    from gpkit.constraints.bounded import Bounded
    which = rng.choice(["raise", "label", "partvec", "nestbound", "array", "boundsweep",
                        "linked", "siblings"])
    a = float("%.3g" % math.exp(rng.uniform(.2, 2)))
    if which == "raise":
        x = gpkit.Variable("x")
        tight = rng.random() < .5
        lo = [x >= a] + ([x >= 2*a] if not tight else [])
        cls = type("Strict", (Loose,), {"raiseerror": True})
        m = gpkit.Model(x, [cls([lo[0]])] + lo[1:])
        try:
            m.solve(verbosity=0)
            if tight:
                raise Violation("not-raised", "Loose([x >= %s]) with raiseerror" % a)
        except RuntimeWarning as e:
            if not tight or "is not loose" not in str(e):
                raise Violation("wrongly-raised", "%s %s" % (lo, e))
        rec.sig(which, a, tight)
    elif which == "label":
        x = gpkit.Variable("x")
        t = Tight([x >= a], reltol=.5, label="mine", reason=rng.random())
        if t.label != "mine" or t.reltol != .5:
            raise Violation("label-lost", "%s" % vars(t))
        m = gpkit.Model(x, [t, x >= 3*a])
        s = m.solve(verbosity=0)
        (msg, c), = s["warnings"][LOOSECAT]
        if c is not t[0]:
            raise Violation("unreported-tight", str(s["warnings"]))
        rec.sig(which, a)
    elif which == "partvec":
        n = rng.randint(2, 4)
        fixed = sorted(rng.sample(range(n), rng.randint(1, n-1)))
        vals = [a*(i+1) if i in fixed else np.nan for i in range(n)]
        x = gpkit.VectorVariable(n, "x", rng.choice(["", "m"]) or "")
        cons = gpkit.ConstraintSet([x.prod() >= a*(x[0].units**n if x[0].units else 1)],
                                   {x: vals})
        b = Bounded(cons, eps=1e-3)
        want = {x[i].key for i in range(n) if i not in fixed}
        if set(b.bound_varkeys) != want:
            raise Violation("wrong-variables-bounded", "%s with %s: %s" % (
                x, vals, sorted(map(str, b.bound_varkeys))))
        m = gpkit.Model(x.sum(), b)
        s = m.solve(verbosity=0)
        for i in range(n):
            v = float(s["variables"][x[i]])
            if i in fixed and abs(v/vals[i]-1) > 1e-9:
                raise Violation("constant-changed", "%s: %s" % (vals, s["variables"]))
        rec.sig(which, a, n, tuple(fixed))
    elif which == "nestbound":
        x, y = gpkit.Variable("x"), gpkit.Variable("y", "m")
        inner = Bounded([x*a >= 1], eps=1e-4)
        outer = Bounded([inner, y >= x*gpkit.units.m], eps=1e-2)
        s = gpkit.Model(1/x/y, outer).solve(verbosity=0)
        keys = set(s["boundedness"])
        # 1/(xy) wants both large: y meets the outer bound, x <= y meets it too
        if not {v.name for v in s["boundedness"].get(
                "sensitive to upper bound of 1e+02", ())} == {"x", "y"} \
                and not {v.name for v in s["boundedness"].get(
                    "sensitive to upper bound of 1e+02", ())} == {"y"}:
            raise Violation("wrong-boundedness", "nested: %s" % s["boundedness"])
        if "value near upper bound of 1e+04" in keys:
            raise Violation("wrong-boundedness", "nested: %s" % s["boundedness"])
        rec.sig(which, a)
    elif which == "siblings":
        # each reports its own; the solution has both
        x, y = gpkit.Variable("x"), gpkit.Variable("y", "m")
        down = rng.random() < .5
        one = Bounded([x >= a] if down else [x <= a], lower=1e-7, upper=1e7)
        two = Bounded([y*a >= 1e-4*gpkit.units.m], lower=1e-2, upper=1e5)
        parts = [one, two]
        rng.shuffle(parts)
        s = gpkit.Model((1/x if down else x)*y, parts).solve(verbosity=0)
        side_ = "upper bound of 1e+07" if down else "lower bound of 1e-07"
        want = {"sensitive to " + side_: {"x"}, "value near " + side_: {"x"},
                "sensitive to lower bound of 0.01": {"y"},
                "value near lower bound of 0.01": {"y"}}
        if a < 1e-4/1e-2:
            raise Skip("own bound")
        got = {k: {v.name for v in vks} for k, vks in s["boundedness"].items()}
        if got != want:
            raise Violation("wrong-boundedness", "siblings: %s instead of %s" % (got, want))
        rec.sig(which, a, down)
    elif which == "array":
        n = rng.randint(2, 3)
        x = gpkit.VectorVariable(n, "x")
        y = gpkit.VectorVariable(n, "y", np.array([a*(i+1) for i in range(n)]))
        low = rng.randrange(n)
        t = Tight([x >= y])
        m = gpkit.Model(x.sum(), [t, x[low] >= 10*a*n])
        s = m.solve(verbosity=0)
        got = [c for _, c in s["warnings"][LOOSECAT]]
        flat = list(t.flat())
        if len(got) != 1 or got[0] is not flat[low]:
            raise Violation("unreported-tight", "%s: %s" % (m, got))
        rec.sig(which, a, n, low)
    elif which == "boundsweep":
        x, p = gpkit.Variable("x"), gpkit.Variable("p")
        pts = sorted(rng.sample([1, 5, 10, 50, 90, 99], 3))
        m = gpkit.Model(x, Bounded(gpkit.ConstraintSet([x >= p]), lower=1e-2, upper=1e2),
                        {p: ("sweep", pts)})
        s = m.solve(verbosity=0)
        for i, v in enumerate(pts):
            near = "value near upper bound of 1e+02" in " ".join(
                msg for msg, _ in s["warnings"][BOUNDCAT][i]) \
                if BOUNDCAT in s.get("warnings", {}) else False
            said = any("x" in msg and "value near upper" in msg for msg, _ in
                       (s["warnings"][BOUNDCAT][i] if BOUNDCAT in s.get("warnings", {})
                        else []))
            want = math.log(1e2/v) <= 3
            if (near and said) != want:
                raise Violation("wrong-boundedness", "sweep %s point %i: %s" % (
                    pts, i, s["warnings"]))
        rec.sig(which, tuple(pts))
    else:
        def fresh():
            c = gpkit.Variable("c", a)
            return gpkit.Variable("x"), c, gpkit.Variable("d", lambda k: f*k[c])
        f = rng.uniform(1.5, 4)
        x, c, d = fresh()
        t, l = Tight([x >= d], reltol=.01), Loose([x >= c])
        s = gpkit.Model(x, [t, l]).solve(verbosity=0)
        if s.get("warnings", {}).get(LOOSECAT) or s.get("warnings", {}).get(TIGHTCAT):
            raise Violation("wrongly-reported", "%s: %s" % (f, s["warnings"]))
        x, c, d = fresh()
        t2 = Tight([x >= c])
        s = gpkit.Model(x, [t2, Loose([x >= d])]).solve(verbosity=0)
        if len(s["warnings"].get(LOOSECAT, [])) != 1 or \
                len(s["warnings"].get(TIGHTCAT, [])) != 1:
            raise Violation("unreported", "%s: %s" % (f, s["warnings"]))
        rec.sig(which, a, f)
    rec.ev("odd_"+which)


KINDS = {"declared": (declared, 160, 3000), "swept": (swept, 60, 900),
         "local": (local, 40, 600), "bounded": (bounded, 150, 3000), "odd": (odd, 120, 400)}
NEED = {"tight_judged": 300, "tight_reported": 80, "loose_judged": 300, "loose_reported": 60,
        "bounds_judged": 300, "near_bounds": 8, "sensitive_bounds": 6, "bounded_solves": 50,
        "swept_points": 40, "local_solves": 8, "moved_bounds": 5}
