"""C31: equivalent formulations give equivalent solutions.

A random model is solved as written and after random compositions of transformations which
keep its meaning; costs, values and sensitivities are mapped back and compared.  Where an
optimum or its multipliers are not unique the mapped result is accepted if it is another
valid one of the original: feasible at the same cost, between one-sided slopes.
"""
import copy
import math
import os
import pickle
import random
import subprocess
import sys
import warnings
import numpy as np
from ..core import Violation, Skip, VERIF
from .. import alg, models
from . import c08, c10, c11, c14
from .c23 import Scratch

PROP = "C31"
RULE = ("a case is a random model and a composition of 1-4 transformations (or another process "
        "with another hash seed); non-trivial when both solved and were compared, identified by "
        "model text and transformation")
TECH = ("metamorphic monitor: solutions of transformed models, mapped back, against that of "
        "the original; other hash seeds in second processes")
NOTE = ("log cost to 1e-5, values to 1e-3, sensitivities to 3e-3 unless not unique; "
        "models of up to 4 free variables, a quarter with signomials")
NEED = {"costs": 300, "values": 800, "sensitivities": 400, "multipliers": 800,
        "t:shuffle": 60, "t:swap": 60, "t:rename": 60, "t:units": 60, "t:multiply": 60,
        "t:cost": 60, "t:constcost": 15, "t:fixed": 50, "t:how": 50, "t:split": 20,
        "t:submodels": 40, "hash_models": 30,
        "t:repeat": 60, "equality-repeated": 8}
CPU_LIMIT = 90
CHUNKS = {"hashseed": 1}
ASSUME = ["solver accuracy about 1e-6 on log cost"]


def multipliers(spec, m, sol):
    "{(index, element): sensitivity} of the constraints as built"
    cs = sol["sensitivities"]["constraints"]
    out = {}
    for i, con in enumerate(spec.cons):
        b = m.v_built[i]
        idxs = [()] if con["shape"] is None else list(np.ndindex(*con["shape"]))
        for j in idxs:
            c = b
            for q in j:
                c = c[q]
            if hasattr(c, "vks"):
                try:
                    out[(i, j)] = float(cs[c])
                except KeyError:
                    out[(i, j)] = 0.0
    return out


class Result:
    "what is compared, in SI"
    def __init__(self, spec, m, sol):
        f = alg.unit_factor(m.cost.units)[0]
        self.cost = math.log(float(sol["cost"])*f)
        self.x = spec.read(sol["freevariables"], m.v_objs, only=usedfree(spec))
        self.s = {}
        used = spec.used() | getattr(spec, "sigused", set())
        for n, i in spec.keys("consts"):
            if (n, i) in used:
                o = m.v_objs[n] if i is None else m.v_objs[n][i]
                self.s[(n, i)] = c11.reported(sol, o)
        self.la = multipliers(spec, m, sol)


def usedfree(spec):
    used = spec.used() | getattr(spec, "sigused", set())
    return {k for k in spec.keys() if k in used}


def solve(m, sp):
    from gpkit.exceptions import InvalidGPConstraint, Infeasible
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        try:
            return m.localsolve(verbosity=0) if sp else m.solve(verbosity=0)
        except (Infeasible, InvalidGPConstraint) as e:
            return e


def make(spec, sigs, plan=None, rng=None):
    "a model of the spec; plan: extra things about how it is put together"
    import gpkit
    plan = plan or {}
    objs = spec.make_vars(rename=plan.get("rename"), units=plan.get("units"))
    built = [spec.build_con(c, objs) for c in spec.cons]
    if any(isinstance(b, (bool, np.bool_)) for b in built):
        raise Skip("a constraint became a constant")
    sigcons = [c14.build_sig(random.Random(s), sig, objs)
               for s, sig in zip(plan.get("sigseeds", [1]*9), sigs)]
    items = list(built) + sigcons
    for how in plan.get("order", ()):
        if how == "shuffle":
            items = c08.nest(rng, items)
        elif how == "submodels":
            cut = rng.randint(0, len(items))
            sub = gpkit.Model(None, items[:cut]) if rng.random() < .5 else \
                type("Part", (gpkit.Model,), {"setup": lambda self, cs: cs})(items[:cut])
            items = [sub] + items[cut:]
    subs = spec.subs(objs, plan.get("units"))
    late = {}
    if plan.get("late"):
        subs, late = {}, subs
    m = gpkit.Model(spec.build_cost(objs), items, subs)
    for k, v in late.items():
        m.substitutions[k] = v
    m.v_objs, m.v_built = objs, built
    return m


def factor(rng, spec, free=True):
    "(tree, dim, names) of a positive monomial or number to multiply by"
    keys = spec.keys("consts") + (spec.keys() if free else [])
    n = rng.choice([0, 0, 1, 1, 2])
    if n and keys:
        t, d = models.mono(rng, spec, keys, n)
        if t is not None:
            if rng.random() < .5:
                t = ("mul", ("num", round(math.exp(rng.uniform(-3, 3)), 3)), t)
            return t, d
    d = alg.DIMLESS
    if rng.random() < .3:
        u = rng.choice(sorted(alg.UNITS))
        d = alg.UNITS[u][1]
    return models.num(round(math.exp(rng.uniform(-4, 4)), 4), d, rng), d


class Transform:
    def __init__(self, rng, spec, sigs):
        self.rng = rng
        self.spec = copy.copy(spec)
        self.spec.free, self.spec.consts = dict(spec.free), dict(spec.consts)
        self.spec.cons, self.spec.how = [dict(c) for c in spec.cons], dict(spec.how)
        self.sigs = sigs
        self.plan = {"order": [], "sigseeds": [rng.random() for _ in sigs]}
        self.origin = [(i, None) for i in range(len(spec.cons))]    # of each constraint
        self.costlog, self.costconst = 0.0, {}
        self.fixedvars = {}
        self.repeated, self.equality = set(), False
        self.names = []

    def apply(self, n):
        rng = self.rng
        ops = ["shuffle", "swap", "rename", "multiply", "cost", "how", "submodels", "repeat"]
        if not self.sigs:
            ops += ["units", "units", "fixed", "fixed", "split", "constcost", "constcost"]
        for op in rng.sample(ops, n):
            if op in self.names:
                continue
            if getattr(self, op)() is not False:
                self.names.append(op)

    def shuffle(self):
        self.plan["order"].append("shuffle")

    def submodels(self):
        self.plan["order"].append("submodels")

    def swap(self):
        for c in self.spec.cons:
            if self.rng.random() < .6:
                c["l"], c["r"] = c["r"], c["l"]
                c["op"] = {"<=": ">=", ">=": "<=", "=": "="}[c["op"]]

    def rename(self):
        names = list(self.spec.decls())
        if self.rng.random() < .5:
            new = names[:]
            self.rng.shuffle(new)
        else:
            new = self.rng.sample(["alpha", "B", "x_{1}", "Z", "q", "aa", "m", "T_0", "W", "eta"],
                                  len(names))
        self.plan["rename"] = dict(zip(names, new))

    def units(self):
        units = {}
        for n, u in self.spec.decls().items():
            if u and self.rng.random() < .8:
                units[n] = self.rng.choice(alg.BYDIM[alg.UNITS[u][1]])
        if not units:
            return False
        self.plan["units"] = units

    def multiply(self):
        for c in self.spec.cons:
            if self.rng.random() < .5:
                t, _ = factor(self.rng, self.spec)
                if c["shape"] is not None:
                    t = ("num", round(math.exp(self.rng.uniform(-3, 3)), 3))
                if self.rng.random() < .5:
                    c["l"], c["r"] = ("mul", t, c["l"]), ("mul", t, c["r"])
                else:
                    c["l"], c["r"] = ("mul", c["l"], t), ("mul", c["r"], t)

    def cost(self):
        k = math.exp(self.rng.uniform(-5, 5))
        u = self.rng.choice(sorted(alg.UNITS)) if self.rng.random() < .3 else None
        d = alg.UNITS[u][1] if u else alg.DIMLESS
        t = models.num(k, d, self.rng)
        self.costlog += math.log(models.evaluate(t, {}).v)
        self.spec.cost = ("mul", t, self.spec.cost)

    def constcost(self):
        "a monomial of constants"
        if "fixed" in self.names:
            return False
        keys = self.spec.keys("consts")
        if not keys:
            return False
        t, _ = models.mono(self.rng, self.spec, keys, self.rng.randint(1, 2))
        if t is None:
            return False
        fp = self.spec.full(self.spec.hidden)
        self.costlog += math.log(models.evaluate(t, fp).v)
        for k in keys:
            y, dy = alg.grad(t, fp, k)
            e = dy.v*fp[k][0]/y.v
            if e:
                self.costconst[k] = e
        self.spec.cost = ("mul", self.spec.cost, t)

    def fixed(self):
        "constants become variables fixed by equalities"
        names = [n for n, (v, u, sh) in self.spec.consts.items() if sh is None]
        used = self.spec.used()
        names = [n for n in names if (n, None) in used]
        if not names or self.costconst:
            return False
        fp = self.spec.full(self.spec.hidden)
        for c in self.spec.cons:    # equalities of constants alone, true but for rounding
            if c["op"] == "=" and c["shape"] is None:
                side = ("div", c["l"], c["r"])
                if all(abs(alg.grad(side, fp, k)[1].v*fp[k][0]) < 1e-9
                       for k in self.spec.keys()):
                    return False
        for n in self.rng.sample(names, self.rng.randint(1, min(2, len(names)))):
            v, u, _ = self.spec.consts.pop(n)
            self.spec.how.pop(n, None)
            f, d = alg.decl_factor(u)
            self.spec.free[n] = (u, None)
            t = models.num(v*f, d, self.rng)
            sides = [("var", n, None), t]
            x = self.rng.choice([1, 1, 2, -1, .5])
            if x != 1:
                sides = [("pow", s, x) for s in sides]
            self.rng.shuffle(sides)
            self.spec.cons.append(models.con(sides[0], "=", sides[1], tag="fixed"))
            self.origin.append(("fixed", n, x))
            self.fixedvars[n] = v*f

    def repeat(self):
        "some constraints are stated twice, an equality perhaps in another form"
        n = len(self.spec.cons)
        eqs = [i for i in range(n) if self.spec.cons[i]["op"] == "="]
        chosen = self.rng.sample(range(n), 1)
        if eqs and self.rng.random() < .8:
            chosen = self.rng.sample(eqs, 1)
        for i in chosen:
            c = dict(self.spec.cons[i])
            if c["op"] == "=":
                if c["shape"] is None and self.rng.random() < .4:
                    x = self.rng.choice([2, -1, .5])
                    c["l"], c["r"] = ("pow", c["l"], x), ("pow", c["r"], x)
                if self.rng.random() < .5:
                    c["l"], c["r"] = c["r"], c["l"]
                self.equality = True
            self.spec.cons.append(c)
            o = self.origin[i]
            self.repeated.add(o if o[0] == "fixed" else o[0])
            self.origin.append(("repeated", i))

    def how(self):
        for n in self.spec.consts:
            self.spec.how[n] = self.rng.choice(["var", "sub"])
        self.plan["late"] = self.rng.random() < .5

    def split(self):
        cons, origin = [], []
        for c, o in zip(self.spec.cons, self.origin):
            if c["shape"] is None or self.rng.random() < .2:
                cons.append(c)
                origin.append(o)
                continue
            for j, (l, op, r) in zip(np.ndindex(*c["shape"]), self.spec.elements(c)):
                cons.append(models.con(l, op, r, tag=c["tag"]))
                origin.append((o[0], j))
        if len(cons) == len(self.spec.cons):
            return False
        self.spec.cons, self.origin = cons, origin


def gen(rng, sp):
    spec = models.random_gp(rng, odd=rng.choice([0, .25]), nfree=rng.randint(1, 4), nconst=rng.randint(1, 4),
                            equalities=.3, constvec=.4)
    sigs = []
    if sp:
        for _ in range(rng.choice([1, 1, 2])):
            sig = c14.gen_sig(rng, spec)
            if sig:
                sigs.append(sig)
        if not sigs or all(s.compat for s in sigs):
            raise Skip("no signomial constraint")
        tmp = models.Spec()
        tmp.free, tmp.consts = spec.free, spec.consts
        tmp.cost = spec.cost
        tmp.cons = [models.con(t, "<=", t) for s in sigs for t in s.P + s.N]
        spec.sigused = tmp.used()
    return spec, sigs


def unique(spec, k=None, con=None):
    "one-sided slopes of the original's log cost"
    f0, _ = c11.log_cost(spec)
    out = []
    for sg in (-1, 1):
        if k is not None:
            out.append(c11.log_cost(spec, {k: math.exp(sg*c11.H)})[0])
        else:
            out.append(c11.log_cost(spec, relax=(con, math.exp(sg*c11.H)))[0])
    return c11.bracket(f0, out[0], out[1], c11.H)


def compare(rec, spec, sigs, base, got, what, costlog=0.0, costconst=None, fixed=(),
            origin=None, repeated=()):
    "Monitor: got, mapped back, is base"
    sp = bool(sigs)
    d = got.cost - costlog - base.cost
    if abs(d) > (1e-3 if sp else 2e-5):
        raise Violation("cost", "%s: log costs differ by %.3g" % (what, d))
    rec.ev("costs")
    tol = 1e-2 if sp else 1e-3
    off = {k: math.log(v/base.x[k]) for k, v in got.x.items()
           if k in base.x and abs(math.log(v/base.x[k])) > tol}
    missing = set(base.x) - set(got.x)
    if missing:
        raise Violation("values", "%s: no values for %s" % (what, missing))
    for n in fixed:
        if abs(math.log(got.x[(n, None)]/fixed[n])) > 1e-5:
            raise Violation("values", "%s: %s is fixed at %s but has value %s"
                            % (what, n, fixed[n], got.x[(n, None)]))
    if off:
        point = dict(spec.hidden)
        point.update({k: v for k, v in got.x.items() if k in base.x})
        worst, which = spec.violation(point)
        cost = math.log(spec.costval(point).v)
        fp = spec.full(point)
        for sig in sigs:
            r = math.log(c14.total(sig.P, fp)/c14.total(sig.N, fp))
            r = abs(r) if sig.eq else r
            if r > worst:
                worst, which = r, sig.text()
        if worst > 1e-3 or abs(cost - base.cost) > 1e-3:
            raise Violation("values", "%s: values differ by (log) %s; mapped back they violate"
                            " constraint %s by %.3g at log cost %+.3g"
                            % (what, off, which, worst, cost - base.cost))
        rec.ev("other_optima")
        return
    rec.ev("values", len(got.x))
    stol = 5e-2 if sp else 3e-3
    for k, s in base.s.items():
        if k[0] in fixed:
            continue
        t = got.s.get(k, 0.0) - (costconst or {}).get(k, 0.0)
        rec.ev("sensitivities")
        if abs(s - t) > stol*(1 + abs(s)):
            if not sp:
                lo, hi = unique(spec, k=k)
                if lo - .01*(1+abs(lo)) <= t <= hi + .01*(1+abs(hi)) and \
                        hi - lo > .5*abs(s - t):
                    rec.ev("other_multipliers")
                    continue
            raise Violation("sensitivity", "%s: sensitivity to %s is %.6g, originally %.6g"
                            % (what, k, t, s))
    back = {}
    for (i, j), v in got.la.items():
        o = origin[i] if origin else (i, None)
        if o[0] == "repeated":
            continue
        if o[0] == "fixed":
            if o in repeated:
                continue
            n, x = o[1], o[2]
            s = base.s.get((n, None), 0.0)
            rec.ev("fixing_multipliers")
            if abs(abs(v)*abs(x) - abs(s)) > stol*(1 + abs(s)):
                lo, hi = unique(spec, k=(n, None))
                if any(lo - .01*(1+abs(lo)) <= y <= hi + .01*(1+abs(hi))
                       for y in (abs(v*x), -abs(v*x))) and hi - lo > .5*abs(abs(v*x) - abs(s)):
                    rec.ev("other_multipliers")
                    continue
                raise Violation("fixing-sensitivity", "%s: equality fixing %s (power %s) has"
                                " sensitivity %.6g, the constant had %.6g" % (what, n, x, v, s))
            continue
        back[(o[0], j if o[1] is None else o[1])] = v
    for (i, j), v in base.la.items():
        if i in repeated:  # shared in any way between the two
            continue
        t = back.get((i, j), 0.0)
        rec.ev("multipliers")
        if abs(abs(v) - abs(t)) > stol*(1 + abs(v)):
            if not sp and spec.cons[i]["shape"] is None:
                lo, hi = unique(spec, con=i)
                if any(lo - .01*(1+abs(lo)) <= y <= hi + .01*(1+abs(hi)) for y in (t, -t)) \
                        and hi - lo > .5*abs(abs(v) - abs(t)):
                    rec.ev("other_multipliers")
                    continue
            elif not sp:
                rec.ev("vector_multipliers_unjudged")
                continue
            raise Violation("multiplier", "%s: constraint %s%s has sensitivity %.6g, originally"
                            " %.6g" % (what, i, list(j), t, v))


def transformed(rng, rec):
    from gpkit.exceptions import PrimalInfeasible
    sp = rng.random() < .25
    spec, sigs = gen(rng, sp)
    m = make(spec, sigs)
    sol = solve(m, bool(sigs))
    if isinstance(sol, Exception):
        raise Skip("original: " + type(sol).__name__)
    base = Result(spec, m, sol)
    for _ in range(2):
        t = Transform(rng, spec, sigs)
        t.apply(rng.choice([1, 1, 2, 3, 4]))
        what = "%s of %s%s" % ("+".join(t.names), spec.text(),
                               "; sigs %s" % [s.text() for s in sigs] if sigs else "")
        if "units" in t.names:
            what += " in %s" % t.plan["units"]
        try:
            m2 = make(t.spec, sigs, t.plan, rng)
            sol2 = solve(m2, bool(sigs))
        except PrimalInfeasible as e:
            sol2 = e
        if isinstance(sol2, Exception):
            raise Violation("fails", "%s: %s: %s; transformed: %s" % (what, type(sol2).__name__, sol2,
                                                                      t.spec.text()))
        got = Result(t.spec, m2, sol2)
        fixed = t.fixedvars
        compare(rec, spec, sigs, base, got, what + " -> " + t.spec.text(), t.costlog, t.costconst,
                fixed, t.origin, t.repeated)
        for n in t.names:
            rec.ev("t:" + n)
        if t.equality:
            rec.ev("equality-repeated")
        rec.sig(what)
    rec.sample(what)


# ---- other hash seeds

def results(jobs):
    out = []
    for spec, sigs in jobs:
        try:
            m = make(spec, sigs)
            sol = solve(m, bool(sigs))
            out.append(type(sol).__name__ if isinstance(sol, Exception) else Result(spec, m, sol))
        except Skip:
            out.append("skip")
    return out


def hashseed(rng, rec):
    jobs = []
    while len(jobs) < 8:
        try:
            jobs.append(gen(rng, rng.random() < .3))
        except Skip:
            pass
    seeds = [str(rng.randrange(1, 4000000000)) for _ in range(2)]
    with Scratch() as scratch:
        with open(scratch.path("jobs"), "wb") as f:
            pickle.dump(jobs, f)
        for s in seeds:
            p = subprocess.run([sys.executable, "-W", "ignore", "-B", "-m", "mon.checks.c31",
                                scratch.dir, s], cwd=VERIF, env=dict(os.environ, PYTHONHASHSEED=s),
                               stdin=subprocess.DEVNULL, stdout=subprocess.PIPE,
                               stderr=subprocess.PIPE, timeout=300, check=False)
            if p.returncode:
                raise RuntimeError(p.stderr.decode()[-1500:])
        got = []
        for s in seeds:
            with open(scratch.path("out" + s), "rb") as f:
                got.append(pickle.load(f))
    base = results(jobs)
    for (spec, sigs), b, *others in zip(jobs, base, *got):
        what = "hash seeds %s of %s; sigs %s" % (seeds, spec.text(), [s.text() for s in sigs])
        for o in others:
            if isinstance(b, str) or isinstance(o, str):
                rec.require(isinstance(b, str) and b == o, "hash-outcome",
                            lambda: "%s: %s here, %s there" % (what, b, o))
                continue
            compare(rec, spec, sigs, b, o, what)
            rec.ev("hash_models")
        rec.sig(what)


KINDS = {"transformed": (transformed, 420, 8000), "hashseed": (hashseed, 8, 120)}


if __name__ == "__main__":
    sys.setrecursionlimit(5000)
    from mon.checks import c31 as me
    with open(os.path.join(sys.argv[1], "jobs"), "rb") as f_:
        jobs_ = pickle.load(f_)
    so = sys.stdout
    sys.stdout = open(os.devnull, "w")
    res = me.results(jobs_)
    with open(os.path.join(sys.argv[1], "out" + sys.argv[2]), "wb") as f_:
        pickle.dump(res, f_)
