"""C29: computed constants and post-computed variables match their functions.

Functions are drawn as little graphs the harness can evaluate itself; models whose optimum
is known in closed form are then put through histories of solves, sweeps, replacements and
restorations, and every solution is compared with the graph evaluated at that solve's inputs.
"""
import math
import numpy as np
from ..core import Violation, Skip
from .. import alg

PROP = "C29"
RULE = ("a case is a graph of computed constants (or evaluated variables) and a history of "
        "solves, sweeps and substitution changes; non-trivial when a solution was compared, "
        "identified by graph and history")
TECH = ("online reference evaluation of every linked function after each step of random "
        "histories, with sensitivities against closed-form derivatives")
NOTE = ("functions are sums of products of powers of their inputs, by [] (numbers in own "
        "units) or () (quantities); graphs up to 6 nodes deep")
CPU_LIMIT = 60
UN = [None, None, "m", "cm", "ft", "km"]
LEN = (1, 0, 0)


class Node:
    "A computed constant: sum of k * prod inputs**p; per element for vectors"
    def __init__(self, name, unit, terms, shape, style):
        self.name, self.unit, self.terms = name, unit, terms
        self.shape, self.style = shape, style
        self.how = "array" if sum(map(ord, name + str(unit))) % 2 else "list"


def fac(u):
    return alg.decl_factor(u)[0]


def plain(v):
    "Stands for code that only takes numbers"
    if isinstance(v, (int, float, np.floating, np.integer)):
        return float(v)
    raise TypeError("only takes numbers, not %s" % type(v).__name__)


def gen_graph(rng, opaque=False):
    "base {name: (values, unit, shape)}, nodes in dependency order"
    base, nodes = {}, []
    n = rng.choice([2, 3])
    for i in range(rng.randint(1, 3)):
        shape = (n,) if rng.random() < .35 else None
        v = [round(rng.uniform(.5, 3), 3) for _ in range(n)] if shape \
            else round(rng.uniform(.5, 3), 3)
        base["abc"[i]] = (v, rng.choice(UN), shape)
    for i in range(rng.randint(1, 5)):
        unit = rng.choice(UN)
        shape = (n,) if rng.random() < .35 else None
        style = rng.choice(["num", "num", "quant"])
        if opaque and rng.random() < .6:
            style = "opaque"    # like compiled code, it takes plain numbers only
        sources = list(base) + [x.name for x in nodes]
        if style == "quant":    # c(x) of same dimension only, linear
            same = [s for s in sources if (unitof(base, nodes, s) is None)
                    == (unit is None)]
            if not same:
                style = "num"
        terms = []
        for _ in range(rng.randint(1, 2)):
            if style == "quant":
                fs = [(rng.choice(same), 1)]
            else:
                fs = [(s, rng.choice([1, 1, 2, -1, .5])) for s in
                      rng.sample(sources, min(len(sources), rng.choice([1, 1, 2])))]
            fs = [(s, p, rng.randrange(n) if shapeof(base, nodes, s) and not shape
                   else None) for s, p in fs]
            terms.append((round(rng.uniform(.2, 2), 3), fs))
        nodes.append(Node("pqrstu"[i], unit, terms, shape, style))
    return base, nodes, n


def unitof(base, nodes, name):
    if name in base:
        return base[name][1]
    return [x for x in nodes if x.name == name][0].unit


def shapeof(base, nodes, name):
    if name in base:
        return base[name][2]
    return [x for x in nodes if x.name == name][0].shape


def evaluate(base, nodes, values, overrides):
    """{name: number or list in own units}. values: base values; overrides: {name: value or
    {idx: value}}"""
    out = dict(values)
    for x in nodes:
        full = overrides.get(x.name)
        if full is not None and not isinstance(full, dict):
            out[x.name] = full
            continue

        def value(i):
            tot = 0.0
            for k, fs in x.terms:
                t = k
                for s, p, j in fs:
                    v = out[s]
                    if isinstance(v, (list, np.ndarray)):
                        v = v[j if j is not None else i]
                    if x.style == "quant":
                        v = v*fac(unitof(base, nodes, s))/fac(x.unit)
                    t *= v**p
                tot += t
            return tot
        if x.shape:
            vals = [value(i) for i in range(x.shape[0])]
            for i, v in (full or {}).items():
                vals[i] = v if not callable(v) else v(out)
            out[x.name] = vals
        else:
            out[x.name] = value(None)
    return out


def make_fn(base, nodes, x, objs):
    "The function given to gpkit"
    def element(c, i):
        tot = None
        for k, fs in x.terms:
            t = k
            for s, p, j in fs:
                v = c(objs[s]) if x.style == "quant" else c[objs[s]]
                if shapeof(base, nodes, s):
                    v = v[j if j is not None else i]
                if x.style == "opaque":
                    v = plain(v)
                t = t*v**p if p != 1 else t*v
            tot = t if tot is None else tot + t
        return tot

    def fn(c):
        if not x.shape:
            return element(c, None)
        out = [element(c, i) for i in range(x.shape[0])]
        return np.array(out) if x.how == "array" and x.style != "quant" else out
    return fn


def make(rng, base, nodes, n, extra=None):
    import gpkit
    objs = {}
    for name, (v, u, shape) in base.items():
        args = [name, v] + ([u] if u else [])
        objs[name] = gpkit.VectorVariable(shape, *args) if shape else gpkit.Variable(*args)
    order = list(nodes)
    pairs = []
    for x in order:
        fn = make_fn(base, nodes, x, objs)
        args = [x.name, fn] + ([x.unit] if x.unit else [])
        objs[x.name] = gpkit.VectorVariable(x.shape, *args) if x.shape \
            else gpkit.Variable(*args)
        pairs.append((x.name, fn))
    return objs, dict(pairs)


def model(rng, base, nodes, objs, weights, split):
    "x >= weighted sum of everything used, all dimensionless"
    import gpkit
    x = gpkit.Variable("X")
    parts = []
    for (name, i), w in weights.items():
        o = objs[name] if i is None else objs[name][i]
        u = unitof(base, nodes, name)
        parts.append(w*o/gpkit.units(u) if u else w*o)
    rng.shuffle(parts)
    tot = parts[0]
    for p in parts[1:]:
        tot = tot + p
    if split and len(parts) > 1:
        y = gpkit.Variable("Y")
        return gpkit.Model(x + y, [x >= tot, y >= tot]), x, 2
    if rng.random() < .3:   # in the cost
        return gpkit.Model(tot*x, [x >= 1]), x, 1
    return gpkit.Model(x, [x >= tot]), x, 1


def close(a, b, tol=1e-9):
    return abs(a-b) <= tol*max(abs(a), abs(b), 1e-300)


def judge(rec, what, sol, objs, base, nodes, values, overrides, weights, mult, idx=None,
          tol=2e-6):
    "One (point of a) solution against the graph"
    want = evaluate(base, nodes, values, overrides)

    def got(name):
        v = sol["variables"][objs[name]]
        if idx is not None and np.ndim(v) > (1 if shapeof(base, nodes, name) else 0):
            v = v[idx]
        return v
    for name in want:
        if not any(k[0] == name for k in weights):
            continue
        g, w = np.ravel(np.array(got(name), float)), np.ravel(np.array(want[name], float))
        for i, (a, b) in enumerate(zip(g, w)):
            if ((name, i) in weights or (name, None) in weights) and not close(a, b):
                raise Violation("stale-or-wrong-value", "%s: %s[%s] is %r, function gives"
                                " %r" % (what, name, i, a, b))
        rec.ev("values_checked", len(w))
    cost = mult*total(want, weights)
    c = sol["cost"]
    c = float(getattr(c, "magnitude", c) if idx is None else np.ravel(
        getattr(c, "magnitude", c))[idx])
    if not close(c, cost, tol):
        raise Violation("stale-or-wrong-value", "%s: cost %r, with the functions' values %r"
                        % (what, c, cost))
    rec.ev("costs_checked")
    return want


def total(vals, weights):
    return sum(w*(vals[n] if i is None else vals[n][i]) for (n, i), w in weights.items())


def sens(rec, what, sol, objs, base, nodes, values, overrides, weights, idx=None):
    "log-derivatives of the closed-form cost, against those reported"
    h = 1e-5
    for name, (_, _, shape) in list(base.items()) + [
            (x.name, (0, 0, x.shape)) for x in nodes
            if x.name in overrides and not isinstance(overrides[x.name], dict)]:
        isover = name not in base
        for i in (range(shape[0]) if shape else [None]):
            out = []
            for s in (math.exp(h), math.exp(-h)):
                v, o = dict(values), dict(overrides)
                src = o if isover else v
                if i is None:
                    src[name] = src[name]*s
                else:
                    src[name] = list(src[name])
                    src[name][i] *= s
                out.append(math.log(total(evaluate(base, nodes, v, o), weights)))
            want = (out[0]-out[1])/2/h
            o = objs[name] if i is None else objs[name][i]
            try:
                got = sol["sensitivities"]["variables"][o]
            except KeyError:
                got = 0.0
            if idx is not None and np.ndim(got):
                got = got[idx]
            got = float(got)
            got = 0.0 if np.isnan(got) else got
            if abs(got-want) > 1e-4*(1+abs(want)):
                raise Violation("stale-derivative", "%s: sensitivity to %s%s is %r, should"
                                " be %r" % (what, name, "" if i is None else [i], got, want))
            rec.ev("sensitivities_checked")


def history(rng, rec):
    import gpkit
    base, nodes, n = gen_graph(rng, rng.random() < .25)
    if any(x.style == "opaque" for x in nodes):   # their derivatives are not known
        smooth = lambda *args, **kw: rec.ev("opaque_solutions")
    else:
        smooth = sens
    objs, fns = make(rng, base, nodes, n)
    weights = {}
    for name in list(base) + [x.name for x in nodes]:
        shape = shapeof(base, nodes, name)
        for i in (range(shape[0]) if shape else [None]):
            weights[(name, i)] = round(rng.uniform(.2, 2), 3)
    what = "base %s; %s" % (base, [(x.name, x.unit, x.terms, x.shape, x.style)
                                   for x in nodes])
    m, x, mult = model(rng, base, nodes, objs, weights, rng.random() < .2)
    values = {k: v[0] for k, v in base.items()}
    overrides = {}
    original = {x.name: (np.array(dict.__getitem__(m.substitutions, objs[x.name].key),
                                  dtype=object) if x.shape else fns[x.name]) for x in nodes}
    other = None
    log = []
    pending = []     # programs made earlier, with what they should still give
    for step in range(rng.randint(2, 6)):
        op = rng.choice(["solve", "solve", "base", "override", "restore", "sweep", "program",
                         "late", "other", "element", "fail"])
        log.append(op)
        if op == "base":
            k = rng.choice(sorted(base))
            if base[k][2]:
                v = [round(rng.uniform(.5, 3), 3) for _ in range(n)]
                if rng.random() < .5:
                    v = list(values[k])
                    i = rng.randrange(n)
                    v[i] = round(rng.uniform(.5, 3), 3)
                    m.substitutions[objs[k][i]] = v[i]
                else:
                    m.substitutions[objs[k]] = v
            else:
                v = round(rng.uniform(.5, 3), 3)
                m.substitutions[rng.choice([objs[k], objs[k].key, k])] = v
            values[k] = v
        elif op == "override":
            k = rng.choice(nodes)
            if k.shape:
                v = [round(rng.uniform(.5, 3), 3) for _ in range(n)]
            else:
                v = round(rng.uniform(.5, 3), 3)
            m.substitutions.update({objs[k.name]: v})
            overrides[k.name] = v
            rec.ev("overrides")
        elif op == "element":
            ks = [k for k in nodes if k.shape and k.name not in overrides]
            if not ks:
                continue
            k = rng.choice(ks)
            i = rng.randrange(n)
            if rng.random() < .5:
                v = round(rng.uniform(.5, 3), 3)
                m.substitutions[objs[k.name][i]] = v
            else:
                bname = rng.choice([b for b in base])
                q = round(rng.uniform(.5, 3), 3)

                def v(c, q=q, bname=bname):
                    b = c[bname]
                    return q*(b[0] if base[bname][2] else b)
                m.substitutions[objs[k.name][i]] = (
                    lambda c, q=q, bname=bname:
                    q*(c[objs[bname]][0] if base[bname][2] else c[objs[bname]]))
                rec.ev("element_functions")
            overrides[k.name] = {i: v}
        elif op == "restore":
            if not overrides:
                continue
            k = rng.choice(sorted(overrides))
            m.substitutions[objs[k]] = original[k]
            del overrides[k]
            rec.ev("restorations")
        elif op == "program":
            pending.append((m.gp(), dict(values), dict(overrides)))
            rec.ev("programs_made")
        elif op == "late" and pending:
            prog, vals, ovr = pending.pop(rng.randrange(len(pending)))
            sol = prog.solve(verbosity=0)
            w = what + " program of step, solved after %s" % log
            judge(rec, w, sol, objs, base, nodes, vals, ovr, weights, mult)
            if not any(isinstance(o, dict) for o in ovr.values()):
                smooth(rec, w, sol, objs, base, nodes, vals, ovr, weights)
            rec.ev("programs_solved_late")
        elif op == "other":
            # another model sharing the variables, with its own values
            m2 = gpkit.Model(m.cost, list(m))
            over2 = {}
            vals2 = {k: ([round(rng.uniform(.5, 3), 3) for _ in range(n)] if b[2]
                         else round(rng.uniform(.5, 3), 3)) for k, b in base.items()}
            for k in nodes:
                if rng.random() < .5:
                    m2.substitutions[objs[k.name]] = original[k.name]
                else:
                    over2[k.name] = [1.25]*n if k.shape else 1.25
                    m2.substitutions[objs[k.name]] = over2[k.name]
            for k, v in vals2.items():
                m2.substitutions[objs[k]] = v
            s2 = m2.solve(verbosity=0)
            judge(rec, what + " other model after %s" % log, s2, objs, base, nodes, vals2,
                  over2, weights, mult)
            smooth(rec, what + " other model after %s" % log, s2, objs, base, nodes, vals2,
                 over2, weights)
            rec.ev("other_models")
        elif op == "fail":
            try:
                m.solve(solver=lambda **kw: 1/0, verbosity=0)
            except gpkit.exceptions.UnknownInfeasible:
                pass
        elif op == "sweep":
            k = rng.choice(sorted(base))
            el = rng.randrange(n) if base[k][2] else None
            swept = objs[k] if el is None else objs[k][el]
            pts = [round(rng.uniform(.5, 3), 3) for _ in range(rng.randint(2, 4))]
            m.substitutions[swept] = ("sweep", pts)
            sol = m.solve(verbosity=0)
            for j, p in enumerate(pts):
                w = what + " after %s, sweep %s=%r" % (log, swept, p)
                vals = dict(values)
                if el is None:
                    vals[k] = p
                else:
                    vals[k] = [p if q == el else v for q, v in enumerate(values[k])]
                    rec.ev("element_sweep_points")
                if len(sol) != len(pts):
                    raise Violation("sweep-length", w)
                s = sol.atindex(j)
                judge(rec, w, s, objs, base, nodes, vals, overrides, weights, mult)
                judge_all(rec, w, sol, objs, base, nodes, vals, overrides, weights, j)
                if not any(isinstance(o, dict) for o in overrides.values()):
                    smooth(rec, w, s, objs, base, nodes, vals, overrides, weights)
                rec.ev("sweep_points")
            m.substitutions[swept] = values[k] if el is None else values[k][el]
        w = what + " after %s" % log
        sol = m.solve(verbosity=0)
        judge(rec, w, sol, objs, base, nodes, values, overrides, weights, mult)
        if not any(isinstance(o, dict) for o in overrides.values()):
            smooth(rec, w, sol, objs, base, nodes, values, overrides, weights)
        rec.ev("solves")
        if any(len(k) for k in overrides):
            rec.ev("overridden_solves")
    rec.sig(what, log)
    rec.sample("%s: %s" % (what, log))


def judge_all(rec, what, sol, objs, base, nodes, values, overrides, weights, j):
    "The swept solution itself, at one point"
    want = evaluate(base, nodes, values, overrides)
    for x in nodes:
        v = np.array(sol["variables"][objs[x.name]], float)
        nd = 1 if x.shape else 0
        if v.ndim > nd:    # varies over the sweep
            v = v[j]
        at = sol.atindex(j)
        for src in ("variables", "constants"):
            c = np.array(at[src][objs[x.name]], float)
            if not np.allclose(np.ravel(c), np.ravel(want[x.name]), rtol=1e-9, atol=0):
                raise Violation("stale-or-wrong-value", "%s: swept %s of %s is %r, function"
                                " gives %r" % (what, src, x.name, c, want[x.name]))
        if not np.allclose(np.ravel(v)[:np.size(want[x.name])], np.ravel(want[x.name]),
                           rtol=1e-9, atol=0):
            raise Violation("stale-or-wrong-value", "%s: swept %s is %r, function gives %r"
                            % (what, x.name, v, want[x.name]))
        rec.ev("swept_values_checked")


def evaluated(rng, rec):
    "Variables evaluated after the solve"
    import gpkit
    n = rng.choice([2, 3])
    vec, sp = rng.random() < .4, rng.random() < .25
    unit = rng.choice(["m", "ft"])
    yu = rng.choice(["m", "cm", "km"])
    k1, k2, p = round(rng.uniform(.5, 2), 2), round(rng.uniform(.5, 2), 2), \
        rng.choice([1, 2, .5, -1])
    style = rng.choice(["num", "quant"])
    chain = rng.random() < .5
    nested = rng.random() < .4
    solved = rng.random() < .3
    a0 = round(rng.uniform(1, 4), 3)

    class Inner(gpkit.Model):
        "holds the solved and evaluated variables"
        def setup(self):
            x = self.x = gpkit.VectorVariable(n, "x", unit) if vec \
                else gpkit.Variable("x", unit)
            a = self.a = gpkit.Variable("a", a0, unit)
            mk = (lambda *q, **k: gpkit.VectorVariable(n, *q, **k)) if vec \
                else gpkit.Variable
            if style == "quant":
                self.y = mk("y", yu, evalfn=lambda v: k1*v(x) + v(a))
            else:
                self.y = mk("y", yu, evalfn=lambda v: k1*v[x]**p + v[a])
            if chain:
                self.z = mk("z", evalfn=lambda v: k2*v[self.y])
                self.w = gpkit.Variable("w", evalfn=lambda v: np.sum(v[self.z])*1.0)
            self.low = [x >= a] + ([x[0] >= 2*a] if vec else [])
            if solved:     # a constraint makes it a solved one instead
                self.s = gpkit.Variable("s", unit, evalfn=lambda v: 7*v[a])
                self.low.append(self.s >= 3*a)
            if sp:
                u = gpkit.Variable("u", unit)
                with gpkit.SignomialsEnabled():
                    self.low += [(x[0] if vec else x) + 0.1*u >= 1.1*a, u <= a, u >= a/2]
            if not nested:
                self.cost = (x.prod() if vec else x)*(self.s if solved else 1)
            return self.low

    class Outer(gpkit.Model):
        "another level"
        def setup(self):
            self.i = Inner()
            self.t = gpkit.Variable("t", evalfn=lambda v: np.sum(v[self.i.x])*3.0)
            q = gpkit.Variable("q")
            self.cost = (self.i.x.prod() if vec else self.i.x)*q*(self.i.s if solved else 1)
            return [self.i, q >= 2]
    m = Outer() if nested else Inner()
    i = m.i if nested else m
    what = "evaluated %s" % ((n, vec, sp, unit, yu, k1, k2, p, style, chain, nested, solved),)
    sweep = rng.random() < .4
    avals = [a0]
    for step in range(rng.randint(1, 3)):
        if step:
            avals = [round(rng.uniform(1, 4), 3)]
            m.substitutions[i.a] = avals[0]
        if sweep:
            avals = [round(rng.uniform(1, 4), 3) for _ in range(rng.randint(2, 3))]
            m.substitutions[i.a] = ("sweep", avals)
        try:
            sol = m.localsolve(verbosity=0) if sp else m.solve(verbosity=0)
        except gpkit.exceptions.Infeasible:
            raise Skip("infeasible")
        for j, a in enumerate(avals):
            s = sol.atindex(j) if sweep else sol
            xv = np.array(s["variables"][i.x], float)
            if style == "quant":
                want = (k1*xv + a)*fac(unit)/fac(yu)
            else:
                want = k1*xv**p + a
            checks = [(i.y, want)]
            if chain:
                checks += [(i.z, k2*want), (i.w, np.sum(k2*want))]
            if nested:
                checks.append((m.t, 3*xv.sum()))
            for o, v in checks:
                for src in ("variables", "freevariables"):
                    got = np.array(s[src][o], float)
                    if got.shape != np.shape(v) or not np.allclose(got, v, rtol=1e-9):
                        raise Violation("evaluated-wrong", "%s: %s of %s is %r, function"
                                        " gives %r" % (what, src, o.key, got, v))
                q = s(o)
                if str(getattr(q, "units", "")) != "" and o.key.units is not None:
                    if not np.allclose(np.array(q.to(o.key.unitrepr).magnitude, float), v,
                                       rtol=1e-9):
                        raise Violation("evaluated-wrong", "%s: %s gives %r for %r"
                                        % (what, o.key, q, v))
                rec.ev("evaluated_checked")
            if solved:
                got = [float(s[src][i.s]) for src in ("variables", "freevariables")]
                if not np.allclose(got, 3*a, rtol=1e-4):
                    raise Violation("solved-overwritten", "%s: the constrained s is %s, at "
                                    "the optimum %s" % (what, got, 3*a))
                rec.ev("solved_kept")
            if abs(xv.max()/a - (2 if vec else 1)) > 1e-4:
                raise Violation("optimum-moved", "%s: x %s, a %s" % (what, xv, a))
        rec.ev("evaluated_solves")
    rec.sig(what, avals)


def magnitudes(rng, rec):
    "Sweeps over computed constants of any magnitude, whose values differ ever so slightly"
    import gpkit
    scale = 10.**rng.choice([-14, -12, -10, -9, -8, -6, 0, 6, 9])
    small = rng.choice([None, None, 1e-6, 1e-7, 1e-9])     # relative change over the sweep
    n = rng.choice([None, None, 2, 3])
    unit, kunit = rng.choice(UN), rng.choice(UN)
    p = rng.choice([1, 1, 2, -1, .5])
    q = rng.choice([1, -1])
    x, a = gpkit.Variable("x", *([unit] if unit else [])), \
        gpkit.Variable("a", *([unit] if unit else []))
    b = gpkit.Variable("b", 1.5)
    ks = [kunit] if kunit else []
    if n:
        k = gpkit.VectorVariable(n, "k", lambda c: [scale*(i+1)*c[a]**p for i in range(n)],
                                 *ks)
    else:
        k = gpkit.Variable("k", lambda c: scale*c[a]**p, *ks)
    one = gpkit.Variable("one", lambda c: scale*c[b], *ks)      # does not vary
    far = gpkit.Variable("far", lambda c: c[k[-1] if n else k]**q/c[b])
    f = 1/(scale*(1*gpkit.units(kunit) if kunit else 1))
    m = gpkit.Model(x, [x >= a*(1 + .1*(k.sum() if n else k)*f + .1*one*f + .01*far*scale**-q*b)])
    if small:
        base = round(rng.uniform(.5, 3), 3)
        avals = [base*(1 + small*j) for j in rng.sample(range(6), rng.randint(2, 4))]
    else:
        avals = [round(rng.uniform(.5, 3), 3) for _ in range(rng.randint(2, 4))]
    what = "computed constants of magnitude %g, %s a**%s over a=%s" % (scale, n, p, avals)
    if rng.random() < .5:
        m.substitutions[a] = ("sweep", avals)
        sol = m.solve(verbosity=0)
    else:
        sol = m.sweep({a: avals}, verbosity=0)
    for j, av in enumerate(avals):
        kv = [scale*(i+1)*av**p for i in range(n)] if n else scale*av**p
        wants = {k: kv, one: scale*1.5, far: (kv[-1] if n else kv)**q/1.5}
        at = sol.atindex(j)
        for var, want in wants.items():
            for src, got in (("variables", sol["variables"][var]),
                             ("constants", sol["constants"][var])):
                got = np.asarray(got, float)
                if got.ndim > np.ndim(want) and len(got) == len(avals):
                    got = got[j]
                elif got.ndim > np.ndim(want):
                    got = got[0]
                if not rec.check(np.allclose(got, want, rtol=1e-11, atol=0),
                                 "stale-or-wrong-value", "%s: point %i of %s in %s is %r, "
                                 "its function gives %r" % (what, j, var, src, got, want)):
                    return
                rec.ev("magnitude_values")
            for src in ("variables", "constants"):
                got = np.ravel(np.asarray(at[src][var], float))
                rec.check(np.allclose(got, np.ravel(want), rtol=1e-11, atol=0),
                          "stale-or-wrong-value", "%s: %s in %s at %i is %r, its function"
                          " gives %r" % (what, var, src, j, got, want))
    rec.sig(what, unit, kunit)


def matrix(rng, rec):
    "Computed vectors of several dimensions, declared alone or in vectorised environments"
    import gpkit
    outer = rng.choice([(), (), (2,), (3,)])
    shape = rng.choice([(2,), (3,), (2, 2), (2, 3), (3, 2), (2, 1, 3)])
    full = shape + outer
    unit = rng.choice(UN)
    own = rng.random() < .5      # returns dimensioned numbers
    a = gpkit.Variable("a", round(rng.uniform(.5, 3), 3))
    w = np.array([round(rng.uniform(.5, 3), 3) for _ in range(int(np.prod(full)))]).reshape(full)
    p = rng.choice([1, -1, 2, .5])
    form = rng.choice(["array", "list", "qty"]) if unit else rng.choice(["array", "list"])
    other = rng.choice([unit] + [u for u in UN if u]) \
        if form == "qty" else unit

    def fn(c):
        out = w*float(getattr(c[a], "magnitude", c[a]))**p
        if form == "qty":
            return gpkit.ureg.Quantity(out, other)
        return out.tolist() if form == "list" else out
    scale = fac(other)/fac(unit)
    args = [fn] + ([unit] if unit else [])
    if outer:
        with gpkit.Vectorize(outer[0]):
            v = gpkit.VectorVariable(shape, "v", *args)
    else:
        v = gpkit.VectorVariable(shape, "v", *args)
    x = gpkit.Variable("x", *([unit] if unit else []))
    m = gpkit.Model(x, [x >= v*a])
    avals = None
    if rng.random() < .4:
        avals = [round(rng.uniform(.5, 3), 3) for _ in range(rng.randint(2, 3))]
        m.substitutions[a] = ("sweep", avals)
    elif rng.random() < .5:
        m.substitutions[a] = round(rng.uniform(.5, 3), 3)
    over = None
    if rng.random() < .3:        # one element fixed by hand
        over = (rng.choice(list(np.ndindex(*full))), round(rng.uniform(.5, 3), 3))
        m.substitutions[v[over[0]]] = over[1]
    what = "%s of shape %s under %s as %s in %s, power %s, a %s, by hand %s" % (
        unit, shape, outer, form, other, p, avals or m.substitutions[a], over)
    sol = m.solve(verbosity=0)
    rec.sig(what, w.tolist())
    for j, av in enumerate(avals or [m.substitutions[a]]):
        want = w*float(av)**p*scale
        if over:
            want[over[0]] = over[1]
        got = np.asarray(sol["variables"][v], float)
        one = got[j] if got.ndim > len(full) else got
        if one.shape != full or not np.allclose(one, want, rtol=1e-9, atol=0):
            raise Violation("stale-or-wrong-value", "%s: point %s is %s, its function gives %s"
                            % (what, j, one.tolist(), want.tolist()))
        cost = np.ravel(sol["cost"])[j]
        if abs(cost/(want.max()*float(av)) - 1) > 1e-5:
            raise Violation("stale-or-wrong-value", "%s: point %s costs %s, expected %s"
                            % (what, j, cost, want.max()*float(av)))
        rec.ev("matrix_values", want.size)


KINDS = {"matrix": (matrix, 150, 2000), "history": (history, 450, 6000), "evaluated": (evaluated, 110, 2000),
         "magnitudes": (magnitudes, 150, 2000)}
NEED = {"values_checked": 2000, "sensitivities_checked": 1500, "overrides": 50,
        "restorations": 12, "programs_solved_late": 4, "sweep_points": 80,
        "other_models": 40, "element_functions": 8, "evaluated_checked": 250,
        "swept_values_checked": 100, "opaque_solutions": 50,
        "element_sweep_points": 20, "magnitude_values": 1000, "matrix_values": 800, "solved_kept": 30}
