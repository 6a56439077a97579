"""C15: a sweep is the ordered collection of its individual solves."""
import itertools
import math
import numpy as np
from ..core import Skip, Violation
from .. import alg, models
from . import c10, c12

PROP = "C15"
RULE = ("a case is one model swept over one to three of its variables and solved point by point"
        " for reference; non-trivial when the sweep has at least two points, identified by model"
        " and grid")
TECH = "monitor of every entry of a sweep against separate fresh solves, and of the solver calls"
NOTE = "up to 3 swept variables, 30 points, models of up to 4 free variables"


class Setup:
    "A spec, what is swept, and what is linked"

    def __init__(self, rng, nsweeps=None, vec=True, spread=.4):
        self.rng = rng
        self.spec = models.random_gp(rng, nfree=rng.randint(1, 3), ncons=rng.randint(1, 3),
                                     nconst=rng.randint(1, 4), constvec=.5 if vec else 0,
                                     equalities=.2)
        spec = self.spec
        used = spec.used()
        cands = [k for k in spec.keys("consts") if k in used]
        if not cands:
            raise Skip("no constant used")
        self.base = {k: float(np.asarray(spec.consts[k[0]][0])[k[1]] if k[1] is not None
                              else spec.consts[k[0]][0]) for k in spec.keys("consts")}
        # a linked constant, computed from others
        self.linked = None
        if rng.random() < .35 and len(cands) > 1:
            scal = [k for k in cands if k[1] is None or rng.random() < .7]
            if scal:
                t = rng.choice(scal)
                others = [k for k in cands if k != t and k[0] != t[0]]
                if others:
                    o = rng.choice(others)
                    self.linked = (t, o, rng.choice([1, .5, -1, 2]))
        cands = [k for k in cands if not self.linked or k != self.linked[0]]
        nsweeps = nsweeps or rng.choice([1, 1, 1, 2, 2, 3])
        self.keys = rng.sample(cands, min(nsweeps, len(cands)))
        self.keys.sort(key=str)
        self.vals = {}
        self.freesweep = None
        for k in self.keys:
            n = rng.randint(2, 5) if len(self.keys) < 3 else rng.randint(1, 3)
            self.vals[k] = [float("%.6g" % (self.base[k]*math.exp(rng.uniform(-spread, spread))))
                            for _ in range(n)]
            if n > 2 and rng.random() < .3:     # ending where it began
                self.vals[k][-1] = self.vals[k][0]
        self.order = rng.random() < .5

    def link(self, m):
        if self.linked:
            t, o, x = self.linked
            ov = m.v_objs[o[0]] if o[1] is None else m.v_objs[o[0]][o[1]]
            scale = self.base[t]/self.base[o]**x
            m.substitutions[self.obj(m, t)] = \
                lambda c, k=ov.key, s=scale, x=x: s*c[k]**x

    def obj(self, m, k):
        return m.v_objs[k[0]] if k[1] is None else m.v_objs[k[0]][k[1]]

    def model(self, combo=None):
        m = self.spec.model()
        self.link(m)
        for k, v in (combo or {}).items():
            m.substitutions[self.obj(m, k)] = v
        return m

    def combos(self):
        return [dict(zip(self.keys, vs))
                for vs in itertools.product(*(self.vals[k] for k in self.keys))]

    def text(self):
        return "sweep %s linked %s of %s" % (self.vals, self.linked, self.spec.text())


def container(rng, vals, units=None):
    import gpkit
    form = rng.choice(["list", "tuple", "array", "array", "strided"] + ["qty"]*bool(units))
    if form == "list":
        return list(vals)
    if form == "tuple":
        return tuple(vals)
    if form == "strided":
        return np.repeat(np.array(vals), 2)[::2]
    if form == "qty":
        s = rng.choice(alg.BYDIM[alg.UNITS[units][1]])
        f = alg.UNITS[units][0]/alg.UNITS[s][0]
        q = [v*f*gpkit.ureg.Quantity(1, s) for v in vals]
        return rng.choice([q, gpkit.ureg.Quantity(np.array(vals)*f, s)])
    return np.array(vals)


def point(sol, i, n):
    "entry i of a sweep, as c12.snap does for a single solution"
    out = {("cost",): float(sol["cost"][i])}
    for which in ("freevariables", "constants", "sweepvariables"):
        for k, v in sol[which].items():
            v = np.asarray(v)
            tag = "constants" if which == "sweepvariables" else which
            shape = tuple(k.shape) if k.shape and not k.idx else ()
            if v.shape == (n,) + shape:
                v = v[i]
            elif which != "constants" or v.shape != shape:
                raise Violation("misaligned", "%s of %s has shape %s for %s points"
                                % (which, k, v.shape, n))
            if shape:
                for j in np.ndindex(*shape):
                    if not np.isnan(v[j]):
                        out[(tag, k.name, j)] = float(v[j])
            elif not np.isnan(v):
                out[(tag, k.name, tuple(k.idx) if k.idx else None)] = float(v)
    for k, v in sol["sensitivities"]["variables"].items():
        shape = tuple(k.shape) if k.shape and not k.idx else ()
        v = np.asarray(v)
        if v.shape != (n,) + shape:
            raise Violation("misaligned", "sensitivity of %s has shape %s for %s points"
                            % (k, v.shape, n))
        for j in (np.ndindex(*shape) if shape else [()]):
            if not np.isnan(v[(i,) + j]):
                out[("sens", k.name, j if shape else (tuple(k.idx) if k.idx else None))] = \
                    float(v[(i,) + j])
    return out


def clean(snap):
    return {k: v for k, v in snap.items() if not math.isnan(v)}


def rename(snap, prefix=""):
    return snap


def consens(sol, i=None):
    "constraint sensitivities by the constraint's text, as sorted lists"
    out = {}
    for c, v in sol["sensitivities"]["constraints"].items():
        v = np.asarray(v)
        v = float(v if i is None else v[i])
        if not math.isnan(v):
            out.setdefault(str(c), []).append(v)
    return {k: sorted(v) for k, v in out.items()}


def check_entry(rec, what, sol, i, n, ref, combo, tol=2e-5):
    "Monitor: entry i against a separate solve"
    got, want = clean(point(sol, i, n)), clean(c12.snap(ref))
    diff = c12.same_snap(got, want, tol)
    if diff:
        raise Violation("wrong-entry", "entry %i (%s) of %s differs from solving there: %s"
                        % (i, combo, what, diff))
    a, b = consens(sol, i), consens(ref)
    if set(a) != set(b) or any(
            len(a[c]) != len(b[c]) or any(abs(x-y) > 2e-4*max(1, abs(y)) for x, y in
                                          zip(a[c], b[c])) for c in a):
        raise Violation("wrong-entry", "entry %i (%s) of %s has constraint sensitivities %s"
                        " instead of %s" % (i, combo, what, a, b))
    ms = {k: float(np.asarray(v)[i]) for k, v in sol["sensitivities"]["models"].items()}
    for k, v in ref["sensitivities"]["models"].items():
        if not abs(ms[k] - v) <= 1e-3*max(1, abs(v)):
            raise Violation("wrong-entry", "entry %i of %s has model sensitivity %s"
                            " instead of %s" % (i, what, ms[k], v))
    for k, v in ref["sensitivities"]["cost"].items():
        got = np.asarray(sol["sensitivities"]["cost"][k])[i]
        if not abs(got - v) <= 2e-4*max(1, abs(v)):
            raise Violation("wrong-entry", "entry %i of %s has cost sensitivity %s=%s"
                            " instead of %s" % (i, what, k, got, v))
    rec.ev("entries_checked")
    # through the indexed view, too
    at = sol.atindex(i)
    got = {("cost",): float(at["cost"])}
    for which in ("freevariables", "constants"):
        for k, vs in c10.flatten(at[which]).items():
            got[(which,) + k] = vs[0]
    for k, vs in c10.flatten(at["sweepvariables"]).items():
        got[("constants",) + k] = vs[0]
    sub = {k: v for k, v in want.items() if k[0] != "sens"}
    diff = c12.same_snap(clean(got), sub, tol)
    if diff:
        raise Violation("wrong-atindex", "atindex(%i) (%s) of %s differs from solving there: %s"
                        % (i, combo, what, diff))
    rec.ev("atindex_checked")


def read_combo(sol, i, keys, m, setup):
    out = {}
    for k in keys:
        o = setup.obj(m, k)
        vk = o.key.veckey or o.key
        v = np.asarray(sol["sweepvariables"][vk])[i]
        out[k] = float(v if k[1] is None else v[k[1]])
    return out


def match(rec, what, sol, m, setup, expected):
    "Monitor: every expected combination exactly once; returns entry -> combination"
    n = len(sol)
    if n != len(expected) or np.shape(sol["cost"]) != (len(expected),) and len(expected) > 1:
        raise Violation("wrong-count", "%s: %s entries for %s points"
                        % (what, n, len(expected)))
    todo = list(expected)
    order = []
    for i in range(n):
        got = read_combo(sol, i, setup.keys, m, setup)
        hit = [c for c in todo if all(abs(c[k]-got[k]) <= 1e-9*abs(c[k]) for k in c)]
        if not hit:
            raise Violation("wrong-points", "%s: entry %i is at %s; left are %s"
                            % (what, i, got, todo))
        todo.remove(hit[0])
        order.append(hit[0])
    rec.ev("points_matched", n)
    return order


def before_state(m):
    return {k: (np.array(v, dtype=object).tolist() if not callable(v) else v)
            for k, v in dict.items(m.substitutions)}


def same_state(a, b):
    if set(a) != set(b):
        return "keys %s against %s" % (sorted(map(str, a)), sorted(map(str, b)))
    for k in a:
        x, y = a[k], b[k]
        if x is y or repr(x) == repr(y):
            continue
        try:
            if np.allclose(np.array(x, float), np.array(y, float), rtol=1e-12, equal_nan=True):
                continue
        except (TypeError, ValueError):
            pass
        return "%s: %r against %r" % (k, x, y)
    return None


def solver_counter():
    calls = []

    def counted(**kw):
        calls.append(np.array(kw["c"]))
        return c12.honest(**kw)
    return counted, calls


def grid(rng, rec):
    "Grid sweeps through substitutions"
    from gpkit import exceptions as ex
    setup = Setup(rng)
    what = setup.text()
    m = setup.model()
    for k in rng.sample(setup.keys, len(setup.keys)):
        o = setup.obj(m, k)
        vals = container(rng, setup.vals[k], setup.spec.consts[k[0]][1])
        if isinstance(vals, list) and k[1] is not None and hasattr(vals[0], "units"):
            vals = setup.vals[k]
        m.substitutions[o if rng.random() < .7 else o.key] = ("sweep", vals)
    state = before_state(m)
    solver, calls = solver_counter()
    combos = setup.combos()
    refs = []
    for c in combos:
        try:
            refs.append(setup.model(c).solve(c12.honest, verbosity=0))
        except ex.Infeasible:
            refs.append(None)
    ok = [c for c, r in zip(combos, refs) if r is not None]
    skip = len(ok) < len(combos) or rng.random() < .2
    if not ok:
        raise Skip("nothing feasible")
    if len(ok) < len(combos):
        rec.ev("partly_infeasible")
        for r in range(1):
            try:
                m.solve(solver, verbosity=rng.choice([0, 1, 2]))
            except RuntimeWarning as e:
                if not isinstance(e.__cause__, ex.Infeasible):
                    raise Violation("wrong-error", "%s: cause %r" % (what, e.__cause__))
                rec.ev("failures_raised")
            else:
                raise Violation("silent-failure", "%s solved, though infeasible points" % what)
        diff = same_state(before_state(m), state)
        if diff:
            raise Violation("constants-changed", "%s, failing: %s" % (what, diff))
        calls.clear()
    sol = m.solve(solver, verbosity=rng.choice([0, 0, 1, 2]), skipsweepfailures=skip)
    if len(combos) > 1:
        rec.sig(what)
    if len(calls) > len(combos) or len(calls) < len(ok):
        raise Violation("wrong-count", "%s: %i solver calls for %i points"
                        % (what, len(calls), len(combos)))
    rec.ev("solver_calls", len(calls))
    if len(ok) == 1 and len(setup.keys) >= 1:
        raise Skip("a single point")     # arrays of length one are collapsed
    order = match(rec, what, sol, m, setup, ok)
    for i, c in enumerate(order):
        ref = [r for cc, r in zip(combos, refs) if cc is c or cc == c][0]
        check_entry(rec, what, sol, i, len(ok), ref, c)
    diff = same_state(before_state(m), state)
    if diff:
        raise Violation("constants-changed", "%s: %s" % (what, diff))
    rec.ev("grid_%id" % len(setup.keys))
    if setup.linked:
        rec.ev("linked_sweeps")
    rec.sample("%s points %s" % (len(ok), what[:300]))


def wholevec(rng, rec):
    "Whole vectors swept element by element over ragged or square lists"
    import gpkit
    n = rng.randint(2, 3)
    lists = [[round(rng.uniform(.5, 3), 3) for _ in range(rng.randint(1, 3))] for _ in range(n)]
    square = rng.random() < .5
    if square:
        k = rng.choice([q for q in (2, 3, 4) if q != n])
        lists = [[round(rng.uniform(.5, 3), 3) for _ in range(k)] for _ in range(n)]
    fixed = [rng.random() < .3 for _ in range(n)] if not square else [False]*n
    free = [not square and not f and rng.random() < .25 for f in fixed]
    w = [round(rng.uniform(.5, 2), 3) for _ in range(n)]
    lo = round(rng.uniform(.6, 1.5), 3)

    def make():
        x = gpkit.Variable("x")
        y = gpkit.VectorVariable(n, "y")
        b = gpkit.VectorVariable(2, "b", [1.3, 2.1])
        return y, gpkit.Model(x*b[0]*b[1], [x >= sum(wi*yi for wi, yi in zip(w, y)), x >= b[0],
                                            y >= lo/3, x >= y.prod()])
    y, m = make()
    if square:
        # documented as one list of values per element
        m.substitutions[y] = ("sweep", np.array(lists).T if rng.random() < .5
                              else [list(r) for r in zip(*lists)])
    elif not any(fixed) and not any(free) and len({len(q) for q in lists}) > 1 \
            and rng.random() < .5:
        m.substitutions[y] = ("sweep", lists)
        rec.ev("ragged")
    elif not any(free) and not all(fixed) and rng.random() < .5:
        # documented: a list of values and sweeps, one per element
        m.substitutions[y] = [lists[i][0] if fixed[i] else ("sweep", lists[i])
                              for i in range(n)]
        rec.ev("element_lists")
    else:
        idx = list(range(n))
        rng.shuffle(idx)
        for i in idx:
            if free[i]:
                continue
            m.substitutions[y[i]] = lists[i][0] if fixed[i] else ("sweep", lists[i])
        if all(f or g for f, g in zip(fixed, free)):
            raise Skip("nothing swept")
    what = "y over %s, fixed %s, free %s, weights %s, lo %s, square %s" % (
        lists, fixed, free, w, lo, square)
    axes = [[None] if free[i] else lists[i][:1] if fixed[i] else lists[i] for i in range(n)]
    combos = list(itertools.product(*axes))
    if len(combos) < 2:
        raise Skip("a single point")
    refs, ok = {}, []
    for c in combos:
        y2, m2 = make()
        for i in range(n):
            if c[i] is not None:
                m2.substitutions[y2[i]] = c[i]
        try:
            refs[c] = m2.solve(verbosity=0)
            ok.append(c)
        except gpkit.exceptions.Infeasible:
            pass
    if len(ok) < 2:
        raise Skip("a single point")
    sol = m.solve(verbosity=0, skipsweepfailures=True)
    if len(sol) != len(ok):
        raise Violation("wrong-count", "%s: %s entries for %s points" % (what, len(sol), len(ok)))
    rec.sig(what)
    todo = list(ok)
    for i in range(len(ok)):
        yv = np.asarray(sol["variables"][y.key])[i]
        hit = [c for c in todo if all(a is None or abs(a-b) < 1e-9 for a, b in zip(c, yv))]
        if not hit:
            raise Violation("wrong-points", "%s: entry %i is at %s" % (what, i, yv))
        todo.remove(hit[0])
        ref = refs[hit[0]]
        for k, tol in (("cost", 1e-5),):
            if abs(sol[k][i]/ref[k]-1) > tol:
                raise Violation("wrong-entry", "%s: entry %i (%s) has %s %s instead of %s"
                                % (what, i, hit[0], k, sol[k][i], ref[k]))
        at = sol.atindex(i)
        for k in ref["variables"]:
            for got in (at["variables"][k], np.asarray(sol["variables"][k])[i]):
                if not np.allclose(got, ref["variables"][k], rtol=1e-4):
                    raise Violation("wrong-entry", "%s: entry %i (%s) has %s=%s instead of %s"
                                    % (what, i, hit[0], k, got, ref["variables"][k]))
        for k in ref["constants"]:
            got = at["constants"][k] if k in at["constants"] else at["sweepvariables"][k]
            if not np.allclose(got, ref["constants"][k], rtol=1e-9, equal_nan=True):
                raise Violation("wrong-atindex", "%s: atindex(%i) has %s=%s instead of %s"
                                % (what, i, k, got, ref["constants"][k]))
        sens = np.asarray(sol["sensitivities"]["variables"][y.key])[i]
        want = np.asarray(ref["sensitivities"]["variables"][y.key])
        if not np.allclose(sens, want, atol=1e-3):
            raise Violation("wrong-entry", "%s: entry %i (%s) has sensitivities %s instead of %s"
                            % (what, i, hit[0], sens, want))
        rec.ev("vector_entries")


def presence(rng, rec):
    "Constraints, terms and warnings that exist at some points only"
    import gpkit
    from gpkit.constraints.tight import Tight
    from gpkit.constraints.loose import Loose
    c = [round(rng.uniform(.3, 3), 3) for _ in range(6)]
    pick = rng.random()
    tight = rng.random() < .4

    def make():
        x, y = gpkit.Variable("x"), gpkit.Variable("y")
        a, b = gpkit.Variable("a"), gpkit.Variable("b", c[0])
        z = gpkit.VectorVariable(2, "z")
        cons = [y >= a*x + c[1], x >= c[2], x <= 40*c[3]*b, 400 >= b*a*x**.2*y**.01]
        cost = y*x
        if pick < .3:
            cons += [z >= a*x + c[4], z[0] >= b]
            cost = cost*z.prod()
        elif pick < .6:
            cost = cost + a*c[4]*x*b
        elif pick < .7:
            cons += [c[5]*10 >= a*b]     # a constant constraint
        if tight:
            cons += [Tight([y >= c[4] + x*b]),
                     Loose([x <= 2*c[3]*b])]
        return a, gpkit.Model(cost, cons)
    vals = [0.0] + [round(rng.uniform(.1, 4), 3) for _ in range(rng.randint(1, 4))]
    if rng.random() < .4:
        vals.insert(1, 0)
    rng.shuffle(vals)
    vals = list(dict.fromkeys(vals))
    what = "a over %s, c %s, pick %.2f, tight %s" % (vals, c, pick, tight)
    refs = []
    for v in vals:
        a, m = make()
        m.substitutions[a] = v
        try:
            refs.append((v, m.solve(verbosity=0)))
        except gpkit.exceptions.Infeasible:
            rec.ev("infeasible_point")
    a, m = make()
    if len(refs) < 2:
        raise Skip("a single point")
    m.substitutions[a] = ("sweep", vals)
    sol = m.solve(verbosity=0, skipsweepfailures=True)
    rec.sig(what)
    if len(sol) != len(refs):
        raise Violation("wrong-count", "%s: %s entries" % (what, len(sol)))
    for i, (v, ref) in enumerate(refs):
        if float(sol["sweepvariables"]["a"][i]) != v:
            raise Violation("wrong-points", "%s: %s" % (what, sol["sweepvariables"]["a"]))
        check_entry(rec, what, sol, i, len(refs), ref, v)
        # warnings of this point
        for w, msgs in ref.get("warnings", {}).items():
            got = sorted(str(q[0]) for q in sol["warnings"][w][i])
            if got != sorted(str(q[0]) for q in msgs):
                raise Violation("wrong-warnings", "%s: entry %i warns %s instead of %s"
                                % (what, i, got, msgs))
            rec.ev("warnings_checked")
        for w in sol.get("warnings", {}):
            if w not in ref.get("warnings", {}) and len(sol["warnings"][w][i]):
                raise Violation("wrong-warnings", "%s: entry %i warns %s"
                                % (what, i, sol["warnings"][w][i]))
    sol.table()
    sol.summary()
    rec.ev("presence_sweeps")


def methods(rng, rec):
    "Model.sweep: one sweep per variable, and the constants afterwards"
    import gpkit
    from gpkit import exceptions as ex
    setup = Setup(rng)
    m = setup.model()
    what = "Model.sweep " + setup.text()
    state = before_state(m)
    arg = {}
    for k in setup.keys:
        o = setup.obj(m, k)
        arg[rng.choice([o, o.key])] = container(rng, setup.vals[k])
    extra = None
    if rng.random() < .4:        # a free variable too
        fk = rng.choice(setup.spec.keys())
        base = setup.spec.hidden[fk]/alg.decl_factor(setup.spec.free[fk[0]][0])[0]
        setup.vals[fk] = [float("%.6g" % (base*math.exp(rng.uniform(-.1, .1))))
                          for _ in range(rng.randint(2, 4))]
        extra = fk
        arg[setup.obj(m, fk)] = setup.vals[fk]
    single = {k: [{k: v} for v in setup.vals[k]] for k in setup.keys + ([extra] if extra else [])}
    feas = {}
    for k, cs in single.items():
        for c in cs:
            try:
                feas[k, c[k]] = setup.model(c).solve(c12.honest, verbosity=0)
            except ex.Infeasible:
                feas[k, c[k]] = None
    allok = all(r is not None for r in feas.values())
    skip = not allok and rng.random() < .7
    fail = rng.random() < .25 and allok
    try:
        if fail:
            def solver(**kw):
                raise rng.choice([ValueError("x"), ex.PrimalInfeasible("y"),
                                  KeyboardInterrupt()])
        else:
            solver = c12.honest
        sols = m.sweep(arg, solver=solver, verbosity=0, skipsweepfailures=skip)
    except (RuntimeWarning, KeyboardInterrupt):
        if allok and not fail:
            raise
        rec.ev("failed_sweeps")
        sols = None
    else:
        if fail or not allok and not skip:
            raise Violation("silent-failure", what + " returned although points fail")
    diff = same_state(before_state(m), state)
    if diff:
        raise Violation("constants-changed", "%s: %s" % (what, diff))
    rec.ev("constants_restored")
    rec.sig(what)
    ref = setup.model().solve(c12.honest, verbosity=0)
    diff = c12.same_snap(clean(c12.snap(m.solve(c12.honest, verbosity=0))), clean(c12.snap(ref)))
    if diff:
        raise Violation("model-changed", "%s: afterwards it solves differently: %s"
                        % (what, diff))
    if sols is None:
        return
    sols = sols if isinstance(sols, list) else [sols]
    if len(sols) != len(arg):
        raise Violation("wrong-count", "%s: %s solutions" % (what, len(sols)))
    for sol, k in zip(sols, single):
        ok = [c for c in single[k] if feas[k, c[k]] is not None]
        if len(ok) < 2:
            continue
        if len(sol) != len(ok):
            raise Violation("wrong-count", "%s: %s entries of %s" % (what, len(sol), ok))
        for i, c in enumerate(ok):
            check_entry(rec, what, sol, i, len(ok), feas[k, c[k]], c)
    rec.ev("method_sweeps")


def zeroconst(rng, rec):
    "Constants that are zero, or vectors, before Model.sweep"
    import gpkit
    x = gpkit.Variable("x")
    z = gpkit.Variable("z", 0)
    n = rng.randint(2, 3)
    v = gpkit.VectorVariable(n, "v", [round(rng.uniform(.5, 2), 3) for _ in range(n)])
    c = round(rng.uniform(.5, 2), 3)
    m = gpkit.Model(x, [x >= z + c, x >= v])
    state = before_state(m)
    which = rng.choice(["z", "v", "elem", "both"])
    arg = {"z": {z: [1.0, 2.0]}, "v": {v: [[1.0, 2.0]]*(n)}, "elem": {v[0]: [1, 2, 5.5]},
           "both": {z: [0, 3], v[n-1]: [4.0, 5.0]}}[which]
    if which == "v":
        arg = {v: [[1.0]*n, [2.0]*n] if n != 2 else [[1.0]*n, [2.0]*n, [3.0]*n]}
    fail = rng.random() < .3

    def bad(**kw):
        raise ValueError("no")
    what = "%s of %s, fail %s" % (arg, state, fail)
    try:
        m.sweep(arg, solver=bad if fail else None, verbosity=0)
    except RuntimeWarning:
        if not fail:
            raise
    diff = same_state(before_state(m), state)
    if diff:
        raise Violation("constants-changed", "%s: %s" % (what, diff))
    vs = [float(q) for q in np.asarray(m.substitutions[v])]
    sol = m.solve(verbosity=0)
    if abs(sol["cost"] - max([c] + vs)) > 1e-5:
        raise Violation("model-changed", "%s: then costs %s" % (what, sol["cost"]))
    rec.sig(what)
    rec.ev("constants_restored")


def local(rng, rec):
    "Sweeps of signomial programs, and of models that are one only at some points"
    import gpkit
    c = [round(rng.uniform(.5, 2), 3) for _ in range(4)]

    def make():
        x, y = gpkit.Variable("x"), gpkit.Variable("y")
        k = gpkit.Variable("k")
        with gpkit.SignomialsEnabled():
            return k, gpkit.Model(c[0]*x + c[1]*y, [
                x >= k - c[2]*y, y <= .8, x >= .05*c[3], y >= .01])
    vals = sorted({round(rng.uniform(1.3, 4), 3) for _ in range(rng.randint(2, 4))})
    rng.shuffle(vals)
    refs = []
    opts = {"iteration_limit": 200, "verbosity": 0}
    for v in vals:
        k, m = make()
        m.substitutions[k] = v
        refs.append(m.localsolve(**opts))
    k, m = make()
    how = rng.random() < .5
    what = "local sweep of k over %s, c %s" % (vals, c)
    if how:
        try:
            sol = m.sweep({k: vals}, verbosity=0)
        except RuntimeWarning as e:
            if "Unsolved after" in str(e.__cause__):
                raise Skip("slow convergence")
            raise
    else:
        m.substitutions[k] = ("sweep", vals)
        sol = m.localsolve(**opts)
    if len(vals) < 2:
        raise Skip("a single point")
    rec.sig(what)
    for i, (v, ref) in enumerate(zip(vals, refs)):
        if float(sol["sweepvariables"][k][i]) != v:
            raise Violation("wrong-points", "%s: %s" % (what, sol["sweepvariables"]))
        if abs(sol["cost"][i]/ref["cost"]-1) > 1e-5:
            raise Violation("wrong-entry", "%s: entry %i costs %s instead of %s"
                            % (what, i, sol["cost"][i], ref["cost"]))
        for n in ("x", "y"):
            if abs(sol["freevariables"][n][i]/ref["freevariables"][n]-1) > 1e-3:
                raise Violation("wrong-entry", "%s: entry %i has %s=%s instead of %s" % (
                    what, i, n, sol["freevariables"][n][i], ref["freevariables"][n]))
        rec.ev("local_entries")
    if how and k in m.substitutions:
        raise Violation("constants-changed", "%s: k is still there" % what)


def declared(rng, rec):
    "Sweeps given where the variable is declared"
    import gpkit
    n = rng.choice([1, 1, 2])
    unit = rng.choice([None, "m", "ft"])
    lists = [[round(rng.uniform(.5, 4), 3) for _ in range(rng.randint(2, 4))] for _ in range(n)]
    c = [round(rng.uniform(.5, 2), 3) for _ in range(4)]
    form = rng.choice(["list", "tuple", "array", "pair", "keyword", "range"])
    if form == "range":
        lists = [list(range(rng.randint(1, 2), rng.randint(4, 6))) for _ in range(n)]
        if rng.random() < .5:
            lists = [q[::-1] for q in lists]

    def make(point=None):
        ks = []
        for i, q in enumerate(lists):
            arg = {"list": list, "tuple": tuple, "array": np.array, "pair": lambda q: ("sweep", q),
                   "keyword": lambda q: ("sweep", q),
                   "range": lambda q: range(q[0], q[-1] + (1 if q[-1] > q[0] else -1),
                                            1 if q[-1] > q[0] else -1)}[form](q)
            if point:
                arg = point[i]
            u = [unit] if unit else []
            if form == "keyword":
                ks.append(gpkit.Variable("k%i" % i, *u, value=arg))
            else:
                ks.append(gpkit.Variable("k%i" % i, arg, *u))
        x = gpkit.Variable("x", *([unit] if unit else []))
        y = gpkit.Variable("y")
        return ks, gpkit.Model(x*y**c[3], [x >= c[0]*ks[0] + c[1]*ks[-1]/y, y >= c[2]])
    ks, m = make()
    what = "declared as %s: %s in %s, c %s" % (form, lists, unit, c)
    sol = m.solve(verbosity=0)
    rec.sig(what)
    combos = list(itertools.product(*lists))
    if len(sol) != len(combos):
        raise Violation("wrong-count", "%s: %s entries for %s points"
                        % (what, len(sol), len(combos)))
    todo = list(combos)
    for i in range(len(combos)):
        at = tuple(float(np.asarray(sol["sweepvariables"][k])[i]) for k in ks)
        if n == 1 and at[0] != combos[i][0]:
            raise Violation("wrong-points", "%s: entry %s is at %s" % (what, i, at))
        if at not in todo:
            raise Violation("wrong-points", "%s: entry %s is at %s" % (what, i, at))
        todo.remove(at)
        ref = make(at)[1].solve(verbosity=0)
        for v in ("x", "y"):
            if abs(sol["freevariables"][v][i]/ref["freevariables"][v]-1) > 1e-4:
                raise Violation("wrong-entry", "%s: entry %s has %s=%s instead of %s" % (
                    what, i, v, sol["freevariables"][v][i], ref["freevariables"][v]))
        if abs(sol["cost"][i]/ref["cost"]-1) > 1e-5:
            raise Violation("wrong-entry", "%s: entry %s costs %s instead of %s"
                            % (what, i, sol["cost"][i], ref["cost"]))
        rec.ev("declared_entries")


KINDS = {"declared": (declared, 60, 1000), "grid": (grid, 260, 4000), "wholevec": (wholevec, 150, 2000),
         "presence": (presence, 120, 1500), "methods": (methods, 160, 2500),
         "zeroconst": (zeroconst, 80, 600), "local": (local, 20, 200)}
NEED = {"declared_entries": 100, "element_lists": 5, "entries_checked": 1000, "atindex_checked": 1000, "partly_infeasible": 5,
        "failures_raised": 5, "constants_restored": 100, "vector_entries": 300,
        "presence_sweeps": 50, "linked_sweeps": 20, "grid_2d": 30, "local_entries": 20}
