"""C22: however a solution is asked, it answers with the same values.

The raw arrays stored in the solution (read with dict's own methods) are split into points
and elements by the harness; every way of asking -- by key, variable, element, slice, name,
expression, array of expressions, point -- must return those values, or what the expression is
worth at them, with the right units.
"""
import math
import numpy as np
from ..core import Violation, Skip
from .. import alg, models
from . import c14, c15

PROP = "C22"
RULE = ("a case is one solved or swept model (one or several, possibly nested instances of "
        "classes, vectors, units) and a set of queries; non-trivial when expressions were "
        "evaluated, identified by model and number of points")
TECH = ("monitors on query results against raw stored values split by the harness and "
        "expressions evaluated by plain arithmetic; snapshot of the solution around queries")
NOTE = "expressions of depth up to 3; autosweep solutions are C16's"
CPU_LIMIT = 60
QUICK_S = 100


class Under(dict):
    "stored values of one dictionary of the solution, by varkey element"


def raw(kd, n):
    """{(varkey or element key): [value at each point]} of a KeyDict, from raw storage"""
    out = {}
    for k in dict.keys(kd):
        v = np.asarray(dict.__getitem__(kd, k))
        shape = tuple(k.shape) if k.shape and not k.idx else ()
        if n > 1 and v.shape == (n,) + shape:
            pts = [v[i] for i in range(n)]
        elif v.shape == shape:
            pts = [v]*n
        elif n == 1 and v.shape == (1,) + shape:
            pts = [v[0]]
        else:
            raise Violation("misaligned", "%s has shape %s for %s points" % (k, v.shape, n))
        for j in (np.ndindex(*shape) if shape else [()]):
            out[(k, j if shape else None)] = [float(p[j]) for p in pts]
    return out


def values(res):
    "(shape, [Val]) of anything a query returns"
    if hasattr(res, "magnitude"):
        m = np.asarray(res.magnitude)
        if m.dtype == object:
            parts = [values(e*1) for e in m.flat]
            f, d = alg.unit_factor(res.units)
            return m.shape, [alg.Val(p[1][0].v*f, None, alg.dimadd(p[1][0].d, d))
                             for p in parts]
        f, d = alg.unit_factor(res.units)
        return m.shape, [alg.Val(float(x)*f, None, d) for x in m.flat]
    if hasattr(res, "exps"):
        if len(res.exps) > 1 or (len(res.exps) == 1 and dict(res.exps[0])):
            raise Violation("still-symbolic", "%r" % res)
        f, d = alg.unit_factor(res.units)
        c = float(getattr(res.cs, "magnitude", res.cs)[0]) if len(res.exps) else 0.0
        return (), [alg.Val(c*f, None, d)]
    if isinstance(res, (np.ndarray, list)):
        arr = np.asarray(res, dtype=object) if isinstance(res, list) else res
        out, shape = [], None
        for e in arr.flat:
            s, v = values(e)
            if shape not in (None, s):
                raise Violation("ragged", repr(res))
            shape = s
            out += v
        return arr.shape + (shape or ()), out
    return (), [alg.Val(float(res))]


class Case:
    "a solution, its variables and what is stored for them"

    def __init__(self, sol, objs, units, what, rec, rng):
        self.sol, self.what, self.rec, self.rng = sol, what, rec, rng
        self.n = len(sol)
        self.raw = raw(sol["variables"], self.n)
        self.objs = {}     # id -> element Variable
        self.unit, self.vals = {}, {}
        self.whole = []    # (object, unit, element ids)
        for name, o in objs.items():
            u = units[name]
            f = alg.decl_factor(u)[0]
            if hasattr(o, "shape"):
                ids = []
                for j in np.ndindex(*o.shape):
                    vk = o[j].key
                    pts = self.raw.get((vk.veckey, j))
                    if pts is None or any(math.isnan(p) for p in pts):
                        ids = None
                        continue
                    i = "%s|%s" % (name, ",".join(map(str, j)))
                    self.objs[i], self.unit[i] = o[j], u
                    self.vals[i] = [p*f for p in pts]
                    if ids is not None:
                        ids.append(i)
                if ids:
                    self.whole.append((o, u, ids))
            else:
                pts = self.raw.get((o.key, None))
                if pts is None:
                    continue
                i = name
                self.objs[i], self.unit[i], self.vals[i] = o, u, [p*f for p in pts]
                self.whole.append((o, u, [i]))
        self.world = alg.World(rng, 0, names=["-"])
        self.world.decls, self.world.objs = dict(self.unit), dict(self.objs)

    def points(self):
        for p in range(self.n):
            yield alg.dimmed({(i, None): v[p] for i, v in self.vals.items()}, self.world)

    def expect(self, got, shape, want, how, rel=1e-9):
        """got: result; want: list over points of lists of Val"""
        s, vals = values(got)
        full = ((self.n,) if self.n > 1 else ()) + shape
        if s != full:
            raise Violation("wrong-shape", "%s: %s has shape %s instead of %s"
                            % (self.what, how, s, full))
        flat = [v for w in want for v in w]
        for a, b in zip(vals, flat):
            if not alg.same(a, b, rel):
                raise Violation("wrong-value", "%s: %s is %s, expected %s"
                                % (self.what, how, vals, flat))
        self.rec.ev("queries")


def snapshot(sol):
    "everything stored, independent of gpkit's own access methods"
    out = {}

    def walk(d, path):
        for k in dict.keys(d):
            v = dict.__getitem__(d, k)
            if isinstance(v, dict):
                walk(v, path + (str(k),))
            elif path[-1:] == ("warnings",) or path[:1] == ("warnings",):
                out[path + (str(k),)] = repr(v)
            else:
                a = np.asarray(v)
                out[path + (str(k), id(k) if hasattr(k, "key") else 0)] = (
                    a.shape, a.dtype.kind, repr(a.tolist()))
    walk(sol, ())
    return out


def unitsame(got, obj, how):
    "a variable's value comes in the variable's own units"
    import gpkit
    u = obj.units if not hasattr(obj, "shape") else obj.key.units
    gu = getattr(got, "units", None)
    want = u if u is not None else gpkit.ureg.dimensionless
    a = alg.unit_factor(want if hasattr(want, "units") or True else want)
    b = alg.unit_factor(gu)
    if not hasattr(got, "magnitude") or a[1] != b[1] or abs(a[0]/b[0]-1) > 1e-12:
        raise Violation("wrong-units", "%s came as %r, not in %s" % (how, got, u))


def names_of(vk):
    full = ".".join([n for n, _ in (vk.lineage or ())] + [vk.name])
    return {vk.name, full}


def ask(case, signed=True, heavy=True):
    "All kinds of queries about one solution"
    import gpkit
    sol, rng, rec, n = case.sol, case.rng, case.rec, case.n
    before, text0 = snapshot(sol), sol.table()
    vecmap = {}
    # ---- whole variables and elements
    for o, u, ids in case.whole:
        shape = tuple(o.shape) if hasattr(o, "shape") else ()
        f, d = alg.decl_factor(u)
        want = [[alg.Val(case.vals[i][p], None, d) for i in ids] for p in range(n)]
        plain = [[alg.Val(case.vals[i][p]/f) for i in ids] for p in range(n)]
        key = o.key
        for how, got in (("sol(%s)" % o, sol(o)), ("sol(key of %s)" % o, sol(key)),
                         ("subinto(%s)" % o, sol.subinto(o)),
                         ("variables(%s)" % o, sol["variables"](o))):
            unitsame(got, o, how)
            case.expect(got, shape, want, how)
        case.expect(sol["variables"][o], shape, plain, "variables[%s]" % o)
        case.expect(sol["variables"][key], shape, plain, "variables[key %s]" % o)
        case.expect(sol["variables"].get(o, 7), shape, plain, "variables.get(%s)" % o)
        if o not in sol["variables"] or key not in sol["variables"]:
            raise Violation("not-in", "%s: %s not in variables" % (case.what, o))
        for nm in names_of(key):
            vecmap.setdefault(nm, []).append((o, shape, want, plain))
        if shape:
            for j, i in zip(np.ndindex(*shape), ids):
                e = o[j]
                w1 = [[alg.Val(case.vals[i][p], None, d)] for p in range(n)]
                got = sol(e) if rng.random() < .5 else sol(e.key)
                unitsame(got, e, "sol(%s)" % e)
                case.expect(got, (), w1, "sol(%s)" % e)
                case.expect(sol["variables"][e], (),
                            [[alg.Val(case.vals[i][p]/f)] for p in range(n)],
                            "variables[%s]" % e)
            cut = rng.choice(["first", "rev", "pick", "T", "row", "flat", "whole1"])
            idx = np.arange(len(ids)).reshape(shape)
            arr, ix = {"first": (o[:1], idx[:1]), "rev": (o[::-1], idx[::-1]),
                       "pick": (o[[shape[0]-1, 0]], idx[[shape[0]-1, 0]]),
                       "T": (o.T, idx.T), "flat": (o.reshape(-1), idx.reshape(-1)),
                       "row": (o[-1:], idx[-1:]), "whole1": (o*1, idx)}[cut]
            case.expect(sol(arr), ix.shape, [[w[i] for i in ix.flat] for w in want],
                        "sol(%s of %s)" % (cut, o))
            rec.ev("slices")
    # ---- by name
    for nm, found in vecmap.items():
        allk = {k.veckey or k for k in dict.keys(sol["variables"]) if nm in names_of(k)}
        keys = {o.key for o, *_ in found}
        if allk != keys:
            continue     # some of that name are not fully there
        got, gq = sol["variables"][nm], sol(nm)
        if nm not in sol["variables"]:
            raise Violation("not-in", "%s: %r not in variables" % (case.what, nm))
        if len(found) == 1:
            o, shape, want, plain = found[0]
            case.expect(got, shape, plain, "variables[%r]" % nm)
            unitsame(gq, o, "sol(%r)" % nm)
            case.expect(gq, shape, want, "sol(%r)" % nm)
            rec.ev("names")
        else:
            if not isinstance(got, dict) or set(got) != keys or set(gq) != keys:
                raise Violation("wrong-names", "%s: %r gives %s" % (case.what, nm, got))
            for o, shape, want, plain in found:
                case.expect(got[o.key], shape, plain, "variables[%r][%s]" % (nm, o))
                unitsame(gq[o.key], o, "sol(%r)[%s]" % (nm, o))
                case.expect(gq[o.key], shape, want, "sol(%r)[%s]" % (nm, o))
            rec.ev("shared_names")
    for bad in ("no such name", gpkit.Variable("nosuch")):
        if bad in sol["variables"]:
            raise Violation("phantom", "%s: %r in variables" % (case.what, bad))
        try:
            got = sol["variables"][bad]
            raise Violation("phantom", "%s: variables[%r] = %r" % (case.what, bad, got))
        except KeyError:
            pass
        if sol["variables"].get(bad, 7) != 7:
            raise Violation("phantom", "%s: get(%r)" % (case.what, bad))
    try:
        raise Violation("phantom", "%s: %r" % (case.what, sol("no such name")))
    except ValueError:
        pass
    # ---- the same value in every dictionary
    which = {}
    for d in ("freevariables", "constants", "sweepvariables"):
        if d not in sol:
            continue
        part = raw(sol[d], n)
        for k, pts in part.items():
            if any(math.isnan(p) for p in pts):
                continue
            if k in which:
                raise Violation("in-two-kinds", "%s: %s is in %s and %s"
                                % (case.what, k, which[k], d))
            which[k] = d
            if pts != case.raw.get(k):
                raise Violation("kinds-differ", "%s: %s is %s in %s, %s in variables"
                                % (case.what, k, pts, d, case.raw.get(k)))
            if k[1] is None and rng.random() < .3:
                got = np.ravel(sol[d][k[0]])
                if list(got) != (pts if got.size == n else pts[:1]):
                    raise Violation("wrong-value", "%s: %s[%s] %s" % (case.what, d, k, got))
    lost = {k for k in case.raw if k not in which and not any(map(math.isnan, case.raw[k]))}
    if lost:
        raise Violation("in-no-kind", "%s: %s" % (case.what, lost))
    rec.ev("kinds_checked", len(which))
    # ---- expressions
    pts = list(case.points())
    with gpkit.SignomialsEnabled():
        for _ in range(4 if heavy else 2):
            tree, d = alg.gen(rng, case.world, depth=rng.randint(1, 3),
                              signed=signed and rng.random() < .5)
            expr = alg.build(tree, case.world.objs)
            want = [[alg.evaluate(tree, p)] for p in pts]
            if not all(math.isfinite(w[0].v) and abs(w[0].v) < 1e250 for w in want):
                continue
            if not hasattr(expr, "hmap"):
                continue     # merely a number
            how = "%s of %s" % (rng.choice(["call"]), alg.show(tree))
            got = sol(expr)
            # cancellation: compare relative to the magnitudes involved
            s, vals = values(got)
            if s != ((n,) if n > 1 else ()):
                raise Violation("wrong-shape", "%s: %s is %r" % (case.what, how, got))
            for a, (b,) in zip(vals, want):
                if not alg.same(a, b, 1e-8):
                    raise Violation("wrong-value", "%s: %s is %s, expected %s"
                                    % (case.what, how, vals, want))
            s2, vals2 = values(sol.subinto(expr))
            if [v.v for v in vals2] != [v.v for v in vals]:
                raise Violation("call-differs", "%s: %s: %s and %s" % (case.what, how, vals,
                                                                      vals2))
            if n == 1:
                v3 = values(expr.sub(sol["variables"]))[1][0]
            else:
                i = rng.randrange(n)
                v3 = values(sol.atindex(i)(expr))[1][0]
                vals = [vals[i]]
            if abs(v3.v-vals[0].v) > 1e-12*abs(v3.v) or v3.d != vals[0].d:
                raise Violation("call-differs", "%s: %s at one point: %s and %s"
                                % (case.what, how, v3, vals))
            rec.ev("expressions")
        # arrays of expressions
        trees, d0 = [], None
        for _ in range(rng.randint(2, 3)):
            t, d = (alg.gen(rng, case.world, 2, False) if d0 is None else
                    (alg.gen_like(rng, case.world, d0, 1, False), d0))
            d0 = d
            trees.append(t)
        built = [alg.build(t, case.world.objs) for t in trees]
        if all(hasattr(b, "hmap") for b in built):
            want = [[alg.evaluate(t, p) for t in trees] for p in pts]
            if all(math.isfinite(v.v) and abs(v.v) < 1e250 for w in want for v in w):
                arr = gpkit.nomials.NomialArray(built)
                case.expect(sol(arr), (len(trees),), want,
                            "array %s" % [alg.show(t) for t in trees], 1e-8)
                rec.ev("arrays")
        # expressions in something the solution does not know stay expressions
        extra = gpkit.Variable("extra")
        tree, d = alg.gen(rng, case.world, 1, False)
        e1 = alg.build(tree, case.world.objs)
        if hasattr(e1, "hmap") and len(e1.hmap):
            for expr, x in ((e1*extra**2, 2), (e1/extra, -1)):
                got = sol(expr)
                for p, g in zip(pts, [got] if n == 1 else list(np.ravel(got))):
                    w = alg.evaluate(tree, p)
                    a = alg.measure(g, {("extra", None): 1.7}, {"extra": None})
                    if not abs(w.v) < 1e250:
                        continue
                    if not alg.same(a, alg.Val(w.v*1.7**x, w.a*1.7**x, w.d), 1e-8):
                        raise Violation("wrong-partial", "%s: %s is %r, expected %r at 1.7"
                                        % (case.what, expr, g, w.v*1.7**x))
                rec.ev("partial")
    # ---- points
    if n > 1:
        order = list(range(n))
        rng.shuffle(order)
        for i in order[:3]:
            at = sol.atindex(i)
            check_index(case, at, i)
        neg = sol.atindex(-1)
        check_index(case, neg, n-1)
    after = snapshot(sol)
    if after != before:
        diff = {k for k in set(before) | set(after) if before.get(k) != after.get(k)}
        raise Violation("solution-changed", "%s: %s" % (case.what, sorted(map(str, diff))[:4]))
    if sol.table() != text0:
        raise Violation("solution-changed", "%s: table differs" % case.what)
    rec.ev("unchanged")


def check_index(case, at, i):
    "point i of everything"
    n, sol = case.n, case.sol
    if len(at) != 1:
        raise Violation("wrong-point", "%s: length %s" % (case.what, len(at)))
    if float(at["cost"]) != float(sol["cost"][i]):
        raise Violation("wrong-point", "%s: cost %r at %i" % (case.what, at["cost"], i))

    def walk(d, a, path):
        if set(map(id, dict.keys(d))) != set(map(id, dict.keys(a))) \
                and {str(k) for k in dict.keys(d)} != {str(k) for k in dict.keys(a)}:
            raise Violation("wrong-point", "%s: %s has keys %s" % (case.what, path, list(a)))
        for k in dict.keys(d):
            v, w = dict.__getitem__(d, k), dict.__getitem__(a, k)
            if isinstance(v, dict):
                walk(v, w, path + (k,))
                continue
            if path[:1] == ("warnings",):
                if w is not v[i]:
                    raise Violation("wrong-point", "%s: warnings %s" % (case.what, k))
                continue
            v, w = np.asarray(v), np.asarray(w)
            shape = tuple(k.shape) if getattr(k, "shape", None) and not k.idx else ()
            want = v[i] if v.shape == (n,) + shape else v
            if v.dtype == object:
                continue
            if w.shape != shape or not np.array_equal(np.asarray(want, float),
                                                      np.asarray(w, float), equal_nan=True):
                raise Violation("wrong-point", "%s: %s %s at %i is %s, not %s"
                                % (case.what, path, k, i, w, want))
    for name in ("variables", "freevariables", "constants", "sensitivities", "warnings"):
        if name in sol:
            walk(sol[name], at[name], (name,))
    # asking the point gives what asking the whole gives there
    for o, u, ids in case.whole[:3]:
        a = values(at(o))[1]
        if [v.v for v in a] != [v.v for v in values(sol(o))[1]][i*len(ids):(i+1)*len(ids)]:
            raise Violation("wrong-point", "%s: %s at %i" % (case.what, o, i))
    case.rec.ev("points")


# ------------------------------------------------------------------ kinds of solutions
def grids(rng, rec):
    "Single solves and sweeps of one random model"
    import gpkit
    setup = c15.Setup(rng)
    m = setup.model()
    sweep = rng.random() < .6
    if sweep:
        for k in setup.keys:
            m.substitutions[setup.obj(m, k)] = ("sweep", c15.container(
                rng, setup.vals[k]))
    try:
        sol = m.solve(verbosity=0, skipsweepfailures=True)
    except (gpkit.exceptions.Infeasible, RuntimeWarning):
        raise Skip("not solved")
    what = ("sweep " if sweep else "") + setup.text()
    objs = m.v_objs
    case = Case(sol, objs, setup.spec.decls(), what, rec, rng)
    ask(case)
    rec.ev("sweeps" if len(sol) > 1 else "solves")
    rec.sig(what, len(sol))
    rec.sample("%s: %i points" % (what, len(sol)))


def plan_instances(rng):
    "Several instances of model classes, nested, sharing variable names"
    import gpkit
    specs = [models.random_gp(rng, nfree=rng.randint(1, 2), ncons=rng.randint(0, 2),
                              nconst=rng.randint(1, 2), equalities=.1)
             for _ in range(rng.randint(1, 2))]
    insts = []

    def make(depth):
        spec = rng.choice(specs)
        holder = {}

        class Part(gpkit.Model):
            "SKIP VERIFICATION"
            def setup(self):
                o = spec.make_vars()
                cons = [spec.build_con(c, o) for c in spec.cons]
                self.cost = spec.build_cost(o)
                holder["o"] = o
                subs = []
                if depth < 2 and rng.random() < .5:
                    subs = [make(depth+1)]
                    self.cost = self.cost*subs[0].cost
                return cons + subs, spec.subs(o)
        Part.__name__ = rng.choice(["Wing", "Tail"])
        m = Part()
        insts.append((spec, holder["o"]))
        return m
    tops = [make(0) for _ in range(rng.randint(1, 3))]
    cost = 1
    for t in tops:
        cost = cost*t.cost
    m = gpkit.Model(cost, tops) if len(tops) > 1 or rng.random() < .5 else tops[0]
    swept = None
    if rng.random() < .5:
        spec, o = rng.choice(insts)
        cands = [k for k in spec.keys("consts") if k in spec.used() and k[1] is None]
        if cands:
            k = rng.choice(cands)
            base = float(spec.consts[k[0]][0])
            m.substitutions[o[k[0]]] = ("sweep", [base*math.exp(rng.uniform(-.2, .2))
                                                  for _ in range(rng.randint(2, 3))])
            swept = k
    what = "%i instances (%s) swept %s" % (len(insts), [s.text() for s in specs], swept)
    objs, units = {}, {}
    for i, (spec, o) in enumerate(insts):
        for nme, v in o.items():
            objs["%i.%s" % (i, nme)] = v
            units["%i.%s" % (i, nme)] = spec.decls()[nme]
    if len(m.cost.hmap) > 500:
        raise Skip("cost of too many terms")
    return m, objs, units, what, insts


def instances(rng, rec):
    "Several instances of model classes, nested, sharing variable names"
    import gpkit
    m, objs, units, what, insts = plan_instances(rng)
    try:
        sol = m.solve(verbosity=0, skipsweepfailures=True)
    except (gpkit.exceptions.Infeasible, RuntimeWarning):
        raise Skip("not solved")
    case = Case(sol, objs, units, what, rec, rng)
    ask(case)
    rec.ev("instances", len(insts))
    rec.sig(what, len(sol))
    rec.sample(what)


def local(rng, rec):
    "Local solves"
    import gpkit
    spec, sigs = c14.pick_model(rng)
    try:
        m, objs = c14.make(rng, spec, sigs)[:2]
    except gpkit.exceptions.PrimalInfeasible:
        raise Skip("approximation at all ones is constant")
    what = "local %s %s" % (spec.text(), [s.text() for s in sigs])
    try:
        sol = m.localsolve(verbosity=0)
    except (gpkit.exceptions.Infeasible, RuntimeWarning, gpkit.exceptions.InvalidPosynomial):
        raise Skip("not solved")
    case = Case(sol, objs, spec.decls(), what, rec, rng)
    ask(case, heavy=False)
    rec.ev("local_solves")
    rec.sig(what)


KINDS = {"grids": (grids, 120, 2500), "instances": (instances, 80, 1500),
         "local": (local, 25, 300)}
NEED = {"queries": 1500, "expressions": 300, "arrays": 60, "partial": 100, "points": 100,
        "names": 100, "shared_names": 30, "slices": 40, "sweeps": 30, "solves": 20,
        "unchanged": 100, "local_solves": 5}
