"""C03: no operation changes its operands or anything the user passed in.

Every object that ever entered the pool is snapshotted (exact terms, units, hashes stored
and recomputed, text, LaTeX; arrays with their dtype; dictionaries and lists by content)
and all snapshots are compared after every operation.  A second kind does the same around
programs, solves, sweeps, relaxations, tables, comparisons and saving, where the snapshot
covers the model, its constraints, the user's dictionaries and earlier solutions.
"""
import contextlib
import copy
import io
import pickle
import sys
import numpy as np
from ..core import Violation, Skip
from .. import alg, models
from ..freeze import freeze, differences
from . import c08, c10

PROP = "C03"
RULE = ("a case is a random history of operations over a pool of shared objects; non-trivial "
        "when at least three operations succeeded, identified by the operations")
TECH = "deep snapshots of every operand and input compared after every operation"
NOTE = ("VarKey.descr entries that gpkit documents as consumed (value on absorption) or as "
        "caches (gradients) are outside the snapshot; SolutionArray growth is by design")


def text(x):
    "str and latex of things that have them"
    if hasattr(x, "hmap") or hasattr(x, "oper"):
        return ("text", str(x), x.latex() if hasattr(x, "latex") else "",
                x.str_without(["units", "lineage"]))
    return ("text",)


class Pool:
    "objects and what they looked like when they came in"
    def __init__(self, rec):
        self.items, self.rec = [], rec

    def add(self, x, name):
        self.items.append([x, name, (freeze(x), text(x))])
        return x

    def verify(self, op):
        for x, name, then in self.items:
            now = (freeze(x), text(x))
            self.rec.ev("snapshots_compared")
            if now != then:
                raise Violation("mutated:%s:%s" % (op[0], type(x).__name__),
                                "%s changed %s (%s): %s" % (
                                    op, name, type(x).__name__,
                                    "; ".join(differences(then, now))))

    def pick(self, rng, pred):
        cands = [x for x, _, _ in self.items if pred(x)]
        if not cands:
            raise Skip("nothing suitable")
        return rng.choice(cands)


def is_nom(x):
    return hasattr(x, "hmap")


def is_arr(x):
    return isinstance(x, np.ndarray) and x.dtype == object


def is_con(x):
    return hasattr(x, "oper") and hasattr(x, "as_hmapslt1")


def case_algebra(rng, rec):
    import gpkit
    from gpkit.nomials import Monomial, Posynomial, NomialArray
    pool = Pool(rec)
    unit = rng.choice([None, None, "m", "ft"])
    two = {"m": "ft", "ft": "m"}.get(unit)

    def mk(cls, *args):
        return cls(*([a for a in args if a is not None]))
    xs = [pool.add(mk(gpkit.Variable, n, u), n) for n, u in
          [("x", unit), ("y", two or unit), ("z", unit)]]
    xs.append(pool.add(mk(gpkit.Variable, "c", 2.5, unit), "c"))
    vecs = [pool.add(mk(gpkit.VectorVariable, 3, "v", unit), "v"),
            pool.add(mk(gpkit.VectorVariable, 3, "w", two or unit), "w")]
    nd = pool.add(np.array([1., 2., .5]), "ndarray")
    ndi = pool.add(np.array([1, 2, 3]), "int array")
    lst = pool.add([3., 1., 2.], "list")
    qty = pool.add(gpkit.ureg.Quantity(3., unit or "dimensionless"), "qty")
    qarr = pool.add(gpkit.ureg.Quantity(np.array([1., 2., 3.]), unit or "dimensionless"),
                    "quantity array")
    subd = pool.add({xs[0]: 2.0, xs[1].key: 3}, "sub dict")
    subs_ = pool.add({"x": 2, "y": 3.5, "z": 1.25, "c": 2}, "string dict")
    subv = pool.add({vecs[0]: nd, "w": lst}, "vector dict")
    subq = pool.add({xs[0]: qty, "y": qty}, "quantity dict")
    subp = pool.add({xs[0]: 1.5, "y": .5, xs[2]: 2, xs[3]: 2.0, vecs[0]: nd, "w": ndi},
                    "x0 dict")
    exprs = lambda: pool.pick(rng, is_nom)
    arrs = lambda: pool.pick(rng, is_arr)
    numb = lambda: rng.choice([2, .5, 1, 3.0, np.float64(1.5), np.int64(2), 0])

    def op_arith():
        a, b = exprs(), rng.choice([exprs, exprs, numb])()
        f = rng.choice("+-*/")
        if rng.random() < .3:
            a, b = b, a
        return ("arith" + f, {"+": lambda: a+b, "-": lambda: a-b, "*": lambda: a*b,
                              "/": lambda: a/b}[f])

    def op_pow():
        a, n = exprs(), rng.choice([0, 1, 2, 3, .5, -1, -2.5, np.int64(2)])
        return "pow", lambda: a**n

    def op_iop():
        a, b = exprs(), rng.choice([exprs, numb])()
        f = rng.choice("+*-/")

        def go():
            t = a
            if f == "+":
                t += b
            elif f == "*":
                t *= b
            elif f == "-":
                t -= b
            else:
                t /= b
            return t
        return "in-place" + f, go

    def op_arr():
        a = arrs()
        b = rng.choice([arrs, exprs, numb, lambda: nd, lambda: ndi])()
        f = rng.choice("+*/-")
        if rng.random() < .25 and not isinstance(b, np.ndarray):
            a, b = b, a
        return ("array" + f, {"+": lambda: a+b, "-": lambda: a-b, "*": lambda: a*b,
                              "/": lambda: a/b}[f])

    def op_reduce():
        a = arrs()
        f = rng.choice([lambda: a.sum(), lambda: a.prod(), lambda: a[rng.randint(0, 2)],
                        lambda: a[1:], lambda: a[::-1], lambda: a**2, lambda: a.outer(nd),
                        lambda: a.sum(axis=0), lambda: a.prod(axis=0),
                        lambda: NomialArray(list(a)), lambda: a.T, lambda: -a,
                        lambda: NomialArray([1., *list(a)]).sum(),
                        lambda: NomialArray([*list(a), 2.]).prod()])
        return "reduce", f

    def op_compare():
        a, b = exprs(), rng.choice([exprs, exprs, numb, lambda: qty])()
        f = rng.choice(["<=", ">=", "==", "!="])
        return "compare" + f, {"<=": lambda: a <= b, ">=": lambda: a >= b,
                               "==": lambda: a == b, "!=": lambda: a != b}[f]

    def op_acompare():
        a, b = arrs(), rng.choice([arrs, exprs, numb, lambda: nd])()
        f = rng.choice(["<=", ">=", "=="])
        return "array-compare", {"<=": lambda: a <= b, ">=": lambda: a >= b,
                                 "==": lambda: a == b}[f]

    def op_sub():
        a = rng.choice([exprs, exprs, arrs])()
        d = rng.choice([subd, subs_, subv, subq, subp])
        return "sub", lambda: a.sub(d)

    def op_diff():
        a, v = exprs(), rng.choice(xs + [vecs[0][1]])
        return "diff", lambda: a.diff(rng.choice([v, v.key]))

    def op_approx():
        a = exprs()
        return "approx", lambda: (a.mono_lower_bound(subp) if isinstance(a, Posynomial)
                                  else a.mono_approximation(subp))

    def op_misc():
        a = exprs()
        return rng.choice([
            ("to", lambda: a.to("cm" if unit else "dimensionless")),
            ("posy_negy", lambda: a.posy_negy()), ("chop", lambda: a.chop()),
            ("value", lambda: a.value), ("cs", lambda: (a.cs, a.exps)),
            ("str", lambda: (str(a), repr(a), a.latex(), a.str_without(("lineage",)))),
            ("hash", lambda: (hash(a), {a: 1}[a])), ("copy", lambda: copy.copy(a)),
            ("deepcopy", lambda: copy.deepcopy(a) and None),
            ("pickle", lambda: pickle.loads(pickle.dumps(a)) and None),
            ("Signomial", lambda: gpkit.nomials.Signomial(a)),
            ("Monomial", lambda: Monomial(a)), ("Posynomial", lambda: Posynomial(a)),
            ("sumprod", lambda: (a.sum(), a.prod())),
            ("varkeys", lambda: (a.varkeys, a.vks)),
            ("vks mutation", lambda: a.vks.clear())])

    def op_con():
        c = pool.pick(rng, is_con)
        d = rng.choice([subd, subs_, subp, {}, subq])
        t = exprs()
        return rng.choice([
            ("as_hmapslt1", lambda: list(c.as_hmapslt1(
                gpkit.keydict.KeyDict({k: v for k, v in [(xs[3].key, 2.0)]}))) and None),
            ("as_gpconstr", lambda: c.as_gpconstr({k: 1.5 for k in c.vks})),
            ("relaxed", lambda: c.relaxed(xs[2]) and None),
            ("relaxed", lambda: c.relaxed(t) and None),
            ("constraint-str", lambda: (str(c), c.latex(), c.str_without(("units",)))),
            ("cset", lambda: gpkit.ConstraintSet([c]) and None),
            ("bool", lambda: bool(c)),
            ("pickle-con", lambda: pickle.loads(pickle.dumps(c)) and None),
            ("model", lambda: gpkit.Model(xs[0], [c], d) and None)])

    def op_array_con():
        lhs, rhs = arrs(), rng.choice([arrs, lambda: nd, exprs])()
        return "array-model", lambda: gpkit.Model(
            xs[0], [lhs <= rhs, vecs[0] >= nd], subv) and None

    def op_keydict():
        d = rng.choice([subd, subq, subp, subv])
        return "KeyDict", lambda: gpkit.keydict.KeyDict(d) and None

    def op_parse():
        from gpkit.nomials.map import parse_subs
        a, d = exprs(), rng.choice([subd, subs_, subp, subv, subq])
        return "parse_subs", lambda: parse_subs(a.vks, d, clean=rng.random() < .5) and None

    def op_build():
        return rng.choice([
            ("build arrays", lambda: gpkit.VectorVariable(3, "q", nd) is None),
            ("build list", lambda: gpkit.VectorVariable(3, "q", lst) is None),
            ("build qarr", lambda: gpkit.VectorVariable(3, "q", qarr) is None),
            ("build qty", lambda: gpkit.Variable("q", qty, unit) is None if unit else None),
            ("build sweep", lambda: gpkit.Variable("q", lst) is None),
            ("build sweepq", lambda: gpkit.Variable("q", nd) is None),
            ("hmap init", lambda: Monomial({"x": 2, xs[1].key: 1}, qty) is None)])

    ops = [op_arith]*4 + [op_pow, op_iop, op_iop, op_arr, op_arr, op_reduce, op_reduce,
                          op_compare, op_compare, op_acompare, op_sub, op_sub, op_sub,
                          op_diff, op_approx, op_misc, op_misc, op_con, op_con,
                          op_array_con, op_keydict, op_parse, op_build]
    done = []
    signed = rng.random() < .5
    ctx = gpkit.SignomialsEnabled() if signed else contextlib.nullcontext()
    with ctx:
        for step in range(rng.randint(10, 26)):
            try:
                name, f = rng.choice(ops)()
            except Skip:
                continue
            try:
                out = f()
            except Exception as e:   # refused operations must not mutate either
                out = None
                rec.ev("refused_ops")
                name = name + "(refused)"
            else:
                rec.ev("ops_done")
                done.append(name)
            pool.verify((name, step))
            if isinstance(out, (list, tuple)) and out and not hasattr(out, "hmap"):
                out = out[0]
            if is_nom(out) and 0 < len(out.hmap) <= 12 or is_con(out):
                if is_nom(out) and type(out).__name__ != "Variable":
                    alg.check_fresh(rec, out, name)
                pool.add(out, "result of " + name)
            elif isinstance(out, np.ndarray) and out.dtype == object and out.ndim == 1 \
                    and all(is_nom(o) and len(o.hmap) <= 8 for o in out):
                pool.add(out, "array result of " + name)
            if len(pool.items) > 34:
                pool.items.pop(rng.randint(18, len(pool.items) - 1))
    if len(done) >= 3:
        rec.sig(tuple(done), unit, signed)
    rec.sample("%s%s: %s" % ("signomials, " if signed else "", unit, ", ".join(done)))


# ---------------------------------------------------------------- programs
def modelstate(m):
    "what a model observably is"
    return freeze(m)


def sol_state(sol):
    "everything a solution holds"
    return freeze({k: v for k, v in dict.items(sol) if k != "soltime"})


def case_programs(rng, rec):
    import gpkit
    from gpkit.constraints.gp import GeometricProgram
    from gpkit.constraints.relax import (ConstantsRelaxed, ConstraintsRelaxed,
                                         ConstraintsRelaxedEqually)
    from gpkit.constraints.bounded import Bounded
    from gpkit.constraints.tight import Tight
    from gpkit.constraints.loose import Loose
    sweep = rng.random() < .4
    spec = models.random_gp(rng, nconst=rng.randint(1, 3), constvec=.3)
    objs = spec.make_vars()
    user = spec.subs(objs)
    swept = None
    scal = [n for n, c in spec.consts.items() if c[2] is None and (n, None) in spec.used()]
    usersweep = None
    if sweep and scal:
        swept = rng.choice(scal)
        v = spec.consts[swept][0]
        pts = [v*.97, v, v*1.03]
        usersweep = rng.choice([np.array(pts), list(pts), tuple(pts)])
        user[objs[swept]] = ("sweep", usersweep)
    built = [spec.build_con(c, objs) for c in spec.cons]
    cost = spec.build_cost(objs)
    frozen = [("substitutions given", user), ("constraint list", built), ("cost", cost)]
    if usersweep is not None:
        frozen.append(("sweep values", usersweep))
    for n, o in objs.items():
        frozen.append(("variable " + n, o))
    m = gpkit.Model(cost, built, user)
    consts = {}
    frozen.append(("model", m))
    then = {}

    def watch(name, obj):
        frozen.append((name, obj))
        then[len(frozen)-1] = state(obj)

    def state(obj):
        return sol_state(obj) if isinstance(obj, gpkit.SolutionArray) else freeze(obj)

    for i, (_, o) in enumerate(frozen):
        then[i] = state(o)

    def verify(op):
        for i, (name, o) in enumerate(frozen):
            now = state(o)
            rec.ev("snapshots_compared")
            if now != then[i]:
                raise Violation("mutated:%s:%s" % (op, name.split()[0]),
                                "%s changed the %s: %s\n%s" % (
                                    op, name, "; ".join(differences(then[i], now)),
                                    spec.text()))
    if rng.random() < .5:
        m.program = None
    sols = []
    keepcons = [freeze(c) for c in m.flat()]

    def solve():
        sol = m.solve(verbosity=0)
        sols.append(sol)
        watch("solution %i" % len(sols), sol)

    def gp():
        c = {objs[n].key: spec.consts[n][0] for n in scal}
        c.update({objs[n].key: spec.consts[n][0] for n in spec.consts
                  if spec.consts[n][2] is not None})
        if rng.random() < .5 and scal:
            n = rng.choice(scal)
            u = spec.consts[n][1]
            c[objs[n].key] = gpkit.ureg.Quantity(c[objs[n].key], u or "dimensionless")
        elif rng.random() < .3 and scal:
            n = rng.choice(scal)
            u = spec.consts[n][1]
            c[objs[n].key] = c[objs[n].key]*(gpkit.units(u) if u else
                                             gpkit.nomials.Monomial(1))
        kd = gpkit.keydict.KeyDict(c)
        watch("constants dict", c)
        form = rng.choice(["model", "class", "class-kd"])
        d = c if form == "class" else kd
        if form == "model":
            try:
                m.gp(constants=c, checkbounds=False)
            except TypeError:    # quantities are not constants
                rec.ev("refused_ops")
            return
        try:
            p = GeometricProgram(cost, list(m.flat()), d, checkbounds=False)
        except TypeError:
            rec.ev("refused_ops")
            return
        if rng.random() < .6:
            p.solve(verbosity=0)

    def dosweep():
        if not scal:
            raise Skip("no scalar constants")
        n = rng.choice(scal)
        v = spec.consts[n][0]
        pts = rng.choice([list, np.array, tuple])([v*.98, v])
        d = {objs[n]: pts}
        watch("sweep dict", d)
        s = m.sweep(d, verbosity=0)
        sols.append(s)
        watch("solution %i" % len(sols), s)

    def relax():
        R = rng.choice([ConstantsRelaxed, ConstraintsRelaxed, ConstraintsRelaxedEqually,
                        Bounded, Tight, Loose])
        src = m if rng.random() < .6 else m.as_list if False else m
        c = R(src)
        if R is ConstantsRelaxed and rng.random() < .5:
            inc = [n for n in spec.consts][:1]
            watch("include list", inc)
            c = R(src, include_only=inc)
        obj = m.cost
        if hasattr(c, "relaxvars"):
            if not c.relaxvars.size:
                return
            obj = obj*c.relaxvars.prod()**30
        elif hasattr(c, "relaxvar"):
            obj = obj*c.relaxvar**30
        if usersweep is not None and R is ConstantsRelaxed:
            raise Skip("swept constants are not relaxed")
        mm = gpkit.Model(obj, c)
        mm.solve(verbosity=0)

    def debug():
        if usersweep is not None:
            raise Skip("debug is for single solves")
        m.debug(verbosity=0)

    def need():
        if not sols:
            solve()
        return rng.choice(sols)

    def tables():
        s = need()
        for t in rng.sample(["cost", "warnings", "sweepvariables", "model sensitivities",
                             "freevariables", "constants", "sensitivities",
                             "tightest constraints", "loose constraints",
                             "top sensitivities", "insensitivities"], 4):
            s.table(tables=(t,))
        s.table(showvars=[objs[rng.choice(list(objs))].key.name]
                if rng.random() < .5 else ())
        s.table(latex=rng.choice([1, 2, 3]), tables=("freevariables", "constants"))

    def summary():
        need().summary(ntopsenss=rng.randint(1, 5))

    def queries():
        s = need()
        name = rng.choice(list(spec.free))
        o = objs[name]
        used = {n for n, _ in spec.used()}
        if name in used:
            s(o)
            s(name)
            s["variables"][o]
            s["variables"][name]
            s["freevariables"](o)
        s(cost)
        s(cost*2 + cost)
        for part in ("variables", "freevariables", "constants"):
            d = s[part]
            for k in list(d):
                d(k)
                d[k]
                for kk in (k.name,):
                    try:
                        d(kk)
                        d[kk]
                    except KeyError:
                        pass
        for k in list(s["sensitivities"]["variables"]):
            s["sensitivities"]["variables"][k]
        len(s)
        if len(s) > 1:
            s.atindex(0)
            s.atindex(0)(cost)

    def diff():
        a, b = need(), rng.choice(sols)
        if len(a) != len(b) and 1 not in (len(a), len(b)):
            raise Skip("sweeps of different lengths")
        a.diff(b, senssdiff=rng.random() < .5, absdiff=rng.random() < .5,
               reltol=rng.choice([1, 1e-9]))
        if len(a) == 1 and usersweep is None:
            a.diff(m.solve(verbosity=0), reltol=1e-9)

    def save():
        s = need()
        s.save("c03.pkl")
        s.save_compressed("c03.pgz")
        s.savetxt("c03.txt")
        s.savecsv(filename="c03.csv")
        pickle.dumps(m.cost)

    def printing():
        str(m)
        repr(m)
        m.latex()
        m.str_without(("units", "unnecessary lineage"))
        for c in m.flat():
            str(c), c.latex()

    def local():
        with gpkit.SignomialsEnabled():
            extra = list(c08.signomials(rng, spec, objs)[0])
            fp = spec.full(spec.hidden)
            keys = spec.keys()
            big, d = models.posy(rng, spec, keys, 2, None, fp)
            small, d2 = models.mono(rng, spec, keys, 1)
            k = models.evaluate(big, fp).v/models.evaluate(small, fp).v*.5
            big = models.build(big, objs)
            small = models.build(("mul", models.num(k, alg.dimadd(d, d2, -1), rng), small),
                                 objs)
            if len(big.hmap) < 2:
                raise Skip("not signomial")
            extra.append(big >= small)
        mm = gpkit.Model(m.cost, [m] + list(extra))
        x0 = {objs[n]: (1.1 if not spec.free[n][1] else
                        np.full(spec.free[n][1], 1.1)) for n in spec.free}
        watch("x0", x0)
        try:
            mm.localsolve(verbosity=-1, x0=x0, iteration_limit=30)
        except (gpkit.exceptions.UnnecessarySGP, gpkit.exceptions.UnboundedGP):
            rec.ev("refused_ops")

    def variables():
        for n in spec.free:
            try:
                m[n]
                m.variables_byname(n)
            except KeyError:
                pass
        m.varkeys, m.constrained_varkeys()
        list(m.flat()), m.as_view()
        m.substitutions.get("nope", 3)

    def compose():
        sub = gpkit.Model(m.cost, [m, m.cost <= m.cost*2]) if False else \
            gpkit.Model(m.cost, [m])
        if rng.random() < .5 and scal:
            sub.substitutions[objs[rng.choice(scal)]] = 1.2345
            sub.substitutions.update({objs[rng.choice(scal)]: 2.25})
        if rng.random() < .3:
            try:
                sub.solve(verbosity=0)
            except gpkit.exceptions.Infeasible:
                pass

    fns = dict(solve=solve, gp=gp, sweep=dosweep, relax=relax, debug=debug, tables=tables,
               summary=summary, queries=queries, diff=diff, save=save, printing=printing,
               local=local, variables=variables, compose=compose)
    seq = [rng.choice(list(fns)) for _ in range(rng.randint(3, 6))]
    done = []
    for op in seq:
        try:
            with contextlib.redirect_stdout(io.StringIO()):
                fns[op]()
        except Skip:
            continue
        except gpkit.exceptions.Infeasible as e:
            if isinstance(e, gpkit.exceptions.PrimalInfeasible) and op in ("solve",):
                raise
            rec.ev("infeasible")
        except RuntimeWarning:
            rec.ev("infeasible")
        else:
            rec.ev("op_" + op)
            rec.ev("program_ops")
            done.append(op)
        verify(op)
    if len(done) >= 2:
        rec.sig(tuple(done), spec.text())
    rec.sample("%s on %s" % (done, spec.text()[:200]))


CPU_LIMIT = 40
KINDS = {"algebra": (case_algebra, 500, 12000), "programs": (case_programs, 250, 5000)}
NEED = {"ops_done": 4000, "snapshots_compared": 60000, "fresh_checked": 800,
        "program_ops": 400}
