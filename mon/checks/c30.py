"""C30: what a model's solve gives does not depend on what was done before.

A case is a small world of models sharing variables, constraints and groups of constraints,
and a random history of operations on them.  What each solve of the history should give is
found beforehand, in a process of its own for each (model, constants): there, the model alone
is built afresh and solved first thing.
"""
import math
import os
import pickle
import random
import warnings
import numpy as np
from ..core import Violation, Skip
from .. import alg, models
from . import c08, c10, c12, c14

PROP = "C30"
RULE = ("a case is a world of models sharing constraints and a history of solves, changes, "
        "sweeps, relaxations, failures, prints and saves of them; non-trivial when at least two "
        "solves were compared, identified by world and history")
TECH = ("history monitor: after every operation the constants of all models are compared with "
        "those set, and every solve with a twin solved first thing in its own process")
NOTE = ("2-3 models of up to 3 free variables over shared constraints (half with signomials); "
        "histories of 3-9 operations; solutions compared to 1e-5 (signomials 1e-3)")
NEED = {"solve-compared": 500, "solution-unchanged": 500, "op:sweep": 25, "op:relax": 25,
        "op:fail": 25, "op:fault": 25, "op:print": 25, "op:save": 25, "op:debug": 15,
        "op:sibling": 25, "op:restore": 50, "op:relink": 15, "op:build": 25,
        "op:autosweep": 8, "op:cost": 25, "op:program": 25, "op:bounded": 15, "op:pin": 15,
        "error-compared": 1, "constants-checked": 1000}
CPU_LIMIT = 120
CHUNK = 6
QUICK_S = 100


class World:
    "everything that determines the models, without gpkit objects"
    def __init__(self, rng):
        self.spec = s = models.random_gp(rng, nfree=rng.randint(1, 3), ncons=rng.randint(2, 4),
                                         nconst=rng.randint(1, 4), wide=3.0)
        self.sigs = []
        if rng.random() < .4:
            for _ in range(rng.choice([1, 1, 2])):
                sig = c14.gen_sig(rng, s)
                if sig:
                    self.sigs.append(sig)
        used = s.used()
        self.seed = rng.random()
        self.names = sorted(n for n in s.consts if any(k[0] == n for k in used))
        if not self.names:
            raise Skip("no constants used")
        core = [i for i, c in enumerate(s.cons) if c["tag"] == "box"]
        rest = [i for i, c in enumerate(s.cons) if c["tag"] != "box"]
        self.models = []
        for _ in range(rng.choice([2, 2, 3])):
            mine = sorted(core + [i for i in rest if rng.random() < .75])
            sigs = [i for i in range(len(self.sigs)) if rng.random() < .7]
            if rng.random() < .5:
                cost = s.cost
            else:
                fp = s.full(s.hidden)
                cost, _ = models.posy(rng, s, s.keys(), rng.randint(1, 2), None, fp)
                if not models.usesfree(s, cost):
                    cost = s.cost
            values = {}
            for n, (v, u, sh) in s.consts.items():
                k = math.exp(rng.uniform(-.15, .15)) if rng.random() < .6 else 1
                values[n] = np.asarray(v)*k if sh else float("%.5g" % (float(v)*k))
            self.models.append({"cons": mine, "sigs": sigs, "cost": cost, "values": values,
                                "group": rng.random() < .5})
        self.group = [i for i in core if all(i in m["cons"] for m in self.models)
                      and rng.random() < .8]
        self.grouphow = rng.choice(["set", "model", "list", "tight"])

    def build(self, which=None):
        "fresh gpkit models; only one of them if which is given -> [model or None]"
        import gpkit
        s = self.spec
        objs = s.make_vars(values=False)
        cons, sigs = {}, {}
        rng = random.Random(self.seed)
        needed = [m for i, m in enumerate(self.models) if which is None or i == which]
        for i, c in enumerate(s.cons):
            if any(i in m["cons"] for m in needed):
                cons[i] = s.build_con(c, objs)
        for i, sig in enumerate(self.sigs):
            r = random.Random(rng.random())
            if any(i in m["sigs"] for m in needed):
                sigs[i] = c14.build_sig(r, sig, objs)
        group = [cons[i] for i in self.group]
        if self.grouphow == "set":
            group = gpkit.ConstraintSet(group)
        elif self.grouphow == "model":
            group = gpkit.Model(None, group)
        elif self.grouphow == "tight" and group:
            from gpkit.constraints.loose import Loose
            group = [group]
        out = []
        for i, m in enumerate(self.models):
            if which is not None and i != which:
                out.append(None)
                continue
            cs = [group] + [cons[j] for j in m["cons"] if j not in self.group] \
                + [sigs[j] for j in m["sigs"]]
            subs = {objs[n]: v for n, v in m["values"].items() if self.has(m, n)}
            model = gpkit.Model(self.cost(m, objs), cs, subs)
            out.append(model)
        return out, objs

    def cost(self, m, objs):
        from gpkit.nomials import Monomial
        c = models.build(m["cost"], objs)
        return c if hasattr(c, "hmap") else Monomial(c)

    def has(self, m, name):
        "does the model mention this constant?"
        trees = [m["cost"]] + [t for i in m["cons"] for t in
                               (self.spec.cons[i]["l"], self.spec.cons[i]["r"])]
        trees += [t for i in m["sigs"] for t in self.sigs[i].P + self.sigs[i].N]
        return any(name in models.varnames(t) for t in trees)

    def issp(self, m):
        return any(True for i in m["sigs"])

    def text(self):
        return "%s; sigs %s; models %s; group %s %s" % (
            self.spec.text(), [s.text() for s in self.sigs],
            [{k: (models.alg_show(v) if k == "cost" else v) for k, v in m.items()}
             for m in self.models], self.group, self.grouphow)


def setval(model, objs, name, value):
    "puts a value of the state into a model"
    if isinstance(value, tuple) and value[0] == "link":
        _, src, factor = value
        key = objs[src].key
        model.substitutions[objs[name]] = lambda c, k=key, f=factor: f*c[k]
    else:
        model.substitutions[objs[name]] = value


def solve(m, sp, **kw):
    "-> ('ok', snap, solution) or ('err', class name, None)"
    from gpkit.exceptions import InvalidGPConstraint
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        try:
            try:
                sol = m.solve(verbosity=0, **kw)
            except InvalidGPConstraint:
                sol = m.localsolve(verbosity=0, **kw)
        except Exception as e:  # pylint: disable=broad-except
            return "err", type(e).__name__, None
    return "ok", c12.snap(sol), sol


def isolated(fn):
    "the result of fn() in a forked child"
    r, w = os.pipe()
    pid = os.fork()
    if not pid:
        code = 1
        try:
            os.close(r)
            with os.fdopen(w, "wb") as f:
                try:
                    pickle.dump(fn(), f)
                except Skip as e:
                    pickle.dump(("skip", str(e)), f)
            code = 0
        finally:
            os._exit(code)
    os.close(w)
    with os.fdopen(r, "rb") as f:
        data = f.read()
    _, status = os.waitpid(pid, 0)
    if status or not data:
        raise Skip("twin process ended with %s" % status)
    out = pickle.loads(data)
    if out[0] == "skip":
        raise Skip(out[1])
    return out


def reference(world, i, state):
    def fn():
        ms, objs = world.build(i)
        for n, v in state.items():
            if isinstance(v, tuple) or v is not world.models[i]["values"].get(n):
                setval(ms[i], objs, n, v)
        return solve(ms[i], world.issp(world.models[i]))[:2]
    return isolated(fn)


def statekey(state):
    return tuple((n, v if isinstance(v, tuple) else tuple(np.ravel(v).tolist()))
                 for n, v in sorted(state.items()))


class History:
    def __init__(self, rng, rec):
        self.rng, self.rec = rng, rec
        self.world = World(rng)
        self.refs, self.trail, self.kept = {}, [], []
        w = self.world
        self.states = [{n: v for n, v in m["values"].items() if w.has(m, n)}
                       for m in w.models]
        self.plan = []

    # ---- references come first, so the whole history is planned beforehand
    OPS = ["solve", "solve", "solve", "twice", "set", "set", "restore", "sweep", "relax",
           "fail", "fault", "print", "save", "debug", "sibling", "relink", "build",
           "autosweep", "cost", "program", "bounded", "pin", "element", "options"]

    def planit(self):
        rng, w = self.rng, self.world
        states = [dict(s) for s in self.states]
        need = []
        for i, s in enumerate(states):
            need.append((i, dict(s)))
        ops = []
        for _ in range(rng.randint(3, 8)):
            op, i = rng.choice(self.OPS), rng.randrange(len(w.models))
            info = {}
            names = sorted(states[i])
            nums = [n for n in names if not isinstance(states[i][n], tuple)]
            if op in ("set", "restore", "element", "relink", "sweep", "autosweep") and not nums:
                op = "solve"
            if op in ("set", "restore", "sweep", "autosweep"):
                n = rng.choice(nums)
                f = math.exp(rng.uniform(-.3, .3))
                old = states[i][n]
                new = np.asarray(old)*f if np.ndim(old) else float(old)*f
                info = {"name": n, "new": new, "old": old}
                if op == "autosweep" and (np.ndim(old) or w.issp(w.models[i]) or any(
                        isinstance(v, tuple) for v in states[i].values())):
                    op = "set"
                if op == "set":
                    states[i][n] = new
            elif op == "element":
                vecs = [n for n in nums if np.ndim(states[i][n])]
                if not vecs:
                    op = "solve"
                else:
                    n = rng.choice(vecs)
                    new = np.array(states[i][n], float)
                    idx = tuple(rng.randrange(k) for k in new.shape)
                    new[idx] *= math.exp(rng.uniform(-.3, .3))
                    info = {"name": n, "idx": idx, "new": new[idx]}
                    states[i][n] = new
            elif op == "relink":
                src = [n for n in nums if not np.ndim(states[i][n])]
                if len(src) < 2:
                    op = "solve"
                else:
                    a, b = rng.sample(src, 2)
                    if any(v[1] == a for v in states[i].values() if isinstance(v, tuple)):
                        op = "solve"
                    else:
                        # the function gets and gives numbers in own units
                        new = ("link", b, states[i][a]/states[i][b]*math.exp(rng.uniform(-.2, .2)))
                        info = {"name": a, "new": new}
                        states[i][a] = new
            need.append((i, dict(states[i])))
            ops.append((op, i, info))
            if op != "solve" and rng.random() < .4:
                ops.append(("solve", i, {}))
        self.plan = ops
        for i, s in need:
            key = (i, statekey(s))
            if key not in self.refs:
                self.refs[key] = reference(w, i, s)

    # ---- monitors
    def what(self):
        return "history %s in world %s" % (self.trail, self.world.text())

    def check_constants(self):
        for i, (m, s) in enumerate(zip(self.ms, self.states)):
            for n, v in s.items():
                got = m.substitutions.get(self.objs[n])
                self.rec.ev("constants-checked")
                if isinstance(v, tuple):
                    ok = callable(got) or (np.ndim(got) and all(map(callable, np.ravel(got))))
                else:
                    ok = got is not None and not callable(got) and np.shape(got) == np.shape(v) \
                        and np.allclose(np.asarray(getattr(got, "magnitude", got), float),
                                        np.asarray(v, float), rtol=1e-12, atol=0)
                if not ok:
                    raise Violation("constants", "model %s has %s = %s, was set to %s; %s"
                                    % (i, n, got, v, self.what()))
            extra = {k.name for k in m.substitutions} - set(s)
            if extra:
                raise Violation("constants", "model %s has values for %s also; %s"
                                % (i, extra, self.what()))

    def judge(self, i, got, how="solve"):
        ref = self.refs[(i, statekey(self.states[i]))]
        tol = 1e-3 if self.world.issp(self.world.models[i]) else 1e-5
        if got[0] != ref[0]:
            raise Violation("outcome", "%s of model %s gave %s; first thing it gives %s; %s"
                            % (how, i, got[:2], ref, self.what()))
        if got[0] == "err":
            self.rec.ev("error-compared")
            if got[1] != ref[1]:
                raise Violation("outcome", "%s of model %s raised %s; first thing it raises %s;"
                                " %s" % (how, i, got[1], ref[1], self.what()))
            return
        diff = c12.same_snap(got[1], ref[1], tol)
        if diff:
            raise Violation("differs", "%s of model %s gives another solution than first thing:"
                            " %s; %s" % (how, i, diff, self.what()))
        self.rec.ev("solve-compared")
        if got[2].modelstr != str(self.ms[i]):
            raise Violation("model-text", "the solution describes its model as %r, which is %r;"
                            " %s" % (got[2].modelstr, str(self.ms[i]), self.what()))
        self.compared += 1
        self.kept.append((got[2], got[1], list(self.trail)))

    def run(self):
        self.planit()
        if all(r[0] == "err" for r in self.refs.values()):
            raise Skip("nothing can be solved")
        self.compared = 0
        self.ms, self.objs = self.world.build()
        self.check_constants()
        for op, i, info in self.plan:
            self.trail.append((op, i) + ((info["name"],) if info else ()))
            with warnings.catch_warnings():
                warnings.simplefilter("ignore")
                getattr(self, "op_" + op)(i, self.ms[i], **info)
            self.rec.ev("op:" + op)
            self.check_constants()
        order = list(range(len(self.ms)))
        self.rng.shuffle(order)
        for i in order:
            self.trail.append(("final", i))
            self.op_solve(i, self.ms[i])
        self.check_constants()
        for sol, snap, when in self.kept:
            diff = c12.same_snap(c12.snap(sol), snap, 0)
            if diff:
                raise Violation("solution-changed", "the solution got after %s later changed: %s;"
                                " %s" % (when, diff, self.what()))
            self.rec.ev("solution-unchanged")
        if self.compared >= 2:
            self.rec.sig(self.world.text(), str(self.plan))
        self.rec.sample(self.what())

    # ---- operations
    def sp(self, i):
        return self.world.issp(self.world.models[i])

    def quiet(self, fn):
        "runs something whose own result is not at stake here"
        try:
            return fn()
        except Exception as e:  # pylint: disable=broad-except
            self.trail.append("(%s)" % type(e).__name__)
            self.rec.ev("op-raised-" + type(e).__name__)
            return None

    def anysolve(self, m, **kw):
        from gpkit.exceptions import InvalidGPConstraint
        kw.setdefault("verbosity", 0)
        try:
            return m.solve(**kw)
        except InvalidGPConstraint:
            return m.localsolve(**kw)

    def op_solve(self, i, m):
        self.judge(i, solve(m, self.sp(i)))

    def op_twice(self, i, m):
        self.judge(i, solve(m, self.sp(i)))
        self.judge(i, solve(m, self.sp(i)), "second solve")

    def op_set(self, i, m, name, new, old=None):
        setval(m, self.objs, name, new)
        self.states[i][name] = new

    def op_element(self, i, m, name, idx, new):
        m.substitutions[self.objs[name][idx]] = new
        v = np.array(self.states[i][name], float)
        v[idx] = new
        self.states[i][name] = v

    op_relink = op_set

    def op_restore(self, i, m, name, new, old):
        setval(m, self.objs, name, new)
        if self.rng.random() < .7:
            self.quiet(lambda: self.anysolve(m))
        if self.rng.random() < .3:
            setval(m, self.objs, name, lambda c: new) if not np.ndim(new) else None
            self.quiet(lambda: self.anysolve(m))
        if self.rng.random() < .3:
            del m.substitutions[self.objs[name]]
        setval(m, self.objs, name, old)

    def op_sweep(self, i, m, name, new, old):
        v = self.objs[name]
        a, b = old, new
        if np.ndim(old):
            idx = tuple(0 for _ in np.shape(old))
            v, a, b = v[idx], float(np.asarray(old)[idx]), float(np.asarray(new)[idx])
        self.quiet(lambda: m.sweep({v: [a, b, (a + b)/2]}, verbosity=0,
                                   skipsweepfailures=self.rng.random() < .5))

    def op_autosweep(self, i, m, name, new, old):
        self.quiet(lambda: m.autosweep({self.objs[name]: tuple(sorted((old, new)))}, tol=.1,
                                       samplepoints=5, verbosity=0))

    def op_relax(self, i, m):
        import gpkit
        from gpkit.constraints import relax
        how = self.rng.choice(["all", "each", "constants"])

        def fn():
            if how == "all":
                r = relax.ConstraintsRelaxedEqually(m)
                cost = r.relaxvar**20*m.cost
            elif how == "each":
                r = relax.ConstraintsRelaxed(m)
                cost = r.relaxvars.prod()**20*m.cost
            else:
                r = relax.ConstantsRelaxed(m)
                cost = r.relaxvars.prod()**20*m.cost
            rm = gpkit.Model(cost, r)
            try:
                return rm.solve(verbosity=0)
            except gpkit.exceptions.InvalidGPConstraint:
                return rm.sp(use_pccp=False).localsolve(verbosity=0)
        self.quiet(fn)

    def op_debug(self, i, m):
        self.quiet(lambda: m.debug(verbosity=self.rng.choice([0, 1])))

    def op_bounded(self, i, m):
        import gpkit
        from gpkit.constraints.bounded import Bounded
        self.quiet(lambda: self.anysolve(gpkit.Model(m.cost, Bounded(m))))

    def op_fail(self, i, m):
        "a solve that fails for the model's own reasons"
        import gpkit
        rng = self.rng
        how = rng.choice(["far", "missing", "contradiction"])
        names = [n for n in self.states[i] if not isinstance(self.states[i][n], tuple)]
        if how == "far" or not names:
            # a free variable is fixed far outside its box
            name, idx = rng.choice(self.world.spec.keys())
            v = self.objs[name] if idx is None else self.objs[name][idx]
            h = self.world.spec.hidden[(name, idx)]/alg.unit_factor(v.units)[0]
            key = v
            m.substitutions[key] = h*1e4
            self.quiet(lambda: self.anysolve(m))
            del m.substitutions[key]
        elif how == "missing":
            n = rng.choice(names)
            del m.substitutions[self.objs[n]]
            self.quiet(lambda: self.anysolve(m))
            setval(m, self.objs, n, self.states[i][n])
        else:
            name, idx = rng.choice(self.world.spec.keys())
            v = self.objs[name] if idx is None else self.objs[name][idx]
            other = gpkit.Model(m.cost, [m, (v/v.units if v.units else v) <= 1e-9])
            self.quiet(lambda: self.anysolve(other))

    def op_fault(self, i, m):
        rng = self.rng
        exc = rng.choice([ValueError("v"), c12.Boom("b"), KeyError("k"), MemoryError("m")])
        solver = c12.make_faulty(c12.raises(exc), rng.choice([0, 1, 1, 2, 3]))
        self.quiet(lambda: self.anysolve(m, solver=solver))
        if rng.random() < .3:
            def garble(kw):
                out = c12.honest(**kw)
                out["primal"] = np.asarray(out["primal"])*0 + 50
                return out
            self.quiet(lambda: self.anysolve(m, solver=c12.make_faulty(garble, 1)))

    def op_print(self, i, m):
        rng = self.rng

        def fn():
            str(m), repr(m), m.latex(), m.str_without(), m.str_without(["units"])
            if self.kept:
                sol = rng.choice(self.kept)[0]
                sol.table()
                sol.summary()
                str(sol)
                sol.diff(rng.choice(self.kept)[0])
            for c in m.flat():
                str(c), c.latex()
        self.quiet(fn)

    def op_save(self, i, m):
        rng = self.rng

        def fn():
            if not self.kept:
                sol = self.anysolve(m)
            else:
                sol = rng.choice(self.kept)[0]
            how = rng.choice(["save", "csv", "txt", "pickle", "mat"])
            if how == "save":
                sol.save("h.pkl")
            elif how == "csv":
                sol.savecsv("h.csv")
            elif how == "txt":
                sol.savetxt("h.txt")
            elif how == "mat":
                sol.savemat("h.mat")
            else:
                pickle.dumps(m)
        self.quiet(fn)

    def op_sibling(self, i, m):
        "another model with the same constraints, other constants"
        import gpkit
        rng = self.rng
        subs = {}
        for n, v in self.states[i].items():
            if not isinstance(v, tuple):
                f = math.exp(rng.uniform(-.5, .5))
                subs[self.objs[n]] = np.asarray(v)*f if np.ndim(v) else float(v)*f
        how = rng.choice(["outer", "items", "outerset"])
        if how == "outer":
            other = gpkit.Model(m.cost, [m], subs)
        elif how == "items":
            other = gpkit.Model(m.cost**2, list(m), subs)
        else:
            other = gpkit.Model(m.cost, [list(m)])
            for k, v in subs.items():
                other.substitutions[k] = v
        for n, v in self.states[i].items():
            if isinstance(v, tuple):
                setval(other, self.objs, n, v)
        self.quiet(lambda: self.anysolve(other))
        if rng.random() < .3:
            for k in list(other.substitutions):
                del other.substitutions[k]

    def op_build(self, i, m):
        "programs made but not solved"
        def fn():
            p = m.sp() if self.sp(i) else m.gp()
            if self.sp(i) and self.rng.random() < .5:
                p.gp()
        self.quiet(fn)

    def op_program(self, i, m):
        "the program is used by hand, repeatedly"
        def fn():
            if self.sp(i):
                p = m.sp()
                p.localsolve(verbosity=0)
                p.localsolve(verbosity=0)
            else:
                p = m.gp()
                a = p.solve(verbosity=0)
                b = p.solve(verbosity=0)
                ca, cb = [float(getattr(x["cost"], "magnitude", x["cost"])) for x in (a, b)]
                if abs(ca - cb) > 1e-6*abs(ca):
                    raise Violation("program-twice", "the same program costs %s, then %s; %s"
                                    % (ca, cb, self.what()))
        try:
            fn()
        except Violation:
            raise
        except Exception as e:  # pylint: disable=broad-except
            self.trail.append("(%s)" % type(e).__name__)

    def op_cost(self, i, m):
        old = m.cost
        name, idx = self.rng.choice(self.world.spec.keys())
        v = self.objs[name] if idx is None else self.objs[name][idx]
        try:
            m.cost = v**self.rng.choice([1, -1])
            self.quiet(lambda: self.anysolve(m))
        finally:
            m.cost = old

    def op_pin(self, i, m):
        "a free variable is fixed, solved for, and freed"
        name, idx = self.rng.choice(self.world.spec.keys())
        v = self.objs[name] if idx is None else self.objs[name][idx]
        h = self.world.spec.hidden[(name, idx)]/alg.unit_factor(v.units)[0]
        m.substitutions[v] = h
        self.quiet(lambda: self.anysolve(m))
        del m.substitutions[v]

    def op_options(self, i, m):
        rng = self.rng
        kw = rng.choice([{"process_result": False}, {"verbosity": 1}, {"verbosity": 2},
                         {"solver": "cvxopt"}, {"feastol": 1e-7}, {"maxiters": 5},
                         {"verbosity": 3}])
        self.quiet(lambda: self.anysolve(m, **kw))


def history(rng, rec):
    History(rng, rec).run()


KINDS = {"history": (history, 320, 6000)}


# ---- what reading gives
EXCLUDED = [(), ("units",), ("lineage",), ("lineage", "units"), ("unnecessary lineage", "units"),
            ("unnecessary lineage",), ("modelnums", "units"), ("idx", "units"), ("vec", "units"),
            ("idx", "vec", "lineage", "units"), ("root", "units"),
            ("constraint names", "units"), ("constraint names", "unnecessary lineage", "units")]


def things(seed):
    "models that share constraints and names, their expressions, constraints and solutions"
    import gpkit
    from gpkit import Model, Variable, VectorVariable
    rng = random.Random(seed)
    out = {}
    unit = rng.choice([None, None, "m", "ft"])
    dim = rng.choice([None, 2, 3])

    class Wing(Model):
        def setup(self, k, inner=None):
            self.x = x = Variable("x", unit or "-", "a size")
            self.v = v = VectorVariable(dim or 2, "v")
            self.c = c = Variable("c", k, unit or "-", "a constant")
            cs = [x >= c*v.prod()**.5 + c/3, v >= 1.5, x >= c]
            if k > 1.5:
                cs = {"sized": cs[0], "floors": cs[1:]}
            return [inner, cs] if inner is not None else cs

    class Tail(Wing):
        "another of the same names"

    subs = [Wing(1.2)]
    for k in (1.7, 2.3)[:rng.choice([0, 1, 2])]:
        subs.append(rng.choice([Wing, Tail])(k, rng.choice(
            [None] + [s for s in subs if s in (subs[-1],)])))
    # a part that is within another is reached through it
    tops = [s for i, s in enumerate(subs)
            if not any(s is p for o in subs[i+1:] for p in o)]
    z = Variable("z", unit or "-")
    ps = []
    a, b = subs[0], subs[-1]
    for p in (a.x + 2*b.x, a.x*b.x**-1, (a.x + b.x)**2, a.v.sum()*b.x, a.v*b.v + 1,
              (a.x/b.x)**.5*a.v[0], a.v[1:].prod()/b.v[0] + 3, a.x*2e-5 + b.c, 3*a.v,
              (a.c + a.x)*(b.v[0] + 1)/a.v[1]):
        if rng.random() < .6:
            ps.append(p)
    with gpkit.SignomialsEnabled():
        ps.append(a.x*b.x - b.x*a.c*.5)
    for i, p in enumerate(ps):
        out["p%i" % i] = p
    own = [z >= sum(s.x for s in subs), z*a.v[0] >= b.x]
    groups = {"own": own, "tops": tops, "both": [own, tops], "first": [z >= a.x, tops[0]],
              "last": [z >= b.x, tops[-1]], "named": {"a": own, "b": tops}}
    for name in rng.sample(sorted(groups), 3):
        cost = {"first": a.x, "last": b.x}.get(name, z)
        out["m " + name] = Model(cost, groups[name])
    for i, c in enumerate(own):
        out["c%i" % i] = c
    out["sub"] = a
    for n, v in (("x", a.x), ("v", b.v), ("v1", a.v[1]), ("c", b.c)):
        out["var " + n] = v
    m = Model(z, own + tops)
    out["m"] = m
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        out["sol"] = m.solve(verbosity=0)
        if rng.random() < .5:
            out["swept"] = Model(z, own + tops, {a.c: ("sweep", [1., 1.1])}).solve(verbosity=0)
    return out


def text_of(o):
    return "\n".join(o) if isinstance(o, (list, tuple)) else str(o)


def readings(rng, world):
    "{name: function of the world giving text}"
    ops = {}
    for name, o in sorted(world.items()):
        if name in ("sol", "swept"):
            ops[name, "table"] = lambda w, n=name: w[n].table()
            ops[name, "summary"] = lambda w, n=name: w[n].summary()
            ops[name, "str"] = lambda w, n=name: str(w[n])
            ops[name, "repr"] = lambda w, n=name: repr(w[n])
            ops[name, "latex"] = lambda w, n=name: w[n].table(latex=rng_latex)
            rng_latex = rng.choice([1, 2, 3])
            t = rng.sample(["cost", "sweeps", "model sensitivities", "freevariables", "constants",
                            "sensitivities", "tightest constraints", "loose constraints",
                            "warnings"], 3)
            ops[name, "tables", tuple(t)] = lambda w, n=name, t=t: w[n].table(tables=t)
            ops[name, "expressions"] = lambda w, n=name: [str(w[n](p)) for p in w.values()
                                                          if hasattr(p, "hmap")]
            ops[name, "names"] = lambda w, n=name: sorted(
                str(k) for k in w[n]["variables"])
            ops[name, "diff"] = lambda w, n=name: w[n].diff(w["sol"])
            continue
        ops[name, "str"] = lambda w, n=name: str(w[n])
        ops[name, "repr"] = lambda w, n=name: repr(w[n])
        ops[name, "latex"] = lambda w, n=name: w[n].latex()
        for ex in rng.sample(EXCLUDED, 4):
            ops[name, "str", ex] = lambda w, n=name, ex=ex: w[n].str_without(ex)
            ops[name, "latex", ex] = lambda w, n=name, ex=ex: w[n].latex(ex)
        if name.startswith("m"):
            ops[name, "lines"] = lambda w, n=name: w[n].lines_without(["units"])
            ops[name, "members"] = lambda w, n=name: [str(c) for c in w[n].flat()]
    return ops


def printing(rng, rec):
    "what is read from a thing does not depend on what was read, or done, before"
    import copy
    from gpkit import Model
    from gpkit.constraints import relax
    seed = rng.random()
    world = things(seed)
    ops = readings(rng, world)
    names = sorted(ops, key=str)
    chosen = rng.sample(names, min(len(names), 16))
    if rng.random() < .7:  # several readings of one thing
        one = rng.choice(sorted(world))
        chosen += [n for n in names if n[0] == one and n not in chosen][:6]
    first = {n: isolated(lambda n=n: ("ok", text_of(ops[n](world)))) for n in chosen}
    models_ = [world[n] for n in sorted(world) if n == "m" or n.startswith("m ")]
    acts = {
        "solve": lambda: rng.choice(models_).solve(verbosity=0),
        "relax": lambda: relax.ConstantsRelaxed(rng.choice(models_)),
        "relaxed": lambda: str(relax.ConstraintsRelaxed(rng.choice(models_))),
        "outer": lambda: str(Model(world["m"].cost, [rng.choice(models_)])),
        "copy": lambda: copy.deepcopy(world["p0"]) if "p0" in world else None,
        "pickle": lambda: pickle.loads(pickle.dumps(world["sol"])).table(),
        "sub": lambda: str(world["p0"].sub({world["var c"]: 2.})) if "p0" in world else None,
        "add": lambda: str(world["c0"].left + world["c0"].right),
        "diff": lambda: str(world["c0"].right.diff(world["var x"])),
        "debug": lambda: rng.choice(models_).debug(verbosity=0),
        "names": lambda: str(world["m"].variables_byname("x")),
        "choose": lambda: str(world["sub"]["v"]),
    }
    order, what = [], "world %s" % seed
    for _ in range(3):
        rng.shuffle(chosen)
        for n in chosen:
            if rng.random() < .2:
                act = rng.choice(sorted(acts))
                order.append(act)
                with warnings.catch_warnings():
                    warnings.simplefilter("ignore")
                    try:
                        acts[act]()
                    except Exception as e:  # pylint: disable=broad-except
                        rec.ev("act-raised-%s-%s" % (act, type(e).__name__))
                rec.ev("act")
            order.append(n)
            got = text_of(ops[n](world))
            rec.ev("reading-compared")
            if got != first[n][1]:
                raise Violation("reading-differs", "%s gives %r, first thing it gives %r; after "
                                "%s in %s" % (n, got[:600], first[n][1][:600], order[-12:], what))
    rec.sig(tuple(sorted(first.items(), key=str)))
    rec.sample("%s: %s" % (what, order[:8]))


KINDS["printing"] = (printing, 60, 2500)
NEED["reading-compared"] = 1000
NEED["act"] = 150
