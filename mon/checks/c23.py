"""C23: pickled or saved, then loaded -- here or in a new process -- everything is as it was.

Solutions are saved in every way offered and loaded both in this process and in a freshly
started one (with its own string hashes).  What the loaded object stores is compared with
what was saved, entry by entry; then the loaded solution is queried like any other (C22's
questions) with the variables of the original model, or in the new process with variables
declared anew.  Deep snapshots of the solution, the constraints it lists and the model are
compared around every save, including saves whose file cannot be written past a certain byte,
whose content cannot be pickled from a certain object on, and whose arguments are refused.
"""
import gzip
import json
import math
import os
import pickle
import resource
import signal
import subprocess
import sys
import tempfile
import numpy as np
from ..core import Violation, Skip, VERIF
from .. import alg, models
from ..freeze import freeze, differences
from . import c12, c14, c15, c20, c21, c22

PROP = "C23"
RULE = ("a case is one solution (single, swept, local, relaxed, with warnings, of nested class "
        "instances) or a set of expressions and constraints, a way of saving it and possibly a "
        "point of failure; non-trivial when something was loaded or a save failed, identified "
        "by model and way")
TECH = ("entry-by-entry comparison of what was saved and what a second process loads; queries "
        "of loaded solutions against saved values; deep snapshots around saves, with disk "
        "limits and unpicklable content as injected faults")
NOTE = ("functions of evaluated variables are documented not to be pickled; constraints of a "
        "saved solution lose their compiled form (only text and sensitivity are compared)")
CPU_LIMIT = 60
QUICK_S = 120
CHUNK = 4


# ------------------------------------------------------------------ what things are
def unitrepr(u):
    return None if u is None else str(getattr(u, "units", u))


def arr(v):
    a = np.asarray(v)
    if a.dtype == object:
        return ["obj", list(a.shape), [repr(e) for e in a.ravel().tolist()]]
    return [list(a.shape), [repr(float(e)) for e in a.ravel().tolist()]]


def d_key(vk):
    d = {k: str(v) for k, v in vk.descr.items()
         if k not in ("veckey", "value", "evalfn", "vecfn", "original_fn", "gradients",
                      "necessarylineage", "units") and not callable(v)
         and not str(v).startswith("unpickleable function")}
    return {"eqstr": vk.eqstr, "str": str(vk), "latex": vk.latex(), "descr": d,
            "units": unitrepr(vk.units),
            "keys": sorted(str(k) for k in vk.keys),
            "veckey": vk.veckey.eqstr if vk.veckey is not None else None,
            "self": vk.key is vk,
            "value": repr(vk.descr["value"]) if "value" in vk.descr
                     and not callable(vk.descr["value"])
                     and not str(vk.descr["value"]).startswith("unpickleable") else None}


def d_hmap(h):
    return sorted([sorted([k.eqstr, repr(float(x))] for k, x in e.items()), repr(float(c))]
                  for e, c in h.items())


def d_any(x):
    "plain description of an expression, array, key or constraint"
    if hasattr(x, "eqstr"):
        return ["key", d_key(x)]
    if hasattr(x, "hmap"):
        out = {"cls": type(x).__name__, "units": unitrepr(x.units), "hmap": d_hmap(x.hmap),
               "hmapunits": unitrepr(x.hmap.units), "str": str(x), "latex": x.latex(),
               "nonpos": bool(x.any_nonpositive_cs),
               "bare": x.str_without(["units", "lineage"])}
        if "key" in vars(x):
            out["key"] = d_key(x.key)
        return ["nomial", out]
    if isinstance(x, np.ndarray):
        out = {"cls": type(x).__name__, "shape": list(x.shape), "str": str(x),
               "els": [d_any(e) for e in x.ravel().tolist()]}
        if hasattr(x, "key"):
            out["key"] = d_key(x.key)
        return ["array", out]
    if hasattr(x, "oper") and hasattr(x, "left"):
        out = {"cls": type(x).__name__, "oper": x.oper, "str": str(x), "latex": x.latex(),
               "left": d_any(x.left), "right": d_any(x.right),
               "vks": sorted(k.eqstr for k in getattr(x, "vks", ()))}
        if isinstance(x, list):
            out["els"] = [d_any(e) for e in x]
        if hasattr(x, "unsubbed"):
            out["unsubbed"] = [d_hmap(p.hmap) for p in x.unsubbed]
        return ["constraint", out]
    if isinstance(x, (list, tuple)):
        return ["list", type(x).__name__, str(x), [d_any(e) for e in x],
                sorted([k.eqstr, arr(v)] for k, v in x.substitutions.items())
                if hasattr(x, "substitutions") else None]
    if hasattr(x, "magnitude"):
        return ["qty", arr(x.magnitude), unitrepr(x.units)]
    return ["plain", repr(x)]


def d_data(c):
    "what a warning is about"
    if isinstance(c, dict):
        return sorted([str(k), sorted(map(str, v)) if isinstance(v, (set, list)) else str(v)]
                      for k, v in c.items())
    return str(c)


def d_sol(sol, texts=True):
    "everything a solution stores and says"
    out = {"len": len(sol), "modelstr": sol.modelstr, "n": sorted(map(str, sol))}
    cost = dict.__getitem__(sol, "cost")
    out["cost"] = [arr(getattr(cost, "magnitude", cost)), unitrepr(getattr(cost, "units", None))]
    for name in ("variables", "freevariables", "constants", "sweepvariables"):
        if name in sol:
            kd = sol[name]
            out[name] = sorted([k.eqstr, arr(dict.__getitem__(kd, k)), str(k.units),
                                str(k.label)] for k in dict.keys(kd))
    s = sol["sensitivities"]
    for name in ("variables", "cost", "models", "constants", "variablerisk"):
        if name in s:
            out["sens " + name] = sorted([getattr(k, "eqstr", str(k)),
                                          arr(dict.__getitem__(s[name], k))]
                                         for k in dict.keys(s[name]))
    if "constraints" in s:
        out["sens constraints"] = sorted([str(k), arr(v)] for k, v in s["constraints"].items())
    if "warnings" in sol:
        out["warnings"] = [[k, [[m, d_data(c)] for m, c in w] if not hasattr(w, "shape") else
                            [[[m, d_data(c)] for m, c in p] for p in w]]
                           for k, w in sorted(sol["warnings"].items())]
        out["warnings"] = json.loads(json.dumps(out["warnings"]))
    if texts:
        out["table"] = sol.table()
        out["summary"] = sol.summary()
        out["all"] = sol.table(tables=("cost", "warnings", "sweepvariables", "freevariables",
                                       "constants", "model sensitivities", "sensitivities",
                                       "top sensitivities", "insensitivities",
                                       "tightest constraints", "loose constraints"))
    return out


WITHOUT = {"sens constraints", "table", "summary", "all"}


def same(a, b, what, loss=()):
    "both descriptions agree, apart from what saving without constraints leaves out"
    for k in sorted(set(a) | set(b)):
        if k in loss:
            continue
        if a.get(k) != b.get(k):
            raise Violation("differs:" + k, "%s: %s" % (difference(a.get(k), b.get(k)), what))


def difference(a, b):
    if isinstance(a, str) and isinstance(b, str):
        import difflib
        return "\n".join(list(difflib.unified_diff(a.split("\n"), b.split("\n"), "was",
                                                   "loaded", lineterm="", n=1))[:30])
    if isinstance(a, list) and isinstance(b, list):
        a, b = [x for x in a if x not in b], [x for x in b if x not in a]
    return "was %.500s, loaded %.500s" % (a, b)


def cut(text):
    "a table without its sections on constraints and warnings"
    lines, out, skip = text.split("\n"), [], False
    for i, line in enumerate(lines):
        if i+1 < len(lines) and line and set(lines[i+1]) in ({"-"}, {"~"}):
            skip = line.startswith(("Most Sensitive Constraints", "Insensitive Constraints"))
        if not skip:
            out.append(line.rstrip())
    while out and not out[-1]:
        out.pop()
    return "\n".join(out)


# ------------------------------------------------------------------ a second process
class Scratch:
    "a directory for saved files and a fresh process reading from it"

    def __enter__(self):
        self.dir = tempfile.mkdtemp(prefix="c23-")
        return self

    def __exit__(self, *exc):
        import shutil
        shutil.rmtree(self.dir, ignore_errors=True)

    def path(self, name):
        return os.path.join(self.dir, name)

    def child(self, jobs, rng, rec):
        "has another process load and examine; re-raises what it finds"
        with open(self.path("jobs"), "wb") as f:
            pickle.dump({"jobs": jobs, "seed": rng.random()}, f)
        env = dict(os.environ, PYTHONHASHSEED=str(rng.randrange(1, 4000000000)))
        p = subprocess.run([sys.executable, "-W", "ignore", "-B", "-m", "mon.checks.c23",
                            self.dir], cwd=VERIF, env=env, stdin=subprocess.DEVNULL,
                           stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=300,
                           check=False)
        try:
            with open(self.path("report")) as f:
                report = json.load(f)
        except (OSError, ValueError):
            raise RuntimeError("no report from the second process: %s"
                               % p.stderr.decode()[-1500:]) from None
        for name, n in report["events"].items():
            rec.ev(name, n)
        for key, msg in report["violations"]:
            rec.fail("new-process:" + key, msg)
        rec.ev("second_processes")


def varinfo(objs, units):
    "how the variables would be declared anew"
    out = {}
    for name, o in objs.items():
        descr = {"name": o.key.name}
        if units[name]:
            descr["units"] = units[name]
        if o.key.lineage:
            descr["lineage"] = o.key.lineage
        out[name] = (tuple(o.shape) if hasattr(o, "shape") else None, descr)
    return out


def declare(info):
    import gpkit
    return {name: (gpkit.Variable(**descr) if shape is None else
                   gpkit.VectorVariable(shape, **descr))
            for name, (shape, descr) in info.items()}


def child_main(directory):
    "examines what the jobs say, in a process of its own"
    import io
    import random
    from ..core import Rec, through_gpkit
    with open(os.path.join(directory, "jobs"), "rb") as f:
        todo = pickle.load(f)
    rng, rec = random.Random(todo["seed"]), Rec()
    out = sys.stdout
    sys.stdout = io.StringIO()
    rec.current = ["child", 0]
    for job in todo["jobs"]:
        try:
            JOBS[job["job"]](job, rng, rec)
        except Violation as e:
            rec.fail(e.key, e.msg)
        except Skip:
            pass
        except Exception as e:  # pylint: disable=broad-except
            import traceback
            rec.fail("exception:" + type(e).__name__, "%s: %s"
                     % (job.get("what"), "".join(traceback.format_exception(e))[-1500:]))
    sys.stdout = out
    with open(os.path.join(directory, "report"), "w") as f:
        json.dump({"events": rec.events,
                   "violations": [(v["key"], v["msg"]) for v in rec.violations]}, f)


def load(path, way):
    "as the documentation says, and as anyone would"
    from gpkit.solution_array import SolutionArray
    if way.startswith("compressed"):
        return SolutionArray.decompress_file(path)
    with open(path, "rb") as f:
        return pickle.load(f)


def examine(loaded, dump, way, objs, units, what, rec, rng, heavy):
    "a loaded solution against what was saved"
    got = d_sol(loaded)
    loss = ()
    if "without" in way:
        loss = WITHOUT
        if "sens constraints" in got:
            raise Violation("constraints-kept", what)
        for k in ("table", "summary", "all"):
            if cut(got[k]).strip() != cut(dump[k]).strip():
                raise Violation("differs:" + k, "%s: %s"
                                % (difference(cut(dump[k]), cut(got[k])), what))
    same(dump, got, what, loss)
    rec.ev("solutions_compared")
    c22.ask(c22.Case(loaded, objs, units, what, rec, rng), heavy=heavy)


def job_solution(job, rng, rec):
    loaded = load(job["path"], job["way"])
    examine(loaded, job["dump"], job["way"], declare(job["vars"]), job["units"],
            "new process, %s of %s" % (job["way"], job["what"]), rec, rng, False)


# ------------------------------------------------------------------ saving solutions
def vanilla(x):
    return type(x).__name__


def state(sol, m):
    "deep snapshot of the solution, its constraints' own attributes, and the model"
    cons = []
    s = dict.get(sol["sensitivities"], "constraints")
    for c in (s or {}):
        attrs = {}
        for k, v in vars(c).items():
            try:
                attrs[k] = freeze(v) if isinstance(v, (set, frozenset, dict, list, tuple, str,
                                                       float, int)) or hasattr(v, "hmap") \
                    else type(v).__name__
            except RecursionError:
                attrs[k] = type(v).__name__
        cons.append((id(c), attrs))
    try:
        stored = {k: (freeze(v) if k != "warnings" else repr(v)) for k, v in dict.items(sol)
                  if k != "sensitivities"}
        sens = {k: (freeze(v) if k != "constraints" else [(id(c), repr(x)) for c, x in v.items()])
                for k, v in dict.items(sol["sensitivities"])}
    except RecursionError:
        stored = sens = None
    return {"cons": cons, "stored": stored, "sens": sens, "vars": sorted(map(str, vars(sol))),
            "model": freeze(m) if m is not None else None}


def unchanged(before, sol, m, what):
    after = state(sol, m)
    for (i, a), (j, b) in zip(before["cons"], after["cons"]):
        for k in a:      # new caches are none of our business
            if k not in b:
                raise Violation("attribute-lost", "%s: a constraint lost %s" % (what, k))
            if a[k] != b[k]:
                raise Violation("constraint-changed", "%s: %s: %s" % (
                    what, k, differences(a[k], b[k])))
        if i != j:
            raise Violation("constraint-changed", what)
    if len(before["cons"]) != len(after["cons"]):
        raise Violation("solution-changed", "%s: %i constraints, then %i" % (
            what, len(before["cons"]), len(after["cons"])))
    for k in ("stored", "sens", "model"):
        if before[k] != after[k]:
            diff = ([d for d in before[k] if before[k].get(d) != after[k].get(d)]
                    if isinstance(before[k], dict) else differences(before[k], after[k]))
            raise Violation("solution-changed" if k != "model" else "model-changed",
                            "%s: %s" % (what, diff))


def save(sol, way, path, **kw):
    if way.startswith("pickle"):
        with open(path, "wb") as f:
            pickle.dump(sol, f, **kw)
    elif way.startswith("compressed"):
        sol.save_compressed(path, saveconstraints="without" not in way, **kw)
    else:
        sol.save(path, saveconstraints="without" not in way, **kw)


WAYS = ["plain", "compressed", "plain without", "compressed without", "pickle"]


def plan(rng):
    "(model, solve function, objects, units, text)"
    import gpkit
    r = rng.random()
    if r < .3:
        setup = c15.Setup(rng)
        m = setup.model()
        if rng.random() < .6:
            for k in setup.keys:
                m.substitutions[setup.obj(m, k)] = ("sweep", c15.container(rng, setup.vals[k]))
        return (m, lambda: m.solve(verbosity=0, skipsweepfailures=True), m.v_objs,
                setup.spec.decls(), "grid " + setup.text())
    if r < .55:
        m, objs, units, what, _ = c22.plan_instances(rng)
        return (m, lambda: m.solve(verbosity=0, skipsweepfailures=True), objs, units, what)
    if r < .68:
        spec, sigs = c14.pick_model(rng)
        try:
            m, objs = c14.make(rng, spec, sigs)[:2]
        except gpkit.exceptions.PrimalInfeasible:
            raise Skip("approximation at all ones is constant") from None
        return (m, lambda: m.localsolve(verbosity=0), objs, spec.decls(),
                "local " + spec.text())
    spec = models.random_gp(rng, nfree=rng.randint(1, 3), ncons=rng.randint(0, 3))
    if r < .76:      # constraints which look the same when printed
        objs = spec.make_vars()
        built = [spec.build_con(c, objs) for c in spec.cons]
        x = objs[rng.choice(list(spec.free))]
        x = x if not getattr(x, "shape", None) else x.flatten()[0]
        f = float(np.exp(rng.uniform(-9, -7)))*getattr(x.units, "u", 1)
        twins = [rng.choice([lambda g: x >= f*g, lambda g: x*g >= f])(
            1 + 1e-7*i) for i in range(rng.randint(2, 3))]
        m = gpkit.Model(spec.build_cost(objs), built + twins, spec.subs(objs))
        return m, lambda: m.solve(verbosity=0), objs, spec.decls(), "twins " + spec.text()
    if r < .86:      # warnings of Tight and Loose, and of bounds
        from gpkit.constraints.bounded import Bounded
        objs = spec.make_vars()
        built = [spec.build_con(c, objs) for c in spec.cons]
        decls = []
        cons = c21.wrap(rng, built, lambda kind, inside: 10**rng.uniform(-5, -1),
                        decls)
        if rng.random() < .3:
            cons = [Bounded(gpkit.ConstraintSet(cons, spec.subs(objs)),
                            upper=rng.choice([1e30, 10]), lower=rng.choice([1e-30, .1]))]
        m = gpkit.Model(spec.build_cost(objs), cons, spec.subs(objs))
        return m, lambda: m.solve(verbosity=0), objs, spec.decls(), "declared " + spec.text()
    spec2 = c20.tighten(rng, spec) if rng.random() < .6 else spec
    try:
        m = spec2.model()
    except gpkit.exceptions.PrimalInfeasible:
        raise Skip("terms cancel") from None
    return (m, lambda: m.debug(verbosity=0), m.v_objs, spec2.decls(), "debug " + spec2.text())


def get(rng):
    import gpkit
    m, solve, objs, units, what = plan(rng)
    try:
        sol = solve()
    except (gpkit.exceptions.Infeasible, RuntimeWarning, gpkit.exceptions.InvalidPosynomial):
        raise Skip("not solved") from None
    if sol is None:
        raise Skip("debug finds nothing")
    return m, sol, solve, objs, units, what


def solutions(rng, rec):
    "Saved, loaded here and elsewhere"
    m, sol, solve, objs, units, what = get(rng)
    # debug's solution belongs to another model
    owner = m
    dump = d_sol(sol)
    before = state(sol, owner)
    jobs = []
    with Scratch() as tmp:
        for i, way in enumerate(rng.sample(WAYS, rng.randint(2, 3))):
            path = tmp.path("sol%i.%s" % (i, rng.choice(["pkl", "pgz", "x"])))
            kw = {"protocol": rng.choice([0, 2, 3, 4, 5])} if rng.random() < .4 else {}
            if rng.random() < .2:
                with open(path, "wb") as f:     # something older and longer
                    f.write(b"x"*200000)
            save(sol, way, path, **kw)
            unchanged(before, sol, owner, "saving (%s) %s" % (way, what))
            loaded = load(path, way)
            examine(loaded, dump, way, objs, units, "%s of %s" % (way, what), rec, rng,
                    rng.random() < .3)
            # names and comparison between the two
            if not sol.almost_equal(loaded, reltol=1e-12, sens_abstol=1e-12):
                if not nans(sol):
                    raise Violation("not-equal", "%s of %s" % (way, what))
            unchanged(before, sol, owner, "using the %s load of %s" % (way, what))
            if rng.random() < .5:     # a loaded solution is a solution: save it again
                way2 = rng.choice(WAYS[:4])
                path2 = path + "2"
                save(loaded, way2, path2)
                again = load(path2, way2)
                loss = way if "without" in way else way2
                examine(again, dump, loss, objs, units, "%s of the %s load of %s" % (
                    way2, way, what), rec, rng, False)
                rec.ev("saved_again")
            jobs.append({"job": "solution", "path": path, "way": way, "dump": dump,
                         "vars": varinfo(objs, units), "units": units, "what": what})
            rec.ev("way " + way)
        tmp.child(jobs, rng, rec)
    usable(rec, sol, dump, solve, what)
    rec.sig(what, len(sol))
    rec.sample(what)


def nans(sol):
    return any(np.isnan(np.asarray(v, float)).any() for v in dict.values(sol["variables"]))


def usable(rec, sol, dump, solve, what):
    "the solution says what it said, and the model solves again to the same"
    same(dump, d_sol(sol), "after saving " + what)
    again = solve()
    if again is None:
        raise Violation("model-changed", "%s: debug finds nothing after saving" % what)
    a, b = [np.asarray(getattr(s["cost"], "magnitude", s["cost"]), float) for s in (sol, again)]
    if a.shape != b.shape or not np.allclose(a, b, rtol=1e-4, atol=0):
        raise Violation("model-changed", "%s: cost %s, after saving %s" % (what, a, b))
    rec.ev("solved_after")


# ------------------------------------------------------------------ saves that fail
class Bomb:
    "cannot be pickled"

    def __init__(self, exc):
        self.exc = exc

    def __reduce__(self):
        raise self.exc


class Broken(BaseException):
    "an interruption"


def limited(size):
    "no file may grow beyond this"
    signal.signal(signal.SIGXFSZ, signal.SIG_IGN)
    resource.setrlimit(resource.RLIMIT_FSIZE,
                       (size, resource.getrlimit(resource.RLIMIT_FSIZE)[1]))


def faults(rng, rec):
    "Saving fails somewhere"
    m, sol, solve, objs, units, what = get(rng)
    dump = d_sol(sol)
    before = state(sol, m)
    with Scratch() as tmp:
        for i in range(rng.randint(2, 4)):
            way = rng.choice(WAYS[:4])
            path = tmp.path("sol%i" % i)
            fault = rng.choice(["full", "limit", "limit", "limit", "nodir", "isdir", "bomb",
                                "bomb", "bomb", "protocol", "unknown"])
            undo, kw, expected = (lambda: None), {}, (OSError,)
            if fault == "full":
                path = "/dev/full"
            elif fault == "limit":
                save(sol, way, path)
                size = os.path.getsize(path)
                path += "again"
                k = rng.choice([0, 1, 2, size//2, size-1, rng.randrange(size),
                                min(4096, size-1), min(8192, size-1), min(65536, size-1)])
                limited(k)
                undo = lambda: limited(resource.RLIM_INFINITY)
                fault = "limit %i of %i" % (k, size)
            elif fault == "nodir":
                path = tmp.path("nowhere/sol")
            elif fault == "isdir":
                path = tmp.dir
            elif fault == "bomb":
                exc = rng.choice([TypeError("cannot pickle"), Broken(), KeyboardInterrupt(),
                                  MemoryError(), pickle.PicklingError("no")])
                expected = (type(exc),)
                undo = plant(rng, sol, Bomb(exc))
                fault = "bomb %r" % exc
            elif fault == "protocol":
                kw, expected = {"protocol": 99}, (ValueError,)
            elif fault == "unknown":
                kw, expected = {"nonsense": 1}, (TypeError,)
            w = "%s saving (%s) %s" % (fault, way, what)
            failed = False
            try:
                save(sol, way, path, **kw)
            except expected:
                failed = True
            finally:
                undo()
            if failed:
                rec.ev("failed " + fault.split()[0])
                rec.ev("failures")
            elif fault.split()[0] == "bomb" and "without" in way:
                rec.ev("bomb_unreached")     # it sat in a constraint
            else:
                raise Violation("failure-unreported", "%s raised nothing; the file is %s" % (
                    w, os.path.getsize(path) if os.path.isfile(path) else "not there"))
            unchanged(before, sol, m, w)
        # and then it does save
        way = rng.choice(WAYS[:4])
        path = tmp.path("good")
        save(sol, way, path)
        unchanged(before, sol, m, "saving (%s) %s" % (way, what))
        examine(load(path, way), dump, way, objs, units, "%s of %s after failures" % (way, what),
                rec, rng, False)
    usable(rec, sol, dump, solve, what)
    rec.sig(what, "faults")
    rec.sample("failing: " + what)


def plant(rng, sol, bomb):
    "puts it somewhere; returns what takes it away"
    cons = list(sol["sensitivities"].get("constraints", ()))
    where = rng.choice(["top", "attr", "constraint", "constraint", "variables"])
    if where == "constraint" and cons:
        c = rng.choice(cons)
        c.note = bomb
        def undo():
            del c.note
    elif where == "attr":
        sol.note = bomb
        def undo():
            del sol.note
    elif where == "variables":
        sol["variables"].note = bomb
        def undo():
            del sol["variables"].note
    else:
        dict.__setitem__(sol, "note", bomb)
        def undo():
            dict.__delitem__(sol, "note")
    return undo


# ------------------------------------------------------------------ expressions
def materials(rng):
    "declarations and trees, from which the same objects can be made anywhere"
    w = alg.World(rng, rng.randint(2, 5))
    lineage = {}
    for n in w.decls:
        if rng.random() < .3:
            lineage[n] = tuple((rng.choice(["Wing", "Tail"]), rng.randint(0, 2))
                               for _ in range(rng.randint(1, 2)))
    values = {n: rng.choice([2.5, 1e-3, ("sweep", [1., 2., 3.])]) for n in w.decls
              if rng.random() < .3}
    labels = {n: rng.choice(["height of it", "µ-thing", "a [b]"]) for n in w.decls
              if rng.random() < .3}
    trees = []
    for _ in range(rng.randint(4, 9)):
        t, d = alg.gen(rng, w, depth=rng.randint(1, 3), signed=rng.random() < .3)
        trees.append((t, d))
    cons = []
    for _ in range(rng.randint(2, 5)):
        t, d = alg.gen(rng, w, depth=rng.randint(1, 2), signed=False)
        cons.append((t, rng.choice(["<=", ">=", "="]), alg.gen_like(rng, w, d, 1, False)))
    vec = [(rng.choice([(2,), (3,), (2, 2), (1,)]), nm, u) for nm, u in
           zip(["v", "q"], rng.sample(["m", "ft", None, "N"], 2))]
    return {"decls": w.decls, "lineage": lineage, "values": values, "labels": labels,
            "trees": trees, "cons": cons, "vecs": vec}


def make_all(mat):
    "{name: object}"
    import gpkit
    out, objs = {}, {}
    for n, u in mat["decls"].items():
        descr = {"name": n}
        if u:
            descr["units"] = u
        for what, tab in (("lineage", "lineage"), ("value", "values"), ("label", "labels")):
            if n in mat[tab]:
                descr[what] = mat[tab][n]
        objs[n] = gpkit.Variable(**descr)
        out["var " + n] = objs[n]
        out["key " + n] = objs[n].key
    with gpkit.SignomialsEnabled():
        for i, (t, _) in enumerate(mat["trees"]):
            e = alg.build(t, objs)
            if hasattr(e, "hmap"):
                out["expr %i" % i] = e
                out["hmap %i" % i] = e.hmap
        for i, (l, op, r) in enumerate(mat["cons"]):
            l, r = alg.build(l, objs), alg.build(r, objs)
            if not (hasattr(l, "hmap") and hasattr(r, "hmap")):
                continue
            try:
                c = {"<=": lambda: l <= r, ">=": lambda: l >= r, "=": lambda: l == r}[op]()
            except Exception:  # pylint: disable=broad-except
                continue     # not a constraint there can be
            if hasattr(c, "oper"):
                out["con %i" % i] = c
    vecs = []
    for shape, nm, u in mat["vecs"]:
        v = gpkit.VectorVariable(shape, nm, u) if u else gpkit.VectorVariable(shape, nm)
        vecs.append(v)
        out["vec " + nm], out["veckey " + nm] = v, v.key
        out["el " + nm] = v[tuple(0 for _ in shape)]
        out["arr " + nm] = v**2*3
        out["slice " + nm] = v[:1]
        out["sum " + nm], out["prod " + nm] = v.sum(), v.prod()
        lim = gpkit.Variable("lim", *([u] if u else []))
        out["acon " + nm] = v >= 2*lim
    out["ratio"] = vecs[0].sum()*vecs[1].prod()
    return out


def points(mat):
    import random
    rng = random.Random(1)
    return {n: math.exp(rng.uniform(-1, 1)) for n in mat["decls"]}


def relate(name, orig, got, rec, what):
    "a loaded object and an original (perhaps made anew) are the same thing to gpkit"
    import gpkit
    w = "%s of %s" % (name, what)
    if type(orig) is not type(got):
        raise Violation("class", "%s: %s became %s" % (w, type(orig), type(got)))
    if hasattr(orig, "eqstr"):
        if not orig == got or hash(orig) != hash(got) or got not in {orig} \
                or orig not in {got: 1} or orig.keys != got.keys:
            raise Violation("unequal", "%s: keys %r %r" % (w, orig, got))
        kd = gpkit.keydict.KeyDict({orig: np.ones(orig.shape) if orig.shape and not orig.idx
                                    else 2.})
        if got not in kd or not np.all(kd[got] == kd[orig]):
            raise Violation("unequal", "%s: not found in a KeyDict" % w)
        rec.ev("related_keys")
    elif hasattr(orig, "hmap"):
        if d_hmap(orig.hmap) != d_hmap(got.hmap):
            # made anew, unit conversions may round differently there
            a, b = ({tuple(map(tuple, e)): float(c) for e, c in d_hmap(x.hmap)}
                    for x in (orig, got))
            if set(a) == set(b) and all(abs(a[e]-b[e]) <= 1e-12*abs(a[e]) for e in a):
                rec.ev("rounded")
                return
        if hash(orig) != hash(got) or orig.hmap != got.hmap or not orig.hmap == got.hmap:
            raise Violation("unequal", "%s and %s (hashes %s): %s" % (orig, got, (hash(orig), hash(got), dict(orig.hmap), dict(got.hmap)), w))
        both = orig + got
        if len(both.hmap) != len((orig*2).hmap):
            raise Violation("terms-apart", "%s: %s + itself is %s" % (w, orig, both))
        if orig.vks != got.vks:
            raise Violation("unequal", "%s: variables %s, %s" % (w, orig.vks, got.vks))
        for vk in orig.vks:
            a = next(k for k in got.vks if k == vk)
            if hash(a) != hash(vk):
                raise Violation("unequal", "%s: hash of %s" % (w, vk))
            for e, k in ((orig, a), (got, vk)):
                if vk in e.sub({k: 1.5}).vks and not vk.veckey:
                    raise Violation("unequal", "%s: substituting %s" % (w, vk))
            x, y = orig.diff(vk), got.diff(vk)
            if getattr(x, "hmap", x) != getattr(y, "hmap", y):
                raise Violation("unequal", "%s: derivative" % w)
        rec.ev("related_expressions")
    elif isinstance(orig, np.ndarray):
        for i, j in zip(orig.ravel().tolist(), got.ravel().tolist()):
            relate(name + " element", i, j, rec, what)
        if hash(orig) != hash(got) and all(
                d_hmap(i.hmap) == d_hmap(j.hmap) for i, j in
                zip(orig.ravel().tolist(), got.ravel().tolist())):
            raise Violation("unequal", "%s: hashes" % w)
        rec.ev("related_arrays")
    elif isinstance(orig, dict):
        if d_hmap(orig) != d_hmap(got):
            return      # its expression is compared with tolerance
        if orig != got or hash(orig) != hash(got) or orig.units != got.units:
            raise Violation("unequal", "%s: %s %s" % (w, orig, got))
        for e in orig:
            if e not in got:
                raise Violation("unequal", "%s: %s not found" % (w, e))
    elif hasattr(orig, "oper"):
        kids = orig if isinstance(orig, list) else [orig]
        others = got if isinstance(orig, list) else [got]
        m = [program(c) for c in (kids, others)]
        if m[0] != m[1] and not roundings(m[0], m[1]):
            raise Violation("unequal", "%s: program %s, loaded %s" % (w, m[0], m[1]))
        rec.ev("related_constraints")


def roundings(a, b):
    "same programs but for the last digits"
    if len(a) != len(b):
        return False
    for x, y in zip(a, b):
        if isinstance(x, str) or isinstance(y, str):
            if x != y:
                return False
            continue
        if len(x) != len(y):
            return False
        for h, i in zip(x, y):
            p, q = ({repr(e): float(c) for e, c in z} for z in (h, i))
            if set(p) != set(q) or any(abs(p[e]-q[e]) > 1e-12*abs(p[e]) for e in p):
                return False
    return True


def program(cons):
    "the forms in which a solver would see these constraints"
    out = []
    for c in cons if not isinstance(cons[0], list) else [e for r in cons for e in r]:
        if not hasattr(c, "as_hmapslt1") or any(hasattr(s, "any_nonpositive_cs")
                                                and s.any_nonpositive_cs
                                                for s in (c.left, c.right)):
            continue
        try:
            out.append([d_hmap(h) for h in c.as_hmapslt1({})])
        except Exception as e:  # pylint: disable=broad-except
            out.append(type(e).__name__)
    return out


def job_exprs(job, rng, rec):
    mat = job["mat"]
    fresh = make_all(mat)
    with open(job["path"], "rb") as f:
        got = pickle.load(f)
    check_all(fresh, got, job["dumps"], rec, "new process: " + job["what"])


def check_all(orig, got, dumps, rec, what):
    import gpkit
    if set(orig) != set(got):
        raise Violation("missing", "%s: %s" % (what, set(orig) ^ set(got)))
    for name, x in orig.items():
        if not name.startswith("hmap"):
            if d_any(got[name]) != dumps[name]:
                a, b = dumps[name][-1], d_any(got[name])[-1]
                if isinstance(a, dict) and isinstance(b, dict):
                    bad = {k: (a.get(k), b.get(k)) for k in set(a) | set(b)
                           if a.get(k) != b.get(k)}
                else:
                    bad = (a, b)
                raise Violation("differs:" + name.split()[0], "%s: %s: (was, loaded) %.900s"
                                % (what, name, bad))
        with gpkit.SignomialsEnabled():
            relate(name, x, got[name], rec, what)
        rec.ev("objects_compared")


def expressions(rng, rec):
    "Keys, variables, arrays, expressions and constraints"
    mat = materials(rng)
    orig = make_all(mat)
    what = "%s %s %s" % (mat["decls"], [alg.show(t) for t, _ in mat["trees"]],
                         [(alg.show(l), o, alg.show(r)) for l, o, r in mat["cons"]])
    if rng.random() < .7:
        for x in orig.values():       # so that caches are filled
            if hasattr(x, "hmap"):
                hash(x), str(x), x.cs, x.exps
    dumps = {k: d_any(x) for k, x in orig.items() if not k.startswith("hmap")}
    with Scratch() as tmp:
        path = tmp.path("exprs")
        together = rng.random() < .5
        proto = rng.choice([0, 2, 4, 5])
        if together:
            data = pickle.dumps(orig, protocol=proto)
            got = pickle.loads(data)
        else:
            got = {k: pickle.loads(pickle.dumps(x, protocol=proto)) for k, x in orig.items()}
        check_all(orig, got, dumps, rec, what)
        with open(path, "wb") as f:
            pickle.dump(got if rng.random() < .3 else orig, f, protocol=proto)
        for k, x in orig.items():
            if not k.startswith("hmap") and d_any(x) != dumps[k]:
                raise Violation("original-changed", "%s of %s" % (k, what))
        tmp.child([{"job": "exprs", "path": path, "mat": mat, "dumps": dumps, "what": what}],
                  rng, rec)
    rec.sig(what)
    rec.sample(what)


# ------------------------------------------------------------------ autosweeps
def d_auto(bst, fracs, objs):
    lo, hi = bst.bounds
    out = []
    for f in fracs:
        at = bst.sample_at([min(max(math.exp(math.log(lo)*(1-f)+math.log(hi)*f), lo), hi)])
        row = [arr(getattr(at["cost"], "magnitude", at["cost"])),
               arr(at.cost_lb()), arr(at.cost_ub())]
        for o in objs:
            v = at(o)
            row += [arr(getattr(v, "magnitude", v)), str(getattr(v, "units", ""))]
        out.append(row)
    out.append([list(map(repr, bst.bounds)), len(bst.sollist), d_key(bst.sweptvar)["eqstr"]
                if hasattr(bst.sweptvar, "eqstr") else str(bst.sweptvar)])
    return out


def job_auto(job, rng, rec):
    with open(job["path"], "rb") as f:
        bst = pickle.load(f)
    objs = declare(job["vars"])
    got = d_auto(bst, job["fracs"], list(objs.values()))
    if got != job["dump"]:
        raise Violation("autosweep-differs", "new process: %s: %s, loaded %s"
                        % (job["what"], job["dump"], got))
    sol = bst.solarray
    same(job["soldump"], d_sol(sol), "new process: " + job["what"])
    rec.ev("autosweeps_compared")


def autosweeps(rng, rec):
    "Autosweeps, saved"
    from gpkit.tools.autosweep import autosweep_1d
    import gpkit
    from . import c16
    spec, key, lo, hi = pick_auto(rng)
    m = spec.model()
    objs = m.v_objs
    obj = c16.obj(objs, key)
    try:
        bst = autosweep_1d(m, 10**rng.uniform(-3, -1), obj, [lo, hi], verbosity=0)
    except gpkit.exceptions.Infeasible:
        raise Skip("not solved") from None
    what = "autosweep %s in %r..%r of %s" % (key, lo, hi, spec.text())
    fracs = [0, 1] + [rng.random() for _ in range(3)]
    used = {k[0] for k in spec.used()}
    asked = {n: o for n, o in objs.items() if not hasattr(o, "shape")
             and n in used and n != key[0] and o.key in bst.sols[0]["variables"]}
    dump = d_auto(bst, fracs, list(asked.values()))
    soldump = d_sol(bst.solarray)
    with Scratch() as tmp:
        path = tmp.path("auto.p")
        if rng.random() < .4:
            for bad in ("/dev/full", tmp.path("nowhere/auto.p")):
                try:
                    bst.save(bad)
                except OSError:
                    rec.ev("failures")
                else:
                    raise Violation("failure-unreported", "saving to %s: %s" % (bad, what))
        bst.save(path)
        with open(path, "rb") as f:
            got = pickle.load(f)
        for b, w in ((got, "loaded"), (bst, "original after saving")):
            d = d_auto(b, fracs, list(asked.values()))
            if d != dump:
                raise Violation("autosweep-differs", "%s: %s was %s, is %s" % (what, w, dump, d))
            same(soldump, d_sol(b.solarray), "%s %s" % (w, what))
        rec.ev("autosweeps_compared")
        tmp.child([{"job": "auto", "path": path, "what": what, "fracs": fracs, "dump": dump,
                    "soldump": soldump, "vars": varinfo(asked, spec.decls())}], rng, rec)
    rec.sig(what)


def pick_auto(rng):
    from . import c16
    got = c16.pick(rng)
    return got


JOBS = {"solution": job_solution, "exprs": job_exprs, "auto": job_auto}
KINDS = {"solutions": (solutions, 60, 1200), "faults": (faults, 60, 1200),
         "expressions": (expressions, 32, 600), "autosweeps": (autosweeps, 8, 120)}
NEED = {"solutions_compared": 150, "second_processes": 60, "failures": 80, "saved_again": 20,
        "failed limit": 15, "failed bomb": 15, "related_expressions": 200, "related_keys": 100,
        "related_arrays": 100, "related_constraints": 50, "objects_compared": 500,
        "autosweeps_compared": 8, "solved_after": 60, "queries": 1500}

if __name__ == "__main__":
    # the same module under its package name, so that pickled classes are found
    from mon.checks import c23 as me
    me.child_main(sys.argv[1])
