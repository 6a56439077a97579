"""C12: what a failing, malformed or lying solver can do to a solve.

The solver is the fault injector: it raises, returns damaged output, or lies about a
program it was really given; everything else is the real code.  Monitors watch the error
class, the cause, the warning, standard output, the options the next solver call
receives, and whether the model afterwards solves exactly like a fresh one.
"""
import contextlib
import io
import math
import sys
import numpy as np
from ..core import Violation, Skip
from .. import alg, models
from . import c10

PROP = "C12"
RULE = ("a case is a random model and a fault (class, call number, verbosity, route); "
        "non-trivial when the fault was delivered, identified by model text and fault")
TECH = "fault-injecting solvers; monitors on errors, warnings, stdout, options and later solves"
NOTE = ("lies smaller than 1e-4 (2e-5 for what duals leave over) are not injected; only the interfaces of the solver "
        "function and of cvxopt.solvers.gp are faulted")


class Boom(Exception):
    "an exception gpkit has never heard of"


class Halt(BaseException):
    "like a KeyboardInterrupt"


def honest(**kw):
    "the real solver, under another name"
    from gpkit.solvers import cvxopt
    return cvxopt.optimize(**{"kktsolver": "ldl", **kw})


@contextlib.contextmanager
def watched(rec, what):
    "Captures stdout and checks it is put back"
    saved, mine = sys.stdout, io.StringIO()
    sys.stdout = mine
    try:
        yield mine
    finally:
        now = sys.stdout
        sys.stdout = saved
        if now is not mine:
            raise Violation("stdout-not-restored", "%s left stdout as %r" % (what, now))
        rec.ev("stdout_restored")


def snap(sol):
    "numbers of a solution"
    out = {("cost",): float(getattr(sol["cost"], "magnitude", sol["cost"]))}
    for which in ("freevariables", "constants"):
        for k, vs in c10.flatten(sol[which]).items():
            out[(which,) + k] = vs[0]
    for k, v in sol["sensitivities"]["variables"].items():
        if k.shape and not k.idx:
            for i in np.ndindex(*k.shape):
                out[("sens", k.name, i)] = float(np.asarray(v)[i])
        else:
            out[("sens",) + alg.key_id(k)] = float(v)
    return out


def same_snap(a, b, tol=1e-5):
    if set(a) != set(b):
        return "keys differ: %s" % (set(a) ^ set(b))
    for k, v in a.items():
        if math.isnan(v) and math.isnan(b[k]):
            continue
        if not abs(v - b[k]) <= tol*max(1 if k[0] == "sens" else abs(v), abs(b[k])):
            return "%s: %r against %r" % (k, v, b[k])
    return None


def make_faulty(action, at=1, log=None):
    "a solver that misbehaves in its at-th call (0: always) and is honest otherwise"
    calls = [0]

    def faulty(**kw):
        calls[0] += 1
        if log is not None:
            log.append(kw)
        if at and calls[0] != at:
            return honest(**kw)
        return action(kw)
    faulty.calls = calls
    return faulty


def raises(exc):
    def action(kw):
        print("about to fail")
        raise exc
    return action


def after(rec, spec, m, what, fresh=None, tol=1e-5):
    "Monitor: the model now solves like a freshly built one"
    with watched(rec, what):
        sol = m.solve(verbosity=0)
        ref = fresh or snap(spec.model().solve(verbosity=0))
    diff = same_snap(snap(sol), ref, tol)
    if diff:
        raise Violation("damaged-model", "%s: the same model then solves differently from a"
                        " fresh one: %s" % (what, diff))
    rec.ev("clean_afterwards")


def errors():
    from gpkit import exceptions as ex
    return [
        (ex.PrimalInfeasible("p"), ex.PrimalInfeasible), (ex.DualInfeasible("d"), ex.DualInfeasible),
        (ex.UnknownInfeasible("u"), ex.UnknownInfeasible), (ex.Infeasible("i"), ex.Infeasible),
        (ex.InvalidLicense("l"), ex.InvalidLicense), (ValueError("v"), None), (Boom("b"), None),
        (ZeroDivisionError("z"), None), (MemoryError("m"), None), (TypeError("t"), None),
        (RuntimeWarning("r"), None), (StopIteration("s"), None), (AssertionError(), None),
        (Halt("h"), Halt), (KeyboardInterrupt(), KeyboardInterrupt)]


def check_error(rec, e, exc, cls, what):
    "Monitor: documented class, distinguished kinds, cause kept"
    from gpkit import exceptions as ex
    if cls in (Halt, KeyboardInterrupt):
        ok = e is exc
    elif cls is None:
        ok = type(e) is ex.UnknownInfeasible and e.__cause__ is exc
    else:
        ok = type(e) is cls and e.__cause__ is exc
    if not ok:
        raise Violation("wrong-error", "%s: solver raised %r, solve raised %s %s (cause %r)"
                        % (what, exc, type(e).__name__, str(e)[:200], e.__cause__))
    rec.ev("error_" + type(e).__name__)


def raising(rng, rec):
    spec = models.random_gp(rng, nfree=rng.randint(1, 3), ncons=rng.randint(1, 3))
    exc, cls = rng.choice(errors())
    verbosity = rng.choice([0, 0, 1, 2, 3])
    m = spec.model()
    what = "%r at verbosity %s in %s" % (exc, verbosity, spec.text())
    if rng.random() < .3:
        m.solve(verbosity=0)
    always = rng.random() < .5
    log = []
    got = None
    if isinstance(exc, StopIteration):
        exc = Boom("x")
        cls = None
    with watched(rec, what) as out:
        try:
            got = m.solve(make_faulty(raises(exc), 0 if always else 1, log),
                          verbosity=verbosity)
        except BaseException as e:  # pylint: disable=broad-except
            if type(e).__name__ == "CpuLimit":
                raise
            check_error(rec, e, exc, cls, what) if log else check_error(rec, e, None, cls, what)
        else:
            # a fast infeasible top-level model is debugged instead, and says so
            text = out.getvalue()
            if verbosity < 1 or cls is None or "debug" not in text or always:
                raise Violation("silent", "%s returned %r" % (what, got))
            rec.ev("debugged")
    prog = m.program if not isinstance(m.program, list) else m.program[0]
    if "about to fail" not in prog.solve_log:
        raise Violation("log-lost", "%s: solver output missing from solve_log %r"
                        % (what, prog.solve_log))
    rec.ev("faults")
    rec.sig(what)
    after(rec, spec, m, what)
    rec.sample(what)


def malformed(rng, rec):
    "Missing or mis-sized output is an error, never a solution"
    spec = models.random_gp(rng, nfree=rng.randint(1, 3), ncons=rng.randint(1, 3))
    kind = rng.choice(["none", "empty", "noprimal", "nodual", "noobjective", "short", "long",
                       "shortla", "string", "emptyprimal", "noneobj", "shortnu"])

    def action(kw):
        out = honest(**kw)
        if kind == "none":
            return None
        if kind == "empty":
            return {}
        if kind == "noprimal":
            del out["primal"]
        elif kind == "nodual":
            del out["la"]
        elif kind == "noobjective":
            del out["objective"]
        elif kind == "short":
            out["primal"] = out["primal"][:-1]
        elif kind == "long":
            out["primal"] = np.append(out["primal"], 0.0)
        elif kind == "shortla":
            out["la"] = out["la"][:-2]
        elif kind == "shortnu":
            del out["la"]
            out["nu"] = np.ones(len(kw["c"]) - 1)
        elif kind == "string":
            out["primal"] = "optimal"
        elif kind == "emptyprimal":
            out["primal"] = []
        elif kind == "noneobj":
            out["objective"] = None
        return out
    m = spec.model()
    what = "%s output in %s" % (kind, spec.text())
    with watched(rec, what) as out:
        try:
            m.solve(make_faulty(action), verbosity=0)
        except Exception:  # pylint: disable=broad-except
            pass
        else:
            if "warning" not in out.getvalue().lower():
                raise Violation("silent", what + " was accepted silently")
    rec.ev("malformed_" + kind)
    rec.sig(what)
    after(rec, spec, m, what)


def program_values(kw, primal):
    "values of the cost and of each constraint at a log point"
    A = np.asarray(kw["A"].tocsr().todense(), float)
    v = np.array(kw["c"], float)*np.exp(A.dot(primal))
    k = list(kw["k"])
    return [v[sum(k[:i]):sum(k[:i+1])].sum() for i in range(len(k))]


LIES = ["violate", "violate", "violate", "objective", "nan", "nanobj", "negative", "dual",
        "infobj", "inf", "scaled", "scaled"] + 4*["residual"] + 4*["sneak"]


def lying(rng, rec):
    lie = rng.choice(LIES)
    spec = models.random_gp(rng, nfree=rng.randint(*((3, 6) if lie == "residual" else (1, 4))),
                            ncons=rng.randint(1, 3))
    withnu = rng.random() < .5 or lie in ("sneak", "residual")
    # well above what is accepted from a solver without a tolerance of its own (1e-5)
    least = 2e-5 if lie in ("residual", "sneak") else 1e-4
    size = math.exp(rng.uniform(math.log(least), math.log(.02 if lie == "residual" else .5)))
    pick, sign = rng.random(), rng.choice([-1, 1])
    note = {}

    def action(kw):
        out = honest(**kw)
        x = np.array(out["primal"], float)
        A = np.asarray(kw["A"].tocsr().todense(), float)
        k = list(kw["k"])
        starts = np.cumsum([0] + k)
        if withnu:     # the monomial form of the same duals
            z = np.log(np.array(kw["c"], float)) + A.dot(x)
            nu = np.zeros(len(z))
            for i, la in enumerate(out["la"]):
                w = np.exp(z[starts[i]:starts[i+1]])
                nu[starts[i]:starts[i+1]] = la*w/w.sum()
            del out["la"]
            out["nu"] = nu
        if lie == "violate":
            cand = [i for i in range(1, len(k)) if np.any(A[starts[i]:starts[i+1]])]
            i = cand[int(pick*len(cand))]
            w = np.exp(np.log(np.array(kw["c"])[starts[i]:starts[i+1]])
                       + A[starts[i]:starts[i+1]].dot(x))
            g = (w/w.sum()).dot(A[starts[i]:starts[i+1]])
            if np.abs(g).max() < 1e-6:
                g = A[starts[i]]
            t = 1e-6
            while t < 1e6 and program_values(kw, x + t*g)[i] < 1 + size:
                t *= 1.05
            vals = program_values(kw, x + t*g)
            if not vals[i] >= 1 + size:
                return out
            out["primal"], out["objective"] = x + t*g, vals[0]
        elif lie == "objective":
            if out["objective"] < 1e-15:    # costs under 1e-20 are documented to be equal
                return out
            out["objective"] = out["objective"]*math.exp(sign*size)
        elif lie == "nan":
            x[int(pick*len(x))] = np.nan
            out["primal"] = x
        elif lie == "inf":
            x[int(pick*len(x))] = sign*np.inf
            out["primal"] = x
            if not np.any(np.array(program_values(kw, x)[1:]) > 1.1):
                return out
        elif lie == "nanobj":
            out["objective"] = float("nan")
        elif lie == "infobj":
            out["objective"] = sign*float("inf")
        elif lie == "negative":
            key = "nu" if withnu else "la"
            d = np.array(out[key], float)
            d[int(pick*len(d))] = -size
            out[key] = d
        elif lie == "residual":
            # off the stationarity conditions, by what leaves the dual's cost as it was
            nu = np.array(out["nu"], float)
            d = np.random.RandomState(int(pick*1e6)).uniform(-1, 1, len(nu))
            d[:k[0]] = 0
            d[nu < 1e-2] = 0
            if sign > 0:      # only by one variable's
                free = d != 0
                e = np.zeros(A.shape[1])
                e[int(pick*len(e))] = 1.
                d = np.where(free, np.linalg.pinv(A.T*free).dot(e), 0)
            q = np.where(d != 0, A.dot(x), 0)
            if q.any():
                d = d - q*d.dot(q)/q.dot(q)
            r = np.abs(A.T.dot(d)).max()
            if r < 1e-6:
                return out
            d *= min(size/r, .2*nu[d != 0].min()/np.abs(d).max())
            if np.abs(A.T.dot(d)).max() < 1.8e-5:
                return out
            out["nu"] = nu + d
        elif lie == "sneak":
            # off one constraint, but nowhere near changing the cost
            def grad(i, y):
                w = np.exp(np.log(np.array(kw["c"])[starts[i]:starts[i+1]])
                           + A[starts[i]:starts[i+1]].dot(y))
                return (w/w.sum()).dot(A[starts[i]:starts[i+1]]), w.sum()
            i = 1 + int(pick*(len(k) - 1)) if sign > 0 else len(k) - 1
            gc, cost = grad(0, x)
            g = grad(i, x)[0]
            d = g - gc*g.dot(gc)/gc.dot(gc)
            if np.abs(d).max() < 1e-3:
                return out
            y, t = x, 1e-6
            while t < 1e3 and grad(i, y)[1] < 1 + size:
                t *= 1.05
                y = x + t*d
                for _ in range(10):
                    gy, cy = grad(0, y)
                    y = y - gy*math.log(cy/cost)/gy.dot(gy)
            if not grad(i, y)[1] >= 1 + size or abs(math.log(grad(0, y)[1]/cost)) > 1e-8:
                return out
            out["primal"], out["objective"] = y, cost
        elif lie == "scaled":    # as the cost is 1 so is that of the duals
            scale = math.exp(sign*10*size)
            key = "nu" if withnu else "la"
            out[key] = np.array(out[key], float)*scale
        elif lie == "dual":
            key = "nu" if withnu else "la"
            d = np.array(out[key], float)
            j = int(np.argmax(d[1:])) + 1 if key == "la" else int(pick*len(d))
            d[j] = d[j]*(1 + 10*size) + (0.1 if d[j] < .1 else 0)
            out[key] = d
        note["told"] = True
        return out
    m = spec.model()
    honestcost = m.cost
    if lie == "scaled":
        cost = m.solve(honest, verbosity=0)["cost"]
        m.cost = m.cost/float(getattr(cost, "magnitude", cost))
    what = "solver lying (%s, %.3g, nu=%s) about %s" % (lie, size, withnu, spec.text())
    with watched(rec, what) as out:
        try:
            m.solve(make_faulty(action), verbosity=0)
            raised = False
        except Exception:  # pylint: disable=broad-except
            raised = True
    if not note:
        raise Skip("lie had no effect")
    if not raised and "Solution check warning" not in out.getvalue():
        raise Violation("silent-lie", what + " was accepted silently")
    rec.ev("lie_" + lie)
    rec.sig(what)
    m.cost = honestcost
    after(rec, spec, m, what)
    rec.sample(what)


OPTIONS = [("kktsolver", "chol2"), ("maxiters", 7), ("feastol", 1e-3), ("abstol", 1e-2),
           ("use_leqs", False), ("process_result", False), ("my_option", "secret")]


def options(rng, rec):
    "what a solver is told depends on this solve only"
    import gpkit
    from gpkit.solvers import cvxopt
    spec = models.random_gp(rng, nfree=rng.randint(1, 2), ncons=1)
    seen = []
    keep = cvxopt.optimize

    def spy(**kw):
        seen.append({k: v for k, v in kw.items()
                     if k not in ("c", "A", "meq_idxs", "k", "p_idxs")})
        return keep(**{k: v for k, v in kw.items() if k in
                       ("c", "A", "meq_idxs", "k", "p_idxs")}, kktsolver="ldl")
    cvxopt.optimize = spy
    try:
        m = spec.model()
        m.solve(verbosity=0)
        base = seen[-1]
        hist = []
        for _ in range(rng.randint(2, 6)):
            opts = dict(rng.sample(OPTIONS, rng.choice([0, 0, 1, 2])))
            where = m if rng.random() < .6 else spec.model()
            hist.append(opts)
            n = len(seen)
            form = rng.choice(["default", "name", "debug", "program", "custom", "fails"])
            what = "options of solves %s, last by %s" % (hist, form)
            if form == "debug":
                where.debug(verbosity=0, **{k: v for k, v in opts.items()
                                            if k != "process_result"})
                for got in seen[n:]:
                    want = {**base, "process_result": False, **opts}
                    if {k: v for k, v in got.items() if k != "process_result"} != \
                            {k: v for k, v in want.items() if k != "process_result"}:
                        raise Violation("option-leak", "%s: solver told %s" % (what, got))
                continue
            if form == "custom":
                got = {}

                def custom(**kw):
                    got.update(kw)
                    return keep(**{k: v for k, v in kw.items() if k in
                                   ("c", "A", "meq_idxs", "k", "p_idxs")}, kktsolver="ldl")
                where.solve(custom, verbosity=0, **opts)
                got = {k: v for k, v in got.items()
                       if k not in ("c", "A", "meq_idxs", "k", "p_idxs")}
                want = opts
            elif form == "program":
                where.gp().solve(verbosity=0, **opts)
                got, want = seen[-1], {**base, **opts}
            elif form == "fails":
                def boom(**kw):
                    raise Boom
                cvxopt.optimize = boom
                try:
                    where.solve("cvxopt", verbosity=0, **opts)
                except gpkit.exceptions.UnknownInfeasible:
                    pass
                cvxopt.optimize = spy
                continue
            else:
                where.solve("cvxopt" if form == "name" else None, verbosity=0, **opts)
                got, want = seen[-1], {**base, **opts}
            if got != want:
                raise Violation("option-leak", "%s: solver told %s, expected %s"
                                % (what, got, want))
            rec.ev("options_checked")
        rec.sig(repr(hist), spec.text())
    finally:
        cvxopt.optimize = keep


def sweeping(rng, rec):
    "Faults in the middle of a sweep"
    import gpkit
    from gpkit import exceptions as ex
    spec = models.random_gp(rng, nfree=rng.randint(1, 3), ncons=rng.randint(1, 2),
                            nconst=rng.randint(1, 3), constvec=0)
    used = spec.used()
    cands = [k for k in spec.keys("consts") if k in used]
    if not cands:
        raise Skip("no constant used")
    m = spec.model()
    key = rng.choice(cands)
    o = m.v_objs[key[0]]
    base = float(m.substitutions[o])
    n = rng.randint(2, 5)
    vals = np.array([base*math.exp(rng.uniform(-.02, .02)) for _ in range(n)])
    at = rng.randint(1, n)
    exc, cls = rng.choice([e for e in errors() if not isinstance(e[0], StopIteration)])
    skip = rng.random() < .5
    good = spec.model()
    singles, ok = [], []
    for v in vals:
        good.substitutions[good.v_objs[key[0]]] = v
        try:
            singles.append(float(good.solve(verbosity=0)["cost"]))
            ok.append(True)
        except ex.Infeasible:
            singles.append(None)
            ok.append(False)
    if not all(ok):
        raise Skip("infeasible in the sweep")
    what = "sweep of %s over %s, %r at call %s, skip %s: %s" % (
        key, vals.tolist(), exc, at, skip, spec.text())
    before = float(m.substitutions[o])
    m.substitutions[o] = ("sweep", vals)
    infeas = cls is None or issubclass(cls, ex.Infeasible)
    with watched(rec, what):
        try:
            sol = m.solve(make_faulty(raises(exc), at), verbosity=0,
                          skipsweepfailures=skip)
        except BaseException as e:  # pylint: disable=broad-except
            if type(e).__name__ == "CpuLimit":
                raise
            if infeas:
                if skip or not isinstance(e, RuntimeWarning) or \
                        not isinstance(e.__cause__, ex.Infeasible):
                    raise Violation("wrong-error", "%s raised %r (cause %r)"
                                    % (what, e, e.__cause__))
            else:
                check_error(rec, e, exc, cls, what)
            rec.ev("sweep_raised")
        else:
            if not skip or not infeas:
                raise Violation("silent", what + " returned")
            costs = np.ravel(sol["cost"])
            want = [c for i, c in enumerate(singles) if i != at-1]
            sv = np.ravel(sol["sweepvariables"][o])
            wv = [v for i, v in enumerate(vals) if i != at-1]
            if len(costs) != len(want) or np.abs(np.log(costs/want)).max() > 1e-5 \
                    or np.abs(sv - wv).max() > 1e-12*base:
                raise Violation("misaligned", "%s: costs %s (expected %s) at %s (expected %s)"
                                % (what, costs, want, sv, wv))
            rec.ev("sweep_skipped")
    m.substitutions[o] = before
    rec.sig(what)
    rec.ev("faults")
    after(rec, spec, m, what)


def local(rng, rec):
    "Faults in the middle of a local solve"
    import gpkit
    x, y = gpkit.Variable("x"), gpkit.Variable("y")
    k = gpkit.Variable("k", round(rng.uniform(.5, 3), 3))
    c = [round(rng.uniform(.5, 2), 3) for _ in range(4)]

    def make():
        x, y = gpkit.Variable("x"), gpkit.Variable("y")
        kk = gpkit.Variable("k", k.key.value)
        with gpkit.SignomialsEnabled():
            return gpkit.Model(c[0]*x + c[1]*y, [x >= kk - c[2]*y, y <= .8, x >= .05*c[3],
                                                 y >= .01])
    m = make()
    ref = make().localsolve(verbosity=0, iteration_limit=300)
    at = rng.randint(1, 2)
    exc, cls = rng.choice([e for e in errors() if not isinstance(e[0], StopIteration)])
    verbosity = rng.choice([0, 0, 1, 2, 3])
    what = "localsolve %s k=%s: %r at call %s, verbosity %s" % (c, k.key.value, exc, at, verbosity)
    faulty = make_faulty(raises(exc), at)
    with watched(rec, what):
        try:
            m.localsolve(faulty, verbosity=verbosity)
        except BaseException as e:  # pylint: disable=broad-except
            if type(e).__name__ == "CpuLimit":
                raise
            check_error(rec, e, exc, cls, what)
        else:
            if faulty.calls[0] >= at:
                raise Violation("silent", what + " returned")
            raise Skip("converged before the fault")
    rec.ev("local_faults")
    rec.sig(what)
    with watched(rec, what):
        sol = m.localsolve(verbosity=0, iteration_limit=300)
    for a in ("cost",):
        if abs(math.log(float(sol[a])/float(ref[a]))) > 1e-6:
            raise Violation("damaged-model", "%s: then solves to %s instead of %s"
                            % (what, sol[a], ref[a]))
    rec.ev("clean_afterwards")


def adapter(rng, rec):
    "What cvxopt itself can come back with"
    import gpkit
    from gpkit.solvers import cvxopt
    from gpkit import exceptions as ex
    spec = models.random_gp(rng, nfree=rng.randint(1, 3), ncons=rng.randint(1, 2))
    kind = rng.choice(["unknown", "dual infeasible", "ValueError", "ArithmeticError",
                       "nostatus", "truncated"])
    keep = cvxopt.gp
    exc = {"ValueError": ValueError("Rank(A) < p"), "ArithmeticError": ArithmeticError("a")}

    def fake(*a, **kw):
        if kind in exc:
            raise exc[kind]
        out = keep(*a, **kw)
        if kind == "nostatus":
            del out["status"]
        elif kind == "truncated":
            out["znl"] = out["znl"][:-1] if len(out["znl"]) else None
            out["zl"] = None
        else:
            out["status"] = kind
        return out
    m = spec.model()
    what = "cvxopt %s on %s" % (kind, spec.text())
    cvxopt.gp = fake
    try:
        with watched(rec, what):
            try:
                m.solve(verbosity=0)
            except Exception as e:  # pylint: disable=broad-except
                want = ex.DualInfeasible if kind == "ValueError" else ex.UnknownInfeasible
                if type(e) is not want or e.__cause__ is None:
                    raise Violation("wrong-error", "%s raised %r from %r"
                                    % (what, e, e.__cause__))
            else:
                raise Violation("silent", what + " returned")
    finally:
        cvxopt.gp = keep
    rec.ev("adapter_" + kind.replace(" ", "_"))
    rec.sig(what)
    after(rec, spec, m, what)


def infeasible(rng, rec):
    "Really infeasible and really unbounded-below models, at every verbosity"
    import gpkit
    from gpkit import exceptions as ex
    spec = models.random_gp(rng, nfree=rng.randint(1, 3), ncons=rng.randint(1, 3),
                            nconst=rng.choice([0, 0, 1, 2]))
    key = rng.choice(spec.keys())
    verbosity = rng.choice([0, 0, 1, 1, 2, 3])
    objs = spec.make_vars()
    built = [spec.build_con(c, objs) for c in spec.cons]
    o = objs[key[0]] if key[1] is None else objs[key[0]][key[1]]
    f = alg.decl_factor(spec.free[key[0]][0])[0]
    bad = [o >= 40*spec.hidden[key]/f*gpkit.units(spec.free[key[0]][0] or "dimensionless")]
    m = gpkit.Model(spec.build_cost(objs), built + bad, spec.subs(objs))
    what = "infeasible (%s) at verbosity %s: %s" % (bad, verbosity, spec.text())
    with watched(rec, what) as out:
        try:
            sol = m.solve(verbosity=verbosity)
        except ex.Infeasible as e:
            if type(e) is ex.Infeasible:
                raise Violation("wrong-error", "%s raised %r" % (what, e))
            rec.ev("infeasible_raised")
        else:
            text = out.getvalue()
            if verbosity < 1 or "debug" not in text.lower():
                raise Violation("silent", what + " returned a solution")
            rec.ev("infeasible_debugged")
            if "warnings" not in sol and "DEBUG" not in text:
                raise Violation("silent", what + " returned without a warning")
    rec.sig(what)


def chatty(rng, rec):
    "whatever a solver prints is kept in the program's log, not in the way"
    import io
    import sys
    spec = models.random_gp(rng, nfree=rng.randint(1, 2), ncons=1)
    said, here, n = [], [], 0
    for _ in range(rng.randint(1, 8)):
        n += 1
        said.append((rng.choice(["print", "flush", "write", "file", "partial"]),
                     rng.choice(["iteration %i", "  %i: ok", "x\ty %i", "%i"]) % n))

    def solver(**kw):
        out = honest(**kw)
        here.append(sys.stdout)
        for how, text in said:
            if how == "print":
                print(text)
            elif how == "flush":
                print(text, flush=True)
            elif how == "write":
                sys.stdout.write(text + "\n")
            elif how == "file":
                print(text, file=sys.stdout)
            else:
                print(text, end=" ")
                sys.stdout.flush()
        return out
    quiet = rng.choice([True, True, False])
    m, shown, before = spec.model(), io.StringIO(), sys.stdout
    sys.stdout = shown
    try:
        sol = m.solve(solver, verbosity=0 if quiet else 3)
        left = sys.stdout
    finally:
        sys.stdout = before
    what = "a solver that printed %s" % said
    if left is not shown:
        raise Violation("stdout", "%s: standard output was left replaced" % what)
    log, at = m.program.solve_log, 0
    for _, text in said:
        found = log.find(text, at)
        if found < 0:
            raise Violation("log", "%s: %r not kept, in its place, in the log %r"
                            % (what, text, log))
        at = found + len(text)
    printed = shown.getvalue()
    if quiet and printed:
        raise Violation("noise", "%s: a silent solve printed %r" % (what, printed[:200]))
    if not quiet:
        at = 0
        for _, text in said:
            found = printed.find(text, at)
            if found < 0:
                raise Violation("log", "%s: %r not printed at verbosity 3: %r"
                                % (what, text, printed[:500]))
            at = found + len(text)
    why = same_snap(snap(sol), snap(spec.model().solve(verbosity=0)))
    if why:
        raise Violation("printing-solution", "%s: %s" % (what, why))
    rec.ev("prints_kept", len(said))
    rec.sig(repr(said), spec.text())


KINDS = {"raising": (raising, 250, 4000), "malformed": (malformed, 120, 1500),
         "lying": (lying, 700, 9000), "options": (options, 60, 800),
         "sweeping": (sweeping, 100, 1500), "local": (local, 60, 800),
         "adapter": (adapter, 80, 1000), "infeasible": (infeasible, 80, 1200),
         "chatty": (chatty, 60, 800)}
NEED = {"faults": 200, "clean_afterwards": 500, "stdout_restored": 800,
        "options_checked": 80, "prints_kept": 100, "sweep_skipped": 15, "sweep_raised": 40,
        "lie_violate": 40, "lie_residual": 30, "lie_sneak": 50, "lie_scaled": 35, "lie_nan": 10, "lie_objective": 10, "local_faults": 20,
        "infeasible_raised": 20}
