"""C32: the adapters to external solvers pose and read back the same program.

The external solvers are absent, so their place is taken by stand-ins that share no code
with gpkit: an executable `mskexpopt` that reads the problem file and writes a solution
file, and a `mosek` module that records a conic task and solves it as a general convex
program.  Monitors compare the program received with the one given, the answer sent with
the one reported, and watch error classes, temporary files and repeated use.
"""
import contextlib
import math
import os
import shutil
import stat
import sys
import tempfile
import threading
import numpy as np
from ..core import Violation, Skip
from .. import models, fakemosek
from . import c08, c12

PROP = "C32"
RULE = ("a case is a random program (of a model, or random matrices) sent through an adapter"
        " to a stand-in solver, or a history of external answers and faults; non-trivial "
        "when the stand-in was reached, identified by program and history")
TECH = ("stand-in external solvers recording what they receive; offline equivalence, KKT "
        "and fault-history checkers")
NOTE = ("the real MOSEK is absent: the stand-ins follow its documented file format and API;"
        " solution files cut inside a number cannot be told from shorter numbers and are "
        "not injected")
ASSUME = ["the stand-ins answer as MOSEK does"]
CPU_LIMIT = 60


# ---------------------------------------------------------------- programs
class Program:
    "matrices of a GP"
    def __init__(self, c, A, k, first=(), every=()):
        self.c, self.A, self.k = np.array(c, float), np.array(A, float), [int(n) for n in k]
        self.first, self.all = set(first), set(every)
        self.starts = np.cumsum([0] + self.k)
        self.p_idxs = np.repeat(np.arange(len(self.k)), self.k)

    @classmethod
    def seen(cls, kw):
        "from the arguments of a solver call"
        return cls(kw["c"], np.asarray(kw["A"].tocsr().todense(), float), kw["k"],
                   kw["meq_idxs"].first_half, kw["meq_idxs"].all)

    def values(self, x):
        v = self.c*np.exp(self.A.dot(x))
        return np.array([v[a:b].sum() for a, b in zip(self.starts, self.starts[1:])])

    def grads(self, x):
        "gradient of the log of each posynomial"
        v = self.c*np.exp(self.A.dot(x))
        return np.array([v[a:b].dot(self.A[a:b])/v[a:b].sum()
                         for a, b in zip(self.starts, self.starts[1:])])

    def split(self, x, la):
        v = self.c*np.exp(self.A.dot(x))
        nu = np.zeros(len(v))
        for i, (a, b) in enumerate(zip(self.starts, self.starts[1:])):
            nu[a:b] = la[i]*v[a:b]/v[a:b].sum()
        return nu

    def coot(self):
        from gpkit.small_classes import CootMatrix
        row, col, data = [], [], []
        for i in range(len(self.c)):
            nz = [j for j in range(self.A.shape[1]) if self.A[i, j]]
            if not nz:
                row.append(i), col.append(0), data.append(0)
            for j in nz:
                row.append(i), col.append(j), data.append(self.A[i, j])
        return CootMatrix(row, col, data)

    def kwargs(self):
        from gpkit.constraints.gp import MonoEqualityIndexes
        meq = MonoEqualityIndexes()
        meq.all, meq.first_half = set(self.all), set(self.first)
        return dict(c=list(self.c), A=self.coot(), k=list(self.k), meq_idxs=meq,
                    p_idxs=np.array(self.p_idxs, "int32"))

    def pairs(self):
        "posynomials that are the two halves of an equality"
        one = [i for i in range(1, len(self.k)) if self.k[i] == 1]
        out, taken = [], set()
        for i in one:
            for j in one:
                if i < j and i not in taken and j not in taken:
                    a, b = self.starts[i], self.starts[j]
                    if np.allclose(self.A[a], -self.A[b], 1e-12, 1e-14) and np.any(self.A[a]) \
                            and abs(math.log(self.c[a]) + math.log(self.c[b])) < 1e-12:
                        out.append((i, j))
                        taken |= {i, j}
        return out

    def kkt(self, x, la, obj, what, tol=2e-4):
        "Monitor: x and la satisfy the optimality conditions of this program"
        x, la = np.ravel(x), np.ravel(la)
        if x.shape != (self.A.shape[1],) or la.shape != (len(self.k),):
            raise Violation("misshaped", "%s: primal %s and dual %s for %s variables and %s"
                            " posynomials" % (what, x.shape, la.shape, self.A.shape[1],
                                              len(self.k)))
        f = self.values(x)
        if abs(f[0]/obj - 1) > tol:
            raise Violation("objective", "%s: reports %r at a point of cost %r"
                            % (what, obj, f[0]))
        if (f[1:] > 1 + tol).any():
            raise Violation("infeasible-primal", "%s: constraints %s at the reported point"
                            % (what, f[1:]))
        if (la < -1e-6).any() or abs(la[0] - 1) > 1e-3:
            raise Violation("wrong-dual", "%s: multipliers %s" % (what, la))
        for i, fi in enumerate(f[1:], 1):
            if la[i]*abs(math.log(fi)) > 1e-3*(1 + la[i]):
                raise Violation("wrong-dual", "%s: constraint %i is %r but has multiplier %r"
                                % (what, i, fi, la[i]))
        g = self.grads(x)
        r = la.dot(g)
        size = 1 + la.dot(np.abs(g))
        if (np.abs(r) > 2e-3*size).any():
            raise Violation("wrong-dual", "%s: multipliers %s leave gradient %s of %s"
                            % (what, la, r, size))


def raw(rng):
    "a random bounded feasible program and a strictly feasible point"
    m = rng.randint(1, 4)
    x0 = np.array([rng.uniform(-1, 1) for _ in range(m)])
    posys, first, every = [], [], []

    def exps(n=None, zero=True):
        a = np.zeros(m)
        for j in rng.sample(range(m), min(m, n or rng.randint(0 if zero else 1, 3))):
            a[j] = rng.choice([1, -1, 2, -2, .5, -.5, rng.uniform(-2, 2)])
        return a

    def posy(terms, target):
        w = np.array([rng.uniform(.1, 1) for _ in terms])
        w *= target/w.sum()
        return [(wi*math.exp(-a.dot(x0)), a) for wi, a in zip(w, terms)]
    cost = [exps(None, False)] + [exps() for _ in range(rng.randint(0, 3))]
    posys.append(posy(cost, math.exp(rng.uniform(-2, 2))))
    eq = m > 1 and rng.random() < .35
    if eq:
        a = exps(rng.randint(2, m), False)
        c = math.exp(-a.dot(x0))
        first.append(len(posys)), every.extend([len(posys), len(posys) + 1])
        posys.append([(c, a)])
        posys.append([(1/c, -a)])
    rest = []
    for j in range(m):      # both bounds of every variable, alone or inside posynomials
        for s in (1, -1):
            a = np.zeros(m)
            a[j] = s*rng.choice([1, 1, .5, 2])
            terms = [a]
            if rng.random() < .4:
                terms += [exps() for _ in range(rng.randint(1, 3))]
                rng.shuffle(terms)
            rest.append(posy(terms, rng.uniform(.2, .9)))
    for _ in range(rng.randint(0, 3)):
        rest.append(posy([exps() for _ in range(rng.randint(1, 3))], rng.uniform(.2, .9)))
    rng.shuffle(rest)
    at = rng.randint(0, len(rest))
    posys = posys[:1] + rest[:at] + posys[1:] + rest[at:]
    first, every = [i + at for i in first], [i + at for i in every]
    k = [len(p) for p in posys]
    starts = np.cumsum([0] + k)
    flat = [t for p in posys for t in p]
    return Program([t[0] for t in flat], [t[1] for t in flat], k,
                   [starts[i] for i in first], [starts[i] for i in every]), x0


def describe(p):
    return "c=%s A=%s k=%s" % (p.c.tolist(), p.A.tolist(), p.k)


def reference(p):
    "primal, posynomial multipliers and objective, by direct use of cvxopt"
    from cvxopt import matrix, solvers
    pairs = p.pairs()
    eq = {i for pr in pairs for i in pr}
    lin = [i for i in range(1, len(p.k)) if p.k[i] == 1 and i not in eq]
    lse = [i for i in range(len(p.k)) if i == 0 or p.k[i] > 1]
    rows = [t for i in lse for t in range(p.starts[i], p.starts[i+1])]
    kw = {}
    if lin:
        ts = [p.starts[i] for i in lin]
        kw["G"], kw["h"] = matrix(p.A[ts]), matrix(-np.log(p.c[ts]))
    if pairs:
        ts = [p.starts[i] for i, _ in pairs]
        kw["A"], kw["b"] = matrix(p.A[ts]), matrix(-np.log(p.c[ts]))
    try:
        out = solvers.gp([p.k[i] for i in lse], matrix(p.A[rows]), matrix(np.log(p.c[rows])),
                         kktsolver="ldl", options={"show_progress": False}, **kw)
    except (ValueError, ArithmeticError):
        raise fakemosek.Unsolved("error")
    if out["status"] != "optimal":
        raise fakemosek.Unsolved(out["status"])
    la = np.zeros(len(p.k))
    la[lin] = np.ravel(out["zl"])[:len(lin)]
    la[lse] = [1.0] + list(out["znl"])
    for (i, j), y in zip(pairs, out["y"]):
        la[i if y >= 0 else j] = abs(y)
    x = np.ravel(out["x"])
    return x, la, float(p.values(x)[0])


# ---------------------------------------------------------------- command line
SCRIPT = """#!/bin/sh
echo "MOSEK EXPOPT stand-in"
{ for a in "$@"; do printf '%%s\\n' "$a"; done; echo END; } > "%(dir)s/req"
read rc < "%(dir)s/resp"
if [ "$rc" = K ]; then kill -9 $$; fi
echo "Return code - $rc"
exit $rc
"""


def parse(filename):
    "the program in a problem file"
    with open(filename) as f:
        lines = [l.split("*")[0] for l in f]
    tok = " ".join(lines).split()
    numcon, numvar, numter = (int(t) for t in tok[:3])
    c = [float(t) for t in tok[3:3+numter]]
    p = [int(t) for t in tok[3+numter:3+2*numter]]
    trip = tok[3+2*numter:]
    if len(trip) % 3 or len(p) != numter:
        raise Violation("problem-file", "%s tokens do not make a problem: %s"
                        % (len(tok), tok[:60]))
    A = np.zeros((numter, numvar))
    for i in range(0, len(trip), 3):
        t, j, v = int(trip[i]), int(trip[i+1]), float(trip[i+2])
        if not (0 <= t < numter and 0 <= j < numvar):
            raise Violation("problem-file", "entry (%s, %s) of a %s by %s problem"
                            % (t, j, numter, numvar))
        A[t, j] += v
    if p != sorted(p) or set(p) != set(range(numcon + 1)):
        raise Violation("problem-file", "%s constraints but indexes %s" % (numcon, p))
    return Program(c, A, [p.count(i) for i in range(numcon + 1)])


class Server:
    "the process behind `mskexpopt`"
    def __init__(self, rng):
        self.rng, self.dir = rng, os.path.abspath(tempfile.mkdtemp(prefix="srv", dir="."))
        self.bin = os.path.join(self.dir, "mosek", "bin")
        os.makedirs(self.bin)
        self.exe = os.path.join(self.bin, "mskexpopt")
        with open(self.exe, "w") as f:
            f.write(SCRIPT % {"dir": self.dir})
        os.chmod(self.exe, stat.S_IRWXU)
        for n in ("req", "resp"):
            os.mkfifo(os.path.join(self.dir, n))
        self.got, self.sent, self.errors, self.plans = [], [], [], []
        self.digits = rng.choice([6, 9, 15])
        self.thread = threading.Thread(target=self.loop, daemon=True)
        self.thread.start()

    def loop(self):
        while True:
            with open(os.path.join(self.dir, "req")) as f:
                args = f.read().split("\n")
            if args[0] == "STOP":
                return
            rc = "1"
            try:
                rc = self.handle(args[:args.index("END")])
            except BaseException as e:  # pylint: disable=broad-except
                self.errors.append(e)
            with open(os.path.join(self.dir, "resp"), "w") as f:
                f.write("%s\n" % rc)

    def stop(self):
        with open(os.path.join(self.dir, "req"), "w") as f:
            f.write("STOP\n")
        self.thread.join()

    def text(self, x, nu, obj):
        num = "%%-8d%%.%de   \n" % self.digits
        out = ["PROBLEM STATUS      : PRIMAL_AND_DUAL_FEASIBLE\n",
               "SOLUTION STATUS     : OPTIMAL\n",
               "OBJECTIVE           : %%.%de\n" % self.digits % obj,
               "\n", "PRIMAL VARIABLES\n", "INDEX   ACTIVITY\n"]
        out += [num % (i + 1, v) for i, v in enumerate(x)]
        out += ["\n", "DUAL VARIABLES\n", "INDEX   ACTIVITY\n"]
        out += [num % (i + 1, v) for i, v in enumerate(nu)]
        return out

    def handle(self, args):
        i = args.index("-sol")
        sol = args[i+1]
        names = args[:i] + args[i+2:]
        p = parse(names[0])
        self.got.append(p)
        plan = self.plans.pop(0) if self.plans else ("ok",)
        if plan[0] == "rc":
            if plan[2]:
                with open(sol, "w") as f:
                    f.write("PROBLEM STATUS      : UNKNOWN\n")
            return plan[1]
        if plan[0] == "nofile":
            return 0
        if plan[0] == "status":
            lines = ["PROBLEM STATUS      : %s\n" % plan[1],
                     "SOLUTION STATUS     : %s\n" % plan[2]]
            if plan[3]:
                lines += ["OBJECTIVE           : 1.0e+000\n", "\n", "PRIMAL VARIABLES\n",
                          "INDEX   ACTIVITY\n", "\n", "DUAL VARIABLES\n",
                          "INDEX   ACTIVITY\n"]
        else:
            x, la, obj = reference(p)
            lines = self.text(x, p.split(x, la), obj)
            rd = lambda a: [float(l.split()[1]) for l in a]
            n = len(x)
            self.sent.append({"primal": np.array(rd(lines[6:6+n])),
                              "nu": np.array(rd(lines[9+n:])),
                              "objective": float(lines[2].split()[2])})
            if plan[0] != "ok":
                lines = damage(lines, plan, n)
        with open(sol, "w") as f:
            f.writelines(lines)
        return 0


def damage(lines, plan, n):
    kind, r = plan[0], plan[1]
    if kind == "cut":
        return lines[:int(r*len(lines))]
    if kind == "droprow":
        del lines[9+n+int(r*(len(lines)-9-n))]
    elif kind == "dropvar":
        del lines[6+int(r*n)]
    elif kind == "extradual":
        lines.append("%-8d%e   \n" % (len(lines)-8-n, r))
    elif kind == "extravar":
        lines.insert(6+n, "%-8d%e   \n" % (n+1, r))
    elif kind == "word":
        i = 6+int(r*n)
        lines[i] = lines[i].split()[0] + "       n/a   \n"
    elif kind == "noval":
        i = 6+int(r*n)
        lines[i] = lines[i].split()[0] + "   \n"
    elif kind == "header":
        i = [0, 1, 2, 4, 5, 7+n, 8+n][int(r*7)]
        lines[i] = "*** unexpected ***\n"
    elif kind == "garbage":
        return ["\x00\x01\x02 %r\n" % r]
    elif kind == "empty":
        return []
    return lines


@contextlib.contextmanager
def cli(rng, rec, how="path"):
    "an environment in which mskexpopt is found, with temporary files counted"
    import gpkit
    saved = dict(os.environ), tempfile.tempdir, dict(gpkit.settings)
    srv = Server(rng)
    tmp = os.path.join(srv.dir, "tmp")
    os.mkdir(tmp)
    os.environ["TMPDIR"], tempfile.tempdir = tmp, tmp
    srv.tmp = tmp
    gpkit.settings.pop("mosek_bin_dir", None)
    if how == "path":
        os.environ["PATH"] = srv.bin + os.pathsep + os.environ["PATH"]
    elif how == "setting":
        gpkit.settings["mosek_bin_dir"] = srv.bin
    elif how == "decoy":      # another directory's name starts the same
        os.makedirs(srv.bin + "2")
        os.environ["PATH"] = srv.bin + "2" + os.pathsep + os.environ["PATH"]
        gpkit.settings["mosek_bin_dir"] = srv.bin
    elif how == "both":
        os.environ["PATH"] = os.environ["PATH"] + os.pathsep + srv.bin
        gpkit.settings["mosek_bin_dir"] = srv.bin
    try:
        yield srv
        if srv.errors:
            raise srv.errors[0]
    finally:
        srv.stop()
        os.environ.clear()
        os.environ.update(saved[0])
        tempfile.tempdir = saved[1]
        gpkit.settings.clear()
        gpkit.settings.update(saved[2])
        shutil.rmtree(srv.dir, ignore_errors=True)


def clean(rec, srv, what, before):
    "Monitor: no temporary files left"
    left = os.listdir(srv.tmp)
    if left:
        raise Violation("leftover-files", "%s left %s in the temporary directory"
                        % (what, left))
    now = set(os.listdir("."))
    if now != before:
        raise Violation("leftover-files", "%s left %s in the working directory"
                        % (what, now ^ before))
    rec.ev("no_files_left")


def same_program(rec, got, want, what):
    "Monitor: the program received is the one given"
    if got.k != want.k or got.A.shape != want.A.shape:
        raise Violation("different-program", "%s: received k %s and A %s, given %s and %s"
                        % (what, got.k, got.A.shape, want.k, want.A.shape))
    if not np.allclose(got.c, want.c, 1e-14, 0) or \
            not np.allclose(got.A, want.A, 1e-14, 1e-300):
        raise Violation("different-program", "%s: received %s, given %s"
                        % (what, describe(got), describe(want)))
    rec.ev("programs_compared")


def number(v):
    return float(getattr(v, "magnitude", v))


def snap(sol):
    "numbers of a solution, with those of its constraints"
    out = c12.snap(sol)
    for i, v in enumerate(sol["sensitivities"]["constraints"].values()):
        out["con", i] = float(np.sum(v))
    for k, v in sol["sensitivities"]["cost"].items():
        out["costsens", str(k)] = float(np.sum(v))
    return out


def replay(m, answers, log):
    "the model solved by a function giving these answers"
    answers = list(answers)

    def answering(**kw):
        log.append(Program.seen(kw))
        return {"status": "optimal", **{k: np.array(v) if k != "objective" else v
                                        for k, v in answers.pop(0).items()}}
    return m.solve(answering, verbosity=0)


def random_spec(rng):
    return models.random_gp(rng, odd=rng.choice([0, .25]), nfree=rng.randint(1, 4), ncons=rng.randint(0, 5),
                            nconst=rng.randint(0, 3))


def honest_cost(spec):
    try:
        return number(spec.model().solve(verbosity=0)["cost"])
    except Exception:  # pylint: disable=broad-except
        raise Skip("cvxopt does not solve it")


def cli_model(rng, rec):
    import gpkit
    spec = random_spec(rng)
    how = rng.choice(["path", "path", "setting", "both", "decoy"])
    route = rng.choice(["name", "name", "default", "dir", "verbose"])
    ref = honest_cost(spec)
    what = "mosek_cli (%s, %s) on %s" % (how, route, spec.text())
    with cli(rng, rec, how) as srv:
        before = set(os.listdir("."))
        m = spec.model()
        kw = {"verbosity": 0}
        if route == "default":
            gpkit.settings["default_solver"] = "mosek_cli"
        else:
            kw["solver"] = "mosek_cli"
        if route == "dir":
            kw["path"] = os.path.join(srv.dir, "my dir")
            os.mkdir(kw["path"])
        if route == "verbose":
            kw["verbosity"] = rng.choice([1, 2])
        paths = []
        for _ in range(rng.choice([1, 1, 2])):
            del srv.sent[:]
            try:
                sol = m.solve(**kw)
            except gpkit.exceptions.Infeasible as e:
                if srv.errors and isinstance(srv.errors[0], fakemosek.Unsolved):
                    srv.errors.clear()
                    raise Skip("stand-in did not converge")
                raise Violation("failed", "%s: %r (%r)" % (what, e, e.__cause__))
            paths.append(os.environ["PATH"])
            if m.program.solver_out["solver"] != "mosek_cli":
                raise Violation("solver-name", "%s: %r" % (what, m.program.solver_out))
            clean(rec, srv, what, before)
            log = []
            want = replay(m, srv.sent, log)
            same_program(rec, srv.got[-1], log[0], what)
            diff = c12.same_snap(snap(sol), snap(want), 1e-10)
            if diff:
                raise Violation("answer-changed", "%s: the answer sent would report %s"
                                % (what, diff))
            if abs(number(sol["cost"])/ref - 1) > 1e-4:
                raise Violation("wrong-cost", "%s: %s against %s" % (what, sol["cost"], ref))
            rec.ev("solutions_compared")
        if len(set(paths)) > 1:
            raise Violation("path-grows", "%s: PATH %s" % (what, paths))
    rec.ev("cli_" + how)
    rec.ev("route_" + route)
    rec.sig(what)
    rec.sample(what)


def cli_raw(rng, rec):
    "matrices straight into the adapter, repeatedly"
    from gpkit.solvers import mosek_cli
    with cli(rng, rec) as srv:
        before = set(os.listdir("."))
        path = None
        if rng.random() < .3:
            path = os.path.join(srv.dir, "out")
            os.mkdir(path)
        adapter = mosek_cli.optimize_generator(path)
        done = 0
        for _ in range(rng.randint(1, 3)):
            p, _ = raw(rng)
            what = "command line adapter (use %i, path %s) on %s" % (done, path, describe(p))
            try:
                out = adapter(**p.kwargs())
            except Exception as e:  # pylint: disable=broad-except
                if srv.errors and isinstance(srv.errors[0], fakemosek.Unsolved):
                    srv.errors.clear()
                    rec.ev("unsolved")
                    continue
                raise Violation("failed", "%s: %r" % (what, e))
            done += 1
            same_program(rec, srv.got[-1], p, what)
            sent = srv.sent[-1]
            for key in ("primal", "nu", "objective"):
                if not np.array_equal(np.ravel(out[key]), np.ravel(sent[key])):
                    raise Violation("answer-changed", "%s: %s sent %s, returned %s"
                                    % (what, key, sent[key], out[key]))
            if out["status"] != "OPTIMAL":
                raise Violation("answer-changed", "%s: status %r" % (what, out["status"]))
            clean(rec, srv, what, before)
            rec.ev("raw_answers")
            rec.sig(what)
    if done > 1:
        rec.ev("adapter_reused")


STATUSES = ["UNKNOWN", "PRIMAL_FEASIBLE", "DUAL_FEASIBLE", "PRIMAL_INFEASIBLE_OR_UNBOUNDED",
            "PRIMAL_AND_DUAL_INFEASIBLE", "ILL_POSED", "NEAR_PRIMAL_FEASIBLE"]
DAMAGE = ["cut", "cut", "droprow", "dropvar", "extradual", "extravar", "word", "noval",
          "header", "garbage", "empty"]


def fault(rng):
    from gpkit import exceptions as ex
    r = rng.random()
    if r < .15:
        return ("rc", rng.choice([233, 240]), rng.random() < .3), ex.InvalidLicense
    if r < .3:
        return ("rc", rng.choice([1, 2, 255, 100, "K"]), rng.random() < .3), \
            ex.UnknownInfeasible
    if r < .4:
        return ("status", "PRIMAL_INFEASIBLE", "PRIMAL_INFEASIBLE_CER", rng.random() < .7), \
            ex.PrimalInfeasible
    if r < .5:
        return ("status", "DUAL_INFEASIBLE", "DUAL_INFEASIBLE_CER", rng.random() < .7), \
            ex.DualInfeasible
    if r < .6:
        return ("status", rng.choice(STATUSES), "UNKNOWN", rng.random() < .7), \
            ex.UnknownInfeasible
    if r < .67:
        return ("nofile",), None
    return (rng.choice(DAMAGE), rng.random()), None


def cli_fault(rng, rec):
    import gpkit
    from gpkit import exceptions as ex
    from gpkit.solvers import mosek_cli
    spec = random_spec(rng)
    with cli(rng, rec) as srv:
        before = set(os.listdir("."))
        m = spec.model()
        direct = rng.random() < .4
        kw = {}
        if rng.random() < .35:
            kw["path"] = os.path.join(srv.dir, "mine")
            os.mkdir(kw["path"])
        hist = []
        adapter = mosek_cli.optimize_generator(**kw) if direct else None
        for _ in range(rng.randint(1, 4)):
            if rng.random() < .3:
                plan, cls = ("ok",), None
            elif rng.random() < .07:
                plan, cls = ("missing",), ex.UnknownInfeasible
            else:
                plan, cls = fault(rng)
            hist.append(plan)
            what = "%s after %s (path %s) on %s" % (
                "adapter" if direct else "mosek_cli", hist, kw, spec.text())
            srv.plans[:] = [plan]
            if plan[0] == "missing":
                srv.plans[:] = []
                os.rename(srv.exe, srv.exe + ".gone")
            got = len(srv.got)
            try:
                if direct:
                    p, _ = raw(rng)
                    out = adapter(**p.kwargs())
                else:
                    out = m.solve("mosek_cli", verbosity=0, **kw)
                error = None
            except Exception as e:  # pylint: disable=broad-except
                out, error = None, e
            finally:
                if plan[0] == "missing":
                    os.rename(srv.exe + ".gone", srv.exe)
            if srv.errors and isinstance(srv.errors[0], fakemosek.Unsolved):
                srv.errors.clear()
                raise Skip("stand-in did not converge")
            if plan[0] != "missing" and len(srv.got) != got + 1:
                raise Violation("not-run", "%s: external solver ran %i times (%r)"
                                % (what, len(srv.got) - got, error))
            if plan[0] == "ok":
                if error is not None:
                    raise Violation("failed", "%s: %r" % (what, error))
                if not direct:
                    want = replay(m, srv.sent[-1:], [])
                    diff = c12.same_snap(snap(out), snap(want), 1e-10)
                    if diff:
                        raise Violation("answer-changed", "%s: %s" % (what, diff))
                rec.ev("ok_in_history")
            else:
                if error is None:
                    raise Violation("fault-hidden", "%s returned %s" % (
                        what, {k: out[k] for k in ("cost", "primal", "nu") if k in out}
                        if isinstance(out, dict) else out))
                if cls is not None and not (direct and plan[0] == "missing") and \
                        type(error) is not cls:
                    raise Violation("wrong-error", "%s: %r instead of %s (cause %r)"
                                    % (what, error, cls.__name__, error.__cause__))
                if not direct and cls is None and not isinstance(
                        error, (ex.UnknownInfeasible, RuntimeWarning)):
                    raise Violation("wrong-error", "%s: %r (cause %r)"
                                    % (what, error, error.__cause__))
                rec.ev("fault_" + plan[0])
            clean(rec, srv, what, before)
        rec.ev("histories")
        rec.sig(what)
        rec.sample(what)


# ---------------------------------------------------------------- conic
@contextlib.contextmanager
def conif(rec):
    "mosek_conif on the stand-in module"
    old = sys.modules.get("mosek")
    sys.modules["mosek"] = fakemosek.module()
    fakemosek.plan.reset()
    try:
        yield fakemosek.plan
    finally:
        fakemosek.plan.reset()
        if old is None:
            sys.modules.pop("mosek", None)
        else:
            sys.modules["mosek"] = old
    del rec


def equivalent(rng, rec, task, p, x0, what):
    "Monitor: the conic task restricted to a point is the given program at that point"
    n = p.A.shape[1]
    eqs = {i for pr in p.pairs() for i in pr}
    tested = 0
    for spread in (0, .2, .6, 1.2):
        x = np.array([v + rng.uniform(-spread, spread) for v in x0])
        if eqs and spread:      # stay on the equalities half the time
            if rng.random() < .6:
                E = np.array([p.A[p.starts[i]] for i, _ in p.pairs()])
                r = E.dot(x) + np.array([math.log(p.c[p.starts[i]]) for i, _ in p.pairs()])
                x = x - np.linalg.pinv(E).dot(r)
        f = p.values(x)
        worst = max([-math.inf] + [math.log(f[i]) for i in range(1, len(f)) if i not in eqs])
        off = max([0] + [abs(math.log(f[i])) for i in eqs])
        feasible = worst < -1e-3 and off < 1e-9
        infeasible = worst > 1e-2 or off > 1e-2
        if not feasible and not infeasible or (np.abs(np.log(f)) > 8).any():
            continue
        fixed = {j: float(x[j]) for j in range(n)}
        try:
            slack = task.solve(fixed, relax=True)["slack"]
            obj = task.solve(fixed)["obj"] if feasible else None
        except (fakemosek.Unsolved, ValueError, ArithmeticError):
            rec.ev("unsolved_points")
            continue
        if feasible and slack > 1e-6:
            raise Violation("different-program", "%s: excludes %s, where constraints are %s"
                            " (violated by %s)" % (what, x, f[1:], slack))
        if infeasible and slack < 1e-6:
            raise Violation("different-program", "%s: admits %s, where constraints are %s"
                            % (what, x, f[1:]))
        if feasible and abs(obj - math.log(f[0])) > 1e-4*(1 + abs(obj)):
            raise Violation("different-program", "%s: objective %s at %s, log cost %s"
                            % (what, obj, x, math.log(f[0])))
        tested += 1
        rec.ev("feasible_points" if feasible else "infeasible_points")
    return tested


def sized(p):
    return len(p.c) < 40 and np.all(np.abs(np.log(p.c)) < 12)


def conif_model(rng, rec):
    from gpkit import exceptions as ex
    spec = random_spec(rng)
    ref = honest_cost(spec)
    what = "mosek_conif on %s" % spec.text()
    with conif(rec) as plan:
        m = spec.model()
        try:
            sol = m.solve("mosek_conif", verbosity=rng.choice([0, 0, 1, 2]))
        except ex.Infeasible as e:
            if isinstance(e.__cause__, (fakemosek.Unsolved, ArithmeticError, ValueError)) \
                    and "fakemosek" in frames(e.__cause__):
                raise Skip("stand-in did not converge")
            raise Violation("failed", "%s: %r (%r)" % (what, e, e.__cause__))
        out = dict(m.program.solver_out)
        la = np.ravel(out["la"])
        sent = plan.tasks[-1].sol
        if min(sent["sux"].min(initial=0), sent["suc"].min(initial=0)) < 0:
            rec.ev("multipliers_below_zero")
        if (la < 0).any():
            raise Violation("wrong-dual", "%s: passes on the multipliers %s" % (what, la))
        la = la if len(la) == len(m.program.k) else np.hstack([[1.0], la])
        log = []
        want = replay(m, [{"primal": plan.tasks[-1].sol["x"][:len(out["primal"])],
                           "la": la, "objective": math.exp(plan.tasks[-1].sol["obj"])}], log)
        p = log[0]
        p.kkt(out["primal"], la, out["objective"], what)
        diff = c12.same_snap(snap(sol), snap(want), 1e-10)
        if diff:
            raise Violation("answer-changed", "%s: the answer sent would report %s"
                            % (what, diff))
        if abs(number(sol["cost"])/ref - 1) > 2e-4:
            raise Violation("wrong-cost", "%s: %s against %s" % (what, sol["cost"], ref))
        if sized(p) and len(plan.tasks) == 1:
            equivalent(rng, rec, plan.tasks[0], p, out["primal"], what)
    rec.ev("conif_solutions")
    rec.sig(what)
    rec.sample(what)


def frames(e):
    out, tb = [], e.__traceback__
    while tb:
        out.append(tb.tb_frame.f_code.co_filename)
        tb = tb.tb_next
    return " ".join(out)


def conif_raw(rng, rec):
    p, x0 = raw(rng)
    what = "conic adapter on %s" % describe(p)
    with conif(rec) as plan:
        from gpkit.solvers import mosek_conif
        with modules(mosek_conif):
            try:
                out = mosek_conif.optimize(**p.kwargs(), verbose=rng.random() < .5)
            except (fakemosek.Unsolved, ArithmeticError, ValueError) as e:
                if "fakemosek" in frames(e):    # but what it was given can be judged
                    rec.ev("unsolved")
                    if sized(p) and len(plan.tasks) == 1:
                        equivalent(rng, rec, plan.tasks[0], p, x0, what)
                    raise Skip("stand-in did not converge")
                raise
            la = np.hstack([[1.0], np.ravel(out["la"])])
            p.kkt(out["primal"], la, out["objective"], what)
            rec.ev("raw_conic")
            if sized(p):
                equivalent(rng, rec, plan.tasks[0], p, x0, what)
    rec.sig(what)


@contextlib.contextmanager
def modules(mod):
    "the adapter bound to the stand-in in sys.modules"
    old, mod.mosek = mod.mosek, sys.modules["mosek"]
    try:
        yield
    finally:
        mod.mosek = old


def conif_fault(rng, rec):
    from gpkit import exceptions as ex
    spec = random_spec(rng)
    hist = []
    with conif(rec) as plan:
        from gpkit.solvers import mosek_conif
        with modules(mosek_conif):
            m = spec.model()
            for _ in range(rng.randint(1, 4)):
                plan.reset()
                r, cls, cause = rng.random(), None, None
                S, C = fakemosek.solsta, fakemosek.rescode
                if r < .25:
                    pass
                elif r < .4:
                    plan.status, cls = S.prim_infeas_cer, ex.PrimalInfeasible
                elif r < .55:
                    plan.status, cls = S.dual_infeas_cer, ex.DualInfeasible
                elif r < .7:
                    plan.status = rng.choice([S.unknown, S.prim_feas, S.dual_feas,
                                              S.prim_and_dual_feas, S.prim_illposed_cer,
                                              S.dual_illposed_cer])
                    cls = ex.UnknownInfeasible
                elif r < .85:
                    plan.error = fakemosek.Error(rng.choice(
                        [C.err_missing_license_file, C.err_license_version,
                         C.err_license_expired]), "license")
                    cls = ex.InvalidLicense
                else:
                    plan.error = cause = rng.choice(
                        [fakemosek.Error(C.err_internal, "x"),
                         fakemosek.Error(C.err_space, "y"), MemoryError("z")])
                    cls = ex.UnknownInfeasible
                hist.append((plan.status, plan.error))
                what = "mosek_conif after %s on %s" % (hist, spec.text())
                try:
                    sol = m.solve("mosek_conif", verbosity=0)
                    error = None
                except Exception as e:  # pylint: disable=broad-except
                    sol, error = None, e
                if cls is None:
                    if error is not None:
                        if error.__cause__ and "fakemosek" in frames(error.__cause__):
                            raise Skip("stand-in did not converge")
                        raise Violation("failed", "%s: %r" % (what, error))
                    rec.ev("ok_in_history")
                    continue
                if type(error) is not cls:
                    raise Violation("wrong-error", "%s: %r instead of %s (returned %s)"
                                    % (what, error, cls.__name__, sol))
                if cause is not None and error.__cause__ is not cause:
                    raise Violation("cause-lost", "%s: cause %r" % (what, error.__cause__))
                rec.ev("conif_" + cls.__name__)
    rec.ev("histories")
    rec.sig(what)


# ---------------------------------------------------------------- cvxopt
def cvx_raw(rng, rec):
    "the cvxopt adapter on matrices, judged by the optimality conditions"
    from gpkit import exceptions as ex
    from gpkit.solvers import cvxopt
    p, _ = raw(rng)
    kw = p.kwargs()
    leqs = rng.random() < .8 or bool(p.all)
    what = "cvxopt adapter (use_leqs %s) on %s" % (leqs, describe(p))
    try:
        out = cvxopt.optimize(kktsolver="ldl", use_leqs=leqs, **kw)
    except ex.Infeasible:
        try:
            reference(p)
        except fakemosek.Unsolved:
            raise Skip("cvxopt does not solve it")
        raise Violation("failed", "%s: solved directly but not through the adapter" % what)
    p.kkt(out["primal"], out["la"], out["objective"], what)
    rec.ev("cvxopt_answers")
    if p.all:
        rec.ev("cvxopt_equalities")
    rec.sig(what)


KINDS = {"cli": (cli_model, 120, 3000), "cliraw": (cli_raw, 120, 3000),
         "clifault": (cli_fault, 240, 6000), "conif": (conif_model, 120, 3000),
         "conifraw": (conif_raw, 150, 4000), "coniffault": (conif_fault, 150, 3000),
         "cvxraw": (cvx_raw, 200, 6000)}
NEED = {"multipliers_below_zero": 20, "programs_compared": 150, "solutions_compared": 60, "no_files_left": 300,
        "adapter_reused": 40, "ok_in_history": 80, "fault_rc": 30, "fault_status": 30,
        "fault_cut": 5, "conif_solutions": 60, "raw_conic": 80, "feasible_points": 150,
        "infeasible_points": 150, "conif_PrimalInfeasible": 20, "conif_InvalidLicense": 20,
        "cvxopt_answers": 120, "cvxopt_equalities": 20}
