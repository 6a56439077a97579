"""A stand-in for the `mosek` module: records a conic task and solves it with cvxopt.

It knows nothing about geometric programs: a task is a list of bounded variables, bounded
linear rows, primal exponential cones and a linear objective, and is solved as a general
convex program.  `plan` decides what the next optimize() answers.
"""
import enum
import math
import types
import numpy as np


class boundkey(enum.Enum):
    lo, up, fx, fr, ra = range(5)


class conetype(enum.Enum):
    quad, rquad, pexp, dexp, ppow, dpow, zero = range(7)


class objsense(enum.Enum):
    minimize, maximize = range(2)


class soltype(enum.Enum):
    itr, bas, itg = range(3)


class streamtype(enum.Enum):
    log, msg, err, wrn = range(4)


class iparam(enum.Enum):
    infeas_report_auto, log_presolve, log, num_threads, presolve_use = range(5)


class onoffkey(enum.IntEnum):
    off, on = range(2)


class solsta(enum.Enum):
    (unknown, optimal, prim_feas, dual_feas, prim_and_dual_feas, prim_infeas_cer,
     dual_infeas_cer, prim_illposed_cer, dual_illposed_cer, integer_optimal) = range(10)


class prosta(enum.Enum):
    unknown, prim_and_dual_feas, prim_feas, dual_feas, prim_infeas, dual_infeas = range(6)


class rescode(enum.IntEnum):
    ok = 0
    err_license = 1000
    err_license_expired = 1001
    err_license_version = 1002
    err_missing_license_file = 1008
    err_license_max = 1016
    err_space = 1051
    err_lower_bound_is_a_nan = 1390
    err_internal = 3000
    trm_max_iterations = 100000
    trm_stall = 100006


class Error(Exception):
    def __init__(self, code, msg=""):
        super().__init__("rescode.%s(%d): %s" % (code.name, int(code), msg))
        self.errno, self.msg = code, msg


class Unsolved(Exception):
    "the stand-in's own solver did not converge"


class Plan:
    "what optimize() does, and what happened"
    def __init__(self):
        self.reset()

    def reset(self):
        self.error, self.status, self.tasks, self.open = None, None, [], 0


plan = Plan()


class Env:
    def __init__(self, *_, **__):
        plan.open += 1
        self.closed = False

    def Task(self, *_, **__):
        t = Task()
        plan.tasks.append(t)
        return t

    def set_Stream(self, *_):
        pass

    def __enter__(self):
        return self

    def __exit__(self, *_):
        if not self.closed:
            plan.open -= 1
        self.closed = True

    def __del__(self):
        self.__exit__()


BIG = 1e30


class Task:
    # pylint: disable=too-many-public-methods,missing-docstring
    def __init__(self):
        self.nvar = self.ncon = 0
        self.vb, self.cb = {}, {}        # index -> (lower, upper)
        self.rows, self.cones, self.c = {}, [], {}
        self.sense, self.stream = objsense.minimize, None
        self.cfix = 0.0
        self.sol = None
        self.closed = False

    def __enter__(self):
        return self

    def __exit__(self, *_):
        self.closed = True

    # -- building ----------------------------------------------------------
    def appendvars(self, n):
        for j in range(self.nvar, self.nvar + int(n)):
            self.vb[j] = (0.0, 0.0)     # mosek's default: fixed at zero
        self.nvar += int(n)

    def appendcons(self, n):
        for i in range(self.ncon, self.ncon + int(n)):
            self.cb[i] = (-BIG, BIG)
        self.ncon += int(n)

    def getnumvar(self):
        return self.nvar

    def getnumcon(self):
        return self.ncon

    @staticmethod
    def _bound(bk, lo, up):
        lo, up = float(lo), float(up)
        if math.isnan(lo) or math.isnan(up):
            raise Error(rescode.err_lower_bound_is_a_nan, "bound is nan")
        return {boundkey.fr: (-BIG, BIG), boundkey.lo: (lo, BIG), boundkey.up: (-BIG, up),
                boundkey.fx: (lo, lo), boundkey.ra: (lo, up)}[bk]

    def _setb(self, table, n, idx, bk, lo, up):
        idx = [int(i) for i in idx]
        lens = {len(idx), len(bk), len(lo), len(up)}
        if len(lens) != 1:
            raise ValueError("Array arguments are of different lengths: %s" % lens)
        for i, b, l, u in zip(idx, bk, lo, up):
            if not 0 <= i < n:
                raise IndexError("index %s out of bounds" % i)
            table[i] = self._bound(b, l, u)

    def putvarbound(self, j, bk, lo, up):
        self._setb(self.vb, self.nvar, [j], [bk], [lo], [up])

    def putvarboundlist(self, js, bk, lo, up):
        self._setb(self.vb, self.nvar, js, bk, lo, up)

    def putvarboundslice(self, a, b, bk, lo, up):
        self._setb(self.vb, self.nvar, range(a, b), bk, lo, up)

    def putconbound(self, i, bk, lo, up):
        self._setb(self.cb, self.ncon, [i], [bk], [lo], [up])

    def putconboundlist(self, idx, bk, lo, up):
        self._setb(self.cb, self.ncon, idx, bk, lo, up)

    def putconboundslice(self, a, b, bk, lo, up):
        self._setb(self.cb, self.ncon, range(a, b), bk, lo, up)

    def putaij(self, i, j, v):
        i, j, v = int(i), int(j), float(v)
        if not (0 <= i < self.ncon and 0 <= j < self.nvar):
            raise IndexError("entry (%s, %s) out of bounds" % (i, j))
        self.rows.setdefault(i, {})[j] = v

    def putaijlist(self, idx, js, vs):
        idx, js, vs = list(idx), list(js), list(vs)
        if not len(idx) == len(js) == len(vs):
            raise ValueError("Array arguments are of different lengths")
        for i, j, v in zip(idx, js, vs):
            self.putaij(i, j, v)

    def putarow(self, i, js, vs):
        self.rows[int(i)] = {}
        for j, v in zip(js, vs):
            self.putaij(i, j, v)

    def putarowlist(self, idx, ptrb, ptre, js, vs):
        for i, a, b in zip(idx, ptrb, ptre):
            self.putarow(i, js[a:b], vs[a:b])

    def appendcone(self, ct, par, js):
        if ct is not conetype.pexp or len(js) != 3:
            raise NotImplementedError(ct)
        js = [int(j) for j in js]
        if any(not 0 <= j < self.nvar for j in js):
            raise IndexError("cone member out of bounds")
        if any(j in c for j in js for c in self.cones):
            raise Error(rescode.err_internal, "cones overlap")
        self.cones.append(js)

    def appendconeseq(self, ct, par, n, j):
        self.appendcone(ct, par, range(int(j), int(j) + int(n)))

    def appendconesseq(self, cts, pars, ns, j):
        j = int(j)
        for ct, par, n in zip(cts, pars, ns):
            self.appendconeseq(ct, par, n, j)
            j += int(n)

    def putcj(self, j, v):
        if not 0 <= int(j) < self.nvar:
            raise IndexError("objective index out of bounds")
        self.c[int(j)] = float(v)

    def putclist(self, js, vs):
        for j, v in zip(js, vs):
            self.putcj(j, v)

    def putcslice(self, a, b, vs):
        self.putclist(range(a, b), vs)

    def putcfix(self, v):
        self.cfix = float(v)

    def putobjsense(self, s):
        self.sense = s

    def putintparam(self, *_):
        pass

    putdouparam = putstrparam = putparam = putintparam

    def set_Stream(self, _, fn):
        self.stream = fn

    def solutionsummary(self, *_):
        if self.stream:
            self.stream("solution summary\n")

    # -- solving -----------------------------------------------------------
    def arrays(self):
        "objective, linear rows (lower, upper), variable bounds"
        c = np.zeros(self.nvar)
        for j, v in self.c.items():
            c[j] = v
        if self.sense is objsense.maximize:
            c = -c
        R = np.zeros((self.ncon, self.nvar))
        for i, row in self.rows.items():
            for j, v in row.items():
                R[i, j] = v
        return c, R

    def optimize(self):
        if self.stream:
            self.stream("stand-in optimizer\n")
        if plan.error is not None:
            raise plan.error
        if plan.status in (None, solsta.optimal):
            self.sol = self.solve()
        else:
            self.sol = {"status": plan.status, "x": np.zeros(self.nvar), "obj": 0.0,
                        "sux": np.zeros(self.nvar), "slx": np.zeros(self.nvar),
                        "suc": np.zeros(self.ncon), "slc": np.zeros(self.ncon)}
        return rescode.ok

    def solve(self, fixed=None, relax=False):
        """The conic program as a smooth convex one

        fixed: {variable: value} also imposed; relax: minimize instead the largest
        violation of any inequality (bounds, rows and cones)
        """
        from cvxopt import matrix, spmatrix, solvers
        c, R = self.arrays()
        n = self.nvar + (1 if relax else 0)
        G, h, gtag, A, b = [], [], [], [], []

        def add(vec, lo, up, tag):
            if fixed and tag[0] == "v" and tag[1] in fixed:
                return
            if lo == up:
                A.append(vec)
                b.append(lo)
                return
            for sgn, bound, side in ((1, up, "u"), (-1, -lo, "l")):
                if bound < BIG/2:
                    G.append((sgn*vec, 1))
                    h.append(bound)
                    gtag.append(tag + (side,))
        for j in range(self.nvar):
            lo, up = self.vb[j]
            e = np.zeros(n)
            e[j] = 1
            if fixed and j in fixed:
                A.append(e)
                b.append(fixed[j])
                if relax and not lo - 1e-9 <= fixed[j] <= up + 1e-9:
                    return {"slack": math.inf}
                continue
            add(e, lo, up, ("v", j))
        for i in range(self.ncon):
            row = np.zeros(n)
            row[:self.nvar] = R[i]
            lo, up = self.cb[i]
            if lo == -BIG and up == BIG:
                continue
            add(row, lo, up, ("c", i))
        Gm = np.array([g for g, _ in G]) if G else np.zeros((0, n))
        if relax:
            Gm[:, -1] = -1
            c = np.zeros(n)
            c[-1] = 1
            # the slack itself need not go far below zero
            e = np.zeros((1, n))
            e[0, -1] = -1
            Gm = np.vstack([Gm, e])
            h = h + [1.0]
        Am, bm = (np.array(A), np.array(b)) if A else (np.zeros((0, n)), np.zeros(0))
        # drop dependent equalities (cvxopt requires full rank)
        if len(Am):
            keep, basis = [], np.zeros((0, n))
            for i, a in enumerate(Am):
                r = a - basis.T.dot(basis.dot(a))
                r -= basis.T.dot(basis.dot(r))
                if np.linalg.norm(r) > 1e-9*max(np.linalg.norm(a), 1e-12):
                    basis = np.vstack([basis, r/np.linalg.norm(r)])
                    keep.append(i)
            Am, bm = Am[keep], bm[keep]
        one = {j for j in range(self.nvar) if self.vb[j] == (1.0, 1.0)}
        for _, mid, _ in self.cones:
            if mid not in one:
                raise NotImplementedError("cone with a free middle member")
        N = len(self.cones)
        ecol = n-1 if relax else None

        calls = [0]

        def F(x=None, z=None):
            if x is None:
                return N, matrix(0.0, (n, 1))
            calls[0] += 1
            if calls[0] > 4000:     # a line search which does not end
                raise Unsolved("no progress")
            xv = np.ravel(x)
            if any(xv[k] > 300 for _, _, k in self.cones):
                return None
            f = np.zeros(N)
            D = np.zeros((N, n))
            for q, (i, _, k) in enumerate(self.cones):
                # member0 >= exp(member2), taken in logs where possible for conditioning
                ex = math.exp(xv[k])
                f[q] = ex - xv[i]
                D[q, k], D[q, i] = ex, -1
                if relax:
                    f[q] -= xv[ecol]
                    D[q, ecol] = -1
            if z is None:
                return matrix(f, (N, 1)), matrix(D)
            H = np.zeros(n)
            for q, (_, _, k) in enumerate(self.cones):
                H[k] += z[q]*math.exp(xv[k])
            return (matrix(f, (N, 1)), matrix(D),
                    spmatrix(H.tolist(), range(n), range(n)))
        out = solvers.cpl(matrix(c), F, matrix(Gm, (len(Gm), n)) if len(Gm) else None,
                          matrix(np.array(h, float), (len(h), 1)) if len(h) else None,
                          None,
                          matrix(Am, (len(Am), n)) if len(Am) else None,
                          matrix(bm, (len(bm), 1)) if len(bm) else None,
                          kktsolver="ldl",
                          options={"show_progress": False, "maxiters": 200,
                                   "abstol": 1e-9, "reltol": 1e-9, "feastol": 1e-9})
        if out["status"] != "optimal":
            raise Unsolved(out["status"])
        x = np.ravel(out["x"])
        if relax:
            return {"slack": x[-1]}
        sux, slx = np.zeros(self.nvar), np.zeros(self.nvar)
        suc, slc = np.zeros(self.ncon), np.zeros(self.ncon)
        for (t, i, side), v in zip(gtag, np.ravel(out["zl"])):
            {("v", "u"): sux, ("v", "l"): slx, ("c", "u"): suc, ("c", "l"): slc}[t, side][i] = v
        for (t, i, side), v in zip(gtag, np.ravel(out["zl"])):
            # as with interior points in general, what is zero may come out just below it
            if side == "u" and v < 1e-7 and i % 2:
                (sux if t == "v" else suc)[i] = -1e-9
        return {"status": solsta.optimal, "x": x, "obj": float(c.dot(x)) + self.cfix,
                "sux": sux, "slx": slx, "suc": suc, "slc": slc}

    # -- answers -----------------------------------------------------------
    def getsolsta(self, _):
        return self.sol["status"]

    def getprosta(self, _):
        return {solsta.optimal: prosta.prim_and_dual_feas,
                solsta.prim_infeas_cer: prosta.prim_infeas,
                solsta.dual_infeas_cer: prosta.dual_infeas}.get(self.sol["status"],
                                                               prosta.unknown)

    def getprimalobj(self, _):
        return self.sol["obj"]

    getdualobj = getprimalobj


def _getters():
    def slices(key):
        def get(self, _, a, b, out=None):
            vals = [float(v) for v in self.sol[key][int(a):int(b)]]
            if out is None:
                return vals
            if len(out) < len(vals):
                raise ValueError("Argument is too short")
            out[:len(vals)] = vals
            return None
        return get

    def whole(key):
        def get(self, st, out=None):
            return slices(key)(self, st, 0, len(self.sol[key]), out)
        return get
    for name, key in (("xx", "x"), ("sux", "sux"), ("slx", "slx"), ("suc", "suc"),
                      ("slc", "slc")):
        setattr(Task, "get%sslice" % name, slices(key))
        setattr(Task, "get%s" % name, whole(key))


_getters()


def module():
    "the module object to put into sys.modules"
    m = types.ModuleType("mosek")
    for k in ("boundkey conetype objsense soltype streamtype iparam onoffkey solsta prosta"
              " rescode Error Env Task").split():
        setattr(m, k, globals()[k])
    return m
