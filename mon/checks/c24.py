"""C24: comparing two solutions reports exactly the differences there are.

Pairs are solved models (constants changed, variables dropped, added or in other units, swept
or not) and solutions whose stored numbers were then changed by known amounts.  The report is
read back: which variables are listed where, under which model, with which numbers, and what
is said when nothing is; each is compared with differences taken from the raw stored arrays.
"""
import copy
import math
import os
import pickle
import re
import tempfile
import numpy as np
from ..core import Violation, Skip
from .. import models
from . import c11, c15, c22

PROP = "C24"
RULE = ("a case is a pair of solutions and several settings of the comparison; non-trivial when "
        "at least one variable is shared, identified by the pair and the settings")
TECH = ("reading back of the comparison's text against differences of the raw stored arrays; "
        "almost_equal against its definition; snapshots of both solutions")
NOTE = ("thresholds within 1e-9 of a difference are not judged; sweeps of different lengths, "
        "vectors of different shapes under one name, and sensitivities missing for single "
        "elements are excluded")
CPU_LIMIT = 60


# ------------------------------------------------------------------ the reference
def rawvals(sol, what):
    "{veckey or key: array}, a leading axis of points if it has one; number of points"
    kd = sol["variables"] if what == "variables" else sol["sensitivities"]["variables"]
    return {k: np.array(dict.__getitem__(kd, k), float) for k in dict.keys(kd)}


def difference(a, b, how):
    with np.errstate(all="ignore"):
        if how == "rel":
            return 100*(a/b - 1)
        return a - b


def maxabs(d):
    d = np.abs(d)
    return None if np.isnan(d).all() else float(np.nanmax(d))


def lineage(k):
    from gpkit.repr_conventions import lineagestr
    return lineagestr(k.lineage)


# ------------------------------------------------------------------ reading the report
TITLES = (("rel", r"^Relative Differences \|above (.*)%\|$"),
          ("abs", r"^Absolute Differences \|above (.*)\|$"),
          ("sens", r"^Sensitivity Differences \|above (.*)\|$"))
ONLY = {"self": "Variable(s) of this solution which are not in the argument:",
        "other": "Variable(s) of the argument which are not in this solution:"}


class Report:
    "what a comparison's text says"

    def __init__(self, text):
        self.text = text
        self.only = {"self": [], "other": []}
        self.rows, self.largest, self.above = {}, {}, {}
        self.constraints = None
        lines = text.split("\n")
        self.title = lines[0]
        sec = model = last = None
        for i, line in enumerate(lines):
            if line == "** no constraint differences **":
                self.constraints = "same"
            if line == "Constraint Differences":
                self.constraints, sec = [], "constraints"
                continue
            if sec == "constraints":
                if set(line) == {"*"} and self.constraints:
                    sec = None
                elif set(line) != {"*"}:
                    self.constraints.append(line)
                continue
            hit = False
            for kind, line0 in ONLY.items():
                if line == line0:
                    sec, hit = "only " + kind, True
            for kind, pattern in TITLES:
                m = re.match(pattern, line)
                if m:
                    sec, model, hit, last = kind, "", True, None
                    self.above[kind] = float(m.group(1))
                    self.rows[kind] = []
            if hit or sec is None or not line.strip() or set(line) == {"-"}:
                if not line.strip() and sec and sec.startswith("only"):
                    sec = None
                continue
            if sec.startswith("only"):
                self.only[sec[5:]].append(line.strip())
                continue
            m = re.match(r"^The largest is (.*?)%?\.$", line)
            if m:
                self.largest[sec] = float(m.group(1))
                continue
            m = re.match(r"^\s*\| (.*)$", line)
            if m:
                model = m.group(1)
                continue
            m = re.match(r"^\s*(\S.*?) +: +(.*)$", line) or re.match(r"^\s*(\S.*?) : ?(.*)$",
                                                                     line)
            if m:
                last = {"model": model, "name": m.group(1).strip(), "vals": [], "open": False}
                self.rows[sec].append(last)
                body = m.group(2)
            elif last is not None and last["open"]:
                body = line
            else:
                raise Violation("unreadable", "%r in\n%s" % (line, text))
            self.values(last, body.strip())

    def values(self, row, body):
        if body.startswith("["):
            row["open"], body = True, body[1:]
        for tok in body.split():
            if tok == "]":
                row["open"] = False
                break
            if tok.startswith("["):
                break          # units
            row["vals"].append(math.nan if tok == "-" else float(tok.rstrip("%")))
            if not row["open"]:
                break


# ------------------------------------------------------------------ judging
def rounding(kind, x):
    "how far the printed number may be from x"
    if math.isinf(x):
        return 0
    if kind == "rel":
        return .0501
    if kind == "sens":
        return .00501
    return abs(x)*.0501 + 1e-300


def matches(kind, printed, d, above, scalar):
    "the printed numbers are these differences, blank where below"
    flat = d.ravel()
    want = [math.nan if (not scalar and above and (np.isnan(x) or abs(x) <= above))
            else float(x) for x in flat]
    if len(printed) != len(want):
        return False
    orders = [range(len(want))]
    if d.ndim > 1:
        import itertools
        idx = np.arange(d.size).reshape(d.shape)
        orders = [idx.transpose(p).ravel() for p in itertools.permutations(range(d.ndim))]
    for order in orders:
        for p, j in zip(printed, order):
            w = want[j]
            if math.isnan(w):
                ok = math.isnan(p)
            elif math.isnan(p):
                ok = above and abs(abs(w)-above) < 1e-9*above
            elif math.isinf(w):
                ok = p == w
            else:
                ok = abs(p-w) <= rounding(kind, w)
            if not ok and not (above and abs(abs(flat[j])-above) < 1e-9*above):
                break
        else:
            return True
    return False


def judge(rec, text, a, b, opts, what, shown=None):
    "one report against the two solutions"
    rep = Report(text)
    A, B = rawvals(a, "variables"), rawvals(b, "variables")
    if shown is not None:
        A = {k: v for k, v in A.items() if k in shown}
        B = {k: v for k, v in B.items() if k in shown}
        if "selected" not in rep.title:
            raise Violation("unreadable", rep.title)
    for side, mine, other in (("self", A, B), ("other", B, A)):
        want = sorted(str(k) for k in mine if k not in other)
        if sorted(rep.only[side]) != want:
            raise Violation("only-in-one", "%s: variables only of %s are %s, listed %s\n%s"
                            % (what, side, want, rep.only[side], text))
        rec.ev("only_listed", len(want))
    shared = [k for k in A if k in B]
    sens = rawvals(a, "s"), rawvals(b, "s")
    kinds = [k for k, opt in (("rel", "reldiff"), ("abs", "absdiff"), ("sens", "senssdiff"))
             if opts[opt]]
    if shared and set(rep.rows) != set(kinds):
        raise Violation("sections", "%s: %s for %s\n%s" % (what, set(rep.rows), kinds, text))
    for kind in kinds:
        if not shared:
            continue
        above = opts[{"rel": "reltol", "abs": "abstol", "sens": "sensstol"}[kind]]
        if abs(rep.above[kind]-above) > 1e-5*above:
            raise Violation("threshold", "%s: above %s, asked %s" % (what, rep.above, above))
        rows = list(rep.rows[kind])
        listed_any, overall = False, []
        for k in shared:
            if kind == "sens":
                d = difference(sens[0].get(k, np.zeros(())), sens[1].get(k, np.zeros(())), kind)
                if any(np.isnan(s[k]).any() for s in sens if k in s):
                    rows = [r for r in rows if (r["model"], r["name"]) != namekey(k)]
                    overall = None
                    continue
            else:
                d = difference(A[k], B[k], kind)
            top = maxabs(d)
            if overall is not None and top is not None:
                overall += [float(x) for x in d.ravel() if not np.isnan(x)]
            here = [r for r in rows if (r["model"], r["name"]) == namekey(k)]
            good = [r for r in here if matches(kind, r["vals"], d, above, not d.shape)]
            if top is not None and above and abs(top-above) <= 1e-9*above:
                rows = [r for r in rows if r not in good[:1]]
                listed_any = None
                continue
            if top is not None and top > above:
                if not good:
                    raise Violation("wrong-difference" if here else "not-listed",
                                    "%s: %s difference of %s is %s (above %r), listed %s\n%s"
                                    % (what, kind, k, d.tolist(), above, here, text))
                rows.remove(good[0])
                listed_any = listed_any if listed_any is None else True
                rec.ev("listed_" + kind)
            else:
                rec.ev("unlisted_" + kind)
        if rows:
            raise Violation("listed-needlessly", "%s: %s: %s\n%s" % (what, kind, rows, text))
        if listed_any is None or overall is None:
            continue
        if listed_any == (kind in rep.largest):
            raise Violation("largest", "%s: %s: listed %s, largest %s\n%s"
                            % (what, kind, listed_any, rep.largest, text))
        if not listed_any:
            tops = [x for x in overall if abs(x) >= max(map(abs, overall), default=0)*(1-1e-9)]
            if not any(abs(rep.largest[kind]-x) <= 1e-5*abs(x) for x in tops or [0.]):
                raise Violation("largest", "%s: %s: largest is said to be %s, is %s\n%s"
                                % (what, kind, rep.largest[kind], tops, text))
            rec.ev("largest_checked")
    cons(rec, rep, a, b, opts, what)
    rec.ev("reports")


def namekey(k):
    return lineage(k), k.str_without(("lineage", "vec"))


def cons(rec, rep, a, b, opts, what):
    if not opts["constraintsdiff"] or not a.modelstr or not b.modelstr:
        if rep.constraints is not None:
            raise Violation("constraints", "%s: unasked constraint differences" % what)
        return
    if (a.modelstr == b.modelstr) != (rep.constraints == "same"):
        raise Violation("constraints", "%s: texts equal: %s, reported %s\n%s" % (
            what, a.modelstr == b.modelstr, rep.constraints, rep.text))
    rec.ev("constraints_compared")
    if rep.constraints == "same":
        return
    mine, other = a.modelstr.split("\n"), b.modelstr.split("\n")
    import collections
    plus = collections.Counter(l[1:] for l in rep.constraints if l.startswith("+"))
    minus = collections.Counter(l[1:] for l in rep.constraints if l.startswith("-"))
    # taking away and adding what is listed turns one into the other
    if collections.Counter(other) - minus + plus != collections.Counter(mine):
        raise Violation("constraints", "%s: %s\n%s\n%s" % (what, rep.constraints, a.modelstr,
                                                            b.modelstr))


def almost(a, b, reltol, senstol):
    "the definition; None when too close to call"
    A, B = rawvals(a, "variables"), rawvals(b, "variables")
    if set(A) != set(B):
        return False
    sa, sb = rawvals(a, "s"), rawvals(b, "s")
    close = False
    for k in A:
        x, y = np.broadcast_arrays(A[k], B[k])
        for u, v in zip(x.ravel(), y.ravel()):
            if u == v or (np.isnan(u) and np.isnan(v)):
                continue
            with np.errstate(all="ignore"):
                d = abs(np.float64(u)/v-1)
            if abs(d-reltol) <= 1e-9*reltol + 1e-15:
                close = True
            elif not d < reltol:
                return False
        x, y = sa.get(k, np.zeros(())), sb.get(k, np.zeros(()))
        if np.isnan(x).any() or np.isnan(y).any():
            if not np.array_equal(np.isnan(x), np.isnan(y)):
                close = True
                continue
        d = np.abs(x-y)
        if (np.abs(d-senstol) <= 1e-9*senstol + 1e-15).any():
            close = True
        elif (d >= senstol).any():
            return False
    return None if close else True


# ------------------------------------------------------------------ pairs
def compare(rng, rec, a, b, objs, what):
    "several comparisons of the two, both ways, as objects and as files"
    import gpkit
    before = c22.snapshot(a), c22.snapshot(b), a.table(), b.table()
    pairs = [(a, b), (b, a)]
    shared = set(rawvals(a, "variables")) & set(rawvals(b, "variables"))
    tmp = tempfile.mkdtemp(prefix="c24-")
    try:
        for n in range(rng.randint(3, 5)):
            s, o = pairs[n % 2]
            w = what if n % 2 == 0 else "reverse of " + what
            A, B = rawvals(s, "variables"), rawvals(o, "variables")
            opts = {"constraintsdiff": rng.random() < .7, "senssdiff": rng.random() < .5,
                    "absdiff": rng.random() < .5, "reldiff": rng.random() < .8,
                    "sortmodelsbysenss": rng.random() < .7}
            for opt, kind, base in (("reltol", "rel", 1.0), ("abstol", "abs", 0),
                                    ("sensstol", "sens", .1)):
                ds = []
                if kind == "sens":
                    sa, sb = rawvals(s, "s"), rawvals(o, "s")
                    ds = [maxabs(difference(sa.get(k, np.zeros(())), sb.get(k, np.zeros(())),
                                            kind)) for k in shared]
                else:
                    ds = [maxabs(difference(A[k], B[k], kind)) for k in shared]
                ds = [float(d) for d in ds if d and not math.isinf(d)]
                r = rng.random()
                if r < .25 or not ds:
                    opts[opt] = base
                elif r < .35:
                    opts[opt] = 0
                else:
                    opts[opt] = float("%.5g" % (rng.choice(ds)*rng.choice([.3, .98, 1.02, 3])))
            kw, shown = dict(opts), None
            if rng.random() < .3:
                pick = rng.sample(sorted(objs), rng.randint(1, len(objs)))
                ask, shown = [], set()
                for p in pick:
                    v = objs[p]
                    form = rng.choice(["var", "key", "name"])
                    if form == "name":
                        names = [k for k in set(A) | set(B) if v.key.name in k.keys]
                        ask.append(v.key.name)
                        shown.update(names)
                    else:
                        ask.append(v if form == "var" else v.key)
                        shown.add(v.key)
                kw["showvars"] = ask
                w += " showing %s" % ask
                rec.ev("selected")
            w += " %s" % opts
            arg = o
            r = rng.random()
            if r < .15:
                arg = os.path.join(tmp, "%i.pkl" % n)
                o.save(arg)
            elif r < .3:
                arg = os.path.join(tmp, "%i.pgz" % n)
                o.save_compressed(arg)
            elif r < .4:
                arg = os.path.join(tmp, "%i.pkl" % n)
                o.save(arg, saveconstraints=False)
            if isinstance(arg, str):
                rec.ev("files")
            text = s.diff(arg, **kw)
            judge(rec, text, s, o, opts, w, shown)
        for s, o in pairs + [(a, a)]:
            A, B = rawvals(s, "variables"), rawvals(o, "variables")
            ds = [.001]
            for k in shared:
                d = maxabs(difference(A[k], B[k], "rel"))
                if d and not math.isinf(d):
                    ds.append(d/100)
            sa, sb = rawvals(s, "s"), rawvals(o, "s")
            es = [.01]
            for k in shared:
                d = maxabs(sa.get(k, np.zeros(())) - sb.get(k, np.zeros(())))
                if d:
                    es.append(d)
            for _ in range(3):
                rt = float(rng.choice([rng.choice(ds), max(ds)])*rng.choice([.5, .98, 1.02, 2]))
                st = float(rng.choice([rng.choice(es), max(es)])*rng.choice([.5, .98, 1.02, 2]))
                want = almost(s, o, rt, st)
                got = s.almost_equal(o, reltol=rt, sens_abstol=st)
                if want is not None and bool(got) != want:
                    raise Violation("almost-equal", "%s: %s for reltol=%r sens_abstol=%r, is %s;"
                                    " %s %s %s %s" % (what, got, rt, st, want, A, B, sa, sb))
                if want is not None:
                    rec.ev("almost_%s" % want)
            want = almost(s, o, 1e-3, .01)
            if want is not None and bool(s.almost_equal(o)) != want:
                raise Violation("almost-equal", "%s: by default %s" % (what, not want))
    finally:
        import shutil
        shutil.rmtree(tmp, ignore_errors=True)
    after = c22.snapshot(a), c22.snapshot(b), a.table(), b.table()
    for x, y, name in zip(before, after, ("solution", "argument") * 2):
        if x != y:
            raise Violation("changed", "%s: the %s: %s" % (what, name, [
                k for k in x if x[k] != y.get(k)] if isinstance(x, dict) else (x, y)))
    # nothing became known that was not
    for s in (a, b):
        for v in objs.values():
            if (v.key in s["variables"]) != (v.key in set(dict.keys(s["variables"]))):
                raise Violation("phantom", "%s: %s" % (what, v))
    rec.sig(what)
    rec.sample(what)


def solve(m):
    import gpkit
    try:
        return m.solve(verbosity=0, skipsweepfailures=True)
    except (gpkit.exceptions.Infeasible, RuntimeWarning):
        raise Skip("not solved") from None


def swept(rng, m, spec, objs, n):
    "sweeps n points of one constant or two"
    cands = [k for k in spec.keys("consts") if k in spec.used()]
    if not cands:
        return None
    k = rng.choice(cands)
    o = objs[k[0]] if k[1] is None else objs[k[0]][k[1]]
    base = float(np.asarray(spec.consts[k[0]][0])[k[1]] if k[1] is not None
                 else spec.consts[k[0]][0])
    m.substitutions[o] = ("sweep", [base*math.exp(rng.uniform(-.2, .2)) for _ in range(n)])
    return k


def pairs(rng, rec):
    "One model with constants, bounds, variables or units changed; swept or not"
    import gpkit
    spec = models.random_gp(rng, nfree=rng.randint(1, 4), ncons=rng.randint(0, 3),
                            nconst=rng.randint(0, 3), vectors=.4)
    other = spec
    if rng.random() < .8:
        other = c11.scaled_spec(spec, {k: math.exp(rng.choice([.002, .05, .3])
                                                   * rng.uniform(-1, 1))
                                       for k in spec.keys("consts") if rng.random() < .7})
    sols, texts, allobjs = [], [], {}
    npts = rng.choice([0, 0, 2, 3])
    for i, s in enumerate((spec, other)):
        objs = s.make_vars()
        extra, cost = [], s.build_cost(objs)
        subs = s.subs(objs)
        if rng.random() < .4:       # something only one of them has
            nm, u = rng.choice([("e1", "m"), ("e2", None), ("x", "min"), ("e3", "kg")])
            shape = rng.choice([None, None, (2,), (2, 2)])
            if nm == "x" and s.decls().get("x") == u:
                nm = "e4"       # that would be the same variable
            args = [nm] + ([u] if u else [])
            e = gpkit.Variable(*args) if shape is None else gpkit.VectorVariable(shape, *args)
            c0 = 1*gpkit.units(u) if u else 1
            extra = [e >= rng.uniform(1, 3)*c0]
            cost = cost*(e if shape is None else e.prod())
            allobjs["%s %s %s" % (nm, u, shape)] = e
            if rng.random() < .3:
                z = gpkit.Variable("zero"); extra.append(e >= c0*(z + 1))
                subs[z] = rng.choice([0, 0, .5])
        if rng.random() < .3:
            z = gpkit.Variable("zed")
            q = gpkit.Variable("zq")
            extra.append(q >= 1+z)
            cost = cost*q
            allobjs["zq"] = q
            subs[z] = rng.choice([0, 0, 1e-3])
            allobjs["zed"] = z
        try:
            m = gpkit.Model(cost, [s.build_con(c, objs) for c in s.cons] + extra, subs)
        except gpkit.exceptions.PrimalInfeasible:
            raise Skip("terms cancel") from None
        k = None
        if npts and rng.random() < .75:
            k = swept(rng, m, s, objs, npts)
        if i and rng.random() < .35:     # free in one, fixed in the other
            mine = [n for n in s.keys() if n in s.used()]
            if mine:
                n = rng.choice(mine)
                o = objs[n[0]] if n[1] is None else objs[n[0]][n[1]]
                try:
                    v = np.ravel(np.asarray(sols[0]["variables"][o], float))[0]
                    m.substitutions[o] = float(v)*math.exp(rng.choice([0, .02, .2])
                                                           * rng.uniform(-1, 1))
                    extra.append("%s fixed" % o)
                except KeyError:
                    pass
        sols.append(solve(m))
        if extra and isinstance(extra[-1], str):
            rec.ev("fixed_in_one")
        texts.append("%s swept %s with %s" % (s.text(), k, extra))
        for n, o in objs.items():
            allobjs[n] = o
    a, b = sols
    if len(a) != len(b) and 1 not in (len(a), len(b)):
        raise Skip("sweeps of different lengths")
    if shapes_clash(a, b):
        raise Skip("vectors of different shapes")
    rec.ev("pair_%s%s" % ("s" if len(a) > 1 else "1", "s" if len(b) > 1 else "1"))
    compare(rng, rec, a, b, allobjs, " AGAINST ".join(texts))


def shapes_clash(a, b):
    "the same key with different shapes"
    mine = {k: k.shape for k in dict.keys(a["variables"])}
    return any(mine.get(k, k.shape) != k.shape for k in dict.keys(b["variables"]))


def changed(rng, rec):
    "A solution and a copy of it with known changes"
    m, sol, objs, what = any_solution(rng)
    other = pickle.loads(pickle.dumps(sol))
    if rng.random() < .3:
        other = copy.deepcopy(sol)
    n, notes = len(sol), []
    kd, sd = other["variables"], other["sensitivities"]["variables"]
    keys = sorted(dict.keys(kd), key=lambda k: k.eqstr)
    for k in rng.sample(keys, rng.randint(0, min(4, len(keys)))):
        v = np.array(dict.__getitem__(kd, k), float)
        r = rng.random()
        f = rng.choice([1+1e-4, 1-1e-4, 1.0099, .99, 1.5, 1/1.5, 1e3, 1e-6, 1])
        if r < .15 and len(keys) > 1:
            for d in ("variables", "freevariables", "constants"):
                if d in other and k in set(dict.keys(other[d])):
                    del other[d][k]
            notes.append("without %s" % k)
            keys.remove(k)
            continue
        if v.shape and r < .6:
            j = rng.choice(list(np.ndindex(*v.shape)))
            v[j] *= f
            notes.append("%s[%s] times %r" % (k, j, f))
        else:
            v = v*f
            notes.append("%s times %r" % (k, f))
        dict.__setitem__(kd, k, v if v.shape else float(v))
    for k in [k for k in dict.keys(sd)]:
        if rng.random() < .4:
            s = np.array(dict.__getitem__(sd, k), float)
            d = rng.choice([1e-3, -.02, .2, -1, 30])
            if s.shape and rng.random() < .5:
                s[rng.choice(list(np.ndindex(*s.shape)))] += d
            else:
                s = s + d
            dict.__setitem__(sd, k, s if s.shape else float(s))
            notes.append("sensitivity of %s %+r" % (k, d))
        elif rng.random() < .1:
            del sd[k]
            notes.append("no sensitivity of %s" % k)
    rec.ev("changes", len(notes))
    rec.ev("changed_swept" if n > 1 else "changed_single")
    compare(rng, rec, sol, other, objs, "%s CHANGED %s" % (what, notes))


def any_solution(rng):
    if rng.random() < .5:
        setup = c15.Setup(rng)
        m = setup.model()
        if rng.random() < .6:
            for k in setup.keys:
                m.substitutions[setup.obj(m, k)] = ("sweep", c15.container(rng, setup.vals[k]))
        return m, solve(m), m.v_objs, setup.text()
    m, objs, _, what, _ = c22.plan_instances(rng)
    return m, solve(m), objs, what


KINDS = {"pairs": (pairs, 220, 3000), "changed": (changed, 200, 2500)}
NEED = {"reports": 500, "listed_rel": 200, "unlisted_rel": 150, "listed_abs": 100,
        "listed_sens": 60, "only_listed": 60, "largest_checked": 60, "almost_True": 200,
        "almost_False": 300, "files": 50, "selected": 50, "pair_ss": 10, "pair_1s": 4,
        "pair_s1": 4, "changed_swept": 20, "constraints_compared": 150,
        "fixed_in_one": 15}
