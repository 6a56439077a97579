"""C09: constraints that substitution turns constant, wholly or in part.

Each case adds to a feasible model one constraint whose value after substitution is known
by construction (its constant ratio, or the signs of its merged terms).  A stand-in solver
records the program; the monitor decides whether dropping, refusing or rearranging was
the right thing, and checks the recorded program against the constraint as written.
"""
import math
import numpy as np
from ..core import Violation, Skip
from .. import alg, models
from ..alg import DIMLESS, dimadd
from .c08 import make_solver, consistency, check_program, side, columns

PROP = "C09"
RULE = ("a case is a feasible model plus one constraint made (partly) constant by its "
        "substitutions, with known constant part; identified by text and values")
TECH = "solver-call trace recorded by a stand-in solver, judged against constructed ground truth"
NOTE = ("ratios within 1e-9 of exactly 1 (unless structurally exact) and constants violated by "
        "less than the documented tolerance are accepted either way")
ASSUME = ["pint's unit conversion factors are trusted"]
FEASTOL = 1e-3


def refused(e):
    "Is this one of the documented ways of reporting an infeasible constraint?"
    import gpkit
    return isinstance(e, gpkit.exceptions.Infeasible) or "infeasible" in str(e).lower() \
        or "accidental equality" in str(e)


def coef(rng, spec, d, value, n=None):
    "tree of constants only, dims d, SI value `value`; mentions constant variables"
    ckeys = [k for k in spec.keys("consts")]
    cp = spec.constpoint()
    tree, td, v = None, DIMLESS, 1.0
    for k in rng.sample(ckeys, min(len(ckeys), n if n is not None else rng.randint(1, 2))):
        x = rng.choice([1, 1, -1, 2, .5])
        t = models.ref(rng, k)
        t = t if x == 1 else ("pow", t, x)
        tree = t if tree is None else ("mul", tree, t)
        td = dimadd(td, tuple(a*x for a in spec.dim(k[0])))
        v *= cp[k]**x
    c = models.num(value/v, dimadd(d, td, -1), rng)
    return c if tree is None else ("mul", c, tree)


def split(rng, total, n):
    w = [rng.uniform(.2, 1) for _ in range(n)]
    return [total*x/sum(w) for x in w]


def add(rng, terms):
    terms = list(terms)
    rng.shuffle(terms)
    out = terms[0]
    for t in terms[1:]:
        out = ("add", out, t)
    return out


def base_spec(rng):
    spec = models.random_gp(rng, nfree=rng.randint(1, 3), ncons=rng.randint(0, 2),
                            nconst=rng.randint(1, 4), vectors=0, equalities=.1)
    return spec


def attempt(rng, spec, mkcon, late):
    """Builds the model with the extra constraint and solves it with a recorder.

    late: constants are only given values through the model's substitutions
    """
    import gpkit
    if late:
        for n in spec.consts:
            spec.how[n] = "sub"
    log = []
    objs = spec.make_vars()
    built = [spec.build_con(c, objs) for c in spec.cons]
    try:
        extra = mkcon(objs)
        pos = rng.randint(0, len(built))
        m = gpkit.Model(spec.build_cost(objs), built[:pos] + [extra] + built[pos:],
                        spec.subs(objs))
        sol = m.solve(make_solver(log), verbosity=0)
    except Exception as e:  # pylint: disable=broad-except
        return objs, None, None, None, e
    return objs, m, sol, log[0], None


def judge(rng, rec, spec, res, expect, extra, what):
    "expect: drop / refuse / keep / either"
    objs, m, sol, call, err = res
    if err is not None:
        if refused(err):
            if expect in ("drop", "keep"):
                raise Violation("satisfiable-refused", "%s: %s %s but refused with %s: %s"
                                % (what, expect, "expected", type(err).__name__, err))
            rec.ev("refused")
            rec.sig(what)
            return
        if expect == "invalid" and "InvalidGP" in type(err).__name__:
            rec.ev("not_geometric")
            return
        if expect == "refuse":
            raise Violation("refused-otherwise", "%s: expected infeasible, got %s: %s"
                            % (what, type(err).__name__, err))
        raise err
    if expect == "refuse":
        raise Violation("impossible-accepted", "%s: cannot be satisfied, but solver was"
                        " called" % what)
    if expect == "invalid":
        raise Violation("signomial-accepted", "%s: is not geometric, but solver was called"
                        % what)
    fkeys = set(spec.keys())
    seen = {(vk.name, tuple(vk.idx) if vk.idx else None) for vk in m.program.varlocs}
    if seen != fkeys:
        raise Violation("wrong-columns", "%s: columns %s, free %s" % (what, seen, fkeys))
    consistency(rec, call, len(seen))
    cols, _ = columns(sol, spec, objs, {})
    fns = [side(spec, l, op, r) for c in spec.cons for l, op, r in spec.elements(c)]
    if expect != "drop":
        fns += extra
    cu = alg.unit_factor(m.cost.units)[0]
    check_program(rec, call, cols, lambda p: spec.costval(p).v, cu, fns,
                  spec.hidden, fkeys, rng, what)
    rec.ev("dropped" if expect == "drop" else "rearranged" if expect == "keep" else expect)
    rec.sig(what)
    rec.sample(what + " -> " + expect)


def posy(rng, rec):
    spec = base_spec(rng)
    fkeys = spec.keys()
    fp = spec.full(spec.hidden)
    equality = rng.random() < .2
    nother = 0 if equality else rng.choice([0, 0, 1, 1, 2])
    # greater side: coefficient times a base in free variables (or no base)
    if rng.random() < .5 and not equality or rng.random() < .2:
        gbase, gd = models.mono(rng, spec, fkeys, rng.randint(1, 2))
    else:
        gbase, gd = None, rng.choice([DIMLESS] + [spec.dim(n) for n in spec.consts])
    cd = rng.choice([DIMLESS] + [spec.dim(n) for n in spec.consts])   # coefficient dims
    if gbase is None:
        cd = gd
    gval = float("%.4g" % math.exp(rng.uniform(-1, 1)))
    gcoef = coef(rng, spec, cd, gval)

    def times(c, b):
        return c if b is None else ("mul", c, b)
    d = dimadd(cd, gd) if gbase is not None else cd
    gt = times(gcoef, gbase)
    exact = rng.random() < .15
    if exact:
        K = 1.0
        small = [times(gcoef, gbase)]
    else:
        K = rng.choice([.2, .6, .9, .99, .9999, 1.0004, 1.0015, 1.02, 1.7, 4.])
        if equality:
            K = rng.choice([.5, .98, .9975, 1.002, 1.5, 1.0, 1.0])
        small = [times(coef(rng, spec, cd, v), gbase)
                 for v in split(rng, K*gval, 1 if equality else rng.randint(1, 3))]
    for _ in range(nother):
        for _ in range(5):
            b, bd = models.mono(rng, spec, fkeys, rng.randint(1, 2))
            # has to be a different monomial than the greater side's
            q = {k: v*math.exp(rng.uniform(-1, 1)) for k, v in spec.hidden.items()}
            q0 = models.evaluate(b, spec.full(q)).v/models.evaluate(b, fp).v
            q1 = 1 if gbase is None else (models.evaluate(gbase, spec.full(q)).v
                                          / models.evaluate(gbase, fp).v)
            if abs(math.log(q0/q1)) > 1e-6:
                break
        else:
            raise Skip("no other monomial")
        bv = models.evaluate(b, fp).v
        gv = models.evaluate(gt, fp).v
        small.append(("mul", coef(rng, spec, dimadd(d, bd, -1),
                                  gv*rng.uniform(.05, .3)/bv, rng.randint(0, 1)), b))
    lt = add(rng, small)
    if equality:
        expect = "drop" if abs(K-1) < 1e-9 else \
            "refuse" if max(K, 1/K) > 1 + 1.05*FEASTOL else "either"
    elif nother == 0:
        expect = "drop" if K <= 1 else "refuse" if K > 1 + 1.05*FEASTOL else "either"
    else:
        # K is only exactly 1 when structurally so
        expect = "keep" if K < 1 - 1e-7 else "refuse"
    op = "=" if equality else rng.choice(["<=", ">="])
    l, r = (gt, lt) if op == ">=" or (equality and rng.random() < .5) else (lt, gt)
    con = models.con(l, op, r)
    what = "%s with constant part %r/1: %s %s %s; consts %s" % (
        "equality" if equality else "inequality", K, models.alg_show(l), op,
        models.alg_show(r), spec.consts)
    late = rng.random() < .5
    res = attempt(rng, spec, lambda objs: spec.build_con(con, objs), late)
    rec.ev("posy_" + expect)
    if expect == "either":
        if res[4] is None or refused(res[4]):
            rec.ev("gray")
            return
    judge(rng, rec, spec, res, expect, [side(spec, l, op, r)], what)


def array(rng, rec):
    "Elementwise comparisons of constant vectors, with or without free terms"
    spec = base_spec(rng)
    n = rng.randint(2, 4)
    unit = rng.choice([None, "m", "ft", "kg", "lbf"])
    other = unit and rng.choice(alg.BYDIM[alg.UNITS[unit][1]])
    fu, fo = alg.decl_factor(unit)[0], alg.decl_factor(other)[0]
    free = rng.random() < .4
    ok = rng.random() < .5
    ratios = [rng.choice([.1, .5, .9]) for _ in range(n)]
    if not ok:
        ratios[rng.randrange(n)] = rng.choice([1.01, 1.5, 3])
    hi = [float("%.4g" % math.exp(rng.uniform(-1, 1))) for _ in range(n)]
    spec.consts["va"] = (np.array([h*r*fu/fo for h, r in zip(hi, ratios)]), other, (n,))
    spec.consts["vb"] = (np.array(hi), unit, (n,))
    spec.how["va"] = spec.how["vb"] = rng.choice(["var", "sub"])
    lt, gt = ("vv", "va"), ("vv", "vb")
    if free:
        spec.free["q"] = (other, (n,))
        fp = []
        for i in range(n):
            spec.hidden[("q", (i,))] = hi[i]*fu*.02
        for node, up in ((1e-3, False), (1e3, True)):
            t = models.num(node*min(hi)*fu, alg.decl_factor(unit)[1], rng)
            spec.cons.append(models.con(("vv", "q"), "<=" if up else ">=", t, (n,), "box"))
        lt = ("add", lt, ("vv", "q")) if rng.random() < .5 else ("add", ("vv", "q"), lt)
    op = rng.choice(["<=", ">="])
    con = models.con(*((lt, op, gt) if op == "<=" else (gt, op, lt)), (n,))
    expect = "refuse" if not ok else "keep" if free else "drop"
    what = "array %s: va %s vb %s" % (models.alg_show(con["l"]) + op
                                      + models.alg_show(con["r"]),
                                      spec.consts["va"], spec.consts["vb"])
    res = attempt(rng, spec, lambda objs: spec.build_con(con, objs), rng.random() < .3)
    rec.ev("array_" + expect)
    judge(rng, rec, spec, res, expect,
          [side(spec, l, o, r) for l, o, r in spec.elements(con)], what)


def signomial(rng, rec):
    "Signomial constraints whose merged coefficients decide what they become"
    import gpkit
    spec = base_spec(rng)
    fkeys = spec.keys()
    fp = spec.full(spec.hidden)
    d = rng.choice([DIMLESS] + [spec.dim(n) for n in spec.consts])
    bases, ratio = [(None, DIMLESS)], [0.0]
    q = {k: v*math.exp(rng.uniform(-1, 1)) for k, v in spec.hidden.items()}
    for _ in range(rng.randint(1, 3)):
        b, bd = models.mono(rng, spec, fkeys, rng.randint(1, 2))
        r = math.log(models.evaluate(b, spec.full(q)).v/models.evaluate(b, fp).v)
        if all(abs(r-x) > 1e-6 for x in ratio):
            bases.append((b, bd))
            ratio.append(r)
    left, right, net = [], [], []
    for b, bd in bases:
        tot, mag = 0.0, 0.0
        style = rng.choice(["pos", "neg", "mixed", "none", "exact"])
        vals = {"pos": [1], "neg": [-1], "mixed": [rng.choice([1, -1])
                                                   for _ in range(rng.randint(2, 3))],
                "none": [], "exact": [1, -1]}[style]
        c0 = coef(rng, spec, dimadd(d, bd, -1), 1.0)
        side0 = rng.random()
        unitless = not any(list(spec.decls().values()))
        for s in vals:
            v = rng.choice([.5, 1, 1.7, 3]) if style != "exact" else 1.0
            bv = 1 if b is None else models.evaluate(b, fp).v
            c = coef(rng, spec, dimadd(d, bd, -1), v/bv) if style != "exact" else c0
            t = c if b is None else ("mul", c, b)
            tot += s*v
            mag += v
            # s=+1: part of the smaller side
            put = rng.random()
            if style == "exact" and not unitless:
                # on one side, so that no unit conversion makes it inexact
                put = (0 if side0 < .5 else 1) if s > 0 else (1 if side0 < .5 else 0)
            if s > 0:
                (left if put < .75 else right).append((1 if put < .75 else -1, t))
            else:
                (right if put <= .75 else left).append((1 if put <= .75 else -1, t))
        if style != "exact" and abs(tot) < 1e-9*max(mag, 1) and vals:
            raise Skip("inexact cancellation")
        net.append(0 if style in ("none", "exact") else np.sign(tot))

    def tree(ts):
        if not ts:
            return models.num(0.0, d, rng) if d == DIMLESS else None
        ts = sorted(ts, key=lambda st: -st[0])
        out = ts[0][1] if ts[0][0] > 0 else ("neg", ts[0][1])
        for s, t in ts[1:]:
            out = ("add" if s > 0 else "sub", out, t)
        return out
    lt, gt = tree(left), tree(right)
    if lt is None or gt is None:
        raise Skip("one side empty")
    npos, nneg = sum(1 for x in net if x > 0), sum(1 for x in net if x < 0)
    expect = "drop" if npos == 0 else "refuse" if nneg == 0 else \
        "keep" if nneg == 1 else "invalid"
    ge = rng.random() < .5
    state = {}

    def mk(objs):
        with gpkit.SignomialsEnabled():
            L, R = models.build(lt, objs), models.build(gt, objs)
            c = (R >= L) if ge else (L <= R)
        state["type"] = type(c).__name__
        return c
    what = "%s <= %s (merged signs %s); consts %s" % (
        models.alg_show(lt), models.alg_show(gt), net, spec.consts)
    late = rng.random() < .5
    res = attempt(rng, spec, mk, late)
    objs, m, sol, call, err = res
    if "type" not in state:
        # comparing may be refused at once when both sides are numbers, or a side is
        if err is not None and (expect == "refuse" and refused(err)):
            rec.ev("refused")
            return
        raise Skip("not built: %s" % type(err).__name__)
    if state["type"] in ("bool", "bool_", "NomialArray"):
        raise Skip("comparison of numbers")
    rec.ev("signomial_" + expect)
    rec.ev("type_" + state["type"])
    judge(rng, rec, spec, res, expect, [side(spec, lt, "<=", gt)], what)


def zero(rng, rec):
    "Constants that are zero: terms vanish, what remains is judged as usual"
    import gpkit
    unit = rng.choice([None, "m", "ft", "kg"])
    args = [unit] if unit else []
    u = 1*gpkit.units(unit) if unit else 1
    late = rng.random() < .5
    val = rng.choice([0, 0.0])
    b = gpkit.Variable("b", *args) if late else gpkit.Variable("b", val, *args)
    x, y = gpkit.Variable("x", *args), gpkit.Variable("y", *args)
    k, n = rng.choice([1, 2, 3.5]), rng.choice([1, 2, 0.5])
    forms = {
        "b <= k": (lambda: b <= k*u, None),
        "k >= b**n": (lambda: k*u**n >= b**n, None),
        "b + b**n/u <= k": (lambda: b + b**2/u <= k*u, None),
        "y >= k*b": (lambda: y >= k*b, None),
        "y >= x + b": (lambda: y >= x + b, lambda X, Y: (X, Y)),
        "y >= k*u + b": (lambda: y >= k*u + b, lambda X, Y: (k, Y)),
        "y*u >= x*b + x*u": (lambda: y*u >= x*b + x*u, lambda X, Y: (X, Y)),
        "x + b <= k*y": (lambda: x + b <= k*y, lambda X, Y: (X, k*Y)),
        "b*x + b*y <= k*u**2": (lambda: b*x + b*y <= k*u**2, None),
    }
    name = rng.choice(sorted(forms))
    mk, fn = forms[name]
    rest = [x >= u/10, x <= 10*u, y >= u/10, y <= 10*u]
    rest.insert(rng.randint(0, 4), mk())
    log = []
    m = gpkit.Model(x*y, rest, {b: val} if late else {})
    sol = m.solve(make_solver(log), verbosity=0)
    call = log[0]
    consistency(rec, call, 2)
    cols = []
    for vk in sorted(m.program.varlocs, key=lambda v: float(sol["freevariables"][v])):
        cols.append(((vk.name, None), 1.0))
    fns = [lambda p: (.1, p[("x", None)], False), lambda p: (p[("x", None)], 10, False),
           lambda p: (.1, p[("y", None)], False), lambda p: (p[("y", None)], 10, False)]
    if fn:
        fns.append(lambda p: fn(p[("x", None)], p[("y", None)]) + (False,))
    pt = {("x", None): 1.3, ("y", None): .7}
    check_program(rec, call, cols, lambda p: p[("x", None)]*p[("y", None)], 1.0, fns, pt,
                  set(pt), rng, "%s with b=%r [%s]" % (name, val, unit))
    rec.ev("zero_constants")
    rec.sig(name, unit, k, n, late)


KINDS = {"zero": (zero, 150, 1500), "posy": (posy, 900, 20000), "array": (array, 250, 4000),
         "signomial": (signomial, 500, 10000)}
NEED = {"zero_constants": 100, "posy_drop": 80, "posy_refuse": 100, "posy_keep": 80, "array_keep": 20,
        "array_drop": 20, "array_refuse": 50, "signomial_drop": 20,
        "signomial_refuse": 20, "signomial_keep": 40, "signomial_invalid": 20}
