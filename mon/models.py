"""Random geometric programs that are feasible and bounded by construction.

A Spec is written in terms of alg trees only; it knows a strictly feasible point, can
evaluate its own cost and constraints anywhere with plain floats, and can be turned into
gpkit objects in many equivalent ways.  Its own optimum can be approached with an
independent solver (scipy SLSQP on log-sum-exp), whose feasible points are certificates.
"""
import math
import numpy as np
from . import alg
from .alg import Val, DIMLESS, dimadd

CONST_FORMS = ("var", "sub")


class Spec:
    "free: {name: (unit, shape or None)}; consts: {name: (value, unit, shape or None)}"

    def __init__(self):
        self.free, self.consts = {}, {}
        self.cost, self.cons = None, []      # cons: [{l, op, r, shape, tag}]
        self.hidden = {}                     # {(name, idx): SI value}
        self.odd = 0                         # how often exponents are odd ones
        self.how = {}                        # const name -> how its value is declared

    # ---- identities
    def decls(self):
        out = {n: u for n, (u, _) in self.free.items()}
        out.update({n: c[1] for n, c in self.consts.items()})
        return out

    def dim(self, name):
        return alg.decl_factor(self.decls()[name])[1]

    def keys(self, which="free"):
        "All element identities"
        src = {"free": {n: s for n, (_, s) in self.free.items()},
               "consts": {n: c[2] for n, c in self.consts.items()}}[which]
        out = []
        for n, shape in src.items():
            out += [(n, i) for i in np.ndindex(*shape)] if shape else [(n, None)]
        return out

    def constpoint(self, scale=None):
        "SI values of all constant elements; scale {key: factor}"
        out = {}
        for n, (v, u, shape) in self.consts.items():
            f = alg.decl_factor(u)[0]
            if shape:
                for i in np.ndindex(*shape):
                    out[(n, i)] = float(np.asarray(v)[i])*f
            else:
                out[(n, None)] = float(v)*f
        for k, s in (scale or {}).items():
            out[k] *= s
        return out

    def full(self, point, scale=None):
        "free point + constants, with dims"
        out = self.constpoint(scale)
        out.update(point)
        return {k: (v, self.dim(k[0])) for k, v in out.items()}

    # ---- evaluation
    def elements(self, con):
        "scalar (l, op, r) triples of a constraint"
        if con["shape"] is None:
            return [(con["l"], con["op"], con["r"])]
        return [(at(con["l"], i), con["op"], at(con["r"], i))
                for i in np.ndindex(*con["shape"])]

    def ratios(self, con, point, scale=None):
        "[(small side / large side, is_equality)] of a constraint at a free point"
        fp = self.full(point, scale)
        out = []
        for l, op, r in self.elements(con):
            a, b = evaluate(l, fp), evaluate(r, fp)
            assert a.d == b.d, (alg.show(l), a, b)
            if op == ">=":
                a, b = b, a
            out.append((a.v/b.v, op == "="))
        return out

    def used(self):
        "identities of all elements that occur anywhere"
        out = set()

        def walk(t):
            if t[0] == "var":
                out.add((t[1], t[2]))
            elif t[0] in ("vv", "vsum", "vprod"):
                shape = self.free[t[1]][1] if t[1] in self.free else self.consts[t[1]][2]
                out.update((t[1], i) for i in np.ndindex(*shape))
            for x in t[1:]:
                if isinstance(x, tuple) and x and isinstance(x[0], str):
                    walk(x)
        walk(self.cost)
        for c in self.cons:
            walk(c["l"])
            walk(c["r"])
        return out

    def costval(self, point, scale=None):
        return evaluate(self.cost, self.full(point, scale))

    def violation(self, point, scale=None, skip=()):
        "largest relative violation over all constraints"
        worst, which = 0.0, None
        for i, con in enumerate(self.cons):
            if i in skip:
                continue
            for r, eq in self.ratios(con, point, scale):
                v = abs(math.log(r)) if eq else math.log(r)
                if v > worst:
                    worst, which = v, i
        return worst, which

    # ---- gpkit objects
    def make_vars(self, rename=None, units=None, values=True):
        """Fresh gpkit variables {name: object}; rename/units map names."""
        import gpkit
        objs = {}
        rename, units = rename or {}, units or {}
        for n, (u, shape) in self.free.items():
            args = [rename.get(n, n)]
            u = units.get(n, u)
            if u:
                args.append(u)
            objs[n] = gpkit.VectorVariable(shape, *args) if shape \
                else gpkit.Variable(*args)
        for n, (v, u, shape) in self.consts.items():
            nu = units.get(n, u)
            v = np.asarray(v)*alg.decl_factor(u)[0]/alg.decl_factor(nu)[0] if shape \
                else v*alg.decl_factor(u)[0]/alg.decl_factor(nu)[0]
            args = [rename.get(n, n)]
            if values and self.how.get(n, "var") == "var":
                args.append(v if shape else float(v))
            if nu:
                args.append(nu)
            objs[n] = gpkit.VectorVariable(shape, *args) if shape \
                else gpkit.Variable(*args)
        return objs

    def subs(self, objs, units=None):
        "substitutions for the constants not given values as variables"
        out = {}
        for n, (v, u, shape) in self.consts.items():
            if self.how.get(n, "var") != "var":
                nu = (units or {}).get(n, u)
                k = alg.decl_factor(u)[0]/alg.decl_factor(nu)[0]
                out[objs[n]] = np.asarray(v)*k if shape else float(v)*k
        return out

    def build_con(self, con, objs):
        l, r = build(con["l"], objs), build(con["r"], objs)
        return {"<=": lambda: l <= r, ">=": lambda: l >= r,
                "=": lambda: l == r}[con["op"]]()

    def build_cost(self, objs):
        c = build(self.cost, objs)
        if not hasattr(c, "hmap"):
            from gpkit.nomials import Monomial
            c = Monomial(c)
        return c

    def model(self, objs=None, cls=None, **kw):
        "A fresh gpkit Model; .objs and .built hold its pieces"
        import gpkit
        objs = objs or self.make_vars()
        built = [self.build_con(c, objs) for c in self.cons]
        m = (cls or gpkit.Model)(self.build_cost(objs), list(built),
                                 self.subs(objs, kw.get("units")))
        m.v_objs, m.v_built = objs, built
        return m

    def read(self, source, objs, which="free", only=None):
        "{key: SI value} read from a KeyDict-like source through variables"
        out = {}
        decls = self.decls()
        for n, i in self.keys(which):
            if only is not None and (n, i) not in only:
                continue
            o = objs[n] if i is None else objs[n][i]
            f = alg.unit_factor(o.units)[0]
            out[(n, i)] = float(source[o])*f
        return out

    def text(self):
        return "min %s s.t. %s; consts %s; free %s" % (
            alg_show(self.cost), "; ".join("%s %s %s" % (
                alg_show(c["l"]), c["op"], alg_show(c["r"])) for c in self.cons),
            {n: (np.asarray(c[0]).tolist(), c[1]) for n, c in self.consts.items()},
            {n: u for n, u in self.free.items()})


def at(tree, idx):
    "Replaces whole-vector nodes by their element"
    if tree[0] == "vv":
        return ("var", tree[1], idx)
    return tuple(at(t, idx) if isinstance(t, tuple) and t and isinstance(t[0], str)
                 and t is not tree[0] else t for t in tree)


def evaluate(tree, fp):
    "alg.evaluate plus vector sums"
    if tree[0] in ("vsum", "vprod"):
        vals = [Val(v, None, d) for (n, i), (v, d) in sorted(
            ((k, x) for k, x in fp.items() if k[0] == tree[1]), key=lambda kx: kx[0][1])]
        out = vals[0]
        for x in vals[1:]:
            out = out + x if tree[0] == "vsum" else out * x
        return out
    if tree[0] in ("add", "sub", "mul", "div"):
        a, b = evaluate(tree[1], fp), evaluate(tree[2], fp)
        return {"add": alg.vadd, "sub": lambda x, y: alg.vadd(x, y, -1),
                "mul": alg.vmul, "div": alg.vdiv}[tree[0]](a, b)
    if tree[0] == "pow":
        x = evaluate(tree[1], fp)
        return Val(1.0) if tree[2] == 0 else alg.vpow(x, tree[2])
    return alg.evaluate(tree, fp)


def build(tree, objs):
    "alg.build plus vectors"
    op = tree[0]
    if op == "vv":
        return objs[tree[1]]
    if op == "vsum":
        return objs[tree[1]].sum()
    if op == "vprod":
        return objs[tree[1]].prod()
    if op in ("add", "sub", "mul", "div"):
        a, b = build(tree[1], objs), build(tree[2], objs)
        return {"add": lambda: a+b, "sub": lambda: a-b, "mul": lambda: a*b,
                "div": lambda: a/b}[op]()
    if op == "pow":
        return build(tree[1], objs)**tree[2]
    if op == "neg":
        return -build(tree[1], objs)
    return alg.build(tree, objs)


def alg_show(tree):
    if tree[0] in ("vv", "vsum", "vprod"):
        return "%s[:]%s" % (tree[1], {"vv": "", "vsum": ".sum()",
                                      "vprod": ".prod()"}[tree[0]])
    if tree[0] in ("add", "sub", "mul", "div"):
        return "(%s %s %s)" % (alg_show(tree[1]), {"add": "+", "sub": "-", "mul": "*",
                                                  "div": "/"}[tree[0]], alg_show(tree[2]))
    if tree[0] == "pow":
        return "(%s)**%s" % (alg_show(tree[1]), tree[2])
    return alg.show(tree)


# ------------------------------------------------------------------ generation
XS = [1, 1, 1, 2, -1, -1, 0.5, -0.5, 1.5, -2]


def num(c, d, rng):
    "constant tree of SI value c and dims d"
    c = float(c)
    if d == DIMLESS:
        return ("num", c)
    u = alg.unit_for(rng, d)
    return ("qty", c/alg.unit_value(u)[0], u, rng.choice(["mono", "mono", "mono2"]))


def ref(rng, key):
    return ("var", key[0], key[1])


ODD = [1/3, 1/7, -2/3, .2, 1.37, -2.716, .0417, -.1834, 3.1416]


def mono(rng, spec, keys, n=None):
    "random monomial tree over element keys, with dims"
    tree, d = None, DIMLESS
    n = n if n is not None else rng.randint(1, 3)
    for k in rng.sample(keys, min(n, len(keys))):
        x = rng.choice(XS)
        t = ref(rng, k)
        kd = spec.dim(k[0])
        if spec.odd and kd == DIMLESS and rng.random() < spec.odd:
            x = rng.choice(ODD)
        if x == -1 and tree is not None and rng.random() < .7:
            tree = ("div", tree, t)
        else:
            t = t if x == 1 else ("pow", t, x)
            tree = t if tree is None else ("mul", tree, t)
        d = dimadd(d, tuple(a*x for a in kd))
    return tree, d


def posy(rng, spec, keys, nterms, d=None, fp=None, weight=1.0):
    """random posynomial tree of dims d with terms of similar size at fp"""
    out = None
    target = None
    for _ in range(nterms):
        t, td = mono(rng, spec, keys)
        if d is None:
            d = td
        val = evaluate(t, fp).v
        if target is None:
            target = val if td == d else weight
        want = target*math.exp(rng.uniform(-1.2, 1.2))
        miss = dimadd(d, td, -1)
        c = want/val
        if miss == DIMLESS and rng.random() < .25 and .2 < c < 5:
            pass
        else:
            c = float("%.3g" % c)
            t = ("mul", num(c, miss, rng), t) if rng.random() < .7 \
                else ("mul", t, num(c, miss, rng))
        out = t if out is None else (("add", out, t) if rng.random() < .7
                                     else ("add", t, out))
    return out, d


def con(l, op, r, shape=None, tag=""):
    return {"l": l, "op": op, "r": r, "shape": shape, "tag": tag}


def orient(rng, lt, gt, shape=None, tag=""):
    return con(lt, "<=", gt, shape, tag) if rng.random() < .5 \
        else con(gt, ">=", lt, shape, tag)


def random_gp(rng, nfree=None, nconst=None, vectors=.35, units=.6, ncons=None,
              equalities=.35, box=True, hows=("var", "var", "sub"), constvec=.25,
              wide=3.0, constterms=0, odd=0):
    "A random feasible, bounded Spec"
    s = Spec()
    s.odd = odd
    useunits = rng.random() < units
    pool = [u for u in alg.UNITS]
    nfree = nfree or rng.randint(1, 4)
    shape = None
    for i in range(nfree):
        unit = rng.choice(pool) if useunits and rng.random() < .75 else None
        if i and useunits and rng.random() < .4:
            prev = s.free[rng.choice(list(s.free))][0]
            if prev:
                unit = rng.choice(alg.BYDIM[alg.UNITS[prev][1]])
        shp = None
        if rng.random() < vectors:
            shape = shape or rng.choice([(2,), (2,), (3,), (2, 2)])
            shp = shape
        s.free["xyzwuv"[i]] = (unit, shp)
    for k in s.keys():
        s.hidden[k] = alg.decl_factor(s.free[k[0]][0])[0]*math.exp(rng.uniform(-1, 1))
    nconst = rng.randint(0, 4) if nconst is None else nconst
    for i in range(nconst):
        unit = rng.choice(pool) if useunits and rng.random() < .6 else None
        if useunits and rng.random() < .4:
            f = s.free[rng.choice(list(s.free))][0]
            unit = rng.choice(alg.BYDIM[alg.UNITS[f][1]]) if f else unit
        shp = shape if shape and rng.random() < constvec else None
        val = (np.array([float("%.4g" % math.exp(rng.uniform(-1, 1)))
                         for _ in range(int(np.prod(shp)))]).reshape(shp) if shp
               else float("%.4g" % math.exp(rng.uniform(-1, 1))))
        s.consts["abcde"[i]] = (val, unit, shp)
        s.how["abcde"[i]] = rng.choice(hows)
    fkeys, ckeys = s.keys(), s.keys("consts")
    keys = fkeys + ckeys + fkeys
    fp = s.full(s.hidden)
    # ---- constraints
    ncons = rng.randint(1, 4) if ncons is None else ncons
    for _ in range(ncons):
        lt, d = posy(rng, s, keys, rng.choice([1, 1, 2, 2, 3, 3, 5, 7]), None, fp)
        gt, gd = mono(rng, s, keys, rng.randint(0, 2))
        if constterms and ckeys and rng.random() < constterms:
            # several terms that constants make one number
            ct, _ = posy(rng, s, ckeys, rng.choice([2, 2, 3]), d, fp)
            lt = ("add", ct, lt) if rng.random() < .5 else ("add", lt, ct)
            gt, gd = mono(rng, s, ckeys, rng.randint(0, 1))
        rho = rng.uniform(.35, .95)
        lv = evaluate(lt, fp)
        if gt is None:
            gt = num(float("%.6g" % (lv.v/rho)), d, rng)
        else:
            k = lv.v/rho/evaluate(gt, fp).v
            gt = ("mul", num(k, dimadd(d, gd, -1), rng), gt)
        if not usesfree(s, lt) and not usesfree(s, gt):
            continue
        s.cons.append(orient(rng, lt, gt, tag="posy"))
    if len(fkeys) > 1 and rng.random() < equalities:
        l, d = mono(rng, s, keys, rng.choice([2, 2, 3]))
        r, rd = mono(rng, s, keys, rng.choice([0, 1, 1]))
        if r is not None and usesfree(s, l):
            k = evaluate(l, fp).v/evaluate(r, fp).v
            s.cons.append(con(l, "=", ("mul", num(k, dimadd(d, rd, -1), rng), r),
                              tag="eq"))
        elif usesfree(s, l):
            k = num(evaluate(l, fp).v, d, rng)
            s.cons.append(con(l, "=", k, tag="eq") if rng.random() < .7
                          else con(k, "=", l, tag="eq"))
    # vector-level constraints
    vecs = [n for n, (_, sh) in s.free.items() if sh]
    if vecs and rng.random() < .7:
        n = rng.choice(vecs)
        unit, shp = s.free[n]
        tot = evaluate(("vsum", n), fp)
        s.cons.append(orient(rng, ("vsum", n), num(tot.v*rng.uniform(1.1, 2), tot.d, rng),
                             tag="vsum"))
    # ---- boxes: every variable bounded both ways
    if box:
        for n, (unit, shp) in s.free.items():
            hid = [s.hidden[k] for k in fkeys if k[0] == n]
            f, d = alg.decl_factor(unit)
            node = ("vv", n) if shp else ("var", n, None)
            hi = float("%.4g" % (max(hid)*rng.uniform(1.5, wide)/f))*f
            lo = float("%.4g" % (min(hid)/rng.uniform(1.5, wide)/f))*f
            form = rng.random()
            cs = [c for c in s.consts if s.consts[c][2] is None and s.dim(c) == d]
            if cs and form < .3:
                c = rng.choice(cs)
                cv = s.constpoint()[(c, None)]
                s.cons.append(orient(rng, node, ("mul", ("num", float("%.6g" % (hi/cv))),
                                                 ("var", c, None)), shp, "box"))
            else:
                s.cons.append(orient(rng, node, num(hi, d, rng), shp, "box"))
            s.cons.append(orient(rng, num(lo, d, rng), node, shp, "box"))
    # ---- cost
    s.cost, _ = posy(rng, s, keys, rng.choice([1, 1, 2, 2, 3, 3, 6]), None, fp)
    if not usesfree(s, s.cost):
        t, td = mono(rng, s, fkeys, 1)
        c = evaluate(s.cost, fp)
        s.cost = ("mul", s.cost, ("mul", num(1/evaluate(t, fp).v,
                                             dimadd(DIMLESS, td, -1), rng), t))
    rng.shuffle(s.cons)
    return s


def usesfree(s, tree):
    if tree[0] in ("var", "vv", "vsum", "vprod"):
        return tree[1] in s.free
    return any(usesfree(s, t) for t in tree[1:]
               if isinstance(t, tuple) and t and isinstance(t[0], str))


def varnames(tree):
    "names used in a tree"
    if tree[0] in ("var", "vv", "vsum", "vprod"):
        return {tree[1]}
    out = set()
    for t in tree[1:]:
        if isinstance(t, tuple) and t and isinstance(t[0], str):
            out |= varnames(t)
    return out


def slsqp(spec, scale=None, start=None, skip=(), relax=None):
    """Independent optimum: returns (cost SI, point) of a verified feasible point."""
    from scipy.optimize import minimize
    keys = spec.keys()
    x0 = np.array([math.log((start or spec.hidden)[k]) for k in keys])

    def pt(x):
        return {k: math.exp(v) for k, v in zip(keys, x)}

    def f(x):
        return math.log(spec.costval(pt(x), scale).v)

    ineq, eq = [], []
    for i, c in enumerate(spec.cons):
        if i in skip:
            continue
        (eq if c["op"] == "=" else ineq).append((i, c))

    def g(x):
        p = pt(x)
        return np.array([-math.log(r) + (relax or {}).get(i, 0) for i, c in ineq
                         for r, _ in spec.ratios(c, p, scale)])

    def h(x):
        p = pt(x)
        return np.array([math.log(r) for i, c in eq
                         for r, _ in spec.ratios(c, p, scale)])
    cons = [{"type": "ineq", "fun": g}] if ineq else []
    if eq:
        cons.append({"type": "eq", "fun": h})
    try:
        res = minimize(f, x0, method="SLSQP", constraints=cons,
                       options={"maxiter": 200, "ftol": 1e-10})
    except (ValueError, ArithmeticError):
        return None
    if not np.all(np.isfinite(res.x)):
        return None
    x = res.x
    if ineq and g(x).min() < -1e-7:
        return None
    if eq and abs(h(x)).max() > 1e-7:
        return None
    return spec.costval(pt(x), scale).v, pt(x)
