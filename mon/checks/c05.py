"""C05: substitution against evaluation of the same tree with those variables fixed."""
import numpy as np
from ..core import Violation, Skip
from .. import alg
from ..alg import Val

PROP = "C05"
RULE = ("a case is a random expression or array and a random substitution (key and value "
        "forms mixed); non-trivial if at least one variable of the expression is fixed, "
        "identified by expression text and substituted values")
ASSUME = ["pint's unit conversion factors are trusted"]


def fractional(tree):
    "does the tree raise anything to a non-integer power?"
    if tree[0] == "pow" and tree[2] != int(tree[2]):
        return True
    return any(fractional(t) for t in tree[1:]
               if isinstance(t, tuple) and t and isinstance(t[0], str))


def powers(expr, vk):
    "exponents with which a key appears in an expression"
    return {float(e[vk]) for e in expr.exps if vk in e}


def rand_value(rng, w, name, expr, key, signs=True):
    """(value to hand over, SI value) for a variable, in one of several forms"""
    import gpkit
    unit = w.decls[name]
    f, d = alg.decl_factor(unit)
    xs = powers(expr, key)
    v = float("%.4g" % np.exp(rng.uniform(-1.5, 1.5)))
    r = rng.random()
    if r < .2 and not signs:
        pass
    elif r < .1 and all(x >= 0 for x in xs):
        v = 0.0
    elif r < .2 and all(x == int(x) for x in xs):
        v = -v
    form = rng.choice(["float", "float", "int", "np", "qty", "mono", "0d"])
    if form == "int":
        v = float(max(1, round(v))) if v > 0 else v
        return (int(v) if v == int(v) else v), v*f
    if form == "np":
        return np.float64(v), v*f
    if form == "0d":
        return np.array(v), v*f
    if form in ("qty", "mono"):
        u = rng.choice(alg.BYDIM[d]) if unit else "dimensionless"
        uf = alg.UNITS[u][0] if unit else 1.0
        if form == "mono" and v != 0:
            m = v*gpkit.units(u) if v > 0 else None
            if m is not None:
                return m, v*uf
        return gpkit.ureg.Quantity(v, u), v*uf
    return v, v*f


def rand_key(rng, w, name):
    var = w.objs[name]
    return rng.choice([var, var.key, name])


def fixed_eval(tree, w, pt, si):
    p = dict(pt)
    for n, v in si.items():
        p[(n, None)] = v
    return alg.evaluate(tree, alg.dimmed(p, w))


def compare(rec, got, want, pt, decls, what):
    g = alg.measure(got, pt, decls)
    rec.ev("points_compared")
    if alg.same(g, want, 1e-9):
        return
    if g.v == 0 and abs(want.v) <= 1e-9*max(want.a, 1e-300):
        return
    raise Violation("wrong-value" if g.d == want.d else "wrong-units",
                    "%s -> %s evaluates to %r, expected %r" % (what, got, g, want))


def scalar(rng, rec):
    import gpkit
    signed = rng.random() < .5
    w = alg.World(rng, rng.randint(1, 5), units=rng.random() < .7).make()
    tree, _ = alg.gen(rng, w, rng.choice([1, 2, 3, 4]), signed)
    with gpkit.SignomialsEnabled():
        expr = alg.build(tree, w.objs)
    if not hasattr(expr, "hmap"):
        raise Skip("not an expression")
    names = [n for n in w.decls if rng.random() < .6] or [rng.choice(list(w.decls))]
    pts = [w.point() for _ in range(2)]
    subs, si = {}, {}
    for n in names:
        val, v = rand_value(rng, w, n, expr, w.objs[n].key,
                            not fractional(tree) and type(expr) is not gpkit.Variable)
        subs[rand_key(rng, w, n)] = val
        si[n] = v
    try:
        wants = [fixed_eval(tree, w, pt, si) for pt in pts]
    except (ZeroDivisionError, OverflowError, TypeError, Skip):
        raise Skip("tree undefined there")
    if any(isinstance(x.v, complex) for x in wants):
        raise Skip("tree undefined there")
    full = dict(subs)
    if rng.random() < .4:    # keys that have nothing to do with this expression
        full[gpkit.Variable("unrelated", "kg")] = 17
        full[gpkit.Variable("unrelated2")] = 3.5
    keep = {k: repr(v) for k, v in full.items()}
    before = (str(expr), hash(expr), str(expr.hmap))
    got = expr.sub(full, require_positive=False) if type(expr) is not gpkit.Variable \
        else expr.sub(full)
    what = "%s.sub(%s)" % (alg.show(tree), {str(k): str(v) for k, v in full.items()})
    for pt, want in zip(pts, wants):
        compare(rec, got, want, pt, w.decls, what)
    left = {vk.name for e in got.exps for vk in e}
    if left & set(names):
        raise Violation("not-fixed", "%s still contains %s" % (what, left & set(names)))
    rec.ev("fixed_gone")
    alg.check_fresh(rec, got, what)
    # one at a time, any order
    one = expr
    order = list(subs.items())
    rng.shuffle(order)
    for k, v in order:
        if any(getattr(k, "key", k) in (vk, vk.name) for e in one.exps for vk in e):
            one = one.sub({k: v}, require_positive=False) \
                if type(one) is not gpkit.Variable else one.sub({k: v})
    for pt, want in zip(pts, wants):
        compare(rec, one, want, pt, w.decls, "one by one: " + what)
    rec.ev("one_by_one")
    # single-key call of a variable
    v = w.objs[names[0]]
    single, vsi = rand_value(rng, w, names[0], gpkit.Monomial(v), v.key, False)
    g = v.sub(single)
    compare(rec, g, Val(vsi, None, w.dim(names[0])), pts[0], w.decls,
            "%s.sub(%s)" % (v, single))
    # operands untouched
    if before != (str(expr), hash(expr), str(expr.hmap)):
        raise Violation("operand-changed", what + " changed the expression")
    if keep != {k: repr(v) for k, v in full.items()}:
        raise Violation("subs-changed", what + " changed the substitutions")
    compare(rec, expr, alg.evaluate(tree, alg.dimmed(pts[0], w)), pts[0], w.decls,
            "re-read " + alg.show(tree))
    hit = {vk.name for e in expr.exps for vk in e} & set(names)
    if hit:
        rec.sig(alg.show(tree), sorted((str(k), str(v)) for k, v in subs.items()))
        rec.ev("substituted_vars", len(hit))
    if any(v == 0 for v in si.values()):
        rec.ev("zero_values")
    if any(v < 0 for v in si.values()):
        rec.ev("negative_values")
    rec.sample(what + " -> %s" % got)


def vectors(rng, rec):
    "whole vectors, elements, names and element names; arrays of expressions"
    import gpkit
    shape = rng.choice([(2,), (3,), (4,), (2, 2), (2, 3)])
    unit = rng.choice([None, "m", "ft", "kg"])
    f, d = alg.decl_factor(unit)
    v = gpkit.VectorVariable(shape, "v", *([unit] if unit else []))
    y = gpkit.Variable("y")
    n = int(np.prod(shape))
    decls = {"v": unit, "y": None}
    pt = {("v", i): f*rng.uniform(.5, 2) for i in np.ndindex(*shape)}
    pt[("y", None)] = rng.uniform(.5, 2)
    # expressions over the vector
    weights = np.array([rng.choice([1, 2, .5, 3]) for _ in range(n)]).reshape(shape)
    expo = rng.choice([1, 2, -1, .5])
    el = (v**expo)*weights
    exprs = {"sum": (el.sum()*y, lambda V: (weights*V**expo).sum()*pt[("y", None)]),
             "prod": (v.prod()**2, lambda V: V.prod()**2),
             "arr": (el*y, lambda V: weights*V**expo*pt[("y", None)]),
             "el": (v[next(np.ndindex(*shape))]**3 + v.sum()**2*v.flat[n-1],
                    lambda V: V.flat[0]**3 + V.sum()**2*V.flat[n-1]),
             "vec": (v, lambda V: V)}
    new = np.array([float("%.4g" % np.exp(rng.uniform(-1, 1))) for _ in range(n)]
                   ).reshape(shape)
    key = rng.choice(["var", "veckey", "name"])
    form = rng.choice(["array", "fortran", "strided", "list", "ints", "scalar", "elements", "some", "nan",
                       "qty", "elqty", "elname"])
    k = {"var": v, "veckey": v.key, "name": "v"}[key]
    V = np.array([pt[("v", i)]/f for i in np.ndindex(*shape)]).reshape(shape)
    if form in ("array", "list"):
        subs = {k: new.copy() if form == "array" else new.tolist()}
        V = new.copy()
    elif form == "fortran":    # same values, other memory layouts
        arr = np.asfortranarray(new)
        if rng.random() < .5:
            arr = np.ascontiguousarray(new.T).T
        subs, V = {k: arr}, new.copy()
    elif form == "strided":
        big = np.zeros(tuple(2*q for q in shape))
        view = big[tuple(slice(None, None, 2) for _ in shape)]
        view[...] = new
        subs, V = {k: view}, new.copy()
    elif form == "ints":
        new = np.arange(1, n+1).reshape(shape)
        subs, V = {k: new.copy()}, new.astype(float)
    elif form == "scalar":
        subs, V = {k: 2.5}, np.full(shape, 2.5)
    elif form == "nan":
        keepfree = rng.sample(list(np.ndindex(*shape)), max(1, n//2))
        for i in np.ndindex(*shape):
            if i not in keepfree:
                V[i] = new[i]
        arr = new.copy()
        for i in keepfree:
            arr[i] = np.nan
        subs = {k: arr}
    elif form == "qty" and unit:
        u = rng.choice(alg.BYDIM[d])
        subs = {k: gpkit.ureg.Quantity(new.copy(), u)}
        V = new*alg.UNITS[u][0]/f
    elif form == "elqty" and unit:
        u = rng.choice(alg.BYDIM[d])
        i = rng.choice(list(np.ndindex(*shape)))
        subs = {v[i]: rng.choice([gpkit.ureg.Quantity(new[i], u), new[i]*gpkit.units(u)])}
        V[i] = new[i]*alg.UNITS[u][0]/f
    elif form == "elname":
        i = rng.choice(list(np.ndindex(*shape)))
        subs = {"v[%s]" % ",".join(map(str, i)): new[i]}
        V[i] = new[i]
    else:
        idxs = list(np.ndindex(*shape))
        if form == "some":
            idxs = rng.sample(idxs, rng.randint(1, n))
        rng.shuffle(idxs)
        subs = {}
        for i in idxs:
            subs[rng.choice([v[i], v[i].key])] = new[i]
            V[i] = new[i]
    V0 = {kk: repr(vv) for kk, vv in subs.items()} if form != "qty" else None
    subs2 = dict(subs)
    if rng.random() < .3:
        subs2["nothing_called_this"] = 4
        subs2[gpkit.VectorVariable(3, "other")] = np.array([1, 2, 3])
    for nm, (ex, fn) in exprs.items():
        got = ex.sub(subs2)
        want = fn(V)
        arr, wa = np.asarray(got, object), np.asarray(want, float)
        if arr.shape != wa.shape:
            raise Violation("wrong-shape", "%s %s: shape %s, expected %s"
                            % (nm, form, arr.shape, wa.shape))
        for i in np.ndindex(*wa.shape):
            g = alg.measure(arr[i], pt, decls)
            scale = alg.unit_factor(getattr(arr[i], "units", None))[0]
            rec.ev("elements_compared")
            if not abs(g.v/scale - wa[i]) <= 1e-9*abs(wa[i]):
                raise Violation("wrong-vector-value", "%s under %s by %s: element %s is"
                                " %r, expected %r" % (nm, {str(a): str(b) for a, b in
                                                           subs.items()}, key, i,
                                                      g.v/scale, wa[i]))
            expd = alg.measure(np.asarray(ex, object)[i], pt, decls).d
            if g.d != expd:
                raise Violation("wrong-units", "%s lost its units: %s %s"
                                % (nm, g.d, expd))
    if V0 is not None and V0 != {kk: repr(vv) for kk, vv in subs.items()}:
        raise Violation("subs-changed", "substituting changed the caller's values")
    rec.ev("form_" + form)
    rec.sig(shape, unit, key, form, new.tolist(), expo, weights.tolist())


def declared(rng, rec):
    "Values given when a variable is declared, alone or inside vectorised environments"
    import gpkit
    Q = gpkit.ureg.Quantity
    outer = rng.choice([(), (), (2,), (3,), (2, 3), (2, 2)])
    shape = rng.choice([None, (2,), (3,), (2, 2), (3, 2), (2, 3)])
    unit = rng.choice([None, "m", "ft", "kg"])
    f, d = alg.decl_factor(unit)
    full = (shape or ()) + outer
    given = full if rng.random() < .5 else (shape or ())
    n = int(np.prod(given)) if given else 1
    vals = np.array([float("%.4g" % np.exp(rng.uniform(-1.5, 1.5))) for _ in range(n)])
    vals = vals.reshape(given) if given else float(vals[0])
    form = rng.choice(["array", "list", "qty", "elements", "fortran", "tuple"])
    if shape is None and given == ():
        form = rng.choice(["number", "qty", "mono"])
    if not unit and form in ("qty", "elements", "mono"):
        form = "array" if given else "number"
    si = np.asarray(vals)*f
    u = rng.choice(alg.BYDIM[d]) if unit else None
    if form == "number":
        value = vals
    elif form == "array":
        value = np.array(vals)
    elif form == "fortran":
        value = np.asfortranarray(vals)
    elif form == "list":
        value = vals.tolist()
    elif form == "tuple":
        value = tuple(vals.tolist())
    elif form == "qty":
        value = Q(np.array(vals) if given else vals, u)
        si = np.asarray(vals)*alg.UNITS[u][0]
    elif form == "mono":
        value = vals*gpkit.units(u)
        si = np.asarray(vals)*alg.UNITS[u][0]
    else:
        value = np.empty(given, object)
        for i in np.ndindex(*given):
            value[i] = vals[i]*gpkit.units(u)
        if rng.random() < .5 and len(given) == 1:
            value = list(value)
        si = np.asarray(vals)*alg.UNITS[u][0]
    want = np.asarray(si)/f     # in the variable's own units
    if given != full:           # repeated along the dimensions of the environment
        want = np.multiply.outer(want, np.ones(outer))
    bad = None
    if shape is not None and form == "array" and rng.random() < .5:
        bad = rng.choice(["longer", "flat", "flat", "turned", "turned", "extra"])
        value = {"longer": np.ones(tuple(q+1 for q in given)), "flat": np.ones(n),
                 "turned": np.ones(tuple(reversed(given))),
                 "extra": np.ones(given + (4,))}[bad]
        if value.shape in (full, shape):
            raise Skip("fits")
    kw = {"value": value} if rng.random() < .4 or form == "mono" else None
    args = ["v"] + ([value] if not kw else []) + ([unit] if unit else [])
    what = "%s of %s in %s under Vectorize%s, by %s" % (form, unit, shape, outer, value)

    def make():
        if shape is None:
            if not outer and form in ("array", "list", "tuple"):
                raise Skip("a sweep")
            return gpkit.Variable(*args, **(kw or {}))
        return gpkit.VectorVariable(shape, *args, **(kw or {}))

    def nest(dims):
        if not dims:
            return make()
        with gpkit.Vectorize(dims[-1]):
            return nest(dims[:-1])
    if bad:
        try:
            v = nest(outer)
        except ValueError:
            rec.ev("shapes_refused")
            return
        raise Violation("wrong-shape", "%s was accepted as a value of %s" % (
            value.shape, what))
    v = nest(outer)
    if np.shape(v) != full:
        raise Violation("wrong-shape", "%s has shape %s, expected %s"
                        % (what, np.shape(v), full))
    x = gpkit.Variable("x", *([unit] if unit else []))
    m = gpkit.Model(x, [x >= v])
    rec.sig(what)

    def judge(got, where):
        got = np.asarray(getattr(got, "magnitude", got), float)
        if got.shape != full or not np.allclose(got, want, rtol=1e-9, atol=0):
            raise Violation("wrong-declared-value", "%s: %s has %s, expected %s"
                            % (what, where, got.tolist(), np.asarray(want).tolist()))
        rec.ev("declared_checked")
    judge(m.substitutions[v], "substitutions")
    sol = m.solve(verbosity=0)
    judge(sol["constants"][v], "solution")
    judge(sol["variables"]["v"], "solution")
    if not abs(float(sol["cost"])/want.max() - 1) < 1e-5:
        raise Violation("wrong-declared-value", "%s: costs %s, expected %s"
                        % (what, sol["cost"], want.max()))
    if bad is None and form == "qty":
        rec.ev("declared_with_units")
    if outer:
        rec.ev("declared_vectorized")


def refused(rng, rec):
    "What cannot be substituted is refused whole; what is not a value leaves its variable free"
    import gpkit
    shape = rng.choice([(2,), (3,), (2, 2), (2, 3)])
    v = gpkit.VectorVariable(shape, "v")
    x, y = gpkit.Variable("x"), gpkit.Variable("y")
    exprs = [v.sum()*y + x, v.prod()*x**2, v*y, v, v[(0,)*len(shape)]**2 + x]
    ex = rng.choice(exprs)
    before = (str(ex), hash(ex))
    how = rng.choice(["shape", "shape", "mono", "posy", "callable", "sweep", "negative"])
    key = rng.choice([v, v.key, "v"])
    if how == "negative":
        # makes signomials, which have to be asked for
        ex = rng.choice([x*y + 1, v*y*x, x*v + y, x*y, x**3*v.prod()])
        before = (str(ex), hash(ex))
        c = round(rng.uniform(.5, 3), 3)
        what = "x=-%s in %s" % (c, ex)
        rec.sig(what)
        try:
            got = ex.sub({x: -c})
        except gpkit.exceptions.InvalidPosynomial:
            rec.ev("refused")
        else:
            raise Violation("silently-accepted", "%s gave %s" % (what, got))
        got = ex.sub({x: -c}, require_positive=False)
        with gpkit.SignomialsEnabled():
            got2 = ex.sub({x: -c})
        for g, e in zip(np.ravel(np.asarray(got, object)), np.ravel(np.asarray(ex, object))):
            if type(g) is not gpkit.Signomial or min(g.hmap.values()) >= 0:
                raise Violation("wrong-value", "%s gave the %s %s" % (what, type(g), g))
        if str(got) != str(got2) or before != (str(ex), hash(ex)):
            raise Violation("wrong-value", "%s: %s, %s" % (what, got, got2))
        return
    if how == "shape":
        bad = rng.choice([tuple(q+1 for q in shape), shape + (2,), (1,)*len(shape),
                          tuple(reversed(shape)), (int(np.prod(shape)),)])
        if bad == shape:
            raise Skip("fits")
        arr = np.full(bad, 2.)
        subs = {key: arr if rng.random() < .6 else arr.tolist()}
    elif how in ("mono", "posy"):
        val = {"mono": rng.choice([y, 2*y, y.key, 1/y]), "posy": y + 1}[how]
        subs = {rng.choice([v[(0,)*len(shape)], x]): val}
    elif how == "callable":
        subs = {rng.choice([v, x, v[(0,)*len(shape)]]): lambda c: 3}
    else:
        subs = {rng.choice([y, x]): ("sweep", [1, 2])}
    what = "%s in %s" % ({str(k): str(q) for k, q in subs.items()}, ex)
    rec.sig(what)
    try:
        got = ex.sub(subs)
    except ValueError:
        if how in ("callable", "sweep"):
            raise
        rec.ev("refused")
    else:
        k, = subs
        k = getattr(k, "key", k)
        els = {e.key for e in v.flat} if k == v.key or k == "v" else {k}
        here = {q for e in (np.asarray(ex, object).flat if hasattr(ex, "flat") else [ex])
                for p in e.hmap for q in p}
        left = {q for e in (np.asarray(got, object).flat if hasattr(got, "flat") else [got])
                for p in e.hmap for q in p}
        if how in ("callable", "sweep"):
            if left != here:
                raise Violation("not-left-free", "%s: variables %s became %s"
                                % (what, sorted(map(str, here)), sorted(map(str, left))))
            rec.ev("left_free")
        elif els & here:
            raise Violation("silently-accepted", "%s gave %s" % (what, got))
    if before != (str(ex), hash(ex)):
        raise Violation("operand-changed", what)


def valued(rng, rec):
    ".value: an expression with the values its own variables were declared with"
    import gpkit
    signed = rng.random() < .4
    w = alg.World(rng, rng.randint(1, 4), units=rng.random() < .7).make()
    tree, _ = alg.gen(rng, w, rng.choice([1, 2, 3]), signed)
    with gpkit.SignomialsEnabled():
        expr = alg.build(tree, w.objs)
    if not hasattr(expr, "hmap"):
        raise Skip("not an expression")
    share = rng.choice([.4, .7, 1, 1])
    names = [n for n in w.decls if rng.random() < share]
    si, plain = {}, dict(w.objs)
    for n in names:
        u = w.decls[n]
        while True:
            val, v = rand_value(rng, w, n, expr, plain[n].key, False)
            if not hasattr(val, "hmap") and np.ndim(val) == 0 and not isinstance(val, np.ndarray):
                break
        if rng.random() < .15 and all(x >= 0 for x in powers(expr, plain[n].key)) \
                and not fractional(tree):
            val = v = 0
        args = [n, val] + ([u] if u else [])
        if rng.random() < .3:
            w.objs[n] = gpkit.Variable(n, *args[2:], value=val)
        else:
            w.objs[n] = gpkit.Variable(*args)
        si[n] = v
    pts = [w.point() for _ in range(2)]
    try:
        wants = [fixed_eval(tree, w, pt, si) for pt in pts]
    except (ZeroDivisionError, OverflowError, TypeError, Skip):
        raise Skip("tree undefined there")
    if any(isinstance(x.v, complex) for x in wants):
        raise Skip("tree undefined there")
    with gpkit.SignomialsEnabled():
        expr = alg.build(tree, w.objs)
        try:
            got = expr.value
        except ValueError:
            if any(c <= 0 for c in expr.sub({k: k.value for k in expr.vks if "value" in k.descr},
                                            require_positive=False).hmap.values()):
                raise Skip("negative")
            raise
    what = "(%s).value with %s" % (alg.show(tree), {n: str(o.key.value) for n, o in w.objs.items()})
    free = {vk.name for vk in expr.vks} - set(names)
    # terms may vanish with the zeros
    if not hasattr(got, "hmap"):
        q = gpkit.ureg.Quantity(1, "dimensionless")*got
        f, d = alg.unit_factor(q.units)
        for want in wants:
            g = Val(float(q.magnitude)*f, None, d)
            if want.v == 0 and abs(g.v) <= 1e-9*max(want.a, 1e-300) and g.d == want.d:
                continue
            if not alg.same(g, want, 1e-9):
                raise Violation("wrong-value", "%s is %r, should be %r" % (what, got, want))
        if free and not any(v == 0 for v in si.values()) and not signed:
            raise Violation("not-left", "%s is %r without %s" % (what, got, free))
        rec.ev("values_of_numbers")
    else:
        left = {vk.name for e in got.exps for vk in e}
        if left & set(names):
            raise Violation("not-fixed", "%s still contains %s" % (what, left & set(names)))
        if not free and got.hmap:    # unless its terms cancelled before that
            raise Violation("not-fixed", "%s is %r, of %s" % (what, got, type(got)))
        for pt, want in zip(pts, wants):
            compare(rec, got, want, pt, w.decls, what)
        rec.ev("values_with_variables")
    if 0 in si.values():
        rec.ev("values_at_zero")
    if names:
        rec.sig(what)


KINDS = {"valued": (valued, 400, 6000), "scalar": (scalar, 1500, 30000), "vectors": (vectors, 500, 6000),
         "declared": (declared, 500, 6000), "refused": (refused, 400, 4000)}
NEED = {"values_of_numbers": 60, "values_with_variables": 60, "values_at_zero": 15, "points_compared": 3000, "fixed_gone": 800, "one_by_one": 800,
        "zero_values": 40, "negative_values": 40, "elements_compared": 2000,
        "declared_checked": 500, "declared_with_units": 20, "declared_vectorized": 100,
        "shapes_refused": 5, "refused": 80, "left_free": 40}
