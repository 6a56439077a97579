"""C35: plots of sweeps show the values swept and the values found.

The real plotting functions draw on matplotlib's file-less backend; the monitor then reads the
lines, bands, markers and labels back from the axes and compares them with raw stored values, with
the bounds of autosweeps, and with separate solves of fresh models.
"""
import numpy as np
from ..core import Violation, Skip
from .. import alg, reader
from .c16 import pick, obj, magnitudes, snapshot, counting

PROP = "C35"
RULE = ("a case is a random geometric model swept over one variable (or several in a grid, or "
        "several models compared, or a signomial model's convergence), and a list of quantities "
        "plotted; non-trivial when a line or band was compared, identified by model and list")
TECH = ("reading back of matplotlib lines, bands, markers and labels, compared with stored values, "
        "bounds and separate solves")
NOTE = ("looks (colors of single lines, ticks, sizes) are not judged; sweeps of one element at one "
        "point, of whole vectors (one line per element is drawn) "
        "and over several variables at once (documented not to be plotted) are left out")
CPU_LIMIT = 60
CHUNK = 6


def close():
    import matplotlib.pyplot as plt
    plt.close("all")


def scalars(m, sol):
    "names of scalar variables and elements present in the solution"
    out = []
    for n, v in m.v_objs.items():
        if getattr(v, "shape", ()):
            if v.key in sol["variables"] and not np.isnan(
                    magnitudes(sol["variables"][v.key])).any():
                out += [(n, i) for i in np.ndindex(*v.shape)]
        elif v in sol["variables"]:
            out.append((n, None))
    return out


def series(sol, m, key, n):
    "raw stored values of one variable or element at each point, in its own units"
    v = m.v_objs[key[0]]
    a = np.asarray(magnitudes(sol["variables"][v.key]))
    shape = tuple(getattr(v, "shape", ()))
    if a.shape == shape:
        a = np.broadcast_to(a, (n,) + shape)
    return a[(slice(None),) + (key[1] or ())]


def quantities(rng, m, names, vals):
    "[(thing to plot, its values, its label's start)]"
    out = []
    for _ in range(rng.randint(1, 4)):
        how = rng.choice(["var", "var", "name", "cost", "cost", "expr", "key", "posy"])
        k = rng.choice(names)
        v = obj(m.v_objs, k)
        unit = alg.unit_factor(v.units)[0]
        if how in ("var", "key") or how == "name" and k[1] is not None:
            out.append((v.key if how == "key" else v, vals(k), "%s [" % v.key.name))
        elif how == "name":
            out.append((k[0], vals(k), k[0]))
        elif how == "cost":
            out.append((rng.choice(["cost", None]), None, ""))
        else:
            k2 = rng.choice(names)
            w = obj(m.v_objs, k2)
            f = alg.unit_factor(w.units)[0]
            if how == "expr":
                e, si = rng.choice([(2*v*w, 2*vals(k)*unit*vals(k2)*f),
                                    (v**2/w, (vals(k)*unit)**2/(vals(k2)*f))])
            else:
                e, si = 3*v + v**2/v, 4*vals(k)*unit
            if not e.vks:
                continue
            out.append((e, si/alg.unit_factor(e.units)[0], None))
    return out


def check_line(rec, line, x, y, what):
    gx = np.asarray(line.get_xdata(orig=False), float)
    gy = np.asarray(line.get_ydata(orig=False), float)
    for name, got, want in (("x", gx, np.asarray(x, float)), ("y", gy, np.asarray(y, float))):
        if got.shape != want.shape or not np.allclose(got, want, rtol=1e-7, atol=0):
            raise Violation("wrong-line", "%s: %s-values %s instead of %s" % (what, name, got, want))
    rec.ev("lines")
    rec.ev("points", len(gx))


def unit_shown(text, name, units):
    "is text the name and, in brackets, the units?"
    if not (text.startswith(name + " [") and text.endswith("]")):
        return False
    shown = text[len(name)+2:-1]
    want = alg.unit_factor(units)
    if shown in ("-", ""):
        return want == (1., alg.DIMLESS)
    try:
        got = reader.unit(shown)
    except reader.ReadError:
        return False
    return abs(got[0]/want[0] - 1) < 1e-9 and tuple(got[1]) == tuple(want[1])


def labels(rec, ax, xvar, q, what, last, ylabels=True):
    if last and not unit_shown(ax.get_xlabel(), xvar.key.descr.get("label", xvar.key.name),
                               xvar.units):
        raise Violation("wrong-label", "%s: horizontal axis %r" % (what, ax.get_xlabel()))
    if ylabels and hasattr(q[0], "key") and not unit_shown(ax.get_ylabel(), q[2][:-2],
                                                           q[0].key.units):
        raise Violation("wrong-label", "%s: vertical axis %r, of %s" % (what, ax.get_ylabel(), q[0]))
    if last and not ax.get_xlabel() == "%s [%s]" % (
            xvar.key.descr.get("label", xvar.key.name), xvar.key.unitstr(dimless="-")):
        raise Violation("wrong-label", "%s: horizontal axis %r" % (what, ax.get_xlabel()))
    if not last and ax.get_xlabel():
        raise Violation("wrong-label", "%s: upper plot has label %r" % (what, ax.get_xlabel()))
    if ylabels and q[2]:
        if not ax.get_ylabel().startswith(q[2]):
            raise Violation("wrong-label", "%s: vertical axis %r, of %s" % (what, ax.get_ylabel(), q[0]))
    if not ylabels and ax.get_ylabel():
        raise Violation("wrong-label", "%s: repeated label %r" % (what, ax.get_ylabel()))
    rec.ev("labels")


def unchanged(given, copy, what):
    if len(given) != len(copy) or any(a is not b for a, b in zip(given, copy)):
        raise Violation("argument-changed", "%s: the list given became %s" % (what, given))


def ask(rng, qs):
    "how the quantities are given"
    if len(qs) == 1 and rng.random() < .6:
        return qs[0][0]
    things = [q[0] for q in qs]
    return tuple(things) if rng.random() < .2 else things


def given_axes(rng, n):
    import matplotlib.pyplot as plt
    if rng.random() < .7:
        return None
    _, axes = plt.subplots(n, 1)
    return axes


def sweep(rng, rec):
    "SolutionArray.plot"
    import gpkit
    spec, key, lo, hi = pick(rng)
    m = spec.model()
    o = obj(m.v_objs, key)
    xs = [float("%.5g" % v) for v in np.linspace(lo, hi, rng.randint(2, 5))]
    if rng.random() < .3:
        rng.shuffle(xs)
    try:
        sol = m.sweep({o: np.array(xs)}, verbosity=0)
    except (gpkit.exceptions.Infeasible, RuntimeWarning) as e:
        raise Skip("not solved: %s" % type(e).__name__)
    qs = quantities(rng, m, scalars(m, sol), lambda k: series(sol, m, k, len(xs)))
    if not qs:
        raise Skip("nothing to plot")
    what = "plot of %s over %s of %s" % ([str(q[0]) for q in qs], key, spec.text())
    posys = ask(rng, qs)
    copy = list(posys) if isinstance(posys, (list, tuple)) else None
    before = magnitudes(sol["cost"]).copy()
    axes = given_axes(rng, len(qs))
    try:
        if posys is None and axes is None and rng.random() < .5:
            _, got = sol.plot()
        else:
            _, got = sol.plot(posys, axes)
        if copy is not None:
            unchanged(list(posys), copy, what)
        got = list(got) if len(qs) > 1 else [got]
        rec.require(len(got) == len(qs), "axes-count", what)
        for i, (ax, q) in enumerate(zip(got, qs)):
            rec.require(len(ax.lines) == 1, "lines-count", lambda: "%s: %s" % (what, len(ax.lines)))
            y = magnitudes(sol["cost"]) if q[1] is None else q[1]
            check_line(rec, ax.lines[0], xs, y, what)
            if axes is None:
                labels(rec, ax, o, q, what, i == len(qs)-1)
    finally:
        close()
    rec.require(np.array_equal(before, magnitudes(sol["cost"])), "solution-changed", what)
    rec.sig(what)
    rec.sample(what)


def band(rec, ax, sampled, what):
    rec.require(len(ax.collections) == 1 and not ax.lines, "bands-count", what)
    check_band(rec, ax.collections[0], sampled, what)


def check_band(rec, coll, sampled, what):
    xs = np.asarray(sampled.sampled_at, float)
    lb, ub = magnitudes(sampled.cost_lb()), magnitudes(sampled.cost_ub())
    verts = np.concatenate([p.vertices for p in coll.get_paths()])
    for x, l, u in zip(xs, lb, ub):
        at = verts[np.abs(verts[:, 0]-x) <= 1e-12*abs(x)][:, 1]
        if not len(at) or abs(at.min()/l-1) > 1e-6 or abs(at.max()/u-1) > 1e-6:
            raise Violation("wrong-band", "%s: at %r from %s, bounds are %r..%r"
                            % (what, x, sorted(at)[:1] + sorted(at)[-1:], l, u))
        rec.ev("band_points")
    if not set(np.unique(verts[:, 0])) <= {x for x in verts[:, 0]
                                           if np.abs(xs-x).min() <= 1e-12*abs(x)}:
        raise Violation("wrong-band", "%s: extra points" % what)
    rec.ev("bands")


def fields(sampled, m, k):
    v = obj(m.v_objs, k)
    return magnitudes(sampled(v))


def auto(rng, rec):
    "autosweep plots"
    import gpkit
    spec, key, lo, hi = pick(rng)
    m = spec.model()
    o = obj(m.v_objs, key)
    before = snapshot(m)
    try:
        sampled = m.autosweep({o: (lo, hi)}, samplepoints=rng.randint(2, 7), verbosity=0,
                              tol=rng.choice([.1, .03, .01]), solver=counting([]))
    except gpkit.exceptions.Infeasible as e:
        raise Skip("not solved: %s" % type(e).__name__)
    sol = sampled.bst.sollist[0]
    qs = quantities(rng, m, scalars(m, sol), lambda k: fields(sampled, m, k))
    qs = [q for q in qs if not (hasattr(q[0], "hmap") and q[0].hmap == m.cost.hmap)]
    if not qs:
        raise Skip("nothing to plot")
    what = "plot of %s over %s in %r..%r of %s" % ([str(q[0]) for q in qs], key, lo, hi, spec.text())
    posys = ask(rng, qs)
    copy = list(posys) if isinstance(posys, (list, tuple)) else None
    axes = given_axes(rng, len(qs))
    try:
        _, got = sampled.plot(posys, axes)
        if copy is not None:
            unchanged(list(posys), copy, what)
        got = list(got) if len(qs) > 1 else [got]
        rec.require(len(got) == len(qs), "axes-count", what)
        for i, (ax, q) in enumerate(zip(got, qs)):
            if q[1] is None:
                band(rec, ax, sampled, what)
            else:
                rec.require(len(ax.lines) == 1 and not ax.collections, "lines-count", what)
                check_line(rec, ax.lines[0], sampled.sampled_at, q[1], what)
            if axes is None:
                labels(rec, ax, o, q, what, i == len(qs)-1)
    finally:
        close()
    rec.require(snapshot(m) == before, "constants-changed", what)
    rec.sig(what)
    rec.ev("auto_plots")


def direct(spec, key, x, things):
    "values of the things in a separate solve"
    import gpkit
    m = spec.model()
    m.substitutions[obj(m.v_objs, key)] = x
    try:
        sol = m.solve(verbosity=0)
    except gpkit.exceptions.Infeasible as e:
        raise Skip("direct solve fails: %s" % type(e).__name__)
    del things
    return float(magnitudes(sol["cost"]))


def grid(rng, rec):
    "plot_1dsweepgrid"
    import gpkit
    from gpkit.interactive.plot_sweep import plot_1dsweepgrid
    spec, key, lo, hi = pick(rng)
    m = spec.model()
    used = spec.used()
    keys = [key] + [k for k in spec.keys("consts") if k in used and k != key][:rng.randint(0, 2)]
    sweeps, plan = {}, []
    for k in keys:
        o = obj(m.v_objs, k)
        if k != key:
            base = spec.constpoint()[k]/alg.decl_factor(spec.consts[k[0]][1])[0]
            lo, hi = float("%.5g" % (base*.97)), float("%.5g" % (base*1.02))
        kk = k[0] if k[1] is None and rng.random() < .4 else o
        if rng.random() < .35:
            over = (lo, hi)
        else:
            over = [lo, (lo+hi)/2, hi][:rng.randint(1 if k[1] is None else 2, 3)]
            over = np.array(over) if rng.random() < .5 else over
        sweeps[kk] = over
        plan.append((k, o, over))
    try:
        spec.model().solve(verbosity=0)
    except (gpkit.exceptions.Infeasible, gpkit.exceptions.InvalidGPConstraint) as e:
        raise Skip("not solved: %s" % type(e).__name__)
    before = snapshot(m)
    names = [k for n, v in m.v_objs.items()
             for k in ([(n, i) for i in np.ndindex(*v.shape)] if getattr(v, "shape", ())
                       else [(n, None)]) if k in used]
    qs = quantities(rng, m, names, lambda k: np.zeros(1))
    qs = [q for q in qs if not (hasattr(q[0], "hmap") and q[0].hmap == m.cost.hmap)]
    if not qs:
        raise Skip("nothing to plot")
    what = "grid of %s over %s of %s" % ([str(q[0]) for q in qs],
                                         [(k, o) for k, _, o in plan], spec.text())
    posys = ask(rng, qs)
    swcopy = dict(sweeps)
    try:
        try:
            _, axes = plot_1dsweepgrid(m, sweeps, posys, tol=.03, verbosity=0)
        except (gpkit.exceptions.Infeasible, RuntimeWarning) as e:
            rec.require(snapshot(m) == before, "constants-changed", what)
            raise Skip("not solved: %s" % type(e).__name__)
        rec.require(snapshot(m) == before, "constants-changed", lambda: "%s: %s became %s"
                    % (what, before, snapshot(m)))
        rec.require(sweeps == swcopy if not any(isinstance(v, np.ndarray) for v in
                                                sweeps.values()) else
                    list(sweeps) == list(swcopy), "argument-changed", what)
        axes = np.array(axes, dtype=object).reshape(len(qs), len(plan))
        for j, (k, o, over) in enumerate(plan):
            for i, q in enumerate(qs):
                check_cell(rec, rng, spec, m, axes[i, j], q, k, o, over, before, what)
                labels(rec, axes[i, j], o, q, what, i == len(qs)-1, j == 0)
                rec.ev("cells")
    finally:
        close()
    rec.sig(what)
    rec.sample(what)


def thing(sol, q, m2, m):
    "the value of a plotted quantity in the solution of a copy of the model"
    if q[1] is None:
        return float(magnitudes(sol["cost"]))
    posy = q[0]
    if isinstance(posy, str):
        return float(magnitudes(sol["variables"][m2.v_objs[posy].key]))
    vals = {}
    for n, v in m.v_objs.items():
        w = m2.v_objs[n]
        for i in np.ndindex(*getattr(v, "shape", ())):
            a, b = (v[i], w[i]) if i else (v, w)
            vals[a.key] = (b, alg.unit_factor(b.units)[0])
    if getattr(posy, "hmap", None) is None:
        return float(magnitudes(sol["variables"][vals[posy][0]]))
    total = 0
    for exp, c in posy.hmap.items():
        t = c*alg.unit_factor(posy.hmap.units)[0]
        # terms' coefficients are in the units their variables are declared in
        for vk, p in exp.items():
            t *= float(magnitudes(sol["variables"][vals[vk][0]]))**p
        total += t
    return total/alg.unit_factor(posy.units)[0]


def check_cell(rec, rng, spec, m, ax, q, k, o, over, before, what):
    import gpkit

    def solved(x):
        m2 = spec.model()
        if x is not None:
            m2.substitutions[obj(m2.v_objs, k)] = x
        try:
            return thing(m2.solve(verbosity=0), q, m2, m)
        except gpkit.exceptions.Infeasible as e:
            raise Skip("direct solve fails: %s" % type(e).__name__)
    unique = q[1] is None
    autod = isinstance(over, tuple)
    lines = list(ax.lines)
    orig = o.key in m.substitutions
    rec.require(len(lines) == (1 if orig else 0) + (0 if autod and unique else 1),
                "lines-count", lambda: "%s: %s lines" % (what, len(lines)))
    if orig:
        mark = lines.pop()
        gx = np.asarray(mark.get_xdata(orig=False), float)
        gy = np.asarray(mark.get_ydata(orig=False), float)
        val = float(m.substitutions[o.key])
        rec.require(mark.get_marker() == "o" and np.allclose(gx, val, rtol=1e-12, atol=0),
                    "wrong-marker", lambda: "%s: at %s, original %s" % (what, gx, val))
        if unique or q[0] in (k[0],):
            want = solved(None)
            rec.require(np.allclose(gy, want, rtol=3e-5, atol=0), "wrong-marker",
                        lambda: "%s: %s, should be %r" % (what, gy, want))
        rec.ev("markers")
    if autod and unique:
        rec.require(len(ax.collections) == 1, "bands-count", what)
        verts = np.concatenate([p.vertices for p in ax.collections[0].get_paths()])
        rec.require(abs(verts[:, 0].min()/over[0]-1) < 1e-9 and
                    abs(verts[:, 0].max()/over[1]-1) < 1e-9, "wrong-band",
                    lambda: "%s: spans %s..%s" % (what, verts[:, 0].min(), verts[:, 0].max()))
        x = rng.choice(list(verts[:, 0]))
        ys = verts[np.abs(verts[:, 0]-x) <= 1e-12*x][:, 1]
        want = solved(x)
        rec.require(ys.min()*(1-3e-5) <= want <= ys.max()*(1+3e-5), "wrong-band",
                    lambda: "%s: at %r %s..%s, direct %r" % (what, x, ys.min(), ys.max(), want))
        rec.ev("bands")
        return
    line, = lines
    gx = np.asarray(line.get_xdata(orig=False), float)
    gy = np.asarray(line.get_ydata(orig=False), float)
    if autod:
        rec.require(abs(gx[0]/over[0]-1) < 1e-12 and abs(gx[-1]/over[1]-1) < 1e-12 and
                    gx.shape == gy.shape, "wrong-line", lambda: "%s: %s" % (what, gx))
    else:
        rec.require(gx.shape == gy.shape == np.shape(over) and np.allclose(gx, over, rtol=1e-12),
                    "wrong-line", lambda: "%s: %s" % (what, gx))
    same = hasattr(q[0], "key") and q[0].key == o.key or isinstance(q[0], str) and q[0] == k[0]
    if same:
        rec.require(np.allclose(gy, gx, rtol=1e-9), "wrong-line", lambda: "%s: the swept variable"
                    " at %s is %s" % (what, gx, gy))
    elif unique:
        i = rng.randrange(len(gx))
        want = solved(gx[i])
        rec.require(abs(gy[i]/want-1) < 3e-5, "wrong-line", lambda: "%s: cost at %r is %r,"
                    " direct %r" % (what, gx[i], gy[i], want))
    else:
        # not necessarily unique at the optimum: judged where it is a constant
        names = [q[0].key] if hasattr(q[0], "key") else list(getattr(q[0], "vks", ()))
        if isinstance(q[0], str):
            names = [m.v_objs[q[0]].key]
        if names and all(n in m.substitutions for n in names):
            i = rng.randrange(len(gx))
            want = solved(gx[i])
            rec.require(abs(gy[i]/want-1) < 1e-8, "wrong-line", lambda: "%s: at %r is %r,"
                        " direct %r" % (what, gx[i], gy[i], want))
            rec.ev("constants_plotted")
    rec.ev("lines")


def compared(rng, rec):
    "plotting.compare"
    import gpkit
    import matplotlib.pyplot as plt
    from gpkit.interactive.plotting import compare
    spec, key, lo, hi = pick(rng)
    n = rng.randint(1, 3)
    p = [round(rng.uniform(.3, 3), 3) for _ in range(n)]
    if key[1] is not None:
        raise Skip("an element")
    ms = []
    for i in range(n):
        m = spec.model()
        m.cost = m.cost*p[i]
        ms.append(m)
    used = spec.used()
    names = [k for k, v in ms[0].v_objs.items()
             if not getattr(v, "shape", ()) and (k, None) in used]
    posys, plan = [], []
    for _ in range(rng.randint(1, 3)):
        r = rng.random()
        if r < .4:
            posys.append("cost")
            plan.append(["cost"]*n)
        elif r < .7:
            k = rng.choice(names)
            posys.append(k)
            plan.append([k]*n)
        else:
            ks = [rng.choice(names + ["cost"]) for _ in range(n)]
            posys.append(tuple(ks))
            plan.append(ks)
    what = "compare %s times %s, of %s over %s in %r..%r" % (posys, p, spec.text(), key, lo, hi)
    tol = .03
    try:
        refs = []
        for m in ms:
            refs.append(m.autosweep({key[0]: (lo, hi)}, tol, verbosity=0))
    except gpkit.exceptions.Infeasible as e:
        raise Skip("not solved: %s" % type(e).__name__)
    try:
        arg = posys[0] if len(posys) == 1 and isinstance(posys[0], str) and rng.random() < .5 \
            else list(posys)
        compare(ms, {key[0]: (lo, hi)}, arg, tol=tol)
        axes = plt.gcf().axes
        rec.require(len(axes) == len(posys), "axes-count", lambda: "%s: %s" % (what, len(axes)))
        for ax, ks in zip(axes, plan):
            lines, bands = list(ax.lines), list(ax.collections)
            rec.require(len(lines) == sum(k != "cost" for k in ks) and
                        len(bands) == sum(k == "cost" for k in ks), "lines-count", what)
            for k, r in zip(ks, refs):
                if k == "cost":
                    check_band(rec, bands.pop(0), r, what)
                else:
                    line = lines.pop(0)
                    gy = np.asarray(line.get_ydata(orig=False), float)
                    want = magnitudes(r(k))
                    rec.require(np.allclose(gy, want, rtol=1e-6), "wrong-line",
                                lambda: "%s: %s instead of %s" % (what, gy, want))
                    rec.ev("lines")
        rec.ev("compared")
    finally:
        close()
    rec.sig(what)


def convergence(rng, rec):
    "plot_convergence against the costs of the programs solved"
    import gpkit
    from gpkit.interactive.plotting import plot_convergence
    from gpkit.solvers.cvxopt import optimize
    x, y, z = gpkit.Variable("x"), gpkit.Variable("y"), gpkit.Variable("z")
    a, b, c = (round(rng.uniform(.5, 2), 3) for _ in range(3))
    with gpkit.SignomialsEnabled():
        cons = [x >= a - b*y/10, y <= 1, y >= .05, z >= c*x/y]
        if rng.random() < .5:
            cons.append(z >= 1 - c*y**2/20)
    m = gpkit.Model(rng.uniform(.5, 2)*x*z + y/10, cons)
    costs, points = [], []

    def solver(**kw):
        kw.setdefault("kktsolver", "ldl")
        out = optimize(**kw)
        terms = kw["k"][0]
        # (the A matrix has one row per term, the cost's first)
        A = kw["A"].todense() if hasattr(kw["A"], "todense") else kw["A"].tocsr().todense()
        logt = np.log(np.asarray(kw["c"])[:terms]) + np.asarray(
            A)[:terms].dot(np.ravel(out["primal"]))
        costs.append(float(np.exp(logt).sum()))
        points.append(np.exp(np.ravel(out["primal"])))
        return out
    kw = {"use_pccp": False} if rng.random() < .7 else {}
    what = "convergence of %s" % m.str_without(["lineage"])
    try:
        if kw:
            prog = m.sp(**kw)
            prog.localsolve(verbosity=0, solver=solver)
            m.program = prog
        else:
            m.localsolve(verbosity=0, solver=solver)
    except gpkit.exceptions.Infeasible as e:
        raise Skip("not solved: %s" % type(e).__name__)
    except RuntimeWarning as e:
        raise Skip("not solved: %s" % type(e).__name__)
    try:
        _, ax = plot_convergence(m)
        gx = np.asarray(ax.lines[0].get_xdata(orig=False), float)
        gy = np.asarray(ax.lines[0].get_ydata(orig=False), float)
    finally:
        close()
    rec.require(np.array_equal(gx, np.arange(1, len(costs)+1)), "wrong-iterations",
                lambda: "%s: %s, %s solves" % (what, gx, len(costs)))
    rec.require(len(gy) and abs(gy[-1]/costs[-1]-1) < 1e-5, "wrong-costs",
                lambda: "%s: %s, costs %s" % (what, gy, costs))
    rec.require(np.allclose(gy, costs, rtol=1e-5), "wrong-costs",
                lambda: "%s: %s, costs %s" % (what, gy, costs))
    results = m.program.results
    rec.require(len(results) == len(costs), "results-count", what)
    for res, p, cost in zip(results, points, costs):
        got = sorted(float(v) for v in res["freevariables"].values())
        rec.require(len(got) == len(p) and np.allclose(got, sorted(p), rtol=1e-9) and
                    abs(float(res["cost"])/cost-1) < 1e-5, "wrong-interim-result",
                    lambda: "%s: %s, solved %s, cost %s" % (what, res["freevariables"], p, cost))
        rec.ev("interim_results")
    rec.ev("iterations", len(costs))
    rec.ev("convergences")
    rec.sig(what, len(costs))


KINDS = {"sweep": (sweep, 160, 3000), "auto": (auto, 100, 2000), "grid": (grid, 90, 1500),
         "compared": (compared, 50, 800), "convergence": (convergence, 30, 400)}
NEED = {"lines": 200, "bands": 40, "points": 500, "band_points": 200, "labels": 200, "cells": 80,
        "markers": 40, "compared": 8, "convergences": 15, "auto_plots": 40}
