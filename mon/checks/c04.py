"""C04: unit safety and exact conversions, over long histories of unit operations."""
import gc
import math
import numpy as np
from .. import alg
from ..core import Violation

PROP = "C04"
RULE = ("a case is a history of unit operations on variables of random units; non-trivial when "
        "units differ, identified by the operations and units")
TECH = ("refusal monitor on every operation given other dimensions; exact-factor monitor "
        "against the harness's own unit table, in shared processes with garbage collection "
        "between operations")
NOTE = "units of length, mass, time and their compounds, fractional powers, angles and ratios"
NEED = {"refused": 1500, "converted": 3000, "gc": 100}
CHUNK = 20

alg.UNITS.update({
    "ft/m": (0.3048, (0, 0, 0)), "mm/m": (1e-3, (0, 0, 0)), "degree": (math.pi/180, (0, 0, 0)),
    "radian": (1.0, (0, 0, 0)), "hr/min": (60.0, (0, 0, 0)), "g/lb": (1e-3/.45359237, (0, 0, 0)),
    "m*ft": (.3048, (2, 0, 0)), "ft*lbf": (.3048*.45359237*9.80665, (2, 1, -2)),
    "m**0.5": (1.0, (.5, 0, 0)), "ft**0.5": (.3048**.5, (.5, 0, 0)),
    "kg*m/s^2": (1.0, (1, 1, -2)), "lb*ft/s^2": (.45359237*.3048, (1, 1, -2)),
    "Pa*m^2": (1.0, (1, 1, -2)), "W*s": (1.0, (2, 1, -2)), "kW*hr": (3.6e6, (2, 1, -2)),
    "s/hr": (1/3600., (0, 0, 0)), "1/ft^2": (.3048**-2, (-2, 0, 0)), "1/m^2": (1.0, (-2, 0, 0))})
alg.BYDIM.clear()
for _u, (_f, _d) in alg.UNITS.items():
    alg.BYDIM.setdefault(_d, []).append(_u)
PAIRS = [d for d, us in alg.BYDIM.items() if len(us) > 1]


def ratio(u1, u2):
    "how many u2 there are in one u1"
    return alg.decl_factor(u1)[0]/alg.decl_factor(u2)[0]


def close(a, b, rel=1e-11):
    return abs(a - b) <= rel*max(abs(a), abs(b))


class Vars:
    "fresh variables with given units; SI values for them"

    def __init__(self, rng, units):
        import gpkit
        self.decls, self.objs, self.point = {}, [], {}
        for i, u in enumerate(units):
            n = "xyzw"[i]
            self.decls[n] = u
            self.objs.append(gpkit.Variable(n, u) if u else gpkit.Variable(n))
            self.point[(n, None)] = rng.uniform(.3, 3)*alg.decl_factor(u)[0]

    def si(self, i):
        return self.point[("xyzw"[i], None)]

    def measure(self, expr):
        return alg.measure(expr, self.point, self.decls)

    def hmap(self, h):
        "value of a dimensionless map of terms at the point"
        total = 0
        for exp, c in h.items():
            for vk, x in exp.items():
                c *= (self.point[alg.key_id(vk)]/alg.decl_factor(self.decls[vk.name])[0])**float(x)
            total += c
        return total


# ---- conversions

def step(rng, rec, trail):
    "one unit operation between values of equal dimension, checked"
    import gpkit
    d = rng.choice(PAIRS)
    u1, u2 = rng.choice(alg.BYDIM[d]), rng.choice(alg.BYDIM[d])
    if d == alg.DIMLESS and rng.random() < .4:
        u2 = None
        if rng.random() < .5:
            u1, u2 = u2, u1
    v = Vars(rng, [u1, u2])
    x, y = v.objs
    sx, sy = v.si(0), v.si(1)
    c = rng.choice([1, 2., .5, 1/3., 1e3])
    Q = gpkit.ureg.Quantity
    name = rng.choice(["add", "sub", "con", "const", "const-qty", "to", "var-to", "subs",
                       "subs-mono", "keydict", "model-subs", "creation", "array-sum", "power",
                       "quotient", "product", "cost", "chain", "array-con", "linked",
                       "to-chain", "mul-qty", "sweep", "sigeq", "evalfn"])
    trail.append((name, u1, u2))

    def expect(what, got, want):
        rec.ev("converted")
        if not close(got, want):
            raise Violation("factor-" + what, "%s of [%s] and [%s] is %r, should be %r; history %s"
                            % (what, u1, u2, got, want, trail[-6:]))

    def expect_expr(what, expr, want, dims):
        got = v.measure(expr)
        rec.ev("converted")
        if not close(got.v, want) or got.d != dims:
            raise Violation("factor-" + what, "%s of [%s] and [%s] is %s with dimensions %s,"
                            " should be %r with %s; expression %s; history %s"
                            % (what, u1, u2, got.v, got.d, want, dims, expr, trail[-6:]))
    unit2 = (lambda k: k*gpkit.units(u2)) if u2 else (lambda k: k)
    qty2 = lambda k: Q(k, u2 or "dimensionless")
    # plain numbers are read in the variable's own units, so values are quantities
    value2 = unit2 if u2 else qty2
    f21 = ratio(u2, u1)
    if name == "add":
        expect_expr(name, c*x + y, c*sx + sy, d)
    elif name == "sub":
        with gpkit.SignomialsEnabled():
            got = v.measure(c*x - y)
        rec.ev("converted")
        if abs(got.v - (c*sx - sy)) > 1e-11*(c*sx + sy) or got.d != d:
            raise Violation("factor-sub", "%s should be %s" % (got, c*sx - sy))
    elif name == "con":
        op = rng.randrange(3)
        con = [x >= c*y, c*y <= x, x == c*y][op]
        h = con.as_hmapslt1({})[0]
        r = v.hmap(h)
        want = c*sy/sx
        expect(name, r if op < 2 or close(r, want) else 1/r, want)
    elif name in ("const", "const-qty"):
        k = (unit2 if name == "const" or not u2 else qty2)(c)
        con = x >= k
        expect(name, v.hmap(con.as_hmapslt1({})[0]), c*alg.decl_factor(u2)[0]/sx)
        con = x + 2*x <= k
        expect(name, v.hmap(con.as_hmapslt1({})[0]), 3*sx/(c*alg.decl_factor(u2)[0]))
    elif name == "to":
        e = c*x + y
        t = e.to(u2 or "dimensionless")
        expect_expr(name, t, c*sx + sy, d)
        expect(name + "-unit", alg.unit_factor(t.units)[0], alg.decl_factor(u2)[0])
    elif name == "var-to":
        t = x.to(u2 or "dimensionless")
        expect_expr(name, t, sx, d)
        expect(name + "-coefficient", float(alg.terms(t)[0][0]), ratio(u1, u2))
    elif name == "to-chain":
        e = x*c
        for _ in range(4):
            e = e.to(rng.choice(alg.BYDIM[d]))
        expect_expr(name, e, c*sx, d)
    elif name in ("subs", "subs-mono"):
        e = rng.choice([lambda: c*x**2, lambda: c*x**2 + x*y, lambda: y/x + c])()
        val = (qty2 if name == "subs" else value2)(1.7)
        p = dict(v.point)
        s = e.sub({x: val} if rng.random() < .5 else {"x": val})
        p[("x", None)] = 1.7*alg.decl_factor(u2)[0]
        want = alg.measure(e, p, v.decls)
        got = v.measure(s)
        rec.ev("converted")
        if not close(got.v, want.v) or got.d != want.d:
            raise Violation("factor-" + name, "%s at %s is %s, should be %s; history %s"
                            % (e, val, got, want, trail[-6:]))
    elif name == "keydict":
        kd = gpkit.keydict.KeyDict({x: qty2(1.7)})
        expect(name, float(kd[x]), 1.7*f21)
        kd.update({x.key: value2(2.5)})
        expect(name, float(kd["x"]), 2.5*f21)
    elif name == "model-subs":
        m = gpkit.Model(x, [x >= y], {y: Q(1.7, u1 or "dimensionless")})
        expect(name, float(m.substitutions[y]), 1.7*ratio(u1, u2))
        h, = m.as_hmapslt1(m.substitutions)
        v.point[("x", None)] = alg.decl_factor(u1)[0]
        expect(name + "-program", v.hmap(h), 1.7)
    elif name == "creation":
        z = gpkit.Variable("z", qty2(1.7), u1) if u1 else gpkit.Variable("z", qty2(1.7))
        m = gpkit.Model(z, [z >= 0.1*z])
        expect(name, float(m.substitutions[z]), 1.7*f21)
        w = gpkit.VectorVariable(2, "w", np.array([1., 2.])*Q(1, u2 or "dimensionless"),
                                 u1 or "-")
        m = gpkit.Model(w.prod(), [w >= .1*w])
        expect(name + "-vector", float(m.substitutions[w[1]]), 2.*f21)
    elif name == "array-sum":
        arr = gpkit.nomials.NomialArray([c*x, y, x])
        expect_expr(name, arr.sum(), c*sx + sy + sx, d)
        arr = gpkit.nomials.NomialArray([[x, y], [y, 2*x]])
        tot = arr.sum(axis=rng.choice([0, 1]))
        got = sum(v.measure(e).v for e in tot)
        expect(name + "-axis", got, 3*sx + 2*sy)
    elif name == "power":
        n = rng.choice([.5, 2, -1, 1.5, -.5, 3, 1/3.])
        expect_expr(name, x**n + c*y**n, sx**n + c*sy**n, tuple(round(k*n, 9) for k in d))
    elif name == "quotient":
        expect_expr(name, c*x/y, c*sx/sy, alg.DIMLESS)
        expect_expr(name + "+1", c*x/y + 1, c*sx/sy + 1, alg.DIMLESS)
    elif name == "product":
        expect_expr(name, (x*y)*c, c*sx*sy, tuple(2*k for k in d))
        expect_expr(name + "-back", (x*y)/x + y, 2*sy, d)
    elif name == "mul-qty":
        e = x*qty2(1.7) if u2 else x*1.7
        expect_expr(name, e, sx*1.7*alg.decl_factor(u2)[0],
                    tuple(2*k for k in d) if u2 else d)
        e = (x/qty2(1.7) if u2 else x/1.7) + 1 if d == alg.DIMLESS else x/qty2(1.7) + 1
        expect_expr(name + "-div", e, sx/1.7/alg.decl_factor(u2)[0] + 1, alg.DIMLESS)
    elif name == "cost":
        m = gpkit.Model(x + y, [x >= y, y >= unit2(c)])
        g = m.gp(checkbounds=False)
        h = g.cost.hmap
        total = sum(k*math.prod((v.point[alg.key_id(vk)]/alg.decl_factor(v.decls[vk.name])[0])**q
                                for vk, q in e.items()) for e, k in h.items())
        expect(name, total*alg.unit_factor(h.units)[0], sx + sy)
    elif name == "chain":
        # a derived unit reached in another way
        e = (x*x*y)/(y*y) + x
        expect_expr(name, e, sx*sx/sy + sx, d)
    elif name == "array-con":
        w = gpkit.VectorVariable(2, "w", u1 or "-")
        v.decls["w"] = u1
        for i in range(2):
            v.point[("w", (i,))] = (i+1.)*alg.decl_factor(u1)[0]
        con = w >= y*c
        for i in range(2):
            expect(name, v.hmap(con[i].as_hmapslt1({})[0]),
                   c*sy/((i+1.)*alg.decl_factor(u1)[0]))
    elif name == "linked":
        z = gpkit.Variable("z", lambda k: qty2(1.7), u1 or "-")
        v.decls["z"] = u1
        m = gpkit.Model(x, [x >= z])
        g = m.gp(checkbounds=False)
        h = list(g.hmaps[-1].items())
        v.point[("x", None)] = alg.decl_factor(u1)[0]
        expect(name, v.hmap(dict(h)), 1.7*f21)
    elif name == "sweep":
        m = gpkit.Model(x, [x >= y], {y: ("sweep", [Q(k, u1 or "dimensionless")
                                                         for k in (1.7, 2.5)])})
        sol = m.solve(verbosity=0)
        for k, val in enumerate((1.7, 2.5)):
            # the solution's own accuracy
            got = float(sol["cost"][k])
            rec.ev("converted")
            if abs(got/val - 1) > 1e-5:
                raise Violation("factor-sweep", "x [%s] >= y [%s] = %s %s solved as %s"
                                % (u1, u2, val, u1, got))
    elif name == "sigeq":
        with gpkit.SignomialsEnabled():
            con, = gpkit.SignomialEquality(c*x + x, y).flat()
        g = con.as_gpconstr({x.key: 1, y.key: 1})
        h = g.as_hmapslt1({})
        assert h
        # at x = y the two sides' ratio is dimensionless and exact
        r = v.hmap(h[0])
        expect(name, r if close(r, (c+1)*sx/sy) else 1/r, (c+1)*sx/sy)
    elif name == "evalfn":
        z = gpkit.Variable("z", u1 or "-", evalfn=lambda var: qty2(1.7))

        class Holder(gpkit.Model):
            "holds an evaluated variable"
            def setup(self):
                self.z = gpkit.Variable("z", u1 or "-", evalfn=lambda var: qty2(1.7))
                return [x >= unit2(1.), y <= unit2(1.), y >= unit2(.5)]
        h = Holder()
        m = gpkit.Model(x/y, [h])
        sol = m.solve(verbosity=0)
        expect(name, float(sol["variables"][h.z.key]), 1.7*f21)
    if u1 != u2:
        rec.sig(name, u1, u2)


def history(rng, rec):
    "a long history of unit operations, with unit objects coming and going"
    import gpkit
    trail, keep = [], []
    for i in range(rng.randint(20, 40)):
        r = rng.random()
        if r < .12:
            gc.collect()
            rec.ev("gc")
        elif r < .25:
            # unit objects which live for a moment: their ids are reused
            junk = [gpkit.ureg.Quantity(1, rng.choice(list(alg.UNITS))).units**rng.choice([1, 2, .5])
                    for _ in range(rng.randint(1, 6))]
            if rng.random() < .3:
                keep.append(junk)
            del junk
        elif r < .3:
            keep.append(gpkit.Variable("k%i" % i, rng.choice(list(alg.UNITS)))**2)
        step(rng, rec, trail)
    rec.sample(trail[:10])


# ---- refusals

def refuse(rng, rec):
    import gpkit
    units = list(alg.UNITS) + [None]*4
    while True:
        u1, u2 = rng.choice(units), rng.choice(units)
        if alg.decl_factor(u1)[1] != alg.decl_factor(u2)[1]:
            break
    Q = gpkit.ureg.Quantity
    v = Vars(rng, [u1, u2, u1, u2])
    x, y, z, w = v.objs
    a = rng.choice([lambda: x, lambda: x*2, lambda: x + 3*z, lambda: x**2/z])()
    b = rng.choice([lambda: y, lambda: y*.5, lambda: y + w, lambda: y**2/w])()
    num = None
    if u2 is None:
        num = rng.choice([1, 2.5, 3])
    else:
        num = rng.choice([1, 2.5])*gpkit.units(u2)
    qty = Q(rng.choice([1., 2.5]), u2 or "dimensionless")
    vec1 = gpkit.VectorVariable(2, "v1", u1 or "-")
    vec2 = gpkit.VectorVariable(2, "v2", u2 or "-")
    val = qty if rng.random() < .5 or u2 is None else num   # a value of the wrong dimension
    subbable = u2 is not None      # plain numbers are read in the variable's own units
    arr = gpkit.nomials.NomialArray
    m = lambda subs: gpkit.Model(x, [x >= z], subs)

    def enabled(f):
        def g():
            with gpkit.SignomialsEnabled():
                return f()
        return g

    def con(f):
        "a constraint, and if it was made the terms it hands on"
        def g():
            c = f()
            return c.as_hmapslt1({})
        return g
    ops = {
        "add": lambda: a + b, "radd": lambda: b + a, "add-num": lambda: a + num,
        "radd-num": lambda: num + a, "add-qty": lambda: a + qty,
        "iadd": lambda: sum([a, a, b]),
        "sub": enabled(lambda: a - b), "sub-num": enabled(lambda: a - num),
        "rsub-num": enabled(lambda: num - a), "sub-qty": enabled(lambda: a - qty),
        "le": con(lambda: a <= y), "ge": con(lambda: x >= b), "le-num": con(lambda: a <= num),
        "ge-num": con(lambda: x >= num), "num-le": con(lambda: num <= x),
        "num-ge": con(lambda: num >= a), "le-qty": con(lambda: a <= qty),
        "ge-qty": con(lambda: x >= qty),
        "sig-le": enabled(lambda: (a - a/2 <= b)), "sig-ge": enabled(lambda: (a >= b - b/3)),
        "sigeq": enabled(lambda: gpkit.SignomialEquality(a, b)),
        "to": lambda: a.to(u2 or "dimensionless"), "var-to": lambda: x.to(u2 or "dimensionless"),
        "array-add": lambda: vec1 + vec2, "array-add-scalar": lambda: vec1 + y,
        "array-le": lambda: [c.as_hmapslt1({}) for c in (vec1 <= vec2)],
        "array-ge-num": lambda: [c.as_hmapslt1({}) for c in (vec1 >= num)],
        "array-sub": enabled(lambda: vec1 - vec2),
        "array-sum": lambda: arr([x, y]).sum(), "array-sum-axis": lambda: arr([[x, y], [z, w]]
                                                                              ).sum(axis=1),
        "array-sum-num": lambda: arr([x, num]).sum(),
        "dot": lambda: vec1.dot(arr([1*x/x, y/w*x/y])) + y,
        "relaxed": lambda: (x + b >= z).relaxed(2),
        "power": lambda: x**2 + y**2, "frac-power": lambda: x**.5 + y**.5,
        "quotient": lambda: x/y + 1, "product": lambda: x*y + x*z,
        "cost": lambda: gpkit.Model(x + y, [x >= z]),
    }
    if subbable:
        ops.update({
            "sub-value": lambda: a.sub({x: val}), "sub-var": lambda: x.sub(val),
            "sub-name": lambda: a.sub({"x": val}),
            "keydict": lambda: gpkit.keydict.KeyDict({x: val}),
            "keydict-set": lambda: gpkit.keydict.KeyDict().update({x.key: val}),
            "keydict-vector": lambda: gpkit.keydict.KeyDict({vec1: np.array([1, 2])*Q(1, u2)}),
            "keydict-element": lambda: gpkit.keydict.KeyDict({vec1[0]: val}),
            "model-subs": lambda: m({z: val}), "model-subs-name": lambda: m({"z": val}),
            "model-update": lambda: m(None).substitutions.update({z: val}),
            "model-set": lambda: m(None).substitutions.__setitem__("z", val),
            "creation": lambda: gpkit.Model(x, [x >= gpkit.Variable("k", qty, u1 or "-")]),
            "creation-vector": lambda: gpkit.Model(x, [x >= gpkit.VectorVariable(
                2, "k", np.array([1, 2])*Q(1, u2), u1 or "-")]),
            "sweep": lambda: m({z: ("sweep", [qty, qty*2])}).solve(verbosity=0),
            "sweep-method": lambda: m(None).sweep({z: [1, 2]*Q(1, u2)}, verbosity=0),
            "linked": lambda: gpkit.Model(x, [x >= gpkit.Variable(
                "k", lambda c: qty, u1 or "-")]).solve(verbosity=0),
            "x0": lambda: (x + z).mono_lower_bound({x: qty, z: 1}),
        })
    names = rng.sample(sorted(ops), 12)
    for name in names:
        before = alg.measure(a, v.point, v.decls)
        try:
            out = ops[name]()
        except Exception as e:  # pylint: disable=broad-except
            rec.ev("refused")
            rec.ev("refused-by-" + type(e).__name__)
        else:
            if name == "eq" and out is False:
                continue
            rec.fail("accepted-" + name, "%s of [%s] and [%s] gave %s" % (name, u1, u2,
                                                                       str(out)[:300]))
        after = alg.measure(a, v.point, v.decls)
        rec.require(alg.same(before, after), "damaged", lambda: "%s changed its operand from"
                    " %s to %s" % (name, before, after))
        rec.sig(name, u1, u2)
    # equality may come out false instead
    for f in (lambda: a == b, lambda: x == y, lambda: a == num, lambda: x == num,
              lambda: num == x):
        try:
            out = f()
        except Exception:  # pylint: disable=broad-except
            rec.ev("refused")
            continue
        rec.require(out is False or out is np.False_ or not isinstance(out, (bool, np.bool_))
                    and refuses(out), "equal", lambda: "[%s] == [%s] gave %r" % (u1, u2, out))
        rec.ev("refused")
    # and permitted again straight afterwards
    s = v.measure(x + z)
    rec.require(close(s.v, v.si(0) + v.si(2)), "damaged", "later sums changed")


def refuses(con):
    try:
        con.as_hmapslt1({})
    except Exception:  # pylint: disable=broad-except
        return True
    return False


# ---- order independence: the same work in another order, in one process

def orders(rng, rec):
    import gpkit
    d = rng.choice(PAIRS)
    us = [rng.choice(alg.BYDIM[d]) for _ in range(3)]
    v = Vars(rng, us)
    x, y, z = v.objs
    work = [lambda: x + y, lambda: y + x, lambda: x + y + z, lambda: z + (y + x),
            lambda: x/y + 1, lambda: (x*y)/z, lambda: x*(y/z), lambda: (x**2 + y*z)/x,
            lambda: (x + y)*z, lambda: z*x + y*z, lambda: x.to(us[1]) + z]
    want = [v.si(0) + v.si(1)]*2 + [sum(v.si(i) for i in range(3))]*2 + [
        v.si(0)/v.si(1) + 1, v.si(0)*v.si(1)/v.si(2), v.si(0)*v.si(1)/v.si(2),
        (v.si(0)**2 + v.si(1)*v.si(2))/v.si(0), (v.si(0)+v.si(1))*v.si(2),
        (v.si(0)+v.si(1))*v.si(2), v.si(0)+v.si(2)]
    idx = [rng.randrange(len(work)) for _ in range(20)]
    for i in idx:
        if rng.random() < .2:
            gc.collect()
            rec.ev("gc")
        got = v.measure(work[i]())
        rec.ev("converted")
        rec.require(close(got.v, want[i]), "order", lambda: "work %i with units %s gave %s,"
                    " should be %s" % (i, us, got, want[i]))
    rec.sig("orders", us)


KINDS = {"history": (history, 250, 4000), "refuse": (refuse, 400, 8000),
         "orders": (orders, 100, 2000)}
