"""C27: the LaTeX form of expressions, constraints and models, read back term by term.

An independent parser of the LaTeX turns each side into terms (coefficient, variables with
exponents) and units, which are matched against the public terms of the expression.
"""
import math
import re
import numpy as np
from ..core import Violation, Skip
from .. import alg
from . import c26

PROP = "C27"
RULE = ("a case is a random expression, array, constraint or model whose LaTeX was parsed and "
        "matched term by term; identified by the LaTeX")
TECH = "an independent parser of the LaTeX, matched against the expressions' public terms"
NOTE = "coefficients are shown to four digits, exponents to two"
NEED = {"matched": 1000, "units": 300, "fractions": 200, "sides": 300, "model_lines": 300,
        "cost_lines": 80, "arrays": 100, "excluded": 300, "times": 40, "negative": 40}
CHUNK = 25
UNITEND = re.compile(r"\\mathrm\{~\\left\[ (.*) \\right\]\}$", re.S)


def read_units(text):
    "(factor, dims) of units in LaTeX"
    import gpkit
    text = text.replace("\\left(", "").replace("\\right)", "")
    m = re.match(r"^\\tfrac\{(.*)\}\{(.*)\}$", text)
    parts = (m.group(1), m.group(2)) if m else (text, "1")
    f, d = 1., alg.DIMLESS
    for part, sign in zip(parts, (1, -1)):
        for one in part.split("\\cdot "):
            if one == "1":
                continue
            u = re.match(r"^\\mathrm\{([^{}]*)\}(?:\^\{(-?[\d.]+)\})?$", one)
            if not u:
                raise Violation("unreadable", "units %r" % text)
            uf, ud = alg.unit_factor(gpkit.ureg.Quantity(1, u.group(1)))
            x = sign*float(u.group(2) or 1)
            f *= uf**x
            d = alg.dimadd(d, ud, x)
    return f, d


class Parser:
    def __init__(self, text, names):
        self.s, self.i = text, 0
        self.names = sorted(names, key=len, reverse=True)

    def fail(self, what):
        raise Violation("unreadable", "%s at %r of %r" % (what, self.s[self.i:], self.s))

    def eat(self, tok):
        if self.s.startswith(tok, self.i):
            self.i += len(tok)
            return True
        return False

    def number(self):
        m = re.compile(r"\d+(\.\d+)?( \\times 10\^\{(-?\d+)\})?").match(self.s, self.i)
        if not m:
            return None
        self.i = m.end()
        return float(m.group().split(" ")[0])*10.**int(m.group(3) or 0)

    def variables(self, sign, exps):
        got = False
        while True:
            at = self.i
            if got and not self.eat(" "):
                return got
            for name in self.names:
                if self.s.startswith(name, self.i):
                    self.i += len(name)
                    break
            else:
                self.i = at
                return got
            x = 1.
            if self.eat("^{"):
                j = self.s.index("}", self.i)
                if not re.match(r"^-?\d+(\.\d+)?$", self.s[self.i:j]):
                    self.fail("not an exponent")
                x = float(self.s[self.i:j])
                self.i = j+1
            if name in exps:
                self.fail("%s repeated" % name)
            exps[name] = sign*x
            got = True

    def term(self):
        "(coefficient, {name: exponent})"
        sign = -1 if self.eat("-") else 1
        exps = {}
        c = self.number()
        if self.eat("\\frac{"):
            if self.eat("-"):
                sign = -sign
            top = self.number()
            if top is not None:
                if c is not None:
                    self.fail("two coefficients")
                c = top
            if not self.variables(1, exps) and top is None:
                self.fail("empty numerator")
            if not self.eat("}{"):
                self.fail("no denominator")
            if not self.variables(-1, exps):
                self.fail("empty denominator")
            if not self.eat("}"):
                self.fail("unclosed denominator")
        else:
            got = self.variables(1, exps)
            if c is None and not got:
                self.fail("no term")
        return sign*(1. if c is None else c), exps

    def sum(self):
        out = [self.term()]
        while self.eat(" + "):
            out.append(self.term())
        if self.i != len(self.s):
            self.fail("left over")
        return out


def near(x, shown, digits):
    "does x print as this, to so many digits?"
    if not shown:
        return not x
    return abs(x-shown) <= .5000001*10.**(math.floor(math.log10(abs(shown)))-digits+1)


def name_of(vk, lineage=True, modelnums=True, idx=True, vec=True):
    "the LaTeX name of a variable, from its description"
    name = vk.name
    if vec and idx and vk.shape:
        name = "\\vec{%s}" % name
    if idx and vk.idx:
        name = "{%s}_{%s}" % (name, ",".join(str(i) for i in vk.idx))
    if lineage and vk.lineage:
        name = "{%s}_{%s}" % (name, ".".join(a + (str(k) if k and modelnums else "")
                                             for a, k in vk.lineage))
    return name


def match(rec, latex, expr, excluded=(), names=None):
    "Monitor: this LaTeX shows exactly the terms and units of this expression"
    opts = {"lineage": "lineage" not in excluded, "modelnums": "modelnums" not in excluded,
            "idx": "idx" not in excluded, "vec": "vec" not in excluded}
    body = latex
    f, d = alg.unit_factor(expr.units)
    m = UNITEND.search(latex)
    if m:
        body = latex[:m.start()]
        if "units" in excluded:
            raise Violation("units", "%r has units" % latex)
        gf, gd = read_units(m.group(1))
        if abs(gf-f) > 1e-9*f or gd != d:
            raise Violation("units", "%r has units %s, not %s" % (latex, (gf, gd), (f, d)))
        rec.ev("units")
    elif "units" not in excluded and (d != alg.DIMLESS or abs(f-1) > 1e-12):
        raise Violation("units", "%r has no units, but %s" % (latex, expr.units))
    labels = {vk: name_of(vk, **opts) for vk in expr.vks}
    if len(set(labels.values())) < len(labels):
        raise Skip("names coincide")
    got = Parser(body, set(labels.values())).sum()
    want = [(c, {labels[vk]: float(x) for vk, x in exp.items()}) for c, exp in
            alg.terms(expr)]
    if not want:
        want = [(0., {})]
    if len(got) != len(want):
        raise Violation("terms", "%r has %i terms, not %i" % (latex, len(got), len(want)))
    left = list(got)
    # near-identical terms: the closest first
    for c, exps in sorted(want, key=lambda t: -len(t[1])):
        best = None
        for k, (gc, gexps) in enumerate(left):
            if set(gexps) != set(exps) or not near(c, gc, 4):
                continue
            if all(near(x, gexps[n], 2) for n, x in exps.items()):
                dist = abs(c-gc)/abs(c or 1) + sum(abs(x-gexps[n]) for n, x in exps.items())
                if best is None or dist < best[0]:
                    best = (dist, k)
        if best is None:
            raise Violation("terms", "%r has no term %s %s: %s" % (latex, c, exps, got))
        del left[best[1]]
    rec.ev("matched")
    rec.ev("fractions", body.count("\\frac"))
    rec.ev("times", body.count("\\times"))
    rec.ev("negative", int("-" in re.sub(r"\{-?\d+\}", "", body)))


def expression(rng, rec):
    w = c26.setting(rng)
    signed, tree = c26.make_tree(rng, w)
    obj = c26.built(rng, w, signed, tree)
    if rng.random() < .2:
        with c26.enabled(True):
            how = rng.choice(["diff", "sub"])
            name = rng.choice(sorted(w.decls))
            obj = obj.diff(w.objs[name]) if how == "diff" else \
                obj.sub({w.objs[name]: rng.choice([1, 2., .3, 123456])})
    if len(obj.hmap) > 60:
        raise Skip("many terms")
    if rng.random() < .4:
        str(obj)
    if rng.random() < .05:
        import gpkit
        obj = gpkit.Variable(rng.choice(c26.ODD))**rng.choice([100, -120, 1e-5, 3e-4, 99.6, 250])
    full = obj.latex()
    match(rec, full, obj)
    rec.require(obj._repr_latex_() == "$$" + full + "$$", "repr", "%s" % full)
    for excl in [("units",), ("lineage",), ("lineage", "units"), ("modelnums",),
                 ["units", "modelnums"]]:
        match(rec, obj.latex(excl), obj, excl)
        rec.ev("excluded")
    if full != obj.latex():
        raise Violation("reprint", "LaTeX changed from %r to %r" % (full, obj.latex()))
    rec.sig(full)
    rec.sample(full)


def split_array(text):
    "nested lists of element LaTeX"
    assert text.startswith("\\left[") and text.endswith("\\right]")
    inner, parts, depth, start = text[6:-7], [], 0, 0
    i = 0
    while i < len(inner):
        if inner.startswith("\\left[", i):
            depth += 1
        elif inner.startswith("\\right]", i):
            depth -= 1
        elif not depth and inner.startswith(", ", i):
            parts.append(inner[start:i])
            start = i+2
        i += 1
    parts.append(inner[start:])
    return parts


def check_array(rec, latex, arr, excl):
    "an array of expressions, or a vector variable by its name"
    arr_key = getattr(arr, "key", None) if getattr(arr, "shape", None) else None
    if arr_key is not None:
        name = name_of(arr_key)
        units = latex[len(name):]
        if not latex.startswith(name) or ("units" in excl and units):
            raise Violation("vector", "%s shown as %r" % (name, latex))
        if units:
            gf, gd = read_units(re.match(r"^~\\mathrm\{(.*)\}$", units).group(1))
            f, d = alg.unit_factor(arr_key.units)
            if abs(gf-f) > 1e-9*f or gd != d:
                raise Violation("units", "%r for %s" % (latex, arr_key.units))
            rec.ev("units")
        elif isinstance(arr, np.ndarray) and "units" not in excl and alg.unit_factor(arr_key.units)[1] != alg.DIMLESS:
            raise Violation("units", "%r for %s" % (latex, arr_key.units))
        return
    if not hasattr(arr, "shape") or not arr.shape:
        if isinstance(arr, np.ndarray):
            arr = arr.flatten()[0]
        if hasattr(arr, "hmap"):
            match(rec, latex, arr, excl)
        else:
            got = float(latex)
            if abs(got - float(arr)) > 1e-6*abs(float(arr)):
                raise Violation("number", "%r for %s" % (latex, arr))
        return
    if not hasattr(arr, "latex"):     # numbers
        nums = [float(t) for t in re.findall(r"-?[\d.]+(?:e[+-]?\d+)?", latex)]
        if len(nums) != arr.size or not np.allclose(nums, arr.flatten().astype(float), 1e-6):
            raise Violation("number", "%r for %s" % (latex, arr))
        return
    if not latex.startswith("\\left["):
        raise Violation("unreadable", "%r for an array" % latex)
    parts = split_array(latex)
    if len(parts) != arr.shape[0]:
        raise Violation("shape", "%i parts of %s: %r" % (len(parts), arr.shape, latex))
    for p, a in zip(parts, np.asarray(arr)):
        if isinstance(a, np.ndarray):
            import gpkit
            a = gpkit.NomialArray(a)
        check_array(rec, p, a, excl)


def array(rng, rec):
    import gpkit
    a = c26.Arrays(rng)
    a.indexed = False
    a.example = a.points()[0]
    with c26.enabled(True):
        try:
            obj, _ = a.node(rng.choice([0, 1, 2, 3]), rng.random() < .2)
            other, _ = a.node(rng.choice([0, 1]))
        except (alg.DimError, ValueError, IndexError):
            raise Skip("shapes")
        if not hasattr(obj, "latex") or not getattr(obj, "size", 1) or c26.nterms(obj) > 40:
            raise Skip("not symbolic")
        for excl in ((), ("units",)):
            check_array(rec, obj.latex(excl), obj, excl)
        rec.ev("arrays")
        rec.sig(obj.latex())
        rec.sample(obj.latex())
        # as a constraint
        if not getattr(obj, "shape", None):
            return
        r = rng.random()
        if r < .4 and getattr(other, "shape", None) != obj.shape:
            r = 1
        if r < .4:
            side = other
        elif r < .7:
            side = np.array([rng.choice([.5, 2, 3e-7]) for _ in range(obj.size)]
                            ).reshape(obj.shape)
        else:
            side = rng.choice([2, .125, 1e-5])
        try:
            con = obj <= side if rng.random() < .5 else obj >= side
        except Exception:
            raise Skip("not comparable")
        if not isinstance(con, gpkit.constraints.array.ArrayConstraint):
            raise Skip("not an array constraint")
        for excl in ((), ("units",)):
            lt, rel, rt = relation(con.latex(excl))
            if rel != con.oper:
                raise Violation("relation", "%s: %r" % (con, con.latex(excl)))
            for t, s in ((lt, con.left), (rt, con.right)):
                check_array(rec, t, s, excl)
                rec.ev("sides")


RELS = {"\\leq": "<=", "\\geq": ">=", "=": "="}


def relation(text):
    parts = re.split(r" (\\leq|\\geq|=) ", text)
    if len(parts) != 3:
        raise Violation("relation", "%r does not read as a constraint" % text)
    return parts[0], RELS[parts[1]], parts[2]


def constraint(rng, rec):
    w = c26.setting(rng)
    con = make_con(rng, w, rng.random() < .4)
    for excl in ((), ("units",), ("lineage",), ("modelnums",)):
        latex = con.latex(excl)
        lt, rel, rt = relation(latex)
        if rel != con.oper:
            raise Violation("relation", "%s: %r" % (con, latex))
        for t, s in ((lt, con.left), (rt, con.right)):
            check_array(rec, t, s, excl)
            rec.ev("sides")
    rec.require(con.latex() == con.latex(("units",)), "default", "%r" % con.latex())
    rec.require(con._repr_latex_() == "$$%s$$" % con.latex(), "repr", con.latex())
    rec.sig(latex)


def make_con(rng, w, signed):
    "a random constraint, its sides known to read as its operands (C26)"
    from gpkit.exceptions import PrimalInfeasible
    rel = rng.choice(["<=", ">=", "="])
    eq = rel == "="
    tree, d = alg.gen_mono(rng, w) if eq else alg.gen(rng, w, rng.choice([1, 2]), signed)
    small = alg.gen_const(rng, d) if rng.random() < .3 else alg.gen_mono(rng, w)[0]
    pt = alg.dimmed(w.point(), w)
    miss = alg.dimadd(d, alg.evaluate(small, pt).d, -1)
    if miss != alg.DIMLESS:
        small = ("mul", small, ("qty", 1, alg.unit_for(rng, miss), "mono"))
    left, right = (tree, small) if rel != ">=" else (small, tree)
    with c26.enabled(signed):
        l, r = alg.build(left, w.objs), alg.build(right, w.objs)
        if not hasattr(l, "hmap") and not hasattr(r, "hmap"):
            raise Skip("numbers")
        if not getattr(l, "hmap", l) or not getattr(r, "hmap", r):
            raise Skip("nothing left")
        try:
            con = l <= r if rel == "<=" else l >= r if rel == ">=" else l == r
        except (PrimalInfeasible, ValueError):
            raise Skip("refused")
        except TypeError:
            if signed:
                raise
            raise Skip("would be signomial")
    if not hasattr(con, "left"):
        raise Skip("no constraint")
    # the operands, wherever they were put
    a, b = (con.left, con.right)
    sides = {"<=": (a, b), ">=": (b, a), "=": (a, b)}[con.oper]
    want = (l, r) if rel != ">=" else (r, l)
    points = [w.point() for _ in range(2)]
    for got in ([sides, sides[::-1]] if eq else [sides]):
        ok = all(alg.same(c26.measure(g, p, w) if hasattr(g, "hmap") else alg.measure(g, p, {}),
                          c26.measure(x, p, w) if hasattr(x, "hmap") else alg.measure(x, p, {}))
                 for g, x in zip(got, want) for p in points)
        if ok:
            break
    else:
        raise Violation("sides", "%s made of %s %s %s" % (con, l, rel, r))
    return con


def model(rng, rec):
    "the LaTeX of a model lists its cost and every constraint, in order"
    import gpkit
    from gpkit import Model, ConstraintSet
    from gpkit.constraints.tight import Tight
    from gpkit.constraints.loose import Loose
    from gpkit.constraints.bounded import Bounded
    w = c26.setting(rng)
    made = []

    def nest(depth):
        out = []
        for _ in range(rng.randint(1, 3)):
            if depth < 3 and rng.random() < .45:
                inner = nest(depth+1)
                r = rng.random()
                if r < .15:
                    out.append(inner)
                elif r < .3:
                    out.append({"k %i" % i: c for i, c in enumerate(inner)})
                elif r < .45:
                    out.append(tuple(inner))
                elif r < .6:
                    out.append(ConstraintSet(inner))
                elif r < .7:
                    out.append(Tight(inner))
                elif r < .8:
                    out.append(Loose(inner))
                else:
                    out.append(Model(None, inner))
            elif rng.random() < .25:
                u = rng.choice([None, "m"])
                v = gpkit.VectorVariable(2, "vec%i" % len(made), *([u] if u else []))
                con = v >= rng.choice([1, 2.5])*(getattr(gpkit.units, u) if u else 1)
                made.append(con)
                out.append(con)
            else:
                for _ in range(20):
                    try:
                        con = make_con(rng, w, False)
                    except Skip:
                        continue
                    if con.vks and any(x for e in con.left.exps + con.right.exps for x in e):
                        made.append(con)
                        out.append(con)
                        break
        return out
    cons = nest(0)
    if not made:
        raise Skip("no constraints")
    cost = rng.choice(list(w.objs.values()))*rng.choice([1, 2.5]) \
        + rng.choice(list(w.objs.values()))*0
    try:
        m = Model(cost, cons)
    except gpkit.exceptions.UnboundedGP:
        raise Skip("bounds")
    if rng.random() < .4:
        str(m)
    for excl in (None, (), ("units",), ("lineage",), ["units"]):
        latex = m.latex() if excl is None else m.latex(excl)
        excl = ("units",) if excl is None else excl
        lines = [l for l in latex.split("\n")]
        rec.require(lines[0].startswith("\\begin{array}") and lines[-1] == "\\end{array}",
                    "frame", latex)
        i, j = lines.index("\\text{minimize}"), lines.index("\\text{subject to}")
        rec.require(j == i+2, "cost", latex)
        match(rec, row(lines[i+1]), m.cost, excl)
        rec.ev("cost_lines")
        rows = [row(l) for l in lines[j+1:-1] if l.strip() not in ("", "&  \\\\")]
        if len(rows) != len(made):
            raise Violation("constraints", "%i rows for %i constraints: %s"
                            % (len(rows), len(made), latex))
        for r, con in zip(rows, made):
            lt, rel, rt = relation(r)
            if rel != con.oper:
                raise Violation("relation", "%s: %r" % (con, r))
            for t, s in ((lt, con.left), (rt, con.right)):
                check_array(rec, t, s, excl)
            rec.ev("model_lines")
    rec.sig(latex)
    rec.sample(latex)


def row(line):
    m = re.match(r"^    & (.*) \\\\$", line)
    if not m:
        raise Violation("row", "%r" % line)
    return m.group(1)


KINDS = {"expression": (expression, 3000, 60000), "array": (array, 1200, 20000),
         "constraint": (constraint, 1600, 30000), "model": (model, 500, 8000)}
