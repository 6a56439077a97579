"""C26: printed expressions, constraints and models read back as what they are.

Random expressions are built through gpkit's operators, printed, and the text is read by an
independent reader (mon/reader.py) with ordinary precedence; the value read is compared, at
random points, with the value of the tree the expression was built from.
"""
import math
import re
import numpy as np
from ..core import Violation, Skip
from .. import alg, models
from ..alg import Val, DIMLESS
from ..reader import T, readings, ReadError, unit, each

PROP = "C26"
RULE = ("a case is a random expression, array, constraint or model, printed in several ways; "
        "non-trivial when its text was read and compared, identified by the text")
TECH = ("an independent reader of the text form, evaluated at random points against the tree "
        "the expression was built from")
NOTE = "numbers may be off by half of the last digit printed (three digits)"
NEED = {"read": 1500, "decided": 1200, "signed": 100, "powers": 100, "arrays": 300, "array_constraints": 80,
        "index": 100, "summed": 60, "terms_read": 150, "sides": 400, "reprinted": 400,
        "model_lines": 300, "lineages": 150, "hostile": 100, "removed": 300}
CHUNK = 25
CPU_LIMIT = 40

ODD = ["C_{L}", "\\dot{m}", "x'", "α_0", "V_{\\infty}", "(W/S)", "a b", "S_wet-ref", "f_{1,2}",
       "W·S", "x_1", "x_10", "e", "E", "pi", "sum", "x2", "M.x", "A/B"]


class W(alg.World):
    "labels -> units, gpkit objects and printed names, in lineages"

    def __init__(self, rng, nvars, units=True, odd=False, deep=False):
        pool = ["x", "y", "z", "w", "u", "t", "m", "s", "ft"]
        rng.shuffle(pool)
        if odd:
            names = rng.sample(ODD, nvars) if rng.random() < .5 else \
                rng.sample(ODD+pool, nvars)
        else:
            names = pool[:nvars]
        labels, self.full, last = [], {}, ()
        for i, n in enumerate(names):
            lin = ()
            if deep and rng.random() < .7:
                lin = tuple((rng.choice(["A", "B", "Wing"]), rng.choice([0, 0, 1, 2, 11]))
                            for _ in range(rng.choice([1, 1, 2, 2, 3, 3, 4, 5])))
                if i and rng.random() < .4:
                    n = names[i-1]     # same names in different models
                    if last and rng.random() < .5:   # of which only one level differs
                        at = rng.randrange(len(last))
                        lin = last[:at] + (rng.choice([("C", 0), ("A", 3)]),) + last[at+1:]
            last = lin
            label = ".".join([a + (str(k) if k else "") for a, k in lin] + [n])
            if label in labels:
                continue
            labels.append(label)
            self.full[label] = (n, lin)
        super().__init__(rng, names=labels, units=units)

    def make(self):
        import gpkit
        for label, u in self.decls.items():
            n, lin = self.full[label]
            kw = {"lineage": lin} if lin else {}
            if u:
                kw["units"] = u
            self.objs[label] = gpkit.Variable(name=n, **kw) if kw else gpkit.Variable(n)
        return self

    def table(self, dp, magnitudes=False, lineage=True, modelnums=True, brief=False):
        "{printed name: T}, or None when names coincide"
        out = {}
        for label, u in self.decls.items():
            v, d = dp[(label, None)]
            n, lin = self.full[label]
            if lineage and not brief:
                n = ".".join([a + (str(k) if k and modelnums else "") for a, k in lin] + [n])
            val = T(v/alg.decl_factor(u)[0]) if magnitudes else T(v, 0, d)
            if n in out:
                return None
            out[n] = val
        return out


def enabled(signed):
    import gpkit
    import contextlib
    return gpkit.SignomialsEnabled() if signed else contextlib.nullcontext()


def judge(rec, text, tables, wants, what, magnitudes=False, trailing=True):
    """the text reads as the wanted values

    tables: {name: T} per point; wants: Val per point; what: for messages
    """
    bad = None
    for names, want in zip(tables, wants):
        try:
            reads = readings(text, names, magnitudes, trailing)
        except ReadError as e:
            raise Violation("unreadable", "%s printed %r: %s" % (what, text, e))
        problems, told = [], False
        for got, units in reads:
            if isinstance(got, np.ndarray):
                problems.append("reads as an array")
                continue
            if magnitudes:
                f, d = units if units else (1., DIMLESS)
                got = got*T(f, 0, d)
            elif units and got.d not in (units[1], None):
                problems.append("its units are %s, not %s" % (got.d, units[1]))
                continue
            elif trailing and not units and got.d not in (DIMLESS, None) \
                    and not only_number(text):
                problems.append("no units shown")
                continue
            if math.isnan(got.v) or got.e == math.inf:
                told = told or None
                break
            if got.close(want):
                told = got.tells(want)
                break
            problems.append("reads as %r" % got)
        else:
            bad = "; ".join(problems)
            raise Violation("misread", "%s printed %r, %s, is %r at %s"
                            % (what, text, bad, want, names))
        rec.ev("read")
        rec.ev("decided", int(bool(told)))


def only_number(text):
    return re.match(r"^-?[\d.e+-]+ \[[^\]]*\]$", text)


def quantities(rng, tree):
    "some of the dimensioned numbers on the right as pint quantities"
    if tree[0] in ("mul", "div", "add", "sub") and isinstance(tree[2], tuple):
        b = tree[2]
        if b[0] == "qty" and has_var(tree[1]) and rng.random() < .4:
            b = b[:3] + ("pint",)
        return (tree[0], quantities(rng, tree[1]), quantities(rng, b))
    if tree[0] in ("neg", "pow"):
        return (tree[0], quantities(rng, tree[1])) + tree[2:]
    return tree


def has_var(tree):
    return alg.has_op(tree, ("var",))


NEGATIVE = [False]


def consts(rng, tree):
    "odd numbers: near multiples of pi, tiny, huge"
    if tree[0] == "num" and rng.random() < .35:
        k = rng.random()
        c = rng.choice([math.pi*rng.randint(1, 40)/rng.choice([1, 2, 3, 4, 6, 12]),
                        rng.uniform(.25, 320), 10**rng.uniform(-9, 9), rng.randint(1, 2000),
                        float("%.1g" % 10**rng.uniform(-3, 5))])
        return ("num", c if k < .9 else -c if tree[1] < 0 else c)
    if tree[0] == "qty" and rng.random() < .3:
        return ("qty", -tree[1] if NEGATIVE[0] and rng.random() < .5 else
                float("%.2g" % 10**rng.uniform(-3, 3))) + tree[2:]
    if tree[0] in ("num", "qty", "var"):
        return tree
    return (tree[0],) + tuple(consts(rng, t) if isinstance(t, tuple) else t for t in tree[1:])


def count(rec, tree, w):
    if alg.has_op(tree, ("neg", "sub")):
        rec.ev("signed")
    if alg.has_op(tree, ("pow",)):
        rec.ev("powers")
    if any(l for _, l in w.full.values()):
        rec.ev("lineages")
    if any(n in ODD for n, _ in w.full.values()):
        rec.ev("hostile")


def setting(rng):
    return W(rng, rng.randint(1, 5), units=rng.random() < .7, odd=rng.random() < .25,
             deep=rng.random() < .3).make()


def make_tree(rng, w, signed=None, depth=None):
    signed = rng.random() < .5 if signed is None else signed
    tree, _ = alg.gen(rng, w, rng.choice([1, 2, 3, 3, 4]) if depth is None else depth, signed)
    NEGATIVE[0] = signed
    tree = consts(rng, quantities(rng, tree))
    NEGATIVE[0] = False
    if zero(tree):
        raise Skip("adds zero")
    return signed, tree


def zero(tree):
    "is a part of this a number, which is zero?"
    if tree[0] in ("num", "qty", "var"):
        return False
    if not has_var(tree):
        return alg.evaluate(tree, {}).v == 0 or any(zero(t) for t in tree[1:]
                                                    if isinstance(t, tuple))
    return any(zero(t) for t in tree[1:] if isinstance(t, tuple))


def built(rng, w, signed, tree):
    import gpkit
    with enabled(signed):
        obj = alg.build(tree, w.objs)
    if not isinstance(obj, gpkit.nomials.math.Signomial) or len(obj.hmap) > 400:
        raise Skip("not an expression")
    return obj


def expression(rng, rec):
    w = setting(rng)
    signed, tree = make_tree(rng, w)
    obj = built(rng, w, signed, tree)
    pts = [alg.dimmed(w.point(spread=.7), w) for _ in range(3)]
    wants = [alg.evaluate(tree, p) for p in pts]
    text = str(obj)
    what = alg.show(tree)
    judge(rec, text, [w.table(p) for p in pts], wants, what)
    count(rec, tree, w)
    rec.sig(text)
    rec.sample("%s -> %s" % (what, text))
    # representations contain the same text
    rec.require(text in repr(obj), "repr", "%r not in %r" % (text, repr(obj)))
    # without model numbers, models, units
    tabs = [w.table(p, modelnums=False) for p in pts]
    if tabs[0]:
        judge(rec, obj.str_without(["modelnums"]), tabs, wants, what)
        rec.ev("removed")
    tabs = [w.table(p, lineage=False) for p in pts]
    if tabs[0]:
        short = obj.str_without(["lineage"])
        judge(rec, short, tabs, wants, what)
        rec.ev("removed")
        unl = obj.str_without(["unnecessary lineage"])
        rec.require(unl == short, "unnecessary-lineage", "%r without lineage, but %r without "
                    "unnecessary lineage" % (short, unl))
    bare = obj.str_without(["units"])
    tail = obj.unitstr(" [%s]")
    rec.require(bare + tail == text or (not obj.vks and text.startswith(bare)), "units-removed",
                "%r is %r without units" % (text, bare))
    rec.ev("removed")


def from_terms(rng, rec):
    "expressions which did not come from operators print their terms"
    w = setting(rng)
    signed, tree = make_tree(rng, w)
    obj = built(rng, w, signed, tree)
    pts = [w.point(spread=.7) for _ in range(3)]
    how = rng.choice(["sub", "sub", "diff", "approx", "init", "subvar"])
    labels = sorted(w.decls)
    from gpkit.nomials import Signomial
    with enabled(signed or how == "diff"):
        if how == "sub":
            given = rng.sample(labels, rng.randint(1, len(labels)))
            for p in pts[1:]:
                p.update({(g, None): pts[0][(g, None)] for g in given})
            new = obj.sub({w.objs[g]: pts[0][(g, None)]/alg.decl_factor(w.decls[g])[0]
                           for g in given})
        elif how == "diff":
            new = obj.diff(w.objs[rng.choice(labels)])
        elif how == "approx":
            at = {w.objs[l]: pts[0][(l, None)]/alg.decl_factor(u)[0]
                  for l, u in w.decls.items()}
            try:
                new = obj.mono_lower_bound(at) if hasattr(obj, "mono_lower_bound") else \
                    obj.mono_approximation(at)
            except Exception:
                raise Skip("no approximation")
        else:
            new = Signomial(obj.hmap)
    wants = [measure(new, p, w) for p in pts]
    text = str(new)
    if not new.hmap:
        rec.require(re.match(r"^0( \[[^\]]*\])?$", text), "empty", "no terms: %r" % text)
    dps = [alg.dimmed(p, w) for p in pts]
    # what stands for itself (and has an ast) may be read either way
    mag = new.ast is None and not hasattr(new, "key")
    if not mag:
        raise Skip("kept its form")
    judge(rec, text, [w.table(p, True) for p in dps], wants, "%s, %s" % (alg.show(tree), how),
          magnitudes=True)
    rec.ev("terms_read")
    rec.sig(text)
    rec.sample("%s of %s -> %s" % (how, alg.show(tree), text))
    bare = new.str_without(["units"])
    rec.require(bare + new.unitstr(" [%s]") == text, "units-removed",
                "%r is %r without units" % (text, bare))


def measure(expr, point, w):
    f, d = alg.unit_factor(expr.units)
    total = mag = 0.
    for c, exp in alg.terms(expr):
        t = c
        for vk, x in exp.items():
            lab = ".".join([a + (str(k) if k else "") for a, k in (vk.lineage or ())]
                           + [vk.name])
            t *= (point[(lab, None)]/alg.decl_factor(w.decls[lab])[0])**float(x)
        total, mag = total+t, mag+abs(t)
    return Val(total*f, mag*f, d)


def reprint(rng, rec):
    "what was printed before does not change what is printed"
    import gpkit
    w = setting(rng)
    signed, tree = make_tree(rng, w)
    obj = built(rng, w, signed, tree)
    asks = [(), ("lineage",), ("units",), ("modelnums",), ("lineage", "units"),
            ("unnecessary lineage",), ("units", "unnecessary lineage"), ("vec",), ("idx",),
            ("modelnums", "units"), ("idx", "lineage", "vec"), ("units")]
    for ask in [rng.choice(asks) for _ in range(6)]:
        if rng.random() < .3:
            how = rng.choice(["repr", "latex", "dict", "use", "hash"])
            if how == "repr":
                repr(obj)
            elif how == "latex":
                obj.latex()
            elif how == "use":
                with enabled(True):
                    str(obj*2 + obj)
                    _ = obj <= obj
            else:
                hash(obj)
        got = obj.str_without(ask)
        new = built(rng, w, signed, tree)
        want = new.str_without(ask)
        rec.require(got == want, "reprint", "%s printed without %s is %r, but %r when "
                    "printed first" % (alg.show(tree), ask, got, want))
        rec.ev("reprinted")
    rec.sig(want)


# ---------------------------------------------------------------- arrays
class Arrays:
    "random array programs over vectors: gpkit objects beside arrays of Vals"

    def __init__(self, rng):
        import gpkit
        self.rng = rng
        self.unit = rng.choice([None, None, "m", "ft", "kg/m^3"])
        self.vars = {}
        odd = rng.random() < .2
        lin = (("Wing", rng.choice([0, 2])),) if rng.random() < .25 else ()
        kw = {"lineage": lin} if lin else {}
        if self.unit:
            kw["units"] = self.unit
        self.shape = rng.choice([(2,), (3,), (3,), (2, 2), (2, 3), (1, 3), (2, 2, 2)])
        self.f, self.d = alg.decl_factor(self.unit)
        names = rng.sample(ODD if odd else ["v", "w", "q", "x"], 3)
        self.names = []
        pre = ".".join(a + (str(k) if k else "") for a, k in lin)
        for n in names[:2]:
            obj = gpkit.VectorVariable(self.shape, name=n, **kw)
            self.names.append((pre + "." + n if pre else n, obj, self.shape))
        obj = gpkit.Variable(name=names[2], **kw)
        self.names.append((pre + "." + names[2] if pre else names[2], obj, ()))
        self.npts = 2

    def points(self):
        "per point {name: array of Val}"
        rng, out = self.rng, []
        for _ in range(self.npts):
            p = {}
            for name, _, shape in self.names:
                arr = np.empty(shape, dtype=object)
                for i in np.ndindex(*shape):
                    arr[i] = Val(self.f*math.exp(rng.uniform(-.7, .7)), None, self.d)
                p[name] = arr if shape else arr[()]
            out.append(p)
        return out

    def table(self, p):
        return {n: each(lambda x: T(x.v, 0, x.d), a) for n, a in p.items()}

    def leaf(self, scalar=False):
        rng = self.rng
        name, obj, shape = rng.choice(self.names)
        if scalar and shape:
            i = tuple(rng.randrange(k) for k in shape)
            return obj[i], (lambda p: p[name][i])
        if not shape and not scalar:
            return self.leaf(scalar)
        return obj, (lambda p: p[name])

    def index(self, shape):
        rng = self.rng
        r = rng.random()
        n = shape[0]
        if r < .3:
            a = rng.choice([None, 0, 1, -1, -n, n-1])
            b = rng.choice([None, n, -1, n-1, n+3])
            return slice(a, b, rng.choice([None, None, None, 1, 2, -1]))
        if r < .4:
            return rng.choice([Ellipsis, None, (Ellipsis, 0), (Ellipsis, None)])
        if r < .5:
            return [rng.randrange(n) for _ in range(rng.randint(1, 3))]
        if r < .55:
            return np.array([rng.randrange(n) for _ in range(rng.randint(1, 3))])
        if len(shape) > 1 and r < .9:
            out = []
            for k in shape:
                q = rng.random()
                if q < .5:
                    out.append(rng.randrange(-k, k))
                elif q < .8:
                    out.append(slice(rng.choice([None, 0, 1]), rng.choice([None, k, 1]),
                                     rng.choice([None, None, 1])))
                else:
                    out.append(slice(None))
            return tuple(out)
        return rng.randrange(-n, n)

    def node(self, depth, scalar=False):
        """(gpkit object, p -> array of Val, signed)"""
        import gpkit
        rng = self.rng
        if depth <= 0 or rng.random() < .1:
            return self.leaf(scalar)
        r = rng.random()
        if scalar:
            a, fa = self.node(depth-1)
            if r < .5 or nterms(a)**getattr(a, "size", 1) > 200:
                return a.sum(), lambda p: foldv(fa(p), lambda x, y: x+y)
            return a.prod(), lambda p: foldv(fa(p), lambda x, y: x*y)
        a, fa = self.node(depth-1)
        if not getattr(a, "shape", None) or not a.size:
            return a, fa
        if r < .2:
            idx = self.index(a.shape)
            self.indexed = True
            return a[idx], lambda p: np.asarray(fa(p))[idx] if True else None
        if r < .3:
            n = rng.choice([2, 2, 3, 1, 0])
            if nterms(a) > 20:
                n = 1
            return a**n, lambda p: fa(p)**n
        if r < .38:
            return -a, lambda p: -fa(p)
        k = rng.random()
        if k < .25:
            c = rng.choice([2, 3.5, .25, math.pi, -2, 1, 1/3.])
            b, fb = c, lambda p: c
            number_ = True
        elif k < .35:
            arr = np.array([rng.choice([1., 2.5, 3., .125]) for _ in range(a.shape[-1])])
            b, fb, number_ = arr, lambda p: arr, True
        elif k < .6:
            b, fb = self.node(depth-2, scalar=True)
            number_ = False
        else:
            b, fb = self.node(depth-1)
            number_ = False
            if getattr(b, "shape", ()) != a.shape:
                b, fb = self.node(0, scalar=True)
        op = rng.choice(["+", "-", "*", "*", "/"])
        if nterms(a)*nterms(b) > 400:
            return a, fa
        if op in "+-":
            if number_:
                if self.unit:
                    op = "*"
            elif self.ddim(fa) != self.ddim(fb):
                op = "*"
        if op == "/" and not number_ and not monomial(b):
            op = "*"
        if not number_ and isinstance(b, np.ndarray) is False and rng.random() < .3 \
                and op in "+*":
            a, b, fa, fb = b, a, fb, fa     # scalar first
        elif number_ and not isinstance(b, np.ndarray) and op in "+-*" and rng.random() < .4:
            a, b, fa, fb = b, a, fb, fa
        elif op == "/" and monomial(a) and getattr(a, "size", 0) \
                and not isinstance(b, np.ndarray) and rng.random() < .4:
            a, b, fa, fb = b, a, fb, fa     # over an array
        f = {"+": lambda x, y: x+y, "-": lambda x, y: x-y, "*": lambda x, y: x*y,
             "/": lambda x, y: x/y}[op]
        return f(a, b), lambda p: f(fa(p), fb(p))

    def ddim(self, f):
        v = f(self.example)
        v = v.flat[0] if isinstance(v, np.ndarray) else v
        return v.d if isinstance(v, Val) else DIMLESS


def monomial(b):
    import gpkit
    els = list(b.flat) if isinstance(b, np.ndarray) else [b]
    return all(isinstance(e, gpkit.Monomial) or not hasattr(e, "hmap") for e in els)


def nterms(a):
    els = a.flat if isinstance(a, np.ndarray) else [a]
    return max((len(getattr(e, "hmap", "1")) for e in els), default=1)


def foldv(a, f):
    els = list(np.asarray(a, dtype=object).flat)
    out = els[0]
    for e in els[1:]:
        out = f(out, e)
    return out


def array(rng, rec):
    import gpkit
    a = Arrays(rng)
    a.indexed = False
    pts = a.points()
    a.example = pts[0]
    scalar = rng.random() < .35
    with enabled(True):
        try:
            obj, f = a.node(rng.choice([1, 2, 3, 4]), scalar)
        except alg.DimError:
            raise Skip("dimensions")
        except (ValueError, IndexError) as e:
            if "size 0" in str(e) or "broadcast" in str(e) or "not enough" in str(e):
                raise Skip("shapes")
            raise
    if not hasattr(obj, "str_without") or not getattr(obj, "size", 1):
        raise Skip("not symbolic")
    try:
        wants = [f(p) for p in pts]
    except alg.DimError:
        raise Skip("dimensions")
    if isinstance(obj, np.ndarray) and any(not hasattr(e, "hmap") for e in obj.flat):
        raise Skip("numbers among the elements")
    text = str(obj)
    tables = [a.table(p) for p in pts]
    compare_arrays(rec, text, tables, wants, bool(getattr(obj, "shape", ())))
    rec.sig(text)
    rec.sample(text)
    rec.ev("arrays")
    if a.indexed:
        rec.ev("index")
    if ".sum()" in text or ".prod()" in text:
        rec.ev("summed")
    # constraints between them
    if getattr(obj, "shape", ()) and rng.random() < .5:
        array_constraint(rng, rec, a, obj, wants, tables, pts)
    # lists of expressions
    if getattr(obj, "shape", ()) and rng.random() < .3:
        listed = gpkit.NomialArray([e for e in obj.flat])
        text = listed.str_without(["units"])
        try:
            compare_arrays(rec, text, tables, [np.asarray(w, dtype=object).flatten()
                                               for w in wants], True)
        except Violation as e:
            if any(e_.ast is None and not hasattr(e_, "key") for e_ in obj.flat):
                raise Skip("elements print their terms")
            raise
        rec.ev("listed")


def array_constraint(rng, rec, a, obj, wants, tables, pts):
    from gpkit.exceptions import PrimalInfeasible
    with enabled(True):
        try:
            other, f = a.node(rng.choice([0, 1, 2]), False)
            otherwants = [f(p) for p in pts]
        except (alg.DimError, ValueError, IndexError):
            return
        if not hasattr(other, "str_without") or not getattr(other, "size", 1) or \
                any(not hasattr(e, "hmap") for e in getattr(other, "flat", [other])):
            return
        try:
            rel = rng.choice(["<=", ">=", "<="] + ["="]*(monomial(obj) and monomial(other)))
            con = obj <= other if rel == "<=" else obj >= other if rel == ">=" else obj == other
        except (PrimalInfeasible, ValueError):   # includes other units
            return
        except Exception as e:      # pylint: disable=broad-except
            if "Dimensionality" in type(e).__name__:
                return
            raise
    if not hasattr(con, "constraints"):
        return
    text = str(con)
    lt, got, rt = split_relation(text)
    rec.require(got == rel, "relation", "%r of %s" % (text, rel))
    compare_arrays(rec, lt, tables, wants, True)
    compare_arrays(rec, rt, tables, otherwants, bool(getattr(other, "shape", ())))
    rec.ev("array_constraints")


def compare_arrays(rec, text, tables, wants, isarray):
    for names, want in zip(tables, wants):
        try:
            reads = readings(text, names, trailing=not isarray)
        except ReadError as e:
            raise Violation("unreadable", "%r: %s" % (text, e))
        want = np.asarray(want, dtype=object)
        problems = []
        for got, units in reads:
            got = np.asarray(got, dtype=object)
            if got.shape != want.shape:
                problems.append("shape %s, not %s" % (got.shape, want.shape))
                continue
            if units and any(g.d not in (units[1], None) for g in got.flat):
                problems.append("units")
                continue
            bad = [(g, v) for g, v in zip(got.flat, want.flat)
                   if not (math.isnan(g.v) or g.e == math.inf or g.close(alg.val(v)))]
            if not bad:
                rec.ev("read")
                rec.ev("decided", int(any(g.tells(alg.val(v))
                                          for g, v in zip(got.flat, want.flat))))
                break
            problems.append("reads as %r for %r" % bad[0])
        else:
            raise Violation("misread", "%r: %s" % (text, "; ".join(problems)))


# ---------------------------------------------------------------- constraints
RELS = {"≤": "<=", "≥": ">=", "=": "="}


def split_relation(text):
    parts = re.split(r" ([≤≥=]) ", text)
    if len(parts) != 3:
        raise Violation("relation", "%r does not read as a constraint" % text)
    return parts[0], RELS[parts[1]], parts[2]


def constraint(rng, rec):
    import gpkit
    from gpkit.exceptions import PrimalInfeasible
    w = setting(rng)
    signed = rng.random() < .4
    rel = rng.choice(["<=", ">=", "="])
    eq = rel == "="
    tree, d = alg.gen_mono(rng, w) if eq else alg.gen(rng, w, rng.choice([1, 2, 3]), signed)
    small = alg.gen_const(rng, d) if rng.random() < .3 else alg.gen_mono(rng, w)[0]
    pt = alg.dimmed(w.point(), w)
    sd = alg.evaluate(small, pt).d
    miss = alg.dimadd(d, sd, -1)
    if miss != DIMLESS:
        small = ("mul", small, ("qty", rng.choice([1, 2]), alg.unit_for(rng, miss), "mono"))
    if rng.random() < .2 and not eq:
        small = alg.gen_like(rng, w, d, 1, signed)
    left, right = (tree, small) if rel == "<=" or eq else (small, tree)
    if rng.random() < .15:
        left, right = right, left
    left, right = (consts(rng, t) for t in (left, right))
    if zero(left) or zero(right):
        raise Skip("adds zero")
    with enabled(True):
        l, r = alg.build(left, w.objs), alg.build(right, w.objs)
        if not hasattr(l, "hmap") and not hasattr(r, "hmap"):
            raise Skip("numbers")
        try:
            con = l <= r if rel == "<=" else l >= r if rel == ">=" else l == r
        except (PrimalInfeasible, ValueError) as e:
            raise Skip("refused")
    if not hasattr(con, "left"):
        raise Skip("no constraint")
    pts = [alg.dimmed(w.point(spread=.7), w) for _ in range(2)]
    check_con(rec, con, w, pts, [(left, rel, right)], alg.show(left) + rel + alg.show(right))
    rec.sig(str(con))


def check_con(rec, con, w, pts, wants, what):
    text = con.str_without(())
    tabs = [w.table(p) for p in pts]
    lt, rel, rt = split_relation(text)
    (left, wantrel, right), = wants
    flip = {"<=": ">=", ">=": "<=", "=": "="}
    if rel == wantrel and not (rel == "=" and swapped(rec, lt, tabs, left, pts)):
        pairs = ((lt, left), (rt, right))
    elif rel == flip[wantrel]:
        pairs = ((lt, right), (rt, left))
    else:
        raise Violation("relation", "%s printed %r" % (what, text))
    for t, tree in pairs:
        side(rec, t, tabs, tree, pts, w, what)
        rec.ev("sides")
    # units removed from each side, or names of models, and nothing else
    sides = [s.str_without(["units"]) if hasattr(s, "str_without") else str(s)
             for s in (con.left, con.right)]
    bare = str(con)
    bl, brel, br = split_relation(bare)
    rec.require(brel == rel, "relation", "%r but %r" % (text, bare))
    for a, b in ((lt, bl), (rt, br)):
        ok = a == b or (a.startswith(b) and re.match(r"^ \[[^\]]*\]$", a[len(b):]))
        rec.require(ok, "units-removed", "%r is %r without units" % (text, bare))
    rec.ev("removed")
    tabs = [w.table(p, lineage=False) for p in pts]
    if tabs[0]:
        short = con.str_without(["lineage"])
        lt, srel, rt = split_relation(short)
        rec.require(srel == rel, "relation", "%r but %r" % (text, short))
        for t, (_, tree) in zip((lt, rt), pairs):
            side(rec, t, tabs, tree, pts, w, what)
        rec.ev("removed")


def swapped(rec, text, tabs, left, pts):
    "an equality may be shown either way around"
    try:
        judge(rec, text, tabs, [alg.evaluate(left, p) for p in pts], "")
    except Violation:
        return True
    return False


def side(rec, text, tabs, tree, pts, w, what):
    wants = [alg.evaluate(tree, p) for p in pts]
    judge(rec, text, tabs, wants, what)


# ---------------------------------------------------------------- models
def model(rng, rec):
    "every constraint of a model is listed once, under its names; and the cost"
    import gpkit
    from gpkit import Model, ConstraintSet
    names = rng.sample(["x", "y", "z"], rng.randint(1, 3))
    parts, decls = [], {}
    w = W(rng, 1)
    w.decls, w.full, w.objs = {}, {}, {}
    trees = []

    def content(self=None):
        mine = []
        lin = tuple(gpkit.NamedVariables.lineage)
        for n in rng.sample(names, rng.randint(1, len(names))):
            lab = ".".join([a + (str(k) if k else "") for a, k in lin] + [n])
            if lab in w.decls:
                continue
            u = rng.choice([None, None, "m", "ft"])
            w.decls[lab], w.full[lab] = u, (n, lin)
            w.objs[lab] = gpkit.Variable(n, u) if u else gpkit.Variable(n)
            mine.append(lab)
        mine = mine or list(w.decls)
        out = []
        sub = W(rng, 1)
        sub.decls = {k: w.decls[k] for k in rng.sample(mine, rng.randint(1, len(mine)))}
        for _ in range(rng.randint(1, 3)):
            tree, d = alg.gen(rng, sub, rng.choice([0, 1, 2]), False)
            small, sd = alg.gen_mono(rng, sub)
            if not has_var(tree) and not has_var(small):
                continue
            miss = alg.dimadd(d, sd, -1)
            if miss != DIMLESS:
                small = ("mul", small, ("qty", 1, alg.unit_for(rng, miss), "mono"))
            l, r = alg.build(tree, w.objs), alg.build(small, w.objs)
            try:
                con = l <= r
            except Exception:
                continue
            if hasattr(con, "left") and con.left is not None:
                trees.append((tree, "<=", small))
                out.append(con)
        return out

    def setup(self, depth=0):
        out = content()
        if depth < 2:
            for _ in range(rng.choice([0, 1, 1, 2])):
                cls = rng.choice(classes)
                out.append(cls(depth+1))
        if not out:
            out = content()
        r = rng.random()
        if r < .2:
            return {"part %i" % i: c for i, c in enumerate(out)}
        if r < .4:
            return [out]
        if r < .5:
            return [ConstraintSet(out)]
        return out
    classes = [type(n, (Model,), {"setup": setup}) for n in ("A", "B")]
    gpkit.NamedVariables.reset_modelnumbers()
    try:
        inner = [rng.choice(classes)() for _ in range(rng.randint(1, 2))]
    except ValueError:
        raise Skip("empty model")
    if not trees:
        raise Skip("no constraints")
    lab = rng.choice(sorted(w.decls))
    costs = [("var", lab, None)]
    if rng.random() < .4:
        costs = [("mul", ("num", 2.5), ("pow", ("var", lab, None), 2))]
    cost = alg.build(costs[0], w.objs)
    r = rng.random()
    if r < .6 or len(inner) > 1:
        m = Model(cost, inner)
    else:
        m, = inner
        m.cost = cost
    excl = rng.choice([None, ("unnecessary lineage", "units"), (), ("units",),
                       ("unnecessary lineage",), ("modelnums",)])
    if rng.random() < .3:
        str(m)
    text = str(m) if excl is None else m.str_without(excl)
    excl = ("unnecessary lineage", "units") if excl is None else excl
    pts = [alg.dimmed(w.point(spread=.7), w) for _ in range(2)]
    tabs = [w.table(p, modelnums="modelnums" not in excl) for p in pts]
    if tabs[0] is None:
        raise Skip("ambiguous without numbers")
    if "unnecessary lineage" in excl:
        named = {}
        for lab2, (n, _) in w.full.items():
            named.setdefault(n, []).append(lab2)
        used = {str(k) for k in m.varkeys}
        for p, tab in zip(pts, tabs):
            for n, labs in named.items():
                labs = [l for l in labs if l in used]
                if len(labs) == 1:
                    v, d = p[(labs[0], None)]
                    tab[n] = T(v, 0, d)
                    if labs[0] != n:
                        del tab[labs[0]]
    lines = text.split("\n")
    if m.lineage:
        i = lines.index("="*len(lines[0]))
        rec.require(i == 1, "heading", "%r" % text)
    rec.require("Cost Function" in lines, "no-cost", "no cost in %r" % text)
    i = lines.index("Cost Function")
    costtext = lines[i+2].strip()
    j = lines.index("Constraints")
    rec.require(j > i, "no-cost", text)
    judge_loose(rec, costtext, tabs, costs[0], pts, excl, "cost of %s" % text)
    # each line with a relation is a constraint
    got = []
    for line in lines[j+1:]:
        if re.search(" [≤≥=] ", line):
            got.append(split_relation(line.strip()))
    rec.require(len(got) == len(trees), "constraint-count", "%i constraints printed for %i: %s"
                % (len(got), len(trees), text))
    left = list(got)
    for tree in trees:
        for k, (lt, rel, rt) in enumerate(left):
            l, r = (tree[0], tree[2]) if rel == "<=" else (tree[2], tree[0])
            try:
                judge_loose(rec, lt, tabs, l, pts, excl, "")
                judge_loose(rec, rt, tabs, r, pts, excl, "")
            except Violation:
                continue
            del left[k]
            break
        else:
            raise Violation("constraint-missing", "%s <= %s is not in %s" % (
                alg.show(tree[0]), alg.show(tree[2]), text))
        rec.ev("model_lines")
    rec.sig(text)
    rec.sample(text)


def judge_loose(rec, text, tabs, tree, pts, excl, what):
    wants = [alg.evaluate(tree, p) for p in pts]
    if "units" in excl:
        if re.match(r"^-?[\d.e+-]+$", text):     # a number of which the units were left out
            got = float(text)
            from gpkit import Model  # noqa
            return
        judge(rec, text, tabs, wants, what, trailing=False)
    else:
        judge(rec, text, tabs, wants, what)


KINDS = {"expression": (expression, 2500, 40000), "terms": (from_terms, 1000, 16000),
         "reprint": (reprint, 500, 8000), "array": (array, 2000, 30000),
         "constraint": (constraint, 1500, 20000), "model": (model, 300, 5000)}
