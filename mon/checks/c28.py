"""C28: variables declared in docstrings, and stated bounds, against references of both.

declare: source files with random docstrings are written, imported and instantiated; every
  variable created is compared with what the lines of the docstring say.
malformed: the same with one line broken.
bounds: models whose bounds follow from a reference closure, with statements that are exact,
  excessive or insufficient.
"""
import importlib.util
import itertools
import keyword
import re
import numpy as np
from ..core import Violation, Skip
from .. import alg

PROP = "C28"
RULE = ("a case is a docstring in a written source file and the model made from it, or a model "
        "with a statement of its bounds; non-trivial when variables or the verdict and list of "
        "missing bounds were compared, identified by the docstring or program")
TECH = ("monitor comparing every key of each model created from a generated source file with "
        "the lines written into it; reference closure of bounds deciding acceptance and the "
        "reported missing bounds")
NOTE = ("docstrings of up to 6 sections in several layouts with hostile descriptions; bounds "
        "programs up to 7 variables with equalities, constants, vectors, submodels and "
        "single signomials")
NEED = {"parents_unstated": 30, "variable": 1500, "vector": 150, "constant": 200, "refused-malformed": 150,
        "accepted": 150, "refused-missing": 150, "refused-bounded": 100,
        "missing-list": 150, "advice_sets": 100, "closure-needed": 40, "nothing-declared": 15}
CPU_LIMIT = 60
UNSET = object()

UNITS = ["-", "-", "", "m", "ft", "kg/m^3", "m**2", "lbf/gallon", "W*hr/kg", "m / s",
         "1/s", "degree", "kg * m/s**2", "in", "dimensionless", "km/hr", "Pa"]
LABELS = ["", "surface area", "Reynold's number", "an \"outer\" wall", "wall (in 'knots')",
          "see [12] and (3.1)", "path C:\\temp\\new", "ends in backslash \\", "\u03c1 of the air",
          "100% of {0} and {name}", "# not a comment", "a Variable(x) of sorts", "= 3 [m]",
          "two  spaces", "Constants and Variables", "''", "\"\"\"", "')", "', 3)", "\\'",
          "h [m] inside", "[brackets]", "# from 'x'", "%s %d", "comma, (paren)", "-", "1.0"]
PROSE = ["A model of something.", "It has Variables and Constants aplenty.",
         "Variables are declared below, Constants as well.",
         "The number (of Variables) is \"large\".", "Note: it's \\great.", "x 3 [m] is a length",
         "e.g. h [m]", "    indented [prose] (here)", "* item: Variables\\n", "----", "====",
         "Arguments", "---------", "length : float", "Variables:", "Constants:"]
NAMES = ["x", "y", "z", "h", "Ah", "A", "Vol", "rho", "m_tot", "f", "mfac", "I", "e", "l",
         "W_wing", "_u", "t1", "Re", "CD", "tmax", "q", "self_x", "lam", "Wfueltot"]
GLOBALS = """
import numpy as np
from gpkit import Model, Variable as GV, parse_variables
import gpkit
K = 7.5
TWO = 2
ARR = np.array([1.5, 2.5])
def half(c):
    return 0.5
"""
SCALARS = [("3", 3), ("1e3", 1e3), ("2.50", 2.5), ("1/4.", .25), ("np.pi", np.pi), ("K", 7.5),
           ("K**2", 56.25), ("-2.5", -2.5), ("6.01", 6.01), ("1e-9", 1e-9), ("scale", UNSET),
           ("gpkit.__dict__.get('nothing',4)", 4), ("max(2,3)", 3), ("half", "half")]
VECTORS = [("(1,2)", [1, 2]), ("ARR", [1.5, 2.5]), ("np.ones(2)", [1, 1]),
           ("2*ARR", [3, 5])]


class Decl:
    "what one line should make"
    def __init__(self, name, value, units, label, constant, length):
        self.name, self.value, self.units, self.label = name, value, units, label
        self.constant, self.length = constant, length


def gen_line(rng, name, vector, scale):
    "-> (text, value, units, label)"
    if rng.random() < .5:
        vtext, value = "", None
    elif vector:
        if vector == 2:
            vtext, value = rng.choice(VECTORS)
        else:
            vtext, value = "np.full(%i,%s)" % (vector, 2.5), [2.5]*vector
    else:
        vtext, value = rng.choice(SCALARS)
        if value is UNSET:
            value = scale
    units, label = rng.choice(UNITS), rng.choice(LABELS)
    gap = lambda least: " "*rng.choice([least, 1, 2, 7])
    text = name + gap(1)
    if vtext:
        text += vtext + gap(1)
    text = text.rstrip() + (gap(0) if not vtext and rng.random() < .1 else gap(1) or " ")
    text += "[%s]" % units
    if label:
        text += gap(0) + label
    elif rng.random() < .3:
        text += gap(1)
    return text, value, units, label


def gen_doc(rng, scale, n):
    "-> (list of lines, [Decl])"
    names = rng.sample(NAMES, rng.randint(1, 12))
    decls, sections = [], []
    for _ in range(rng.randint(1, 5)):
        kind = rng.choice(["Variables", "Variables", "Constants", "Variables of length %s",
                           "Variables of length %s", "prose"])
        if kind == "prose":
            sections.append([rng.choice(PROSE) for _ in range(rng.randint(1, 3))])
            continue
        vector = 0
        if "%s" in kind:
            ltext, vector = rng.choice([("2", 2), ("3", 3), ("n", n), ("TWO", 2), ("n+1", n+1),
                                        ("len(ARR)", 2)])
            kind %= ltext
        head = rng.choice(["", "", "", "Zoning ", "More ", "Other, \"special\" ",
                           "Free Variables, Constants & "]) + kind
        lines = [head, rng.choice(["-"*len(head), "-"*len(head), "---", "="*len(head), "~~"])]
        for _ in range(rng.choice([0, 1, 1, 2, 3, 4])):
            if not names:
                break
            name = names.pop()
            text, value, units, label = gen_line(rng, name, vector, scale)
            lines.append(text)
            decls.append(Decl(name, value, units, label, kind == "Constants", vector))
        sections.append(lines)
    rng.shuffle(sections)
    used = [d.name for d in decls]
    # order of creation follows the lines
    lines = []
    if rng.random() < .8:
        lines += [rng.choice(PROSE[:5]), ""]
    for s in sections:
        lines += s + [""]*rng.choice([1, 1, 1, 2])
    if rng.random() < .2:
        lines += [rng.choice(PROSE)]
    while lines and not lines[-1] and rng.random() < .5:
        lines.pop()
    return lines, decls, used


def safe(lines, decls):
    """Does prose accidentally hold a heading? (a line ending in one is documented to be one),
    or mention 'Variables of length' within a line"""
    heads = 0
    for line in lines:
        if line.endswith(("Variables", "Constants")) or "Variables of length" in line:
            heads += 1
    return heads


def literal(rng, text):
    "the docstring as it would be written"
    if '"""' not in text and "\\" not in text and not text.endswith('"') \
            and rng.random() < .8:
        return '"""%s"""' % text
    if rng.random() < .5 and '"""' not in text and not text.endswith(("\\", '"')) \
            and not text.startswith('"'):
        return 'r"""%s"""' % text
    return repr(text)


_count = itertools.count()


def load(source):
    "imports a module written to the case's scratch directory"
    name = "doc_%d" % next(_count)
    path = "%s.py" % name
    with open(path, "w", encoding="utf-8") as f:
        f.write(source)
    spec = importlib.util.spec_from_file_location(name, path)
    mod = importlib.util.module_from_spec(spec)
    spec.loader.exec_module(mod)
    return mod


def make_source(rng, lines, names, style):
    "the source of a module whose Thing has this docstring"
    ind = rng.choice(["    ", "    ", "  ", "\t", "        "])
    dind = rng.choice([ind, ind, "", "  "])
    text = "\n".join(dind + l if l else rng.choice(["", "", dind]) for l in lines)
    if rng.random() < .5:
        text = text.lstrip(" \t")
    if rng.random() < .7:
        text += "\n" + ind
    src = GLOBALS
    if style == "module":
        src += "\nDOC = %r\n" % text
        doc, call = "", "DOC, globals()"
    else:
        doc, call = ind + literal(rng, text) + "\n", "__doc__, globals()"
    src += "\nclass Thing(Model):\n" + doc
    if rng.random() < .3:
        src += "\n" + ind + "# a comment\n"
    src += ind + "@parse_variables(%s)\n" % call
    head = rng.choice(["def setup(self, n, scale):", "def setup(self, n, scale):  # hm",
                       "def setup(self, n,\n%s%sscale):" % (ind, ind*2),
                       "def setup(self,\n%s%sn,\n%s%sscale=2):" % (ind, ind*2, ind, ind*2),
                       "def setup(self, n=0, scale=(1, 2)):"])
    src += ind + head + "\n"
    b = ind*2
    body = []
    if rng.random() < .4:
        body.append(b + '"Sets up."')
    if rng.random() < .3:
        body += ["", "# outdented comment", b + "# indented comment"]
    body.append(b + "self.seen = dict(locals())")
    if rng.random() < .3:
        body += [b + "if n:", b + ind + "pass", ""]
    body.append(b + rng.choice(["return []", "pass", "return [self.seen['self'] and []]"
                                if False else "return []"]))
    return src + "\n".join(body) + rng.choice(["\n", "\n\n", "\nEND = 1\n"])


def unit_of(text):
    "the reference unit of a variable declared with these, as a quantity or None"
    import gpkit
    if text in ("", "-", "dimensionless"):
        return None
    return gpkit.ureg.Quantity(1, text)


def flat_value(value):
    return np.asarray(value, float).flatten().tolist()


def check_instance(mod, m, decls, lineage, vec, rec, what):
    "every variable of m against the declarations"
    import gpkit
    keys = {}
    for key in m.unique_varkeys:
        keys.setdefault(key.name, []).append(key)
    rec.require(set(keys) == {d.name for d in decls}, "names",
                lambda: "variables %s were made; %s are declared in\n%s"
                % (sorted(keys), sorted(d.name for d in decls), what))
    plain = {"seen", "cost", "lineage", "unique_varkeys", "vks", "substitutions", "bounded",
             "meq_bounded", "idxlookup", "_varkeys", "missingbounds"}
    extra = set(vars(m)) - plain - {d.name for d in decls}
    rec.require(not extra, "attributes", lambda: "attributes %s from\n%s" % (extra, what))
    for d in decls:
        obj = getattr(m, d.name, UNSET)
        rec.require(obj is not UNSET, "attribute", lambda: "no attribute %s; docstring\n%s"
                    % (d.name, what))
        rec.require(m.seen.get(d.name, UNSET) is obj, "local",
                    lambda: "setup saw %r as %s; docstring\n%s"
                    % (m.seen.get(d.name), d.name, what))
        shape = ((d.length,) if d.length else ()) + tuple(vec)
        ks = keys[d.name]
        want_n = int(np.prod(shape)) if shape else 1
        rec.require(len(ks) == want_n, "size", lambda: "%i keys called %s, %i expected from\n%s"
                    % (len(ks), d.name, want_n, what))
        if shape:
            rec.ev("vector")
            rec.require(tuple(obj.shape) == shape, "shape", lambda: "%s has shape %s, not %s:\n%s"
                        % (d.name, obj.shape, shape, what))
            rec.require({k.idx for k in ks} == set(np.ndindex(*shape)), "elements",
                        lambda: "%s has elements %s" % (d.name, [k.idx for k in ks]))
            rec.require({obj[k.idx].key for k in ks} == set(ks), "elements",
                        lambda: "%s does not hold its elements" % d.name)
        else:
            rec.require(getattr(obj, 'key', None) == ks[0], "object",
                        lambda: "%s is %r" % (d.name, obj))
        if d.constant:
            rec.ev("constant")
        for k in ks:
            rec.ev("variable")
            rec.require(tuple(k.lineage or ()) == tuple(lineage), "lineage",
                        lambda: "%s has lineage %s, not %s" % (d.name, k.lineage, lineage))
            want = unit_of(d.units)
            got = k.units
            if want is None:
                ok = got in (None, 1) or not hasattr(got, "units")
            else:
                ok = hasattr(got, "to") and got.dimensionality == want.dimensionality \
                    and abs((got/want).to("dimensionless").magnitude - 1) < 1e-12
            rec.require(ok, "units", lambda: "%s has units %s, not %r" % (d.name, got, d.units))
            label = k.label or ""
            rec.require(label.strip() == d.label.strip(), "label",
                        lambda: "%s is described as %r, not %r" % (d.name, label, d.label))
            rec.require(bool(k.constant) == d.constant, "constant",
                        lambda: "%s has constant=%s; docstring\n%s" % (d.name, k.constant, what))
            value = m.substitutions[k] if k in m.substitutions else k.value
            if d.value is None:
                rec.require(value is None and k.value is None, "value",
                            lambda: "%s has value %s, none was declared" % (d.name, value))
            elif d.value == "half":
                rec.require(callable(value) or callable(k.value), "value",
                            lambda: "%s has value %r, not a function" % (d.name, value))
            else:
                ref = d.value
                if d.length and not isinstance(ref, (int, float)):
                    ref = ref[k.idx[0]]
                got = getattr(value, "magnitude", value)
                rec.require(value is not None and abs(got - ref) <= 1e-12*abs(ref), "value",
                            lambda: "%s has value %s, not %s:\n%s" % (k, value, ref, what))
                if d.constant:
                    rec.require(k.value is not None, "constant-value",
                                lambda: "constant %s lost its value" % k)


def do_declare(rng, rec):
    import contextlib
    import gpkit
    n = rng.choice([2, 3])
    scale = rng.choice([1.25, 4, .5])
    lines, decls, _ = gen_doc(rng, scale, n)
    heads = safe(lines, decls)
    src = make_source(rng, lines, decls, rng.choice(["class", "class", "module"]))
    # prose or descriptions that make a heading (by the documented rule) are not wanted here
    real = sum(1 for i, l in enumerate(lines[:-1])
               if l.endswith(("Variables", "Constants")) or "Variables of length" in l)
    want = sum(1 for i, l in enumerate(lines[:-1])
               if (l.endswith(("Variables", "Constants")) or "Variables of length" in l)
               and set(lines[i+1]) in ({"-"}, {"="}, {"~"}))
    if real != want or heads != real:
        raise Skip("text makes headings")
    for i, l in enumerate(lines):   # a description ending a line with a heading's words
        if "[" in l and l.endswith(("Variables", "Constants")):
            raise Skip("text makes headings")
    try:
        mod = load(src)
    except Exception as e:
        raise Violation("refused", "%s: %s while importing\n%s" % (type(e).__name__, e, src))
    gpkit.NamedVariables.reset_modelnumbers()
    scope = rng.choice([(), (), (), ("Outer",)])
    vec = ()
    if not any(d.length or isinstance(d.value, str) for d in decls) and rng.random() < .25:
        vec = (rng.choice([2, 3]),)
    before = []
    for i in range(rng.choice([1, 1, 2])):
        ctx = contextlib.ExitStack()
        with ctx:
            for s in scope:
                ctx.enter_context(gpkit.NamedVariables(s))
            for v in vec:
                ctx.enter_context(gpkit.Vectorize(v))
            above = tuple(gpkit.NamedVariables.lineage)
            try:
                m = mod.Thing(n, scale)
            except Exception as e:
                raise Violation("refused", "%s: %s while making\n%s"
                                % (type(e).__name__, e, src))
        check_instance(mod, m, decls, m.lineage, vec, rec, "\n".join(lines))
        rec.require(tuple(m.lineage)[-1][0] == "Thing" and tuple(m.lineage)[:-1] == above,
                    "lineage", lambda: "model has lineage %s" % (m.lineage,))
        mine = {v.key for d in decls for v in np.ravel(getattr(m, d.name))}
        for other in before:
            rec.require(not other & mine, "shared",
                        "two instances share variables")
        before.append(mine)
    if not decls:
        rec.ev("nothing-declared")
    rec.sig("\n".join(lines))
    rec.sample("\n".join(lines))


def do_malformed(rng, rec):
    n, scale = 2, 1.5
    lines, decls, used = gen_doc(rng, scale, n)
    where = [i for i, l in enumerate(lines)
             if any(l.split()[:1] == [d.name] and "[" in l for d in decls)
             and i >= 2 and l not in PROSE]
    if not where:
        raise Skip("no lines declare anything")
    i = rng.choice(where)
    d = [d for d in decls if lines[i].split()[0] == d.name][0]
    how = rng.choice(["brackets", "open", "close", "fields", "name", "empty"])
    name = d.name
    if how == "brackets":
        lines[i] = "%s  a thing without units" % name
    elif how == "open":
        lines[i] = "%s   m] with half a bracket" % name
    elif how == "close":
        lines[i] = "%s   [m with half a bracket" % name
    elif how == "fields":
        lines[i] = "%s %s [m] label" % (name, rng.choice(["1 2", "1 + 2", "= 3", "is 1 2 3"]))
    elif how == "name":
        lines[i] = "%s [m] label" % rng.choice(["", "3x", "x-y", "x{max}", "lambda", "a,b c"])
    else:
        lines[i] = "  [m] label"
    if safe(lines[:i], decls) != safe(lines, decls) - safe(lines[i+1:], decls):
        raise Skip("text makes headings")
    src = make_source(rng, lines, decls, "class")
    try:
        mod = load(src)
        m = mod.Thing(n, scale)
    except Exception as e:
        rec.ev("refused-malformed")
        rec.sig(how, type(e).__name__, lines[i])
        return
    raise Violation("accepted-malformed", "line %r (%s) was accepted and made %s:\n%s"
                    % (lines[i], how, sorted(str(k) for k in m.vks), "\n".join(lines)))


def do_text(rng, rec):
    "text that declares nothing creates nothing"
    lines = [rng.choice(PROSE) for _ in range(rng.randint(1, 8))]
    for i in range(1, len(lines)):
        if rng.random() < .3:
            lines[i] = ""
    if safe(lines, []):
        raise Skip("text makes headings")
    src = make_source(rng, lines, [], rng.choice(["class", "module"]))
    try:
        m = load(src).Thing(2, 1)
    except Exception as e:
        raise Violation("text-refused", "%s: %s from\n%s" % (type(e).__name__, e, src))
    check_instance(None, m, [], m.lineage, (), rec, "\n".join(lines))
    rec.ev("nothing-declared")
    rec.sig("\n".join(lines))


# ---- bounds

class Prog:
    "variables, constants and constraints over elements (name, idx)"


def gen_prog(rng):
    p = Prog()
    p.shapes = {}
    for name in rng.sample("uvwxyz", rng.randint(2, 5)):
        p.shapes[name] = rng.choice([None, None, None, 2, 3])
    p.elements = [(n, i) for n, s in p.shapes.items()
                  for i in ([None] if s is None else range(s))]
    p.consts = {}
    for name, s in p.shapes.items():
        if rng.random() < .25:
            how = rng.choice(["decl", "decl", "return", "sweep"])
            if s and how == "return" and rng.random() < .5:
                how = "partial"
            p.consts[name] = how
    if len(p.consts) == len(p.shapes):
        p.consts.popitem()
    p.partial = {name: rng.randrange(p.shapes[name]) for name, how in p.consts.items()
                 if how == "partial"}
    # a way of naming pieces that may be stated
    p.cons = []
    exps = [1, 1, 1, 2, -1, -1, .5, -2, -.5]

    def mono(k):
        els = rng.sample(p.elements, min(k, len(p.elements)))
        return {e: rng.choice(exps) for e in els}
    used = []
    for _ in range(rng.randint(1, 7)):
        kind = rng.choice(["posy", "posy", "posy", "eq", "eq", "sig", "sigeq"])
        if kind == "eq":
            left, right = mono(rng.choice([1, 2, 2, 3])), mono(rng.choice([0, 0, 1, 2]))
            net = {k: left.get(k, 0) - right.get(k, 0) for k in {**left, **right}}
            if not any(net.values()):
                continue
            p.cons.append(("eq", [(round(rng.uniform(.1, 3), 2), left)],
                           [(round(rng.uniform(.1, 3), 2), right)]))
        elif kind == "posy":
            terms = [(round(rng.uniform(.05, .3), 2), mono(rng.choice([1, 1, 2, 3])))
                     for _ in range(rng.choice([1, 1, 2, 3]))]
            terms = [t for i, t in enumerate(terms)]
            p.cons.append(("le", terms, [(1, mono(rng.choice([0, 0, 1, 2])))]))
        else:
            terms = [(round(rng.uniform(.05, .3), 2), mono(rng.choice([1, 1, 2])))
                     for _ in range(rng.choice([1, 2]))]
            right = [(round(rng.uniform(1, 2), 2), mono(rng.choice([0, 1, 1, 2])))
                     for _ in range(2)]
            p.cons.append((kind, terms, right))
    return p


def merged(terms):
    out = {}
    for c, exp in terms:
        key = frozenset((k, x) for k, x in exp.items() if x)
        out[key] = out.get(key, 0) + c
    return [(c, dict(k)) for k, c in out.items()]


def reference(p):
    "-> (bounded, equalities as exponent dicts)"
    bounded, eqs = set(), []
    for kind, left, right in p.cons:
        left, right = merged(left), merged(right)
        if kind == "eq":
            net = {k: left[0][1].get(k, 0) - right[0][1].get(k, 0)
                   for k in {**left[0][1], **right[0][1]}}
            eqs.append({k: x for k, x in net.items() if x})
            continue
        if kind in ("sig", "sigeq"):   # terms on both sides cancel
            both = {frozenset(e.items()): -c for c, e in right}
            for c, e in left:
                key = frozenset(e.items())
                both[key] = both.get(key, 0) + c
            if any(abs(c) < 1e-9 for c in both.values()):
                raise Skip("terms cancel")
            left = [(c, dict(k)) for k, c in both.items() if c > 0]
            right = [(-c, dict(k)) for k, c in both.items() if c < 0]
            if kind == "sigeq" and not (left and right):
                raise Skip("holds nowhere")
            if not left:
                continue    # holds everywhere
            if not right:
                raise Skip("holds nowhere")
        if kind == "sigeq":    # as an equality of monomials, where all variables are 1
            net = {}
            for side, sign in ((left, 1), (right, -1)):
                total = sum(c for c, _ in side)
                for c, e in side:
                    for k, x in e.items():
                        net[k] = net.get(k, 0) + sign*x*c/total
            if any(abs(x) < 1e-6 for x in net.values()):
                raise Skip("exponents cancel")
            eqs.append(net)
            continue
        total = sum(c for c, _ in right)
        m = {}
        for c, e in right:
            for k, x in e.items():
                m[k] = m.get(k, 0) + x*c/total
        if kind == "sig" and any(abs(x) < 1e-6 for x in m.values()):
            raise Skip("exponents cancel")
        for c, e in left:
            for k in {**e, **m}:
                x = e.get(k, 0) - m.get(k, 0)
                if abs(x) < 1e-9:
                    if x and kind == "sig":
                        raise Skip("exponents cancel")
                    continue
                bounded.add((k, "upper" if x > 0 else "lower"))
    for name, how in p.consts.items():
        for el in p.elements:
            if el[0] == name and p.partial.get(name, el[1]) == el[1]:
                bounded.update([(el, "upper"), (el, "lower")])
    return bounded, eqs


def closure(bounded, eqs):
    "all bounds implied"
    bounded = set(bounded)
    flip = {"upper": "lower", "lower": "upper"}
    while True:
        new = set()
        for exps in eqs:
            for k, x in exps.items():
                for d in ("upper", "lower"):
                    if (k, d) in bounded:
                        continue
                    if all((o, flip[d] if y*x > 0 else d) in bounded
                           for o, y in exps.items() if o != k):
                        new.add((k, d))
        if not new:
            return bounded
        bounded |= new


def layout(rng, items):
    "items of one direction as lines"
    items = list(items)
    rng.shuffle(items)
    style = rng.choice(["line", "line", "lines", "wrapped"])
    if style == "line" or len(items) < 2:
        return [(", " if rng.random() < .8 else ",  ").join(items)]
    if style == "lines":
        return items
    cut = rng.randint(1, len(items)-1)
    return [", ".join(items[:cut]), ", ".join(items[cut:])]


def do_bounds(rng, rec):
    import gpkit
    from gpkit.constraints.tight import Tight
    from gpkit.exceptions import PrimalInfeasible
    p = gen_prog(rng)
    if not p.cons:
        raise Skip("no constraints")
    direct, eqs = reference(p)
    b0 = closure(direct, eqs)
    allb = {(e, d) for e in p.elements for d in ("upper", "lower")}
    unbounded = allb - b0
    # what to state: names of attributes covering sets of elements
    insub = {name for name in p.shapes if rng.random() < .25}
    atoms = {}      # text: elements
    for name, s in p.shapes.items():
        pre = "sub." if name in insub else ""
        if s is None:
            atoms[pre + name] = [(name, None)]
        else:
            atoms[pre + name] = [(name, i) for i in range(s)]
            for i in range(s):
                atoms["%s%s%i" % (pre, name, i)] = [(name, i)]
            atoms["%s%stail" % (pre, name)] = [(name, i) for i in range(1, s)]
    plan = rng.choice(["exact", "exact", "random", "random", "excess", "lacking", "minimal"])
    stated = {"upper": [], "lower": []}

    def covers(lists):
        return {(e, d) for d, names in lists.items() for a in names for e in atoms[a]}

    order = sorted(unbounded, key=str)
    rng.shuffle(order)
    for e, d in order:
        have = covers(stated)
        if (e, d) in have:
            continue
        if plan == "minimal" and (e, d) in closure(b0 | have, eqs):
            continue
        if plan == "random" and rng.random() < .5:
            continue
        fits = [a for a, els in atoms.items() if e in els
                and all((x, d) in unbounded for x in els)]
        stated[d].append(rng.choice(fits))
    if plan == "excess":
        stated[rng.choice(["upper", "lower"])].append(rng.choice(sorted(atoms)))
    if plan == "lacking":
        ds = [d for d in stated if stated[d]]
        if ds:
            d = rng.choice(ds)
            stated[d].pop(rng.randrange(len(stated[d])))
    for d in stated:
        stated[d] = list(dict.fromkeys(stated[d]))
    have = covers(stated)
    mode = rng.choice(["", "", "", "", "", "", "SKIP", "silent"])
    conditions = {"flag": True, "off": False, "count": 3, "empty": []}
    doc = ["A model.", ""]
    blocks = []
    for d in ("upper", "lower"):
        if not stated[d] and rng.random() < .8:
            continue
        items = []
        for a in stated[d]:
            if rng.random() < .15:
                cond = rng.choice(["flag", "count", "not off", "not empty"])
                items.append("%s%s(if%s%s)" % (a, rng.choice([" ", "   "]),
                                              rng.choice([" ", " ", "  "]), cond))
            else:
                items.append(a)
        if rng.random() < .2:   # conditions that do not hold state nothing
            items.append("%s (if %s)" % (rng.choice(sorted(atoms) + ["nonexistent"]),
                                         rng.choice(["off", "empty", "not flag", "not count"])))
        blocks.append(["%s Unbounded" % d.title(), "-"*15] + layout(rng, items))
    rng.shuffle(blocks)
    if rng.random() < .3:
        blocks.insert(rng.randrange(len(blocks)+1), ["Some further text, about x."])
    if not any("Unbounded" in b[0] for b in blocks):
        blocks.append(["Bounded by nothing else."])
    if mode == "silent":
        blocks = []
    if mode == "SKIP":
        blocks.append(["SKIP VERIFICATION"])
    for b in blocks:
        doc += b + [rng.choice(["", "", "    ", "  "])]
    if rng.random() < .5 and doc:
        doc.pop()
    ind = rng.choice(["", "    "])
    text = "\n".join([doc[0]] + [ind + l if l.strip() else l for l in doc[1:]])
    text += rng.choice(["\n", "\n    ", "\n\n", ""])
    nested = rng.choice(["flat", "nest", "dict", "tight", "single"])
    sweepvals = [1, 2]

    def setup(self):
        objs = {}

        def declare(owner, names):
            for name in names:
                s, how = p.shapes[name], p.consts.get(name)
                args = ()
                if how == "decl":
                    args = (2.0 if s is None else [2.0]*s,)
                elif how == "sweep" and s is None:
                    args = (("sweep", sweepvals),)
                elif how == "sweep":
                    args = ([2.0]*s,)
                if s is None:
                    v = gpkit.Variable(name, *args)
                else:
                    v = gpkit.VectorVariable(s, name, *args)
                objs[name] = v
                setattr(owner, name, v)
                if s is not None:
                    for i in range(s):
                        setattr(owner, "%s%i" % (name, i), v[i])
                    setattr(owner, name + "tail", v[1:])
        subcons = []
        if insub:
            class Sub(gpkit.Model):
                "a submodel"
                def setup(self):
                    declare(self, sorted(insub))
                    return subcons
            self.sub = Sub()
        declare(self, sorted(set(p.shapes) - insub))
        for k, v in conditions.items():
            setattr(self, k, v)
        self.objs = objs

        def var(e):
            return objs[e[0]] if e[1] is None else objs[e[0]][e[1]]

        def expr(terms):
            out = None
            for c, exps in terms:
                t = c
                for e, x in exps.items():
                    t = t*var(e)**x
                out = t if out is None else out + t
            return out
        cons = []
        for kind, left, right in p.cons:
            l, r = expr(left), expr(right)
            if kind == "eq":
                c = l == r
            elif kind == "sigeq":
                with gpkit.SignomialsEnabled():
                    c = gpkit.SignomialEquality(l, r)
            elif kind == "le":
                c = l <= r if len(str(left)) % 2 else r >= l
            else:
                with gpkit.SignomialsEnabled():
                    c = l <= r if len(str(left)) % 2 else r >= l
            cons.append(c)
        if nested == "nest" and len(cons) > 1:
            cons = [cons[0], [cons[1:]]]
        elif nested == "dict":
            cons = {"c%i" % i: c for i, c in enumerate(cons)}
        elif nested == "tight":
            cons = [gpkit.ConstraintSet([Tight(cons[:1])]), cons[1:]]
        if insub:
            cons = [self.sub, cons] if not isinstance(cons, dict) \
                else {"sub": self.sub, "rest": [cons]}
        subs = {}
        for name, how in p.consts.items():
            if how == "return":
                subs[objs[name]] = 2.0 if p.shapes[name] is None else [2.0]*p.shapes[name]
            elif how == "partial":
                subs[objs[name][p.partial[name]]] = 2.0
        return (cons, subs) if subs else cons

    cls = type("Stated", (gpkit.Model,), {"setup": setup, "__doc__": text})
    want = None
    verify = mode == ""
    missing = allb - closure(b0 | have, eqs)
    wrong = have & b0
    gpkit.NamedVariables.reset_modelnumbers()
    err = None
    try:
        m = cls()
    except PrimalInfeasible as e:
        raise Skip("infeasible at construction")
    except ValueError as e:
        err = str(e)
        if "while verifying" not in err:
            raise Violation("other-error", "%s; constraints %s; doc\n%s" % (e, p.cons, text))
    except AttributeError as e:
        raise Violation("attribute", "%s; doc\n%r" % (e, text))
    what = lambda: "constraints %s\nconstants %s\nstated %s\ndoc %r" % (p.cons, p.consts,
                                                                      stated, text)
    if not verify:
        rec.require(err is None, "verified-anyway", lambda: "%s\n%s" % (err, what()))
        rec.ev("skipped-verification")
        return
    if direct != b0 or closure(b0 | have, eqs) != b0 | have:
        rec.ev("closure-needed")
    if wrong:
        rec.require(err is not None, "accepted-bounded",
                    lambda: "accepted although %s are bounded: %s" % (sorted(wrong, key=str),
                                                                     what()))
        for d in ("upper", "lower"):
            bad = [e for e, x in wrong if x == d]
            said = [l for l in err.split("\n") if "expected %s-unbounded" % d in l]
            rec.require(bool(bad) == bool(said), "which-bounded",
                        lambda: "%s; wrong are %s" % (err, wrong))
            for e in bad:
                rec.require(show(e) in names_in(said[0].split(" w")[0]), "which-bounded",
                            lambda: "%s; wrong are %s: %s" % (err, wrong, what()))
            if bad:
                rec.require(len(names_in(said[0].split(" w")[0])) == len(bad), "which-bounded",
                            lambda: "%s; wrong are %s" % (err, wrong))
        rec.ev("refused-bounded")
    elif missing:
        rec.require(err is not None, "accepted-missing",
                    lambda: "accepted although %s are not bounded: %s"
                    % (sorted(missing, key=str), what()))
        for d in ("upper", "lower"):
            said = [l.split(" has no ")[0].strip() for l in err.split("\n")
                    if " has no %s bound" % d in l]
            said = [s.split(".")[-1] for s in said]
            want = sorted(show(e) for e, x in missing if x == d)
            rec.require(sorted(said) == want, "which-missing",
                        lambda: "%s are said to have no %s bound; %s have none: %s\n%s"
                        % (sorted(said), d, want, err, what()))
        check_advice(rec, err, closure(b0 | have, eqs), eqs, missing, what)
        rec.ev("missing-list")
        rec.ev("refused-missing")
    else:
        rec.require(err is None, "refused-correct", lambda: "%s\n%s" % (err, what()))
        rec.ev("accepted")
        inside(rng, rec, m, atoms, conditions, text, allb - b0, what)
    rec.sig(text, str(p.cons), str(p.consts))


def check_advice(rec, err, bounded, eqs, missing, what):
    "What a refusal says would bound a variable isn't bounded yet, and would bound it"
    elements = {show(k): k for exps in eqs for k in exps}
    for line in err.split("\n"):
        if " has no " not in line or " bound" not in line:
            continue
        name = line.split(" has no ")[0].strip().split(".")[-1]
        d = line.split(" has no ")[1].split(" bound")[0]
        sets = re.findall(r"\[(\(.*?'\))\](?: or |$)", line)
        rec.require(bool(sets) == (name in elements), "advice",
                    lambda: "%r, which is %sin an equality: %s"
                    % (line, "" if name in elements else "not ", what()))
        for text in sets:
            pairs = {(elements[v.split(".")[-1]], b)
                     for v, b in re.findall(r"\(([^()]*), '(upper|lower)'\)", text)}
            rec.require(pairs and not pairs & bounded, "advice", lambda: "%r says that %s would "
                        "give a bound, of which %s is had already: %s"
                        % (line, text, pairs & bounded, what()))
            rec.require((elements[name], d) in closure(bounded | pairs, eqs), "advice",
                        lambda: "%r: %s would not give it: %s" % (line, text, what()))
            rec.ev("advice_sets")
    for d in ("Upper", "Lower"):
        block = re.search(d + r" Unbounded\n-+\n(.*)\n", err.split("To fix this")[1])
        said = set(block.group(1).split(", ")) if block else set()
        rec.require(said == {e[0] for e, x in missing if x == d.lower()}, "advice",
                    lambda: "%s\nof which %s are missing: %s" % (err, sorted(map(str, missing)),
                                                              what()))


def inside(rng, rec, m, atoms, conditions, text, unbounded, what):
    "What a model's docstring states does not bound it in the models it is part of"
    import gpkit

    def setup(self):
        for k in {a.split(".")[0] for a in atoms} | set(conditions):
            setattr(self, k, getattr(m, k))
        return [m] if rng.random() < .5 else {"part": m}
    docs = {"restated": text, "unstated": "A parent.\n\nBounded by nothing else."}
    for kind in rng.sample(sorted(docs), 2):
        gpkit.NamedVariables.reset_modelnumbers()
        try:
            type("Parent", (gpkit.Model,), {"setup": setup, "__doc__": docs[kind]})()
            refused = None
        except ValueError as e:
            refused = str(e)
            if "while verifying" not in refused:
                raise
        ok = kind == "restated" or not unbounded
        rec.require((refused is None) == ok, "parent-" + kind, lambda: "a parent whose docstring"
                    " is %s: %s; %s unbounded; %s" % (kind, refused, sorted(unbounded, key=str),
                                                     what()))
        rec.ev("parents_" + kind)


def show(e):
    return e[0] if e[1] is None else "%s[%i]" % e


def names_in(text):
    return [t.strip().split(".")[-1] for t in text.split(",") if t.strip()]


def do_absent(rng, rec):
    "statements about what the model does not have are refused, foreign variables do not count"
    import gpkit
    n = rng.randint(1, 3)
    other = [gpkit.Variable("o%i" % i) for i in range(4)]
    lack = rng.random() < .5
    absent = rng.random() < .4
    extra = ["other%i" % i for i in range(rng.randint(0, 3))]
    if absent:
        extra.append("missing")
    d = rng.choice(["Upper", "Lower"])
    stated = ["x%i" % i for i in range(n - (1 if lack else 0))]
    doc = "D\n\n%s Unbounded\n-----\n%s\n\n" % (d, ", ".join(stated + extra))

    def setup(self):
        out = []
        for i in range(4):
            setattr(self, "other%i" % i, other[i])
        for i in range(n):
            x = gpkit.Variable("x%i" % i)
            setattr(self, "x%i" % i, x)
            out.append(x >= 1 if d == "Upper" else x <= 1)
        return out
    cls = type("Absent", (gpkit.Model,), {"setup": setup, "__doc__": doc})
    try:
        cls()
    except (AttributeError, ValueError):
        rec.require(absent or lack, "refused-correct", lambda: "refused %r" % doc)
        rec.ev("refused-absent")
    else:
        rec.require(not absent and not lack, "accepted-absent", lambda: "accepted %r, with %i x"
                    % (doc, n))
    rec.sig(doc, n)


KINDS = {"declare": (do_declare, 1500, 25000), "malformed": (do_malformed, 300, 5000),
         "text": (do_text, 120, 2000), "bounds": (do_bounds, 4000, 100000),
         "absent": (do_absent, 120, 1500)}
