"""C18: composition of models against a plain walk of the tree that was built."""
import numpy as np
from .. import alg, models
from ..core import Skip

PROP = "C18"
RULE = ("a case is a random tree of containers, models and set-ups holding uniquely marked "
        "constraints, or a random model vectorised and copied; non-trivial when it nests "
        "containers or repeats a model, identified by the tree's shape")
TECH = ("reference walk kept while building (leaves in order, element keys, constants by "
        "level); lookups against brute force over element names; vectorised programs term by "
        "term against scalar copies")
NOTE = "trees up to depth 5 and ~40 leaves; dimensions up to 2x3"
NEED = {"called": 40, "leaf": 1500, "override": 40, "lookup-found": 300, "lookup-ambiguous": 30,
        "lookup-missing": 60, "vectorized-row": 150, "vectorized-solved": 60, "bad-element": 60,
        "subs-element": 2000, "subs-solved": 400, "lasting-again": 200,
        "view-matrix": 40}
CHUNK = 10


class Node:
    "what was built: the object, its leaves in order, its keys and constants"

    def __init__(self, obj, leaves, keys, consts, shape):
        self.obj, self.leaves, self.keys = obj, leaves, keys
        self.consts, self.shape = consts, shape
        self.labels, self.kids = {}, []


AMBIGUOUS = float("inf")


class Builder:
    def __init__(self, rng, rec):
        self.rng, self.rec = rng, rec
        self.mark = 0
        self.ids = set()
        self.vars = []          # every Variable/array made: object
        self.top = self.make_vars(rng.randint(1, 3))
        self.subbed = {}        # element -> set of depths
        self.instances = []

    # ---- variables
    def make_vars(self, n):
        import gpkit
        rng, out = self.rng, []
        for _ in range(n):
            name = rng.choice(["x", "y", "z", "w"])
            unit = rng.choice(["", "", "m", "ft"])
            val = None
            ident_ = (name, unit, tuple(gpkit.NamedVariables.lineage))
            if ident_ in self.ids:
                continue     # it would be the same variable again
            self.ids.add(ident_)
            if rng.random() < .4:
                shape = rng.choice([None, None, (2,), (3,), (2, 2)])
            else:
                shape = None
            args = [name]
            if rng.random() < .35:
                if shape is None:
                    val = rng.choice([rng.uniform(1, 9), rng.randint(1, 9)])
                else:
                    val = np.array([rng.uniform(1, 9) for _ in range(int(np.prod(shape)))]
                                   ).reshape(shape)
                args.append(val if shape is None or rng.random() < .5 else val.tolist())
            if unit:
                args.append(unit)
            v = gpkit.Variable(*args) if shape is None else gpkit.VectorVariable(shape, *args)
            entry = (v, unit, val)
            self.vars.append(entry)
            out.append(entry)
        return out

    def creation(self, v, val):
        "element values given at creation, as plain numbers in the key's units"
        if val is None:
            return {}
        if not hasattr(v, "shape") or not v.shape:
            return {v.key: float(val)}
        return {v[i].key: float(val[i]) for i in np.ndindex(*v.shape)}

    # ---- leaves
    def scalar(self, entry):
        import gpkit
        v, unit, _ = entry
        if hasattr(v, "shape") and v.shape:
            v = v[self.rng.choice(list(np.ndindex(*v.shape)))]
        return v, unit

    def leaf(self, scope):
        import gpkit
        rng = self.rng
        self.mark += 1
        c = 1 + self.mark/1024.
        r = rng.random()
        a, b = rng.choice(scope), rng.choice(scope)
        arrays = [e for e in scope if getattr(e[0], "shape", None)]
        used = [a, b]
        if r < .2 and arrays:
            a = rng.choice(arrays)
            used = [a]
            con = a[0] >= c*unitof(a[1])
            kids = list(con)
            keys = set(k for k in keyset(a[0]))
        elif r < .35:
            x, u = self.scalar(a)
            con = x == c*unitof(u)
            kids, keys, used = [con], {x.key}, [a]
        else:
            (x, u), (y, w) = self.scalar(a), self.scalar(b)
            con = c*y/unitof(w) + c <= x/unitof(u)*8
            kids, keys = [con], {x.key, y.key}
        self.rec.ev("leaf", len(kids))
        consts = {}
        for v, _, val in used:
            consts.update({k: x for k, x in self.creation(v, val).items() if k in keys})
        return Node(con, kids, keys, consts, "c" if len(kids) == 1 else "C")

    # ---- containers
    def tree(self, depth, scope):
        rng = self.rng
        r = rng.random()
        if depth <= 0 or r < .25:
            return self.leaf(scope)
        kids = []
        if r < .75:
            n = rng.randint(1, 3)
            kids = [self.tree(depth-1, scope) for _ in range(n)]
        if r < .38:
            obj = [k.obj for k in kids]
            if rng.random() < .3:
                obj = tuple(obj)
            return self.merge(obj, kids, "L")
        if r < .5:
            labels = rng.sample(["first", "second part", "x", "third", "A", "y"], len(kids))
            node = self.merge({l: k.obj for l, k in zip(labels, kids)}, kids, "D")
            node.labels = dict(zip(labels, kids))
            return node
        if r < .55:
            arr = np.empty(len(kids), dtype=object)
            arr[:] = [k.obj for k in kids]
            return self.merge(arr, kids, "N")
        if r < .75:
            return self.cset(kids, depth)
        return self.submodel(depth, scope)

    def merge(self, obj, kids, shape):
        leaves, keys, consts = [], set(), {}
        for k in kids:
            leaves += k.leaves
            keys |= k.keys
            for key, val in k.consts.items():
                # two parts which set it differently: neither is the outermost level
                consts[key] = val if consts.get(key, val) == val else AMBIGUOUS
        node = Node(obj, leaves, keys, consts, shape + "".join(sorted(k.shape for k in kids)))
        node.kids = kids
        return node

    def overrides(self, node, depth):
        "random substitutions for keys of this node: (argument, {element: value})"
        import gpkit
        rng = self.rng
        arg, vals = {}, {}
        for v, unit, _ in self.vars:
            els = [k for k in keyset(v) if k in node.keys]
            if not els or rng.random() < .75:
                continue
            whole = len(els) == len(keyset(v)) and rng.random() < .6
            if not whole:
                els = rng.sample(els, rng.randint(1, len(els)))
            how = rng.random()
            new = {k: rng.uniform(1, 9) for k in els}
            f = 1.
            if unit and how < .3:
                u = rng.choice(["m", "ft", "inch"])
                f = alg.decl_factor(u)[0]/alg.decl_factor(unit)[0]
                q = lambda x: x*getattr(gpkit.ureg, u)
            else:
                q = lambda x: x
            if whole and getattr(v, "shape", None):
                raw = np.array([new[v[i].key] for i in np.ndindex(*v.shape)]).reshape(v.shape)
                arg[v if rng.random() < .5 else v.key] = q(raw)
            elif getattr(v, "shape", None):
                for i in np.ndindex(*v.shape):
                    if v[i].key in new:
                        arg[v[i] if rng.random() < .5 else v[i].key] = q(new[v[i].key])
            else:
                arg[v if rng.random() < .5 else v.key] = q(new[v.key])
            vals.update({k: x*f for k, x in new.items()})
        hit = set(vals) & set(node.consts)
        self.rec.ev("override", len(hit))
        node.consts.update(vals)
        return hashable(arg), vals

    def cset(self, kids, depth):
        import gpkit
        rng = self.rng
        cons = [k.obj for k in kids]
        if rng.random() < .3:
            labels = rng.sample(["one", "two", "x", "four"], len(kids))
            cons = dict(zip(labels, cons))
            labels = dict(zip(labels, kids))
        else:
            labels = {}
        node = self.merge(None, kids, "S")
        arg, _ = self.overrides(node, depth)
        if rng.random() < .5:
            node.obj = gpkit.ConstraintSet(cons, arg)
        else:
            costs = [k for v, _, _ in self.vars for k in keyset(v) if k in node.keys]
            cost = gpkit.nomials.Variable(rng.choice(costs))
            node.obj = gpkit.Model(cost, cons, arg) if rng.random() < .5 \
                else gpkit.Model(cost, cons, substitutions=arg)
            node.shape = "M" + node.shape[1:]
        node.labels = labels
        return node

    def submodel(self, depth, scope, name=None):
        import gpkit
        rng, builder = self.rng, self
        got = {}

        def setup(self):
            mine = builder.make_vars(rng.randint(0, 3))
            for v, _, _ in mine:
                setattr(self, "v%i" % len(got.setdefault("attrs", [])), v)
                got["attrs"].append(v)
            inner = mine + [e for e in scope if rng.random() < .6]
            inner = inner or scope
            n = rng.randint(1, 3)
            kids = [builder.tree(depth-2, inner) for _ in range(n)]
            node = builder.merge(None, kids, "T")
            # variables of the set-up belong to the model even if unused
            for v, _, val in mine:
                node.keys |= set(keyset(v))
                for k, x in builder.creation(v, val).items():
                    node.consts.setdefault(k, x)
            if rng.random() < .5:
                costs = sorted(node.keys, key=lambda k: k.eqstr)
                self.cost = gpkit.nomials.Variable(rng.choice(costs))
            got.update(node=node, mine=mine)
            arg, _ = builder.overrides(node, depth)
            cons = [k.obj for k in kids]
            if len(cons) == 1 and isinstance(cons[0], list) and rng.random() < .5:
                cons = cons[0]
            return (cons, arg) if arg or rng.random() < .3 else cons
        name = name or rng.choice(["A", "B"])
        inst = type(name, (gpkit.Model,), {"setup": setup})()
        node = got["node"]
        node.obj = inst
        self.instances.append((inst, got["mine"], node))
        for i, v in enumerate(got.get("attrs", [])):
            self.rec.require(getattr(inst, "v%i" % i) is v, "attribute", "attribute lost")
        return node


def hashable(arg):
    "variables are hashable, arrays are not: use their keys"
    return {(k.key if getattr(k, "shape", None) else k): v for k, v in arg.items()}


def unitof(u):
    import gpkit
    return gpkit.units(u) if u else 1


def keyset(v):
    "element keys of a variable or array"
    if getattr(v, "shape", None):
        return [e.key for e in v.flat]
    return [v.key]


def build(rng, rec, need_model=True):
    import gpkit
    gpkit.NamedVariables.reset_modelnumbers()
    b = Builder(rng, rec)
    if not b.top:
        raise Skip("no variables")
    kids = [b.tree(rng.randint(2, 5), b.top) for _ in range(rng.randint(1, 4))]
    node = b.cset(kids, 9)
    return b, node


def composed(rng, rec):
    b, node = build(rng, rec)
    m = node.obj
    flat = list(m.flat())
    rec.require(len(flat) == len(node.leaves), "leaf-count", lambda: "%i leaves became %i"
                % (len(node.leaves), len(flat)))
    for i, (x, y) in enumerate(zip(flat, node.leaves)):
        rec.require(x is y, "leaf-order", lambda: "leaf %i is %s, should be %s" % (i, x, y))
    check_sets(rec, m, node, "top")
    for inst, mine, sub in b.instances:
        # values given when variables of other models were made may already be elsewhere
        own = {k for v, _, _ in mine for k in keyset(v)}
        check_sets(rec, inst, sub, "sub-model", own)
        rec.require([id(c) for c in inst.flat()] == [id(c) for c in sub.leaves],
                    "leaf-order-sub", "leaves of a sub-model differ")
    # the terms it hands on are its leaves' terms, once each and in order
    try:
        want = [h for c in node.leaves for h in c.as_hmapslt1({})]
    except Exception:  # pylint: disable=broad-except
        want = None
    if want is not None:
        got = list(m.as_hmapslt1({}))
        rec.require(len(got) == len(want) and all(dict(g) == dict(w) for g, w in zip(got, want)),
                    "terms", lambda: "%s\nshould be\n%s" % (got, want))
        rec.ev("terms-compared", len(got))
    # index and label lookups
    for i in range(len(node.kids)):
        rec.require(m[i] is node.kids[i].obj, "index", lambda: "m[%i]" % i)
    for label, kid in node.labels.items():
        rec.require(m[label] is kid.obj, "label", lambda: "m[%r] is %r" % (label, m[label]))
        rec.ev("label")
    # distinct instances
    seen = {}
    for inst, mine, _ in b.instances:
        for v, _, _ in mine:
            for k in keyset(v):
                rec.require(k not in seen or seen[k] is inst, "instances-share",
                            lambda: "%s is a variable of two models" % k)
                seen[k] = inst
    if len(node.shape) > 3:
        rec.sig(node.shape, len(node.leaves), len(node.consts))
    rec.sample((node.shape, [str(c) for c in node.leaves[:3]]))
    names(rng, rec, m, node)


def check_sets(rec, m, node, what, only=None):
    got, want = set(m.vks), set(node.keys)
    rec.require(got == want, "variables-" + what, lambda: "more %s, fewer %s"
                % (got-want, want-got))
    rec.require({k for k in m.varkeys} >= want, "varkeys-" + what, "varkeys lacks keys")
    for k in want if only is None else only:
        has = k in m.substitutions
        should = k in node.consts
        rec.require(has == should, "constant-%s" % ("lost" if should else "invented"),
                    lambda: "%s of %s: in substitutions %s, should be %s"
                    % (k, what, has, should))
        if has and node.consts[k] != AMBIGUOUS:
            val = float(m.substitutions[k])
            rec.require(abs(val - node.consts[k]) <= 1e-12*abs(val), "constant-value",
                        lambda: "%s of %s is %r, should be %r" % (k, what, val, node.consts[k]))
            rec.ev("constant")
    # what a program would use
    if only is None:
        from gpkit.nomials import parse_subs
        constants, sweep, linked = parse_subs(m.varkeys, m.substitutions)
        rec.require(set(constants) == set(node.consts) and not sweep and not linked,
                    "parsed", lambda: "%s should be %s" % (constants, node.consts))
        for k, v in node.consts.items():
            rec.require(v == AMBIGUOUS or abs(float(constants[k]) - v) <= 1e-12*v, "parsed-value",
                        lambda: "%s: %s should be %s" % (k, constants[k], v))


# ---- lookups

def elnames(k):
    "the names an element key answers to"
    lin = ".".join(n for n, _ in (k.lineage or ()))
    full = (lin + "." if lin else "") + k.name
    out = {k.name, full}
    if k.idx:
        out.add(full + "[%s]" % ",".join(map(str, k.idx)))
    return out


def names(rng, rec, m, node):
    pool = {}
    for k in node.keys:
        for n in elnames(k):
            pool.setdefault(n, set()).add(k)
    labels = set(node.labels)
    for n, keys in sorted(pool.items()):
        got = m.variables_byname(n)
        rec.require({v.key for v in got} == keys and len(got) == len(keys), "byname",
                    lambda: "variables_byname(%r) gives %s, should be %s" % (n, got, keys))
        order = [(str(v.key.str_without(["units", "idx"])), v.key.idx or ()) for v in got]
        rec.require(order == sorted(order), "byname-order", lambda: "%r: %s" % (n, got))
        if n in labels:
            continue
        vecs = {k.veckey for k in keys}
        if len(keys) == 1 and None in vecs:
            v = m[n]
            rec.require(v.key == list(keys)[0], "getitem", lambda: "m[%r] is %r" % (n, v))
            rec.ev("lookup-found")
        elif len(vecs) == 1 and None not in vecs:
            v = m[n]
            vk = list(vecs)[0]
            rec.require(tuple(v.shape) == tuple(vk.shape), "getitem-shape",
                        lambda: "m[%r] is %r" % (n, v))
            have = {e.key for e in v.flat if hasattr(e, "key")}
            rec.require(have == keys and all(
                v[k.idx].key == k for k in keys), "getitem-vector",
                        lambda: "m[%r] is %r, should hold %s" % (n, v, keys))
            rec.ev("lookup-found")
        else:
            try:
                v = m[n]
            except ValueError:
                rec.ev("lookup-ambiguous")
            else:
                rec.fail("ambiguous", "m[%r] is %r though %s match" % (n, v, keys))
        # constants by name
        if len(keys) == 1 and None in vecs:
            k, = keys
            has = n in m.substitutions
            rec.require(has == (k in node.consts), "subs-by-name", lambda: "%r in substitutions"
                        " is %s" % (n, has))
    for n in ["nosuch", "A.nosuch", "B.x.y", "x[9]", "A"]:
        if n in pool or n in labels:
            continue
        try:
            v = m[n]
        except KeyError:
            rec.ev("lookup-missing")
        else:
            rec.fail("missing", "m[%r] is %r though nothing matches" % (n, v))
    for k in list(node.keys)[:6]:
        got = m.variables_byname(k)
        rec.require([v.key for v in got] == [k], "by-key", lambda: "%r: %r" % (k, got))
        if k.veckey is None:
            rec.require(m[k].key == k, "getitem-key", lambda: "m[%r] is %r" % (k, m[k]))
    # setting by name is setting the same element
    one = [n for n, ks in pool.items() if len(ks) == 1 and list(ks)[0].veckey is None]
    if one:
        n = rng.choice(sorted(one))
        k, = pool[n]
        m.substitutions[n] = 2.5
        rec.require(float(m.substitutions[k]) == 2.5, "set-by-name", lambda: "%r" % n)
        del m.substitutions[n]
        rec.require(k not in m.substitutions, "del-by-name", lambda: "%r" % n)


# ---- several instances of a class

def instances(rng, rec):
    import gpkit
    gpkit.NamedVariables.reset_modelnumbers()
    count = rng.randint(2, 4)
    deep = rng.random() < .5

    class Leaf(gpkit.Model):
        def setup(self, lo):
            x = self.x = gpkit.Variable("x", "m")
            k = self.k = gpkit.Variable("k", lo, "m")
            return [x >= k]

    class Mid(gpkit.Model):
        def setup(self, lo):
            self.one, self.two = Leaf(lo), Leaf(lo+1)
            x = self.x = gpkit.Variable("x", "m")
            return {"sum": x >= self.one.x + self.two.x, "parts": [self.one, self.two]}
    levels = rng.choice([0, 0, 1, 2, 3, 4, 6])

    class Wrap(gpkit.Model):
        def setup(self, n, lo):
            self.inner = Wrap(n-1, lo) if n > 1 else (Mid if deep else Leaf)(lo)
            x = self.x = gpkit.Variable("x", "m")
            return [x >= self.inner.x, self.inner]
    los = [rng.uniform(1, 9) for _ in range(count)]
    made = [Wrap(levels, lo) if levels else (Mid if deep else Leaf)(lo) for lo in los]
    tops = made
    for _ in range(levels):
        made = [m.inner for m in made]
    leaves = [l for m in made for l in ([m.one, m.two] if deep else [m])]
    vals = [v for lo in los for v in ([lo, lo+1] if deep else [lo])]
    keys = [k for m in tops for k in m.vks]
    rec.require(len(keys) == len(set(keys)) == len({str(k.eqstr) for k in keys}),
                "instances-collide", lambda: "%s" % sorted(map(str, keys)))
    strs = [k.str_without(["units"]) for k in keys]
    rec.require(len(set(strs)) == len(strs), "instances-same-name",
                lambda: "%s" % sorted(strs))
    total = gpkit.Variable("total", "m")
    order = list(tops)
    rng.shuffle(order)
    m = gpkit.Model(total, [total >= sum(p.x for p in tops), order])
    over = rng.choice(range(len(leaves))) if rng.random() < .6 else None
    if over is not None:
        vals[over] = rng.uniform(10, 20)
        m.substitutions[leaves[over].k] = vals[over]
    sol = m.solve(verbosity=0)
    want = sum(vals)
    rec.require(abs(float(sol["cost"])/want - 1) < 1e-4, "instances-cost",
                lambda: "cost %s, parts sum to %s" % (sol["cost"], want))
    for l, v in zip(leaves, vals):
        rec.require(abs(float(sol["variables"][l.k.key]) - v) < 1e-12*v, "instances-constant",
                    lambda: "%r is %s, should be %s" % (l.k, sol["variables"][l.k.key], v))
        rec.require(abs(float(sol["variables"][l.x.key])/v - 1) < 1e-3, "instances-value",
                    lambda: "%r is %s, should be %s" % (l.x, sol["variables"][l.x.key], v))
        rec.ev("instance")
    rec.sig("instances", deep, count, levels, over is not None)
    if deep:
        rec.require(made[0]["sum"] is list(made[0])[0], "label", "label lookup")
        rec.require(made[0]["parts"][0] is made[0].one, "label", "label lookup")


def arguments(rng, rec):
    "What a model is called with reaches its setup, in order, and what that returns counts"
    import gpkit
    n = rng.randint(0, 4)
    args = [rng.choice([rng.uniform(1, 5), rng.randint(1, 5), "word", [1, 2]])
            for _ in range(n)]
    kwargs = {k: rng.choice([1, "a", 2.5]) for k in ("p", "q") if rng.random() < .4}
    lo, hi = rng.uniform(1, 3), rng.uniform(4, 9)
    style = rng.choice(["cons", "pair", "pairkw", "declared"])
    seen = []

    class Called(gpkit.Model):
        def setup(self, *a, **kw):
            seen.append((a, kw))
            x = self.x = gpkit.Variable("x")
            k = self.k = gpkit.Variable("k", *([lo] if style != "pair" else []))
            self.spare = gpkit.Variable("spare", 3)
            self.cost = x
            cons = [x >= k, x >= .1*lo]
            if style == "pair":
                return cons, {k: lo}
            if style == "pairkw":
                return cons, {k: hi}
            return cons
    given = list(args)
    if any(arg is None for arg in args):
        raise Skip("none")
    m = Called(*given, **kwargs)
    rec.require(seen == [(tuple(args), kwargs)], "arguments", lambda: "called with %s %s, setup"
                " got %s" % (args, kwargs, seen))
    want = hi if style == "pairkw" else lo
    # variables made in setup, used or not, are the model's
    rec.require({"x", "k", "spare"} <= {vk.name for vk in m.unique_varkeys}
                and m.spare.key in m.varkeys, "setup-variables", lambda: "%s"
                % sorted(map(str, m.varkeys)))
    sol = m.solve(verbosity=0)
    rec.require(abs(float(sol["variables"][m.x])/want - 1) < 1e-3, "setup-values",
                lambda: "%s: %s instead of %s" % (style, sol["variables"], want))
    # and inside of another
    y = gpkit.Variable("y")
    top = gpkit.Model(y, [m, y >= 2*m.x])
    if rng.random() < .5:
        want = rng.uniform(10, 20)
        top.substitutions[m.k] = want
    sol = top.solve(verbosity=0)
    rec.require(abs(float(sol["cost"])/2/want - 1) < 1e-3, "setup-values",
                lambda: "%s inside: %s instead of %s" % (style, sol["cost"], 2*want))
    rec.require(abs(float(m.solve(verbosity=0)["cost"])/(hi if style == "pairkw" else lo) - 1)
                < 1e-3, "setup-values", "changed by being inside of another")
    rec.ev("called")
    rec.sig("arguments", args, sorted(kwargs), style, lo, hi)


def lasting(rng, rec):
    "variables made with constant=True have their value in every model they are in"
    import gpkit
    x = gpkit.Variable("x")
    made = []
    for n in "abc"[:rng.randint(1, 3)]:
        shape = rng.choice([None, None, 2, (2, 2)])
        val = (float("%.3g" % rng.uniform(1, 9)) if shape is None else
               np.array([float("%.3g" % rng.uniform(1, 9))
                         for _ in range(int(np.prod(shape)))]).reshape(shape))
        unit = rng.choice(["-", "-", "m", "hr"])
        v = gpkit.Variable(n, val, unit, constant=True) if shape is None else \
            gpkit.VectorVariable(shape, n, val, unit, constant=True)
        made.append((v, val, unit))
    what = ", ".join("%s = %s %s" % (v, val, u) for v, val, u in made)

    def need(v, val, unit):
        one = 1*gpkit.units(unit) if unit != "-" else 1
        if np.ndim(val):
            pick = [i for i in np.ndindex(*val.shape) if rng.random() < .8] or [(0,)*val.ndim]
            return [x >= v[i]/one for i in pick], max(val[i] for i in pick)
        return [x >= v/one], val
    for turn in range(rng.randint(2, 4)):
        cons, lows, over = [], [], {}
        for v, val, unit in made:
            if rng.random() < .75:
                if rng.random() < .25:       # another value, in this model only
                    new = val*2.5
                    over[v] = new
                    c, low = need(v, new, unit)
                else:
                    c, low = need(v, val, unit)
                cons += c
                lows.append(low)
        if not cons:
            continue
        if rng.random() < .3:
            cons = [gpkit.ConstraintSet(cons)]
        m = gpkit.Model(x, cons, over) if rng.random() < .5 else gpkit.Model(x, cons)
        for v, new in over.items():
            m.substitutions[v] = new
        for v, val, unit in made:
            want = over.get(v, val)
            for k in m.vks:
                if v.key in (k, k.veckey):
                    got = m.substitutions[k]
                    w = want[k.idx] if np.ndim(want) else want
                    rec.require(abs(float(got)/w - 1) < 1e-12, "lasting-constant", lambda:
                                "%s: %s is %s in model %i" % (what, k, got, turn))
                    rec.ev("lasting")
                    rec.ev("lasting-again", int(turn > 0))
        c = float(m.solve(verbosity=0)["cost"])
        rec.require(abs(c/max(lows) - 1) < 1e-5, "lasting-constant", lambda:
                    "%s: model %i has cost %s instead of %s" % (what, turn, c, max(lows)))
    rec.sig("lasting", what)


# ---- vectorised models

def scalar_class(rng):
    "a model class with constants, to be vectorised; set-up is deterministic"
    n = rng.randint(2, 3)
    exps = [[rng.choice([-1, .5, 1, 2]) for _ in range(n)] for _ in range(4)]
    coef = [rng.uniform(.5, 2) for _ in range(4)]
    nested = rng.random() < .4
    vecin = rng.choice([None, None, 2])
    matin = rng.random() < .3
    import gpkit

    class Inner(gpkit.Model):
        def setup(self):
            y = self.y = gpkit.Variable("y")
            g = self.g = gpkit.Variable("g", 1.7)
            return [y >= g, y <= 5]

    class S(gpkit.Model):
        def setup(self):
            xs = self.xs = [gpkit.Variable("x%i" % i) for i in range(n)]
            k = self.k = gpkit.Variable("k", 2.3)
            cons = [x >= .1 for x in xs] + [x <= 20*k for x in xs]

            def mono(j):
                out = coef[j]
                for x, e in zip(xs, exps[j]):
                    out = out*x**e
                return out
            cons.append(mono(0) + mono(1) <= 40*k)
            if nested:
                self.inner = Inner()
                cons += [self.inner, xs[0] >= self.inner.y/9]
            if vecin:
                v = self.v = gpkit.VectorVariable(vecin, "v")
                h = self.h = gpkit.VectorVariable(vecin, "h", [1.5, 2.5])
                cons.append([v >= h, v[0] + v[1] <= 9*k])
            if matin:
                q = self.q = gpkit.VectorVariable((2, 2), "q", [[1.5, 2.5], [3.5, .5]])
                cons.append(20*q*xs[0]**2 >= .01)
            self.objective = mono(2) + mono(3)
            if vecin:
                self.objective = self.objective*(v[0] + v[1])
            if nested:
                self.objective = self.objective + self.inner.y
            return cons
    return S


def strip(k, i, dims):
    "key of the scalar model that element k of copy i stands for, or None"
    if not k.idx:
        return None
    own = k.idx[:len(k.idx)-dims]
    if tuple(k.idx[len(k.idx)-dims:]) != tuple(i):
        return None
    return (k.name, tuple(n for n, _ in (k.lineage or ())), own or None)


def ident(k):
    return (k.name, tuple(n for n, _ in (k.lineage or ())), k.idx or None)


def terms(hmap, naming):
    out = {}
    for exp, c in hmap.items():
        key = frozenset((naming(v), x) for v, x in exp.items())
        out[key] = out.get(key, 0) + c
    return out


def vectorized(rng, rec):
    import gpkit
    gpkit.NamedVariables.reset_modelnumbers()
    S = scalar_class(rng)
    dims = rng.choice([(2,), (3,), (2, 3), (1,)])
    one = S()
    gpkit.NamedVariables.reset_modelnumbers()
    if len(dims) == 1:
        with gpkit.Vectorize(dims[0]):
            many = S()
    else:
        with gpkit.Vectorize(dims[1]):
            with gpkit.Vectorize(dims[0]):
                many = S()
    d = len(dims)
    copies = list(np.ndindex(*dims))
    # constants per copy
    consts = {}
    base = {k: float(v) for k, v in parse(one).items()}
    got = {k: float(v) for k, v in parse(many).items()}
    rec.require(len(got) == len(base)*len(copies), "vectorized-constants",
                lambda: "%s vs %s" % (got, base))
    for k, v in got.items():
        for i in copies:
            s = strip(k, i, d)
            if s is not None:
                consts[(i, s)] = v
    for k, v in base.items():
        for i in copies:
            rec.require(consts.get((i, ident(k))) == v, "vectorized-value", lambda:
                        "%s of copy %s is %s, should be %s" % (k, i, consts.get((i, ident(k))), v))
    # terms
    want = [terms(h, ident) for h in one.as_hmapslt1({})]
    have = {i: [] for i in copies}
    for h in many.as_hmapslt1({}):
        idx = {tuple(k.idx[len(k.idx)-d:]) for k in h.vks} if hasattr(h, "vks") else \
            {tuple(k.idx[len(k.idx)-d:]) for e in h for k in e}
        rec.require(len(idx) == 1, "vectorized-mixes", lambda: "constraint %s mixes copies" % h)
        i, = idx
        have[i].append(terms(h, lambda k: strip(k, i, d)))
    key = lambda t: sorted((sorted(map(repr, k)), v) for k, v in t.items())
    for i in copies:
        a, b = sorted(map(key, want)), sorted(map(key, have[i]))
        rec.require(a == b, "vectorized-terms", lambda: "copy %s: %s should be %s" % (i, b, a))
        rec.ev("vectorized-row")
    # the view of one copy
    view = many.as_view()
    for i in copies[:3]:
        v = view[i if rng.random() < .5 or d > 1 else i[0]]
        rec.require(v.k.key == many.k[i].key, "view", lambda: "view[%s].k is %r" % (i, v.k))
        if hasattr(many, "inner"):
            rec.require(v.inner.y.key == many.inner.y[i].key, "view", "view of a sub-model")
        if hasattr(many, "v"):
            rec.require([e.key for e in v.v] == [many.v[(j,)+i].key for j in range(2)], "view",
                        "view of a vector")
        if hasattr(many, "q"):
            rec.require({j: v.q[j].key for j in np.ndindex(2, 2)}
                        == {j: many.q[j+i].key for j in np.ndindex(2, 2)}, "view",
                        "view of a matrix")
            rec.ev("view-matrix")
        if d == 2:
            w = view[i[1]][i[0]]
            rec.require(w.k.key == many.k[i].key, "view-nested", lambda: "view[%s][%s].k is %r"
                        % (i[1], i[0], w.k))
        rec.ev("view")
    rec.sig("vectorized", dims, str(one.objective)[:80])
    if rng.random() < .5:
        return
    # solutions
    ks = np.array([rng.uniform(1.5, 4) for _ in copies]).reshape(dims)
    obj = many.objective
    cost = obj.prod() if hasattr(obj, "prod") else obj
    try:
        one.cost = one.objective
        scal = []
        for i in copies:
            one.substitutions[one.k] = float(ks[i])
            scal.append(float(one.solve(verbosity=0)["cost"]))
    except Exception as e:  # pylint: disable=broad-except
        raise Skip("scalar model not solvable: %s" % type(e).__name__)
    t = gpkit.VectorVariable(dims, "t")
    m = gpkit.Model(t.prod(), [many, t >= obj])
    m.substitutions[many.k.key] = ks
    try:
        sol = m.solve(verbosity=0)
    except gpkit.exceptions.UnknownInfeasible:
        raise Skip("solver made no progress")
    for j, i in enumerate(copies):
        got = float(np.asarray(sol["variables"][t.key])[i])
        rec.require(abs(np.log(got/scal[j])) < 1e-4, "vectorized-solution",
                    lambda: "copy %s costs %s, alone %s" % (i, got, scal[j]))
        rec.ev("vectorized-solved")


def parse(m):
    from gpkit.nomials import parse_subs
    return parse_subs(m.varkeys, m.substitutions)[0]


# ---- elements which are not constraints

def bad(rng, rec):
    import gpkit
    x, y = gpkit.Variable("x"), gpkit.Variable("y")
    z = gpkit.VectorVariable(2, "z")
    elements = {"False": False, "True": True, "number": 3, "npbool": np.bool_(False),
                "string": "x >= 1", "variable": x, "posynomial": x + y, "None": None,
                "equality": (x == y + 1), "array": z, "object": object()}
    name = rng.choice(sorted(elements))
    b = elements[name]
    where = [x >= y, y >= 1]
    where.insert(rng.randint(0, 2), b)
    depth = rng.randint(0, 3)
    cons = where
    for _ in range(depth):
        cons = rng.choice([lambda c: [c], lambda c: [x >= 2, c], lambda c: {"a": c},
                           lambda c: (c, y >= 2)])(cons)
    if isinstance(cons, tuple):
        cons = list(cons)
    how = rng.choice(["cset", "model", "setup"])
    rec.ev("bad-element")
    rec.sig(name, depth, how)
    try:
        if how == "cset":
            m = gpkit.ConstraintSet(cons)
        elif how == "model":
            m = gpkit.Model(x, cons)
        else:
            m = type("Bad", (gpkit.Model,), {"setup": lambda self: cons})()
    except Exception as e:  # pylint: disable=broad-except
        rec.ev("refused-" + type(e).__name__)
        return
    rec.fail("accepted-" + name, "%s accepted as a constraint at depth %i of a %s"
             % (name, depth, how))


# ---- values given inside Vectorize

def values(rng, rec):
    import gpkit
    shape = rng.choice([(), (), (2,), (3,), (2, 2), (2, 3)])
    dims = [rng.choice([1, 2, 3]) for _ in range(rng.randint(1, 2))]
    unit, given = rng.choice([("", ""), ("m", ""), ("m", "ft"), ("ft", "inch")])
    size = int(np.prod(shape)) if shape else 1
    base = np.array([rng.choice([rng.uniform(.1, 9), 1/3., 16777217., rng.randint(1, 9)])
                     for _ in range(size)]).reshape(shape)
    vec = ()
    import contextlib
    with contextlib.ExitStack() as stack:
        for n in dims:
            stack.enter_context(gpkit.Vectorize(n))
            vec = (n,) + vec
        full = shape + vec
        form = rng.choice(["plain", "full"]) if shape or vec else "plain"
        if form == "full":
            arr = np.array([rng.uniform(.1, 9) for _ in range(int(np.prod(full)))]).reshape(full)
            val, want = arr, arr
        else:
            want = np.broadcast_to(base.reshape(shape + (1,)*len(vec)), full)
            val = float(base) if not shape else base
            if shape and rng.random() < .5:
                val = base.tolist()
        f = 1.
        if given and not isinstance(val, list):
            f = alg.decl_factor(given)[0]/alg.decl_factor(unit)[0]
            val = val*getattr(gpkit.ureg, given)
        args = ["x", val] + ([unit] if unit else [])
        x = gpkit.VectorVariable(shape, *args) if shape else gpkit.Variable(*args)
    rec.require(tuple(x.shape) == full, "value-shape", lambda: "%s, should be %s"
                % (x.shape, full))
    m = gpkit.Model(x.prod(), [x >= x**2/gpkit.Variable("n", 1, unit or "-")])
    for i in np.ndindex(*full):
        got = float(m.substitutions[x[i].key])
        rec.require(abs(got - want[i]*f) <= 1e-12*abs(got), "value", lambda: "x%s given %r in"
                    " Vectorize%s is %r, should be %r" % (i, val, vec, got, want[i]*f))
        rec.ev("value-element")
    rec.sig("values", shape, vec, form, unit, given)


def subs(rng, rec):
    "constants set on a model in every documented form, mirrored element by element"
    import gpkit
    wunit = rng.choice(["", "m", "ft"])
    shape = rng.choice([(2,), (3,), (2, 2), (2, 3), (3, 2)])
    first = gpkit.VectorVariable(shape, "w", *([wunit] if wunit else []))
    others = {"x": gpkit.Variable("x", *([wunit] if wunit else [])),
              "v": gpkit.VectorVariable(rng.choice([1, 2, 4]), "v")}
    cost = gpkit.Variable("cost")
    vs = dict(others, w=first)
    factor = {n: alg.decl_factor(wunit)[0] if n in "xw" and wunit else 1. for n in vs}
    cons = []
    for n, v in vs.items():
        one = getattr(gpkit.units, wunit) if n in "xw" and wunit else 1
        cons += [cost >= v.prod()/one**v.size if getattr(v, "shape", ()) else cost >= v/one,
                 v >= 1e-3*one]
    if rng.random() < .4:
        cons = {"a": cons[:2], "b": gpkit.ConstraintSet(cons[2:])}
    m = gpkit.Model(cost, cons)
    mirror, text = {}, []

    def value(n, size):
        "(value given, values in the variable's units)"
        num = [round(rng.uniform(.1, 9), 3) for _ in range(size)]
        unit = rng.choice(["", "ft", "inch"]) if n in "xw" and wunit else ""
        f = alg.decl_factor(unit)[0]/factor[n] if unit else 1.
        return num, unit, f

    for _ in range(rng.randint(2, 8)):
        n = rng.choice(["w", "w", "w", "v", "x"])
        v = vs[n]
        shp = tuple(getattr(v, "shape", ()))
        if not shp:
            forms, target, idxs = [v, v.key, "x"], None, [()]
        else:
            how = rng.choice(["whole", "element", "slice", "slice"])
            if how == "whole":
                forms, idxs, target = [v, v.key, n], list(np.ndindex(*shp)), shp
            elif how == "element":
                i = rng.choice(list(np.ndindex(*shp)))
                forms, idxs, target = [v[i], v[i].key], [i], None
            else:
                sl = tuple(rng.choice([slice(None), slice(0, 1), slice(1, None), slice(None, None, -1),
                                       rng.randrange(d)]) for d in shp)
                if all(isinstance(s, int) for s in sl):
                    sl = sl[:-1] + (slice(0, 1),)
                pos = np.arange(v.size).reshape(shp)[sl]
                if not pos.size:
                    continue
                forms, target = [v[sl]], pos.shape
                flat = list(np.ndindex(*shp))
                idxs = [flat[k] for k in pos.flatten()]
        key = rng.choice(forms)
        if target is None or rng.random() < .35:  # one number for all
            num, unit, f = value(n, 1)
            given = num[0]*getattr(gpkit.ureg, unit) if unit else num[0]
            want = [num[0]*f]*len(idxs)
        else:
            num, unit, f = value(n, len(idxs))
            arr = np.array(num).reshape(target)
            if unit:
                if rng.random() < .5 or len(target) > 1:
                    given = arr*getattr(gpkit.ureg, unit)
                else:
                    given = [a*getattr(gpkit.ureg, unit) for a in num]
            else:
                given = arr.tolist() if rng.random() < .4 and len(target) == 1 else arr
            want = [a*f for a in num]
        text.append("%s (%s) = %s" % (getattr(key, "str_without", lambda *a: key)(["units"]),
                                      type(key).__name__, given))
        before = arr_copy = None
        if isinstance(given, np.ndarray):
            before, arr_copy = given, given.copy()
        if rng.random() < .5:
            m.substitutions[key] = given
        else:
            m.substitutions.update({key: given})
        if before is not None:
            rec.require(np.array_equal(before, arr_copy), "subs-argument", lambda: "%s: the array"
                        " given was changed" % text)
        for i, q in zip(idxs, want):
            mirror[(n, i)] = q
        for nn, vv in vs.items():
            for i in np.ndindex(*getattr(vv, "shape", ())):
                el = vv[i] if i else vv
                k = rng.choice([el, el.key])
                q = mirror.get((nn, i))
                rec.require((k in m.substitutions) == (q is not None), "subs-presence",
                            lambda: "%s: %s in substitutions is %s" % (text, el, q is None))
                if q is None:
                    continue
                got = m.substitutions[k]
                got = float(getattr(got, "magnitude", got))
                rec.require(abs(got-q) <= 1e-12*abs(q), "subs-value", lambda: "%s: %s is %r,"
                            " should be %r" % (text, el, got, q))
                rec.ev("subs-element")
    try:
        sol = m.solve(verbosity=0)
    except Exception as e:  # pylint: disable=broad-except
        if type(e).__name__ not in ("UnknownInfeasible", "PrimalInfeasible", "DualInfeasible"):
            raise
        return
    for (n, i), q in mirror.items():
        el = vs[n][i] if i else vs[n]
        got = float(np.asarray(sol["variables"][el.key]))
        rec.require(abs(got-q) <= 1e-12*abs(q), "subs-solved", lambda: "%s: %s is %r in the"
                    " solution, should be %r" % (text, el, got, q))
        rec.ev("subs-solved")
    rec.sig("subs", *text)


KINDS = {"composed": (composed, 1500, 20000), "instances": (instances, 60, 800),
         "vectorized": (vectorized, 200, 4000), "bad": (bad, 300, 3000),
         "values": (values, 300, 5000),
         "subs": (subs, 400, 8000), "arguments": (arguments, 60, 900),
         "lasting": (lasting, 120, 2500)}
