"""C34: sensitivity flow diagrams conserve and attribute sensitivity correctly.

Random nested models are planned in the harness (names, labels, arrays, constants, terms of
every constraint); the links and nodes of the widget returned by the real Sankey class are
rebuilt into a tree and compared with the tree the plan and the solution call for.
"""
import base64
import math
import os
import numpy as np
from ..core import Violation, Skip

PROP = "C34"
RULE = ("a case is a random nested model (sub-models, labels, lists, arrays, constants, "
        "signomials), its solution and a series of diagrams and clicks; non-trivial when a "
        "diagram was compared, identified by the model and the diagrams asked for")
TECH = "offline checker rebuilding the flow tree from the widget's links and nodes"
NOTE = ("diagrams of unswept solutions and scalar variables; how links are chosen for hiding"
        " when there are too many is judged only by what is documented")
CPU_LIMIT = 60
UNITS = [None, None, "m", "ft", "kg", "s"]


class Term:
    "coefficient and {leaf: exponent}"
    def __init__(self, c, ex):
        self.c, self.ex = c, ex

    def build(self, unit):
        import gpkit
        t = self.c*(gpkit.units(unit) if unit else 1)
        for leaf, e in self.ex.items():
            v = leaf.obj
            t = t*(v/gpkit.units(leaf.unit) if leaf.unit else v)**e
        return t

    def value(self, vals):
        return self.c*math.prod(vals[leaf]**e for leaf, e in self.ex.items())


class Leaf:
    "a scalar variable"
    def __init__(self, name, unit, obj, value=None):
        self.name, self.unit, self.obj, self.value = name, unit, obj, value


class Con:
    "a scalar constraint small <= large of posynomials"
    def __init__(self, con, small, large, eq=False):
        self.con, self.small, self.large, self.eq = con, small, large, eq

    def has(self, leaf):
        return any(leaf in t.ex for t in self.small + self.large)

    def gradient(self, leaf, vals):
        "d log(small/large)/d log leaf"
        out = 0
        for terms, sign in ((self.small, 1), (self.large, -1)):
            ws = [t.value(vals) for t in terms]
            out += sign*sum(w*t.ex.get(leaf, 0) for w, t in zip(ws, terms))/sum(ws)
        return out

    def label(self):
        s = self.con.str_without(["lineage", "units"])
        return s if len(s) <= 30 else s[:30] + " ..."


class Arr:
    def __init__(self, con, cons):
        self.con, self.cons = con, cons

    def label(self):
        s = self.con.str_without(["lineage", "units"]).replace("[:]", "")
        return s if len(s) <= 30 else s[:30] + " ..."


class Node:
    "a model: its constants and items"
    def __init__(self, name):
        self.name, self.consts, self.items, self.free = name, [], [], []
        self.obj = None

    def leaves(self):
        for it in self.items:
            yield from walk(it)


def walk(it):
    if isinstance(it, Con):
        yield it
    elif isinstance(it, Arr):
        yield from it.cons
    elif isinstance(it, Node):
        yield from it.leaves()
    elif isinstance(it, dict):
        for v in it.values():
            yield from walk(v)
    else:
        for v in it:
            yield from walk(v)


def models_in(it):
    if isinstance(it, Node):
        yield it
        for i in it.items:
            yield from models_in(i)
    elif isinstance(it, dict):
        for v in it.values():
            yield from models_in(v)
    elif isinstance(it, list):
        for v in it:
            yield from models_in(v)


NAMES = ["Wing", "Plane", "Fuel", "Tail"]
VARS = ["S", "W", "b", "tau", "x", "y"]


class Gen:
    def __init__(self, rng, sp):
        self.rng, self.sp, self.count, self.spused = rng, sp, 0, False
        self.exported = []

    def terms(self, pool, n):
        rng = self.rng
        out = []
        for _ in range(n):
            ex = {}
            for leaf in rng.sample(pool, rng.randint(0, min(3, len(pool)))):
                ex[leaf] = rng.choice([1, 1, 2, .5, -1 if leaf.value else .5])
            out.append(Term(round(math.exp(rng.uniform(-1.5, 1)), 3), ex))
        return out

    def contents(self, node, depth):
        "declares variables and constraints; returns what setup returns"
        import gpkit
        rng = self.rng
        names = rng.sample(VARS, rng.randint(1, 3))
        pool = []
        for i in range(rng.randint(0, 3)):
            unit = rng.choice(UNITS)
            name = "c%s" % "abc"[i]
            if rng.random() < .35:
                n = rng.randint(1, 3)
                vals = [round(math.exp(rng.uniform(-1, 1)), 3) for _ in range(n)]
                if rng.random() < .6:
                    vals = [vals[0]]*n
                v = gpkit.VectorVariable(n, name, vals, unit or "-", "a vector")
                ls = [Leaf("%s[%i]" % (name, j), unit, v[j], vals[j]) for j in range(n)]
                node.consts.append(("vec", name, ls, v))
                pool += ls
            else:
                val = round(math.exp(rng.uniform(-1, 1)), 3)
                v = gpkit.Variable(name, val, unit or "-", "a constant")
                leaf = Leaf(name, unit, v, val)
                node.consts.append(("scalar", name, [leaf], v))
                pool.append(leaf)
        subs = []
        if depth < 3:
            for _ in range(rng.choice([0, 1, 1, 2]) if depth else rng.randint(1, 3)):
                if self.count < 6:
                    subs.append(self.model(depth+1))
        for s in subs:
            pool += s.free
        plans = []
        for name in names:
            unit = rng.choice(UNITS)
            if rng.random() < .25:
                n = rng.randint(1, 3)
                v = gpkit.VectorVariable(n, name, unit or "-", "free vector")
                terms = self.terms(pool, rng.randint(1, 2))
                rhs = sum((t.build(unit) for t in terms[1:]), terms[0].build(unit))
                cols = [Leaf("%s[%i]" % (name, j), unit, v[j]) for j in range(n)]
                vec = [c for c in node.consts if c[0] == "vec" and len(c[2]) == n]
                if vec and rng.random() < .7:
                    _, _, ls, cv = rng.choice(vec)
                    k = round(rng.uniform(.5, 2), 2)
                    u = (gpkit.units(unit) if unit else 1)
                    con = v >= k*u*(cv/gpkit.units(ls[0].unit) if ls[0].unit else cv)
                    small = [[Term(k, {l: 1})] for l in ls]
                else:
                    con = v >= rhs
                    small = [terms]*n
                els = list(con.constraints.flat) if hasattr(con.constraints, "flat") else \
                    list(con.constraints)
                plans.append(Arr(con, [Con(e, s, [Term(1, {l: 1})])
                                       for e, s, l in zip(els, small, cols)]))
                pool += cols
                node.free += cols
                continue
            v = gpkit.Variable(name, unit or "-", "free")
            leaf = Leaf(name, unit, v)
            for k in range(rng.randint(1, 2)):
                terms = self.terms(pool, rng.randint(1, 3))
                rhs = sum((t.build(unit) for t in terms[1:]), terms[0].build(unit))
                r = rng.random()
                # (terms common to both sides would be merged before solving)
                others = [l for l in pool if l.value is None
                          and not any(l in t.ex for t in terms)]
                if k == 0 and self.sp and r < .5 and others:
                    other = rng.choice(others)
                    t2 = Term(round(rng.uniform(.05, .3), 2), {other: 1})
                    with gpkit.SignomialsEnabled():
                        con = v + t2.build(unit) >= rhs
                    self.spused = True
                    plans.append(Con(con, terms, [Term(1, {leaf: 1}), t2]))
                    floor = [Term(.01, {})]
                    plans.append(Con(v >= floor[0].build(unit), floor, [Term(1, {leaf: 1})]))
                elif k == 0 and r < .2 and len(terms) == 1:
                    con = v == rhs if rng.random() < .5 else rhs == v
                    plans.append(Con(con, terms, [Term(1, {leaf: 1})], eq=True))
                    break
                else:
                    con = v >= rhs if rng.random() < .5 else rhs <= v
                    plans.append(Con(con, terms, [Term(1, {leaf: 1})]))
            if rng.random() < .2:
                big = [Term(1e4, {})]
                plans.append(Con(v <= big[0].build(unit), [Term(1, {leaf: 1})], big))
            pool.append(leaf)
            node.free.append(leaf)
        items = subs + plans
        rng.shuffle(items)
        node.items = self.arrange(items, rng.random() < .25)
        for s in subs:
            node.free += s.free
        return self.real(node.items if not isinstance(node.items, list) or
                         len(node.items) != 1 or not isinstance(node.items[0], dict)
                         else node.items)

    def arrange(self, items, asdict=False):
        rng = self.rng
        if asdict:
            parts = self.chunks(items)
            return [{"part %i" % i if rng.random() < .5 else "k%i" % i:
                     p[0] if len(p) == 1 else p for i, p in enumerate(parts)}]
        out = []
        for p in self.chunks(items):
            r = rng.random()
            if r < .6:
                out += p
            elif r < .8:
                out.append({"lab%i" % i: x for i, x in enumerate(p)})
            elif r < .9:
                out.append(list(p))
            else:
                out.append({"grp": p if len(p) > 1 else p[0]})
        return out

    def chunks(self, items):
        out, items = [], list(items)
        while items:
            n = self.rng.randint(1, min(3, len(items)))
            out.append(items[:n])
            items = items[n:]
        return out

    def real(self, it):
        "the gpkit objects of a plan"
        import gpkit
        if isinstance(it, (Con, Arr)):
            return it.con
        if isinstance(it, Node):
            return it.obj
        if isinstance(it, dict):
            return {k: self.real(v) for k, v in it.items()}
        if len(it) == 1 and isinstance(it[0], dict) and self.rng.random() < .7:
            return self.real(it[0])
        out = [self.real(v) for v in it]
        return gpkit.ConstraintSet(out) if self.rng.random() < .2 else out

    def model(self, depth=0):
        import gpkit
        self.count += 1
        node = Node(self.rng.choice(NAMES))
        gen = self

        def setup(self):
            return gen.contents(node, depth)
        node.obj = type(node.name, (gpkit.Model,), {"setup": setup})()
        return node


class World:
    def __init__(self, rng, rec):
        import gpkit
        gpkit.NamedVariables.reset_modelnumbers()
        gen = Gen(rng, rng.random() < .3)
        self.rng, self.rec = rng, rec
        self.named = rng.random() < .6
        if self.named:
            self.top = gen.model()
            self.m = self.top.obj
            free = self.top.free
        else:
            self.top = Node("Model")
            nodes = [gen.model(1) for _ in range(rng.randint(1, 2))]
            free = [l for n in nodes for l in n.free]
            self.top.items = gen.arrange(nodes)
            self.m = None
        self.cost = [Term(1, {l: 1}) for l in free]
        if rng.random() < .3:
            # few of the free variables with powers, all still pushed down
            self.cost = [Term(round(rng.uniform(.1, 3), 2), {l: rng.choice([1, 1, .5, 2])})
                         for l in free]
        cost = sum((t.build(None) for t in self.cost[1:]), self.cost[0].build(None))
        if self.m is None:
            real = gen.real(self.top.items)
            self.m = gpkit.Model(cost, real)
        else:
            self.m.cost = cost
        self.free, self.sp = free, gen.spused
        self.consts = [l for n in models_in(self.top) for c in n.consts for l in c[2]]
        try:
            self.sol = self.m.localsolve(verbosity=0) if self.sp else \
                self.m.solve(verbosity=0)
        except gpkit.exceptions.Infeasible:
            raise Skip("not solved")
        except gpkit.exceptions.UnboundedGP as e:
            raise Skip("unbounded: %s" % e)
        except gpkit.exceptions.UnnecessarySGP:
            raise Skip("not a signomial program")
        self.vals = {l: float(l.value) for l in self.consts}
        for l in free:
            self.vals[l] = float(self.sol["freevariables"][l.obj])
        self.cons = list(walk(self.top))
        self.la = {}
        cs = self.sol["sensitivities"]["constraints"]
        for c in self.cons:
            self.la[c] = float(cs[c.con]) if c.con in cs else None
        self.used = {l for c in self.cons for t in c.small + c.large for l in t.ex}
        self.sens = {}
        for l in self.consts:
            tot = 0
            for c in self.cons:
                if self.la[c] is not None and c.has(l):
                    g = self.la[c]*c.gradient(l, self.vals)
                    if c.eq:
                        # sign of the multiplier from the reported total instead
                        tot = None
                        break
                    tot += g
            if tot is None:
                tot = float(np.asarray(self.sol["sensitivities"]["variables"][l.obj]))
            self.sens[l] = tot

    def text(self):
        return str(self.m)[:1500]

    # -- expected trees: (title, value, children, kind) --------------------
    def overall(self):
        kids = self.kids(self.top.items, None)
        if self.named:
            kids = self.constants(self.top) + kids
        return kids

    def constants(self, node):
        out = []
        for kind, name, leaves, _ in node.consts:
            live = [l for l in leaves if l.obj in self.sol["constants"]]
            if any(l in self.used and l not in live for l in leaves):
                raise Violation("constant-missing", "%s not in the solution" % name)
            one = [(("%s = %.4g " % (l.name, l.value),), -abs(self.sens[l]), [], "const")
                   for l in live]
            if not live:
                continue
            if kind == "vec" and len(live) == len(leaves) and len({l.value for l in leaves}) == 1:
                out.append((("%s = %.4g " % (name, leaves[0].value),),
                            sum(v for _, v, _, _ in one), one, "const"))
            else:
                out += one
        return out

    def value(self, con, var):
        if var is None:
            return -abs(self.la[con] or 0)
        if not con.has(var) or self.la[con] is None:
            return None
        return self.la[con]*con.gradient(var, self.vals)

    def kids(self, it, var):
        out = []
        if isinstance(it, dict):
            for label, x in it.items():
                if isinstance(x, Con):
                    v = self.value(x, var)
                    if v is not None:
                        out.append((label, v, [], "label-eq" if x.eq else "label"))
                    continue
                if isinstance(x, Node):
                    sub = (self.constants(x) if var is None else []) + self.kids(x.items, var)
                else:
                    sub = self.kids(x if isinstance(x, (dict, Arr)) else x, var)
                if sub or var is None:
                    out.append((label, sum(k[1] for k in sub), sub, "label"))
        elif isinstance(it, Con):
            v = self.value(it, var)
            if v is not None:
                out.append((it.label(), v, [], "con-eq" if it.eq else "con"))
        elif isinstance(it, Arr):
            sub = [k for c in it.cons for k in self.kids(c, var)]
            if len(it.cons) > 1:
                if sub:
                    out.append((it.label(), sum(k[1] for k in sub), sub, "array"))
            else:
                out += sub
        elif isinstance(it, Node):
            sub = (self.constants(it) if var is None else []) + self.kids(it.items, var)
            if sub or var is None:
                out.append((it.name, sum(k[1] for k in sub), sub, "model"))
        else:
            for x in it:
                out += self.kids(x, var)
        return out


# ---------------------------------------------------------------- widget
def color(v):
    from gpkit import GPCOLORS
    return "#cfcfcf" if abs(v) < 1e-2 else GPCOLORS[0 if v < 0 else 1]


def signed(link, what):
    "value of a link with the sign of its title; monitors on title and colour"
    v = link["value"]
    t = link["title"]
    s = -1 if t.startswith("-") else 1
    if v < 0 or t[0] not in "+-" or t != "%+.2g" % (s*v):
        raise Violation("link-title", "%s: value %r titled %r" % (what, v, t))
    if link["color"] != color(s*v) and abs(v - 1e-2) > 1e-9:
        raise Violation("link-colour", "%s: %r (%r) coloured %s" % (what, v, t, link["color"]))
    return s*v


def tree(links, nodes, root, what):
    "nested (title, value, children) below root, from links"
    titles = {}
    for n in nodes:
        if n["id"] in titles:
            raise Violation("duplicate-node", "%s: node %s twice" % (what, n))
        titles[n["id"]] = n.get("title")
    below, seen = {}, set()
    for l in links:
        if l["source"] in seen:
            raise Violation("not-a-tree", "%s: two links from %r" % (what, l["source"]))
        seen.add(l["source"])
        below.setdefault(l["target"], []).append((l["source"], signed(l, what)))
    for i in set(below) | seen:
        if titles.get(i) is None:
            raise Violation("untitled-node", "%s: node %r has no title" % (what, i))

    def grow(i):
        return [(titles[s].replace("⟶ ", ""), v, grow(s)) for s, v in below.get(i, [])]
    out = grow(root)

    def size(ts):
        return sum(1 + size(t[2]) for t in ts)
    if size(out) != len(links):
        raise Violation("detached-links", "%s: %i links, %i reach %r"
                        % (what, len(links), size(out), root))
    return out


def same_title(want, got):
    if isinstance(want, tuple):
        return got.startswith(want[0])
    return want == got


def close(a, b, eq=False, sp=False):
    # (the last geometric program of a signomial one was approximated a step earlier)
    tol = 5e-3 + 3e-2*abs(a) if sp else 1e-6 + 1e-5*abs(a)
    return abs(a-b) <= tol or eq and abs(abs(a)-abs(b)) <= tol


def negligible(v, kids, sp=False):
    return close(v, 0, sp=sp) and all(negligible(k[1], k[2], sp) for k in kids)


def match(want, got, loose, sp=False):
    "None, or the first difference"
    got = list(got)
    pend = []
    for title, v, kids, kind in want:
        eq = loose and (kind.endswith("-eq") or bool(kids))
        cands = [g for g in got if same_title(title, g[0]) and close(v, g[1], eq, sp)]
        if kids:
            cands = [g for g in got if same_title(title, g[0])]
        best = None
        for g in cands:
            d = match(kids, g[2], loose, sp)
            if d is None and kids and not eq and not close(v, g[1], False, sp):
                d = "carries %r instead of %r" % (g[1], v)
            if d is None and kids and loose:
                s = sum(k[1] for k in g[2])
                if abs(s - g[1]) > 1e-8 + 1e-9*abs(s):
                    d = "%s carries %r, its members %r" % (g[0], g[1], s)
            if d is None:
                best = g
                break
            pend.append("%s: %s" % (title, d))
        if best is None and negligible(v, kids, sp) and not cands:
            continue
        if best is None:
            return "no node %r with %.6g; %s (there are %s)" % (
                title, v, pend[-1:], [(g[0], g[1]) for g in got])
        got.remove(best)
    if got:
        return "extra nodes %s" % [(g[0], g[1]) for g in got]
    return None


def leftovers(m, what):
    for vk in m.varkeys:
        if "necessarylineage" in vk.descr:
            raise Violation("flag-left", "%s left %s marked" % (what, vk))


def full(rec, w, d, var, label, what):
    "Monitor: a diagram without limits"
    if var is None:
        want = w.overall()
        got = tree(d.links, d.nodes, label, what)
        loose = False
    else:
        root = [n["id"] for n in d.nodes if "." not in n["id"]] or [None]
        ids = {l["target"] for l in d.links} - {l["source"] for l in d.links}
        if len(ids) > 1:
            raise Violation("several-roots", "%s: %s" % (what, ids))
        if not ids:
            return 0
        del root
        got = tree(d.links, d.nodes, ids.pop(), what)
        sub = w.kids(w.top.items, var)
        loose = any(c.eq and c.has(var) for c in w.cons)
        cost = sum(t.value(w.vals)*t.ex.get(var, 0) for t in w.cost) / \
            sum(t.value(w.vals) for t in w.cost)
        total = sum(k[1] for k in sub)
        want = [(label, total, sub, "top")]
        if any(var in t.ex for t in w.cost):
            want.append(("[cost function]", cost, [], "cost"))
        else:
            cost = 0
        if abs(total) < 1e-9 and not any(g[0] == label for g in got):
            raise Skip("cancels exactly")
        if var.value is None and not w.sp:
            tops = sum(g[1] for g in got)
            if abs(tops) > 1e-4:
                raise Violation("free-variable-flow", "%s: flows of a free variable sum to"
                                " %s" % (what, tops))
            rec.ev("free_balances")
    diff = match(want, got, loose, w.sp and var is not None)
    if diff:
        raise Violation("wrong-flow", "%s; in %s" % (diff, what))
    rec.ev("full_diagrams")
    rec.ev("links_checked", len(d.links))
    return len(d.links)


def linkset(d):
    return {(l["source"], l["target"]): l for l in d.links}


def limited(rec, w, base, d, kw, what):
    "Monitor: limits only take links away, and none when not needed"
    b, s = linkset(base), linkset(d)
    for key, l in s.items():
        if key not in b or b[key]["value"] != l["value"] or b[key]["title"] != l["title"]:
            raise Violation("limit-changed", "%s: link %s, without limits %s"
                            % (what, l, b.get(key)))
        if not l["value"] > kw.get("minsenss", 0):
            raise Violation("too-small-shown", "%s: %s" % (what, l))
    if not kw.get("showconstraints", True):
        cons = {c.label() for c in w.cons}
        titles = {n["id"]: n["title"] for n in d.nodes}
        plain = {k[0] for k in labels(w.top.items)} | {n.name for n in models_in(w.top)}
        for src, _ in s:
            if titles[src] in cons and titles[src] not in plain:
                raise Violation("constraint-shown", "%s: %s" % (what, titles[src]))
    else:
        keep = [k for k, l in b.items() if l["value"] > kw.get("minsenss", 0)]
        if len(keep) <= kw.get("maxlinks", 20):
            missing = set(keep) - set(s)
            if missing:
                raise Violation("hidden-needlessly", "%s: %s hidden although %s links fit"
                                % (what, missing, len(keep)))
            rec.ev("all_fit")
        else:
            rec.ev("cut_down")
            if len(s) == len(keep):
                depth = max(k[0].count(".") for k in keep)
                if depth > 2:
                    raise Violation("not-limited", "%s: %s links shown" % (what, len(s)))
    rec.ev("limited_diagrams")


def labels(it):
    if isinstance(it, dict):
        for k, v in it.items():
            yield (k,)
            yield from labels(v)
    elif isinstance(it, list):
        for v in it:
            yield from labels(v)
    elif isinstance(it, Node):
        yield from labels(it.items)


def clicks(rng, rec, base, sk, d, what):
    "Monitor: clicking shows what is below a node"
    ids = sorted({l["source"] for l in d.links if any(
        m["target"] == l["source"] for m in d.links)})
    if not ids:
        return
    pick = rng.choice(ids)
    link = [l for l in base.links if l["source"] == pick][0]
    b = linkset(base)
    arg = {"id": pick} if rng.random() < .5 else dict(link)
    d.send_state = lambda *a, **k: rec.ev("clicks")
    sk.onclick(d, arg)
    want = {k for k in b if k[0] == pick or k[0].startswith(pick + ".")}
    got = linkset(d)
    if set(got) != want:
        raise Violation("click", "%s, click on %s: shows %s instead of %s"
                        % (what, pick, set(got) - want, want - set(got)))
    for k, l in got.items():
        if l["value"] != b[k]["value"]:
            raise Violation("click", "%s, click on %s: %s was %s" % (what, pick, l, b[k]))
    titles = {n["id"]: n["title"] for n in d.nodes}
    if not titles[link["target"]].startswith("⟶"):
        raise Violation("click", "%s, click on %s: parent titled %r"
                        % (what, pick, titles[link["target"]]))
    sk.onclick(d, None)
    rec.ev("clicked")


def autosave(rec, d, what):
    "Monitor: images are saved in sankey_autosaves"
    before = set(os.listdir("."))
    n = set(os.listdir("sankey_autosaves"))
    try:
        d.png = base64.b64encode(b"png").decode()
        d.svg = "<svg/>"
    except OSError as e:
        raise Violation("autosave", "%s: %r" % (what, e))
    new = set(os.listdir("sankey_autosaves")) - n
    if set(os.listdir(".")) != before:
        raise Violation("autosave", "%s: files outside sankey_autosaves" % what)
    for f in os.listdir("sankey_autosaves"):
        if not os.path.isfile(os.path.join("sankey_autosaves", f)):
            raise Violation("autosave", "%s: %s" % (what, f))
        os.remove(os.path.join("sankey_autosaves", f))
    if {f[-4:] for f in new} != {".png", ".svg"}:
        raise Violation("autosave", "%s: saved %s" % (what, new))
    rec.ev("autosaves")


CSETS = [None, None, None, "Mission", "A/B", "C:*", "q\"<x>|?", "back\\slash", "a.b"]


def diagrams(rng, rec):
    from gpkit.interactive.sankey import Sankey
    w = World(rng, rec)
    from gpkit.repr_conventions import lineagestr
    label = rng.choice(CSETS)
    title = label or (w.top.name if w.named else "Model")
    del lineagestr
    shared = None
    asked = []
    for _ in range(rng.randint(1, 4)):
        var = None if rng.random() < .4 else rng.choice(w.free + [l for l in w.consts
                                                                  if l in w.used])
        what = "diagram %s of %s (label %s) in %s" % (
            asked, var.obj if var else "everything", label, w.text())
        if shared is None or rng.random() < .5:
            shared = Sankey(w.sol, w.m, label) if label else Sankey(w.sol, w.m)
            reuse = ""
        else:
            reuse = " again"
        sk = shared
        arg = () if var is None else (var.obj,)
        d = sk.diagram(*arg, maxlinks=10000)
        asked.append("%s%s" % (var.obj if var else "all", reuse))
        leftovers(w.m, what)
        full(rec, w, d, var, title, what + reuse)
        if rng.random() < .4:
            autosave(rec, d, what)
        if rng.random() < .7:
            kw = {}
            if rng.random() < .7:
                kw["maxlinks"] = rng.choice([1, 3, 5, 10, 20, 40])
            if rng.random() < .5:
                kw["minsenss"] = rng.choice([1e-12, 1e-3, 1e-2, .1, .5])
            if rng.random() < .25:
                kw["showconstraints"] = False
            one = Sankey(w.sol, w.m, label) if label else Sankey(w.sol, w.m)
            base = Sankey(w.sol, w.m, label) if label else Sankey(w.sol, w.m)
            asked.append(kw)
            b = base.diagram(*arg, maxlinks=10000)
            limited(rec, w, b, one.diagram(*arg, **kw), kw, "%s with %s" % (what, kw))
        if rng.random() < .5:
            one = Sankey(w.sol, w.m, label) if label else Sankey(w.sol, w.m)
            b = one.diagram(*arg, maxlinks=10000)
            d = Sankey(w.sol, w.m, label) if label else Sankey(w.sol, w.m)
            sk2 = d
            d = sk2.diagram(*arg, maxlinks=10000)
            clicks(rng, rec, b, sk2, d, what)
        if rng.random() < .3:
            rec.ev("reused" if reuse else "fresh")
    rec.ev("worlds")
    rec.ev("signomial" if w.sp else "geometric")
    rec.sig((w.text(), str(asked)))
    rec.sample(w.text()[:600])


def earlier(rng, rec):
    "diagrams of a solution drawn after the same model was solved again"
    from gpkit.interactive.sankey import Sankey
    w = World(rng, rec)
    used = [l for l in w.consts if l in w.used]
    if not used or w.sp:
        raise Skip("nothing to change")
    var = rng.choice(used + w.free)
    arg = (var.obj,)
    before = Sankey(w.sol, w.m).diagram(*arg, maxlinks=10000).links
    allbefore = Sankey(w.sol, w.m).diagram(maxlinks=10000).links
    for l in rng.sample(used, rng.randint(1, len(used))):
        w.m.substitutions[l.obj] = l.value*math.exp(rng.uniform(-1, 1))
    import gpkit
    try:
        newer = w.m.solve(verbosity=0)
    except gpkit.exceptions.Infeasible:
        raise Skip("not solved")
    what = "diagrams of an earlier solution, %s: %s" % (var.obj, w.text())
    allafter = Sankey(w.sol, w.m).diagram(maxlinks=10000).links
    if allafter != allbefore:
        raise Violation("earlier-changed", what)
    rec.ev("earlier_compared")
    after = Sankey(w.sol, w.m).diagram(*arg, maxlinks=10000).links
    if after != before:
        new = Sankey(newer, w.m).diagram(*arg, maxlinks=10000).links
        a = {(l["source"], l["target"]): l["value"] for l in after}
        b = {(l["source"], l["target"]): l["value"] for l in new}
        # links from the cost function do come from the solution asked for
        same = sum(1 for k in a if b.get(k) == a[k])
        raise Violation("variable-diagram-of-earlier-solution" if same >= len(a) - 1
                        else "earlier-changed",
                        "%s: %s became %s" % (what, before, after))
    rec.sig(what)


KINDS = {"diagrams": (diagrams, 220, 8000), "earlier": (earlier, 30, 600)}
NEED = {"full_diagrams": 200, "links_checked": 2500, "limited_diagrams": 100, "clicked": 40,
        "autosaves": 50, "free_balances": 40, "cut_down": 30, "all_fit": 20}
