"""C13: unboundedness is detected exactly from the signs of exponents.

Models are generated as lists of exponents, so an independent least-fixpoint computation
says which variable and direction pairs are bounded; the monitor compares it with what the
program refuses, what its message names and what its bound report contains.
"""
import re
from ..core import Violation

PROP = "C13"
RULE = ("a case is a random set of cost terms, inequalities and monomial equalities over up "
        "to seven variables (some fixed), built in two constraint orders; non-trivial if "
        "it has an equality or an unbounded variable, identified by its exponents")
TECH = "monitor comparing refusals and reported pairs with an independent fixpoint"
NOTE = "random exponent patterns; equalities chained up to six deep"

X = [1, 1, -1, -1, 2, -2, .5, -.5]


def fixpoint(free, terms, equalities):
    "pairs that are bounded"
    bounded = set()
    for t in terms:
        for v, x in t.items():
            if v in free and x:
                bounded.add((v, "upper" if x > 0 else "lower"))
    change = True
    while change:
        change = False
        for e in equalities:
            e = {v: x for v, x in e.items() if v in free and x}
            for v, x in e.items():
                for way in ("upper", "lower"):
                    if (v, way) in bounded:
                        continue
                    # v**x = c * prod others**-xo
                    need = set()
                    for o, xo in e.items():
                        if o == v:
                            continue
                        same = xo*x > 0
                        up = way == "upper"
                        need.add((o, "lower" if same == up else "upper"))
                    if need <= bounded:
                        bounded.add((v, way))
                        change = True
    return bounded


def gen_term(rng, names, k=None):
    return {v: rng.choice(X) for v in rng.sample(names, min(len(names),
                                                            k or rng.randint(1, 3)))}


def gen(rng):
    n = rng.randint(2, 7)
    names = ["v%i" % i for i in range(n)]
    fixed = [v for v in names if rng.random() < .15]
    style = rng.random()
    cost = [gen_term(rng, names) for _ in range(rng.randint(1, 2))]
    ineqs, eqs = [], []
    for _ in range(rng.randint(0, 4)):
        ineqs.append([gen_term(rng, names, rng.choice([1, 1, 2, 3]))
                      for _ in range(rng.randint(1, 3))])
    for v in names:      # most variables directly bounded, so that what is missing matters
        if rng.random() < .45:
            ineqs.append([{v: rng.choice([1, 2])}])
        if rng.random() < .45:
            ineqs.append([{v: rng.choice([-1, -.5])}])
    for _ in range(rng.choice([0, 1, 1, 2, 2, 3, 4])):
        eqs.append(gen_term(rng, names, rng.choice([1, 2, 2, 2, 3, 4])))
    if style < .25:      # a chain of equalities from one bounded end
        eqs = [{a: rng.choice(X), b: rng.choice(X)} for a, b in zip(names, names[1:])]
        ineqs = [[{names[0]: 1}], [{names[0]: -1}]][:rng.randint(1, 2)]
        cost = [gen_term(rng, names, 1)]
        if rng.random() < .5:
            eqs[rng.randrange(len(eqs))][rng.choice(names)] = rng.choice(X)
    return names, fixed, cost, ineqs, eqs


def mono(objs, t, c=1.0):
    out = c
    for v, x in t.items():
        out = out*objs[v]**x
    return out


def build(rng, names, fixed, cost, ineqs, eqs, vector):
    import gpkit
    if vector:
        vec = gpkit.VectorVariable(len(names), "v")
        objs = {n: vec[i] for i, n in enumerate(names)}
    else:
        objs = {n: gpkit.Variable(n) for n in names}
    cons = []
    for terms in ineqs:
        p = 0
        for t in terms:
            p = p + mono(objs, t, rng.choice([.5, 1, 3]))
        # divide by a monomial on both sides, either orientation
        m = mono(objs, gen_term(rng, names, 1)) if rng.random() < .4 else 1
        l, r = p*m, 50*m
        if not hasattr(r, "hmap") and rng.random() < .3:
            r = r*gpkit.Variable("one", 1)
        cons.append(l <= r if rng.random() < .5 else r >= l)
    for t in eqs:
        up = {v: x for v, x in t.items() if rng.random() < .6}
        dn = {v: -x for v, x in t.items() if v not in up}
        l, r = mono(objs, up, 2.0), mono(objs, dn, 1.5)
        if not hasattr(l, "hmap"):
            l, r = r, l
        cons.append(l == r)
    order = list(range(len(cons)))
    rng.shuffle(order)
    c = 0
    for t in cost:
        c = c + mono(objs, t, rng.choice([1, 2]))
    return gpkit.Model(c, [cons[i] for i in order], {objs[f]: 1.3 for f in fixed}), objs


def merged(terms):
    "identical terms of one posynomial merge; nothing cancels"
    return terms


def case(rng, rec):
    import gpkit
    names, fixed, cost, ineqs, eqs = gen(rng)
    free = [v for v in names if v not in fixed]
    terms = [t for t in cost] + [t for ts in ineqs for t in ts]
    used = {v for t in terms + eqs for v in t if v in free}
    bounded = fixpoint(set(free), terms, eqs)
    # a constraint without free variables is a comparison of constants: not ours
    allfixed = [ts for ts in ineqs if not any(v in free for t in ts for v in t)]
    missing = {(v, w) for v in used for w in ("upper", "lower")} - bounded
    what = "cost %s ineqs %s eqs %s fixed %s" % (cost, ineqs, eqs, fixed)
    vector = rng.random() < .3
    # an equality over fixed variables alone is contradictory here
    eqs = [e for e in eqs if any(v in free for v in e)]
    ineqs = [ts for ts in ineqs if ts not in allfixed]
    if not used:
        return
    results = []
    for _ in range(2):
        m, objs = build(rng, names, fixed, cost, ineqs, eqs, vector)
        label = {(k.name, tuple(k.idx) if k.idx else None): n for n, k in
                 ((n, o.key) for n, o in objs.items())}
        try:
            m.gp()
            got = set()
        except gpkit.exceptions.UnboundedGP as e:
            got = set()
            for part in str(e).split("\n\n"):
                q = re.match(r"(v\d*)(?:\[(\d+)\])? has no (upper|lower) bound", part)
                if not q:
                    raise Violation("message", "%s: message %r" % (what, str(e)))
                got.add(("v" + q.group(2) if q.group(2) else q.group(1), q.group(3)))
            if not got:
                raise Violation("message", "%s: empty message" % what)
            rec.ev("refused")
        results.append(got)
        if got != missing:
            raise Violation("wrong-refusal", "%s: reported missing %s, by fixpoint %s"
                            % (what, sorted(got), sorted(missing)))
        # disabling the check skips only the refusal
        gp = m.gp(checkbounds=False)
        rep = {(label[(k.name, tuple(k.idx) if k.idx else None)], w)
               for k, w in gp.check_bounds()}
        if rep != missing:
            raise Violation("wrong-report", "%s: check_bounds reports %s, by fixpoint %s"
                            % (what, sorted(rep), sorted(missing)))
        try:
            gp.check_bounds(err_on_missing_bounds=True)
            if missing:
                raise Violation("wrong-report", what + ": asked to raise, did not")
        except gpkit.exceptions.UnboundedGP:
            if not missing:
                raise Violation("wrong-report", what + ": raised without cause")
        have = {label[(k.name, tuple(k.idx) if k.idx else None)] for k in gp.varlocs}
        if have != used:
            raise Violation("program-differs", "%s: unchecked program has %s, expected %s"
                            % (what, have, used))
    rec.ev("models")
    rec.ev("bounded_models" if not missing else "unbounded_models")
    if eqs and any((v, w) in bounded for e in eqs for v in e for w in ("upper", "lower")
                   if not any(t.get(v, 0)*(1 if w == "upper" else -1) > 0 for t in terms)):
        rec.ev("bounds_by_equality")
    if eqs or missing:
        rec.sig(what)
    rec.sample(what + " missing %s" % sorted(missing))


KINDS = {"case": (case, 2500, 60000)}
NEED = {"models": 1500, "refused": 800, "bounded_models": 250, "bounds_by_equality": 300}
