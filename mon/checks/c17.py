"""C17: KeyDict against a plain map from single elements to values, operation by operation."""
import math
import pickle
import copy
import numpy as np
from ..core import Violation
from .. import alg

PROP = "C17"
RULE = ("a case is a random history of 5-40 operations on a KeyDict and its copies; "
        "non-trivial when an element or vector was written, identified by the operations")
TECH = "lock-step monitor: every operation mirrored in a plain map, every entry audited"
NOTE = "histories up to 40 operations over 4 scalars and 3 vectors, up to 3 live copies"


class Pool:
    "variables with shared and unshared names, units and shapes"

    def __init__(self, rng):
        import gpkit
        units = rng.random() < .5
        u = (lambda x: [x]) if units else (lambda x: [])
        self.scalars = [gpkit.Variable("x", *u("m")), gpkit.Variable("y"),
                        gpkit.Variable("x", *u("ft"), lineage=(("Motor", 0),)),
                        gpkit.Variable("z", *u("kg"), lineage=(("Motor", 0), ("Sub", 1)))]
        self.vectors = [gpkit.VectorVariable(3, "v", *u("m")),
                        gpkit.VectorVariable((2, 2), "w"),
                        gpkit.VectorVariable(3, "v", *u("s"), lineage=(("Motor", 0),)),
                        gpkit.VectorVariable(1, "o", *u("m"))]
        self.used = rng.sample(self.scalars, rng.randint(1, 4)) + \
            rng.sample(self.vectors, rng.randint(1, 4))
        self.cset = None
        if rng.random() < .5:
            self.cset = gpkit.ConstraintSet(
                [s >= s**2/gpkit.Variable("norm", s.key.unitrepr) for s in self.scalars]
                + [e >= e**2/gpkit.Variable("norm", e.key.unitrepr)
                   for v in self.vectors for e in v.flat])
        self.byname = {}
        for o in self.used:
            for n in {o.key.name, o.key.str_without(["vec", "modelnums"])}:
                self.byname.setdefault(n, []).append(o)

    def name_of(self, o):
        return o.key.str_without(["vec", "modelnums"])


def ids(o):
    "element identities of a variable or array"
    k = o.key
    if k.shape and not k.idx:
        return [(k.eqstr, i) for i in np.ndindex(*k.shape)]
    if k.idx:
        return [(k.veckey.eqstr, tuple(k.idx))]
    return [(k.eqstr, None)]


def is_nan(v):
    return isinstance(v, (float, np.floating)) and bool(v != v)


def eq(a, b):
    if a is b:
        return True
    if callable(a) or callable(b) or isinstance(a, (str, tuple)) or isinstance(b, (str, tuple)):
        try:
            return bool(a == b)
        except ValueError:
            return False
    return abs(float(a) - float(b)) <= 1e-14*abs(float(b))


def number(rng, key):
    "(value to hand over, value it stands for in the key's units)"
    import gpkit
    r = rng.random()
    v = rng.choice([rng.uniform(.1, 10), rng.uniform(-5, 5), 2.3, 1/3., 1e300, 123456789.0,
                    16777217.0, 0.1])
    if r < .15:
        v = rng.choice([0, 1, -3, 16777217, 2**40])
        return v, v
    if r < .3:
        return np.float64(v), v
    if r < .4 and key.units:
        unit = {"m": "cm", "ft": "inch", "kg": "g", "s": "min"}[str(key.unitrepr)]
        q = gpkit.ureg.Quantity(v, unit)
        return q, q.to(key.units).magnitude
    if r < .5 and v > 0 and key.units:
        m = v*gpkit.Monomial(key.units)
        return m, v
    return v, v


def audit(rec, kd, ref, pool, what):
    "every question that can be asked, against the map"
    present = {o.key for o in pool.used if any(i in ref for i in ids(o))}
    keys = set(kd)
    if keys != present or len(kd) != len(present) or set(kd.keys()) != present:
        raise Violation("wrong-keys", "%s: holds %s, expected %s" % (what, keys, present))
    for o in pool.used:
        el = ids(o)
        inside = o.key in present
        for form in (o, o.key):
            if (form in kd) != inside:
                raise Violation("wrong-membership", "%s: %r in it is %s"
                                % (what, form, form in kd))
        if not inside:
            try:
                got = kd[o]
            except KeyError:
                pass
            else:
                raise Violation("phantom", "%s: %s is absent but gives %r" % (what, o, got))
            if kd.get(o, "nothing") != "nothing":
                raise Violation("phantom", "%s: get(%s) finds something" % (what, o))
            continue
        if o.key.shape:
            arr = kd[o.key]
            if np.shape(arr) != o.key.shape:
                raise Violation("wrong-shape", "%s: %s is %r" % (what, o, arr))
            for (e, i) in el:
                ev = o[i]
                want = ref.get((e, i))
                for got in (arr[i], kd[ev], kd[ev.key], kd.get(ev, None) if want is not None
                            else np.nan):
                    if want is None:
                        if not is_nan(got):
                            raise Violation("phantom", "%s: %s should be absent, is %r"
                                            % (what, ev, got))
                    elif not eq(got, want):
                        raise Violation("wrong-value", "%s: %s is %r, expected %r"
                                        % (what, ev, got, want))
                    rec.ev("values_checked")
                if (ev in kd) != (want is not None) or (ev.key in kd) != (want is not None):
                    raise Violation("wrong-membership", "%s: %s" % (what, ev))
        else:
            want = ref[el[0]]
            for got in (kd[o], kd[o.key], kd.get(o), kd.get(o.key, 7), dict(kd.items())[o.key]):
                if not eq(got, want):
                    raise Violation("wrong-value", "%s: %s is %r, expected %r"
                                    % (what, o, got, want))
                rec.ev("values_checked")
    # names
    for name, objs in pool.byname.items():
        here = [o for o in objs if o.key in present]
        if pool.cset is not None:
            others = {k.veckey or k for k in pool.cset.varkeys[name]}
            if len(others) > 1:
                refused(rec, kd, name, what)     # ambiguous in the constraint set
                continue
            here = here if here else []
        elif name in {o.key.name for o in pool.scalars + pool.vectors}:
            pass
        if (name in kd) != bool(here):
            raise Violation("wrong-membership", "%s: name %r in it is %s, holds %s"
                            % (what, name, name in kd, here))
        if not here:
            try:
                got = kd[name]
            except KeyError:
                continue
            raise Violation("phantom", "%s: name %r gives %r" % (what, name, got))
        got = kd[name]
        if len(here) == 1:
            got = {here[0].key: got}
        if set(got) != {o.key for o in here}:
            raise Violation("wrong-name", "%s: name %r gives %s, expected %s"
                            % (what, name, got, here))
        for o in here:
            for (e, i) in ids(o):
                g = got[o.key] if i is None else got[o.key][i]
                w = ref.get((e, i))
                if is_nan(g) if w is not None else not is_nan(g):
                    raise Violation("wrong-name", "%s: %r[%s] is %r" % (what, name, i, g))
                if w is not None and not eq(g, w):
                    raise Violation("wrong-name", "%s: %r[%s] is %r, expected %r"
                                    % (what, name, i, g, w))
        rec.ev("names_checked")


def refused(rec, kd, name, what):
    "a name which may mean several variables is never taken for one of them"
    for ask in (lambda: kd[name], lambda: kd.__setitem__(name, 2.5),
                lambda: kd.__setitem__(name, [1., 2.]), lambda: kd.get(name, 5)):
        try:
            got = ask()
        except ValueError:
            rec.ev("ambiguous_refused")
        else:
            raise Violation("ambiguous-name", "%s: the ambiguous %r gives %r"
                            % (what, name, got))
    kd.__contains__(name)      # answers, whatever it is


def sliced(rng, rec, pool, kd, ref, log, w):
    "a write to part of a vector, or to several variables, at once"
    import gpkit
    vecs = [q for q in pool.used if q.key.shape and q.size > 1]
    if not vecs:
        return
    o = rng.choice(vecs)
    if len(o.shape) == 1:
        sl = rng.choice([o[1:], o[:2], o[::-1], o[::2], o[:1]])
    else:
        sl = rng.choice([o[0], o[:, 1], o.T, o[::-1], o[:, :1]])
    scal = [q for q in pool.used if not q.key.shape and q.key.units == o.key.units]
    if scal and rng.random() < .3:
        sl = gpkit.NomialArray([rng.choice(scal), o.flat[0]])
    n = sl.size
    vals = np.array([float(number(rng, gpkit.Variable("q").key)[0]) for _ in range(n)])
    form = rng.choice(["array", "list", "tuple", "ints", "scalar", "qty", "qtys", "wrong",
                       "wronglist"])
    if len(sl.shape) > 1 and form in ("list", "qtys", "tuple"):
        form = "array"
    if not o.key.units and form in ("qty", "qtys"):
        form = "scalar"
    unit = {"m": "cm", "ft": "inch", "kg": "g", "s": "min"}.get(str(o.key.unitrepr))
    if form in ("wrong", "wronglist"):
        bad = np.ones(tuple(q+1 for q in sl.shape))
        if len(sl.shape) > 1 and rng.random() < .5:
            form, bad = "wrong", np.ones(n)
        before = {k: repr(v) for k, v in kd.items()}
        try:
            kd[sl] = bad if form == "wrong" else bad.tolist()
        except (KeyError, ValueError):
            rec.ev("shapes_refused")
        else:
            raise Violation("wrong-shape", "d%i[%s] took %s; %s" % (w, sl, bad, log))
        if before != {k: repr(v) for k, v in kd.items()}:
            raise Violation("wrong-value", "refusing d%i[%s]=%s changed it; %s"
                            % (w, sl, bad, log))
        return
    if form == "ints":
        vals = np.array([rng.choice([1, 2, 16777217, -4, 0]) for _ in range(n)])
        v = vals.reshape(sl.shape)
    elif form == "array":
        v = vals.reshape(sl.shape)
    elif form == "list":
        v = vals.tolist()
    elif form == "tuple":
        v = tuple(vals.tolist())
    elif form == "scalar":
        v, want = number(rng, o.key)
        vals = np.full(n, float(want))
    elif form == "qty":
        v = gpkit.ureg.Quantity(vals.reshape(sl.shape), unit)
        vals = np.ravel(v.to(o.key.units).magnitude)
    else:
        v = [gpkit.ureg.Quantity(float(x), unit) for x in vals]
        vals = np.array([q.to(o.key.units).magnitude for q in v])
    log.append("d%i[%s]=%r (slice, %s)" % (w, sl, v, form))
    kd[sl] = v
    for e, x in zip(sl.flat, vals):
        ref[ids(e)[0]] = x
    rec.ev("slice_writes")


def edit(rng, rec, pool, kd, ref, log, w):
    "an edit of an array the dictionary gave, which is then written to it as well"
    whole = [q for q in pool.used if q.key.shape and all(e in ref for e in ids(q))]
    if not whole:
        return
    o = rng.choice(whole)
    key = o.key
    names = [n for n in {key.name, pool.name_of(o)} if pool.cset is None]
    t = rng.choice([o, key] + 3*names)
    got = kd[t]
    if isinstance(got, dict):
        got = got[key]
        rec.ev("shared_name_edits")
    i = rng.choice(list(np.ndindex(*key.shape)))
    v, want = number(rng, key)
    log.append("d%i[%s][%s]=%r, and written" % (w, t, i, want))
    got[i] = want
    kd[o[i]] = v
    ref[(key.eqstr, i)] = want
    rec.ev("edits")


def mapping(rng, rec, pool, kd, ref, log, w):
    "pop, popitem, setdefault and clear"
    o = rng.choice(pool.used)
    key = o.key
    if key.shape and rng.random() < .7:
        i = rng.choice(list(np.ndindex(*key.shape)))
        t, el = rng.choice([o[i], o[i].key]), (key.eqstr, i)
    elif key.shape:
        t, el = rng.choice([o, key]), None
    else:
        opt = [o, key]
        if pool.cset is not None and len({k.veckey or k for k in pool.cset.varkeys[key.name]}) == 1:
            opt.append(key.name)
        t, el = rng.choice(opt), ids(o)[0]
    how = rng.choice(["pop", "pop", "pop", "setdefault", "setdefault", "popitem", "clear"])
    what = "d%i.%s(%r); %s" % (w, how, t, "; ".join(log[-12:]))
    log.append("d%i.%s(%r)" % (w, how, t))
    here = [e for e in ids(o) if e in ref] if el is None else [el] if el in ref else []
    if how == "pop":
        default = rng.random() < .5
        try:
            got = kd.pop(t, *(["none"] if default else []))
        except KeyError:
            if here or default:
                raise
            return rec.ev("pops")
        if not here:
            if not is_nan(got) if not default else not (isinstance(got, str) and got == "none"):
                raise Violation("phantom", "%r from %s" % (got, what))
            return rec.ev("pops")
        for e in here:
            v = got if el is not None else np.asarray(got)[e[1]]
            if not eq(v, ref[e]):
                raise Violation("wrong-value", "%r from %s, should be %r" % (v, what, ref[e]))
            del ref[e]
        rec.ev("pops")
    elif how == "setdefault" and el is not None:
        v, want = number(rng, key)
        got = kd.setdefault(t, v)
        if not eq(got, ref.setdefault(el, want)):
            raise Violation("wrong-value", "%r from %s, should be %r" % (got, what, ref[el]))
        rec.ev("setdefaults")
    elif how == "popitem" and ref:
        k, v = kd.popitem()
        gone = [e for e in ref if e[0] == k.eqstr]
        if not gone:
            raise Violation("phantom", "%r popped by %s" % (k, what))
        for e in gone:
            x = v if e[1] is None else np.asarray(v)[e[1]]
            if not eq(x, ref[e]):
                raise Violation("wrong-value", "%r, %r from %s, should be %r"
                                % (k, v, what, ref[e]))
            del ref[e]
        rec.ev("popitems")
    elif how == "clear" and rng.random() < .3:
        kd.clear()
        ref.clear()
        rec.ev("clears")


def history(rng, rec):
    import gpkit
    from gpkit.keydict import KeyDict
    pool = Pool(rng)
    kd, ref = KeyDict(), {}
    kd.cset = pool.cset
    dicts = [(kd, ref, [])]        # live copies and their logs
    arrays = []                    # arrays handed over: (array, content then)
    log = []
    objects = rng.random() < .3    # functions and sweeps as values too
    lazy = rng.random() < .5       # reading arrays undoes sharing: seldom look

    def val(key):
        if objects and rng.random() < .3:
            v = rng.choice([lambda c: 3, ("sweep", [1, 2, 3])])
            return v, v
        return number(rng, key)

    for step in range(rng.randint(5, 40)):
        w = rng.randrange(len(dicts))
        kd, ref, _ = dicts[w]
        o = rng.choice(pool.used)
        key = o.key
        op = rng.random()
        vec = bool(key.shape)
        opt = [o, key]
        if pool.cset is not None:
            nm = rng.choice([key.name, pool.name_of(o)])
            if len({k.veckey or k for k in pool.cset.varkeys[nm]}) == 1:
                opt.append(nm)
        target = rng.choice(opt)
        if vec and op < .25:          # an element
            i = rng.choice(list(np.ndindex(*key.shape)))
            v, want = val(key)
            t = rng.choice([o[i], o[i].key] + (
                [o[i].key.str_without(["modelnums"])] if pool.cset is not None else []))
            log.append("d%i[%s]=%r" % (w, t, v))
            kd[t] = v
            ref[(key.eqstr, i)] = want
            rec.ev("element_writes")
        elif vec and op < .55:        # the whole vector
            n = int(np.prod(key.shape))
            form = rng.choice(["array", "array", "list", "ints", "scalar", "nan", "qty",
                               "elements", "float32", "intlist", "unitlist", "tuple"])
            if form in ("unitlist", "tuple", "intlist") and len(key.shape) > 1 \
                    or form == "unitlist" and not key.units or form == "nan" and n == 1:
                form = "array"
            vals = np.array([float(number(rng, gpkit.Variable("q").key)[0])
                             for _ in range(n)]).reshape(key.shape)
            if form == "qty" and not key.units:
                form = "array"
            if form == "list" and len(key.shape) > 1:
                form = "array"
            new = {}
            if form == "ints":
                vals = np.array([rng.choice([1, 2, 16777217, -4, 0]) for _ in range(n)]
                                ).reshape(key.shape)
                v = vals
            elif form == "intlist":
                v = [rng.choice([1, 2, 16777217, -4, 0]) for _ in range(n)]
                vals = np.array(v)
            elif form == "unitlist":
                v = [number(rng, key) for _ in range(n)]
                vals = np.array([q[1] for q in v])
                v = [q[0] for q in v]
            elif form == "tuple":
                v = tuple(vals.tolist())
            elif form == "float32":
                v = vals = vals.clip(-1e30, 1e30).astype("float32")
            elif form == "scalar":
                v, want = number(rng, key)
                vals = np.full(key.shape, float(want))
            elif form == "list":
                v = vals.tolist()
            elif form == "nan":
                v = vals.copy()
                drop = rng.sample(list(np.ndindex(*key.shape)), rng.randint(1, n-1))
                for i in drop:
                    v[i] = np.nan
                vals = v
            elif form == "qty":
                unit = {"m": "cm", "ft": "inch", "kg": "g", "s": "min"}[str(key.unitrepr)]
                v = gpkit.ureg.Quantity(vals, unit)
                vals = v.to(key.units).magnitude
            else:
                v = vals
            for i in np.ndindex(*key.shape):
                if not is_nan(vals[i]):
                    new[(key.eqstr, i)] = vals[i]
            if isinstance(v, np.ndarray):
                arrays.append((v, v.copy()))
                if form == "array" and rng.random() < .5:
                    v.flags.writeable = False    # would raise if written through
            log.append("d%i[%s]=%r (%s)" % (w, target, v, form))
            kd[target] = v
            ref.update(new)
            rec.ev("vector_writes")
            rec.ev("vector_" + form)
        elif op < .55:
            v, want = val(key)
            log.append("d%i[%s]=%r" % (w, target, v))
            kd[target] = v
            ref[ids(o)[0]] = want
            rec.ev("scalar_writes")
        elif op < .7:                 # delete
            el = ids(o)
            if vec and rng.random() < .6:
                present = [i for i in el if i in ref]
                if not present:
                    continue
                e = rng.choice(present)
                t = rng.choice([o[e[1]], o[e[1]].key])
                log.append("del d%i[%s]" % (w, t))
                del kd[t]
                del ref[e]
                rec.ev("element_deletes")
            else:
                name = rng.random() < .3
                objs = [o]
                if name:
                    nm = rng.choice([key.name, pool.name_of(o)])
                    objs = pool.byname[nm]
                    if pool.cset is not None and len(
                            {k.veckey or k for k in pool.cset.varkeys[nm]}) > 1:
                        continue
                    t = nm
                else:
                    t = rng.choice([o, key])
                here = [e for q in objs for e in ids(q) if e in ref]
                log.append("del d%i[%s]" % (w, t))
                try:
                    del kd[t]
                except KeyError:
                    if here:
                        raise
                    rec.ev("refused_deletes")
                else:
                    if not here:
                        raise Violation("phantom", "deleting the absent %s worked; %s"
                                        % (t, log))
                    rec.ev("deletes")
                for e in here:
                    del ref[e]
        elif op < .78 and len(dicts) < 3:        # copy
            how = rng.choice(["KeyDict", "update", "deepcopy", "pickle", "copy"])
            if objects and how == "pickle" or pool.cset is not None and how in (
                    "pickle", "deepcopy"):
                how = "KeyDict"
            log.append("d%i=%s(d%i)" % (len(dicts), how, w))
            if how == "KeyDict":
                new = KeyDict(kd)
            elif how == "update":
                new = KeyDict()
                new.update(kd)
            elif how == "copy":
                new = kd.copy()
                if not isinstance(new, KeyDict):
                    raise Violation("copy-type", "d%i.copy() is a %s" % (w, type(new)))
            elif how == "deepcopy":
                new = copy.deepcopy(kd)
            else:
                new = pickle.loads(pickle.dumps(kd))
            if how in ("KeyDict", "update", "copy"):
                new.cset = pool.cset
            dicts.append((new, dict(ref), []))
            rec.ev("copies")
            rec.ev("copy_" + how)
            if rng.random() < .5:         # before anything else reads either
                w = rng.choice([w, len(dicts)-1])
                edit(rng, rec, pool, dicts[w][0], dicts[w][1], log, w)
        elif op < .86:                # update from a dict or another KeyDict
            if len(dicts) > 1 and rng.random() < .5:
                q = rng.choice([j for j in range(len(dicts)) if j != w])
                log.append("d%i.update(d%i)" % (w, q))
                kd.update(dicts[q][0])
                ref.update(dicts[q][1])
            else:
                d = {}
                for q in rng.sample(pool.used, rng.randint(1, len(pool.used))):
                    if q.key.shape:
                        i = rng.choice(list(np.ndindex(*q.key.shape)))
                        v, want = number(rng, q.key)
                        d[rng.choice([q[i], q[i].key])] = v
                        ref[(q.key.eqstr, i)] = want
                    else:
                        v, want = number(rng, q.key)
                        d[rng.choice([q, q.key])] = v
                        ref[ids(q)[0]] = want
                log.append("d%i.update(%s)" % (w, d))
                kd.update(d)
            rec.ev("updates")
        elif op < .885 and pool.cset is not None and not objects:
            sliced(rng, rec, pool, kd, ref, log, w)
        elif op < .91:                # an edit of what it gave, then written as well
            edit(rng, rec, pool, kd, ref, log, w)
        elif op < .925 and not objects:    # a dictionary's other ways to change
            mapping(rng, rec, pool, kd, ref, log, w)
        elif op < .94:                # reads that must not change anything
            log.append("read d%i" % w)
            for q in ("waldo", gpkit.Variable("waldo"), gpkit.VectorVariable(2, "waldo")[0]):
                try:
                    kd[q]
                except KeyError:
                    pass
                else:
                    raise Violation("phantom", "%r found; %s" % (q, log))
                try:
                    del kd[q]
                except KeyError:
                    pass
                else:
                    raise Violation("phantom", "%r deleted; %s" % (q, log))
                if q in kd or kd.get(q, 5) != 5:
                    raise Violation("phantom", "%r in it after a failed lookup; %s" % (q, log))
            for q in pool.used:
                if q.key.shape and any(e in ref for e in ids(q)):
                    a = np.array(kd[q])
                    del a
            rec.ev("failed_lookups")
        else:                         # values with units
            if all(e in ref for e in ids(o)) and not objects:
                got = kd(o)
                f = alg.unit_factor(key.units)
                if not hasattr(got, "magnitude"):
                    raise Violation("no-units", "d%i(%s) is %r; %s" % (w, o, got, log))
                gf = alg.unit_factor(got.units)
                if f[1] != gf[1]:
                    raise Violation("wrong-units", "d%i(%s) is %r; %s" % (w, o, got, log))
                for (e, i) in ids(o):
                    m = got.magnitude if i is None else got.magnitude[i]
                    if not abs(m*gf[0] - ref[(e, i)]*f[0]) <= 1e-12*abs(ref[(e, i)]*f[0]):
                        raise Violation("wrong-value", "d%i(%s) is %r; %s" % (w, o, got, log))
                rec.ev("called")
        for j, (d, r, _) in enumerate(dicts):
            if not lazy or rng.random() < .05:
                audit(rec, d, r, pool, "d%i after %s" % (j, "; ".join(log[-12:])))
        for a, was in arrays:
            if not np.array_equal(a, was, equal_nan=True):
                raise Violation("caller-array", "an array handed over changed to %s from %s"
                                " after %s" % (a, was, log))
    for j, (d, r, _) in enumerate(dicts):
        audit(rec, d, r, pool, "d%i after %s" % (j, "; ".join(log)))
    # what the caller does to the arrays it handed over afterwards
    for a, _ in arrays:
        a.flags.writeable = True
        a[...] = -77
    for j, (d, r, _) in enumerate(dicts):
        audit(rec, d, r, pool, "d%i after the caller changed its arrays; %s" % (j, log))
    if any("=" in s for s in log):
        rec.sig(log)
    rec.sample("; ".join(log[:8]))


def sequences(rng, rec):
    "construction from plain dicts, whole and by element, in any order"
    from gpkit.keydict import KeyDict
    pool = Pool(rng)
    src, ref = [], {}
    for o in pool.used:
        for (e, i) in ids(o):
            if i is not None and rng.random() < .2:
                continue
            v, want = number(rng, o.key)
            src.append(((o if i is None else o[i]), v))
            ref[(e, i)] = want
    rng.shuffle(src)
    d = {(k.key if rng.random() < .5 else k): v for k, v in src}
    keep = {k: repr(v) for k, v in d.items()}
    kd = rng.choice([lambda: KeyDict(d), lambda: KeyDict(list(d.items())),
                     lambda: (lambda k: (k.update(d), k)[1])(KeyDict())])()
    kd.cset = pool.cset
    audit(rec, kd, ref, pool, "built from %s" % d)
    if keep != {k: repr(v) for k, v in d.items()}:
        raise Violation("caller-dict", "building from %s changed it" % d)
    rec.sig(sorted(map(str, ref.items())))
    rec.ev("constructions")


def keyset(rng, rec):
    "The set of keys a model knows, by object, element, vector and name"
    import gpkit
    from gpkit.keydict import KeySet
    pool = Pool(rng)
    every = [(e.key, o) for o in pool.scalars + pool.vectors
             for e in (o.flat if o.key.shape else [o])]
    have = dict(rng.sample(every, rng.randint(1, len(every))))
    ks = KeySet(list(have))
    live = [(ks, dict(have))]
    log = ["KeySet(%s)" % list(have)]
    for _ in range(rng.randint(1, 8)):
        w = rng.randrange(len(live))
        ks, have = live[w]
        r = rng.random()
        if r < .4:
            more = dict(rng.sample(every, rng.randint(1, 3)))
            other = rng.choice([list(more), set(more), KeySet(list(more))])
            ks.update(other)
            have.update(more)
            log.append("s%i.update(%s)" % (w, list(more)))
        elif r < .55 and len(live) < 3:
            new = KeySet(ks)
            live.append((new, dict(have)))
            log.append("s%i=KeySet(s%i)" % (len(live)-1, w))
        elif r < .75:
            for absent in ("waldo", gpkit.Variable("waldo"), gpkit.Variable("waldo").key):
                if ks[absent] != set() or absent in ks or ks[absent] != set():
                    raise Violation("phantom", "%r in s%i; %s" % (absent, w, log))
            rec.ev("failed_lookups")
        for j, (ks, have) in enumerate(live):
            what = "s%i after %s" % (j, "; ".join(log))
            if set(ks) != set(have) or len(ks) != len(have):
                raise Violation("wrong-keys", "%s: holds %s" % (what, set(ks)))
            names = {}
            for k, o in every:
                for n in {k.name, k.str_without(["modelnums"]), k.str_without(["idx", "modelnums"])}:
                    names.setdefault(n, set()).add(k)
            for n, keys in names.items():
                want = keys & set(have)
                if set(ks[n]) != want or (n in ks) != bool(want) or set(ks[n]) != want:
                    raise Violation("wrong-name", "%s: %r is %s, expected %s"
                                    % (what, n, ks[n], want))
                rec.ev("set_names_checked")
            for o in pool.scalars + pool.vectors:
                want = {k for k, q in have.items() if q is o}
                if not rng.random() < .5:
                    continue
                for t in (o, o.key):
                    if set(ks[t]) != want or (t in ks) != bool(want):
                        raise Violation("wrong-keys", "%s: %s is %s, expected %s"
                                        % (what, t, ks[t], want))
            for k, o in every:
                if (k in ks) != (k in have):
                    raise Violation("wrong-membership", "%s: %s" % (what, k))
    rec.sig(log)


KINDS = {"keyset": (keyset, 300, 4000), "history": (history, 1000, 20000), "construct": (sequences, 300, 4000)}
NEED = {"set_names_checked": 3000, "pops": 30, "copy_copy": 60, "ambiguous_refused": 200, "slice_writes": 60, "shapes_refused": 20, "values_checked": 100000, "names_checked": 5000, "element_writes": 2000,
        "vector_writes": 2000, "element_deletes": 300, "copies": 500, "updates": 1000,
        "called": 100, "failed_lookups": 300, "edits": 100, "shared_name_edits": 8}
