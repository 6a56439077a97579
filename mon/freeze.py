"""Deep snapshots: what an object observably is, as plain nested tuples.

freeze(x) never calls a method of x that computes lazily without also recording the
underlying data, and two snapshots are compared with differences() so that a report says
where they differ.
"""
import numpy as np

VKDROP = {"value", "gradients", "necessarylineage", "evalfn", "original_fn",
          "veckey", "linked", "unitrepr"}


def unitrepr(u):
    if u is None:
        return None
    u = getattr(u, "units", u)
    return str(u)


def num(x):
    "A number, exactly (nan equals nan)"
    x = float(x)
    return "nan" if x != x else x


def freeze(x, deep=0):
    "nested tuples describing x"
    import gpkit
    from gpkit.varkey import VarKey
    if deep > 40:
        return ("deep", type(x).__name__)
    d = deep + 1
    if x is None or isinstance(x, (str, bytes, bool)):
        return (type(x).__name__, x)
    if isinstance(x, (int, float, complex, np.number, np.bool_)):
        return (type(x).__name__, num(x) if not isinstance(x, complex) else x)
    if isinstance(x, VarKey):
        return ("VarKey", x.eqstr, x.name, x.idx, x.shape, x.lineage, unitrepr(x.units),
                hash(x), str(x.descr.get("label")),
                None if x.veckey is None else x.veckey.eqstr)
    if hasattr(x, "hmap"):
        return ("nomial", type(x).__name__, hmap(x.hmap), unitrepr(x.units),
                hash(x), bool(x.any_nonpositive_cs),
                freeze(x.key, d) if hasattr(x, "key") else None)
    if hasattr(x, "oper") and hasattr(x, "left"):
        out = ["constraint", type(x).__name__, x.oper, freeze(x.left, d),
               freeze(x.right, d), str(x)]
        if hasattr(x, "unsubbed"):
            out.append(tuple(freeze(p, d) for p in x.unsubbed))
        for attr in ("vks", "bounded"):
            if isinstance(getattr(x, attr, None), (set, frozenset)):
                out.append((attr, tuple(sorted(map(str, getattr(x, attr))))))
        return tuple(out)
    if isinstance(x, np.ndarray):
        key = getattr(x, "key", None)
        return ("ndarray", type(x).__name__, x.shape, x.dtype.str,
                None if key is None else freeze(key, d),
                tuple(freeze(e, d) for e in x.ravel().tolist()) if x.dtype == object
                else tuple(num(e) for e in np.asarray(x).ravel().tolist())
                if x.dtype.kind in "fiub" else str(x))
    if hasattr(x, "magnitude"):
        return ("Quantity", freeze(x.magnitude, d), unitrepr(x.units))
    if isinstance(x, gpkit.constraints.set.ConstraintSet):
        return cset(x, d)
    if isinstance(x, dict):
        items = [(freeze(k, d), freeze(v, d)) for k, v in x.items()]
        keymap = None
        if hasattr(x, "keymap"):
            keymap = ("keydict",)
        return ("dict", type(x).__name__, keymap, tuple(sorted(items, key=repr)),
                )
    if isinstance(x, (list, tuple)):
        return (type(x).__name__, tuple(freeze(e, d) for e in x))
    if isinstance(x, (set, frozenset)):
        return (type(x).__name__, tuple(sorted((freeze(e, d) for e in x), key=repr)))
    if callable(x):
        return ("callable", id(x))
    return ("object", type(x).__name__, id(x))


def hmap(h):
    "terms of a hmap, with freshly computed hashes of the exponents beside stored ones"
    from functools import reduce
    from operator import xor
    out = []
    for exp, c in h.items():
        fresh = reduce(xor, map(hash, dict(exp).items()), 0)
        out.append((tuple(sorted((vk.eqstr, num(x)) for vk, x in exp.items())), num(c),
                    fresh == hash(exp)))
    return ("hmap", tuple(sorted(out)), unitrepr(h.units))


def cset(x, d=0):
    "a constraint set: structure, substitutions, variables"
    out = ["cset", type(x).__name__, tuple(freeze(c, d+1) for c in x),
           freeze(dict(x.substitutions), d+1),
           tuple(sorted(vk.eqstr for vk in x.vks)),
           tuple(sorted(vk.eqstr for vk in x.unique_varkeys)),
           tuple(sorted(map(str, x.bounded))),
           tuple(sorted(map(str, x.idxlookup))), getattr(x, "lineage", None)]
    if getattr(x, "cost", None) is not None:
        out.append(freeze(x.cost, d+1))
    return tuple(out)


def differences(a, b, path="", limit=6):
    "where two snapshots differ"
    if a == b:
        return []
    if isinstance(a, tuple) and isinstance(b, tuple) and len(a) == len(b):
        out = []
        tag = a[0] if a and isinstance(a[0], str) else ""
        for i, (x, y) in enumerate(zip(a, b)):
            out += differences(x, y, "%s/%s%i" % (path, tag, i), limit)
            if len(out) >= limit:
                break
        return out
    return ["%s: %.150s -> %.150s" % (path, a, b)]
