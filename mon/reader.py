"""Reads gpkit's printed expressions back, with ordinary operator precedence.

Every value read is a T: a value, how far it may be off because numbers are printed to a few
digits, and dimensions.  Arrays are object arrays of T.  Nothing of gpkit is used except
its unit registry, to look up the names of units.
"""
import math
import re
import numpy as np
from .alg import DIMLESS, dimadd, unit_factor

SUP = {c: str(i) for i, c in enumerate("⁰¹²³⁴⁵⁶⁷⁸⁹")}
NUM = re.compile(r"(\d+\.?\d*|\.\d+)(e[+-]?\d+)?")
PART = re.compile(r"\(π/(\d+\.?\d*)\)")
TRAIL = re.compile(r"^(.*\S) \[([^\[\]]*)\]$", re.S)


class ReadError(Exception):
    "the text does not read as an expression"


class T:
    "value, possible error, dims"
    __slots__ = ("v", "e", "d")

    def __init__(self, v, e=0., d=DIMLESS):
        self.v, self.e = float(v), float(e)
        self.d = None if d is None else tuple(d)     # None: a zero, of any dimensions

    def __repr__(self):
        return "%.6g±%.2g %s" % (self.v, self.e, self.d)

    def __add__(self, o):
        if isinstance(o, np.ndarray):
            return NotImplemented
        if self.d != o.d and self.d is not None and o.d is not None:
            raise ReadError("dimensions %s + %s" % (self.d, o.d))
        return T(self.v+o.v, self.e+o.e, o.d if self.d is None else self.d)

    def __neg__(self):
        return T(-self.v, self.e, self.d)

    def __sub__(self, o):
        return NotImplemented if isinstance(o, np.ndarray) else self + -o

    def __mul__(self, o):
        if isinstance(o, np.ndarray):
            return NotImplemented
        return T(self.v*o.v, abs(self.v)*o.e + abs(o.v)*self.e + self.e*o.e,
                 both(self.d, o.d))

    def __truediv__(self, o):
        if isinstance(o, np.ndarray):
            return NotImplemented
        if o.v == 0:
            return T(math.nan, math.inf, both(self.d, o.d, -1))
        room = abs(o.v) - o.e
        q = self.v/o.v
        e = (self.e + abs(q)*o.e)/room if room > 0 else math.inf
        return T(q, e, both(self.d, o.d, -1))

    def __pow__(self, n):
        "n is a T without dims, of which the error may be nonzero"
        if isinstance(n, np.ndarray):
            return NotImplemented
        if n.d not in (DIMLESS, None):
            raise ReadError("power with dimensions")
        if n.e and self.d not in (DIMLESS, None):
            raise ReadError("inexact power of something with dimensions")
        x = n.v
        if x == 0 and not n.e:
            return T(1)
        d = None if self.d is None else tuple(round(a*n.v, 9) for a in self.d)
        if self.v <= 0 and (x != int(x) or x < 0):
            return T(math.nan, math.inf, d)
        v = self.v**x
        es = []
        for s in (-1, 1):
            b = abs(self.v) + s*self.e
            for t in (-1, 1):
                y = x + t*n.e
                if b <= 0 and y <= 0:
                    return T(v, math.inf, d)
                es.append(abs((b**y if b > 0 else 0) - abs(v)))
        return T(v, max(es), d)

    def close(self, want, rel=1e-9):
        "is this the Val wanted, as far as the printed digits tell?"
        return self.d in (want.d, None) and (abs(self.v-want.v) <= self.e*1.0001
                                     + rel*(want.a + abs(want.v)) + 1e-300)

    def tells(self, want):
        "does the printed precision say anything?"
        return self.e < .3*abs(want.v) + 1e-9*want.a


def both(d, e, k=1):
    return None if d is None or e is None else dimadd(d, e, k)


def number(tok, digits=3):
    "(value, error) of a printed number: half a unit of its last digit"
    v = float(tok)
    if not v:
        return 0., 0.
    mant = tok.split("e")[0].replace(".", "").lstrip("0")
    shown = max(digits, len(mant) if "." in tok or "e" in tok else 0)
    return v, .5*10.**(math.floor(math.log10(abs(v))) - shown + 1)


UNITCACHE = {}


def unit(text):
    "(factor, dims) of a printed unit"
    if text not in UNITCACHE:
        UNITCACHE[text] = read_unit(text)
    return UNITCACHE[text]


def read_unit(text):
    import gpkit
    f, d, sign = 1., DIMLESS, 1
    parts = re.split(r"([⋅/])", re.sub("(?<=[⁰¹²³⁴⁵⁶⁷⁸⁹])⋅(?=[⁰¹²³⁴⁵⁶⁷⁸⁹])", ".", text))
    for part in parts:
        if part == "⋅":
            sign = 1
        elif part == "/":
            sign = -1
        elif part == "1":
            continue
        else:
            m = re.match(r"^([^⁰¹²³⁴⁵⁶⁷⁸⁹⁻.]+)([⁻⁰¹²³⁴⁵⁶⁷⁸⁹.]*)$", part)
            if not m:
                raise ReadError("not a unit: %r" % text)
            x = "".join("-" if c == "⁻" else SUP.get(c, c) for c in m.group(2)) or "1"
            try:
                uf, ud = unit_factor(gpkit.ureg.Quantity(1, m.group(1)))
            except Exception as e:
                raise ReadError("unknown unit %r: %s" % (text, e))
            f *= uf**(sign*float(x))
            d = dimadd(d, ud, sign*float(x))
    return f, d


WORD = re.compile(r"\w")


class Reader:
    """names: {printed name: T or object array of T}

    magnitudes: the text was printed from terms, whose exponents have two digits
    """

    def __init__(self, text, names, magnitudes=False):
        self.s, self.i = text, 0
        self.table = names
        self.names = sorted(names.items(), key=lambda kv: -len(kv[0]))
        self.terms = magnitudes
        self.named = False

    def read(self):
        out = self.sum()
        self.space()
        if self.i != len(self.s):
            raise ReadError("left over: %r of %r" % (self.s[self.i:], self.s))
        return out

    def space(self):
        while self.i < len(self.s) and self.s[self.i] in " \n":
            self.i += 1

    def eat(self, tok):
        if self.s.startswith(tok, self.i):
            self.i += len(tok)
            return True
        return False

    def peek(self):
        return self.s[self.i:self.i+1]

    def sum(self):
        out = self.term()
        while True:
            if self.eat(" + "):
                out = apply(out, self.term(), lambda a, b: a+b)
            elif self.eat(" - "):
                out = apply(out, self.term(), lambda a, b: a-b)
            else:
                return out

    def term(self):
        out = self.unary()
        if self.terms and self.named:     # a coefficient of about one is not shown
            out = out*T(1, 5e-3)
        while True:
            if self.eat("·"):
                out = apply(out, self.unary(), lambda a, b: a*b)
            elif self.eat("/"):
                out = apply(out, self.unary(), lambda a, b: a/b)
            else:
                return out

    def unary(self):
        if self.eat("-"):
            return each(lambda a: -a, self.unary())
        return self.power()

    def power(self):
        base = self.postfix()
        if not self.eat("^"):
            return base
        if self.s[self.i-2:self.i-1] in SUP:
            raise ReadError("a power on a power: %r" % self.s)
        neg = self.eat("-")
        if self.peek() == "[":
            expo = each(exact, self.array())
        else:
            m = NUM.match(self.s, self.i)
            if not m:
                raise ReadError("no exponent at %r" % self.s[self.i:])
            self.i = m.end()
            v, e = number(m.group(), 2)
            expo = T(v, e if self.terms else 0)
        if neg:
            expo = each(lambda a: -a, expo)
        nxt = self.peek()
        if nxt and (nxt in SUP or nxt in "^[." or WORD.match(nxt)):
            raise ReadError("what does the exponent include? %r" % self.s)
        return apply(base, expo, lambda a, b: a**b)

    def postfix(self):
        out = self.atom()
        while True:
            c = self.peek()
            if c and c in SUP:
                digits = ""
                while self.peek() and self.peek() in SUP:
                    digits += SUP[self.peek()]
                    self.i += 1
                out = apply(out, T(int(digits)), lambda a, b: a**b)
            elif c == "[":
                out = self.index(out)
            elif self.eat(".sum()"):
                out = fold(out, lambda a, b: a+b)
            elif self.eat(".prod()"):
                out = fold(out, lambda a, b: a*b)
            else:
                return out

    def closing(self):
        depth = 0
        for j in range(self.i, len(self.s)):
            depth += {"[": 1, "]": -1}.get(self.s[j], 0)
            if not depth:
                return j
        raise ReadError("unclosed [ in %r" % self.s)

    def index(self, out):
        j = self.closing()
        text = self.s[self.i+1:j]
        self.i = j+1
        if not re.match(r"^[\d\s:,.\[\]\-]*(None|True|False|Ellipsis|\.\.\.|[\d\s:,.\[\]\-])*$", text):
            raise ReadError("not an index: %r" % text)
        idx = index_value(text)
        if not isinstance(out, np.ndarray):
            raise ReadError("indexing a scalar: %r" % self.s)
        try:
            return out[idx]
        except IndexError as e:
            raise ReadError("index: %s" % e)

    def array(self):
        "[a, b] or [[1 2] [3 4]]"
        j = self.closing()
        inner, self.i = self.s[self.i+1:j].strip(), j+1
        out = []
        for part in split(inner, ", "):
            part = part.strip()
            if part.startswith("["):
                subs = split(part, None)
                out += [Reader(p, self.table, self.terms).array() for p in subs]
            elif re.match(r"^[-\d.e+\s]+$", part):
                for tok in part.split():
                    v, e = number(tok.lstrip("-"))
                    out.append(T(-v if tok[0] == "-" else v, e, DIMLESS if v else None))
            else:
                good = [g for g, u in readings(part, self.table, self.terms)
                        if u is None or g.d in (u[1], None)]
                if not good:
                    raise ReadError("units of %r" % part)
                out.append(good[0])
        shapes = {getattr(o, "shape", ()) for o in out}
        if len(shapes) > 1:
            raise ReadError("ragged array %r" % self.s)
        shape = shapes.pop() if shapes else ()
        arr = np.empty((len(out),)+shape, dtype=object)
        for k, o in enumerate(out):
            arr[k] = o
        return arr

    def atom(self):
        for name, val in self.names:
            if self.s.startswith(name, self.i):
                j = self.i + len(name)
                if j < len(self.s) and WORD.match(name[-1]) and self.s[j] not in SUP \
                        and WORD.match(self.s[j]):
                    continue
                self.i, self.named = j, True
                return val
        self.named = False
        m = PART.match(self.s, self.i)
        if m:
            self.i = m.end()
            n, e = number(m.group(1))
            return self.with_units(math.pi/n, math.pi/n*(e/n + 2e-3))
        if self.eat("("):
            out = self.sum()
            if not self.eat(")"):
                raise ReadError("no ) at %r of %r" % (self.s[self.i:], self.s))
            return out
        if self.eat("π"):
            return self.with_units(math.pi, math.pi*2e-3)
        if self.peek() == "[":
            return self.array()
        m = NUM.match(self.s, self.i)
        if not m:
            raise ReadError("nothing readable at %r of %r" % (self.s[self.i:], self.s))
        self.i = m.end()
        v, e = number(m.group())
        if self.eat("π"):
            v, e = v*math.pi, e*math.pi + 2e-3*v*math.pi
        elif self.peek() and WORD.match(self.peek()) and self.peek() not in SUP:
            raise ReadError("a number followed by %r" % self.s[self.i:])
        return self.with_units(v, e)

    def with_units(self, v, e):
        "a number, and the units printed after it"
        out = T(v, e, DIMLESS if v else None)
        if self.s.startswith(" [", self.i):
            self.i += 1
            j = self.closing()
            f, d = unit(self.s[self.i+1:j])
            self.i = j+1
            out = out*T(f, 0, d)
        return out


def split(text, sep):
    "parts outside of any brackets, separated by sep (or by whitespace)"
    parts, depth, start, i = [], 0, 0, 0
    while i < len(text):
        depth += {"[": 1, "(": 1, "]": -1, ")": -1}.get(text[i], 0)
        if not depth and (text.startswith(sep, i) if sep else text[i].isspace()):
            parts.append(text[start:i])
            start = i + (len(sep) if sep else 1)
            i = start
            continue
        i += 1
    parts.append(text[start:])
    return [p for p in parts if p.strip()]


def exact(a):
    "array exponents are shown to eight digits"
    return T(a.v, 0)


def index_value(text):
    def one(t):
        t = t.strip()
        if t in ("...", "Ellipsis"):
            return Ellipsis
        if t == "None":
            return None
        if t in ("True", "False"):
            return t == "True"
        if t.startswith("["):
            return np.array([one(p) for p in re.findall(r"-?\d+|True|False", t)])
        if ":" in t:
            return slice(*[int(p) if p.strip() else None for p in t.split(":")])
        return int(t)
    parts, depth, cur = [], 0, ""
    for c in text:
        depth += {"[": 1, "]": -1}.get(c, 0)
        if c == "," and not depth:
            parts.append(cur)
            cur = ""
        else:
            cur += c
    parts.append(cur)
    try:
        vals = [one(p) for p in parts]
    except ValueError as e:
        raise ReadError("index %r: %s" % (text, e))
    return vals[0] if len(vals) == 1 else tuple(vals)


def each(f, a):
    if isinstance(a, np.ndarray):
        out = np.empty(a.shape, dtype=object)
        for i in np.ndindex(*a.shape):
            out[i] = f(a[i])
        return out
    return f(a)


def apply(a, b, f):
    if not isinstance(a, np.ndarray) and not isinstance(b, np.ndarray):
        return f(a, b)
    try:
        x, y = np.broadcast_arrays(np.asarray(a, dtype=object), np.asarray(b, dtype=object))
    except ValueError as e:
        raise ReadError(str(e))
    out = np.empty(x.shape, dtype=object)
    for i in np.ndindex(*x.shape):
        out[i] = f(x[i], y[i])
    return out


def fold(a, f):
    if not isinstance(a, np.ndarray):
        return a
    flat = list(a.flat)
    out = flat[0]
    for b in flat[1:]:
        out = f(out, b)
    return out


def readings(text, names, magnitudes=False, trailing=True):
    """All ways the text reads: with its last bracket as the units of the whole, or not.

    Returns [(value, trailing (factor, dims) or None)]
    """
    out, errors = [], []
    m = TRAIL.match(text)
    if trailing and m:
        try:
            out.append((Reader(m.group(1), names, magnitudes).read(), unit(m.group(2))))
        except ReadError as e:
            errors.append(str(e))
    try:
        out.append((Reader(text, names, magnitudes).read(), None))
    except ReadError as e:
        errors.append(str(e))
    if not out:
        raise ReadError("; ".join(errors))
    return out
