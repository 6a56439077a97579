"""C25: tables and exported files contain every value they claim, correctly.

Tables are read back section by section, row by row; CSV files with the csv module, MATLAB
files with scipy, dataframes with a stand-in for pandas that keeps the rows.  Every row must
be one variable of the section, exactly once, with the numbers stored for it; what is missing
must be excluded by a stated filter; the solution is as before.
"""
import contextlib
import csv
import math
import os
import re
import shutil
import sys
import tempfile
import types
import numpy as np
from ..core import Violation, Skip
from .. import alg
from . import c22, c23

PROP = "C25"
RULE = ("a case is one solution and several outputs of it; non-trivial when a variable was "
        "found in an output, identified by solution and options")
TECH = ("reading back of printed tables and written files against the raw stored arrays; "
        "snapshots of solution and model around every output")
NOTE = ("names containing ' : ', labels starting with a number or bracket, and, in MATLAB files, "
        "names that differ only by '.' and '_' or start with '_' are excluded")
CPU_LIMIT = 60
QUICK_S = 110


# ------------------------------------------------------------------ reading tables
DATA = {"Swept Variables": "sweepvariables", "Free Variables": "freevariables",
        "Fixed Variables": "constants", "Variables": "variables"}
SENS = {"Variable Sensitivities": "sensitivities",
        "Most Sensitive Variables": "top sensitivities",
        "Next Most Sensitive Variables": "top sensitivities",
        "Insensitive Fixed Variables": "insensitivities"}
NUM = re.compile(r"\s*([+-]?\d[\d.]*(?:e[+-]?\d+)?|[+-]?inf|-)(?=\s|$)")


def number(tok):
    return math.nan if tok == "-" else float(tok)


def take(text):
    "(numbers at the start, rest)"
    out = []
    while True:
        m = NUM.match(text)
        if not m:
            return out, text
        out.append(number(m.group(1)))
        text = text[m.end():]


def sections(text):
    "[(title, lines)]"
    out, lines = [], text.split("\n")
    i = 0
    while i < len(lines):
        if (i+1 < len(lines) and len(lines[i+1]) >= 8 and set(lines[i+1]) == {"-"}
                and lines[i].strip()):
            out.append((lines[i], []))
            i += 2
        elif lines[i] == "WARNINGS":
            out.append(("WARNINGS", []))
            j = lines.index("~~~~~~~~", i+2)
            out[-1][1].extend(lines[i+2:j])
            i = j+1
        elif set(lines[i]) == {"~"}:
            i += 1
        else:
            if out:
                out[-1][1].append(lines[i])
            elif lines[i].strip():
                raise Violation("unreadable", "%r before any title in\n%s" % (lines[i], text))
            i += 1
    return out


def variable_rows(lines, units):
    "rows of a section of variables"
    rows, model, last = [], "", None
    for line in lines:
        if not line.strip():
            model = ""
            continue
        m = re.match(r"^\s*\| (.*)$", line)
        if m:
            model = m.group(1)
            continue
        if last is not None and last["open"]:
            vals, rest = take(line)
            last["lines"].append(vals)
            if rest.strip() == "]":
                last["open"] = False
            elif rest.strip() or not vals:
                raise Violation("unreadable", "%r within %s" % (line, last))
            continue
        m = re.match(r"^\s*(\S.*?) : (.*)$", line)
        if not m:
            raise Violation("unreadable", "%r in\n%s" % (line, "\n".join(lines)))
        body = m.group(2)
        last = {"model": model, "name": m.group(1).strip(), "open": False, "vector": False,
                "lines": [], "units": "", "label": ""}
        if body.startswith("[ "):
            last["vector"], last["open"] = True, True
            vals, body = take(body[2:])
            last["lines"].append(vals)
            b = body.lstrip()
            if b.startswith("] ") or b == "]":
                last["open"], body = False, b[1:]
        else:
            m = NUM.match(body)
            if not m:
                raise Violation("unreadable", "%r in\n%s" % (line, "\n".join(lines)))
            last["lines"].append([number(m.group(1))])
            body = body[m.end():]
        m = re.match(r"^\s*\[([^\]]*)\]\s*(.*)$", body) if units else None
        if m:
            last["units"], body = m.group(1), m.group(2)
        last["label"] = body.strip()
        rows.append(last)
    if last is not None and last["open"]:
        raise Violation("unreadable", "%s is never closed in\n%s" % (last, "\n".join(lines)))
    return rows


# ------------------------------------------------------------------ judging rows
def modelname(k):
    return ".".join(n + (str(i) if i else "") for n, i in (k.lineage or ()))


def same_units(text, key):
    import gpkit
    if not text:
        return key.units is None or (
            alg.unit_factor(key.units)[1] == alg.unit_factor(None)[1]
            and abs(alg.unit_factor(key.units)[0]-1) < 1e-12)
    plain = text
    for sup, n in zip("⁰¹²³⁴⁵⁶⁷⁸⁹", "0123456789"):
        plain = plain.replace(sup, "**" + n if not plain[:plain.index(sup)][-2:-1] == "**"
                              else n) if sup in plain else plain
    plain = plain.replace("·", "*").replace("⁻**", "**-").replace("⁻", "**-")
    try:
        u = gpkit.ureg.Quantity(1, plain)
    except Exception:
        return text == key.unitstr()
    a, b = alg.unit_factor(u), alg.unit_factor(key.units)
    return a[1] == b[1] and abs(a[0]/b[0]-1) < 1e-9


def shown_as(fmt, w):
    return math.nan if math.isnan(w) else float(fmt % w)


def eq(a, b):
    return a == b or (math.isnan(a) and math.isnan(b))


def layout(value, lines, fmt, maxcolumns, what):
    "numbers of a vector, row by row along one of its axes, the others in order"
    n = {len(l) for l in lines}
    flat = [x for l in lines for x in l]
    if len(n) != 1 or len(flat) != value.size:
        return "%s numbers in rows of %s for shape %s" % (len(flat), n, value.shape)
    n = n.pop()
    fits = [d for d in value.shape if d <= maxcolumns]
    if n > max(1, maxcolumns) or (n == 1 and any(d > 1 for d in fits)):
        return "rows of %s for shape %s" % (n, value.shape)
    for axis in range(value.ndim):
        if value.shape[axis] != n and n != 1:
            continue
        order = np.moveaxis(value, axis, -1).ravel()
        if all(eq(shown_as(fmt, float(w)), p) for w, p in zip(order, flat)):
            return None
    return "printed %s for %s" % (lines, value.tolist())


def judge_rows(rec, rows, want, what, headed, fmts, units, maxcolumns=5, blank=None):
    """every wanted (key: array) once, in its row, and nothing else.

    blank: numbers at or below it within vectors are not printed
    """
    left = list(rows)
    names = {}
    for r in rows:
        if (r["model"], r["name"]) in names:
            raise Violation("ambiguous", "%s: two rows for %s" % (what, (r["model"], r["name"])))
        names[(r["model"], r["name"])] = r
    for k, v in want.items():
        v = np.asarray(v, float)
        full = modelname(k)
        cands = [(full, k.name)] if headed else [("", k.name), ("", full + "." + k.name)]
        found = [names[c] for c in cands if c in names]
        if not headed and len(found) > 1:
            found = found[1:]      # the full name is surer
        if not found:
            raise Violation("missing", "%s: no row for %s; rows %s" % (what, k, sorted(names)))
        r = found[0]
        if r not in left:
            raise Violation("ambiguous", "%s: %s is the row of two variables" % (what, r))
        left.remove(r)
        if r["lines"] is not None:
            if r["vector"] != bool(v.shape):
                raise Violation("wrong-value", "%s: %s of shape %s in %s" % (what, k, v.shape, r))
            if v.shape:
                w = np.where(np.abs(v) <= blank, np.nan, v) if blank else v
                bad = layout(w, r["lines"], fmts[1], maxcolumns, what)
                if bad:
                    raise Violation("wrong-value", "%s: %s: %s" % (what, k, bad))
                rec.ev("vectors")
                if v.ndim > 1:
                    rec.ev("matrices")
            elif not eq(shown_as(fmts[0], float(v)), r["lines"][0][0]):
                raise Violation("wrong-value", "%s: %s is %s, row %s" % (what, k, v, r))
        if units and not same_units(r["units"], k):
            raise Violation("wrong-units", "%s: %s has %r: %s" % (what, k, k.unitstr(), r))
        if r["label"] is not None and r["label"] != (k.label or "").strip():
            raise Violation("wrong-label", "%s: %s is %r: %s" % (what, k, k.label, r))
        rec.ev("rows")
    if left:
        raise Violation("listed-needlessly", "%s: %s" % (what, left))


# ------------------------------------------------------------------ what a table must show
def stored(kd):
    return {k: dict.__getitem__(kd, k) for k in dict.keys(kd)}


class Wanted:
    "what one call of table() should contain"

    def __init__(self, sol, shown=None, **opts):
        self.sol, self.shown, self.opts = sol, shown, opts
        keys = list(dict.keys(sol["variables"]))
        self.headed = (len({k.lineage for k in keys}) > 1 and opts.get("sortbymodel", True))
        self.inc = opts.get("included_models")
        self.exc = opts.get("excluded_models")
        self.n = len(sol)

    def filtered(self, k):
        m = modelname(k)
        if self.shown is not None and k not in self.shown:
            return True
        return bool(self.inc and m and m not in self.inc) or bool(self.exc and m in self.exc)

    def data(self, kind):
        return {k: v for k, v in stored(self.sol[kind]).items()
                if not self.filtered(k) and not np.isnan(np.asarray(v, float)).all()}

    def sens(self, kind):
        "({key: array}, blank level, doubtful keys)"
        s = stored(self.sol["sensitivities"]["variables"])
        s = {k: np.asarray(v, float) for k, v in s.items()}
        minval = self.opts.get("minval", 1e-3)
        doubt = set()
        if kind == "insensitivities":
            maxval, minval = self.opts.get("maxval", .1), None
            s = {k: v for k, v in s.items() if np.mean(np.abs(v)) < maxval}
        if self.shown is not None and kind == "sensitivities":
            s = {k: v for k, v in s.items() if k in self.shown}
        if kind == "insensitivities" and self.shown is not None:
            pass       # this one does not look at showvars
        if kind == "top sensitivities":
            nvars = self.opts.get("nvars", 5)
            means = {k: np.abs(v).mean() for k, v in s.items() if not np.isnan(v).any()}
            already = [k for k in means if self.shown is not None and k in self.shown]
            for k in already:
                del means[k]
                if nvars > 3:
                    nvars -= 1
            ranked = sorted(means, key=lambda k: -means[k])
            keep = ranked[:nvars]
            edge = means[keep[-1]] if keep else None
            near = [k for k in ranked if edge is not None
                    and abs(means[k]-edge) <= 1e-9*abs(edge)+1e-300]
            if len(ranked) > nvars and len(near) > 1:
                doubt = set(near)
            s = {k: s[k] for k in ranked if k in keep or k in doubt}
        out = {}
        for k, v in s.items():
            m = modelname(k)
            if (self.inc and m and m not in self.inc) or (self.exc and m in self.exc):
                continue
            if np.isnan(v).all() or (minval is not None and np.nanmax(np.abs(v)) <= minval):
                continue
            out[k] = v
        return out, (minval if kind == "top sensitivities" else None), doubt


def judge_table(rec, sol, text, tables, shown, what, **opts):
    "one printed table"
    w = Wanted(sol, shown, **opts)
    parts = sections(text)
    seen = []
    for title, lines in parts:
        if title == "Optimal Cost":
            seen.append("cost")
            cost(rec, sol, lines, what)
        elif title in DATA or title in SENS:
            kind = DATA.get(title) or SENS[title]
            seen.append(kind)
            rows = variable_rows(lines, title in DATA)
            if title in DATA:
                want, blank, doubt = w.data(kind), None, ()
                fmts = "%-.4g", "%-8.3g"
            else:
                want, blank, doubt = w.sens(kind)
                fmts = "%+-.2g", "%+-8.2g"
                if kind == "top sensitivities":
                    nexts = shown is not None and any(
                        k in shown and not np.isnan(np.asarray(v, float)).any()
                        for k, v in stored(sol["sensitivities"]["variables"]).items())
                    if (title[:4] == "Next") != nexts:
                        raise Violation("wrong-title", "%s: %s" % (what, title))
                    if doubt:
                        rec.ev("ties")
                        names = {(r["model"], r["name"]) for r in rows}
                        want = {k: v for k, v in want.items() if k not in doubt
                                or (modelname(k) if w.headed else "", k.name) in names}
                        if not w.headed:
                            continue
            judge_rows(rec, rows, want, "%s: %s" % (what, title), w.headed, fmts,
                       title in DATA, opts.get("maxcolumns", 5), blank)
            rec.ev("sections")
        elif title.startswith("Model Sensitivities"):
            seen.append("model sensitivities")
            if bool(opts.get("sortmodelsbysenss", True)) != ("sorts models" in title):
                raise Violation("wrong-title", "%s: %s" % (what, title))
            model_rows(rec, sol, lines, what)
        elif title.startswith("Most Sensitive Constraints"):
            seen.append("tightest constraints")
            constraint_rows(rec, sol, lines, "tight", what, **opts)
        elif title.startswith("Insensitive Constraints |below"):
            seen.append("loose constraints")
            constraint_rows(rec, sol, lines, "loose", what, **opts)
        elif title == "WARNINGS":
            seen.append("warnings")
        elif "warnings" in tables and "warnings" in sol and title.split(" in sweep")[0] in \
                sol["warnings"]:
            pass
        else:
            raise Violation("unreadable", "%s: section %r in\n%s" % (what, title, text))
    expect = []
    for t in tables:
        if t in ("cost", "tightest constraints", "loose constraints"):
            there = t == "cost" or "constraints" in sol["sensitivities"]
        elif t in ("sweepvariables", "freevariables", "constants", "variables"):
            there = t in sol and bool(w.data(t))
        elif t in ("sensitivities", "top sensitivities", "insensitivities"):
            there = bool(w.sens(t)[0])
        elif t == "model sensitivities":
            there = sum(bool(m) for m in sol["sensitivities"]["models"]) > 1
        else:
            there = "warnings" in sol and any(len(x) for x in _wlists(sol))
        if there:
            expect.append(t)
    if w.sens("top sensitivities")[2] and (w.inc or w.exc or "minval" in opts):
        # which of the tied ones are chosen, and whether any are shown, is open
        seen, expect = ([t for t in ts if t != "top sensitivities"] for ts in (seen, expect))
    if seen != expect:
        raise Violation("sections", "%s: sections %s instead of %s in\n%s"
                        % (what, seen, expect, text))
    if "warnings" in seen:
        warning_rows(rec, sol, text, what)
    rec.ev("tables")


def _wlists(sol):
    for v in sol["warnings"].values():
        if hasattr(v, "shape"):
            yield from v
        else:
            yield v


def cost(rec, sol, lines, what):
    body = [l for l in lines if l.strip()]
    if len(body) != 1:
        raise Violation("cost", "%s: %s" % (what, body))
    c = sol["cost"]
    u = getattr(c, "units", None)
    c = np.asarray(getattr(c, "magnitude", c), float)
    line = body[0].strip()
    if c.shape:
        if not line.startswith("["):
            raise Violation("cost", "%s: %s" % (what, body))
        nums, rest = take(line[1:])
        if not rest.lstrip().startswith("...") and len(nums) != len(c):
            raise Violation("cost", "%s: %s for %s" % (what, body, c))
        if len(nums) < min(4, len(c)):
            raise Violation("cost", "%s: %s for %s" % (what, body, c))
        ok = [eq(shown_as("%-8.3g", float(x)), p) for x, p in zip(c, nums)]
        rest = rest.split("]", 1)[1]
    else:
        nums, rest = take(line)
        ok = [len(nums) == 1, eq(shown_as("%-.4g", float(c)), nums[0])]
    if not all(ok):
        raise Violation("cost", "%s: %s for %s" % (what, body, c))
    rest = rest.strip()
    if bool(rest) != bool(u is not None and alg.unit_factor(u)[1] != alg.unit_factor(None)[1]):
        if u is None or rest:
            raise Violation("cost", "%s: %s for %s" % (what, body, sol["cost"]))
    rec.ev("costs")


def model_rows(rec, sol, lines, what):
    ms = {m: np.asarray(v, float) for m, v in sol["sensitivities"]["models"].items() if m}
    got = {}
    for l in lines:
        if l.strip():
            val, name = l.rsplit(" : ", 1)
            if name in got:
                raise Violation("models", "%s: %s twice" % (what, name))
            got[name] = val.strip()
    if set(got) != set(ms):
        raise Violation("models", "%s: %s instead of %s" % (what, set(got), set(ms)))
    for m, v in ms.items():
        s = got[m]
        bound = re.match(r"^<1E([+-]?\d+)$", s)
        if bound:
            ok = (v <= 10.**int(bound.group(1))*(1+1e-9)).all() and (v < .1).all()
        elif s == "=0":
            ok = (v == 0).all()
        elif "[" not in s:
            ok = v.ndim == 0 and abs(float(s)-v) <= .0501
        else:
            mean, rest = s.split(" + [")
            ds = take(re.sub(r"\]", "", rest))[0]
            ok = (len(ds) == v.size and abs(float(mean)-v.mean()) <= .0501
                  and all((math.isnan(p) and abs(x-v.mean()) < .1+1e-9)
                          or abs(p-(x-v.mean())) <= .0501 for p, x in zip(ds, v.ravel())))
        if not ok:
            raise Violation("models", "%s: %s is %s, printed %r" % (what, m, v, s))
        rec.ev("models")


def collisions(sol):
    "names that more than one variable of the solution has"
    by = {}
    for k in dict.keys(sol["variables"]):
        by.setdefault(k.name, set()).add(k.lineage)
    return {n for n, ls in by.items() if len(ls) > 1}


def squash(s):
    return re.sub(r"\s+", "", s)


def value_of(s):
    return float("%+6.2g" % s)


def parse_constraints(lines):
    "[(model, opening, text without whitespace)]"
    rows, model = [], ""
    for l in lines:
        if not l.strip():
            model = ""
            continue
        m = re.match(r"^\s*\| (.*)$", l)
        if m:
            model = m.group(1)
            continue
        m = re.match(r"^\s*([^:]*?) : (.*)$", l)
        if m and (re.match(r"^[+-]?[\d.]+(e[+-]?\d+)?$", m.group(1).strip())
                  or not m.group(1).strip()
                  or re.match(r"^[^ ]+ (>|<|=|>=|<=) [^ ]+$", m.group(1).strip())):
            rows.append([model, m.group(1).strip(), m.group(2)])
        elif rows:
            rows[-1][2] += l
        elif l.strip() == "(none)":
            continue
        else:
            raise Violation("unreadable", repr(l))
    return [(m, o, squash(t)) for m, o, t in rows]


def reads_as(text, c, model, sol):
    "the text shows the constraint, its variables named as far as needed to tell them apart"
    from gpkit.small_scripts import try_str_without
    full = squash(try_str_without(c, ("units",)))
    many = collisions(sol)
    names = {modelname(k) + "." + k.name: k for k in dict.keys(sol["variables"]) if k.lineage}
    if not names:
        return text == full
    rx = re.compile(r"(?<![A-Za-z0-9_.])(?:%s)(?![A-Za-z0-9_{])" % "|".join(
        map(re.escape, sorted(names, key=lambda s: -len(s)))))
    out, last = "", 0
    for hit in rx.finditer(full):
        out += re.escape(full[last:hit.start()])
        f = hit.group(0)
        ways = {f}
        if model and f.startswith(model + "."):
            ways.add(f[len(model)+1:])
        if names[f].name not in many:
            ways.add(names[f].name)
        out += "(?:%s)" % "|".join(re.escape(x) for x in sorted(ways, key=lambda s: -len(s)))
        last = hit.end()
    out += re.escape(full[last:])
    return re.fullmatch(out, text) is not None


def constraint_rows(rec, sol, lines, kind, what, **opts):
    senss = {}
    for c, s in sol["sensitivities"]["constraints"].items():
        s = np.asarray(s, float)
        senss[c] = float(s.ravel()[-1])
    rows = parse_constraints(lines)
    headed = opts.get("sortbymodel", True) and Wanted(sol, **opts).headed
    if kind == "tight":
        least, n = opts.get("tight_senss", 1e-2), opts.get("ntightconstrs", 5)
        edge = [c for c, s in senss.items() if abs(s-least) < 1e-9*least]
        want = sorted((c for c, s in senss.items() if s >= least),
                      key=lambda c: -value_of(senss[c]))[:n]
    else:
        most = opts.get("min_senss", 1e-5)
        edge = [c for c, s in senss.items() if abs(s-most) < 1e-9*most]
        want = [c for c, s in senss.items() if s <= most]
    if edge:
        return
    if not want:
        if [r[2] for r in rows] not in (["(none)"], []):
            raise Violation("constraints", "%s: %s" % (what, rows))
        if not any("(none)" in l for l in lines):
            raise Violation("constraints", "%s: nothing said" % what)
        return
    if len(rows) != len(want):
        raise Violation("constraints", "%s: %s %s constraints, rows %s" % (
            what, len(want), kind, rows))
    if kind == "tight":
        got = sorted(-float(r[1]) for r in rows)
        exp = sorted(-value_of(senss[c]) for c in want)
        if got != exp:
            raise Violation("constraints", "%s: sensitivities %s instead of %s"
                            % (what, got, exp))
    elif any(r[1] for r in rows):
        raise Violation("constraints", "%s: %s" % (what, rows))
    # every row is a constraint with that sensitivity, and not the same one twice
    left = [c for c, s in senss.items() if kind == "tight" or c in set(want)]
    for model, opening, text in rows:
        hit = None
        for c in left:
            if headed and modelname(c) != model:
                continue
            if not headed and model:
                continue
            if kind == "tight" and value_of(senss[c]) != float(opening):
                continue
            if reads_as(text, c, model, sol) or (" at 0x" in str(c)):
                hit = c
                break
        if hit is None:
            raise Violation("constraints", "%s: %s: no constraint of %r reads %r (%s); they are %s"
                            % (what, kind, model, text, opening,
                               [(modelname(c), str(c), senss[c]) for c in left]))
        left.remove(hit)
        rec.ev("constraint_rows")


def warning_rows(rec, sol, text, what):
    body = squash(text.split("WARNINGS", 1)[1].split("\n~~~~~~~~", 2)[1]
                  if "WARNINGS" in text else "")
    for wtype, vec in sol["warnings"].items():
        lists = list(vec) if hasattr(vec, "shape") else [vec]
        for i, data in enumerate(lists):
            if not len(data):
                continue
            title = wtype + (" in sweep %i" % i if len(lists) > 1 else "")
            if squash(title) not in body:
                raise Violation("warnings", "%s: no %r in\n%s" % (what, title, text))
            for msg, c in data:
                if wtype == "Unexpectedly Tight Constraints" and c is not None:
                    probe = "%+6.2g" % msg.relax_sensitivity
                elif wtype == "Unexpectedly Loose Constraints" and c is not None:
                    probe = "%.4g %s %.4g" % msg.tightvalues
                else:
                    probe = str(msg)
                if squash(probe) not in body and squash(str(msg)) not in body:
                    raise Violation("warnings", "%s: %r of %r is not in\n%s" % (what, probe,
                                                                               title, text))
                rec.ev("warnings")


# ------------------------------------------------------------------ LaTeX
def latex_rows(rec, sol, text, tables, shown, which, what, **opts):
    w = Wanted(sol, shown, **opts)
    parts = re.findall(r"\\begin\{longtable\}\{(\w+)\}\n\\toprule\n(.*?)\\bottomrule\n"
                       r"\\end\{longtable\}\}", text, re.S)
    expect = [t for t in tables if t in ("sweepvariables", "freevariables", "constants",
                                         "variables") and t in sol and w.data(t)
              or t == "sensitivities" and w.sens(t)[0]]
    titles = []
    for colspec, body in parts:
        lines = body.rstrip("\n").split("\n")
        head = lines[0]
        if not head.endswith(r"\\ \midrule"):
            raise Violation("latex", "%s: %r" % (what, head))
        cols = [c.strip() for c in head[:-len(r"\\ \midrule")].split(" & ")]
        if len(cols) != len(colspec):
            raise Violation("latex", "%s: %s columns for %s" % (what, cols, colspec))
        kind = DATA.get(cols[0]) or SENS.get(cols[0])
        titles.append(kind)
        rows, model = [], ""
        for line in lines[1:]:
            if not line.endswith(r"\\"):
                raise Violation("latex", "%s: %r" % (what, line))
            cells = line[:-2].rstrip()
            m = re.match(r"^\\multicolumn\{(\d)\}\{l\}\{\\textbf\{(.*)\}\}$", cells)
            if m:
                model = m.group(2)
                continue
            cells = [c.strip() for c in re.split(r"(?:^|(?<= ))&(?: |$)", cells)]
            if len(cells) != len(cols):
                raise Violation("latex", "%s: %s cells in %r" % (what, len(cells), line))
            if not any(cells):
                model = ""
                continue
            cell = dict(zip(cols, cells))
            val = cell.get("Value")
            if not cells[0]:
                nums, rest = take(val)
                rows[-1]["lines"].append(nums)
                continue
            row = {"model": model, "name": re.fullmatch(r"\$(.*)\$", cells[0]).group(1),
                   "lines": None, "vector": False, "label": None,
                   "units": cell["Units"]}
            if "Description" in cell:
                row["label"] = cell["Description"]
            if val is not None:
                row["vector"] = val.startswith("[")
                nums, rest = take(val.strip("[ "))
                row["lines"] = [nums]
            rows.append(row)
        if kind == "sensitivities":
            want, _, _ = w.sens(kind)
            fmts = "%+-.2g", "%+-8.2g"
        else:
            want, fmts = w.data(kind), ("%-.4g", "%-8.3g")
        for k in want:
            r = [r for r in rows if r["name"] == k.name and
                 (not w.headed or r["model"] == modelname(k))]
            u = "$%s$" % k.latex_unitstr() if kind != "sensitivities" else ""
            if r and w.headed and r[0]["units"] not in (u, "$$" if not u else u):
                raise Violation("wrong-units", "%s: %s is %r: %s" % (what, k, u, r))
        judge_rows(rec, rows, want, "%s: LaTeX %s %s" % (what, which, kind), w.headed, fmts,
                   False, opts.get("maxcolumns", 5))
        rec.ev("latex_tables")
    if titles != expect:
        raise Violation("sections", "%s: LaTeX tables %s instead of %s in\n%s"
                        % (what, titles, expect, text))


# ------------------------------------------------------------------ files
def expected_names(sol, shown):
    "{key: name} for files: lineage only where needed"
    keys = [k for k in dict.keys(sol["variables"])]
    count = {}
    for k in keys:
        count[k.name] = count.get(k.name, 0) + 1
    out = {}
    for k in keys:
        if shown is None or k in shown:
            m = modelname(k)
            out[k] = (m + "." + k.name) if m and count[k.name] > 1 else k.name
    return out


def check_csv(rec, sol, path, shown, valcols, what):
    with open(path, newline="") as f:
        rows = list(csv.reader(f))
    head = rows[0]
    if head[:3] != ["Model Name", "Variable Name", "Value(s)"] or \
            head[-2:] != ["Units", "Description"]:
        raise Violation("csv", "%s: %s" % (what, head))
    ncols = len(head)-4
    if ncols > max(valcols, 1):
        raise Violation("csv", "%s: %s value columns, asked %s" % (what, ncols, valcols))
    model, out = "", []
    for r in rows[1:]:
        if not any(c.strip() for c in r):
            model = ""
            continue
        if len(r) != len(head):
            raise Violation("csv", "%s: %s cells in %s under %s" % (what, len(r), r, head))
        if r[0]:
            model = r[0]
        vals = [number(c.strip()) for c in r[2:-2] if c.strip()]
        if any(c.strip() for c in r[2+len(vals):-2]):
            raise Violation("csv", "%s: gap in %s" % (what, r))
        if r[1]:
            out.append({"model": model, "name": r[1], "lines": [vals], "vector": None,
                        "units": r[-2], "label": r[-1]})
        else:
            if r[0] or r[-1] or r[-2] or not out:
                raise Violation("csv", "%s: %s" % (what, r))
            out[-1]["lines"].append(vals)
    w = Wanted(sol, shown)
    want = w.data("variables")
    for k, v in want.items():
        for r in out:
            if r["name"] == k.name and r["model"] == modelname(k):
                r["vector"] = bool(np.shape(v))
    judge_rows(rec, out, want, "%s: csv" % what, True, ("%-.4g", "%-8.3g"), True,
               max(ncols, 1))
    rec.ev("csv_files")


def check_mat(rec, sol, path, shown, what):
    import scipy.io
    got = {k: v for k, v in scipy.io.loadmat(path).items() if not k.startswith("__")}
    names = {k: n.replace(".", "_") for k, n in expected_names(sol, shown).items()}
    if len(set(names.values())) < len(names) or any(n.startswith("_") for n in names.values()):
        rec.ev("mat_skipped")
        return
    if set(got) != set(names.values()):
        raise Violation("mat", "%s: %s instead of %s" % (what, sorted(got),
                                                        sorted(names.values())))
    for k, n in names.items():
        v = np.asarray(dict.__getitem__(sol["variables"], k), float)
        g = np.asarray(got[n], float)
        if (np.squeeze(g).shape != np.squeeze(v).shape
                or not np.array_equal(np.squeeze(g), np.squeeze(v), equal_nan=True)):
            raise Violation("mat", "%s: %s is %s, written %s" % (what, k, v, g))
        rec.ev("mat_values")


@contextlib.contextmanager
def pandas():
    "a stand-in which keeps what it is given"
    mod = types.ModuleType("pandas")

    class DataFrame:
        def __init__(self, rows, columns):
            self.rows, self.columns = [list(r) for r in rows], list(columns)
    mod.DataFrame = DataFrame
    old = sys.modules.get("pandas")
    sys.modules["pandas"] = mod
    try:
        yield
    finally:
        if old is None:
            del sys.modules["pandas"]
        else:
            sys.modules["pandas"] = old


def check_frame(rec, sol, frame, shown, what):
    if frame.columns != ["Name", "Index", "Value", "Units", "Label", "Lineage", "Other"]:
        raise Violation("frame", "%s: %s" % (what, frame.columns))
    rows = {}
    for r in frame.rows:
        if len(r) != len(frame.columns):
            raise Violation("frame", "%s: %s" % (what, r))
        rows.setdefault((r[0], r[5] or None), []).append(r)
    want = {(k.name, k.lineage or None): k for k in dict.keys(sol["variables"])
            if shown is None or k in shown}
    if set(rows) != set(want):
        raise Violation("frame", "%s: %s instead of %s" % (what, sorted(map(str, rows)),
                                                          sorted(map(str, want))))
    for name, k in want.items():
        v = np.asarray(dict.__getitem__(sol["variables"], k), float)
        rs = rows[name]
        for r in rs:
            if r[4] != (k.label or "") or not same_units(r[3].strip(), k):
                raise Violation("frame", "%s: %s is %r %r: %s" % (what, k, k.unitstr(), k.label,
                                                                 r))
        if not k.shape:
            if len(rs) != 1 or rs[0][1] != "" or \
                    not np.array_equal(np.asarray(rs[0][2], float), v, equal_nan=True):
                raise Violation("frame", "%s: %s is %s: %s" % (what, k, v, rs))
        else:
            got = {(r[1] if isinstance(r[1], tuple) else (r[1],)): r[2] for r in rs}
            if len(got) != len(rs) or set(got) != set(np.ndindex(*v.shape)):
                raise Violation("frame", "%s: %s of shape %s: %s" % (what, k, v.shape, rs))
            for j, x in got.items():
                if not eq(float(x), float(v[j])):
                    raise Violation("frame", "%s: %s%s is %s: %s" % (what, k, j, v[j], x))
        rec.ev("frame_values", len(rs))


# ------------------------------------------------------------------ one solution's outputs
def state(sol, m):
    return (c22.snapshot(sol), str(m), m.str_without(()) if hasattr(m, "str_without") else "",
            sorted((str(k), sorted((a, repr(v)) for a, v in k.descr.items()
                                   if not callable(v)))
                   for k in dict.keys(sol["variables"])))


def pick_shown(rng, sol):
    "(what is asked for, keys it means)"
    keys = list(dict.keys(sol["variables"]))
    import gpkit
    some = rng.sample(keys, min(len(keys), rng.randint(1, 4)))
    ask, means = [], set()
    for k in some:
        r = rng.random()
        if r < .3:
            ask.append(k)
            means.add(k)
        elif r < .5:
            ask.append(k.name)
            means |= {q for q in keys if q.name == k.name}
        elif r < .6 and k.lineage:
            ask.append(".".join(n for n, _ in k.lineage) + "." + k.name)
            means |= {q for q in keys if q.name == k.name and q.lineage
                      and [n for n, _ in q.lineage] == [n for n, _ in k.lineage]}
        elif r < .8:
            ask.append(gpkit.Variable(k) if not k.shape else k)
            means.add(k)
        else:
            ask.append(k)
            means.add(k)
    if rng.random() < .2:
        ask.append("no such thing")
    rng.shuffle(ask)
    return ask, means


ALL = ("cost", "warnings", "sweepvariables", "model sensitivities", "freevariables", "constants",
       "sensitivities", "tightest constraints", "loose constraints", "insensitivities",
       "top sensitivities", "variables")
DEFAULT = ("cost", "warnings", "sweepvariables", "model sensitivities", "freevariables",
           "constants", "sensitivities", "tightest constraints")


def options(rng, sol):
    o = {}
    models = sorted({modelname(k) for k in dict.keys(sol["variables"])})
    if rng.random() < .25:
        o["included_models"] = rng.sample(models, rng.randint(1, len(models)))
    if rng.random() < .25:
        o["excluded_models"] = rng.sample(models, rng.randint(1, len(models)))
    if rng.random() < .2:
        o["sortbymodel"] = False
    if rng.random() < .3:
        o["sortmodelsbysenss"] = False
    if rng.random() < .3:
        o["maxcolumns"] = rng.choice([1, 2, 3, 4, 7, 10])
    if rng.random() < .2:
        o["nvars"] = rng.choice([0, 1, 2, 4, 6, 20])
    if rng.random() < .2:
        o["ntightconstrs"] = rng.choice([0, 1, 2, 20])
    if rng.random() < .2:
        o["tight_senss"] = 10**rng.uniform(-6, 0)
    if rng.random() < .2:
        o["min_senss"] = 10**rng.uniform(-7, 0)
    if rng.random() < .2:
        o["maxval"] = 10**rng.uniform(-4, 1)
    if rng.random() < .1:
        o["minval"] = 10**rng.uniform(-5, 0)
    return o


def tables_of(rng, o):
    ts = [t for t in ALL if rng.random() < .5]
    if "minval" in o:      # then also the other sections' threshold
        ts = [t for t in ts if t in ("cost", "warnings", "sensitivities", "top sensitivities",
                                     "insensitivities", "tightest constraints")]
    rng.shuffle(ts)
    return ts


def outputs(rng, rec, m, sol, what, n=4):
    before = state(sol, m)
    tmp = tempfile.mkdtemp(prefix="c25-")
    try:
        # the plain table and summary
        judge_table(rec, sol, sol.table(), DEFAULT, None, what)
        for _ in range(n):
            o = options(rng, sol)
            ts = tables_of(rng, o)
            ask, shown = pick_shown(rng, sol) if rng.random() < .4 else ((), None)
            text = sol.table(ask, ts, **o)
            judge_table(rec, sol, text, ts, shown, "%s %s %s shown %s" % (what, ts, o, ask), **o)
            rec.sig("table", what, ts, sorted(o), ask)
        summarize(rng, rec, sol, what)
        which = rng.choice([1, 2, 3])
        o = {k: v for k, v in options(rng, sol).items()
             if k not in ("minval", "sortbymodel", "nvars")}
        ts = [t for t in ("sweepvariables", "freevariables", "constants", "sensitivities",
                          "variables") if rng.random() < .7]
        latex_rows(rec, sol, sol.table(tables=ts, latex=which, **o), ts, None, which, what, **o)
        # files
        path = os.path.join(tmp, "out")
        ask, shown = pick_shown(rng, sol) if rng.random() < .4 else (None, None)
        cols = rng.choice([5, 5, 1, 2, 3, 8, 12])
        sol.savecsv(ask, filename=path, valcols=cols)
        check_csv(rec, sol, path, shown, cols, "%s shown %s" % (what, ask))
        with_mat = os.path.join(tmp, "out.mat")
        ask, shown = pick_shown(rng, sol) if rng.random() < .4 else (None, None)
        sol.savemat(with_mat, ask)
        check_mat(rec, sol, with_mat, shown, "%s shown %s" % (what, ask))
        with pandas():
            ask, shown = pick_shown(rng, sol) if rng.random() < .4 else (None, None)
            check_frame(rec, sol, sol.todataframe(ask), shown, "%s shown %s" % (what, ask))
        o = options(rng, sol)
        o.pop("minval", None)
        pm = rng.random() < .5
        sol.savetxt(path, printmodel=pm, **o)
        with open(path) as f:
            got = f.read()
        want = (sol.modelstr + "\n" if pm else "") + sol.table(**o)
        if got != want:
            raise Violation("txt", "%s: %r instead of %r" % (what, got, want))
        rec.ev("txt_files")
        # output that fails
        for _ in range(2):
            fail(rng, rec, sol, tmp)
    finally:
        shutil.rmtree(tmp)
    after = state(sol, m)
    for a, b, nm in zip(before, after, ("solution", "model", "full model", "keys")):
        if a != b:
            raise Violation("changed", "%s: output changed the %s" % (what, nm))
    rec.ev("unchanged")
    rec.sig(what)


def summarize(rng, rec, sol, what):
    ask, shown = pick_shown(rng, sol) if rng.random() < .5 else ((), None)
    nt = rng.choice([5, 5, 0, 1, 2, 9])
    text = sol.summary(ask, nt) if rng.random() < .5 or nt != 5 else sol.summary(ask)
    ts = ["cost", "warnings", "sweepvariables", "freevariables"]
    ncons = len(dict.keys(sol["constants"]))
    if ncons < nt+2 or (shown and any(k in shown for k in dict.keys(sol["constants"]))):
        ts.append("sensitivities")
    if ncons >= nt+2:
        ts.append("top sensitivities")
    ts.append("tightest constraints")
    judge_table(rec, sol, text, ts, shown, "summary(%s, %s) of %s" % (ask, nt, what), nvars=nt)
    rec.ev("summaries")


def fail(rng, rec, sol, tmp):
    way = rng.choice(["latex", "csv", "mat", "txt", "frame", "table"])
    nowhere = os.path.join(tmp, "no", "such")
    try:
        if way == "latex":
            sol.table(latex=9)
        elif way == "csv":
            sol.savecsv(filename=nowhere)
        elif way == "mat":
            sol.savemat(nowhere)
        elif way == "txt":
            sol.savetxt(nowhere)
        elif way == "frame":
            mod = types.ModuleType("pandas")

            def boom(*args, **kwargs):
                raise RuntimeError("no memory")
            mod.DataFrame = boom
            with pandas():
                sys.modules["pandas"].DataFrame = boom
                sol.todataframe()
        else:
            class Boom:
                def __format__(self, spec):
                    raise RuntimeError("boom")

                def __lt__(self, other):
                    raise RuntimeError("boom")
                __rlt__ = __gt__ = __le__ = __ge__ = __lt__
            sol.table(tables=DEFAULT + ("loose constraints",), tight_senss=Boom())
    except (OSError, ValueError, RuntimeError):
        rec.ev("failed " + way)
        return
    if way != "table":
        raise Violation("unreported", "%s reported no error" % way)


# ------------------------------------------------------------------ kinds
def plans(rng, rec):
    m, sol, solve, objs, units, what = c23.get(rng)
    if "cost" not in sol:
        raise Skip("nothing solved")
    outputs(rng, rec, m, sol, what)


NAMES = ["x", "y_{a,b}", "Weight", "W", "A", "A_1", "V_{\\infty}", "Wing", "C_D", "1st", "x_1",
         "rho", "a.b", "l-2", "S", "wing_area"]
LABELS = ["", "", "the wing, main", 'called "big"', "a; b", "drag [total]", "share in %",
          "{0} of {1}", "Größe", "it's", "W", "a : b", "trailing comma,"]
CLASSES = ["W", "Wing", "A", "Weight", "x", "Tail"]
UNITS = [None, None, "m", "N", "kg*m/s^2", "ft", "1/s", "m^2", "W/m^2", "N*m", "-"]


def hostile_spec(rng, depth=0):
    "(class name, variables, children)"
    vars_, used = [], set()
    for _ in range(rng.randint(1 if depth else 2, 5)):
        nm = rng.choice(NAMES)
        if nm in used:
            continue
        used.add(nm)
        shape = rng.choice([(), (), (), (2,), (3,), (7,), (2, 3), (2, 2, 3), (4, 2, 2), (1,),
                            (1, 2), (6, 2), (2, 7), (1, 1)])
        vars_.append((nm, rng.choice(UNITS), rng.choice(LABELS), shape, rng.random() < .4))
    if all(v[4] for v in vars_):
        nm, u, l, s, _ = vars_[0]
        vars_[0] = (nm, u, l, s, False)
    kids = []
    if depth < 2:
        kids = [hostile_spec(rng, depth+1) for _ in range(rng.choice([0, 0, 1, 2, 3 - depth]))]
        if kids and rng.random() < .3:
            kids.append(kids[0])     # two of the same
    return (rng.choice(CLASSES), vars_, kids)


def unitless(v):
    es = [v] if not hasattr(v, "shape") else list(v.ravel())
    return [e/v.key.units if v.key.units else e for e in es]


def hostile(rng, rec):
    "names, labels, shapes, zeros, nesting; swept or not"
    import gpkit
    from gpkit import Variable, VectorVariable, Model
    from gpkit.constraints.tight import Tight
    from gpkit.constraints.loose import Loose
    spec = hostile_spec(rng)
    consts = []

    def make(sp):
        name, vars_, kids = sp

        def setup(self):
            cons, cost, mine = [], 1, []
            made = {}
            for nm, u, label, shape, const in vars_:
                args = [u] if u else []
                if const:
                    val = rng.choice([0, 1, 2.5, 10**rng.uniform(-8, 8), 1e30, 1e-30])
                    if shape:
                        arr = np.array([rng.choice([0., 1., 10**rng.uniform(-4, 4)])
                                        for _ in range(int(np.prod(shape)))]).reshape(shape)
                        v = VectorVariable(shape, nm, *args, label=label)
                        self.given.append((v, arr))
                    else:
                        v = Variable(nm, val, *args, label=label) if args else \
                            Variable(nm, val, label=label)
                        consts.append(v)
                    mine.append(v)
                else:
                    v = VectorVariable(shape, nm, *args, label=label) if shape else \
                        Variable(nm, *args, label=label)
                    made[nm] = v
            flat = []
            for v in mine:
                es = unitless(v)
                flat += es
            for v in made.values():
                es = unitless(v)
                p = rng.choice([.5, 1, 2, .0004, .03])
                for e in es:
                    b = 10**rng.uniform(-3, 3)
                    bound = b
                    if flat:
                        bound = b + flat.pop()*rng.choice([1, 10, .01])
                    c = e >= bound
                    r = rng.random()
                    if r < .1:
                        c = Loose([c], senstol=10**rng.uniform(-5, 0))
                    elif r < .2:
                        c = [c, Tight([e >= b*.3], reltol=1e-3)]
                    elif r < .3:
                        c = [c, e >= b*1e-3]
                    cons.append(c)
                    cost = cost*e**p
            if flat:
                e = unitless(list(made.values())[0])[0]
                cons.append(e >= 1e-9*sum(flat[1:], flat[0]))
            subs = []
            for kid in kids:
                k = make(kid)
                subs.append(k)
                cost = cost*k.cost
            self.cost = cost
            return cons + subs if rng.random() < .5 else subs + cons
        cls = type(name, (Model,), {"setup": setup, "given": given, "__doc__": ""})
        return cls()
    given = []
    try:
        m = make(spec)
    except gpkit.exceptions.PrimalInfeasible:
        raise Skip("constant constraint") from None
    if rng.random() < .3:
        m = Model(m.cost, [m])
    for v, arr in given:
        m.substitutions[v] = arr
    swept = []
    if consts and rng.random() < .5:
        for v in rng.sample(consts, min(len(consts), rng.choice([1, 1, 2]))):
            n = rng.choice([2, 3, 6]) if not swept else 2
            m.substitutions[v] = ("sweep", [10**rng.uniform(-3, 3) for _ in range(n)])
            swept.append(v)
    try:
        sol = m.solve(verbosity=0, skipsweepfailures=True)
    except (gpkit.exceptions.Infeasible, RuntimeWarning):
        raise Skip("not solved") from None
    seen = set()
    for k in dict.keys(sol["variables"]):
        if (k.name, k.lineage) in seen:
            raise Skip("two of one name in one model")
        seen.add((k.name, k.lineage))
    rec.ev("hostile")
    outputs(rng, rec, m, sol, "hostile %s swept %s" % (spec, [str(v) for v in swept]), 5)


def toplist(rng, rec):
    "Many constants, vectors whose elements pull both ways, sweeps over a change of sign"
    from gpkit import Variable, VectorVariable, Model
    x, y = Variable("x"), Variable("y")
    load, consts = 1.0, []
    for i in range(rng.randint(4, 9)):
        k = Variable("k_%i" % i, round(rng.uniform(.5, 2), 2))
        load = load*k**rng.choice([.1, .2, .3, -.1, -.25, .5, 1, -2, .002])
        consts.append(k)
    for i in range(rng.randint(1, 3)):
        n = rng.randint(2, 4)
        v = VectorVariable(n, "v_%i" % i, [round(rng.uniform(.5, 2), 2) for _ in range(n)])
        es = [rng.choice([1, -1, 2, -2, .7, -.3, 3]) for _ in range(n)]
        if rng.random() < .6:
            es[-1] = -sum(es[:-1])
        for j in range(n):
            load = load*v[j]**es[j]
        consts.append(v)
    turn = Variable("turn", 1.)
    cons = [x >= load, y >= turn + 1/turn, y >= x**.1*turn**.01]
    m = Model(x*y, cons)
    swept = rng.random() < .5
    if swept:
        pts = [round(rng.uniform(.2, .9), 3), round(rng.uniform(1.1, 5), 3)] + \
            ([round(rng.uniform(.3, 3), 3)] if rng.random() < .5 else [])
        m.substitutions[turn] = ("sweep", pts)
    sol = m.solve(verbosity=0)
    what = "toplist %s%s" % (load, " swept %s" % pts if swept else "")
    for _ in range(3):
        o = {}
        if rng.random() < .7:
            o["nvars"] = rng.choice([1, 2, 3, 4, 5, 7])
        ts = rng.choice([["top sensitivities"], ["top sensitivities", "sensitivities"],
                         ["insensitivities", "top sensitivities"]])
        ask, shown = pick_shown(rng, sol) if rng.random() < .3 else ((), None)
        text = sol.table(ask, ts, **o)
        judge_table(rec, sol, text, ts, shown, "%s %s %s shown %s" % (what, ts, o, ask), **o)
        rec.ev("top_lists")
    summarize(rng, rec, sol, what)
    rec.sig(what)


def warned(rng, rec):
    "Sweeps with warnings at some of their points"
    from gpkit import Variable, Model
    from gpkit.constraints.tight import Tight
    from gpkit.constraints.loose import Loose
    from gpkit.constraints.bounded import Bounded
    x, y, p = Variable("x", "m"), Variable("y"), Variable("p", "m")
    c = round(rng.uniform(2, 5), 2)
    pts = [round(c*f, 3) for f in rng.sample([.2, .4, .6, .8, 1.3, 1.7, 2.5, 4], 3)]
    rng.shuffle(pts)
    cons = [Tight([x >= p]) if rng.random() < .7 else Loose([x >= p]), x >= c*x.units]
    y_low = [Loose([y >= 2]), Tight([y >= .5])]
    cons += rng.sample(y_low, rng.randint(1, 2)) + [y >= 1.]
    cons = cons if rng.random() < .5 else [Bounded(cons, lower=1e-2, upper=c*5)]
    m = Model(x*y, cons, {p: ("sweep", pts)})
    sol = m.solve(verbosity=0)
    what = "x >= p in %s, x >= %s: %s" % (pts, c, m)
    warning_rows(rec, sol, sol.table(), what)
    some = 0
    for vec in sol.get("warnings", {}).values():
        lens = [len(d) for d in (vec if hasattr(vec, "shape") else [vec])]
        some += 0 in lens
    rec.ev("warned_at_some", some)
    judge_table(rec, sol, sol.table(), DEFAULT, None, what)
    summarize(rng, rec, sol, what)
    rec.sig(what)


KINDS = {"warned": (warned, 100, 1500), "plans": (plans, 150, 2500), "hostile": (hostile, 220, 4000),
         "toplist": (toplist, 120, 2000)}
NEED = {"rows": 3000, "vectors": 500, "matrices": 100, "tables": 300, "sections": 800,
        "costs": 100, "top_lists": 200, "warned_at_some": 5, "models": 60, "constraint_rows": 300, "warnings": 10, "latex_tables": 100,
        "csv_files": 80, "mat_values": 300, "frame_values": 500, "txt_files": 80,
        "summaries": 80, "unchanged": 80, "hostile": 30, "failed latex": 5, "failed csv": 5,
        "failed mat": 5, "failed txt": 5, "failed frame": 5}
