"""C19: random programs of nested environment blocks against a stack mirror of the state."""
import contextlib
import os
import sys
from ..core import GPDIR, Violation

PROP = "C19"
RULE = ("a case is a random tree of nested environment blocks, models with set-ups, gpkit "
        "operations that use environments, and exceptions raised and caught anywhere; "
        "non-trivial when blocks nest, identified by the sequence of states seen")
TECH = ("runtime mirror of the environment stack checked after every entry, exit, operation "
        "and injected exception; behavioural probes (shapes, lineages, permissions)")
NOTE = "trees up to depth 6; faults injected at any gpkit function call"
NEED = {"probe": 400, "nested-sig": 40, "exception-unwound": 80, "injected": 60,
        "model-setup": 60}
CHUNK = 10


class Boom(Exception):
    "what the programs raise"


class BaseBoom(BaseException):
    "like KeyboardInterrupt"


def observed():
    from gpkit import SignomialsEnabled, Vectorize, NamedVariables
    return (bool(SignomialsEnabled), tuple(Vectorize.vectorization),
            tuple(NamedVariables.lineage))


class Mirror:
    "what the state should be"

    def __init__(self):
        self.sig, self.vec, self.lineage = False, (), ()
        self.nums = {}
        self.made = []   # element keys created at the current lineage, innermost last

    def state(self):
        return (self.sig, self.vec, self.lineage)


class Runner:
    def __init__(self, rng, rec, inject=None):
        self.rng, self.rec, self.m = rng, rec, Mirror()
        self.shared = {}     # reusable context objects
        self.trail = []
        self.n = 0

    def expect(self, where):
        got, want = observed(), self.m.state()
        self.rec.ev("state-checked")
        if got != want:
            raise Violation("state:" + where, "after %s: state is %s, should be %s; trail %s"
                            % (where, got, want, self.trail[-12:]))

    # ---- probes
    def probe(self):
        import gpkit
        rng, rec, m = self.rng, self.rec, self.m
        self.expect("probe")
        rec.ev("probe")
        self.trail.append(m.state())
        self.n += 1
        unit = rng.choice([[], ["m"]])
        v = gpkit.Variable("p%i" % rng.randint(0, 2), *unit)
        want = m.vec
        got = tuple(getattr(v, "shape", ()))
        rec.require(got == want, "shape", lambda: "Variable made in %s has shape %s"
                    % (m.state(), got))
        els = list(v.flat) if want else [v]
        q = gpkit.VectorVariable(rng.choice([2, (2,), (1, 3)]), "q%i" % rng.randint(0, 2))
        wantq = tuple(q.shape[:len(q.shape)-len(m.vec)])
        rec.require(wantq in [(2,), (1, 3)] and tuple(q.shape) == wantq + m.vec, "shape-vector",
                    lambda: "VectorVariable made in %s has shape %s" % (m.state(), q.shape))
        for e in els + list(q.flat):
            lin = tuple(e.key.lineage or ())
            rec.require(lin == m.lineage, "lineage", lambda: "%r made in %s has lineage %s"
                        % (e, m.state(), lin))
            m.made.append(e.key)
        for o in (v, q):
            if hasattr(o, "shape") and o.shape:
                rec.require(tuple(o.key.lineage or ()) == m.lineage, "lineage-vector",
                            lambda: "%r has lineage %s in %s" % (o, o.key.lineage, m.state()))
        # permission
        a, b = free(m)
        what = rng.randrange(7)
        try:
            if what == 0:
                c = a >= 1 - b
            elif what == 1:
                c = 1 - b <= a
            elif what == 2:
                c = gpkit.SignomialEquality(a, b + 1)
            elif what == 3:
                c = a*-1.5
            elif what == 4:
                c = -1*b
            elif what == 5:
                c = a + -.5
            else:
                c = a - b
            ok = True
        except Exception:  # pylint: disable=broad-except
            ok = False
        rec.ev("permission-%s" % m.sig)
        rec.require(ok == m.sig, "permission", lambda: "signomial expression %i %s in %s"
                    % (what, "accepted" if ok else "refused", m.state()))
        self.expect("probe-end")
        return els[0]

    # ---- operations of gpkit that use environments themselves
    def operation(self):
        import gpkit
        from gpkit.constraints import relax, tight
        rng, rec, m = self.rng, self.rec, self.m
        x, y = free(m)
        name = rng.choice(["relax-equally", "relax", "relax-constants", "tight", "bad-relax",
                           "bad-tight", "localsolve", "solve", "bad-vector", "bad-solve",
                           "reduce", "print", "debug"])
        rec.ev("operation-" + name)
        self.trail.append(name)
        try:
            if name == "relax-equally":
                if m.vec:
                    return
                relax.ConstraintsRelaxedEqually([x >= 1, y >= x])
            elif name == "relax":
                if m.vec:
                    return
                relax.ConstraintsRelaxed([x >= 1, y >= x])
            elif name == "relax-constants":
                if m.vec:
                    return
                relax.ConstantsRelaxed(gpkit.Model(x, [x >= y], {y: 2}))
            elif name == "tight":
                self.solving(lambda: gpkit.Model(
                    x, tight.Tight([x >= y]), {y: 2}).solve(verbosity=0))
            elif name == "bad-relax":
                class Bad:
                    vks, bounded, meq_bounded = frozenset(), frozenset(), {}
                    def relaxed(self, relaxvar):
                        raise Boom("relaxed")
                (relax.ConstraintsRelaxedEqually if rng.random() < .5
                 else relax.ConstraintsRelaxed)(gpkit.ConstraintSet([x >= 1, Bad()]))
            elif name == "bad-tight":
                t = tight.Tight([x >= y])
                t.process_result({"variables": None})
            elif name == "localsolve":
                if m.sig:
                    self.solving(lambda: gpkit.Model(
                        x, [x >= 1 - y, y <= .5, y >= .1]).localsolve(verbosity=0))
            elif name == "solve":
                self.solving(lambda: gpkit.Model(x, [x >= y, y >= 1]).solve(
                    verbosity=rng.choice([0, 1])))
            elif name == "bad-vector":
                gpkit.VectorVariable(3, "bad", idx=(0,))
            elif name == "bad-solve":
                def dead(**kw):
                    raise Boom("solver")
                gpkit.Model(x, [x >= y, y >= 1]).solve(solver=dead, verbosity=0)
            elif name == "reduce":
                (x*y*2).sub({x: 3}), (x + y).mono_lower_bound({x: 1, y: 2})
            elif name == "debug":
                self.solving(lambda: gpkit.Model(x, [x >= y, x <= .5], {y: 2}).debug(verbosity=0))
            else:
                str(gpkit.Model(x, [x >= y, y >= 1]))
        except (Boom, BaseBoom):
            raise
        except Exception as e:  # pylint: disable=broad-except
            # these operations may be refused in some environments, never change them
            rec.ev("operation-refused")
            self.trail.append("%s refused: %s" % (name, e))
        finally:
            self.expect("operation-" + name)

    def solving(self, f):
        if not self.m.vec:
            f()

    # ---- blocks
    def body(self, depth):
        for _ in range(self.rng.randint(1, 3)):
            self.node(depth)

    def node(self, depth):
        rng = self.rng
        r = rng.random()
        if depth <= 0 or r < .2:
            return self.probe()
        if r < .3:
            return self.operation()
        if r < .36:
            return self.throw()
        if r < .46:
            return self.catching(depth)
        if r < .58:
            return self.model(depth)
        if r < .66:
            return self.stack(depth)
        return self.block(depth, rng.choice(["sig", "sig", "vec", "name"]))

    def throw(self):
        self.trail.append("throw")
        raise self.rng.choice([Boom, BaseBoom])("thrown")

    def catching(self, depth):
        before = self.m.state()
        try:
            self.body(depth-1)
        except Violation:
            raise
        except (Boom, BaseBoom):
            self.rec.ev("exception-unwound")
            self.trail.append("caught")
        assert self.m.state() == before
        self.expect("catch")

    def context(self, kind):
        "a new or reused context object, how it changes the mirror"
        from gpkit import SignomialsEnabled, Vectorize, NamedVariables
        rng = self.rng
        if kind == "sig":
            arg, make = None, SignomialsEnabled
        elif kind == "vec":
            arg = rng.choice([1, 2, 3])
            make = lambda: Vectorize(arg)
        else:
            arg = rng.choice(["A", "B"])
            make = lambda: NamedVariables(arg)
        if rng.random() < .4:
            if (kind, arg) in self.shared:
                self.rec.ev("context-reused")
            ctx = self.shared.setdefault((kind, arg), make())
        else:
            ctx = make()
        return ctx, arg

    def entered(self, kind, arg):
        m = self.m
        if kind == "sig":
            if m.sig:
                self.rec.ev("nested-sig")
            m.sig = True
        elif kind == "vec":
            m.vec = (arg,) + m.vec
        else:
            n = m.nums.get((m.lineage, arg), 0)
            m.nums[(m.lineage, arg)] = n + 1
            m.lineage += ((arg, n),)
        self.trail.append("enter %s %s" % (kind, arg))
        self.expect("enter-" + kind)

    @contextlib.contextmanager
    def mirrored(self, before, made, kind):
        m = self.m
        how = "normally"
        try:
            yield
        except BaseException:
            how = "by-exception"
            raise
        finally:
            m.sig, m.vec, m.lineage = before
            m.made = made
            self.trail.append("exit %s" % kind)
            self.rec.ev("exit-%s-%s" % (kind, how))
            if not isinstance(sys.exc_info()[1], Violation):
                self.expect("exit-%s-%s" % (kind, how))

    def block(self, depth, kind):
        ctx, arg = self.context(kind)
        m = self.m
        before, made = m.state(), m.made
        with self.mirrored(before, made, kind):
            with ctx:
                if kind == "name":
                    m.made = []
                self.entered(kind, arg)
                self.body(depth-1)

    def stack(self, depth):
        "several environments entered one after another and left together"
        m = self.m
        before, made = m.state(), m.made
        with self.mirrored(before, made, "stack"):
            with contextlib.ExitStack() as stack:
                for _ in range(self.rng.randint(2, 3)):
                    kind = self.rng.choice(["sig", "vec", "name"])
                    ctx, arg = self.context(kind)
                    stack.enter_context(ctx)
                    if kind == "name":
                        m.made = []
                    self.entered(kind, arg)
                self.body(depth-2)

    def model(self, depth):
        import gpkit
        runner, m, rec = self, self.m, self.rec
        before, made = m.state(), m.made
        name = self.rng.choice(["A", "M"])
        got = {}

        def setup(self):
            m.made = []
            runner.entered("name", name)
            rec.ev("model-setup")
            runner.body(depth-1)
            runner.probe()
            got["made"] = list(m.made)
            return []
        cls = type(name, (gpkit.Model,), {"setup": setup})
        with self.mirrored(before, made, "model"):
            inst = cls()
        want = {k.eqstr: k for k in got["made"]}
        have = {k.eqstr: k for k in inst.unique_varkeys}
        rec.require(set(want) == set(have), "setup-variables",
                    lambda: "set-up of %s made %s more and %s fewer than the"
                    " model says" % (name, sorted(set(want)-set(have)),
                                     sorted(set(have)-set(want))))
        rec.require(tuple(inst.lineage)[:-1] == before[2], "model-lineage",
                    lambda: "%s in %s" % (inst.lineage, before))


def free(m):
    "two scalar variables outside any vectorisation"
    from gpkit.nomials.variables import Variable
    x, y = Variable("fx"), Variable("fy")
    m.made += [x.key, y.key]
    return x, y


def tree(rng, rec):
    run(rng, rec, Runner(rng, rec))


def run(rng, rec, r):
    from gpkit import NamedVariables
    NamedVariables.reset_modelnumbers()
    before = observed()
    r.m.sig, r.m.vec, r.m.lineage = before
    rec.require(before == (False, (), ()), "leaked", lambda: "a case began with %s" % (before,))
    try:
        for _ in range(rng.randint(1, 3)):
            r.block(rng.randint(2, 6), rng.choice(["sig", "vec", "name"]))
    except Violation:
        raise
    except (Boom, BaseBoom):
        rec.ev("exception-unwound")
        rec.ev("exception-to-top")
    rec.require(observed() == before, "end", lambda: "state at the end %s" % (observed(),))
    states = [t for t in r.trail if isinstance(t, tuple)]
    if any(len(set(map(bool, s))) for s in states):
        rec.sig(r.trail)
    rec.sample(r.trail[:12])


# ---- faults inside gpkit's own functions

class Injector:
    "raises at the n-th call of a gpkit function outside the environments themselves"

    def __init__(self, n):
        self.left, self.n, self.where = n, 0, None

    def __call__(self, frame, event, arg):
        if event != "call":
            return None
        name = frame.f_code.co_filename
        if (not name.startswith(GPDIR) or name.endswith("globals.py")
                or frame.f_code.co_flags & 0x20):   # not inside generators
            return None
        self.n += 1
        self.left -= 1
        if self.left == 0:
            self.where = "%s:%s" % (os.path.basename(name), frame.f_code.co_name)
            raise BaseBoom("injected in " + self.where)
        return None


def workload(rng):
    "a piece of work which uses environments inside gpkit"
    import gpkit
    from gpkit import Model, Variable, SignomialsEnabled, Vectorize, NamedVariables
    from gpkit.constraints import relax, tight, bounded

    class Sub(Model):
        def setup(self):
            x = self.x = Variable("x")
            return [x >= 1]

    class Top(Model):
        def setup(self, n):
            y = self.y = Variable("y")
            with Vectorize(n):
                subs = self.subs = Sub()
            with SignomialsEnabled():
                c = [y >= subs.x.prod() - .1]
            return [subs, c, Sub()]

    def models():
        Top(2)

    def relaxed():
        x = Variable("x")
        z = Variable("z", 3)
        c = [x >= z, x <= 1]
        rng2 = rng.random()
        if rng2 < .3:
            r = relax.ConstraintsRelaxed(c)
            Model(r.relaxvars.prod()*x**.1, r).solve(verbosity=0)
        elif rng2 < .6:
            r = relax.ConstraintsRelaxedEqually(c)
            Model(r.relaxvar*x**.1, r).solve(verbosity=0)
        else:
            r = relax.ConstantsRelaxed(c)
            Model(r.relaxvars.prod()*x**.1, bounded.Bounded(r)).solve(verbosity=0)

    def tights():
        x, y = Variable("x"), Variable("y")
        Model(x, tight.Tight([x >= y, y >= 1])).solve(verbosity=0)

    def local():
        x, y = Variable("x"), Variable("y")
        with SignomialsEnabled():
            m = Model(x, [x >= 1 - y, y <= .5, y >= .1])
        m.localsolve(verbosity=0)

    def debugged():
        x, y = Variable("x"), Variable("y", 2)
        m = Model(x, [x >= y, x <= 1])
        m.debug(verbosity=0)

    def blocks():
        with SignomialsEnabled():
            with Vectorize(2):
                with NamedVariables("N"):
                    x = Variable("x")
                    c = x >= 1 - x
            tight.Tight([x >= 1]).process_result(
                {"variables": {e.key: 1 for e in x.flat}, "warnings": {}, "sensitivities": {}})
            str(c)
    name = rng.choice([models, relaxed, tights, local, debugged, blocks])
    return name


def injected(rng, rec):
    from gpkit import NamedVariables, SignomialsEnabled, Vectorize
    state = rng.getstate()
    work = workload(rng)
    # first count, then inject at a random point
    rng.setstate(state)
    work = workload(rng)
    counter = Injector(-1)
    contexts = [rng.choice(["sig", "name", None]) for _ in range(2)]
    inner = rng.getstate()
    sys.settrace(counter)
    try:
        work()
    finally:
        sys.settrace(None)
    rec.require(observed() == (False, (), ()), "leaked-normally", lambda: "%s left %s"
                % (work.__name__, observed()))
    rec.ev("calls-traced", counter.n)
    for _ in range(6):
        at = rng.randint(1, max(counter.n, 1))
        now = rng.getstate()
        rng.setstate(inner)
        NamedVariables.reset_modelnumbers()
        inj = Injector(at)
        with contextlib.ExitStack() as stack:
            for c in contexts:
                if c == "sig":
                    stack.enter_context(SignomialsEnabled())
                elif c == "name":
                    stack.enter_context(NamedVariables("Outer"))
            want = observed()
            sys.settrace(inj)
            try:
                work()
            except BaseBoom:
                pass
            except Exception:  # pylint: disable=broad-except
                if inj.where is None:
                    raise
            finally:
                sys.settrace(None)
            got = observed()
            rec.require(got == want, "leaked-on-fault", lambda: "%s with a fault in %s: state"
                        " %s, was %s" % (work.__name__, inj.where, got, want))
        rec.require(observed() == (False, (), ()), "leaked-on-fault-outer",
                    lambda: "%s with a fault in %s: state %s" % (work.__name__, inj.where,
                                                                 observed()))
        if inj.where:
            rec.ev("injected")
            rec.sig(work.__name__, inj.where, contexts)
        rng.setstate(now)


def reset():
    from gpkit import NamedVariables
    NamedVariables.reset_modelnumbers()


KINDS = {"tree": (tree, 400, 6000), "injected": (injected, 60, 1500)}
