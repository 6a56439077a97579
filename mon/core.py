"""Shared machinery: cases run in forked workers, monitors record events and violations.

A check module defines
  PROP   property id
  RULE   how cases are made and what makes one non-trivial
  KINDS  {kind: (function(rng, rec), quick_count, thorough_count)}
  NEED   {event name: least number that must have been observed (quick tier)}
A case is fully determined by (seed, kind, index); a chunk of consecutive cases runs in
one freshly forked process, so history-dependent failures replay by replaying the chunk.
"""
import hashlib
import io
import json
import os
import random
import resource
import select
import shutil
import signal
import sys
import tempfile
import time
import traceback

REPO = os.environ.get("VERIF_REPO", "/repo")
GPDIR = os.path.join(REPO, "gpkit") + os.sep
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


class Violation(Exception):
    "The property is broken; `key` names the mechanism."
    def __init__(self, key, msg):
        super().__init__(msg)
        self.key, self.msg = key, msg


class Skip(Exception):
    "This case turned out not to apply (counted, never a verdict)."


class CpuLimit(BaseException):
    "The case used far more CPU than any such case can need."


class Rec:
    "What the monitors of one chunk observed."
    def __init__(self):
        self.events, self.sigs, self.samples = {}, set(), []
        self.violations, self.errors, self.skips = [], [], {}
        self.cases = 0
        self.current = None

    def ev(self, name, n=1):
        "Counts an observed event."
        self.events[name] = self.events.get(name, 0) + n

    def sig(self, *what):
        "Marks the current case as non-trivial, identified by `what`."
        h = hashlib.sha1(repr(what).encode()).hexdigest()[:16]
        self.sigs.add(h)

    def sample(self, what):
        "Keeps a written-out case."
        if len(self.samples) < 3:
            self.samples.append(str(what)[:600])

    def fail(self, key, msg):
        "Records a violation and goes on."
        self.violations.append({"key": key, "msg": str(msg)[:2000],
                                "case": self.current})

    def check(self, cond, key, msg):
        "Monitor: records a violation unless cond."
        if not cond:
            self.fail(key, msg() if callable(msg) else msg)
        return bool(cond)

    def require(self, cond, key, msg):
        "Monitor: raises a violation unless cond."
        if not cond:
            raise Violation(key, msg() if callable(msg) else msg)


def through_gpkit(tb):
    "Did this traceback pass through the code under test?"
    for frame in traceback.extract_tb(tb):
        if os.path.abspath(frame.filename).startswith(GPDIR):
            return True
    return False


def frames(tb, n=6):
    "Short form of the innermost frames"
    return " < ".join("%s:%s" % (os.path.basename(f.filename), f.name)
                      for f in reversed(traceback.extract_tb(tb)[-n:]))


def case_rng(seed, prop, kind, idx):
    "The only source of randomness of a case"
    return random.Random("%s|%s|%s|%s" % (seed, prop, kind, idx))


def _on_cpu(signum, frame):
    raise CpuLimit()


def run_one(mod, kind, idx, seed, rec, cpu_limit):
    "Runs one case, turning everything that can happen into a record"
    fn = mod.KINDS[kind][0]
    rec.current = [kind, idx]
    rec.cases += 1
    rng = case_rng(seed, mod.PROP, kind, idx)
    saved = sys.stdout, sys.stderr
    sys.stdout = out = io.StringIO()
    signal.setitimer(signal.ITIMER_PROF, cpu_limit)
    try:
        fn(rng, rec)
    except Violation as e:
        rec.fail(e.key, e.msg)
    except Skip as e:
        rec.skips[str(e)] = rec.skips.get(str(e), 0) + 1
    except CpuLimit as e:
        names = [os.path.basename(f.filename)
                 for f in traceback.extract_tb(e.__traceback__)]
        if "cvxprog.py" in names:   # third-party: its line search can cycle
            rec.skips["cvxopt cycles"] = rec.skips.get("cvxopt cycles", 0) + 1
        else:
            rec.fail("nontermination", "case used more than %s CPU seconds"
                     % cpu_limit)
    except Exception as e:  # pylint: disable=broad-except
        tb = e.__traceback__
        if (isinstance(e, (MemoryError, OSError)) and not through_gpkit(tb)
                and not isinstance(e, FileNotFoundError)):  # that was to be written
            rec.errors.append({"case": [kind, idx],
                               "err": "".join(traceback.format_exception(e))[-3000:]})
        else:
            # raised by the code under test, or by an oracle that could not
            # interpret what it returned
            where = "" if through_gpkit(tb) else "uninterpretable-result:"
            rec.fail("exception:%s%s" % (where, type(e).__name__),
                     "%s: %s @ %s" % (type(e).__name__, str(e)[:600],
                                      frames(tb)))
    finally:
        signal.setitimer(signal.ITIMER_PROF, 0)
        stdout_ok = sys.stdout is out
        sys.stdout, sys.stderr = saved
    if not stdout_ok and not getattr(mod, "STDOUT_FREE", False):
        rec.fail("stdout-not-restored", "sys.stdout was left replaced")


def run_chunk(mod, kind, start, stop, seed, cpu_limit):
    "Runs cases start..stop-1 of a kind in this process"
    signal.signal(signal.SIGPROF, _on_cpu)
    rec = Rec()
    if hasattr(mod, "reset"):
        mod.reset()
    for idx in range(start, stop):
        run_one(mod, kind, idx, seed, rec, cpu_limit)
    return {"events": rec.events, "sigs": sorted(rec.sigs),
            "samples": rec.samples, "violations": rec.violations,
            "errors": rec.errors, "skips": rec.skips, "cases": rec.cases}


def fork_chunk(args, memory):
    "Runs a chunk in a forked child; returns (pid, read fd)"
    r, w = os.pipe()
    sys.stdout.flush()
    sys.stderr.flush()
    pid = os.fork()
    if pid:
        os.close(w)
        return pid, r
    code = 1
    try:
        os.close(r)
        resource.setrlimit(resource.RLIMIT_AS, (memory, memory))
        devnull = os.open(os.devnull, os.O_RDWR)
        os.dup2(devnull, 1)
        scratch = tempfile.mkdtemp(prefix="w", dir=os.getcwd())
        os.chdir(scratch)
        out = json.dumps(run_chunk(*args)).encode()
        os.chdir("/")
        shutil.rmtree(scratch, ignore_errors=True)
        view = memoryview(out)
        while view:
            n = os.write(w, view)
            view = view[n:]
        code = 0
    except BaseException:  # pylint: disable=broad-except
        traceback.print_exc(file=sys.stderr)
    finally:
        os._exit(code)


def run_chunks(mod, chunks, seed, jobs, deadline, cpu_limit, memory=6 << 30):
    "Runs chunks in parallel; yields (chunk, result or None)"
    pending, live = list(chunks)[::-1], {}
    while pending or live:
        while pending and len(live) < jobs and time.time() < deadline:
            kind, start, stop = pending.pop()
            pid, fd = fork_chunk((mod, kind, start, stop, seed, cpu_limit),
                                 memory)
            live[fd] = [pid, (kind, start, stop), b"", time.time()]
        if not live:
            return
        ready, _, _ = select.select(list(live), [], [], 1.0)
        for fd in ready:
            data = os.read(fd, 1 << 16)
            if data:
                live[fd][2] += data
                continue
            pid, chunk, buf, _ = live.pop(fd)
            os.close(fd)
            os.waitpid(pid, 0)
            try:
                yield chunk, json.loads(buf.decode())
            except ValueError:
                yield chunk, None
        if time.time() > deadline + 60:  # watchdog: inconclusive, not a verdict
            for fd, (pid, chunk, _, _) in live.items():
                os.kill(pid, signal.SIGKILL)
                os.waitpid(pid, 0)
                os.close(fd)
                yield chunk, None
            return
