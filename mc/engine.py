"""Explorer: enumerates every execution of a harness, by re-execution.

A harness is a function ``fn(ctx)``.  It draws every decision of its execution from ``ctx.choose(label, options)``;
the explorer runs the harness for *every* vector of choices (depth first, the last open choice first), so that the
space described by the harness is covered completely.  A harness compares the real code with a reference model
and reports with ``ctx.fail``; an exception that escapes is a failure as well.
"""

import hashlib
import multiprocessing as mp
import os
import random
import signal
import sys
import time
import traceback


class Violation(Exception):
    """The property does not hold in this execution"""


class Known(Exception):
    """A listed known finding ends this execution"""


class Diverged(Exception):
    """A replayed prefix did not meet the same choices: the harness does not own its nondeterminism"""


class Hang(BaseException):
    """The execution does not end"""


def fingerprint(obj):
    """64 bit hash of the canonical form of a state"""
    return int.from_bytes(hashlib.blake2b(repr(obj).encode(), digest_size=8).digest(), "big")


class Ctx:
    """One execution"""

    def __init__(self, prefix, known, prop, tier):
        self.prefix = prefix
        self.choices = []
        self.counts = []
        self.labels = []
        self.states = set()
        self.transitions = 0
        self.compared = 0
        self.findings = {}
        self.known = known
        self.prop = prop
        self.tier = tier
        self.notes = []

    @property
    def thorough(self):
        return self.tier == "thorough"

    def choose(self, label, options):
        """Take one of the options; every option is taken in some execution"""
        options = list(options)
        if not options:
            raise AssertionError("no options for %s" % label)
        pos = len(self.choices)
        pick = self.prefix[pos] if pos < len(self.prefix) else 0
        if pick >= len(options):
            raise Diverged("choice %i (%s) has %i options, the prefix wants %i" % (pos, label, len(options), pick))
        self.choices.append(pick)
        self.counts.append(len(options))
        opt = options[pick]
        self.labels.append((label, opt))
        return opt

    def flag(self, label):
        return self.choose(label, [False, True])

    def state(self, *canon):
        """Record that a state was reached"""
        self.states.add(fingerprint(canon))

    def step(self, n=1):
        """Count transitions (operations of the real code)"""
        self.transitions += n

    def traced(self, n=1):
        """Count comparisons of an observed result with the reference"""
        self.compared += n

    def fail(self, msg):
        raise Violation(msg)

    def check(self, cond, msg):
        self.compared += 1
        if not cond:
            raise Violation(msg() if callable(msg) else msg)

    def finding(self, fid, msg):
        """The code shows a known, listed defect (call only when it shows exactly that one)"""
        if fid not in self.known:
            raise Violation("%s: %s" % (fid, msg))
        self.findings[fid] = self.findings.get(fid, 0) + 1

    def describe(self):
        out = []
        for label, opt in self.labels:
            text = getattr(opt, "__name__", None) or str(opt)
            out.append("%s=%s" % (label, text if len(text) < 120 else text[:117] + "..."))
        return out


def _alarm(_sig, _frame):
    raise Hang()


def run_one(fn, prefix, known, prop, tier, limit, compact=True):
    """Run one execution. Returns (ctx, error) with error None, ('kind', text)"""
    ctx = Ctx(prefix, known, prop, tier)
    error = None
    # pylint: disable=broad-except
    signal.signal(signal.SIGALRM, _alarm)
    signal.alarm(limit)
    try:
        fn(ctx)
    except Violation as err:
        error = ("violation", str(err))
    except Known:
        pass
    except Diverged as err:
        error = ("diverged", str(err))
    except Hang:
        error = ("hang", "the execution did not end within %i s" % limit)
    except (KeyboardInterrupt, SystemExit) as err:
        error = ("violation", "unexpected %r" % (err,))
    except MemoryError:
        raise
    except Exception as err:
        error = ("violation", "unexpected exception %s: %s\n%s" % (type(err).__name__, err, traceback.format_exc(limit=-8)))
    finally:
        signal.alarm(0)
    if error is None and len(ctx.choices) < len(prefix):
        error = ("diverged", "the execution ended before the end of its prefix")
    return ctx, error


def siblings(ctx, base):
    """Prefixes of the unexplored alternatives met by an execution that followed `base`"""
    out = []
    for i in range(len(base), len(ctx.choices)):
        for alt in range(1, ctx.counts[i]):
            out.append(tuple(ctx.choices[:i]) + (alt,))
    return out


def worker(conn, module, known, tier, seed, limit, slice_s):
    import importlib
    import warnings

    warnings.simplefilter("ignore")
    import logging

    logging.disable(logging.CRITICAL)
    os.environ["QPMC_WORKER"] = str(os.getpid())
    devnull = open(os.devnull, "w")  # pylint: disable=consider-using-with
    sys.stdout = devnull
    try:
        mod = importlib.import_module(module)
    except Exception:  # pylint: disable=broad-except
        conn.send(("broken", traceback.format_exc()))
        return
    conn.send(("ready", None))
    rng = random.Random(seed)
    while True:
        msg = conn.recv()
        if msg is None:
            return
        name, stack = msg
        fn = mod.HARNESSES[name]
        t_end = time.monotonic() + slice_s
        t_start = time.monotonic()
        res = dict(execs=0, states=set(), transitions=0, compared=0, findings={}, errors=[], samples=[], maxdepth=0)
        while stack:
            prefix = stack.pop()
            ctx, error = run_one(fn, prefix, known, mod.PROPERTY, tier, limit)
            res["execs"] += 1
            res["states"] |= ctx.states
            res["transitions"] += ctx.transitions
            res["compared"] += ctx.compared
            res["maxdepth"] = max(res["maxdepth"], len(ctx.choices))
            for k, v in ctx.findings.items():
                res["findings"][k] = res["findings"].get(k, 0) + v
            if len(res["samples"]) < 1 and rng.random() < 0.2:
                res["samples"].append([name] + ctx.describe())
            if error is not None:
                res["errors"].append((list(ctx.choices), error[0], error[1], ctx.describe()))
            if error is None or error[0] in ("violation", "hang"):
                stack.extend(siblings(ctx, prefix))
            if time.monotonic() > t_end or len(res["errors"]) >= 20:
                break
        res["time"] = time.monotonic() - t_start
        conn.send(("done", (name, res, stack)))


class Result:
    def __init__(self):
        self.execs = 0
        self.states = set()
        self.transitions = 0
        self.compared = 0
        self.findings = {}
        self.errors = []
        self.samples = []
        self.per = {}
        self.complete = True
        self.capped = []


def explore(mod, module, names, known, tier, seed, nproc, deadline, limit=120, max_errors=5):
    """Explore the named harnesses with nproc processes"""
    ctx = mp.get_context("spawn")
    slice_s = 0.4
    workers = []
    for i in range(nproc):
        a, b = ctx.Pipe()
        p = ctx.Process(target=worker, args=(b, module, known, tier, seed + i, limit, slice_s), daemon=True)
        p.start()
        b.close()
        workers.append([a, p, None, 0.0])
    res = Result()
    todo = {n: [()] for n in names}  # shallow prefixes first
    order = list(names)
    if seed:
        random.Random(seed).shuffle(order)
    busy = 0
    idle = []
    stop = False
    t0 = time.monotonic()
    hard = limit + 60

    def pick():
        # the harness with the fewest executions so far, to start on all of them early
        cands = [n for n in order if todo[n]]
        if not cands:
            return None
        n = min(cands, key=lambda c: res.per.get(c, {}).get("execs", 0))
        q = todo[n]
        share = max(1, min(len(q) // (2 * nproc), 400))
        take, todo[n] = q[:share], q[share:]
        return n, take

    from multiprocessing.connection import wait

    alive = {w[0]: w for w in workers}
    ready = set()
    while True:
        if not stop and time.monotonic() - t0 > deadline:
            stop = True
            res.complete = False
        if not stop and len(res.errors) >= max_errors:
            stop = True
            res.complete = False
        if not stop:
            while idle:
                job = pick()
                if job is None:
                    break
                w = idle.pop()
                w[2] = job[0]
                w[3] = time.monotonic()
                w[0].send((job[0], job[1]))
                busy += 1
        if busy == 0 and len(ready) + sum(1 for w in workers if w[2] == "dead") >= nproc:
            if stop or not any(todo.values()):
                break
        for conn in wait(list(alive), timeout=1.0):
            w = alive[conn]
            try:
                kind, payload = conn.recv()
            except (EOFError, ConnectionResetError):
                del alive[conn]
                if w[2] is not None:
                    busy -= 1
                    res.errors.append((w[2], [], "crash", "a worker process died", []))
                w[2] = "dead"
                ready.discard(id(w))
                if not alive:
                    raise RuntimeError("all worker processes died")
                continue
            if kind == "broken":
                raise ImportError(payload)
            if kind == "ready":
                ready.add(id(w))
                idle.append(w)
                continue
            name, r, rest = payload
            busy -= 1
            w[2] = None
            idle.append(w)
            todo[name].extend(tuple(p) for p in rest)
            todo[name].sort(key=len)
            per = res.per.setdefault(name, dict(execs=0, states=set(), transitions=0, compared=0, maxdepth=0, time=0.0))
            for k in ("execs", "transitions", "compared", "time"):
                per[k] += r[k]
            per["maxdepth"] = max(per["maxdepth"], r["maxdepth"])
            per["states"] |= {s ^ hash(name) for s in r["states"]}
            res.execs += r["execs"]
            res.transitions += r["transitions"]
            res.compared += r["compared"]
            res.states |= {s ^ hash(name) for s in r["states"]}
            for k, v in r["findings"].items():
                res.findings[k] = res.findings.get(k, 0) + v
            if len(res.samples) < 12 and sum(1 for s in res.samples if s[0] == name) < 3:
                res.samples.extend(r["samples"])
            for choices, k, text, desc in r["errors"]:
                res.errors.append((name, choices, k, text, desc))
        now = time.monotonic()
        for w in workers:
            if w[2] not in (None, "dead") and now - w[3] > hard + 30:
                # stuck in native code, where the alarm cannot be delivered
                res.errors.append((w[2], [], "hang", "a worker process did not answer", []))
                w[1].kill()
                w[3] = now
    for w in workers:
        if w[2] != "dead":
            try:
                w[0].send(None)
            except OSError:
                pass
    for w in workers:
        w[1].join(2)
        if w[1].is_alive():
            w[1].kill()
    if not res.complete:
        res.capped = [n for n in order if todo[n]]
    return res
