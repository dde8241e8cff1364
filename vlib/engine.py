"""Exhaustive, deviation-bounded explorer over choice trees.

A *scenario* is a function ``fn(c)``.  It asks ``c`` for every decision it takes:

* ``c.all(name, options)``  - every option is explored, at no cost (full product);
* ``c.pick(name, options)`` - ``options[0]`` is the default; every other option is a
  *deviation* and costs 1.

``explore`` runs the scenario once for every sequence of decisions whose total cost is at
most the bound: nothing is sampled.  Each execution builds an abstract model state, drives
the real code with it and compares (``Violation`` when they disagree).  Bounds are iterated
(0, 1, 2, ...), so that the first counterexample has the fewest deviations.
"""

import collections
import multiprocessing
import os
import resource
import signal
import sys
import time
import traceback


class Violation(Exception):
    """The real code disagrees with the property."""

    def __init__(self, message, key=None, data=None):
        super().__init__(message)
        self.message = message
        self.key = key
        self.data = data


class Hang(BaseException):
    """One execution did not end in time."""


class HarnessError(Exception):
    pass


class Stats:
    """Counters of what was really executed (one instance per process)."""

    def __init__(self):
        self.executions = 0
        self.nodes = 0  # nodes of the choice tree
        self.calls = 0  # calls into the real code
        self.compared = 0  # comparisons of an observation with the reference model
        self.inputs = set()
        self.outcomes = set()

    def merge(self, other):
        self.executions += other.executions
        self.nodes += other.nodes
        self.calls += other.calls
        self.compared += other.compared
        self.inputs |= other.inputs
        self.outcomes |= other.outcomes


STATS = Stats()
IN_SUT = [None]  # label of the call into the real code that is running, if any


class Ctx:
    """The decisions of one execution: a prefix is replayed, then defaults are taken."""

    __slots__ = ("prefix", "choices", "sizes", "costs", "names", "labels", "tier", "data", "keys")

    def __init__(self, prefix, tier):
        self.prefix = prefix
        self.choices = []
        self.sizes = []
        self.costs = []
        self.names = []
        self.labels = []
        self.tier = tier
        self.data = None
        self.keys = []

    def _choose(self, name, options, cost):
        i = len(self.choices)
        n = len(options)
        if n == 0:
            raise HarnessError("no option for %s" % name)
        k = self.prefix[i] if i < len(self.prefix) else 0
        if k >= n:
            raise HarnessError("choice %d of %s out of range (%d)" % (k, name, n))
        self.choices.append(k)
        self.sizes.append(n)
        self.costs.append(cost)
        value = options[k]
        self.names.append(name)
        self.labels.append(value)
        return value

    def all(self, name, options):
        return self._choose(name, options, 0)

    def pick(self, name, options):
        return self._choose(name, options, 1)

    def finding(self, key, message, data=None):
        """Note a disagreement that may be listed as known, and carry on."""
        self.keys.append((key, message, data))

    def describe(self, everything=False):
        out = {}
        for name, value, k, cost in zip(self.names, self.labels, self.choices, self.costs):
            if everything or k or not cost:
                text = value if isinstance(value, (int, str)) else repr(value)
                out[name] = text if isinstance(text, int) else str(text)[:120]
        return out


class Scenario:
    def __init__(self, name, fn, quick=1, thorough=2, timeout=20.0, about="", prepare=None):
        self.name = name
        self.fn = fn
        self.bounds = {"quick": quick, "thorough": thorough}
        self.timeout = timeout
        self.about = about
        self.prepare = prepare  # run once, before the exploration, in the process that forks


class Found:
    """A violation in transportable form."""

    def __init__(self, scenario, ctx, message, key, data):
        self.scenario = scenario
        self.choices = list(ctx.choices)
        self.cost = sum(1 for k, c in zip(ctx.choices, ctx.costs) if c and k)
        self.where = ctx.describe()
        self.message = message
        self.key = key
        self.data = data if data is not None else ctx.data


def _alarm(signum, frame):
    # Raised again and again, in case the code under test swallows it once.
    signal.setitimer(signal.ITIMER_REAL, 1.0)
    raise Hang()


def run_one(scenario, prefix, tier):
    """One execution. Returns (ctx, [Found])."""
    c = Ctx(prefix, tier)
    found = []
    IN_SUT[0] = None
    signal.setitimer(signal.ITIMER_REAL, scenario.timeout)
    try:
        try:
            scenario.fn(c)
        finally:
            signal.setitimer(signal.ITIMER_REAL, 0)
    except Violation as v:
        found.append(Found(scenario.name, c, v.message, v.key, v.data))
    except (LookupError, TypeError, ValueError, AttributeError, RuntimeError, AssertionError) as e:
        # The report does not even have the shape that every correct report has.
        where = traceback.extract_tb(e.__traceback__)[-1]
        if os.path.basename(where.filename) in ("model.py", "decode.py", "samples.py", "tables.py", "bases.py"):
            raise  # these do not look at reports
        message = "what is reported has the wrong shape: %s: %s (at %s:%d)" % (
            type(e).__name__, e, os.path.basename(where.filename), where.lineno)  # fmt: skip
        found.append(Found(scenario.name, c, message, None, None))
    except Hang:
        if IN_SUT[0] is None:
            raise HarnessError("the harness itself did not end: %r" % (c.describe(),))
        found.append(
            Found(scenario.name, c, "%s did not end within %g s" % (IN_SUT[0], scenario.timeout), None, None)
        )
    for key, message, data in c.keys:
        found.append(Found(scenario.name, c, message, key, data))
    if len(c.choices) < len(prefix) and not found:
        raise HarnessError("prefix %r was not consumed" % (prefix,))
    me = sys.modules["vlib.engine"]
    me.STATS.executions += 1
    me.STATS.nodes += len(c.choices) - len(prefix) + 1
    return c, found


def children(c, prefix, bound):
    """Every prefix that deviates from this execution at or after its end."""
    cost = 0
    out = []
    for i, (k, n, w) in enumerate(zip(c.choices, c.sizes, c.costs)):
        if i >= len(prefix) and cost + w <= bound:
            base = c.choices[:i]
            for alt in range(1, n):
                out.append(base + [alt])
        if w and k:
            cost += 1
    return out


_SCENARIO = None
_TIER = None
_KNOWN = frozenset()


def _init_worker():
    signal.signal(signal.SIGALRM, _alarm)
    signal.signal(signal.SIGINT, signal.SIG_IGN)
    limit_memory()


def limit_memory(limit=3 << 30):
    try:
        resource.setrlimit(resource.RLIMIT_AS, (limit, limit))
    except (ValueError, OSError):
        pass


SLICE_S = 0.5  # a process works this long before it hands the rest of its subtrees back


def _subtrees(task):
    """Explore the subtrees of a list of prefixes; returns the prefixes not reached in time."""
    stack, bound, deadline = task
    import vlib.engine as me

    me.STATS = Stats()
    found = []
    known = {}
    samples = []
    end = time.time() + SLICE_S
    try:
        while stack:
            now = time.time()
            if now > end or now > deadline:
                break
            p = stack.pop()
            c, bad = run_one(_SCENARIO, p, _TIER)
            if len(samples) < 1:
                samples.append(c.describe())
            for f in bad:
                if f.key is not None and f.key in _KNOWN:
                    known.setdefault(f.key, f)
                else:
                    found.append(f)
            if found:
                break
            stack.extend(children(c, p, bound))
        return ("ok", me.STATS, found, known, stack, samples)
    except HarnessError as e:
        return ("error", str(e) + "\n" + traceback.format_exc())
    except Exception:
        return ("error", traceback.format_exc())


class Result:
    def __init__(self):
        self.stats = Stats()
        self.found = []
        self.known = {}
        self.capped = False
        self.samples = []
        self.completed_bound = -1


def _batches(stack, procs):
    """Interleaved pieces: neighbouring subtrees tend to be of similar size."""
    n = min(len(stack), 4 * procs)
    return [stack[i::n] for i in range(n)]


def explore(scenario, tier, known, deadline, procs=None):
    """All executions within the bound of this tier; stops early on a violation."""
    global _SCENARIO, _TIER, _KNOWN
    import vlib.engine as me

    me._SCENARIO, me._TIER, me._KNOWN = scenario, tier, frozenset(known)
    signal.signal(signal.SIGALRM, _alarm)
    result = Result()
    bound_max = scenario.bounds[tier]
    procs = procs or min(8, os.cpu_count() or 1)
    # Iterating the bounds repeats the cheaper levels; bound 0 is a negligible part of bound 1.
    if scenario.prepare:
        try:
            scenario.prepare()
        except Violation as v:
            result.found = [Found(scenario.name, Ctx([], tier), v.message, v.key, v.data)]
            return result
    bounds = [bound_max] if bound_max <= 1 else list(range(1, bound_max + 1))
    context = multiprocessing.get_context("fork")
    with context.Pool(procs, initializer=_init_worker) as pool:
        for bound in bounds:
            level = Stats()
            samples = []
            found = []
            queue = collections.deque([[[]]])
            running = []
            progress = time.time()
            while (queue or running) and not found:
                while queue and len(running) < 2 * procs:
                    running.append(pool.apply_async(_subtrees, ((queue.popleft(), bound, deadline),)))
                ready = [r for r in running if r.ready()]
                if not ready:
                    if time.time() - progress > 400:
                        pool.terminate()
                        raise HarnessError("no process of the pool has answered for 400 s")
                    running[0].wait(0.005)
                    continue
                progress = time.time()
                running = [r for r in running if r not in ready]
                for r in ready:
                    res = r.get()
                    if res[0] == "error":
                        pool.terminate()
                        raise HarnessError(res[1])
                    _, stats, bad, kn, rest, smp = res
                    level.merge(stats)
                    for k, f in kn.items():
                        result.known.setdefault(k, f)
                    if len(samples) < 6:
                        samples.extend(smp)
                    found.extend(bad)
                    if rest and time.time() > deadline:
                        result.capped = True
                    elif rest:
                        queue.extend(_batches(rest, procs))
            result.stats = level
            result.samples = samples[:6]
            if found:
                pool.terminate()
                found.sort(key=lambda f: (f.cost, len(f.choices), f.choices))
                result.found = found
                return result
            if result.capped:
                return result
            result.completed_bound = bound
    return result
