"""Checks of the machinery itself: exact counts of toy explorations, and toy bugs that must be found."""

import os
import sys
import time

from vlib import engine
from vlib import sched
from vlib import steps
from vlib import sut


def toy(c):
    a = c.all("a", range(5))
    b = c.pick("b", range(4))
    d = c.pick("d", range(3))
    engine.STATS.outcomes.add((a, b, d))


def toy_bug(c):
    a = [c.pick("x%d" % i, range(3)) for i in range(6)]
    if a[1] == 2 and a[4] == 1:
        raise engine.Violation("found")


def toy_hang(c):
    c.all("a", range(2))
    with sut.guard("toy"):
        while True:
            time.sleep(0.01)


SHARED = [0]


def racy():
    value = SHARED[0]
    value += 1
    SHARED[0] = value
    return value


def expect(what, got, wanted):
    if got != wanted:
        raise engine.HarnessError("self test: %s is %r, not %r" % (what, got, wanted))


def main():
    far = time.time() + 60
    for bound, n in ((0, 5), (1, 5 * (1 + 3 + 2)), (2, 60)):
        r = engine.explore(engine.Scenario("toy", toy, bound, bound), "quick", (), far)
        expect("executions at bound %d" % bound, r.stats.executions, n)
        expect("outcomes at bound %d" % bound, len(r.stats.outcomes), n)
    expect("bug at bound 1", engine.explore(engine.Scenario("bug", toy_bug, 1, 1), "quick", (), far).found, [])
    r = engine.explore(engine.Scenario("bug", toy_bug, 2, 2), "quick", (), far)
    expect("bug at bound 2", [f.cost for f in r.found[:1]], [2])
    r = engine.explore(engine.Scenario("hang", toy_hang, 0, 0, timeout=0.2), "quick", (), far)
    expect("hang", ["did not end" in f.message for f in r.found[:1]], [True])

    # A lost update of two threads needs exactly one preemption at the right line.
    root, sched.ROOT = sched.ROOT, os.path.dirname(os.path.abspath(__file__))
    try:
        n = sched.length(racy)
        lost = []
        for k in range(1, n + 1):
            SHARED[0] = 0
            sched.run([racy, racy], [(0, k), (1, None)])
            lost.append(SHARED[0] == 1)
        expect("lost updates", sum(lost), 2)
    finally:
        sched.ROOT = root

    from vlib import bases

    data = bases.ALL["built:plain"]
    a = steps.count(lambda: sut.LnkFile(indata=data), 10**6)
    b = steps.count(lambda: sut.LnkFile(indata=data), 10**6)
    expect("counted steps", a == b > 100, True)
    print("self test passed (%s, python %s)" % (sut.REPO, sys.version.split()[0]))
    return 0
