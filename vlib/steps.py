"""Deterministic count of the work of the code under test: executed source lines."""

import os
import sys

from vlib.engine import HarnessError
from vlib.sut import REPO

ROOT = os.path.abspath(os.path.join(REPO, "LnkParse3")) + os.sep
MON = sys.monitoring
TOOL = 4
EV = MON.events


class TooMuchWork(BaseException):
    """The budget of lines is used up; not an Exception, so the code under test does not swallow it."""


class Counter:
    def __init__(self):
        self.lines = 0
        self.budget = 0


STATE = Counter()
_READY = [None]


def _start(code, offset):
    if code.co_filename.startswith(ROOT):
        MON.set_local_events(TOOL, code, EV.LINE | EV.JUMP)
    return MON.DISABLE


def _line(code, where):
    STATE.lines += 1
    if STATE.lines > STATE.budget:
        raise TooMuchWork()


def _jump(code, a, b):
    # A loop written on one line, or in a comprehension, jumps without a new line event.
    STATE.lines += 1
    if STATE.lines > STATE.budget:
        raise TooMuchWork()


def _setup():
    if _READY[0] == os.getpid():
        return
    if MON.get_tool(TOOL) is not None:
        if MON.get_tool(TOOL) != "verif-steps":
            raise HarnessError("monitoring tool id is taken")
    else:
        MON.use_tool_id(TOOL, "verif-steps")
    MON.register_callback(TOOL, EV.PY_START, _start)
    MON.register_callback(TOOL, EV.LINE, _line)
    MON.register_callback(TOOL, EV.JUMP, _jump)
    _READY[0] = os.getpid()


def count(fn, budget):
    """Lines of the code under test that fn() runs; raises TooMuchWork beyond the budget."""
    _setup()
    STATE.lines, STATE.budget = 0, budget
    MON.set_events(TOOL, EV.PY_START)
    MON.restart_events()
    try:
        fn()
    finally:
        STATE.budget = 1 << 62
        MON.set_events(TOOL, 0)
        MON.free_tool_id(TOOL)
        _READY[0] = None
    return STATE.lines
