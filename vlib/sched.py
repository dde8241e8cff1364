"""Controlled scheduler: real threads of which exactly one runs; switches at chosen source lines.

A schedule is a list of (thread, steps): the thread runs that many steps, `None` means until it
ends.  A step is a source line of the code under test (or a call in it, or a spot: a place inside a
line right behind a call, where the interpreter may switch threads, too).
"""

import dis
import gc
import os
import sys
import threading
import types

from vlib.engine import HarnessError
from vlib.sut import REPO

ROOT = os.path.abspath(os.path.join(REPO, "LnkParse3")) + os.sep
LINES, CALLS, SPOTS = "lines", "calls", "spots"
_TOOL = 3
_BEHIND = {}
_TASKS = {}  # of the threads whose spots count


def behind_calls(code):
    """The offsets of the instructions that follow a call, but for those that start a line."""
    found = set()
    called = False
    for i in dis.get_instructions(code):
        if called and not i.starts_line:
            found.add(i.offset)
        called = i.opname.startswith("CALL")
    return found


def at_instruction(code, offset):
    if offset not in _BEHIND[code]:
        return sys.monitoring.DISABLE
    task = _TASKS.get(threading.get_ident())
    if task is not None:
        task.step()
    return None


def watch_spots():
    """Have the instructions of the code under test reported, once and for all in this process.

    Opcode events of sys.settrace crash Python 3.12 when several threads use them.
    """
    if _BEHIND:
        return
    todo = [f.__code__ for f in gc.get_objects() if isinstance(f, types.FunctionType)]
    while todo:
        code = todo.pop()
        if code.co_filename.startswith(ROOT) and code not in _BEHIND:
            _BEHIND[code] = behind_calls(code)
            todo += [x for x in code.co_consts if isinstance(x, types.CodeType)]
    sys.monitoring.use_tool_id(_TOOL, "spots")
    sys.monitoring.register_callback(_TOOL, sys.monitoring.events.INSTRUCTION, at_instruction)
    for code in _BEHIND:
        sys.monitoring.set_local_events(_TOOL, code, sys.monitoring.events.INSTRUCTION)


class Task:
    def __init__(self, fn, unit):
        self.fn = fn
        self.unit = unit
        self.go = threading.Semaphore(0)
        self.left = None
        self.done = False
        self.steps = 0
        self.result = None
        self.error = None
        self.home = None
        self.thread = threading.Thread(target=self.main, daemon=True)

    def main(self):
        self.go.acquire()
        if self.unit == SPOTS:
            watch_spots()
            _TASKS[threading.get_ident()] = self
        else:
            sys.settrace(self.trace)
        try:
            self.result = self.fn()
        except BaseException as e:
            self.error = e
        finally:
            sys.settrace(None)
            _TASKS.pop(threading.get_ident(), None)
            self.done = True
            self.home.release()

    def trace(self, frame, event, arg):
        if not frame.f_code.co_filename.startswith(ROOT):
            return None
        if self.unit == CALLS:
            self.step()
            return None
        if self.left is None:
            # Nothing can interrupt this thread any more unless it is rescheduled.
            if self.steps:
                return None
        return self.local

    def local(self, frame, event, arg):
        if event == "line":
            self.step()
        return self.local

    def step(self):
        if self.left is not None:
            if self.left == 0:
                self.home.release()
                self.go.acquire()
                if self.left == 0:
                    raise HarnessError("scheduled without steps")
            if self.left is not None:
                self.left -= 1
        self.steps += 1


def run(fns, schedule, unit=LINES):
    """Run the functions under the schedule; returns the tasks. What is left at the end is run in order."""
    tasks = [Task(fn, unit) for fn in fns]
    home = threading.Semaphore(0)
    for t in tasks:
        t.home = home
        t.thread.start()
    for n, steps in list(schedule) + [(n, None) for n in range(len(tasks))]:
        t = tasks[n]
        if t.done or steps == 0:
            continue
        t.left = steps
        t.go.release()
        home.acquire()
    for t in tasks:
        t.thread.join()
    return tasks


def length(fn, unit=LINES):
    """Steps of the function when it runs alone."""
    return run([fn], [(0, 1 << 60)], unit)[0].steps
