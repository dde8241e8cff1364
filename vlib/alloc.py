"""Deterministic counts of the memory allocated and of the comparisons made (see alloc.c)."""

import ctypes
import os
import shutil
import subprocess
import tempfile

from vlib.engine import HarnessError

_LIB = []


def load():
    """Compile and load the counter (once, before the exploration forks)."""
    if _LIB:
        return
    source = os.path.join(os.path.dirname(os.path.abspath(__file__)), "alloc.c")
    scratch = tempfile.mkdtemp(prefix="verif-alloc-")
    try:
        out = os.path.join(scratch, "alloc.so")
        run = subprocess.run(["gcc", "-O1", "-shared", "-fPIC", "-o", out, source], capture_output=True, text=True)
        if run.returncode:
            raise HarnessError("gcc: " + run.stderr[:300])
        lib = ctypes.PyDLL(out)
    finally:
        shutil.rmtree(scratch, ignore_errors=True)
    lib.stop.restype = ctypes.c_ulonglong
    lib.stop_compare.restype = ctypes.c_ulonglong
    for t in (dict, list, tuple, str, bytes, int):
        if lib.watch(ctypes.c_void_p(id(t))) < 0:
            raise HarnessError("comparisons cannot be counted")
    _LIB.append(lib)
    many = [{"a": n} for n in range(100)]
    if not 100 <= compared(lambda: {"a": -1} in many) <= 300:
        raise HarnessError("comparisons are not counted")


def count(fn):
    """Bytes allocated while fn() runs."""
    load()
    _LIB[0].start()
    try:
        fn()
    finally:
        n = _LIB[0].stop()
    return n


def compared(fn):
    """Comparisons of two objects of built-in types made in C while fn() runs."""
    load()
    _LIB[0].start_compare()
    try:
        fn()
    finally:
        n = _LIB[0].stop_compare()
    return n
