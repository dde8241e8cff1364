"""The only door to the code under test: its public API, imported from /repo."""

import contextlib
import importlib
import io
import json
import os
import sys
import warnings

from vlib import engine
from vlib.engine import HarnessError
from vlib.engine import Violation

REPO = os.environ.get("VERIF_REPO", "/repo")
sys.path.insert(0, REPO)
warnings.simplefilter("ignore")

import LnkParse3  # noqa: E402

if not os.path.abspath(LnkParse3.__file__).startswith(os.path.abspath(REPO) + os.sep):
    raise HarnessError("LnkParse3 was imported from %s" % LnkParse3.__file__)

LnkFile = LnkParse3.lnk_file
MODULE = importlib.import_module("LnkParse3.lnk_file")
LnkParserError = importlib.import_module("LnkParse3.exceptions").LnkParserError


class guard:
    """A call into the real code: an exception that escapes it is a violation."""

    __slots__ = ("label", "data")

    def __init__(self, label, data=None):
        self.label = label
        self.data = data

    def __enter__(self):
        engine.STATS.calls += 1
        engine.IN_SUT[0] = self.label

    def __exit__(self, etype, e, tb):
        if etype is None:
            engine.IN_SUT[0] = None
            return False
        if issubclass(etype, Exception) and not issubclass(etype, (Violation, HarnessError)):
            engine.IN_SUT[0] = None
            where = ""
            while tb is not None:
                where = "%s:%d" % (os.path.basename(tb.tb_frame.f_code.co_filename), tb.tb_lineno)
                tb = tb.tb_next
            raise Violation(
                "%s raised %s: %s (at %s)" % (self.label, etype.__name__, e, where), data=self.data
            ) from None
        return False


def parse(data, **kw):
    with guard("LnkFile(indata=...)", data):
        return LnkFile(indata=data, **kw)


def as_json(lnk, get_all=True, data=None):
    with guard("get_json(%r)" % get_all, data):
        return lnk.get_json(get_all)


def report(data, get_all=True, **kw):
    """What the parser says about these bytes."""
    engine.STATS.inputs.add(hash(data))
    with guard("LnkFile(indata=...)", data):
        lnk = LnkFile(indata=data, **kw)
    with guard("get_json(%r)" % get_all, data):
        return lnk.get_json(get_all)


def printed(lnk, method, *args, data=None):
    out = io.StringIO()
    with guard(method, data):
        with contextlib.redirect_stdout(out):
            getattr(lnk, method)(*args)
        # What no output can hold fails as soon as there is a real one.
        out.getvalue().encode("utf-8")
    return out.getvalue()


def print_json(lnk, print_all=False, data=None):
    return json.loads(printed(lnk, "print_json", print_all, data=data))


def freeze(x):
    """Hashable form, for counting distinct outcomes."""
    if isinstance(x, dict):
        return tuple((k, freeze(v)) for k, v in sorted(x.items(), key=lambda kv: str(kv[0])))
    if isinstance(x, (list, tuple)):
        return tuple(freeze(v) for v in x)
    return x


def outcome(x):
    engine.STATS.outcomes.add(hash(freeze(x)))


def first_difference(expected, actual, path=""):
    """Readable path of the first place where two values differ, or None."""
    if isinstance(expected, dict) and isinstance(actual, dict):
        for k in expected:
            if k not in actual:
                return "%s.%s is missing (expected %r)" % (path, k, expected[k])
            d = first_difference(expected[k], actual[k], "%s.%s" % (path, k))
            if d:
                return d
        for k in actual:
            if k not in expected:
                return "%s.%s should not be there (got %r)" % (path, k, actual[k])
        return None
    if isinstance(expected, list) and isinstance(actual, list):
        for i, (e, a) in enumerate(zip(expected, actual)):
            d = first_difference(e, a, "%s[%d]" % (path, i))
            if d:
                return d
        if len(expected) != len(actual):
            return "%s has %d elements, expected %d" % (path, len(actual), len(expected))
        return None
    if type(expected) is not type(actual) or expected != actual:
        return "%s is %r, expected %r" % (path, actual, expected)
    return None


def same(expected, actual, what, data=None, key=None):
    """The observation must be what the reference model says."""
    engine.STATS.compared += 1
    d = first_difference(expected, actual)
    if d:
        raise Violation("%s%s" % (what, d), key=key, data=data)
