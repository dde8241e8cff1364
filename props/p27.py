"""P27: the machine and the process that read a file do not show in what is reported of it."""

import json
import os
import pickle
import shutil
import subprocess
import sys
import tempfile

from vlib import bases
from vlib import engine
from vlib import model as M
from vlib import samples as S
from vlib import sut
from vlib import vocabulary
from vlib.engine import HarnessError
from vlib.engine import Scenario
from vlib.engine import Violation

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
YEAR = 31556952
# What a process finds itself in. The first option of each is the usual one.
DIMENSIONS = {
    "hash seed": ["0", "1", "2", "3", "4", "5", "12345", "4294967295"],
    "locale": ["C.UTF-8", "C", "POSIX"],
    "utf-8 mode": [None, "0", "1"],
    "zone": ["UTC", "America/New_York", "Asia/Tokyo", "AAA-1BBB,M3.5.0,M10.5.0/3", "XYZ+12", ":nonsense"],
    "clock": [0, -50 * YEAR, -12 * YEAR, 12 * YEAR, 200 * YEAR],
    "optimised": [None, "-O", "-OO"],
    "bytes": [None, "-b", "-bb"],
    "developer": [None, "-Xdev"],
    "digits": [None, "-Xint_max_str_digits=640"],
    "directory": ["/", "empty", "full"],
    "variables": ["none", "home", "ones", "narrow", "wide"],
    "collector": [None, "no gc", "eager gc"],
    "thread": [None, "thread"],
    "standard input": ["null", "closed"],
    "order": ["forwards", "backwards"],
}  # fmt: skip
VARIABLES = {
    "none": {},
    "ones": {},
    "home": {"HOME": "/root", "USERPROFILE": "C:\\Users\\u", "windir": "C:\\Windows", "SystemRoot": "C:\\Windows", "ProgramFiles": "C:\\Program Files",
             "USER": "u", "TEMP": "/tmp", "PATH": "/bin", "LANGUAGE": "de", "LNKPARSE_DEBUG": "1", "DEBUG": "1", "NO_COLOR": "1"},
    "narrow": {"COLUMNS": "20", "LINES": "5", "TERM": "dumb"},
    "wide": {"COLUMNS": "4000", "LINES": "500", "TERM": "xterm-256color", "FORCE_COLOR": "1", "PYTHON_COLORS": "1"},
}  # fmt: skip


def words():
    """A file that holds every word of the vocabulary."""
    values = [M.property_int(n + 2, 0x1F, w) for n, w in enumerate(vocabulary.WORDS)]
    return M.File(
        strings={"relative_path": "..\\a b\\%windir%\\x.txt", "command_line_arguments": '$HOME "%PATH%" ~', "description": "rel"},
        extra=[M.block_metadata([M.property_storage(S.G1, values)]), M.block_environment("%windir%\\x", "%ProgramFiles%\\x")],
    )


FILES = [(data, None) for data in bases.ALL.values()]
FILES += [(words().build().data, None), (S.full_file(False, blocks=list(S.BLOCKS), items=list(S.ITEMS), info="both").build().data, None)]
FILES += [(bases.ALL["built:ansi"], cp) for cp in ("cp1251", "utf-8", "cp932")]
FILES += [(data[: len(data) * k // 5], None) for data in list(bases.BUILT[n]().build().data for n in bases.SMALL) for k in (3,)]
FILES += [(M.File(header=M.Header(attributes=0x3FFFF, ctime=1, atime=0x01D5123456789ABC, wtime=0x02D5123456789ABC), flags=0x07FFFE00).build().data, None)]
FILES = [(data, cp) for data, cp in FILES if len(data) >= 0x4C]
COMMANDS = {0, 1, 2, len(FILES) - 1}
_SHIM = []
_USUAL = []


def shim(scratch):
    """The library that moves the clock, compiled into the scratch directory."""
    out = os.path.join(scratch, "clock.so")
    run = subprocess.run(["gcc", "-O1", "-shared", "-fPIC", "-o", out, os.path.join(HERE, "vlib", "clock.c"), "-ldl"], capture_output=True, text=True)
    if run.returncode:
        raise HarnessError("gcc: " + run.stderr[:300])
    return out


def observe(chosen, full=None):
    """What a process says that finds itself in this environment."""
    scratch = tempfile.mkdtemp(prefix="verif-p27-")
    try:
        files = [(data, cp, None) for data, cp in FILES]
        for n in COMMANDS:
            path = os.path.join(scratch, "file%d.lnk" % n)
            with open(path, "wb") as f:
                f.write(files[n][0])
            files[n] = (*files[n][:2], path)
        order = list(range(len(files)))
        if full is not None:
            order = [full]
        elif chosen["order"] == "backwards":
            order.reverse()
        with open(os.path.join(scratch, "files"), "wb") as f:
            pickle.dump([files[n] for n in order], f)
        where = "/"
        if chosen["directory"] != "/":
            where = os.path.join(scratch, "here")
            os.mkdir(where)
        if chosen["directory"] == "full":
            # What the files speak of is here.
            for name in ("rel", "a.txt", ".\\a.txt", "C:", "C:\\dir\\file.txt", "x.txt", "1", "desktop.ini", "LnkParse3.ini"):
                with open(os.path.join(where, name), "w") as f:
                    f.write("here")
        env = {
            "PATH": "/usr/bin:/bin", "PYTHONDONTWRITEBYTECODE": "1", "PYTHONPYCACHEPREFIX": "/nonexistent-pycache",
            "PYTHONHASHSEED": chosen["hash seed"], "LC_ALL": chosen["locale"], "TZ": chosen["zone"], **VARIABLES[chosen["variables"]],
        }  # fmt: skip
        if chosen["utf-8 mode"] is not None:
            env["PYTHONUTF8"] = chosen["utf-8 mode"]
        if chosen["clock"]:
            env["LD_PRELOAD"] = shim(scratch)
            env["VERIF_CLOCK"] = str(chosen["clock"])
        flags = [chosen[k] for k in ("optimised", "bytes", "developer", "digits") if chosen[k]]
        options = [chosen[k] for k in ("collector", "thread") if chosen[k]]
        if chosen["variables"] == "ones":
            options.append("ones")
        if full is not None:
            options.append("full")
        result = os.path.join(scratch, "result")
        argv = [sys.executable, *flags, os.path.join(HERE, "vlib", "child.py"), os.path.abspath(sut.REPO), os.path.join(scratch, "files"), result, *options]
        if chosen["standard input"] == "closed":
            argv = ["/bin/sh", "-c", 'exec "$@" <&-', "sh", *argv]
        try:
            done = subprocess.run(argv, env=env, cwd=where, stdin=subprocess.DEVNULL, capture_output=True, timeout=200)
        except subprocess.TimeoutExpired:
            return {"failed": "no end after 200 s"}
        if not os.path.exists(result):
            return {"failed": "exit status %d: %s" % (done.returncode, done.stderr.decode("utf-8", "replace")[-400:])}
        with open(result, encoding="ascii") as f:
            out = json.load(f)
    finally:
        shutil.rmtree(scratch, ignore_errors=True)
    if chosen["clock"] and out["year"] == _year():
        raise HarnessError("the clock was not moved")
    out["files"] = dict(zip(order, out["files"]))
    # The command speaks of the path it was given only if it fails.
    return out


def _year():
    import time

    return time.gmtime().tm_year


def usual():
    if not _USUAL:
        out = observe({k: v[0] for k, v in DIMENSIONS.items()})
        _USUAL.append(out)
    return _USUAL[0]


def environments(c):
    """a process that differs from the usual one in any two (thorough: three) respects"""
    chosen = {k: c.pick(k, v) for k, v in DIMENSIONS.items()}
    expected = usual()
    if "failed" in expected:
        raise Violation("no report in the usual environment: " + expected["failed"])
    expected = expected["files"]
    unusual = {k: v for k, v in chosen.items() if v != DIMENSIONS[k][0]}
    engine.STATS.calls += len(FILES)
    got = observe(chosen)
    if "failed" in got:
        raise Violation("in a process with %r: %s" % (unusual, got["failed"]))
    engine.STATS.outcomes.add(hash(json.dumps(sorted(got["files"].items()))))
    for n, seen in got["files"].items():
        engine.STATS.compared += len(seen)
        engine.STATS.inputs.add((n, repr(unusual)))
        if seen != expected[n]:
            here = observe(chosen, n)["files"][n]
            there = observe({k: v[0] for k, v in DIMENSIONS.items()}, n)["files"][n]
            for k in sorted(set(here) | set(there)):
                if here.get(k) != there.get(k):
                    raise Violation("in a process with %r, the %s is\n%.600s\nusually it is\n%.600s" % (unusual, k, here.get(k), there.get(k)), data=FILES[n][0])
            raise Violation("in a process with %r, the reports depend on the order of the files" % unusual, data=FILES[n][0])


def anchored(c):
    """in the usual environment, the reports are the ones the model tells"""
    name = c.all("file", list(bases.BUILT))
    b = bases.BUILT[name]().build()
    c.data = b.data
    at = [n for n, (data, cp) in enumerate(FILES) if data == b.data and cp is None][0]
    out = observe({k: v[0] for k, v in DIMENSIONS.items()}, at)
    engine.STATS.calls += 1
    engine.STATS.inputs.add(name)
    engine.STATS.outcomes.add(name)
    engine.STATS.compared += 1
    if "failed" in out:
        raise Violation("no report in the usual environment: " + out["failed"], data=b.data)
    seen = out["files"][at].get("report")
    if seen != repr(sut.report(b.data)) and sut.report(b.data) == b.expect:
        raise Violation("a fresh process reports %.600s" % seen, data=b.data)
    sut.same(b.expect, sut.report(b.data), "report", b.data)


SCENARIOS = [
    Scenario("anchored", anchored, 0, 0, timeout=300),
    Scenario("environments", environments, 2, 3, timeout=500, prepare=usual),
]
