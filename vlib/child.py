"""A process of its own, in an environment of its own, that says what the parser reports there (see props/p27.py).

child.py REPO FILES RESULT OPTIONS: FILES is a pickled list of (bytes, code page, path or None); RESULT gets, in
JSON, for each file the digests of all its reports, or with the option "full" the reports themselves.
"""

import argparse  # noqa: F401
import contextlib
import datetime
import gc
import hashlib
import importlib
import io
import json
import locale
import os
import pickle
import sys
import textwrap  # noqa: F401
import threading
import time
import warnings


class Ones(dict):
    """An environment in which every variable is set."""

    def __getitem__(self, key):
        return "1"

    def get(self, key, default=None):
        return "1"

    def __contains__(self, key):
        return True


def observe(package, module, data, cp, path):
    out = {}

    def printed(name, method, *args):
        stream = io.StringIO()
        with contextlib.redirect_stdout(stream):
            method(*args)
        out[name] = stream.getvalue()

    told = []
    try:
        with warnings.catch_warnings(record=True) as told:
            warnings.simplefilter("always")
            lnk = package.lnk_file(indata=data, cp=cp)
            out["report"] = repr(lnk.get_json(True))
            out["reduced report"] = repr(lnk.get_json(False))
            for everything in (True, False):
                printed("JSON %s" % everything, lnk.print_json, everything)
                printed("text %s" % everything, lnk.print_lnk_file, everything)
            for pjson in (True, False):
                printed("target %s" % pjson, lnk.print_shortcut_target, pjson)
            if path is not None:
                for flags in ([], ["-j"], ["-t"], ["-j", "-a"]):
                    sys.argv = ["lnkparse", *flags, *(["-c", cp] if cp else []), path]
                    printed("command %s" % " ".join(flags), module.main)
    except BaseException as e:
        out["exception"] = "%s: %s" % (type(e).__name__, e)
    skip = (ResourceWarning, BytesWarning, DeprecationWarning)
    out["warnings"] = repr([str(w.message) for w in told if not issubclass(w.category, skip)])
    return out


def main(repo, files, result, options):
    with contextlib.suppress(locale.Error):
        locale.setlocale(locale.LC_ALL, "")
    import yaml  # noqa: F401

    with open(files, "rb") as f:
        files = pickle.load(f)
    assert abs(time.time() - datetime.datetime.now().timestamp()) < 100
    if "ones" in options:
        os.environ = Ones(os.environ)
    if "no gc" in options:
        gc.disable()
    if "eager gc" in options:
        gc.set_threshold(20, 2, 2)
    sys.path.insert(0, repo)
    package = importlib.import_module("LnkParse3")
    module = importlib.import_module("LnkParse3.lnk_file")
    assert package.__file__.startswith(repo + os.sep), package.__file__
    seen = []

    def run():
        for data, cp, path in files:
            out = observe(package, module, data, cp, path)
            if "full" not in options:
                out = {k: hashlib.sha256(v.encode("utf-8", "backslashreplace")).hexdigest() for k, v in out.items()}
            seen.append(out)

    if "thread" in options:
        t = threading.Thread(target=run)
        t.start()
        t.join()
    else:
        run()
    with open(result, "w", encoding="ascii") as f:
        json.dump({"files": seen, "year": time.gmtime().tm_year}, f)


if __name__ == "__main__":
    main(*sys.argv[1:4], sys.argv[4:])
