"""Planted bugs: write them from plants.py, confirm them in a scratch copy, run the checks against them.

    tools/seeded.py make [ID...]     write seeded/<id>/ and confirm (applies, tests pass, demo passes/fails)
    tools/seeded.py run [ID...]      run the check of the bug's property (--all: every check) against it
"""

import json
import os
import re
import shutil
import subprocess
import sys
import tempfile
from concurrent.futures import ThreadPoolExecutor

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path[:0] = [HERE, os.path.join(HERE, "tools")]
PY = "/opt/venv/bin/python"
ENV = dict(os.environ, PYTHONDONTWRITEBYTECODE="1", PYTHONPYCACHEPREFIX="/nonexistent-pycache", LC_ALL="C.UTF-8", TZ="UTC")
SEEDED = os.path.join(HERE, "seeded")

DEMO_SH = """#!/bin/bash
# Run with /repo as the working directory: exit 0 if the parser is right, 1 if it is not.
export PYTHONDONTWRITEBYTECODE=1 PYTHONPYCACHEPREFIX=/nonexistent-pycache LC_ALL=C.UTF-8
PY=/opt/venv/bin/python
[ -x "$PY" ] || PY=python3
exec timeout 120 "$PY" "$(dirname "$0")/demo.py"
"""

DEMO_PY = '''"""%(breaks)s"""

import contextlib
import io
import json
import os
import sys
import warnings

sys.path.insert(0, os.getcwd())
warnings.simplefilter("ignore")
import LnkParse3  # noqa: E402

LnkFile = LnkParse3.lnk_file
%(data)s


def report(data, get_all=True, **kw):
    return LnkFile(indata=data, **kw).get_json(get_all)


def printed(method, *args):
    out = io.StringIO()
    with contextlib.redirect_stdout(out):
        method(*args)
    return out.getvalue()


def expect(got, wanted):
    if got != wanted:
        print("got %%r, expected %%r" %% (got, wanted))
        sys.exit(1)


%(demo)s
print("ok")
'''


def copy():
    where = tempfile.mkdtemp(prefix="seed-")
    subprocess.run(["cp", "-a", "/repo/.", where], check=True)
    return where


def tests(where):
    env = dict(ENV, PYTHONPATH=where)
    r = subprocess.run([PY, "-m", "pytest", "-q", "-p", "no:cacheprovider", "tests"], cwd=where, env=env,
                       stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)  # fmt: skip
    m = re.search(r"(\d+) passed", r.stdout)
    return r.returncode == 0 and m and int(m.group(1)) == 12, r.stdout[-1500:]


def demo(directory, where):
    r = subprocess.run(["bash", os.path.join(directory, "demo.sh")], cwd=where, env=ENV,
                       stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)  # fmt: skip
    return r.returncode, r.stdout[-600:]


def make(p):
    where = copy()
    try:
        for path, old, new in p["edits"]:
            full = os.path.join(where, path)
            text = open(full).read()
            if text.count(old) != 1:
                return "%s: %r occurs %d times in %s" % (p["id"], old, text.count(old), path)
            with open(full, "w") as f:
                f.write(text.replace(old, new))
        diff = subprocess.run(["git", "diff"], cwd=where, stdout=subprocess.PIPE, text=True, check=True).stdout
        d = os.path.join(SEEDED, p["id"])
        os.makedirs(d, exist_ok=True)
        with open(os.path.join(d, "patch.diff"), "w") as f:
            f.write(diff)
        with open(os.path.join(d, "demo.sh"), "w") as f:
            f.write(DEMO_SH)
        data = p.get("data")
        data = data() if callable(data) else data
        lines = ""
        if data is not None:
            if not isinstance(data, dict):
                data = {"DATA": data}
            for k, v in data.items():
                h = v.hex()
                lines += "%s = bytes.fromhex(\n%s\n)\n" % (
                    k, "\n".join('    "%s"' % h[i : i + 96] for i in range(0, len(h), 96)))  # fmt: skip
        with open(os.path.join(d, "demo.py"), "w") as f:
            f.write(DEMO_PY % {"breaks": p["breaks"], "data": lines, "demo": p["demo"].strip()})
        with open(os.path.join(d, "meta.json"), "w") as f:
            json.dump({"property": p["prop"], "needs": p["needs"], "what_it_breaks": p["breaks"]}, f, indent=1)
            f.write("\n")
        ok, out = tests(where)
        if not ok:
            return "%s: the tests fail\n%s" % (p["id"], out)
        code, out = demo(d, where)
        if code == 0:
            return "%s: the demo does not fail with the patch" % p["id"]
        code2, out2 = demo(d, "/repo")
        if code2:
            return "%s: the demo fails without the patch: %s" % (p["id"], out2)
        return "%s: ok (%s)" % (p["id"], out.strip().replace("\n", " ")[-150:])
    finally:
        shutil.rmtree(where)


def run(name, every, checks=None):
    d = os.path.join(SEEDED, name)
    meta = json.load(open(os.path.join(d, "meta.json")))
    where = copy()
    caught, errors = [], []
    try:
        subprocess.run(["git", "apply", os.path.join(d, "patch.diff")], cwd=where, check=True)
        for prop in checks or (["P%02d" % n for n in range(1, len(os.listdir(os.path.join(HERE, "props"))))] if every else [meta["property"]]):
            if not os.path.exists(os.path.join(HERE, "props", prop.lower() + ".py")):
                continue
            ev = tempfile.mkdtemp(prefix="ev-")
            r = subprocess.run(["./check", prop, "quick"], cwd=HERE, env=dict(ENV, VERIF_REPO=where, VERIF_EVIDENCE=ev),
                               stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)  # fmt: skip
            shutil.rmtree(ev)
            if r.returncode == 1 and "VIOLATION property=%s" % prop in r.stdout:
                caught.append(prop)
            elif r.returncode != 0:
                errors.append("%s: exit %d %s" % (prop, r.returncode, r.stdout[-300:]))
    finally:
        shutil.rmtree(where)
    return name, meta["property"], caught, errors


def main(argv):
    import plants

    names = [a for a in argv[1:] if not a.startswith("--")]
    if argv[0] == "make":
        todo = [p for p in plants.PLANTS if not names or p["id"] in names]
        with ThreadPoolExecutor(6) as ex:
            for line in ex.map(make, todo):
                print(line, flush=True)
        return
    names = names or sorted(os.listdir(SEEDED))
    path = os.path.join(HERE, "tools", "seeded.json")
    with ThreadPoolExecutor(3) as ex:
        for name, prop, caught, errors in ex.map(lambda n: run(n, "--all" in argv), names):
            results = json.load(open(path)) if os.path.exists(path) else {}
            old = results.get(name, {}).get("caught", []) if "--all" not in argv else []
            results[name] = {"caught": sorted(set(caught) | (set(old) - {prop}))}
            with open(path, "w") as f:
                json.dump(results, f, indent=0, sort_keys=True)
            print("%s %s %s: %s %s" % ("CAUGHT" if prop in caught else "MISSED", name, prop, caught, errors or ""), flush=True)


if __name__ == "__main__":
    main(sys.argv[1:])
