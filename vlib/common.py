"""Steps shared by the checks."""

from vlib import decode
from vlib import engine
from vlib import model as M
from vlib.sut import as_json
from vlib.sut import outcome
from vlib.sut import parse
from vlib.sut import same


def cross_check(b, cp=None, allow=True, names=None):
    """The two halves of the oracle must say the same of a file that the model laid out."""
    d = decode.compare(decode.report(b.data, cp or "cp1252", allow), b.expect, names)
    if d:
        raise engine.HarnessError("model and decoder disagree: %s in %s" % (d, b.data.hex()))


def check_file(c, f, project=None, cp=None, key=None):
    """Lay the abstract file out, run the parser on it, compare (a projection of) the reports."""
    b = f.build()
    c.data = b.data
    engine.STATS.inputs.add(hash(b.data))
    kw = {}
    if cp is not None:
        kw["cp"] = cp
    if not f.allow_terminal_blocks:
        kw["allow_terminal_blocks"] = False
    lnk = parse(b.data, **kw)
    got = as_json(lnk, True, b.data)
    expected = b.expect
    cross_check(b, cp, f.allow_terminal_blocks, project and list(project(expected)))
    if project is not None:
        expected, got = project(expected), project(got)
    outcome(got)
    same(expected, got, "report", b.data, key)
    return lnk, b


def sections(*names):
    def project(report):
        return {k: report.get(k) for k in names if k in report}

    return project


def in_target(c, item, cp=None, before=(), after=()):
    """The item inside the target ID list of an otherwise small file."""
    f = M.File(items=[*before, item, *after], strings={"relative_path": "rel"})
    check_file(c, f, sections("target", "data", "size"), cp)


def in_shell_item(c, item, cp=None, before=(), after=()):
    """The item inside a VistaAndAboveIDListDataBlock."""
    f = M.File(extra=[M.block_shell_item([*before, item, *after]), M.block_special_folder()])
    check_file(c, f, sections("extra", "size"), cp)


def in_extra(c, block, cp=None, after=()):
    f = M.File(strings={"relative_path": "rel"}, extra=[block, *after])
    check_file(c, f, sections("extra", "size"), cp)
