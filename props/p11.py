"""P11: times."""

import calendar
import functools
import os
import time

from vlib import model as M
from vlib.common import check_file
from vlib.common import sections
from vlib.context import company
from vlib.engine import Scenario

HEADER = sections("header")
TARGET = sections("target")
ZONES = ["UTC", "America/New_York", "Asia/Tokyo", "Europe/Prague", "XYZ-14:30"]
FIELDS = ["ctime", "atime", "wtime"]


CHANGING = [
    "America/New_York", "Europe/Prague", "Australia/Lord_Howe", "Pacific/Apia", "America/St_Johns", "Africa/Cairo",
    "AAA-1BBB,M3.5.0,M10.5.0/3", "AAA-1BBB,M3.5.0/0,M10.5.0/1", "AAA4BBB,M10.3.0/0,M3.2.0/0", "AAA-10BBB-12,M1.1.1/12,M7.1.1/12",
]  # fmt: skip


def zone(c, zones=ZONES):
    name = c.all("zone", zones)
    if os.environ.get("TZ") != name:
        os.environ["TZ"] = name
        time.tzset()


def filetime_grid():
    """FILETIMEs around everything that could matter"""
    out = set()
    for n in range(64):
        for d in (-1, 0, 1):
            out.add(((1 << n) + d) & (1 << 64) - 1)
    day = 864000000000
    for year in list(range(1601, 1605)) + list(range(1890, 2110, 4)) + [1969, 1970, 1971, 2000, 2038, 9999]:
        from datetime import datetime, timezone

        for month, dom in ((1, 1), (2, 28), (3, 1), (3, 31), (7, 1), (10, 31), (12, 31)):
            delta = datetime(year, month, dom, tzinfo=timezone.utc) - M.EPOCH_1601
            base = delta.days * day
            for d in (0, -1, 1, 36000000000, day - 1, day - 10):
                out.add((base + d) & (1 << 64) - 1)
    out |= {0x01C914FE12345670 + d for d in range(0, 45)}
    last = (10**7) * (int((M.datetime(9999, 12, 31, 23, 59, 59, tzinfo=M.timezone.utc) - M.EPOCH_1601).total_seconds()))
    out |= {last + d for d in (0, 9999990, 9999994, 9999995, 9999999, 10000000, 20000000)}
    out |= {(1 << 63) - 1, 1 << 63, (1 << 64) - 1}
    out |= {(-M_DAY_1601 + d) & (1 << 64) - 1 for d in (0, 1, 9, 10, -1, -10)}
    return sorted(out)


# 0001-01-01 is the first day a date can hold.
M_DAY_1601 = (M.EPOCH_1601 - M.datetime(1, 1, 1, tzinfo=M.timezone.utc)).days * 864000000000
GRID = filetime_grid()


def filetimes(c):
    """a grid of FILETIMEs, in each field, in each time zone"""
    zone(c)
    field = c.all("field", FIELDS)
    check_file(c, M.File(header=M.Header(**{field: c.all("value", GRID)})), HEADER)


def equal_parts(c):
    """FILETIMEs whose words or double words are the same, or are a byte again and again"""
    high = c.all("high", [0, 1, 0x01C9, 0x01D5, 0x14FE, 0x2BAC, 0x7FFF])
    kind = c.all("kind", ["dwords", "words", "inner", "ends", "low", "one"])
    w = c.all("word", range(0, 0x10000, 0x11 if c.tier == "quick" else 1))
    words = {
        "dwords": [w, high, w, high],
        "words": [w, w, w, high],
        "inner": [high, w, w, high],
        "ends": [high, w, w ^ 0xFFFF, high],
        "low": [w, w, 0x14FE, high],
        "one": [0, 0, w, high],
    }[kind]
    value = sum(x << 16 * n for n, x in enumerate(words))
    check_file(c, M.File(header=M.Header(ctime=value, atime=value + 1, wtime=w << 48 | high)), HEADER)


def ticks(c):
    """every 100 ns tick of a few microseconds, and every bit"""
    base = c.all("base", [0x01C914FE12345670, 116444736000000000, 10**7, 0x01D5000000000000, 0x08000000000000])
    n = c.all("offset", range(-30, 400 if c.tier == "quick" else 20000))
    check_file(c, M.File(header=M.Header(ctime=base + n, atime=base - n, wtime=base + 7 * n)), HEADER)


def dates(c):
    """every DOS date, every DOS time"""
    zone(c)
    part = c.all("part", ["date", "time", "both"])
    step = 1 if os.environ["TZ"] == "UTC" or c.tier == "thorough" else 97
    value = c.all("value", range(0, 0x10000, step))
    if part == "both":
        check_file(c, M.File(items=[M.item_file(2, date=value, time=value)]), TARGET)
        return
    other = c.all("other", ([0x6C3B] if part == "date" else [0x3A6F]) + ([0, 0xFFFF] if c.tier == "thorough" else []))
    item = M.item_file(2, date=value, time=other) if part == "date" else M.item_file(2, date=other, time=value)
    check_file(c, M.File(items=[item]), TARGET)


@functools.lru_cache(maxsize=None)
def changes(name):
    """The wall clock times around which the clocks of this zone (the current one) are changed."""
    out = set()
    first = calendar.timegm((1980, 1, 1, 0, 0, 0))
    last = calendar.timegm((2107, 12, 31, 0, 0, 0))
    offset = time.localtime(first).tm_gmtoff
    for day in range(first, last, 86400):
        low, high = day, day + 86400
        if time.localtime(high).tm_gmtoff == time.localtime(low).tm_gmtoff:
            continue
        while high - low > 1:
            middle = (low + high) // 2
            if time.localtime(middle).tm_gmtoff == time.localtime(low).tm_gmtoff:
                low = middle
            else:
                high = middle
        for offset in (time.localtime(low).tm_gmtoff, time.localtime(high).tm_gmtoff, 0):
            out |= {high + offset + d for d in (-3600, -1800, -2, 0, 2, 900, 1800, 3598, 3600)}
    return sorted(out)


def clock_changes(c):
    """moments that do not exist, or exist twice, on the clocks of the machine's time zone"""
    zone(c, CHANGING)
    t = c.all("moment", changes(os.environ["TZ"]))
    y, m, d, hour, minute, second = time.gmtime(t)[:6]
    filetime = (t + 11644473600) * 10**7
    f = M.File(
        header=M.Header(ctime=filetime, atime=filetime + 1234567, wtime=filetime - 10),
        items=[M.item_file(2, date=M.dos_date(y, m, d), time=M.dos_time(hour, minute, second))],
    )
    check_file(c, f, sections("header", "target"))


def zero_parts(c):
    """only an all-zero DOS time is unset; dates without a valid day are no dates"""
    date = c.all("date", [0, 1, 0x20, 0x21, 0x3A6F, 0x1A1, 0x18F, 0xFE21])
    dos = c.all("time", [0, 1, 0x20, 0x800, 0x6C3B, 0xBF7D])
    where = c.all("where", ["item", "nested", "block"])
    if where == "item":
        check_file(c, M.File(items=[M.item_file(2, date=date, time=dos)]), TARGET)
    elif where == "nested":
        check_file(c, M.File(items=[M.item_users_files(date=date, time=dos)]), TARGET)
    else:
        block = M.block_shell_item([M.item_file(2, date=date, time=dos)])
        check_file(c, M.File(extra=[block]), sections("extra"))


SCENARIOS = [
    Scenario("filetimes", filetimes, 0, 0),
    Scenario("equal_parts", equal_parts, 0, 0),
    Scenario("ticks", ticks, 0, 0),
    Scenario("dates", dates, 0, 0),
    Scenario("clock_changes", clock_changes, 0, 0),
    Scenario("zero_parts", zero_parts, 0, 0),
    company("header", "target", "extra"),
]
