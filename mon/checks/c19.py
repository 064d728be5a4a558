"""C19 GNSS week/time conversions are exact inverses with correct leap seconds."""

import os
import time
from datetime import datetime, timedelta, timezone
from zoneinfo import ZoneInfo, available_timezones

from mon import gnss
from mon.gnss import EPOCH, LEAPS, ROLL, SYSTEMS, UTC, WEEK
from mon.lib import pynmeagps as P

PROPERTY = "C19"
RULE = (
    "Instants: every leap second insertion +-20 s at 1 ms..1 s steps, every week start and end from each epoch to "
    "2060 +-(leap offset) seconds, every modular rollover, the epochs, random millisecond and microsecond instants "
    "to 2200, for the offset alone every day from 1972 on; naive, UTC, offset-aware and local datetimes, either fold, other datetime classes; every system; changed local time zones. Judged by an integer "
    "millisecond model with its own leap second list. Non-trivial: distinct (system, week, class of instant)."
)
NEED = {"forward": 100000, "inverse": 50000, "leap seconds": 7000, "week edges": 15000, "rollovers": 500, "naive": 5000,
        "aware": 5000, "glonass": 1000, "table": 20000, "now": 50, "explicit ls": 5000, "fold": 5000, "second pass": 100, "modulo": 100000}
QUICK = 1
if not available_timezones():
    NEED.pop("second pass")
ZONES = tuple(sorted({"Europe/London", "America/New_York", "Australia/Lord_Howe", "Africa/Casablanca"} & available_timezones()))
ASSUMPTIONS = ["leap seconds as published up to 2017-01-01 (none since)",
               "the instant inside an inserted second (23:59:60) has no datetime and is not tested"]


def jobs(tier):
    k = 1 if tier == "quick" else 3
    return [f"{n}#{i}" for i in range(k) for n in ("leaps", "weeks", "weeks2", "random", "random2", "table", "now")]


class Stamp(datetime):
    """A datetime of another class, as other libraries have."""


def case_instant(ctx, t, g, form="utc", fold=0):
    """form: how the datetime is written (the instant is the same)."""
    arg = t
    if form == "naive":
        arg = t.replace(tzinfo=None)
        ctx.count("naive")
    elif "/" in form:
        arg = t.astimezone(ZoneInfo(form))
        ctx.count("aware")
        ctx.count("second pass" if arg.fold else "local time")
    elif form == "class":
        arg = Stamp(*t.timetuple()[:6], t.microsecond, UTC)
    elif form != "utc":
        arg = t.astimezone(timezone(timedelta(minutes=int(form))))
        ctx.count("aware")
    if fold:  # without effect on the instant where the offset is constant
        arg = arg.replace(fold=1)
        ctx.count("fold")
    ms = gnss.elapsed(t, g)
    week, tow = divmod(ms, WEEK)
    ls = gnss.offset(t, g)
    for mod in (False, True):
        got = P.utc2wnotow(arg, g, mod)
        want = (week % ROLL[g] if mod else week, tow, ls)
        ctx.check(tuple(got) == want and len(got) == 3, "utc2wnotow", lambda: f"{arg!r} {g} modwno={mod}: {got!r} want {want!r}")
        ctx.check(all(type(x) is int for x in got) and 0 <= got[1] < WEEK, "utc2wnotow types", lambda: repr(got))
        ctx.count("forward")
    back = P.wnotow2utc(week, tow, None, g, False, False)
    want = t - timedelta(microseconds=t.microsecond % 1000)
    ctx.check(isinstance(back, datetime) and back.tzinfo is not None and back.utcoffset() == timedelta(0) and back == want,
              "wnotow2utc is not the inverse", lambda: f"{t!r} {g}: {back!r} want {want!r}")
    ctx.count("inverse")
    if g != "R":
        for other in (ls, 0, ls + 1):
            b = P.wnotow2utc(week, tow, other, g, False, False)
            ctx.check(b == want + timedelta(seconds=ls - other), "explicit leap seconds", lambda: f"{t!r} {g} ls={other}: {b!r}")
            ctx.count("explicit ls")
        got = P.leapsecond(arg, g)
        ctx.check(type(got) is int and got == ls, "leapsecond", lambda: f"{arg!r} {g}: {got!r} want {ls}")
    else:
        ctx.count("glonass")
    if week < ROLL[g]:  # first cycle: modular and continuous are the same
        b = P.wnotow2utc(week, tow, None, g)
        ctx.check(b == want, "wnotow2utc in the first cycle", lambda: f"{t!r} {g}: {b!r}")
    for n in (-1, 1, 3):  # the time of week counts modulo the week, the week modulo its cycle
        b = P.wnotow2utc(week, tow + n * WEEK, None, g, False, False)
        ctx.check(b == want, "time of week is not taken modulo the week", lambda: f"{t!r} {g} {n}: {b!r}")
        if week < ROLL[g]:
            b = P.wnotow2utc(week + n * ROLL[g], tow, None, g)
            ctx.check(b == want, "week is not taken modulo its cycle", lambda: f"{t!r} {g} {n}: {b!r}")
        ctx.count("modulo")
    k = min((abs((t - x).total_seconds()) for x in LEAPS), default=0)
    ctx.seen(g, week, tow < 60000, tow > WEEK - 60000, k if k < 3 else 99)


def case_defaults(ctx, t):
    ctx.check(P.utc2wnotow(t) == P.utc2wnotow(t, "G", True), "default system is GPS, modular", lambda: repr(t))
    ctx.check(P.utc2wnotow(utc=t, gnss="E", modwno=False) == P.utc2wnotow(t, "E", False), "keywords", lambda: repr(t))
    ctx.check(P.leapsecond(t) == P.leapsecond(t, "G"), "default system", lambda: repr(t))
    ms = gnss.elapsed(t, "G")
    ctx.check(P.wnotow2utc(ms // WEEK % 1024, ms % WEEK) == P.wnotow2utc(ms // WEEK % 1024, ms % WEEK, None, "G", False, True),
              "defaults", lambda: repr(t))
    ctx.check(P.wnotow2utc(wno=ms // WEEK, tow=ms % WEEK, gnss="J", modwno=False) == t - timedelta(microseconds=t.microsecond % 1000), "keywords", lambda: repr(t))


def case_now(ctx, zone, g):
    """No instant given: the present, whatever the local time zone."""
    old = os.environ.get("TZ")
    os.environ["TZ"] = zone
    time.tzset()
    try:
        a = gnss.elapsed(datetime.now(UTC), g)
        got = P.utc2wnotow(None, g, False), P.utc2wnotow(gnss=g, modwno=False)
        b = gnss.elapsed(datetime.now(UTC), g)
        for w in got:
            ctx.check(a <= w[0] * WEEK + w[1] <= b, "utc2wnotow without an instant is not the present", lambda: f"{zone} {g}: {w!r}")
        t = datetime(2024, 7, 1, 12, 30, 15, 123000)
        ctx.check(P.utc2wnotow(t, g, False) == P.utc2wnotow(t.replace(tzinfo=UTC), g, False), "naive instant is not taken as UTC", lambda: f"{zone} {g}")
        for x in LEAPS[-3:]:
            n = x.replace(tzinfo=None)
            ctx.check(P.leapsecond(n, g) == gnss.offset(x, g), "naive instant is not taken as UTC", lambda: f"{zone} {g}")
    finally:
        if old is None:
            os.environ.pop("TZ")
        else:
            os.environ["TZ"] = old
        time.tzset()
    ctx.count("now")


def case_table(ctx, t, g, naive, fold=0):
    """The leap second offset alone, at any time since leap seconds exist (negative before the system's epoch)."""
    want = gnss.offset(t, g)
    got = P.leapsecond((t.replace(tzinfo=None) if naive else t).replace(fold=fold), g)
    ctx.check(got == want and type(got) is int, "leapsecond", lambda: f"{t!r} {g}: {got!r} want {want!r}")
    ctx.count("table")
    ctx.seen("table", g, t.year, t.month)


def form(rng):
    return rng.choice(("utc", "utc", "naive", "naive", "0", "60", "-300", "330", "825", "-720", "840", "class") + ZONES)


def go(ctx, t, g, name, f="utc"):
    if t >= EPOCH[g]:
        ctx.case("instant", t=t, g=g, form=f, fold=int("/" not in f and ctx.rng.random() < 0.2))
        ctx.count(name)


def leaps(ctx):
    rng = ctx.rng
    for x in LEAPS:
        for g in SYSTEMS:
            for s in list(range(-20, 21)) + [-86400, -86399, 86399, 86400, 86401]:
                go(ctx, x + timedelta(seconds=s), g, "leap seconds")
            for ms in (-1, 1, -999, -1000, -1001, 999, 1001, -18000, -18001, 18001, 500, -500):
                go(ctx, x + ms * gnss.MS, g, "leap seconds", form(rng))
            for us in (-1, 1, -999, 999):
                go(ctx, x + timedelta(microseconds=us), g, "leap seconds")
            for _ in range(ctx.n(100)):
                go(ctx, x + timedelta(milliseconds=rng.randint(-40000, 40000)), g, "leap seconds", form(rng))
        ctx.case("defaults", t=x) if x > EPOCH["G"] else None


def weeks(ctx):
    rng = ctx.rng
    step = 1 if ctx.tier == "thorough" else 3
    for g in SYSTEMS + "R":
        last = gnss.elapsed(datetime(2060, 1, 1, tzinfo=UTC), g) // WEEK
        for w in range(rng.randrange(step), last, step):
            for d in (0, -1, rng.choice((1, -1000, 1000, rng.randint(-30000, 30000)))):
                ms = w * WEEK + d
                t = gnss.instant(ms, g) if ms >= 0 else None
                if t:
                    go(ctx, t, g, "week edges", form(rng))
            # midnight UTC at the same boundary, where the leap offset makes the difference
            go(ctx, EPOCH[g] + timedelta(days=7 * w), g, "week edges")
            go(ctx, EPOCH[g] + timedelta(days=7 * w, milliseconds=-1), g, "week edges")
        for k in range(1, 6 if ROLL[g] == 1024 else 2):
            for d in list(range(-3, 4)) + [-18000, 18000, -17999, 999, -1000]:
                t = gnss.instant(k * ROLL[g] * WEEK + d, g)
                go(ctx, t, g, "rollovers", form(rng))
        for d in (0, 1, 2, 999, 1000, 86399999, 86400000, WEEK - 1, WEEK):
            go(ctx, EPOCH[g] + d * gnss.MS, g, "rollovers")


weeks2 = weeks


def random(ctx):
    rng = ctx.rng
    for _ in range(ctx.n(10000)):
        g = rng.choice(SYSTEMS + SYSTEMS + "R")
        hi = rng.choice((datetime(2030, 1, 1, tzinfo=UTC), datetime(2200, 1, 1, tzinfo=UTC)))
        span = (hi - EPOCH[g]) // timedelta(microseconds=1)
        t = EPOCH[g] + timedelta(microseconds=rng.randrange(span))
        k = rng.randrange(4)
        if k == 0:
            t = t.replace(microsecond=t.microsecond // 1000 * 1000)
        elif k == 1:
            t = t.replace(hour=0, minute=0, second=0, microsecond=0)
        elif k == 2:
            t = t.replace(hour=23, minute=59, second=rng.randint(30, 59))
        f = form(rng)
        if "/" in f and k == 3:  # about when the clocks are put back
            day, h = (25, 0) if f == "Europe/London" else (1, 5)  # last Sunday of October, first of November
            t = datetime(rng.randint(2007, 2036), 10 if h == 0 else 11, day, tzinfo=UTC)
            t += timedelta(days=6 - t.weekday(), seconds=rng.randint(h * 3600, h * 3600 + 7199), milliseconds=rng.randint(0, 999))
        go(ctx, t, g, "random", f)
        if rng.random() < 0.05 and g == "G":
            ctx.case("defaults", t=t)


random2 = random


def table(ctx):
    d = timedelta(days=1)
    t = datetime(1972, 1, 1, tzinfo=UTC)
    while t < datetime(2035, 1, 1, tzinfo=UTC):  # every day
        ctx.case("table", t=t, g=SYSTEMS[t.toordinal() % 5], naive=bool(t.day % 2), fold=int(t.day % 3 == 0))
        t += d
    for x in LEAPS:
        for s in range(-5, 6):
            for g in SYSTEMS:
                ctx.case("table", t=x + timedelta(seconds=s), g=g, naive=bool(s % 2), fold=int(s % 3 == 0))
                ctx.case("table", t=x + timedelta(microseconds=s), g=g, naive=bool(s % 2), fold=int(s % 3 == 0))


def now(ctx):
    for zone in ("UTC", "America/New_York", "EST5EDT", "Asia/Kolkata", "XXX-14", "YYY12", "Europe/London", "GMT0BST"):
        for g in SYSTEMS + "R":
            if g == "R":
                continue
            ctx.case("now", zone=zone, g=g)
            ctx.case("now", zone=zone, g=g)
