"""C20 week rollover resolution picks the latest past instant."""

import datetime as dtmod
import os
import time
from datetime import datetime, timedelta

import pynmeagps.nmeahelpers as H

from mon import gnss
from mon.gnss import EPOCH, LEAPS, MS, ROLL, SYSTEMS, UTC, WEEK
from mon.lib import pynmeagps as P

PROPERTY = "C20"
RULE = (
    "Injected present dates 1999-2200 (each rollover, leap second and week edge of each system, +-1 us..20 s, the "
    "candidate instants themselves) x week numbers (all residues, beyond the modulus) x times of week (0, end, "
    "beyond a week) x systems x leap second argument x local time zones x orders of calls. The result is compared with a model "
    "that enumerates every instant with that week and time of week. Non-trivial: distinct (system, cycle chosen, "
    "class of distance to the present)."
)
NEED = {"autoroll": 30000, "first cycle": 20000, "explicit ls": 5000, "at the present": 3000, "later cycle": 8000,
        "history": 500, "real clock": 100}
QUICK = 1


class Clock:
    """Replaces the present for the library, by whichever standard call it asks."""

    def __init__(self, now):
        self.now_ = now
        self.asked = 0

    def __enter__(self):
        clock = self
        real = datetime

        class Meta(type):
            def __instancecheck__(cls, obj):
                return isinstance(obj, real)

        class Fake(datetime, metaclass=Meta):
            @classmethod
            def now(cls, tz=None):
                clock.asked += 1
                if tz is None:
                    return clock.now_.astimezone().replace(tzinfo=None)
                return clock.now_.astimezone(tz)

            @classmethod
            def utcnow(cls):
                clock.asked += 1
                return clock.now_.replace(tzinfo=None)

            @classmethod
            def today(cls):
                return cls.now()

        Fake.__name__ = "datetime"
        self.saved = H.datetime if hasattr(H, "datetime") else None
        self.real, self.rtime, self.rns = real, time.time, time.time_ns
        if isinstance(self.saved, type):
            H.datetime = Fake
        dtmod.datetime = Fake
        stamp = (self.now_ - real(1970, 1, 1, tzinfo=UTC)) / timedelta(seconds=1)

        def fake_time():
            clock.asked += 1
            return stamp

        def fake_ns():
            clock.asked += 1
            return (clock.now_ - real(1970, 1, 1, tzinfo=UTC)) // timedelta(microseconds=1) * 1000

        time.time, time.time_ns = fake_time, fake_ns
        return self

    def __exit__(self, *_):
        if isinstance(self.saved, type):
            H.datetime = self.saved
        dtmod.datetime = self.real
        time.time, time.time_ns = self.rtime, self.rns


def jobs(tier):
    k = 1 if tier == "quick" else 3
    return [f"{n}#{i}" for i in range(k) for n in ("anywhere", "anywhere2", "edges", "edges2", "residues", "off", "histories", "real")]


def candidates(wno, tow, g, ls, upto):
    """All instants with that week modulo the rollover and time of week, in order; None = ambiguous."""
    out, k = [], 0
    while True:
        ms = (wno % ROLL[g] + k * ROLL[g]) * WEEK + tow % WEEK
        t = gnss.instant(ms, g, 0 if g == "R" else ls)
        out.append(t)
        if t is not None and t > upto:
            return out
        k += 1


def any_ls(rng, g, *choices):
    return None if g == "R" else rng.choice(choices)  # no offset applies to GLONASS


def call(wno, tow, ls, g, autoroll):
    if ls is None and wno % 2:  # also by keyword
        return P.wnotow2utc(wno=wno, tow=tow, gnss=g, autoroll=autoroll)
    return P.wnotow2utc(wno, tow, ls, g, autoroll)


def is_utc(ctx, t):
    ctx.check(isinstance(t, datetime) and t.utcoffset() == timedelta(0), "not a UTC datetime", lambda: repr(t))


def case_roll(ctx, wno, tow, g, now, ls=None, zone=None):
    cand = candidates(wno, tow, g, ls, now)
    if None in cand or cand[0] > now:
        return  # falls inside a leap second, or no such instant yet
    old = os.environ.get("TZ")
    if zone:
        os.environ["TZ"] = zone
        time.tzset()
    try:
        with Clock(now) as clock:
            got = call(wno, tow, ls, g, True)
    finally:
        if zone:
            if old is None:
                os.environ.pop("TZ")
            else:
                os.environ["TZ"] = old
            time.tzset()
    if not clock.asked:  # it took the present from elsewhere: judge by the actual one
        ctx.count("clock not asked")
        now = datetime.now(UTC)
        cand = candidates(wno, tow, g, ls, now)
        if None in cand or min(abs((c - now).total_seconds()) for c in cand) < 60:
            return
    past = [t for t in cand if t <= now]
    is_utc(ctx, got)
    ctx.check(got == past[-1], "not the latest past instant",
              lambda: f"wno={wno} tow={tow} {g} ls={ls} now={now!r}: {got!r} want {past[-1]!r}")
    ctx.count("autoroll")
    if len(past) > 1:
        ctx.count("later cycle")
    if ls is not None:
        ctx.count("explicit ls")
    d = (now - past[-1]) / timedelta(seconds=1)
    n = (cand[-1] - now) / timedelta(seconds=1)
    if min(d, n) < 30:
        ctx.count("at the present")
    ctx.seen(g, len(past), round(d, 3) if d < 30 else round(d / 1e7), round(n, 3) if n < 30 else 99, ls is None)


def case_first(ctx, wno, tow, g, now, ls=None):
    """Autoroll off: the first cycle, whatever the present."""
    want = gnss.instant((wno % ROLL[g]) * WEEK + tow % WEEK, g, 0 if g == "R" else ls)
    if want is None:
        return
    with Clock(now):
        got = call(wno, tow, ls, g, False)
    is_utc(ctx, got)
    ctx.check(got == want, "not the instant in the first cycle", lambda: f"wno={wno} tow={tow} {g} ls={ls}: {got!r} want {want!r}")
    cont = gnss.instant(wno * WEEK + tow % WEEK, g, 0 if g == "R" else ls)
    if cont is not None:
        with Clock(now):
            got = P.wnotow2utc(wno, tow, ls, g, modwno=False)
        ctx.check(got == cont, "continuous week", lambda: f"wno={wno} tow={tow} {g} ls={ls}: {got!r} want {cont!r}")
    ctx.count("first cycle")
    if ls is not None:
        ctx.count("explicit ls")
    ctx.seen("first", g, wno, ls)


def case_history(ctx, calls, now):
    """Earlier calls, other presents and other systems leave no trace."""
    for wno, tow, g, ls, auto, off in calls:
        t = now + timedelta(days=off)
        if auto:
            case_roll(ctx, wno, tow, g, t, ls)
        else:
            case_first(ctx, wno, tow, g, t, ls)
        with Clock(t) as clock:
            w = P.utc2wnotow(None, g, False)
        if clock.asked:
            ms = gnss.elapsed(t, g)
            ctx.check(tuple(w) == (ms // WEEK, ms % WEEK, gnss.offset(t, g)), "present week", lambda: f"{t!r} {g} {w!r}")
    ctx.count("history")


def case_real(ctx, wno, tow, g, near):
    """No replaced clock at all: the actual present."""
    if near is not None:
        ms = gnss.elapsed(datetime.now(UTC), g) + near
        wno, tow = ms // WEEK % ROLL[g], ms % WEEK
    a = datetime.now(UTC)
    got = P.wnotow2utc(wno, tow, None, g, True)
    b = datetime.now(UTC)
    cand = candidates(wno, tow, g, None, b)
    if None in cand or cand[0] > a:
        return
    ok = {[t for t in cand if t <= x][-1] for x in (a, b)}
    ctx.check(got in ok, "not the latest past instant", lambda: f"wno={wno} tow={tow} {g} now={a!r}: {got!r} want {ok!r}")
    ctx.count("real clock")


def present(rng, g):
    hi = rng.choice((datetime(2030, 1, 1, tzinfo=UTC), datetime(2030, 1, 1, tzinfo=UTC), datetime(2200, 1, 1, tzinfo=UTC)))
    lo = max(EPOCH[g], datetime(1981, 1, 1, tzinfo=UTC))
    return lo + timedelta(microseconds=rng.randrange((hi - lo) // timedelta(microseconds=1)))


def anywhere(ctx):
    rng = ctx.rng
    for _ in range(ctx.n(8000)):
        g = rng.choice(SYSTEMS + "GEIR")
        now = present(rng, g)
        week = gnss.elapsed(now, g) // WEEK
        wno = rng.choice((rng.randrange(ROLL[g]), rng.randrange(ROLL[g]), week % ROLL[g], week, rng.randint(0, week + 5),
                          (week + 1) % ROLL[g], (week - 1) % ROLL[g], 0, ROLL[g] - 1, ROLL[g]))
        tow = rng.choice((rng.randrange(WEEK), rng.randrange(WEEK), 0, WEEK - 1, WEEK, rng.randrange(WEEK, 3 * WEEK),
                          gnss.elapsed(now, g) % WEEK))
        ls = any_ls(rng, g, None, None, None, 0, gnss.offset(now, g), rng.randint(-3, 40))
        zone = rng.choice((None,) * 8 + ("America/New_York", "XXX-14", "YYY12"))
        ctx.case("roll", wno=wno, tow=tow, g=g, now=now, ls=ls, zone=zone)


anywhere2 = anywhere


def edges(ctx):
    """The present on, just before and just after the candidate instants."""
    rng = ctx.rng
    deltas = [timedelta(microseconds=u) for u in (0, -1, 1, -999, -1000, 1000)] + [
        timedelta(seconds=s) for s in (-1, 1, -18, 18, -13, -4, -37, 20, -20, 86400, -86400, 604800, -604800)]
    for _ in range(ctx.n(900)):
        g = rng.choice(SYSTEMS + "GEIR")
        k = rng.randrange(4)
        if k == 0:  # rollovers
            n = rng.randint(1, 4) if ROLL[g] == 1024 else 1
            ms = n * ROLL[g] * WEEK + rng.choice((0, -1, 1, rng.randint(-40000, 40000), rng.randint(-WEEK, WEEK)))
        elif k == 1:  # leap seconds
            x = rng.choice([x for x in LEAPS if x > EPOCH[g]])
            ms = gnss.elapsed(x, g) + rng.choice((0, -1, 1, -1001, -2000, rng.randint(-60000, 60000)))
        elif k == 2:  # the candidate before last: one cycle after a leap second
            x = rng.choice([x for x in LEAPS if x > EPOCH[g]])
            ms = gnss.elapsed(x, g) + rng.randint(-40000, 40000) + ROLL[g] * WEEK
        else:
            ms = gnss.elapsed(present(rng, g), g)
        t = gnss.instant(ms, g)
        if t is None or ms < 0:
            continue
        for d in deltas:
            if t + d > EPOCH[g]:
                ctx.case("roll", wno=ms // WEEK % ROLL[g], tow=ms % WEEK, g=g, now=t + d)
        ls = any_ls(rng, g, rng.randint(0, 40))
        t = gnss.instant(ms, g, ls)
        for d in rng.sample(deltas, 3):
            if t + d > EPOCH[g]:
                ctx.case("roll", wno=ms // WEEK % ROLL[g], tow=ms % WEEK, g=g, now=t + d, ls=ls)


edges2 = edges


def residues(ctx):
    """Every week number at a few presents."""
    rng = ctx.rng
    for g in SYSTEMS + "R":
        for _ in range(ctx.n(2, 12)):
            now = present(rng, g)
            for wno in range(0, ROLL[g], 1 if ROLL[g] == 1024 else 7):
                ctx.case("roll", wno=wno, tow=rng.choice((0, WEEK - 1, rng.randrange(WEEK))), g=g, now=now)


def off(ctx):
    rng = ctx.rng
    for g in SYSTEMS + "R":
        for wno in range(0, ROLL[g] + 600, 1 if ROLL[g] == 1024 else 3):
            for tow in (rng.choice((0, WEEK - 1, WEEK, 610000000)), rng.randrange(WEEK)):
                ctx.case("first", wno=wno, tow=tow, g=g, now=present(rng, g), ls=any_ls(rng, g, None, None, None, 0, 18, -2, 37))
    for _ in range(ctx.n(6000)):
        g = rng.choice(SYSTEMS + "R")
        ctx.case("first", wno=rng.choice((rng.randrange(ROLL[g]), rng.randrange(3 * ROLL[g]))), tow=rng.randrange(WEEK), g=g,
                 now=present(rng, g), ls=any_ls(rng, g, None, None, rng.randint(-5, 40)))
    for g in SYSTEMS:  # leap seconds of the first cycle
        for x in LEAPS:
            if x <= EPOCH[g]:
                continue
            for _ in range(ctx.n(20)):
                ms = gnss.elapsed(x, g) + rng.randint(-40000, 40000)
                if ms // WEEK < ROLL[g]:
                    ctx.case("first", wno=ms // WEEK, tow=ms % WEEK, g=g, now=present(rng, g))


def histories(ctx):
    rng = ctx.rng
    for _ in range(ctx.n(600)):
        gs = rng.choice((SYSTEMS, "GE", "G", "CR", "EI"))
        now = present(rng, "C")
        w, t = rng.randrange(8192), rng.randrange(WEEK)
        calls = [[rng.choice((w, rng.randrange(8192))), rng.choice((t, rng.randrange(WEEK))), (gk := rng.choice(gs)),
                  any_ls(rng, gk, None, None, 0, 18), rng.random() < 0.7, rng.choice((0, 0, 1, -1, 9000, -2000))] for _ in range(rng.randint(2, 8))]
        ctx.case("history", calls=calls, now=now)


def real(ctx):
    rng = ctx.rng
    for _ in range(ctx.n(150)):
        g = rng.choice(SYSTEMS)
        ctx.case("real", wno=rng.randrange(ROLL[g]), tow=rng.randrange(WEEK), g=g, near=None)
        ctx.case("real", wno=0, tow=0, g=g, near=rng.choice((-1000, -60000, 60000, 3600000, -WEEK, WEEK)))
