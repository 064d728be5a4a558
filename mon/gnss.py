"""Independent model of GNSS time scales: integers of milliseconds, own leap second list."""

from datetime import datetime, timedelta, timezone

UTC = timezone.utc
WEEK = 604800000
# instants (UTC) from which TAI-UTC grew by one, IERS Bulletin C; TAI-UTC was 10 s from 1972-01-01
INSERTED = [(1972, 7), (1973, 1), (1974, 1), (1975, 1), (1976, 1), (1977, 1), (1978, 1), (1979, 1), (1980, 1),
            (1981, 7), (1982, 7), (1983, 7), (1985, 7), (1988, 1), (1990, 1), (1991, 1), (1992, 7), (1993, 7),
            (1994, 7), (1996, 1), (1997, 7), (1999, 1), (2006, 1), (2009, 1), (2012, 7), (2015, 7), (2017, 1)]
LEAPS = [datetime(y, m, 1, tzinfo=UTC) for y, m in INSERTED]
EPOCH = {"G": (1980, 1, 6), "J": (1980, 1, 6), "E": (1999, 8, 22), "I": (1999, 8, 22), "C": (2006, 1, 1), "R": (1980, 1, 6)}
EPOCH = {k: datetime(*v, tzinfo=UTC) for k, v in EPOCH.items()}
ROLL = {"G": 1024, "J": 1024, "I": 1024, "E": 4096, "C": 8192, "R": 1024}
SYSTEMS = "GJIEC"
MS = timedelta(milliseconds=1)


def tai(utc):
    """TAI-UTC in force at an instant."""
    return 10 + sum(1 for x in LEAPS if x <= utc)


BASE = {g: tai(EPOCH["C" if g == "C" else "G"]) for g in EPOCH}


def offset(utc, g):
    """System time minus UTC, whole seconds."""
    return 0 if g == "R" else tai(utc) - BASE[g]


def elapsed(utc, g):
    """Whole milliseconds elapsed on the system's scale since its epoch."""
    return (utc - EPOCH[g]) // MS + 1000 * offset(utc, g)


def instant(ms, g, ls=None):
    """UTC of a count of milliseconds on the system's scale; None during a leap second."""
    t = EPOCH[g] + ms * MS
    if ls is not None:
        return t - timedelta(seconds=ls)
    # offsets only grow: try each possible one and keep the consistent instant
    for k in range(0, 40):
        u = t - timedelta(seconds=k)
        if offset(u, g) == k:
            return u
    return None
