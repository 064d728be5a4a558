"""C15 field conversions are exact inverses and reject impossible values."""

import datetime as dtm
import math

from mon import gen, spec
from mon.core import set_zone
from mon.lib import ERRS, NMEAMessage, NMEATypeError, pynmeagps

P = pynmeagps
PROPERTY = "C15"
RULE = (
    "Exhaustive: every date 1969-2068 as ddmmyy/mmddyy/ddmmyyyy, every second of the day, every impossible "
    "day/month/hour/minute/second number, every type code; random: fractions, four-digit years, typed values "
    "of every type both ways, ISO strings, unknown type codes, hex paddings, units, message ids. Oracle: text "
    "built digit by digit. Non-trivial: distinct (function, input class, value)."
)
NEED = {"dates": 100000, "times": 80000, "impossible": 5000, "typed": 10000, "unknown_types": 500, "hex": 2000,
        "speeds": 1000, "descs": 300, "iso": 2000, "spoilt": 8000}
QUICK = 2


def jobs(tier):
    k = 1 if tier == "quick" else 2
    return ([f"{n}#{i}" for i in range(k) for n in ("typed", "typed2", "misc", "years", "impossible", "spoilt")]
            + [f"dates#{i}" for i in range(4)] + [f"times#{i}" for i in range(4)])


def t_text(t, places=2):
    return f"{t.hour:02d}{t.minute:02d}{t.second:02d}." + f"{t.microsecond:06d}"[:places]


def is_date(v):
    return type(v) is dtm.date


# ---------------------------------------------------------------- dates
class Day(dtm.date):
    """A date of another class, as other libraries have."""


def case_date(ctx, d, forms):
    for form in forms:
        text = spec.date_text(d, form)
        got = P.date2utc(text, form)
        ctx.check(is_date(got) and got == d, "date text converted wrongly", lambda: f"{text} {form}: {got!r} not {d}")
        late = dtm.datetime(d.year, d.month, d.day, 23, 59, 59)
        for x in (d, late, late.replace(fold=1, tzinfo=dtm.timezone.utc), Day(d.year, d.month, d.day)):
            out = P.date2str(x, form)
            ctx.check(out == text, "date written wrongly", lambda: f"{d} {form}: {out!r} not {text}")
        if form == "DT":
            ctx.check(P.date2utc(text) == d and P.date2str(d) == text, "default form is not ddmmyy")
        v = NMEAMessage.str2val(text, form)
        ctx.check(is_date(v) and v == d, "str2val date", lambda: f"{text} {form} {v!r}")
        for x in (d, d.isoformat(), d.isoformat().replace("-", "")):
            s = NMEAMessage.val2str(x, form)
            ctx.check(s == text, "val2str date", lambda: f"{x!r} {form} {s!r}")
        ctx.count("dates")
    ctx.count("iso", 2)


def dates(ctx):
    part = int(ctx.job.split("#")[1])
    d0 = dtm.date(1969, 1, 1)
    n = (dtm.date(2068, 12, 31) - d0).days + 1
    for i in range(part, n, 4):
        d = d0 + dtm.timedelta(days=i)
        ctx.case("date", d=d, forms=["DT", "DM", "DTL"])
        if i % 97 == 0:
            ctx.seen("date", i)


def years(ctx):
    rng = ctx.rng
    for _ in range(ctx.n(8000)):
        d = gen.adate(rng, dtm.date(1 if rng.random() < 0.2 else 1000, 1, 1), dtm.date(9999, 12, 31))
        ctx.seen("year", d.year)
        ctx.case("date", d=d, forms=["DTL"])


# ---------------------------------------------------------------- times
def case_time(ctx, h, m, s, us):
    t = dtm.time(h, m, s, us)
    hund = t.replace(microsecond=us // 10000 * 10000)
    text = t_text(t)
    day = dtm.datetime(2024, 2, 29, h, m, s, us)
    for x in (t, day, t.replace(fold=1), t.replace(tzinfo=dtm.timezone.utc), day.replace(fold=1, tzinfo=dtm.timezone.utc)):
        out = P.time2str(x)
        ctx.check(out == text, "time written wrongly", lambda: f"{t}: {out!r} not {text}")
    got = P.time2utc(text)
    ctx.check(type(got) is dtm.time and got == hund, "time text converted wrongly", lambda: f"{text}: {got!r}")
    for n in (1, 3, 4, 5, 6):
        full = t_text(t, n)
        got = P.time2utc(full)
        want = t.replace(microsecond=us // 10 ** (6 - n) * 10 ** (6 - n))
        ctx.check(got == want, "time text converted wrongly", lambda: f"{full}: {got!r}")
    got = P.time2utc(text[:6])
    ctx.check(got == t.replace(microsecond=0), "time without decimals converted wrongly", lambda: f"{text[:6]}: {got!r}")
    ctx.check(NMEAMessage.str2val(text, "TM") == hund, "str2val time", lambda: text)
    ctx.check(NMEAMessage.val2str(t, "TM") == text, "val2str time", lambda: text)
    iso = f"{text[:2]}:{text[2:4]}:{text[4:]}"
    ctx.check(NMEAMessage.val2str(iso, "TM") == text, "val2str time string", lambda: iso)
    ctx.count("times")


def times(ctx):
    part = int(ctx.job.split("#")[1])
    rng = ctx.rng
    for i in range(part, 86400, 4):
        us = rng.choice((0, 990000, 999999, 9999, 10000, rng.randrange(100) * 10000, rng.randrange(10**6)))
        ctx.case("time", h=i // 3600, m=i // 60 % 60, s=i % 60, us=us)
        if i % 61 == part:
            ctx.seen("time", i, us)


# ---------------------------------------------------------------- impossible
def case_impossible(ctx, kind, text):
    if kind == "TM":
        got = P.time2utc(text)
    else:
        got = P.date2utc(text, kind)
    ctx.check(got == "" and type(got) is str, "impossible text not blank", lambda: f"{kind} {text!r}: {got!r}")
    if isinstance(text, str):
        got = NMEAMessage.str2val(text, kind)
        ctx.check(got == "" and type(got) is str, "impossible text not blank", lambda: f"str2val {kind} {text!r}: {got!r}")
    ctx.count("impossible")
    ctx.seen("impossible", kind, text)


def impossible(ctx):
    rng = ctx.rng
    for form in ("DT", "DM", "DTL"):
        for a in range(100):
            for b in range(100):
                y = rng.randint(0, 99) if form != "DTL" else rng.randint(1, 9999)
                day, mon = (b, a) if form == "DM" else (a, b)
                full = y if form == "DTL" else (1900 + y if y >= 69 else 2000 + y)
                try:
                    dtm.date(full, mon, day)
                except ValueError:
                    if a < 32 and b < 32 or rng.random() < 0.1:
                        ctx.case("impossible", kind=form, text=f"{a:02d}{b:02d}{y:0{4 if form == 'DTL' else 2}d}")
        for t in ("", "ddmmyy", "1O1124", "99999999x", "-10124", "01/01/24", "2024-01-01", "0101", "010124000", "  ",
                  None, 10124, "0" * 6, "0" * 8, "x" * 300, "\x00" * 6, "31Dec24"):
            ctx.case("impossible", kind=form, text=t)
    for y in range(1969, 2069):
        if y % 4:
            ctx.case("impossible", kind="DT", text=f"2902{y % 100:02d}")
            ctx.case("impossible", kind="DM", text=f"0229{y % 100:02d}")
            ctx.case("impossible", kind="DTL", text=f"2902{y}")
    for y in (1900, 2100, 2200, 2300, 1000, 9999):
        ctx.case("impossible", kind="DTL", text=f"2902{y}")
    for n in range(100):
        for tail in ("", ".00", ".99", ".5", ".123456"):
            if n > 23:
                ctx.case("impossible", kind="TM", text=f"{n:02d}0000{tail}")
                ctx.case("impossible", kind="TM", text=f"{n:02d}5959{tail}")
            if n > 59:
                ctx.case("impossible", kind="TM", text=f"12{n:02d}00{tail}")
                ctx.case("impossible", kind="TM", text=f"0012{n:02d}{tail}")
    for n in list(range(6)) + list(range(7, 20)):  # digits only: six of them or nothing
        for _ in range(20):
            ctx.case("impossible", kind="TM", text=rng.choice(("", "0", "1", "12", "00")) .ljust(n, rng.choice("0123"))[:n])
            ctx.case("impossible", kind="TM", text="".join(rng.choice("012") for _ in range(n)))
    for t in ("", "noon", "12:35:19", "1235l9.00", "-12519.0", "+123519.00", "123519.", "123519,00", None, 123519, 1.5,
              "9" * 6, "9" * 300, "hhmmss.ss", "\x00" * 9, "123519.xx"):
        ctx.case("impossible", kind="TM", text=t)


def spoilt(ctx):
    """Valid texts with a digit missing or something else added or in place of a digit."""
    rng = ctx.rng
    for _ in range(ctx.n(6000)):
        kind = rng.choice(("TM", "DT", "DM", "DTL"))
        d = dtm.date(1969, 1, 1) + dtm.timedelta(days=rng.randrange(36500))
        if kind == "TM":
            text = "%02d%02d%02d" % (rng.randrange(24), rng.randrange(60), rng.randrange(60))
            text += rng.choice(("", ".00", ".5", ".123", ".%02d" % rng.randrange(100)))
        else:
            text = d.strftime({"DT": "%d%m%y", "DM": "%m%d%y", "DTL": "%d%m%Y"}[kind])
        i = rng.choice((0, len(text), rng.randrange(len(text) + 1)))
        how = rng.randrange(4)
        if how == 0:  # something added
            c = rng.choice(("Z", "z", "+", "-", ":", "/", "x", "Z ", "+00", "-0000", "UTC", ";", "_", "°"))
            text = text[:i] + c + text[i:]
        elif how == 1:  # in place of a digit
            i = min(i, 5)
            text = text[:i] + rng.choice("ZxO+-:._/ ") + text[i + 1:]
        elif how == 2:  # a digit missing
            i = min(i, 5)
            text = text[:i] + text[i + 1:]
        elif kind != "TM":  # a digit more
            text = text[:i] + rng.choice("0123456789") + text[i:]
        else:
            i = min(i, 5)
            text = text[:i] + rng.choice("0123456789") + text[i:]
        ctx.case("impossible", kind=kind, text=text)
        ctx.count("spoilt")


def case_unwritable(ctx, val):
    ctx.check(P.time2str(val) == "", "unwritable time not blank", lambda: repr(val))
    for f in ("DT", "DM", "DTL"):
        ctx.check(P.date2str(val, f) == "", "unwritable date not blank", lambda: repr(val))


# ---------------------------------------------------------------- typed values
def case_typed(ctx, typ, val):
    s = NMEAMessage.val2str(val, typ)
    ctx.check(type(s) is str, "not text", lambda: f"{typ} {val!r}: {s!r}")
    v = NMEAMessage.str2val(s, typ)
    what = f"{typ} {val!r} -> {s!r} -> {v!r}"
    if typ in ("CH", "ST", "HX", "QS", "LAD", "LND"):
        ctx.check(s == val and v == val and type(v) is str, "text altered", lambda: what)
    elif typ == "IN":
        ctx.check(s == str(int(val)) and v == val and type(v) is int, "integer altered", lambda: what)
    elif typ == "DE":
        ctx.check(type(v) is float and v == float(val) and math.copysign(1, v) == math.copysign(1, float(val)),
                  "decimal altered", lambda: what)
        ctx.check("e" not in s.lower() and "," not in s, "decimal not in NMEA form", lambda: what)
    ctx.count("typed")
    ctx.seen(typ, type(val).__name__, s[:6])
    ctx.sample(what)


def case_text(ctx, typ, text, want):
    """Text to value to text for numbers and texts."""
    got = NMEAMessage.str2val(text, typ)
    ctx.check(type(got) is type(want) and got == want, "text converted wrongly", lambda: f"{typ} {text!r}: {got!r}")
    if typ in ("IN",) and text == str(want):
        ctx.check(NMEAMessage.val2str(got, typ) == text, "not inverse", lambda: f"{typ} {text!r}")
    ctx.count("typed")


def case_badtext(ctx, typ, text):
    try:
        got = NMEAMessage.str2val(text, typ)
    except (ValueError, TypeError) + ERRS:
        return
    ctx.check(False, "impossible number accepted", lambda: f"{typ} {text!r}: {got!r}")


def typed(ctx):
    rng = ctx.rng
    for _ in range(ctx.n(9000)):
        typ = rng.choice(("CH", "ST", "HX", "QS", "LAD", "LND", "IN", "IN", "DE", "DE", "DE"))
        if typ == "IN":
            val = rng.choice((rng.randint(-99, 99), rng.randint(-10**12, 10**12), 10 ** rng.randint(0, 60),
                              -(2 ** rng.randint(0, 200)), 0))
        elif typ == "DE":
            val = rng.choice((rng.uniform(-1000, 1000), rng.uniform(-1, 1) * 10.0 ** rng.randint(-300, 300),
                              round(rng.uniform(-999, 999), rng.randint(0, 9)), 0.0, -0.0, 1e16, 1e15, 123456789012345.6,
                              5e-324, 1.7976931348623157e308, rng.randint(-999, 999), 0.1 + 0.2, 1e22, 1e-7, 0.0001,
                              0.00001))
        else:
            val = gen.typed(rng, typ)
        ctx.case("typed", typ=typ, val=val)
        n = rng.randint(-10**6, 10**6)
        ctx.case("text", typ="IN", text=rng.choice((str(n), f"{n:08d}")), want=n)
        dp = rng.randint(0, 8)
        s = f"{n / 10**dp:.{dp}f}"
        ctx.case("text", typ="DE", text=s, want=float(s))
        ctx.case("text", typ=rng.choice(("IN", "DE")), text="", want="")
        ctx.case("badtext", typ=rng.choice(("IN", "DE")), text=rng.choice(("abc", "1..2", "1,5", "x1", "1x", "12M", "--1",
                                                                     "1.2.3", "A", "0x1F", "*", "-", ".")))


typed2 = typed


def case_unknown(ctx, typ, val):
    for fn, args in ((NMEAMessage.str2val, ("1", typ)), (NMEAMessage.val2str, (val, typ)), (NMEAMessage.nomval, (typ,)),
                     (NMEAMessage.nomval, (typ, 1))):
        try:
            got = fn(*args)
        except NMEATypeError:
            continue
        except Exception as err:
            ctx.check(False, "unknown type raises something else", lambda: f"{fn.__name__} {typ!r}: {err!r}")
        ctx.check(False, "unknown type accepted", lambda: f"{fn.__name__} {typ!r}: {got!r}")
    ctx.count("unknown_types")
    ctx.seen("unknown", typ)


def case_nominal(ctx, typ, mode):
    set_zone("other")
    t1 = dtm.datetime.now(dtm.timezone.utc)
    v = NMEAMessage.nomval(typ, mode)
    t0 = dtm.datetime.now(dtm.timezone.utc)
    if typ in ("CH", "ST", "LA", "LN"):
        ok = v == ""
    elif typ in ("LAD", "LND"):
        ok = v == {"LAD": "N", "LND": "E"}[typ]
    elif typ == "HX":
        ok = v == "0"
    elif typ in ("DE", "IN"):
        ok = v == 0 and type(v) is {"DE": float, "IN": int}[typ]
    elif typ == "QS":
        ok = v == ("OK", "W", "R")[mode]
    elif typ == "TM":
        ok = type(v) is dtm.time and min(
            abs((dtm.datetime.combine(t0.date(), v, dtm.timezone.utc) - t0).total_seconds() + x)
            for x in (0, 86400, -86400)) < 60
    else:
        ok = is_date(v) and v in (t0.date(), t1.date())
    ctx.check(ok, "nominal value", lambda: f"{typ} {mode}: {v!r}")


def case_hex(ctx, num, padding):
    want = ""
    n = num
    while n:
        want = "0123456789ABCDEF"[n & 15] + want
        n >>= 4
    want = (want or "0").rjust(padding, "0")
    got = P.hex2str(num, padding) if padding or num % 2 else P.hex2str(num)
    ctx.check(got == want, "hex text", lambda: f"{num} padded {padding}: {got!r} not {want!r}")
    ctx.check(NMEAMessage.str2val(NMEAMessage.val2str(got, "HX"), "HX") == got, "hex field altered")
    ctx.count("hex")
    ctx.seen("hex", num.bit_length(), padding)


FACTOR = {"MS": 0.5144444, "FS": 1.6878099, "MPH": 1.1507794, "KMPH": 1.852}


def case_speed(ctx, knots, unit):
    got = P.knots2spd(knots, unit)
    f = P.KNOTSCONV[unit.upper()] if hasattr(P, "KNOTSCONV") else FACTOR[unit.upper()]
    ctx.check(abs(f - FACTOR[unit.upper()]) < 1e-5, "conversion factor", lambda: f"{unit} {f}")
    ctx.check(abs(got - knots * FACTOR[unit.upper()]) <= abs(knots) * 4e-6, "speed", lambda: f"{knots} {unit}: {got}")
    ctx.check(P.knots2spd(knots) == P.knots2spd(knots, "MS"), "default unit")
    ctx.check(abs(P.knots2spd(-knots, unit) + got) <= abs(got) * 1e-12, "speed not odd")
    ctx.check(abs(P.knots2spd(2 * knots, unit) - 2 * got) <= abs(got) * 1e-12, "speed not linear")
    ctx.count("speeds")
    ctx.seen("speed", unit, round(knots))


def case_badspeed(ctx, knots, unit):
    want = KeyError if isinstance(knots, (int, float)) else TypeError
    try:
        got = P.knots2spd(knots, unit)
    except (KeyError, TypeError) as err:
        ctx.check(isinstance(err, want) or not isinstance(knots, (int, float)), "wrong exception",
                  lambda: f"{knots!r} {unit!r} {err!r}")
        return
    ctx.check(False, "invalid speed accepted", lambda: f"{knots!r} {unit!r}: {got!r}")


def case_desc(ctx, msgid, want):
    got = P.msgdesc(msgid)
    ctx.check(got == want, "description", lambda: f"{msgid}: {got!r} not {want!r}")
    ctx.count("descs")
    ctx.seen("desc", msgid)


def misc(ctx):
    rng = ctx.rng
    known = set(spec.TYPES)
    codes = ["", "la", "XX", "U1", "in", "CHX", "C", " CH", "CH ", "None", "ZZ", "Z2", "Y1", "DATE", "H", "DTM", "LNX"]
    for _ in range(ctx.n(500)):
        typ = rng.choice(codes) if rng.random() < 0.3 else "".join(
            rng.choice("ABCDEHILMNQSTXabct01 _") for _ in range(rng.randint(1, 4)))
        if typ not in known:
            ctx.case("unknown", typ=typ, val=rng.choice((1, "1", 1.5, "", None)))
    for typ in sorted(known):
        for mode in (0, 1, 2):
            ctx.case("nominal", typ=typ, mode=mode)
    for _ in range(ctx.n(1500)):
        ctx.case("hex", num=rng.choice((0, 1, 15, 16, rng.getrandbits(rng.randint(1, 64)))),
                 padding=rng.choice((0, 1, 2, 4, 6, 8, 9, 10, 11, 12, 16, 20, 32)))
        ctx.case("speed", knots=rng.choice((0.0, 1.0, rng.uniform(-1000, 1000), rng.randint(0, 99))),
                 unit=rng.choice(("MS", "FS", "MPH", "KMPH", "ms", "fs", "mph", "Kmph")))
    for u in ("", "KTS", "M S", "KM", "MPHX", "m/s", "KPH", "KMH", "KM/H", "KN", "KNOTS", "M", "F", "FPS", "MPS", "MI", "MS ", " MS", "K", "N"):
        for x in (10, 0, 0.0, -1.5):
            ctx.case("badspeed", knots=x, unit=u)
    for _ in range(ctx.n(300)):
        u = "".join(rng.choice("MSFPHKmsfphk") for _ in range(rng.randint(1, 5)))
        if u.upper() not in FACTOR:
            ctx.case("badspeed", knots=rng.uniform(-10, 10), unit=u)
    for k in ("xx", None, [1]):
        ctx.case("badspeed", knots=k, unit="MPH")
    for msgid, d in spec.CAT["desc"].items():
        if (msgid in spec.STD) != (msgid in spec.PROP):
            ctx.case("desc", msgid=msgid, want=d)
    for _ in range(ctx.n(150)):
        x = gen.unknown_id(rng)
        ctx.case("desc", msgid=x, want=f"Unknown msgID {x}")
    for v in (None, "", "x", 5, 1.5, []):
        ctx.case("unwritable", val=v)
