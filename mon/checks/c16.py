"""C16 latitude/longitude formats are well-formed and invertible everywhere."""

import math
import re
from fractions import Fraction as F

from mon import gen
from mon.lib import NMEAMessage, pynmeagps as P

PROPERTY = "C16"
RULE = (
    "Coordinates: every whole degree and minute and their float neighbours, just below/above whole degrees, "
    "minutes and seconds by 1e-3..1e-14, last-digit ties, tiny values, integers, random over the globe; both "
    "axes, both precisions. The text is re-read digit by digit as an exact rational and compared with the "
    "exact value of the float given; inverse functions and tuple forms compared. Malformed texts. "
    "Non-trivial: distinct (function, axis, degree, class of fraction)."
)
NEED = {"dmm": 20000, "display": 20000, "inverse": 20000, "iso": 10000, "dms_texts": 3000, "rejected": 300, "neighbours": 2000}
QUICK = 3
DMS = re.compile(r"([0-9]{1,3})°([0-9]{1,2})′([0-9]{1,2}(?:\.[0-9]+)?)″([NSEW])\Z")
DMM = re.compile(r"([0-9]{1,3})°([0-9]{1,2}(?:\.[0-9]+)?)′([NSEW])\Z")
ISO = re.compile(r"([+-])([0-9]+(?:\.[0-9]+)?)([+-])([0-9]+(?:\.[0-9]+)?)([+-])([0-9]+(?:\.[0-9]+)?)CRS(.*)/\Z")


def jobs(tier):
    k = 1 if tier == "quick" else 3
    return [f"{n}#{i}" for i in range(k)
            for n in ("coords", "coords2", "coords3", "wholes", "iso", "texts", "nmea", "pairs")]


def sign_ok(v, shown, letter, typ):
    pos, neg = ("N", "S") if typ == "LA" else ("E", "W")
    if v > 0:
        return letter == pos or shown == 0 and letter == neg
    if v < 0:
        return letter == neg or shown == 0 and letter == pos
    return letter == pos or math.copysign(1, v) < 0 and letter == neg


def case_coord(ctx, v, typ):
    ex = abs(F(v))
    # NMEA text
    for hp in (False, True):
        dp = 7 if hp else 5
        t = P.ddd2dmm(v, typ, hp)
        m = re.match(r"([0-9]{%d})([0-9]{2}\.[0-9]{%d})\Z" % (2 if typ == "LA" else 3, dp), t)
        ctx.check(m, "NMEA position text malformed", lambda: f"{v!r} {typ} hp={hp}: {t!r}")
        ctx.check(F(m[2]) < 60, "minutes not below 60", lambda: f"{v!r} {typ} hp={hp}: {t!r}")
        got = F(m[1]) + F(m[2]) / 60
        ctx.check(abs(got - ex) * 60 <= F(1, 2 * 10**dp) + F(1, 10**10), "NMEA position text wrong",
                  lambda: f"{v!r} {typ} hp={hp}: {t!r}")
        back = P.dmm2ddd(t)
        ctx.check(type(back) is float and abs(F(back) - got) <= F(51, 10**12), "dmm2ddd wrong",
                  lambda: f"{t!r}: {back!r}")
        s = NMEAMessage.val2str(v, typ, hp)
        ctx.check(s == t, "val2str differs from ddd2dmm", lambda: f"{v!r} {s!r} {t!r}")
        ctx.check(NMEAMessage.str2val(t, typ) == back, "str2val differs from dmm2ddd", lambda: f"{t!r}")
        ctx.count("dmm")
    ctx.check(P.ddd2dmm(v, typ) == P.ddd2dmm(v, typ, False), "default precision")
    # degrees minutes seconds
    t = P.deg2dms(v, typ)
    m = DMS.match(t)
    ctx.check(m, "d°m′s″ text malformed", lambda: f"{v!r} {typ}: {t!r}")
    ctx.check(int(m[2]) < 60 and F(m[3]) < 60, "minutes or seconds not below 60", lambda: f"{v!r} {typ}: {t!r}")
    got = F(m[1]) + F(m[2]) / 60 + F(m[3]) / 3600
    ctx.check(abs(got - ex) * 3600 <= F(1, 2 * 10**5) + F(1, 10**9), "d°m′s″ text wrong", lambda: f"{v!r} {typ}: {t!r}")
    ctx.check(sign_ok(v, got, m[4], typ), "hemisphere letter", lambda: f"{v!r} {typ}: {t!r}")
    inverse(ctx, v, t, got)
    # degrees decimal minutes
    t2 = P.deg2dmm(v, typ)
    m = DMM.match(t2)
    ctx.check(m, "d°m.m′ text malformed", lambda: f"{v!r} {typ}: {t2!r}")
    ctx.check(F(m[2]) < 60, "minutes not below 60", lambda: f"{v!r} {typ}: {t2!r}")
    got = F(m[1]) + F(m[2]) / 60
    ctx.check(abs(got - ex) * 60 <= F(1, 2 * 10**7) + F(1, 10**10), "d°m.m′ text wrong", lambda: f"{v!r} {typ}: {t2!r}")
    ctx.check(sign_ok(v, got, m[3], typ), "hemisphere letter", lambda: f"{v!r} {typ}: {t2!r}")
    inverse(ctx, v, t2, got)
    ctx.count("display", 2)
    ctx.seen(typ, int(v), min(15, int(-math.log10(abs(v - round(v)) + 1e-15))))
    ctx.sample((v, t, t2))


def inverse(ctx, v, text, mag):
    want = -mag if v < 0 else mag
    for rnd in (7, 10, 4, 0, 1):
        back = P.dms2deg(text, rnd) if rnd != 7 else P.dms2deg(text)
        ctx.check(abs(F(back) - want) <= F(1, 2 * 10**rnd) + F(1, 10**12), "dms2deg not inverse",
                  lambda: f"{v!r}: {text!r} back {back!r} (rnd {rnd})")
        ctx.check(round(back, rnd) == back, "more decimals than asked for", lambda: f"{text!r}: {back!r} (rnd {rnd})")
        ctx.count("inverse")


def case_pair(ctx, lat, lon):
    ctx.check(P.latlon2dms(lat, lon) == (P.deg2dms(lat, "LA"), P.deg2dms(lon, "LN")), "tuple form differs",
              lambda: f"{lat} {lon}")
    ctx.check(P.latlon2dmm(lat, lon) == (P.deg2dmm(lat, "LA"), P.deg2dmm(lon, "LN")), "tuple form differs",
              lambda: f"{lat} {lon}")
    ctx.seen("pair", int(lat), int(lon))


def case_iso(ctx, lat, lon, alt, crs):
    t = P.llh2iso6709(lat, lon, alt, crs) if crs else P.llh2iso6709(lat, lon, alt)
    m = ISO.match(t)
    what = f"{lat!r} {lon!r} {alt!r}: {t!r}"
    ctx.check(m, "ISO 6709 text malformed", what)
    for i, v in ((1, lat), (3, lon), (5, alt)):
        ctx.check(float(m[i + 1]) == abs(v), "magnitude", what)
        ctx.check((m[i] == "-") == (v < 0) or v == 0 and math.copysign(1, v) < 0, "sign", what)
    ctx.check(m[7] == (crs or "WGS_84"), "reference system", what)
    ctx.count("iso")
    ctx.seen("iso", m[1], m[3], m[5], int(lat), int(alt) // 100)


def case_text(ctx, text, want, rnd):
    got = P.dms2deg(text, rnd)
    ctx.check(type(got) is float and abs(F(got) - F(want)) <= F(1, 2 * 10**rnd) + F(1, 10**11), "dms2deg",
              lambda: f"{text!r}: {got!r} want {float(F(want))}")
    ctx.count("dms_texts")
    ctx.seen("text", text[:5], rnd)


def case_reject(ctx, text):
    try:
        got = P.dms2deg(text)
    except ValueError:
        ctx.count("rejected")
        return
    ctx.check(False, "malformed text accepted", lambda: f"{text!r}: {got!r}")


def case_nmea(ctx, text, want):
    got = P.dmm2ddd(text)
    if want == "":
        ctx.check(got == "", "invalid NMEA position not blank", lambda: f"{text!r}: {got!r}")
        ctx.count("rejected")
    else:
        ctx.check(type(got) is float and abs(F(got) - F(want)) <= F(51, 10**12), "dmm2ddd wrong",
                  lambda: f"{text!r}: {got!r} want {float(F(want))}")
    ctx.seen("nmea", text)


def case_blank(ctx, v):
    for typ in ("LA", "LN"):
        for fn in (P.ddd2dmm, P.deg2dms, P.deg2dmm):
            ctx.check(fn(v, typ) == "", "non-number not blank", lambda: f"{fn.__name__} {v!r}")


def coords(ctx):
    rng = ctx.rng
    for _ in range(ctx.n(6000)):
        typ = rng.choice(("LA", "LN"))
        v = gen.coord(rng, typ)
        k = rng.randrange(8)
        top = 90 if typ == "LA" else 180
        if k == 0:  # next to whole minutes / seconds / 1e-5 seconds
            n = rng.choice((60, 3600, 3600 * 10**5, 60 * 10**7, 60 * 10**5))
            v = rng.randint(0, top * n) / n
            for _ in range(rng.randint(0, 2)):
                v = math.nextafter(v, rng.choice((0, 1000)))
        elif k == 1:  # half-way cases
            n = rng.choice((3600 * 10**5, 60 * 10**7, 60 * 10**5, 3600, 60))
            v = (rng.randint(0, top * n - 1) + 0.5) / n
        elif k == 2:
            v = rng.choice((0.0, -0.0, 1e-9, 5e-9, 1e-7, 1e-12, 5e-324, 1e-300, 10.0 ** -rng.randint(3, 12),
                            rng.randint(1, 99) / 360000000))
        elif k == 3:
            v = rng.randint(-top, top)
        if k < 3 and rng.random() < 0.5:
            v = -v
        ctx.case("coord", v=min(max(v, -top), top), typ=typ)


coords2 = coords3 = coords


def wholes(ctx):
    """Every whole degree and (sampled) minute with its float neighbours and small offsets."""
    rng = ctx.rng
    for typ, top in (("LA", 90), ("LN", 180)):
        for d in range(-top, top + 1):
            for eps in (0, 1e-3, 1e-4, 8e-5, 1e-5, 4e-6, 1e-6, 1e-7, 1e-8, 2e-9, 1e-9, 1e-10, 1e-11, 1e-12, 1e-13, 1e-14):
                for s in (-1, 1):
                    v = d + s * eps
                    if abs(v) <= top:
                        ctx.count("neighbours")
                        ctx.case("coord", v=float(v), typ=typ)
            m = rng.randrange(60)
            for eps in (0, 1e-7, 1e-9, 1e-11):
                v = d + (m - eps) / 60
                if abs(v) <= top:
                    ctx.case("coord", v=v, typ=typ)


def pairs(ctx):
    rng = ctx.rng
    for _ in range(ctx.n(3000)):
        lat = gen.coord(rng, "LA")
        ctx.case("pair", lat=lat, lon=gen.coord(rng, "LN"))
        if rng.random() < 0.2:  # the same number on both axes, either sign, integers, signed zeros
            lat = rng.choice((lat, float(rng.randint(-90, 90)), rng.randint(-90, 90), 0.0, 0, -0.0))
            ctx.case("pair", lat=lat, lon=rng.choice((lat, -lat, lat + 90, 2 * lat)))
    for v in ("xxx", "", None, [1], math.nan, math.inf, -math.inf):
        ctx.case("blank", v=v)


def iso(ctx):
    rng = ctx.rng
    for _ in range(ctx.n(5000)):
        small = rng.random() < 0.15
        lat, lon = gen.coord(rng, "LA"), gen.coord(rng, "LN")
        if small:
            lat, lon = lat * 1e-7, rng.choice((0.0, lon, 1e-5 * rng.random()))
        alt = rng.choice((0, 0.0, 8850, -412.5, rng.uniform(-500, 9000), rng.randint(-99, 99), -1e-6, 1e-9, 35786000.5))
        ctx.case("iso", lat=lat, lon=lon, alt=alt, crs=rng.choice((None, None, "WGS_84", "NAD83", "EPSG:4326", "nad83", "WGS_84 (G1150)", "é/x", "S-JTSK_05", " ")))


def texts(ctx):
    rng = ctx.rng
    for _ in range(ctx.n(3000)):
        top = rng.choice((90, 180))
        d, m = rng.randint(0, top - 1), rng.randint(0, 59)
        sfx = rng.choice(("N", "S", "E", "W", ""))
        sg = -1 if sfx in ("S", "W") else 1
        k = rng.randrange(4)
        D, M, S = rng.choice((("°", "′", "″"), ("°", "'", '"'), ("d", "m", "s"), (":", ":", ":")))
        sp = rng.choice(("", "", " "))
        if k == 0:
            x = f"{rng.uniform(0, top):.{rng.randint(1, 8)}f}"
            text, want = x + D + sfx, F(x)
        elif k == 1:
            x = f"{rng.uniform(0, 59.9):.{rng.randint(0, 8)}f}"
            text, want = f"{d}{D}{sp}{x}{M}{sp}{sfx}", d + F(x) / 60
        elif k == 2:
            x = f"{rng.uniform(0, 59.9):.{rng.randint(0, 6)}f}"
            text, want = f"{d}{D}{sp}{m}{M}{sp}{x}{S}{sp}{sfx}", d + F(m, 60) + F(x) / 3600
        else:
            text, want = f"{d}{D}{sp}{m}{M}{sfx}", d + F(m, 60)
        ctx.case("text", text=text, want=str(sg * want), rnd=rng.choice((0, 1, 2, 4, 7, 7, 9, 12)))
    for t in ("", "xx°yy′zz.6″N", "51°°20′45.6″", "51°20′45.6″Z", "51°20′45.6″34.25`N", "N", "°′″N", "N51°20′", "51",
              "-51°20′", "51°20", "51.5", "51°-20′", "51°20′45.6″NS", "51°20′N45.6″1°", "1°2′3″4°5′"):
        ctx.case("reject", text=t)
    for _ in range(ctx.n(100)):
        ctx.case("reject", text=rng.choice("NSEW°′x-") + f"{rng.randint(0, 89)}°{rng.randint(0, 59)}′{rng.randint(0, 59)}″N")
        ctx.case("reject", text=f"{rng.randint(0, 89)}°{rng.randint(0, 59)}′{rng.randint(0, 59)}″" + rng.choice("XnsQ"))


def nmea(ctx):
    rng = ctx.rng
    for _ in range(ctx.n(5000)):
        typ = rng.choice(("LA", "LN"))
        t = gen.pos_text(rng, typ)
        u = t.lstrip("+-")
        n = u.index(".") - 2
        ctx.case("nmea", text=t, want=str(F(u[:n]) + F(u[n:]) / 60))
    for t in ("", "junk", "N", ".", "5.", "12.5", "abcd.ef", "51x0.5", "....", "5130", "51°30.5", "123.45", "930.5", "059.99", ".5", "0.0", "000.0",
              "5327.1e2", "53-7.04", "53+7.04", "53 7.04", "5-27.04", "5327.1E1", "5327.0_4", "53_27.04", "532e1.0", "5327.04.1"):
        ctx.case("nmea", text=t, want="")
    for _ in range(ctx.n(100)):
        t = gen.pos_text(rng, "LA").lstrip("+-")
        i = rng.randrange(len(t))
        ctx.case("nmea", text=t[:i] + rng.choice("xNSé°") + t[i + 1:], want="")
        ctx.case("nmea", text=t[:i] + rng.choice("xNSé°e_:,") + t[i:], want="")
        i = rng.randrange(1, len(t) - 2)
        ctx.case("nmea", text=t[:i] + rng.choice("+- eE_") + t[i + 1:], want="")
