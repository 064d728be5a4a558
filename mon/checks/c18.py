"""C18 distance, bearing and area obey the geometry of the sphere everywhere."""

import math

from mon import hp
from mon.lib import pynmeagps as P

PROPERTY = "C18"
RULE = (
    "Pairs: uniform over the globe, nearby at 1 mm..10 km, antipodal and nearly so (1e-12..1 degree off), same "
    "meridian/parallel/equator, poles, across the antimeridian, longitudes with whole turns added; default and "
    "arbitrary radii. Values compared with a vector-form 45-digit oracle within the rounding the formula allows, "
    "plus symmetry, scaling, bounds and identities. Non-trivial: distinct (function, class of pair, octants, scale)."
)
NEED = {"haversine": 30000, "antipodal": 4000, "identical": 1000, "turns": 3000, "planar": 15000,
        "planar antimeridian": 800, "planar any distance": 4000, "bearing": 20000, "bearing axis": 400, "area": 6000, "radius": 20000}
QUICK = 2
R = 6378.137


def jobs(tier):
    k = 1 if tier == "quick" else 3
    return [f"{n}#{i}" for i in range(k) for n in ("far", "far2", "antipodes", "near", "near2", "axes", "areas")]


def finite(ctx, v, what, args):
    ctx.check(isinstance(v, (int, float)) and math.isfinite(v), f"{what}: not a finite number", lambda: f"{args} {v!r}")


def angle_tol(t):
    """Rounding a cosine to double: 1e-14 / sin(t), at worst about sqrt(2e-14)."""
    return min(1e-14 / max(math.sin(t), 1e-9), 1.5e-7) + 1e-14


def case_distance(ctx, p, q, radius):
    t = float(hp.central(*p, *q))
    tol = angle_tol(t)
    args = (p, q, radius)
    if radius is None:
        d = P.haversine(*p, *q)
        r = R
    else:
        d = P.haversine(*p, *q, radius)
        r = radius
        ctx.check(P.haversine(*p, *q, radius=radius) == d, "radius keyword", lambda: repr(args))
        ctx.count("radius")
    finite(ctx, d, "haversine", args)
    ctx.check(abs(d / r - t) <= tol, "great-circle distance", lambda: f"{args}: {d!r} want {t * r!r}")
    ctx.check(0 <= d <= math.pi * r * (1 + 1e-12), "distance out of range", lambda: f"{args}: {d!r}")
    e = P.haversine(*q, *p) if radius is None else P.haversine(*q, *p, radius)
    ctx.check(abs(d - e) / r <= 2 * tol, "distance not symmetric", lambda: f"{args}: {d!r} {e!r}")
    k = 3.5
    e = P.haversine(*p, *q, r * k)
    ctx.check(abs(e - k * d) <= 1e-12 * k * r, "distance does not scale with radius", lambda: f"{args}: {d!r} {e!r}")
    ctx.count("haversine")
    ctx.seen("hav", octant(p), octant(q), round(math.log10(t), 1) if t else 0, round(math.log10(math.pi - t), 1) if t < math.pi else 0)


def octant(p):
    return (p[0] > 0) - (p[0] < 0), math.floor(p[1] / 90), abs(p[0]) == 90


def case_turns(ctx, p, q, n, m):
    t = float(hp.central(*p, *q))
    tol = 2 * angle_tol(t) + 1e-13
    d = P.haversine(*p, *q)
    e = P.haversine(p[0], p[1] + 360 * n, q[0], q[1] + 360 * m)
    ctx.check(abs(d - e) / R <= tol * 3, "whole turns of longitude change the distance", lambda: f"{p} {q} {n} {m}: {d!r} {e!r}")
    if t > 1e-3 and math.pi - t > 1e-3 and abs(p[0]) < 89:
        b, c = P.bearing(*p, *q), P.bearing(p[0], p[1] + 360 * n, q[0], q[1] + 360 * m)
        ctx.check(abs((b - c + 180) % 360 - 180) < 1e-6, "whole turns of longitude change the bearing", lambda: f"{p} {q} {n} {m}: {b!r} {c!r}")
    ctx.count("turns")
    ctx.seen("turn", n, m, octant(p), octant(q))


def case_identical(ctx, p, radius):
    for a in (p, (float(p[0]), float(p[1]))):
        ctx.check(P.haversine(*p, *a) == 0 and P.haversine(*a, *p, radius) == 0, "distance of a point to itself", lambda: repr(p))
        ctx.check(P.planar(*p, *a) == 0 and P.planar(*a, *p, radius) == 0, "planar distance of a point to itself", lambda: repr(p))
        b = P.bearing(*p, *a)
        ctx.check(0 <= b < 360, "bearing range", lambda: f"{p} {b!r}")
    ctx.count("identical")
    ctx.seen("same", p)


def case_antipodal(ctx, p, eps, radius):
    """A point and (nearly) its antipode: half the circumference, less what it is off by."""
    lon = p[1] - 180 if p[1] > 0 else p[1] + 180
    q = (-p[0] + eps[0], lon + eps[1])
    q = (max(-90.0, min(90.0, q[0])), q[1])
    case_distance(ctx, p, q, radius)
    b = P.bearing(*p, *q)
    ctx.check(0 <= b < 360, "bearing range", lambda: f"{p} {q} {b!r}")
    ctx.count("antipodal")


def case_planar(ctx, p, q, radius):
    """Nearby points up to 85 degrees of latitude."""
    t = float(hp.central(*p, *q))
    r = 6378137.0 if radius is None else radius
    d = P.planar(*p, *q) if radius is None else P.planar(*p, *q, radius)
    finite(ctx, d, "planar", (p, q, radius))
    want = t * r
    # scaling by the cosine of one end only costs half of dlat * tan(lat)
    tol = (1e-4 * t + 5e-15) * r
    ctx.check(abs(d - want) <= tol, "planar distance", lambda: f"{p} {q} {radius}: {d!r} want {want!r}")
    if abs(p[1] - q[1]) > 180:
        ctx.count("planar antimeridian")
    if radius is not None:
        ctx.check(P.planar(*p, *q, radius=radius) == d, "radius keyword", lambda: f"{p} {q} {radius}")
    ctx.count("planar")
    ctx.seen("planar", octant(p), round(p[0] / 5), round(math.log10(t), 1) if t else 0, abs(p[1] - q[1]) > 180)


def case_shorter(ctx, lats, lons, turn, radius=None):
    """Only the longitude difference the shorter way round matters, however far apart."""
    def wrapped(x):
        return (x + 180) % 360 - 180
    k = () if radius is None else (radius,)
    r = 6378137.0 if radius is None else radius
    small = r * 2e-13
    d = P.planar(lats[0], lons[0], lats[1], lons[1], *k)
    other = [wrapped(x + turn) for x in lons]
    e = P.planar(lats[0], other[0], lats[1], other[1], *k)
    ctx.check(abs(d - e) <= small + 1e-9 * abs(d), "planar distance depends on the zero meridian",
              lambda: f"{lats} {lons} {other} {radius}: {d!r} {e!r}")
    k1, k2 = (round(turn * 7) % 7 - 3, round(turn * 11) % 7 - 3)  # whole turns
    e = P.planar(lats[0], lons[0] + 360 * k1, lats[1], lons[1] + 360 * k2, *k)
    ctx.check(abs(d - e) <= 10 * small + 1e-9 * abs(d), "planar distance depends on whole turns",
              lambda: f"{lats} {lons} {k1} {k2} {radius}: {d!r} {e!r}")
    dl = abs(wrapped(lons[1] - lons[0]))
    want = r * math.hypot(math.radians(lats[1] - lats[0]), math.radians(dl) * math.cos(math.radians(lats[0])))
    ctx.check(abs(d - want) <= small + 1e-9 * want, "planar distance is not the shorter way round",
              lambda: f"{lats} {lons} {radius}: {d!r} want {want!r}")
    ctx.count("planar any distance")
    ctx.seen("shorter", round(dl / 5), round(lons[0] / 30), abs(lons[1] - lons[0]) > 180)


def case_bearing(ctx, p, q):
    want, size = hp.azimuth(*p, *q)
    got = P.bearing(*p, *q)
    finite(ctx, got, "bearing", (p, q))
    ctx.check(0 <= got < 360, "bearing range", lambda: f"{p} {q} {got!r}")
    size = float(size)
    if size > 1e-9:
        tol = math.degrees(2e-14 / size) + 1e-11
        diff = (got - float(want) + 180) % 360 - 180
        ctx.check(abs(diff) <= tol, "bearing", lambda: f"{p} {q}: {got!r} want {float(want)!r}")
        ctx.count("bearing")
        ctx.seen("bearing", octant(p), octant(q), round(got / 3))


def case_axis(ctx, p, q, want):
    """Cardinal directions are exact."""
    got = P.bearing(*p, *q)
    ctx.check(0 <= got < 360 and abs((got - want + 180) % 360 - 180) < 1e-9, "cardinal bearing", lambda: f"{p} {q} {got!r} want {want}")
    ctx.count("bearing axis")
    ctx.seen("axis", want, octant(p), round(p[0]), round(q[0]))


def case_area(ctx, p, q, radius):
    s1, s2 = hp.sincos(p[0])[0], hp.sincos(q[0])[0]
    dl = abs(hp.D(p[1]) - hp.D(q[1])) * hp.RAD
    r = R if radius is None else radius
    want = float(abs(s1 - s2) * dl) * r * r
    tol = want * 1e-9 + (float(dl) + 1e-12) * r * r * 1e-15 + float(abs(s1 - s2)) * r * r * 2e-15
    got = P.area(*p, *q) if radius is None else P.area(*p, *q, radius)
    finite(ctx, got, "area", (p, q, radius))
    ctx.check(abs(got - want) <= tol, "area", lambda: f"{p} {q} {radius}: {got!r} want {want!r}")
    for other in ((q, p), ((p[0], q[1]), (q[0], p[1]))):
        o = P.area(*other[0], *other[1], r)
        ctx.check(abs(o - got) <= 2 * tol, "area depends on which corners are given", lambda: f"{p} {q} {got!r} {o!r}")
    ctx.count("area")
    ctx.seen("area", octant(p), octant(q), round(math.log10(want), 1) if want else 0)


def spot(rng):
    k = rng.randrange(8)
    if k < 4:
        return math.degrees(math.asin(rng.uniform(-1, 1))), rng.uniform(-180, 180)
    if k == 4:
        return float(rng.randint(-90, 90)), float(rng.randint(-180, 180))
    if k == 5:
        return rng.choice((0.0, 90.0, -90.0, 45.0, 89.9999, -89.9999)), rng.choice((0.0, 180.0, -180.0, 90.0, -90.0))
    if k == 6:
        return rng.randint(-90, 90), rng.randint(-180, 180)
    return rng.uniform(-90, 90), rng.choice((180.0, -180.0)) * (1 - 10 ** rng.uniform(-12, -2))


def some_radius(rng):
    return rng.choice((None, None, None, 6371.0, 6371.0088, 1.0, 3389.5, 1737.4, rng.uniform(0.1, 1e6), 6356752))


def far(ctx):
    rng = ctx.rng
    for _ in range(ctx.n(4000)):
        p, q = spot(rng), spot(rng)
        ctx.case("distance", p=p, q=q, radius=some_radius(rng))
        ctx.case("bearing", p=p, q=q)
        ctx.case("shorter", lats=(p[0], q[0]), lons=(p[1], q[1]), turn=rng.choice((90, -90, 180, rng.uniform(-180, 180))),
                 radius=some_radius(rng))
        if rng.random() < 0.5:
            ctx.case("turns", p=p, q=q, n=rng.randint(-4, 4), m=rng.randint(-4, 4))


far2 = far


def antipodes(ctx):
    rng = ctx.rng
    for i in range(ctx.n(3000)):
        p = spot(rng)
        e = [0.0, 0.0] if i % 3 == 0 else [rng.choice((0, 1, -1)) * 10 ** rng.uniform(-14, 0) for _ in "12"]
        ctx.case("antipodal", p=p, eps=e, radius=some_radius(rng))
    for _ in range(ctx.n(800)):
        ctx.case("identical", p=spot(rng), radius=rng.choice((6371.0, 1, 6378137.0, rng.uniform(1, 1e7))))
    for lat in range(-90, 91):
        for lon in (-180, -90, 0, 45, 90, 180):
            ctx.case("antipodal", p=(float(lat), float(lon)), eps=[0.0, 0.0], radius=None)
            ctx.case("identical", p=(lat, lon), radius=6371)


def offset(rng, p, metres):
    """A point about that many metres away."""
    b = rng.choice((0, 90, 180, 270, rng.uniform(0, 360), rng.uniform(0, 360)))
    d = metres / 6378137.0
    dlat = math.degrees(d * math.cos(math.radians(b)))
    dlon = math.degrees(d * math.sin(math.radians(b)) / max(math.cos(math.radians(p[0])), 1e-3))
    return p[0] + dlat, p[1] + dlon


def near(ctx):
    rng = ctx.rng
    for i in range(ctx.n(4500)):
        lat = rng.choice((rng.uniform(-85, 85), rng.uniform(-85, 85), float(rng.randint(-84, 84)), 85.0, -85.0, 0.0))
        lon = rng.choice((rng.uniform(-180, 180), rng.uniform(-180, 180), 0.0, 180.0, -180.0,
                          rng.choice((180, -180)) * (1 - 10 ** rng.uniform(-12, -6))))
        p = (lat, lon)
        q = offset(rng, p, 10 ** rng.uniform(-2, math.log10(50)))
        if abs(q[0]) <= 85:
            w = (q[0], (q[1] + 180) % 360 - 180)  # its usual name across the antimeridian
            for a in ((q, w) if w != q else (q,)):
                ctx.case("planar", p=p, q=a, radius=rng.choice((None, None, 6371000.0, 6371008.8, 1737400, 6378.137)))
        if i % 2:
            q = offset(rng, p, 10 ** rng.uniform(-3, 4))
            if abs(q[0]) <= 90:
                ctx.case("distance", p=p, q=q, radius=some_radius(rng))
                ctx.case("bearing", p=p, q=q)


near2 = near


def axes(ctx):
    rng = ctx.rng
    for _ in range(ctx.n(200)):
        lat, lon = rng.uniform(-89, 89), rng.uniform(-180, 180)
        ctx.case("axis", p=(lat, lon), q=(rng.uniform(lat + 0.01, 90), lon), want=0)
        ctx.case("axis", p=(lat, lon), q=(rng.uniform(-90, lat - 0.01), lon), want=180)
        d = rng.uniform(0.001, 179.9)
        ctx.case("axis", p=(0.0, lon), q=(0.0, lon + d), want=90)
        ctx.case("axis", p=(0.0, lon), q=(0.0, lon - d), want=270)
        ctx.case("axis", p=(lat, lon), q=(90.0, rng.uniform(-180, 180)), want=0)
        ctx.case("axis", p=(lat, lon), q=(-90.0, rng.uniform(-180, 180)), want=180)
    for lat in range(-89, 90):
        for lon in (-180, -90, 0, 90, 180):
            ctx.case("axis", p=(lat, lon), q=(lat + 1, lon), want=0)
            ctx.case("axis", p=(lat, lon), q=(lat - 1, lon), want=180)
    for lon in range(-180, 180):
        ctx.case("axis", p=(0, lon), q=(0, lon + 1), want=90)
        ctx.case("axis", p=(0, lon + 1), q=(0, lon), want=270)


def areas(ctx):
    rng = ctx.rng
    for p, q in (((-90, -180), (90, 180)), ((-90, 0), (90, 180)), ((0, 0), (90, 90)), ((0, 0), (0, 90)), ((10, 5), (20, 5))):
        ctx.case("area", p=p, q=q, radius=None)
    for _ in range(ctx.n(300)):  # all the way round
        a, b = (-180.0, 180.0) if rng.random() < 0.7 else (-180, 180)
        if rng.random() < 0.5:
            a, b = b, a
        ctx.case("area", p=(spot(rng)[0], a), q=(spot(rng)[0], b), radius=some_radius(rng))
    for _ in range(ctx.n(5000)):
        p, q = spot(rng), spot(rng)
        if rng.random() < 0.4:
            q = offset(rng, p, 10 ** rng.uniform(0, 5))
        if abs(p[1] - q[1]) <= 360 and abs(q[0]) <= 90:
            ctx.case("area", p=p, q=q, radius=some_radius(rng))
