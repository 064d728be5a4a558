"""C17 geodetic/ECEF conversions are accurate and inverse for any datum."""

import math

from mon import hp
from mon.lib import pynmeagps as P

PROPERTY = "C17"
RULE = (
    "Positions: uniform over the globe, the poles, equator, prime meridian, antimeridian and the branch boundary "
    "of the inverse algorithm approached to 1e-14 degrees, whole degrees, every octant; heights -1000 km to 40000 km (satellite orbits); "
    "12 published ellipsoids, the sphere-like limit, other bodies (Mars, Moon, Mercury, Venus) and random ones (radius 1600 to 31000 km, flattening to 1/100). Forward result compared with foot-plus-normal "
    "construction in 45-digit Decimal; inverse driven both with the exact point and with the library's own. "
    "Non-trivial: distinct (ellipsoid, octant, latitude class, longitude class, height class)."
)
NEED = {"forward": 20000, "inverse": 20000, "library round trip": 20000, "poles": 500, "core": 500, "outside core": 300, "octants": 800,
        "default datum": 3000, "integers": 100, "other bodies": 2500}
QUICK = 2
# (semi-major axis, inverse flattening)
ELL = {
    "WGS84": (6378137.0, 298.257223563),
    "GRS80": (6378137.0, 298.257222101),
    "Airy 1830": (6377563.396, 299.3249646),
    "Airy modified": (6377340.189, 299.3249646),
    "Australian": (6378160.0, 298.25),
    "Bessel": (6377397.155, 299.1528128),
    "Clarke 1866": (6378206.4, 294.9786982),
    "Clarke 1880": (6378249.145, 293.465),
    "Everest": (6377276.345, 300.8017),
    "International": (6378388.0, 297.0),
    "Krassovsky": (6378245.0, 298.3),
    "PZ-90": (6378136.0, 298.257839303),
    "nearly a sphere": (6371000.0, 1e9),
}
BODIES = {"Mars": (3396190.0, 169.894447), "Moon": (1738100.0, 827.67), "Mercury": (2440530.0, 1075.12), "Venus": (6051800.0, 1e9)}


def jobs(tier):
    k = 1 if tier == "quick" else 3
    return [f"{n}#{i}" for i in range(k) for n in ("globe", "globe2", "globe3", "special", "special2", "octants", "core", "bodies")]


def wrap(d):
    return (d + 180) % 360 - 180


def triple(ctx, t, what):
    ctx.check(isinstance(t, tuple) and len(t) == 3 and all(isinstance(c, (float, int)) and math.isfinite(c) for c in t),
              f"{what}: not three finite numbers", lambda: repr(t))


def near(ctx, got, lat, lon, h, what):
    triple(ctx, got, what)
    ctx.check(abs(got[0] - lat) < 1e-8, f"{what}: latitude", what2(got, lat, lon, h))
    ctx.check(abs(got[2] - h) < 1e-3, f"{what}: height", what2(got, lat, lon, h))
    ctx.check(-90 <= got[0] <= 90 and -180 <= got[1] <= 180, f"{what}: range", what2(got, lat, lon, h))
    if abs(lat) < 90:
        ctx.check(abs(wrap(got[1] - lon)) < 1e-8, f"{what}: longitude", what2(got, lat, lon, h))


def what2(got, *want):
    return lambda: f"{got!r} want {want!r}"


def case_point(ctx, lat, lon, h, a, f):
    default = (a, f) == ELL["WGS84"]
    exact = hp.ecef(lat, lon, h, a, f)
    xyz = P.llh2ecef(lat, lon, h, a, f)
    triple(ctx, xyz, "llh2ecef")
    for i in range(3):
        ctx.check(abs(hp.D(xyz[i]) - exact[i]) < hp.D("1e-6"), "llh2ecef differs from the definition",
                  lambda: f"{'xyz'[i]}: {xyz!r} want {[float(e) for e in exact]!r}")
    ctx.count("forward")
    if default:
        ctx.check(P.llh2ecef(lat, lon, h) == xyz, "default datum is not WGS84")
        ctx.count("default datum")
    point = tuple(float(e) for e in exact)
    got = P.ecef2llh(*point, a, f)
    near(ctx, got, lat, lon, h, "ecef2llh")
    ctx.count("inverse")
    if default:
        ctx.check(P.ecef2llh(*point) == got, "default datum is not WGS84")
    ctx.check(P.ecef2llh(*point, f=f, a=a) == got and P.llh2ecef(lat, lon, h, f=f, a=a) == xyz, "keyword datum differs")
    back = P.ecef2llh(*xyz, a, f)
    near(ctx, back, lat, lon, h, "round trip")
    # at a pole the longitude itself is undefined, but the point must come back
    again = P.llh2ecef(*back, a, f)
    ctx.check(all(abs(p - q) < 2e-3 for p, q in zip(again, xyz)), "point does not come back", lambda: f"{xyz} {again}")
    ctx.count("library round trip")
    name = next((k for k, v in (ELL | BODIES).items() if v == (a, f)), "random")
    if not 6.3e6 < a < 6.4e6:
        ctx.count("other bodies")
    ctx.seen(name, lat > 0, lat < 0, lon > 0, abs(lon) > 90, lat_class(lat), round(lon / 30), round(h / 20000))


def lat_class(lat):
    e = abs(lat)
    k = min(e, 90 - e, abs(e - 56.8))
    return round(e / 10), round(math.log10(k)) if k else -99


def case_pole(ctx, sign, h, a, f):
    """Points exactly on the axis."""
    b = a * (1 - 1 / f)
    for zero in (0.0, -0.0):
        got = P.ecef2llh(zero, 0.0, sign * (b + h), a, f)
        near(ctx, got, sign * 90.0, 0.0, h, "pole")
    ctx.count("poles")
    ctx.seen("pole", sign, round(h / 1000), a)


def case_core(ctx, x, y, z, a, f):
    got = P.ecef2llh(x, y, z, a, f)
    ctx.check(got == (0.0, 0.0, -1.0e7), "nominal core result", lambda: f"{(x, y, z)} {got!r}")
    ctx.count("core")
    ctx.seen("core", x > 0, y > 0, z > 0, round(math.hypot(x, y, z) / 2000))


def case_outside(ctx, x, y, z):
    """100 km or more from the centre the position is computed, however deep it lies."""
    got = P.ecef2llh(x, y, z)
    triple(ctx, got, "ecef2llh")
    ctx.check(got[2] != -1.0e7, "nominal core result too far out", lambda: f"{(x, y, z)} {got!r}")
    if x or y:
        ctx.check(abs(wrap(got[1] - math.degrees(math.atan2(y, x)))) < 1e-8, "longitude", lambda: f"{(x, y, z)} {got!r}")
    ctx.check(got[0] * z >= 0, "hemisphere", lambda: f"{(x, y, z)} {got!r}")
    ctx.count("outside core")
    ctx.seen("outside", x > 0, y > 0, z > 0, round(math.hypot(x, y, z) / 100000))


def case_octant(ctx, lat, lon, h, a, f):
    """The same point mirrored into all octants: only signs and quadrants change."""
    base = P.llh2ecef(lat, lon, h, a, f)
    for sz in (1, -1):
        for sx, lo in ((1, lon), (-1, 180 - lon)):
            for sy in (1, -1):
                want = (sx * base[0], sy * base[1], sz * base[2])
                got = P.llh2ecef(sz * lat, sy * lo, h, a, f)
                ctx.check(all(abs(p - q) < 1e-6 for p, q in zip(got, want)), "llh2ecef: octant", lambda: f"{got} {want}")
                b = P.ecef2llh(*want, a, f)
                near(ctx, b, sz * lat, sy * lo, h, "octant")
                ctx.count("octants")
    ctx.seen("octant", round(lat), round(lon), a)


def case_integers(ctx, lat, lon, h):
    a, f = ELL["WGS84"]
    x = P.llh2ecef(lat, lon, h)
    ctx.check(all(abs(p - float(q)) < 1e-6 for p, q in zip(x, hp.ecef(lat, lon, h, a, f))), "integer arguments", lambda: repr(x))
    p = tuple(round(v) for v in x)
    got, want = P.ecef2llh(*p), P.ecef2llh(*map(float, p))
    ctx.check(all(abs(u - v) < 1e-8 for u, v in zip(got, want)), "integer arguments", lambda: f"{got} {want}")
    ctx.count("integers")


def datum(rng):
    if rng.random() < 0.25:
        return ELL["WGS84"]
    if rng.random() < 0.15:
        return rng.uniform(6.3e6, 6.4e6), rng.uniform(280, 320)
    return rng.choice(list(ELL.values()))


def height(rng):
    return rng.choice((0.0, -10000.0, 100000.0, rng.uniform(-10000, 100000), rng.uniform(-100, 9000), rng.uniform(-1, 1),
                       10 ** rng.uniform(5, 7.6), 20200000.0, 35786000.0, -(10 ** rng.uniform(4, 6))))


def globe(ctx):
    rng = ctx.rng
    for _ in range(ctx.n(4500)):
        a, f = datum(rng)
        ctx.case("point", lat=math.degrees(math.asin(rng.uniform(-1, 1))), lon=rng.uniform(-180, 180), h=height(rng), a=a, f=f)


globe2 = globe3 = globe


def bodies(ctx):
    """Ellipsoids of other sizes and flattenings; heights in proportion."""
    rng = ctx.rng
    for _ in range(ctx.n(1500)):
        a, f = rng.choice(list(BODIES.values())) if rng.random() < 0.5 else (10 ** rng.uniform(6.2, 7.5), rng.choice((
            rng.uniform(100, 400), 10 ** rng.uniform(2, 9))))
        h = a * rng.choice((0, rng.uniform(-0.15, 0), rng.uniform(0, 0.02), rng.uniform(0, 6)))
        lat = float(rng.choice((math.degrees(math.asin(rng.uniform(-1, 1))), rng.randint(-90, 90), rng.uniform(56, 58), 89.9999)))
        ctx.case("point", lat=lat, lon=rng.choice((rng.uniform(-180, 180), float(rng.randint(-180, 180)))), h=h, a=a, f=f)


def special(ctx):
    rng = ctx.rng
    # branch boundary c2 = 0.3: geocentric latitude about 56.79
    for _ in range(ctx.n(4500)):
        a, f = datum(rng)
        eps = rng.choice((0, 0, 1, -1)) * 10 ** rng.uniform(-14, 0)
        lat = rng.choice((0, 90, -90, 56.789, -56.789, 56.95, 45, rng.uniform(-90, 90), rng.randint(-90, 90))) + eps
        lat = float(max(-90, min(90, lat)))
        eps = rng.choice((0, 0, 1, -1)) * 10 ** rng.uniform(-14, 0)
        lon = rng.choice((0, 180, -180, 90, -90, rng.uniform(-180, 180), rng.randint(-180, 180))) + eps
        lon = float(max(-180, min(180, lon)))
        ctx.case("point", lat=lat, lon=lon, h=height(rng), a=a, f=f)
    for _ in range(ctx.n(300)):
        a, f = datum(rng)
        ctx.case("pole", sign=rng.choice((1, -1)), h=height(rng), a=a, f=f)
    for _ in range(ctx.n(100)):
        ctx.case("integers", lat=rng.randint(-90, 90), lon=rng.randint(-180, 180), h=rng.randint(-10000, 100000))


special2 = special


def octants(ctx):
    rng = ctx.rng
    for _ in range(ctx.n(400)):
        a, f = datum(rng)
        ctx.case("octant", lat=rng.choice((rng.uniform(0.001, 89.999), rng.randint(1, 89))),
                 lon=rng.choice((rng.uniform(0.001, 89.999), rng.randint(1, 89), 90.0)), h=height(rng), a=a, f=f)


def core(ctx):
    rng = ctx.rng
    for p in ((0, 0, 0), (0.0, 0.0, 99999.999), (0.0, -99999.999, 0.0), (-99999.0, 0.0, 0.0), (10000, 10000, 10000)):
        ctx.case("core", x=p[0], y=p[1], z=p[2], a=ELL["WGS84"][0], f=ELL["WGS84"][1])
    for _ in range(ctx.n(500)):
        a, f = datum(rng)
        r = rng.choice((rng.uniform(0, 99999.9), 99999.9, 10 ** rng.uniform(-300, 4.9)))
        v = [rng.gauss(0, 1) for _ in range(3)]
        n = math.hypot(*v)
        ctx.case("core", x=r * v[0] / n, y=r * v[1] / n, z=r * v[2] / n, a=a, f=f)
    for _ in range(ctx.n(300)):
        r = rng.choice((100001.0, rng.uniform(100001, 6e6), 10 ** rng.uniform(5.01, 7.5)))
        v = [rng.gauss(0, 1) for _ in range(3)]
        n = math.hypot(*v)
        ctx.case("outside", x=r * v[0] / n, y=r * v[1] / n, z=r * v[2] / n)
