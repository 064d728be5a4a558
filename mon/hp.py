"""High-precision (about 40 digits) trigonometry for the geometry oracles.

Angles are given in degrees and reduced exactly before anything is rounded, so
whole turns and quadrant boundaries are exact.
"""

from decimal import Decimal as D, getcontext

getcontext().prec = 45


def _pi():
    # Machin: 16 atan(1/5) - 4 atan(1/239)
    def atan_inv(n):
        x = D(1) / n
        s, t, k, n2 = x, x, 1, n * n
        while abs(t) > D(10) ** -50:
            t = -t / n2
            k += 2
            s += t / k
        return s

    return 16 * atan_inv(5) - 4 * atan_inv(239)


PI = _pi()
RAD = PI / 180


def _sin(x):  # |x| <= pi/4
    s = t = x
    k, x2 = 1, x * x
    while abs(t) > D(10) ** -46:
        k += 2
        t = -t * x2 / (k * (k - 1))
        s += t
        if not t:
            break
    return s


def _cos(x):
    s = t = D(1)
    k, x2 = 0, x * x
    while abs(t) > D(10) ** -46:
        k += 2
        t = -t * x2 / (k * (k - 1))
        s += t
        if not t:
            break
    return s


def sincos(deg):
    """(sin, cos) of an angle in degrees (float or Decimal taken exactly)."""
    d = D(deg) % 360  # exact at this precision for |deg| < 1e20
    if d < 0:
        d += 360
    q, r = divmod(d + 45, 90)
    r -= 45
    s, c = _sin(r * RAD), _cos(r * RAD)
    return ((s, c), (c, -s), (-s, -c), (-c, s))[int(q) % 4]


def atan2(y, x):
    """Angle in radians of (x, y) given as Decimals, to about 30 digits."""
    import math

    if not x and not y:
        return D(0)
    m = max(abs(x), abs(y))
    fy, fx = float(y / m), float(x / m)
    a = D(math.atan2(fy, fx))
    for _ in range(2):  # Newton: angle += sin(true - angle)
        s, c = sincos(a / RAD)
        h = (x * x + y * y).sqrt()
        a += (y * c - x * s) / h
    return a


def unit(lat, lon):
    """Direction of a latitude and longitude on the sphere (or an ellipsoid's normal)."""
    (sp, cp), (sl, cl) = sincos(lat), sincos(lon)
    return cp * cl, cp * sl, sp


def central(lat1, lon1, lat2, lon2):
    """Angle between two directions in radians."""
    u, v = unit(lat1, lon1), unit(lat2, lon2)
    d = sum(a * b for a, b in zip(u, v))
    c = (u[1] * v[2] - u[2] * v[1], u[2] * v[0] - u[0] * v[2], u[0] * v[1] - u[1] * v[0])
    return atan2(sum(a * a for a in c).sqrt(), d)


def azimuth(lat1, lon1, lat2, lon2):
    """Initial great-circle azimuth in degrees [0, 360), and its conditioning.

    The direction to the second point is resolved along the local north and east
    unit vectors at the first; the second value is the length of that horizontal
    component, which is small when the azimuth is ill-determined.
    """
    (s1, c1), (sl, cl) = sincos(lat1), sincos(lon1)
    north = (-s1 * cl, -s1 * sl, c1)
    east = (-sl, cl, D(0))
    v = unit(lat2, lon2)
    n = sum(a * b for a, b in zip(north, v))
    e = sum(a * b for a, b in zip(east, v))
    return (atan2(e, n) / RAD) % 360, (n * n + e * e).sqrt()


def ecef(lat, lon, h, a, invf):
    """Point at height h along the normal: foot on the ellipsoid plus h times normal."""
    n = unit(lat, lon)
    a = D(a)
    b = a * (1 - 1 / D(invf))
    k = (a * a * (n[0] * n[0] + n[1] * n[1]) + b * b * n[2] * n[2]).sqrt()
    h = D(h)
    return a * a * n[0] / k + h * n[0], a * a * n[1] / k + h * n[1], b * b * n[2] / k + h * n[2]
