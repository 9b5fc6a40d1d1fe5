import math
from hypothesis import strategies as st
from vlib.engine import Facet, close, need, num
from vlib import gen, sphere as S
from coral import coord, proj

ASSUMPTIONS = ["haversine's rounding error near antipodes (below 6e-8 radians) is accepted"]

A, F = 6378137, 1 / 298.257223563
EARTH = (A, A * (1 - F))


def tolerance(c):
    return 1e-13 + min(6e-8, 4e-15 / max(math.sin(c), 1e-12)) + 1e-15 * c


def near_pairs():
    def build(t):
        (lon, lat), kind, d = t
        if kind == "antipode":
            return (lon, lat), (lon + 180 + d[0], -lat + (d[1] if abs(lat + d[1]) < 90 and abs(-lat + d[1]) <= 90 else 0))
        if kind == "close":
            return (lon, lat), (lon + d[0], max(-90, min(90, lat + d[1])))
        return (lon, lat), (lon, -lat)
    small = st.sampled_from([0, 0, 1e-9, 1e-6, -1e-6, 1e-3, -.5, 2.0])
    return st.tuples(gen.geo, st.sampled_from(["antipode", "close", "mirror"]), st.tuples(small, small)).map(build)


def geocentric(lat, a, b):
    la = math.radians(lat)
    n = a * a / math.sqrt((a * math.cos(la)) ** 2 + (b * math.sin(la)) ** 2)
    return math.hypot(n * math.cos(la), n * (b / a) ** 2 * math.sin(la))


def distance(case):
    (p, q), r, turn, shift = case
    c = S.angle(S.vec(*p), S.vec(*q))
    d = coord.haversine(*p, *q, r)
    t = tolerance(c) * r
    close(d, c * r, t, "distance {} {}".format(p, q))
    need(d >= 0, "negative distance")
    close(coord.haversine(*q, *p, r), d, t, "symmetry")
    close(coord.haversine(*p, *p, r), 0, 0, "distance to itself")
    t += 1e-12 * r + r * min(6e-8, 2e-13 / max(math.sin(c), 1e-9))  # whole turns cost digits of longitude
    close(coord.haversine(p[0] + 360 * turn, p[1], *q, R=r), d, t, "whole turns")
    close(coord.haversine(p[0] + shift, p[1], q[0] + shift, q[1], R=r), d, t, "common shift")
    # default radius
    dd = coord.haversine(*p, *q)
    rr = geocentric((p[1] + q[1]) / 2, *EARTH)
    close(dd, c * rr, (tolerance(c) + 1e-12) * rr, "distance with default radius")
    return "antipodal" if c > 3.14 else "near" if c < .01 else "general"


def antipodes(case):
    (lon, lat), r, s = case
    close(coord.haversine(lon, lat, lon + 180 * s, -lat, r), math.pi * r, 7e-8 * r, "antipodes of {}".format((lon, lat)))


def triangle(case):
    p, q, s, r = case
    ab, bc, ac = coord.haversine(*p, *q, r), coord.haversine(*q, *s, r), coord.haversine(*p, *s, r)
    need(num(ac) <= num(ab) + num(bc) + 2e-7 * r, "triangle inequality {} {} {}", p, q, s)
    return False if p == q or q == s or p == s else None


def radius(case):
    lat, ell = case
    if ell is None:
        a, b = EARTH
        got = coord.radiusat(lat)
    else:
        a, f = ell
        b = a * (1 - f)
        got = coord.radiusat(lat, proj.Ellipsoid(a, b, math.sqrt(2 * f - f * f), f))
    close(got, geocentric(lat, a, b), 1e-11 * a, "radius at {}".format(lat))
    need(b * (1 - 1e-14) <= got <= a * (1 + 1e-14), "radius {} outside {}..{}", got, b, a)
    return "default" if ell is None else "given"


R = st.sampled_from([1, 1000, 6371000.0]) | st.integers(1, 10 ** 9).map(lambda i: i / 100)
FACETS = [
    Facet("distance", lambda: st.tuples(st.tuples(gen.geo, gen.geo) | near_pairs(), R, st.integers(-3, 3), st.integers(-720, 720)),
          distance, "pairs of points anywhere, a half of them near, antipodal or mirrored", 9000, weight=3),
    Facet("antipodes", lambda: st.tuples(gen.geo, R, st.sampled_from([-1, 1, 3])), antipodes, "every point and its antipode", 4000),
    Facet("triangle", lambda: st.tuples(gen.geo, gen.geo, gen.geo, R), triangle, "triples of distinct points", 4000),
    Facet("radius", lambda: st.tuples(gen.lat, st.none() | st.tuples(st.sampled_from([1, 6378137, 3396190.0]) | st.integers(1, 10 ** 7),
                                                                      st.integers(0, 300).map(lambda i: i / 1000))), radius,
          "latitudes with WGS84 or an ellipsoid of flattening 0..0.3", 4000),
]
