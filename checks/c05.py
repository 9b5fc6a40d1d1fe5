import math
from hypothesis import assume, strategies as st
from vlib.engine import Facet, close, fail, need, num, pt
from vlib import gen, sphere as S
from coral import coord

ASSUMPTIONS = ["starts within 0.01 degrees of a pole are excluded, as bearings are undefined there",
               "bearings are counter-clockwise: west is 90"]
A, F = 6378137, 1 / 298.257223563


def radius(lat):
    a, b = A, A * (1 - F)
    la = math.radians(lat)
    c, s = a * math.cos(la), b * math.sin(la)
    return math.sqrt(((a * c) ** 2 + (b * s) ** 2) / (c * c + s * s))


start = st.tuples(gen.lon, st.integers(-89, 89) | st.floats(-89.99, 89.99) | st.sampled_from([-89.99, 0, 89.99]))
bearings = st.integers(-8, 16).map(lambda i: i * 22.5) | st.floats(-720, 720, allow_nan=False) | st.integers(-400, 800)
RAD = st.none() | st.sampled_from([1, 1000, 6371000.0])


def tol(lat1, lat2):
    cs, cd = math.cos(math.radians(lat1)), max(math.cos(math.radians(lat2)), 1e-9)
    return min(1e-7, 1e-11 + 1e-14 / (cs * cd))


def destination(case):
    (lon, lat), b, ang, r = case
    rr = radius(lat) if r is None else r
    got = pt(coord.destination(lon, lat, b, ang * rr) if r is None else coord.destination(lon, lat, b, ang * rr, r))
    need(-180 - 1e-9 <= got[0] <= 180 + 1e-9, "longitude {} out of range", got[0])
    need(abs(got[1]) <= 90 + 1e-9, "latitude {} out of range", got[1])
    want = S.travel(lon, lat, b, ang)
    e = S.dist(S.vec(*got), want)
    need(e <= tol(lat, S.geo(want)[1]) + (1e-9 if r is None else 0), "destination of {} is {}, off by {}", case, got, e)
    return False if ang == 0 else "far" if ang > 1.6 else "near"


def inverse(case):
    p, q, r = case
    u, v = S.vec(*p), S.vec(*q)
    c = S.angle(u, v)
    assume(1e-6 < c < 3.13)
    b = num(coord.bearing(*p, *q))
    # direction of the great circle at p
    n, e = S.frame(*p)
    want = math.degrees(math.atan2(-S.dot(e, v), S.dot(n, v)))
    need(abs(S.angdiff(b, want)) <= 1e-9 + 1e-11 / math.sin(c), "bearing {} {} is {}, expected {}", p, q, b, want)
    rr = radius(p[1]) if r is None else r
    d = coord.haversine(*p, *q, rr)
    got = pt(coord.destination(*p, b, d) if r is None else coord.destination(*p, b, d, r))
    err = S.dist(S.vec(*got), v)
    need(err <= 2e-7, "bearing and distance from {} lead to {} instead of {}, off by {}", p, got, q, err)
    return "default radius" if r is None else None


def midpoint(case):
    p, q = case
    u, v = S.vec(*p), S.vec(*q)
    c = S.angle(u, v)
    assume(c < 3.13)
    m = pt(coord.midpoint(*p, *q))
    need(abs(m[1]) <= 90 + 1e-9, "latitude {}", m[1])
    w = S.vec(*m)
    want = S.unit(S.add(u, v))
    need(S.dist(w, want) <= 1e-12 / math.cos(c / 2) + 3e-8 * (abs(want[2]) > .9999), "midpoint of {} {} is {}, expected {}", p, q, m, S.geo(want))
    a, b = S.angle(u, w), S.angle(w, v)
    need(abs(a - c / 2) < 1e-6 and abs(b - c / 2) < 1e-6, "midpoint of {} {} is at {} and {}", p, q, a, b)
    k = pt(coord.midpoint(*q, *p))
    need(S.dist(S.vec(*k), w) <= 1e-7, "midpoint is not symmetric for {} {}", p, q)
    return False if p == q else None


NAMES = "N NNW NW WNW W WSW SW SSW S SSE SE ESE E ENE NE NNE".split()


def compass(b):
    got = coord.bearing2cardinal(b)
    if got not in NAMES:
        fail("unknown compass point {!r}", got)
    off = abs(S.angdiff(NAMES.index(got) * 22.5, b))
    need(off <= 11.25 + 1e-9, "{} named {}, {} degrees off", b, got, off)
    h = num(coord.bearing2hours(b))
    need(-1e-9 <= h <= 12 + 1e-9, "clock hour {}", h)
    close(((h - (12 - b / 30)) + 6) % 12 - 6, 0, 1e-8, "clock hour of {}".format(b))
    return got


FACETS = [
    Facet("destination", lambda: st.tuples(start, bearings, st.floats(0, 3.14) | st.floats(-3.14, 0) | st.sampled_from([0, 1e-9, 1e-5, .01, math.pi / 2, 3.0]), RAD), destination,
          "starts up to 0.01 degrees from the poles, bearings of several turns, distances up to half the circumference, ahead or back", 6000, weight=2),
    Facet("inverse", lambda: st.tuples(start, gen.geo, RAD), inverse, "pairs neither coinciding nor nearly antipodal", 6000, weight=2),
    Facet("midpoint", lambda: st.tuples(gen.geo, gen.geo), midpoint, "non-antipodal pairs, poles included", 5000),
    Facet("compass", lambda: bearings | st.integers(-1000, 1000).map(lambda i: i * 11.25) |
          st.tuples(st.integers(-40, 40), st.sampled_from([-1e-6, 1e-6, .01, -.01])).map(lambda t: 11.25 * t[0] + t[1]), compass,
          "bearings of several turns, on and around every boundary between compass points", 6000),
]
