import math
from hypothesis import assume, strategies as st
from vlib.engine import Facet, close, need, num, pt
from vlib import sphere as S
from coral import bbox, coord

ASSUMPTIONS = ["regions lie within 60 degrees of a point, longitudes are continuous across the date line",
               "polygons are at least a degree across; holes lie inside their outer ring and leave most of it"]


def laea(center, p):
    "Independent equal-area azimuthal projection (unit sphere)."
    n, e = S.frame(*center)
    c, v = S.vec(*center), S.vec(*p)
    k = math.sqrt(2 / (1 + S.dot(c, v)))
    return k * S.dot(v, e), k * S.dot(v, n)


def moments(center, region):
    sx = sy = sa = 0
    for poly in region:
        q = [laea(center, p) for p in poly]
        for (x0, y0), (x1, y1) in zip(q, q[1:] + q[:1]):
            f = x0 * y1 - x1 * y0
            sx += (x0 + x1) * f
            sy += (y0 + y1) * f
            sa += f
    return sx / (3 * sa), sy / (3 * sa), sa


def continuous(center, v):
    "lon/lat of v with the longitude within 180 of the centre's."
    lon, lat = S.geo(v)
    return center[0] + S.angdiff(lon, center[0]), lat


def rings(center, outer, spec):
    """Star-shaped ring of `spec` (bearing offsets, relative radii) around a point."""
    angs, rad = spec
    return [continuous(center, S.travel(center[0], center[1], a, r * outer)) for a, r in zip(angs, rad)]


ring = st.lists(st.tuples(st.integers(1, 40), st.integers(60, 100)), min_size=3, max_size=8).map(
    lambda l: (([sum(x[0] for x in l[:i]) * 360 / sum(x[0] for x in l) for i in range(len(l))]), [x[1] / 100 for x in l])
).filter(lambda r: max(b - a for a, b in zip(r[0], r[0][1:] + [360])) < 170)


def build(t):
    """Polygons around centres near a common point; each optionally with a hole."""
    (lon, lat), parts, flip = t
    region = []
    for (bearing, dist), size, spec, hole in parts:
        c = continuous((lon, lat), S.travel(lon, lat, bearing, math.radians(dist)))
        # keep disjoint parts out of the way: they are placed at distances of their own
        region.append(rings(c, math.radians(size), spec))
        if hole:
            hole_ring = rings(c, math.radians(size) * .35 * .6, hole)
            region.append(hole_ring[::-1])
    if flip:
        region = [p[::-1] for p in region]
    return region


centre = st.tuples(st.integers(-180, 180) | st.floats(-180, 180), st.integers(-85, 85) | st.floats(-90, 90) |
                   st.tuples(st.sampled_from([-1, 1]), st.integers(1, 12), st.integers(1, 9)).map(lambda t: t[0] * (90 - t[2] * 10.0 ** -t[1])))
part = lambda d0, d1, s: st.tuples(st.tuples(st.integers(0, 359), st.integers(d0, d1)), s, ring, st.none() | ring)
sizes = st.sampled_from([1, 3, 8, 15])
regions = st.tuples(centre, st.one_of(
    st.tuples(part(0, 0, st.sampled_from([1, 5, 20, 40, 55]))),
    st.tuples(part(0, 0, sizes), part(32, 40, sizes)),
    st.tuples(part(0, 0, st.sampled_from([3, 8])), part(20, 22, st.sampled_from([3, 8])), part(42, 50, st.sampled_from([3, 8])))),
    st.booleans()).map(build)


def jumps(region):
    "Longitudes of an edge must not wrap (a pole inside a ring is fine for the code, but keep it explicit)."
    return any(abs(a[0] - b[0]) > 180 for p in region for a, b in zip(p, p[1:] + p[:1]))


def balance(case):
    region, eps, given_box = case
    args = {}
    if given_box:
        args["bb"] = bbox.BBox([p for poly in region for p in poly])
    if eps is not None:
        args["epsilon"] = eps
    before = repr(region)
    c = pt(coord.geocentroid(region, **args))
    need(repr(region) == before, "the region was changed")
    need(abs(c[1]) <= 90 + 1e-9, "latitude {}", c[1])
    x, y, a = moments(c, region)
    off = math.hypot(x, y)
    need(off <= math.radians(3 * (eps or 1e-10)) + 1e-11, "centre of area is {} radians off the centroid {}", off, c)
    return ("polar" if jumps(region) else "date line" if any(abs(p[0]) > 180 for q in region for p in q) else "plain") + (
        "/holes" if any(moments(c, [q])[2] * a < 0 for q in region) else "") + ("/parts" if len(region) > 1 else "")


def variants(case):
    region, shift, rot, perm = case
    c = pt(coord.geocentroid(region))
    v = S.vec(*c)
    # starting vertices
    r2 = [p[rot % len(p):] + p[:rot % len(p)] for p in region]
    need(S.dist(S.vec(*pt(coord.geocentroid(r2))), v) < 1e-8, "depends on the starting vertex")
    r3 = [region[(i + perm) % len(region)] for i in range(len(region))][::-1]
    need(S.dist(S.vec(*pt(coord.geocentroid(r3))), v) < 1e-8, "depends on the order of the polygons")
    r4 = [p[::-1] for p in region]
    need(S.dist(S.vec(*pt(coord.geocentroid(r4))), v) < 1e-8, "depends on the overall orientation")
    r5 = [[(lon + shift, lat) for lon, lat in p] for p in region]
    d = pt(coord.geocentroid(r5))
    need(S.dist(S.vec(c[0] + shift, c[1]), S.vec(*d)) < 1e-8, "shifting the region by {} moves the centroid from {} to {}", shift, c, d)
    if abs(c[1]) < 80 and not jumps(region) and not jumps(r5):
        close(d[0] - c[0], shift, 1e-6, "longitude shift")


def symmetric(case):
    "A ring and its image under a half turn about a point."
    (lon, lat), spec, size, closed = case
    angs, rad = spec
    half = [(a / 2, r) for a, r in zip(angs, rad)]
    pts = [continuous((lon, lat), S.travel(lon, lat, a, r * math.radians(size))) for a, r in half + [(a + 180, r) for a, r in half]]
    region = [pts]
    c = pt(coord.geocentroid(region))
    need(S.dist(S.vec(*c), S.vec(lon, lat)) < 1e-9, "region symmetric about {} has centroid {}", (lon, lat), c)


FACETS = [
    Facet("balance", lambda: st.tuples(regions, st.none() | st.sampled_from([1e-9, 1e-6, 1e-3]), st.booleans()), balance,
          "1..3 star-shaped parts with or without holes anywhere on the globe, poles and date line included", 3000, weight=2),
    Facet("variants", lambda: st.tuples(regions, st.integers(-170, 170), st.integers(0, 7), st.integers(0, 3)), variants,
          "as balance, rotated, reordered, reversed, shifted", 1200, weight=2),
    Facet("symmetric", lambda: st.tuples(centre, ring, st.sampled_from([1, 5, 20, 50]), st.booleans()), symmetric, "rings symmetric about a point", 1500),
]
