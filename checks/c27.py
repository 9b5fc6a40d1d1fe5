import io
import math
from fractions import Fraction
from hypothesis import strategies as st
from vlib import shp as SP
from vlib import gen
from vlib.engine import Facet, fail, need
from coral import shapefile

ASSUMPTIONS = ["rings are closed and have at least 4 points, as the format demands; null shapes and multipatches have no GeoJSON view",
               "a ring of zero area is a hole; a ring whose area is within rounding of zero is not judged"]

NAMES = {"point": "Point", "multi": "MultiPoint"}
whole = st.integers(-50, 50)
coarse = whole | st.integers(-4000, 4000).map(lambda i: i / 4)
fine = st.integers(-10 ** 9, 10 ** 9).map(lambda i: i / 2 ** 20) | st.floats(-180, 180) | st.floats(-2e7, 2e7)


@st.composite
def ring(draw):
    num = draw(st.sampled_from([whole, coarse, fine]))
    k = draw(st.sampled_from(["free", "box", "tri", "flat"]))
    x, y = draw(num), draw(num)
    if k == "free":
        p = draw(st.lists(st.tuples(num, num), min_size=3, max_size=7))
    elif k == "box":
        w, h = draw(st.integers(1, 64)) / 4, draw(st.integers(1, 64)) / 4
        p = [(x, y), (x + w, y), (x + w, y + h), (x, y + h)]
    elif k == "tri":
        w, h = draw(st.integers(1, 64)) / 64, draw(st.integers(1, 64)) / 64
        p = [(x, y), (x + w, y), (x, y + h)]
    else:
        # no area: out and back
        p = [(x, y), (x + 1, y + 2), (x + 2, y + 4)]
    if draw(st.booleans()):
        p = p[::-1]
    r = draw(st.integers(0, len(p) - 1))
    p = p[r:] + p[:r]
    return [(float(a), float(b)) for a, b in p + p[:1]]


@st.composite
def line(draw):
    num = draw(st.sampled_from([whole, coarse, fine]))
    return [(float(a), float(b)) for a, b in draw(st.lists(st.tuples(num, num), min_size=1, max_size=6))]


@st.composite
def shape(draw, k):
    if k == "point":
        return [[draw(line())[0]]]
    if k == "multi":
        return [draw(line())]
    if k == "line":
        return draw(st.lists(line(), min_size=1, max_size=5))
    return draw(st.lists(ring(), min_size=1, max_size=5))


@st.composite
def dataset(draw):
    t = draw(st.sampled_from([1, 11, 21, 8, 18, 28, 3, 13, 23] + [5, 15, 25] * 4))
    return t, draw(st.lists(shape(SP.BASE[t]), min_size=1, max_size=4))


def area(p):
    "Exact signed area of a closed ring and the rounding error to allow for."
    q = [(Fraction(x), Fraction(y)) for x, y in p]
    x0, y0 = q[0]
    a = sum((ax - x0) * (by - y0) - (bx - x0) * (ay - y0) for (ax, ay), (bx, by) in zip(q, q[1:])) / 2
    m = max(max(abs(x), abs(y)) for x, y in q)
    d = max(max(abs(x - x0), abs(y - y0)) for x, y in q)
    if all((v * 4).denominator == 1 and abs(v) < 10 ** 6 for pt in q for v in pt):
        return a, Fraction(0)
    return a, (m + d) * (m + d) * len(q) / 2 ** 49


def signed(p):
    a, tol = area(p)
    if tol == 0:
        got = shapefile.signed_area(p)
        need(got == a, "ring {}: area {}, exactly {}", p, got, float(a))
        return "clockwise" if a < 0 else "counter-clockwise" if a > 0 else "no area"
    got = shapefile.signed_area(tuple(p))
    need(abs(Fraction(got) - a) <= tol, "ring {}: area {}, exactly {}", p, got, float(a))
    return "rounded"


def plain(x):
    return [plain(y) for y in x] if isinstance(x, (tuple, list)) else x


def view(case):
    t, shapes = case
    k = SP.BASE[t]
    gs = []
    for parts in shapes:
        flat = [p for q in parts for p in q]
        starts, n = [], 0
        for q in parts:
            starts.append(n)
            n += len(q)
        extra = [float(i) for i in range(len(flat))]
        gs.append(SP.Geo(t, flat, starts if k in ("line", "poly") else None, None,
                         extra if t in SP.HAS_Z else None, extra if t in SP.HAS_M else None))
    shp, shx = SP.encode(t, gs)
    r = shapefile.Reader(shp=io.BytesIO(shp), shx=io.BytesIO(shx))
    seen = r.shapes()
    need(len(seen) == len(shapes), "{} shapes, read {}", len(shapes), len(seen))
    label = NAMES.get(k, k)
    for parts, s in zip(shapes, seen):
        g = s.__geo_interface__
        need(isinstance(g, dict) and set(g) == {"type", "coordinates"}, "not a geometry: {}", g)
        kind, c = g["type"], plain(g["coordinates"])
        P = plain(parts)
        if k == "point":
            need(kind == "Point" and c == P[0][0], "point {} seen as {} {}", P[0][0], kind, c)
        elif k == "multi":
            need(kind == "MultiPoint" and c == P[0], "points {} seen as {} {}", P[0], kind, c)
        elif k == "line":
            want = ("LineString", P[0]) if len(P) == 1 else ("MultiLineString", P)
            need((kind, c) == want, "expected {}, got {} {}", want, kind, c)
            label = "MultiLineString" if len(P) > 1 else label
        else:
            if kind == "Polygon":
                c = [c]
                one = True
            else:
                need(kind == "MultiPolygon", "polygon seen as {}", kind)
                need(len(c) > 1, "a single polygon reported as MultiPolygon")
                one = False
            flat = [x for poly in c for x in poly]
            need(flat == P, "rings {} seen as {}", P, flat)
            heads, n = set(), 0
            for poly in c:
                need(poly, "polygon without rings")
                heads.add(n)
                n += len(poly)
            for i, ring in enumerate(parts):
                a, tol = area(ring)
                if i == 0:
                    continue
                if a < -tol:
                    need(i in heads, "clockwise ring {} of {} does not start a polygon: {}", i, P, c)
                elif a > tol or tol == 0:
                    need(i not in heads, "counter-clockwise ring {} of {} starts a polygon: {}", i, P, c)
            if len(heads) > 1 and len(heads) < len(parts):
                label = "MultiPolygon with holes"
            elif len(heads) > 1 and "holes" not in label:
                label = "MultiPolygon"
            elif len(parts) > 1 and "Multi" not in label:
                label = "Polygon with holes"
        need([tuple(p) for p in s.points] == [p for q in parts for p in q], "the view changed the points of the shape")
        need(s.__geo_interface__ == g, "a second view differs")
    return label


def rring(r, n):
    "Star-shaped ring on a grid of quarters, or one without area."
    x, y = r.randint(-4000, 4000) / 4, r.randint(-4000, 4000) / 4
    if r.random() < .05:
        return [(x, y), (x + 1, y + 2), (x + 2, y + 4), (x, y)]
    d = [(math.cos(2 * math.pi * i / n), math.sin(2 * math.pi * i / n), r.randint(20, 60)) for i in range(n)]
    p = [(x + round(c * k * 4) / 4, y + round(s * k * 4) / 4) for c, s, k in d]
    if r.random() < .5:
        p.reverse()
    return p + p[:1]


@st.composite
def bulk(draw):
    r, t = draw(gen.seeds), draw(st.sampled_from([8, 3, 13, 5, 15, 25, 5, 15, 25]))
    n, np, k = draw(st.sampled_from([(2, 140, 8), (2, 3, 400), (60, 3, 8), (3, 20, 30)]))
    out = []
    for _ in range(gen.upto(r, n)):
        parts = [rring(r, r.choice([3, 4, gen.upto(r, k - 3) + 3])) for _ in range(gen.upto(r, np))]
        out.append(parts if t != 8 else parts[:1])
    return t, out


bigring = lambda: st.builds(lambda r, n: rring(r, n), gen.seeds, gen.sizes)


FACETS = [
    Facet("view", dataset, view,
          "files of 1..4 points, multipoints, polylines or polygons (plain, Z, M) with 1..5 parts of either orientation; every case has a shape", 3000, weight=2),
    Facet("area", ring, signed, "closed rings of 4..8 points, some without area, on exact grids and with free coordinates; every case", 3000),
    Facet("bulk", bulk, view, "shapes of up to 140 parts or 400 points; every case", 60, budget=60000000),
    Facet("bigarea", bigring, signed, "rings of 16..513 points; every case", 150, budget=60000000),
]
