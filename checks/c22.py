import math
from hypothesis import assume, strategies as st
from vlib import gen
from vlib.engine import Facet, fail, need
from coral import raster

ASSUMPTIONS = ["vertices are integer grid points of the canvas, its right and lower border included",
               "pixels whose sample point is within half a pixel (horizontally) of an edge may go either way",
               "rings that cross themselves are judged only where the winding and the even-odd rule agree"]

W, H = 22, 18
LW, LH = 150, 70


def crossings(rings, y):
    "Sorted x of the edges at row y with their direction."
    out = []
    for r in rings:
        for (x0, y0), (x1, y1) in zip(r, r[1:] + r[:1]):
            if y0 == y1:
                continue
            d = 1
            if y0 > y1:
                x0, y0, x1, y1, d = x1, y1, x0, y0, -1
            if y0 <= y < y1:
                out.append((x0 + (x1 - x0) * (y - y0) / (y1 - y0), d))
    return sorted(out)


def paint(kind, rings, w=W, h=H):
    if kind == "bw":
        c = raster.BWCanvas(w, h)
        ink = 1
    elif kind == "gray":
        c = raster.GrayCanvas(w, h)
        ink = 77
    else:
        c = raster.ColorCanvas(w, h)
        ink = (1, 2, 3)
    before = {}
    for y in range(h):
        for x in range(w):
            if kind == "gray":
                c[x, y] = 100 + (x * 7 + y * 13) % 100
            elif kind == "color":
                c[x, y] = (100 + x % 150, 100 + y % 150, 50)
            elif kind == "bw":
                c[x, y] = 0
            before[x, y] = c[x, y]
    scans = None
    for r in rings:
        scans = c.scanpolygon(list(r), scans) if scans is not None else c.scanpolygon(list(r))
    c.fillpolygons(scans, ink)
    return [[c[x, y] for x in range(w)] for y in range(h)], before, ink


def judge(kind, rings, strict, w=W, h=H):
    got, before, ink = paint(kind, rings, w, h)
    inside = 0
    for y in range(h):
        cr = crossings(rings, y)
        for x in range(w):
            g = got[y][x]
            need(g == ink or g == before[x, y], "pixel {} gets colour {}", (x, y), g)
            if any(abs(cx - x) <= .5 + 1e-6 for cx, _ in cr):
                continue
            wind = sum(d for cx, d in cr if cx < x)
            if not strict and wind and wind % 2 == 0:
                continue
            inside += bool(wind)
            need((g == ink) == bool(wind), "{}: pixel {} is {}, winding number {}", rings, (x, y), "filled" if g == ink else "left out", wind)
    return got, inside


def orient(r):
    return sum(a[0] * b[1] - b[0] * a[1] for a, b in zip(r, r[1:] + r[:1]))


@st.composite
def star(draw, cx, cy, rx, ry):
    "Simple ring around a centre (angles sorted), clipped to the canvas by construction."
    n = draw(st.integers(3, 9))
    ang = sorted(draw(st.lists(st.integers(0, 71), min_size=n, max_size=n, unique=True)))
    pts = []
    for a in ang:
        f = draw(st.sampled_from([1, 1, .8, .5, .3]))
        p = (round(cx + rx * f * math.cos(a * math.pi / 36)), round(cy + ry * f * math.sin(a * math.pi / 36)))
        pts.append((max(0, min(W, p[0])), max(0, min(H, p[1]))))
    return pts


def rect(x0, y0, x1, y1):
    return [(x0, y0), (x1, y0), (x1, y1), (x0, y1)]


@st.composite
def scene(draw):
    kind = draw(st.sampled_from(["bw", "gray", "color"]))
    rings = []
    how = draw(st.sampled_from(["holes", "several", "shared", "shared", "nested"]))
    if how == "several":
        for _ in range(draw(st.integers(1, 4))):
            cx, cy = draw(st.integers(0, W)), draw(st.integers(0, H))
            rings.append(draw(star(cx, cy, draw(st.integers(2, 12)), draw(st.integers(2, 10)))))
        rings = [r if orient(r) >= 0 else r[::-1] for r in rings]
    elif how == "shared":
        # a grid of triangles and quadrilaterals sharing edges
        xs = sorted(draw(st.lists(st.integers(0, W), min_size=2, max_size=4, unique=True)))
        ys = sorted(draw(st.lists(st.integers(0, H), min_size=2, max_size=3, unique=True)))
        for x0, x1 in zip(xs, xs[1:]):
            for y0, y1 in zip(ys, ys[1:]):
                k = draw(st.integers(0, 3))
                q = rect(x0, y0, x1, y1)
                if k == 0:
                    rings.append(q)
                elif k == 1:
                    rings += [[q[0], q[1], q[2]], [q[0], q[2], q[3]]]
                elif k == 2:
                    rings += [[q[0], q[1], q[3]]]
    elif how == "holes":
        x0, y0 = draw(st.integers(0, 4)), draw(st.integers(0, 3))
        x1, y1 = draw(st.integers(15, W)), draw(st.integers(12, H))
        rings.append(rect(x0, y0, x1, y1))
        for i in range(draw(st.integers(1, 2))):
            a = x0 + 1 + 5 * i
            hole = draw(st.lists(st.tuples(st.integers(a, a + 4), st.integers(y0 + 1, y1 - 1)), min_size=3, max_size=3, unique=True))
            if orient(hole) > 0:
                hole = hole[::-1]
            rings.append(hole)
    else:
        m = 0
        while m < 8:
            r = rect(m, m, W - m, H - m)
            rings.append(r if len(rings) % 2 == 0 else r[::-1])
            m += draw(st.integers(1, 4))
    # a ring may be given in either overall sense and from any vertex
    if draw(st.booleans()):
        rings = [r[::-1] for r in rings]
    rot = [draw(st.integers(0, 20)) for _ in rings]
    rings = [r[k % len(r):] + r[:k % len(r)] for r, k in zip(rings, rot)]
    return kind, how, rings, draw(st.permutations(range(len(rings)))), draw(st.integers(0, 20))


def fill(case):
    kind, how, rings, order, k = case
    if not rings:
        return False
    got, inside = judge(kind, rings, True)
    other = [rings[i] for i in order]
    other = [r[(k + i) % len(r):] + r[:(k + i) % len(r)] for i, r in enumerate(other)]
    again, _, _ = paint(kind, other)
    need(got == again, "{} and {} (same rings in another order, from other vertices) fill differently", rings, other)
    return how if inside else False


def wild(case):
    kind, rings, k = case
    got, inside = judge(kind, rings, False)
    again, _, _ = paint(kind, [r[k % len(r):] + r[:k % len(r)] for r in rings[::-1]])
    need(got == again, "another starting vertex or order of {} fills differently", rings)
    return None if inside else False


vertex = st.tuples(st.integers(0, W), st.integers(0, H))
@st.composite
def crowd(draw):
    "Large canvas: a comb, a grid with holes, or a star of many vertices."
    kind = draw(st.sampled_from(["bw", "gray", "color"]))
    how = draw(st.sampled_from(["comb", "cells", "star"]))
    r = draw(gen.seeds)
    rings = []
    if how == "comb":
        ring, x = [], r.randint(0, 3)
        top, base = r.randint(0, 10), r.randint(50, LH)
        ring.append((x, base))
        while x + 6 < LW:
            y = r.randint(top, base - 20)
            ring += [(x, y), (x + 3, y + r.randint(-3, 3) if y > 3 else y), (x + 3, base - r.randint(2, 15))]
            x += 5
            ring.append((x, ring[-1][1]))
        ring += [(x, base)]
        rings = [ring]
    elif how == "cells":
        m = r.randint(5, 12)
        for x in range(0, LW - m, m):
            for y in range(0, LH - m, m):
                q = rect(x, y, x + m, y + m)
                k = r.randrange(5)
                if k == 0:
                    rings.append(q)
                elif k == 1:
                    rings += [[q[0], q[1], q[2]], [q[0], q[2], q[3]]]
                elif k == 2:
                    rings += [q, [(x + 1, y + 1), (x + 1, y + m - 1), (x + m - 1, y + m - 1)]]
    else:
        n = r.randint(20, 300)
        ring = []
        for i in range(n):
            f = r.uniform(.3, 1)
            ring.append((max(0, min(LW, round(LW / 2 + LW / 2 * f * math.cos(i * 2 * math.pi / n)))), max(0, min(LH, round(LH / 2 + LH / 2 * f * math.sin(i * 2 * math.pi / n))))))
        rings = [ring]
    if draw(st.booleans()):
        rings = [q[::-1] for q in rings]
    return kind, rings, draw(st.integers(0, 20))


def many(case):
    kind, rings, k = case
    if not rings:
        return False
    # Rounded stars may cross themselves.
    got, inside = judge(kind, rings, False, LW, LH)
    again, _, _ = paint(kind, [q[k % len(q):] + q[:k % len(q)] for q in rings[::-1]], LW, LH)
    need(got == again, "another starting vertex or order of {} rings fills differently", len(rings))
    return kind if inside else False


@st.composite
def mesh(draw):
    "A rectangle divided into triangles, in several groups."
    n, m = draw(st.integers(1, 3)), draw(st.integers(1, 3))
    s = draw(st.integers(4, 7))
    x0, y0 = draw(st.integers(0, 3)), draw(st.integers(0, 3))
    j = st.integers(-1, 1)
    v = {}
    for a in range(n + 1):
        for b in range(m + 1):
            v[a, b] = x0 + a * s + (draw(j) if 0 < a < n else 0), y0 + b * s + (draw(j) if 0 < b < m else 0)
    tris = []
    for a in range(n):
        for b in range(m):
            q = [v[a, b], v[a + 1, b], v[a + 1, b + 1], v[a, b + 1]]
            k = draw(st.integers(0, 3))
            ts = [[q[0], q[1], q[2]], [q[0], q[2], q[3]]] if k & 1 else [[q[1], q[2], q[3]], [q[1], q[3], q[0]]]
            # each ring in either sense and from any vertex
            for t in ts:
                k = draw(st.integers(0, 5))
                t = t[::-1] if k & 1 else t
                tris.append((draw(st.integers(0, 2)), t[k // 2:] + t[:k // 2]))
    return (x0, y0, x0 + n * s, y0 + m * s), tris


def tiling(case):
    (x0, y0, x1, y1), tris = case
    w, h = x1 + 3, y1 + 3
    count = {}

    def add(rings, what):
        c = raster.BWCanvas(w, h)
        scans = None
        for r in rings:
            scans = c.scanpolygon(r, scans)
        c.fillpolygons(scans, 1)
        for y in range(h):
            for x in range(w):
                if c[x, y]:
                    need((x, y) not in count, "pixel {} is filled by {} and by {}", (x, y), count.get((x, y)), what)
                    count[x, y] = what
    for g in sorted({g for g, _ in tris}):
        for _, t in [x for x in tris if x[0] == g][:99 if g else 0]:
            add([t], t)
    # the first group is filled in one go, in one sense
    one = [t if orient(t) > 0 else t[::-1] for g, t in tris if g == 0]
    if one:
        add(one, one)
    for y in range(h):
        for x in range(w):
            need(((x, y) in count) == (x0 <= x < x1 and y0 <= y < y1), "pixel {} of the mesh {} is {}", (x, y), tris, "filled" if (x, y) in count else "left out")
    return "%d triangles" % (len(tris) // 6 * 6)


def sized(case):
    "Canvases of every width, and very wide or high ones."
    kind, (w, h), rings = case
    return kind if judge(kind, [list(r) for r in rings], False, w, h)[1] else False


@st.composite
def canvas(draw):
    w, h = draw(st.tuples(st.integers(1, 70), st.integers(1, 16)) | st.tuples(st.integers(200, 900), st.integers(2, 9)) | st.tuples(st.integers(1, 9), st.integers(200, 900)))
    at = st.tuples(st.sampled_from([0, w]) | st.integers(0, w), st.sampled_from([0, h]) | st.integers(0, h))
    return draw(st.sampled_from(["bw", "gray", "color"])), (w, h), draw(st.lists(st.lists(at, min_size=3, max_size=6), min_size=1, max_size=2))


FACETS = [
    Facet("sizes", canvas, sized, "canvases 1..900 wide and high with 1..2 arbitrary rings reaching the borders; some pixel clearly inside", 500, budget=30000000),
    Facet("tiling", mesh, tiling, "rectangles divided into 2..18 triangles, filled one by one or several at once; every case", 500),
    Facet("fill", scene, fill, "1..6 rings: with holes, overlapping, sharing edges, nested, touching the borders; some pixel clearly inside", 1500, weight=2),
    Facet("wild", lambda: st.tuples(st.sampled_from(["bw", "gray", "color"]), st.lists(st.lists(vertex, min_size=1, max_size=7), min_size=1, max_size=2), st.integers(0, 9)), wild,
          "1..2 arbitrary rings, possibly crossing themselves; some pixel clearly inside", 1500),
    Facet("crowd", crowd, many, "combs, hundreds of adjoining rings with holes and stars of up to 300 vertices on a 150 x 70 canvas; some pixel clearly inside", 40),
]
