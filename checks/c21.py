from fractions import Fraction as F
from hypothesis import assume, strategies as st
from vlib.engine import Facet, close, fail, need
from coral import raster

ASSUMPTIONS = ["end points are pixels of the canvas; those of anti-aliased lines may also lie between pixels, at least one from the border", "weights are compared to one level in 255"]

side = st.sampled_from([24, 24, 9, 17]) | st.integers(1, 40)
canvas = st.tuples(side, side)
large = st.one_of(st.tuples(st.integers(60, 600), st.integers(1, 30)), st.tuples(st.integers(1, 30), st.integers(60, 600)), st.tuples(st.integers(100, 160), st.integers(100, 160)))


def points(size):
    w, h = size
    return st.one_of(st.tuples(st.integers(0, w - 1), st.integers(0, h - 1)),
                     st.tuples(st.integers(0, min(7, w - 1)), st.integers(0, min(7, h - 1))),
                     st.tuples(st.sampled_from([0, w - 1, min(w - 1, 3)]), st.sampled_from([0, h - 1, min(h - 1, 5)])))


KINDS = {"bw": (raster.BWCanvas, 0, 1), "gray": (raster.GrayCanvas, 7, 200), "color": (raster.ColorCanvas, (1, 2, 3), (200, 100, 50))}


def changed(c, bg):
    return {(x, y): c[x, y] for y in range(c.height) for x in range(c.width) if c[x, y] != bg}


def steps(a, b):
    """-> [(pixel position along the longer axis, ideal position on the other)], pixel builder"""
    (x0, y0), (x1, y1) = a, b
    steep = abs(y1 - y0) > abs(x1 - x0)
    if steep:
        x0, y0, x1, y1 = y0, x0, y1, x1
    n = abs(x1 - x0)
    s = 1 if x1 > x0 else -1
    pos = [(x0 + s * i, F(y0) + (F(i * (y1 - y0), n) if n else 0)) for i in range(n + 1)]
    return pos, (lambda u, v: (v, u)) if steep else (lambda u, v: (u, v))


def plain(case):
    kind, (sw, sh), a, b = case
    cls, bg, ink = KINDS[kind]
    c = cls(sw, sh, bg)
    c.line(a, b, ink)
    got = changed(c, bg)
    need(all(v == ink for v in got.values()), "another colour: {}", got)
    pos, mk = steps(a, b)
    need(len(got) == len(pos), "line {} - {} has {} pixels for {} steps", a, b, len(got), len(pos))
    diag = abs(a[0] - b[0]) == abs(a[1] - b[1])
    last = None
    for u, v in pos:
        on = [w for w in range(int(v) - 2, int(v) + 4) if mk(u, w) in got]
        need(len(on) == 1, "line {} - {}: {} pixels at step {}", a, b, len(on), u)
        need(abs(on[0] - v) <= F(1, 2), "line {} - {}: pixel {} is {} away from the ideal line", a, b, mk(u, on[0]), float(abs(on[0] - v)))
        need(last is None or abs(on[0] - last) <= 1, "line {} - {} is interrupted at {}", a, b, mk(u, on[0]))
        last = on[0]
    need(a in got and b in got, "an end of {} - {} is missing", a, b)
    return "point" if a == b else "diagonal" if diag else "axis" if a[0] == b[0] or a[1] == b[1] else "slanted"


def smooth(case):
    kind, (sw, sh), a, b, bg, ink = case
    if kind == "gray":
        make = lambda: raster.GrayCanvas(sw, sh, bg)
        get = lambda v: v
        col = ink
    else:
        make = lambda: raster.ColorCanvas(sw, sh, (bg, 0, 9))
        get = lambda v: v[0]
        col = (ink, 0, 9)
    c, d = make(), make()
    c.aaline(a, b, col)
    d.aaline(b, a, col)
    pos, mk = steps(a, b)
    allowed = {}
    for u, v in pos:
        for w in range(int(v) - 1, int(v) + 3):
            if abs(w - v) < 1:
                allowed[mk(u, w)] = 1 - abs(w - v)
    ends = (a, b)
    for y in range(sh):
        for x in range(sw):
            g = c[x, y]
            if kind == "color":
                need(g[1:] == (0, 9), "channels are mixed up: {} at {}", g, (x, y))
            g = get(g)
            need(abs(g - get(d[x, y])) <= 1, "line {} - {}: pixel {} is {} when drawn the other way round, {} otherwise", a, b, (x, y), get(d[x, y]), g)
            if (x, y) not in allowed:
                need(g == bg, "line {} - {} touches pixel {}", a, b, (x, y))
            elif (x, y) not in ends:
                want = bg + (ink - bg) * allowed[x, y]
                need(abs(g - want) <= 1, "line {} - {}: pixel {} is {}, at a weight of {} it should be {}", a, b, (x, y), g, float(allowed[x, y]), float(want))
            else:
                need(min(bg, ink) <= g <= max(bg, ink) and (abs(ink - bg) < 8 or g != bg), "end {} of {} - {} is {}", (x, y), a, b, g)
    return "steep" if abs(a[1] - b[1]) > abs(a[0] - b[0]) else "flat" if len(pos) > 2 else False


def between(case):
    "Anti-aliased lines whose ends lie between pixels."
    kind, (sw, sh), a, b, bg, ink = case
    if kind == "gray":
        c, d, col = raster.GrayCanvas(sw, sh, bg), raster.GrayCanvas(sw, sh, bg), ink
        get = lambda v: v
    else:
        c, d, col = raster.ColorCanvas(sw, sh, (9, bg, 0)), raster.ColorCanvas(sw, sh, (9, bg, 0)), (9, ink, 0)
        get = lambda v: v[1]
    c.aaline(a, b, col)
    d.aaline(b, a, col)
    (x0, y0), (x1, y1) = [(F(x), F(y)) for x, y in (a, b)]
    steep = abs(y1 - y0) > abs(x1 - x0)
    mk = (lambda u, v: (v, u)) if steep else (lambda u, v: (u, v))
    if steep:
        x0, y0, x1, y1 = y0, x0, y1, x1
    if x0 > x1:
        x0, y0, x1, y1 = x1, y1, x0, y0
    slope = (y1 - y0) / (x1 - x0) if x1 != x0 else 0
    full, part = {}, {}
    for u in range(int(x0) - 1, int(x1) + 3):
        v = y0 + slope * (u - x0)
        for w in range(int(v) - 2, int(v) + 4):
            if abs(w - v) < 1 + 1e-9:
                if x0 + F(1, 2) < u < x1 - F(1, 2):
                    full[mk(u, w)] = 1 - abs(w - v)
                elif x0 - F(1, 2) <= u <= x1 + F(1, 2):
                    part[mk(u, w)] = 1 - abs(w - v)
    tiny = x1 - x0 < 1
    for y in range(sh):
        for x in range(sw):
            g, h = get(c[x, y]), get(d[x, y])
            need(abs(g - h) <= 1, "line {} - {}: pixel {} is {} when drawn the other way round, {} otherwise", a, b, (x, y), h, g)
            if (x, y) in full:
                want = bg + (ink - bg) * full[x, y]
                need(abs(g - want) <= 1, "line {} - {}: pixel {} is {}, at a weight of {} it should be {}", a, b, (x, y), g, float(full[x, y]), float(want))
            elif (x, y) in part:
                most = abs(ink - bg) * (1 if tiny else part[x, y]) + 1
                need(min(bg, ink) <= g <= max(bg, ink) and abs(g - bg) <= most, "line {} - {}: pixel {} at an end is {}, which is more than its weight of {}", a, b, (x, y), g, float(part[x, y]))
            else:
                need(g == bg, "line {} - {} touches pixel {}", a, b, (x, y))
    return False if len(full) < 2 else "steep" if steep else "flat"


def polygon(case):
    kind, (sw, sh), pts, aa = case
    if kind == "bw":
        aa = None if aa else False
    cls, bg, ink = KINDS[kind]
    if kind == "gray":
        bg, ink = 0, 255
    if kind == "color":
        bg, ink = (0, 0, 0), (255, 255, 255)
    c = cls(sw, sh, bg)
    args = {} if aa is None else {"aa": aa}
    c.strokepolygon(list(pts), ink, **args)
    smoothed = kind != "bw" if aa is None else aa
    got = changed(c, bg)
    near = set()
    for a, b in zip(pts, pts[1:] + pts[:1]):
        pos, mk = steps(a, b)
        for i, (u, v) in enumerate(pos):
            cells = [w for w in range(int(v) - 1, int(v) + 3) if abs(w - v) < 1 and min(mk(u, w)) >= 0 and mk(u, w)[0] < sw and mk(u, w)[1] < sh]
            if smoothed:
                near.update(mk(u, w) for w in cells)
                if 0 < i < len(pos) - 1:
                    for w in cells:
                        g = got.get(mk(u, w), bg)
                        g = g if kind == "gray" else g[0]
                        need(g >= 255 * (1 - abs(w - v)) - 1.01, "edge {} - {}: pixel {} is {}, its weight is {}", a, b, mk(u, w), g, float(1 - abs(w - v)))
            else:
                half = [w for w in cells if abs(w - v) <= F(1, 2)]
                near.update(mk(u, w) for w in half)
                need(any(got.get(mk(u, w)) == ink for w in half), "edge {} - {} is not drawn at {}", a, b, mk(u, half[0]))
    for p in got:
        need(p in near, "polygon {}: pixel {} is on no edge", pts, p)
    return kind + (" aa" if smoothed else "") if len(set(pts)) > 1 else False


level = st.sampled_from([0, 255, 100]) | st.integers(0, 255)
kinds = st.sampled_from(sorted(KINDS))


inner = st.tuples(st.integers(4, 30), st.integers(4, 30))


def spot(size):
    w, h = size
    coordinate = lambda n: st.one_of(st.integers(4, 4 * n - 8).map(lambda k: k / 4), st.floats(1, n - 2), st.integers(1, n - 2))
    return st.tuples(coordinate(w), coordinate(h))


def lines(size):
    return size.flatmap(lambda s: st.tuples(kinds, st.just(s), points(s), points(s)))


def smooths(size):
    return size.flatmap(lambda s: st.tuples(st.sampled_from(["gray", "color"]), st.just(s), points(s), points(s), level, level))


def polygons(size, most):
    return size.flatmap(lambda s: st.tuples(kinds, st.just(s), st.lists(points(s), min_size=1, max_size=most), st.sampled_from([None, True, False])))


FACETS = [
    Facet("plain", lambda: lines(canvas), plain, "pairs of pixels in canvases of up to 40 x 40, on borders, axes and diagonals", 2500),
    Facet("smooth", lambda: smooths(canvas), smooth, "as plain, anti-aliased with any two levels; more than two steps", 2000),
    Facet("between", lambda: inner.flatmap(lambda s: st.tuples(st.sampled_from(["gray", "color"]), st.just(s), spot(s), spot(s), level, level)), between,
          "anti-aliased lines whose ends lie between pixels; at least one step between the ends", 1200),
    Facet("polygon", lambda: polygons(canvas, 6), polygon, "strokes of 1..6 vertices on every kind of canvas, plain and anti-aliased", 2000),
    Facet("long", lambda: lines(large), plain, "lines in canvases of 60..600 pixels", 150),
    Facet("longsmooth", lambda: smooths(large), smooth, "as long, anti-aliased", 100),
    Facet("longpolygon", lambda: polygons(large, 20), polygon, "strokes of up to 20 vertices in large canvases", 100),
]
