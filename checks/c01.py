import math
from hypothesis import strategies as st
from vlib.engine import Facet, Violation, close, fail, need, num
from vlib import gen
from coral.bbox import BBox

ASSUMPTIONS = ["corners are normalised (x0 <= x1, y0 <= y1)",
               "the degenerate box at (0, 0)-(0, 0) is the default box, hence the union's identity"]


def tup(b):
    return num(b.x0), num(b.y0), num(b.x1), num(b.y1)


def mk(c):
    return BBox(c[0], c[1])


def flat(c):
    return c[0] + c[1]


def tol(c):
    return 1e-12 * (1 + max(map(abs, flat(c))))


def hull(case):
    points, how = case
    want = (min(p[0] for p in points), min(p[1] for p in points),
            max(p[0] for p in points), max(p[1] for p in points))
    src = {"list": list, "tuple": tuple, "iter": iter, "lists": lambda ps: [list(p) for p in ps],
           "gen": lambda ps: (p for p in ps)}[how](points)
    b = BBox(src)
    need(tup(b) == want, "BBox of {} is {}, expected {}", points, tup(b), want)
    measures(b, want)
    return how + ("/one" if len(set(points)) == 1 else "/line" if want[0] == want[2] or want[1] == want[3] else "/area")


def measures(b, want):
    x0, y0, x1, y1 = want
    t = 1e-12 * (1 + max(map(abs, want)))
    close(b.width(), x1 - x0, t, "width")
    close(b.height(), y1 - y0, t, "height")
    close(b.area(), (x1 - x0) * (y1 - y0), 1e-12 + 1e-12 * abs((x1 - x0) * (y1 - y0)) + t * (x1 - x0 + y1 - y0), "area")
    close(b.hypot(), ((x1 - x0) ** 2 + (y1 - y0) ** 2) ** .5, 1e-9 * (1 + x1 - x0 + y1 - y0), "hypot")
    cx, cy = b.center()
    close(cx, (x0 + x1) / 2, t, "centre x")
    close(cy, (y0 + y1) / 2, t, "centre y")
    need(tup(b) == want, "measuring changed the box")


def corner_box(c):
    b = mk(c)
    need(tup(b) == flat(c), "BBox{} has corners {}", c, tup(b))
    measures(b, flat(c))
    k = b.copy()
    need(tup(k) == flat(c), "copy has corners {}", tup(k))
    d = BBox()
    need(tup(d) == (0, 0, 0, 0), "default box is {}", tup(d))


def union(case):
    ca, cb = case
    a, b = mk(ca), mk(cb)
    fa, fb = flat(ca), flat(cb)
    r = a | b
    if fa == (0, 0, 0, 0):
        want = fb
    elif fb == (0, 0, 0, 0):
        want = fa
    else:
        want = (min(fa[0], fb[0]), min(fa[1], fb[1]), max(fa[2], fb[2]), max(fa[3], fb[3]))
    need(tup(r) == want, "{} | {} is {}, expected {}", ca, cb, tup(r), want)
    need(tup(a) == fa and tup(b) == fb, "union changed an operand")
    need(tup(b | a) == want, "union is not symmetric")
    need(tup(a | BBox()) == fa and tup(BBox() | a) == fa, "default box is not the identity of the union")
    need(tup(a) == fa and tup(b) == fb, "union changed an operand")
    keep = a
    a |= b
    need(tup(a) == want and tup(keep) == fa, "|= gives {}, operand {}", tup(a), tup(keep))
    da = fa[0] == fa[2] or fa[1] == fa[3]
    db = fb[0] == fb[2] or fb[1] == fb[3]
    return "degenerate" if da or db else "areas"


def inter(case):
    ca, cb = case
    a, b = mk(ca), mk(cb)
    fa, fb = flat(ca), flat(cb)
    x0, y0 = max(fa[0], fb[0]), max(fa[1], fb[1])
    x1, y1 = min(fa[2], fb[2]), min(fa[3], fb[3])
    overlap = x0 < x1 and y0 < y1
    want = (x0, y0, x1, y1) if overlap else (0, 0, 0, 0)
    for p, q in ((a, b), (b, a)):
        r = p & q
        need(tup(r) == want, "{} & {} is {}, expected {}", tup(p), tup(q), tup(r), want)
        need(bool(r) == overlap, "truth of the intersection")
        need((r.area() > 0) == overlap, "area of the intersection")
    pos = fa[0] < fa[2] and fa[1] < fa[3] and fb[0] < fb[2] and fb[1] < fb[3]
    if pos:
        need(bool(a.collide(b)) == overlap and bool(b.collide(a)) == overlap,
             "collide of {} and {} is {}/{}, overlap {}", ca, cb, a.collide(b), b.collide(a), overlap)
        # pointwise, at and around every corner coordinate
        xs = sorted({fa[0], fa[2], fb[0], fb[2], (x0 + x1) / 2})
        ys = sorted({fa[1], fa[3], fb[1], fb[3], (y0 + y1) / 2})
        r = a & b
        for x in xs:
            for y in ys:
                need(bool(r.has_point((x, y))) == bool(a.has_point((x, y)) and b.has_point((x, y))),
                     "point {} in the intersection of {} and {}", (x, y), ca, cb)
    for p, q, fp, fq in ((a, b, fa, fb), (b, a, fb, fa)):
        # one without extent in some direction is taken as a line or a point
        if fq[0] < fq[2] and fq[1] < fq[3] and fp[0] <= fp[2] and fp[1] <= fp[3]:
            ok = True
            for u, v in ((0, 2), (1, 3)):
                if fp[u] == fp[v]:
                    ok = ok and fq[u] <= fp[u] < fq[v]
                else:
                    ok = ok and fp[u] < fq[v] and fq[u] < fp[v]
            need(bool(p.collide(q)) == ok and bool(q.collide(p)) == ok, "collide of {} and {} is {}/{}, expected {}", fp, fq, p.collide(q), q.collide(p), ok)
    need(tup(a) == fa and tup(b) == fb, "an operand was changed")
    touch = (x0 == x1 or y0 == y1)
    return ("overlap" if overlap else "touch" if touch else "apart") if pos else False


@st.composite
def crowd(draw):
    n, r = draw(gen.sizes), draw(gen.seeds)
    w, h = draw(st.sampled_from([1, 50, 10 ** 6])), draw(st.sampled_from([1, 50, 10 ** 6]))
    k = draw(st.sampled_from([1, 8]))
    pts = [(r.randint(-w, w) / k, r.randint(-h, h) / k) for _ in range(n)]
    # extremes at chosen places
    for q in [(w + 1, 0), (-w - 1, h + 2), (0, -h - 1), (0, h + 3)]:
        pts[draw(st.sampled_from([0, 1, n // 2, n - 2, n - 1]))] = q
    return pts, draw(st.sampled_from(["list", "iter", "gen"]))


# Neighbours: numbers that differ in the last bits only.
@st.composite
def close_by(draw):
    v = draw(st.sampled_from([1.0, -1.0, .1, -2.5, 1e6, -123456.789, 3e-3, 1e15]))
    for _ in range(draw(st.integers(0, 3))):
        v = math.nextafter(v, draw(st.sampled_from([math.inf, -math.inf])))
    return v


def tight(points):
    want = (min(p[0] for p in points), min(p[1] for p in points), max(p[0] for p in points), max(p[1] for p in points))
    for src in (points, points[::-1]):
        b = BBox(src)
        need(tup(b) == want, "BBox of {} is {}, expected {}", src, tup(b), want)
    parts = None
    for p in points:
        parts = BBox([p]) | parts
    need(tup(parts) == want, "boxes of single points {} join to {}, expected {}", points, tup(parts), want)
    return len({p[0] for p in points}) > 1


def raw(b):
    return b.x0, b.y0, b.x1, b.y1


def unbounded(case):
    "Half planes, strips and the whole plane."
    ca, cb = case
    a, b, fa, fb = mk(ca), mk(cb), flat(ca), flat(cb)
    x0, y0, x1, y1 = max(fa[0], fb[0]), max(fa[1], fb[1]), min(fa[2], fb[2]), min(fa[3], fb[3])
    want = (x0, y0, x1, y1) if x0 < x1 and y0 < y1 else (0, 0, 0, 0)
    need(raw(a & b) == want and raw(b & a) == want, "{} & {} is {}/{}, expected {}", ca, cb, raw(a & b), raw(b & a), want)
    need(bool(a.collide(b)) == bool(b.collide(a)) == (want != (0, 0, 0, 0)), "collide of {} and {}", ca, cb)
    want = (min(fa[0], fb[0]), min(fa[1], fb[1]), max(fa[2], fb[2]), max(fa[3], fb[3]))
    need(raw(a | b) == want and raw(b | a) == want, "{} | {} is {}/{}, expected {}", ca, cb, raw(a | b), raw(b | a), want)
    return any(map(math.isinf, fa + fb))


side = st.tuples(st.integers(-4, 4) | st.just(-math.inf), st.integers(1, 5), st.booleans()).map(lambda t: (t[0], math.inf if t[2] else max(t[0], -4) + t[1]))
wide = st.tuples(side, side).map(lambda t: ((t[0][0], t[1][0]), (t[0][1], t[1][1])))

FACETS = [
    Facet("close", lambda: st.lists(st.tuples(close_by(), close_by()), min_size=1, max_size=8), tight, "1..8 points whose coordinates differ in the last bits; not all x alike", 1500, weight=.5),
    Facet("unbounded", lambda: st.tuples(wide, wide), unbounded, "boxes of positive extent with infinite corners", 1500, weight=.5),
    Facet("crowd", crowd, hull, "16..513 points with the extremes at chosen places", 200),
    Facet("hull", lambda: st.tuples(st.lists(gen.xy(), min_size=1, max_size=12) | st.lists(gen.xy(gen.small), min_size=1, max_size=8),
                                    st.sampled_from(["list", "tuple", "iter", "gen", "lists"])), hull,
          "1..12 points, small lattice or reals, given as list, tuple, iterator or generator; all non-trivial", 6000),
    Facet("corners", lambda: gen.corners(), corner_box, "normalised corner pairs", 3000, weight=.5),
    Facet("union", gen.boxpair, union, "pairs of boxes sharing coordinates, nested, touching, degenerate", 6000),
    Facet("intersection", gen.boxpair, inter, "as union; non-trivial when both boxes have area", 8000),
]
