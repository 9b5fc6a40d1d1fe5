import math
from hypothesis import strategies as st
from vlib.engine import Facet, close, need, num, pt
from vlib import gen
from coral.bbox import BBox

ASSUMPTIONS = ["corners are normalised (x0 <= x1, y0 <= y1)"]


def tup(b):
    return num(b.x0), num(b.y0), num(b.x1), num(b.y1)


def mk(c):
    return BBox(c[0], c[1])


def flat(c):
    return tuple(c[0]) + tuple(c[1])


def area(c):
    return (c[1][0] - c[0][0]) * (c[1][1] - c[0][1])


def equality(case):
    ca, cb = case
    a, b = mk(ca), mk(cb)
    same = flat(ca) == flat(cb)
    need(bool(a == b) == same and bool(b == a) == same, "{} == {} is {}", ca, cb, a == b)
    need(bool(a != b) == (not same), "{} != {} is {}", ca, cb, a != b)
    twin = BBox(tuple(map(float, ca[0])), tuple(map(float, ca[1])))
    need(a == twin and a == a.copy() and hash(a) == hash(twin) == hash(a.copy()), "equal boxes differ in == or hash")
    if same:
        need(hash(a) == hash(b), "equal boxes hash differently")
    need(len({a, b, twin}) == (1 if same else 2), "set of {} and {}", ca, cb)
    sa, sb = area(ca), area(cb)
    if abs(sa - sb) > 1e-9 * (abs(sa) + abs(sb)) or all(float(v).is_integer() for v in flat(ca) + flat(cb)):
        need(bool(a < b) == (sa < sb) and bool(b < a) == (sb < sa), "{} < {}", ca, cb)
        need(bool(a > b) == (sa > sb) and bool(b > a) == (sb > sa), "{} > {}", ca, cb)
        need(bool(a <= b) == (not a > b) and bool(a >= b) == (not a < b), "{} <= or >= {} does not go with < or >", ca, cb)
        if sa != sb:
            need(bool(a <= b) == (sa < sb) and bool(a >= b) == (sa > sb), "{} <= or >= {}", ca, cb)
            need(min(a, b) is (a if sa < sb else b) and sorted([a, b])[1] is (b if sa < sb else a), "sorting by area")
        elif same:
            need(a <= b and a >= b, "equal boxes are both <= and >=")
    need(tup(a) == flat(ca) and tup(b) == flat(cb), "comparison changed a box")
    return "equal" if same else "same area" if sa == sb else "other"


def near(case):
    "Boxes differing in one coordinate, or with coordinates exchanged."
    c, i, d, perm = case
    f = list(flat(c))
    g = f[:]
    if perm:
        g = [f[j] for j in perm]
    else:
        g[i] += d
    a = BBox(tuple(f[:2]), tuple(f[2:]))
    b = BBox(tuple(g[:2]), tuple(g[2:]))
    need(bool(a == b) == (f == g), "{} == {} is {}", f, g, a == b)
    return "permuted" if perm else "moved"


def membership(case):
    c, other = case
    a = mk(c)
    x0, y0, x1, y1 = flat(c)
    xs = {x0, x1, (x0 + x1) / 2, x0 - 1, x1 + 1, other[0][0], other[1][0]}
    ys = {y0, y1, (y0 + y1) / 2, y0 - 1, y1 + 1, other[0][1], other[1][1]}

    for v, far in ((x0, -math.inf), (x1, -math.inf), (x1, math.inf)):
        xs.add(math.nextafter(v, far))

    def inside(p):
        return x0 <= p[0] < x1 and y0 <= p[1] < y1
    for x in sorted(xs):
        for y in sorted(ys):
            p = (x, y)
            need(bool(a.has_point(p)) == inside(p), "{}.has_point({}) is {}", c, p, a.has_point(p))
            need((p in a) == inside(p), "{} in {}", p, c)
    b = mk(other)
    want = inside(other[0]) and inside(other[1])
    need(bool(a.has_bbox(b)) == want, "{}.has_bbox({}) is {}", c, other, a.has_bbox(b))
    need((b in a) == want, "{} in {} is {}", other, c, b in a)
    need(tup(a) == flat(c) and tup(b) == flat(other), "membership changed a box")
    return "inside" if want else "outside"


def move(case):
    c, (dx, dy) = case
    a = mk(c)
    f = flat(c)
    want = (f[0] + dx, f[1] + dy, f[2] + dx, f[3] + dy)
    t = 1e-12 * (1 + max(map(abs, f + (dx, dy))))
    exact = all(isinstance(v, int) for v in f + (dx, dy))
    for name, r in (("translate", a.translate(dx, dy)), ("+", a + (dx, dy)), ("+ list", a + [dx, dy]),
                    ("- minus", a - (-dx, -dy))):
        for u, v in zip(tup(r), want):
            close(u, v, 0 if exact else t, name)
    back = (a + (dx, dy)) - (dx, dy)
    for u, v in zip(tup(back), f):
        close(u, v, 0 if exact else 2 * t, "translate and back")
    for u, v in zip(tup(a - (dx, dy)), (f[0] - dx, f[1] - dy, f[2] - dx, f[3] - dy)):
        close(u, v, 0 if exact else t, "-")
    need(tup(a) == f, "translation changed its operand")
    return False if dx == dy == 0 else None


def scale(case):
    c, k = case
    a = mk(c)
    f = flat(c)
    t = 1e-11 * (1 + max(map(abs, f))) * max(k, 1)
    cx, cy = (f[0] + f[2]) / 2, (f[1] + f[3]) / 2
    w, h = f[2] - f[0], f[3] - f[1]

    def like(r, s, name):
        s_t = 1e-11 * (1 + max(map(abs, f))) * max(s, 1)
        x, y = pt(r.center())
        close(x, cx, s_t, name + " centre")
        close(y, cy, s_t, name + " centre")
        close(r.width(), w * s, s_t, name + " width")
        close(r.height(), h * s, s_t, name + " height")
        x0, y0, x1, y1 = tup(r)
        close(x0, cx - w * s / 2, s_t, name)
        close(x1, cx + w * s / 2, s_t, name)
        close(y0, cy - h * s / 2, s_t, name)
        close(y1, cy + h * s / 2, s_t, name)
    like(a.scale(k), k, "scale")
    like(a * k, k, "*")
    like(a / k, 1 / k, "/")
    need(tup(a) == f, "scaling changed its operand")
    return False if k == 1 or w == h == 0 else None


FACETS = [
    Facet("equality", gen.boxpair, equality, "pairs of boxes with shared coordinates; labelled equal / same area / other", 6000),
    Facet("neighbours", lambda: st.tuples(gen.corners(), st.integers(0, 3), st.sampled_from([-2, -1, 1, 2, .5, 1e-3]),
                                          st.one_of(st.none(), st.permutations(range(4)))), near,
          "boxes differing in one coordinate or by permuted coordinates", 5000),
    Facet("membership", gen.boxpair, membership, "every corner and midpoint coordinate of both boxes, combined", 4000),
    Facet("translate", lambda: st.tuples(gen.corners(), gen.xy()), move, "non-zero vectors", 4000),
    Facet("scale", lambda: st.tuples(gen.corners(), st.one_of(st.integers(1, 9), st.integers(1, 5000).map(lambda i: i / 500))),
          scale, "factors 0.002..10 other than 1 on non-empty boxes", 4000),
]
