import math
import os
from hypothesis import assume, strategies as st
from vlib.engine import Facet, Scratch, close, fail, need, num, pt
from vlib import gen, projs
from coral import bbox, coord, frame, pf

ASSUMPTIONS = ["points within 2 degrees of a projection's singular points are excluded",
               "names have no line breaks; the names of one data set are distinct",
               "polygons whose projected box is degenerate are kept only when clearly inside or outside the frame"]


def mkframe(cfg, b=(0, 0, 1, 1)):
    return frame.Frame(projs.make(cfg), bbox.BBox((b[0], b[1]), (b[2], b[3])))


scales = st.sampled_from([1, 10, 1000, 12345.678, 50000, .5, 1e6]) | st.integers(1, 10 ** 6) | st.integers(1, 10 ** 6).map(lambda i: i / 7)


def floor_ok(got, x, s, what):
    q = x / s
    e = 1e-9 * (1 + abs(q))
    need(num(got, what) == math.floor(got), "{} is not whole: {}", what, got)
    need(got <= q + e and got > q - 1 - e, "{}: {} / {} = {} gives {}", what, x, s, q, got)


def point(case):
    (cfg, p), s = case
    assume(projs.margin(cfg, p) >= 2)
    fr = mkframe(cfg)
    x, y = projs.fwd(projs.make(cfg), p)
    got = pt(fr.point(s, p))
    floor_ok(got[0], x, s, "x of {} in {}".format(p, cfg))
    floor_ok(got[1], y, s, "y of {} in {}".format(p, cfg))
    need(pt(fr.point(s, list(p))) == got, "the answer changes")
    return cfg[0] if (x < 0 or y < 0) else None


def ring(case):
    cfg, centre, rel, s, closed, repeat = case
    prj = projs.make(cfg)
    pts = [(centre[0] + dx, max(-88, min(88, centre[1] + dy))) for dx, dy in rel]
    assume(all(projs.margin(cfg, p) >= 2 for p in pts))
    if repeat:
        pts.append(pts[0])
    fr = mkframe(cfg)
    want = [tuple(q) for q in coord.simplify([projs.fwd(prj, p) for p in pts], s, closed=closed is not False)]
    args = {} if closed is None else {"closed": closed}
    for src in (pts, tuple(pts), iter(pts), (p for p in pts)):
        got = [pt(q) for q in fr.planify(s, src, **args)]
        need(got == want, "{}: {} flattens to {}, its projection simplifies to {}", cfg, pts, got, want)
    return ("closed " if closed in (None, True) else "open ") + ("big" if len(want) > 3 else "small") if len(want) > 1 else False


class Store:
    def __init__(self, entities):
        self.names = [n for n, _ in entities]
        self._d = dict(entities)

    def get(self, name):
        return self._d[name]

    def __len__(self):
        return len(self.names)


def boxof(prj, poly):
    q = [projs.fwd(prj, p) for p in poly]
    return min(a for a, _ in q), min(b for _, b in q), max(a for a, _ in q), max(b for _, b in q)


names = st.text("abcXYZ 0129_-.,;/\t'\"", min_size=1, max_size=8) | st.text(st.characters(min_codepoint=32, max_codepoint=126), min_size=1, max_size=12)
off = st.integers(-40, 40).map(lambda i: i / 4)


@st.composite
def world(draw):
    cfg = draw(projs.config())
    c = projs.origin(cfg) if cfg[0] != "ConicEqualArea" else (0, 0)
    anchor = draw(st.sampled_from([(c[0] + 20, 10), (c[0], 0), (c[0] - 40, -30), (c[0] + 5, 45)]))
    ents = []
    for name in draw(st.lists(names, min_size=1, max_size=6, unique=True)):
        polys = []
        for _ in range(draw(st.integers(0, 3))):
            ox, oy = draw(off), draw(off)
            ps = [(anchor[0] + 2 * ox + dx / 4, anchor[1] + 2 * oy + dy / 4)
                  for dx, dy in draw(st.lists(st.tuples(off, off), min_size=3, max_size=5))]
            polys.append(ps)
        ents.append((name, polys))
    how = draw(st.sampled_from(["touch", "around", "around", "inside", "cell", "far"]))
    return cfg, ents, how, draw(st.integers(0, 30)), draw(st.integers(0, 3)), draw(st.integers(1, 40).map(lambda i: i / 8)), draw(st.booleans())


def cache(case):
    cfg, ents, how, pick, side, grow, old = case
    prj = projs.make(cfg)
    polys = [p for _, ps in ents for p in ps]
    assume(all(abs(q[1]) < 88 and projs.margin(cfg, q) >= 2 for p in polys for q in p))
    boxes = [boxof(prj, p) for p in polys]
    r = projs.radius(cfg)
    if boxes:
        b = boxes[pick % len(boxes)]
        w, h = max(b[2] - b[0], r * 1e-3), max(b[3] - b[1], r * 1e-3)
        if how == "touch":
            b = [(b[2], b[1], b[2] + w * grow, b[3] + h), (b[0] - w * grow, b[1] - h, b[0], b[3]),
                 (b[0], b[3], b[2] + w, b[3] + h * grow), (b[0] - w, b[1] - h * grow, b[2], b[1])][side]
        elif how == "around":
            b = (b[0] - w * grow, b[1] - h * grow, b[2] + w * grow, b[3] + h * grow)
        elif how == "inside":
            b = (b[0] + w * .3, b[1] + h * .3, b[0] + w * .6, b[1] + h * .6)
        elif how == "cell":
            b = (b[0] + w / 2, b[1] + h / 2, b[2] + w * grow, b[3] + h * grow)
        else:
            b = (b[0] + 20 * r, b[1], b[2] + 21 * r, b[3] + r)
    else:
        b = (0, 0, r, r)
    assume(b[0] < b[2] and b[1] < b[3])

    def hits(x):
        return x[0] < b[2] and b[0] < x[2] and x[1] < b[3] and b[1] < x[3]
    for x in boxes:
        if x[0] == x[2] or x[1] == x[3]:
            e = 1e-6 * r
            inside = b[0] + e < x[0] and x[2] < b[2] - e and b[1] + e < x[1] and x[3] < b[3] - e
            assume(not inside and (x[2] < b[0] - e or b[2] + e < x[0] or x[3] < b[1] - e or b[3] + e < x[1]))
    want = [n for n, ps in ents if any(hits(boxof(prj, p)) for p in ps)]
    d = Scratch.fresh()
    key = os.path.join(d, "k")
    fr = mkframe(cfg, b)
    if old:
        # a longer list of the same key, and one of another frame
        mkframe(cfg, (-1e12, -1e12, 1e12, 1e12)).cachenames(key, Store([("old%d" % i, [[(projs.origin(cfg)[0] + 1, 1), (2, 3), (5, 1)]]) for i in range(20)] if cfg[0] not in ("TransMercator", "ObliqMercator") and cfg[0] not in projs.AZIMUTHAL else ents))
        fr.cachenames(os.path.join(d, "other"), Store(ents[:1]))
    n = fr.cachenames(key, Store(ents))
    need(n == len(want), "{} names reported, {} entities are visible: {}", n, len(want), want)
    got = list(fr.loadnames(key))
    need(got == want, "cached names {!r}, visible entities {!r}", got, want)
    need(list(mkframe(cfg, (0, 0, 1, 1)).loadnames(key)) == want, "another frame loads another list")
    need(fr.cachenames(key, Store(ents)) == n and list(fr.loadnames(key)) == want, "caching again gives another list")
    if not boxes:
        return False
    return "none" if not want else "all" if len(want) == len(ents) else "some"



@st.composite
def crowd(draw):
    n, m = draw(st.sampled_from([1, 17, 65, 130, 260])), draw(st.sampled_from([1, 4, 9, 40]))
    r = draw(gen.seeds)
    ents = []
    for i in range(n if m < 40 else min(n, 17)):
        polys = []
        for _ in range(r.choice([0, 1, m, m])):
            x, y = r.randint(-160, 150), r.randint(-70, 60)
            polys.append([(x, y), (x + 4, y), (x + 4, y + 4 + r.random()), (x, y + 4)])
        ents.append(("n%d" % i, polys))
    cfg = draw(projs.config(["Mercator", "EckertIV"]))
    cfg = (cfg[0], (0, 0), cfg[2])
    return cfg, ents, draw(st.sampled_from(["touch", "around", "inside", "cell"])), draw(st.integers(0, 1000)), draw(st.integers(0, 3)), draw(st.integers(1, 40).map(lambda i: i / 8)), False


FACETS = [
    Facet("crowd", crowd, cache, "up to 260 entities of up to 40 polygons", 60, budget=60000000),
    Facet("point", lambda: st.tuples(projs.with_point(), scales), point, "all projections; labelled when a coordinate is negative", 5000),
    Facet("planify", lambda: st.tuples(projs.config(), st.tuples(st.integers(-170, 170), st.integers(-75, 75)),
                                       st.lists(st.tuples(off, off), min_size=0, max_size=14) | st.lists(st.tuples(st.integers(0, 3), st.integers(0, 3)), min_size=1, max_size=14), scales,
                                       st.sampled_from([None, True, False]), st.booleans()).filter(lambda t: t[2]), ring,
          "rings and lines of 1..15 vertices; more than one point left", 4000),
    Facet("cache", world, cache, "1..6 entities of 0..3 polygons against frames touching, containing, inside or beside a polygon", 3000, weight=2),
]
