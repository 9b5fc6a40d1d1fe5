import array
import collections
import io
import itertools
import math
import os
import random
from hypothesis import assume, strategies as st
from vlib import eps, projs
from vlib.engine import Budget, Facet, Scratch, Violation, fail, need
from coral import bbox, coord, frame, gradient, pf, proj, raster, rg, shapefile, stats, table, tqdm, vector

ASSUMPTIONS = ["numbers are int or float; points are tuples, lists, named tuples or arrays of two; sequences are lists, tuples or iterators",
               "where only one kind of argument is documented (inks, hashable sequences of coral.stats, whole pixel coordinates, counts), another may be refused"]

XY = collections.namedtuple("XY", "east north")


class N:
    def __init__(self, v):
        self.v = v

    def __repr__(self):
        return repr(self.v)


class Plain:
    def number(self, v):
        return v

    def point(self, *vs):
        return tuple(vs)

    def seq(self, vs):
        return list(vs)

    def again(self, vs):
        return list(vs)


class Other:
    "The same contents in other types; what has been used is noted."
    def __init__(self, seed, kinds):
        self.r = random.Random(seed)
        self.kinds = kinds
        self.used = set()

    def number(self, v):
        if "number" not in self.kinds or self.r.random() < .3:
            return v
        if isinstance(v, int):
            self.used.add("number")
            return float(v)
        if v == int(v):
            self.used.add("number")
            return int(v)
        return v

    def point(self, *vs):
        vs = [self.number(v) for v in vs]
        if "point" not in self.kinds:
            return tuple(vs)
        how = self.r.choice(["tuple", "list", "named", "array"] if len(vs) == 2 else ["tuple", "list", "array"])
        if how == "array" and any(isinstance(v, int) and abs(v) > 2 ** 50 for v in vs):
            how = "list"
        if how != "tuple":
            self.used.add("point")
        return {"tuple": tuple, "list": list, "named": lambda a: XY(*a), "array": lambda a: array.array("d", a)}[how](vs)

    def seq(self, vs):
        "A sequence that is gone through once."
        return self.some(vs, ["list", "tuple", "iter", "generator", "deque"])

    def again(self, vs):
        "A sequence that may be gone through more than once."
        return self.some(vs, ["list", "tuple", "tuple"])

    def some(self, vs, hows):
        vs = list(vs)
        if "seq" not in self.kinds:
            return vs
        how = self.r.choice(hows)
        if how != "list":
            self.used.add("seq")
        return {"list": list, "tuple": tuple, "iter": iter, "generator": lambda a: (v for v in a), "deque": collections.deque}[how](vs)


def norm(v):
    "Values without their types."
    if isinstance(v, bbox.BBox):
        return "box", v.x0, v.y0, v.x1, v.y1
    if isinstance(v, (list, tuple, array.array)):
        return tuple(norm(x) for x in v)
    return v


# Each operation takes the data and a maker of arguments (t), and returns what is compared.

def boxes(d, t):
    p, q, r, f = d
    a = bbox.BBox(t.seq(t.point(*x) for x in p))
    b = bbox.BBox(t.point(*q[0]), t.point(*q[1]))
    r2 = t.point(*r)
    n = t.number
    return [a, b, a | b, a & b, a.has_point(r2), a.collide(b), b in a, a.translate(n(r[0]), n(r[1])), a + t.point(*r), a - t.point(*r), a * n(f), a.scale(n(f)), a == b, a < b, a.area(), a.hypot(), a.center()] + ([a / n(f)] if f else [])


def sphere(d, t):
    a, b, h, dist, R = d
    n = t.number
    out = [coord.haversine(n(a[0]), n(a[1]), n(b[0]), n(b[1])), coord.bearing(n(a[0]), n(a[1]), n(b[0]), n(b[1])),
           coord.destination(n(a[0]), n(a[1]), n(h), n(dist)), coord.midpoint(n(a[0]), n(a[1]), n(b[0]), n(b[1])), coord.radiusat(n(a[1])),
           coord.bearing2cardinal(n(h)), coord.bearing2hours(n(h))]
    return out + [coord.haversine(n(a[0]), n(a[1]), n(b[0]), n(b[1]), n(R)), coord.destination(n(a[0]), n(a[1]), n(h), n(dist), n(R)),
                  coord.collinear(t.point(*a), t.point(*b), t.point(h, dist))]


def simplified(d, t):
    pts, scl, closed, k = d
    return list(coord.simplify(t.seq(t.point(*p) for p in pts), t.number(scl), closed=closed, k=k))


def centroid(d, t):
    return coord.geocentroid(t.again(t.again(t.point(*p) for p in ring) for ring in d))


def projected(d, t):
    (name, c, size), pts, mk = d
    if isinstance(size, tuple) or size is None:
        prj = projs.make((name, c and t.point(*c), size))
    else:
        prj = projs.make((name, c and t.point(*c), t.number(size)))
    out = []
    for p in pts:
        try:
            xy = prj.geo2rect(t.number(p[0]), t.number(p[1]))
            out += [xy, frame.Frame(prj, bbox.BBox((0, 0), (1, 1))).point(t.number(mk), t.point(*p))]
        except (proj.ProjectionError, ValueError, ZeroDivisionError, OverflowError) as e:
            out.append(type(e).__name__)
    for p in pts[:2]:
        try:
            out.append(prj.rect2geo(t.number(p[0] * 1000), t.number(p[1] * 1000)))
        except (proj.ProjectionError, ValueError, ZeroDivisionError, OverflowError) as e:
            out.append(type(e).__name__)
    return out


def framed(d, t):
    name, pts, scl, closed = d
    f = frame.Frame(projs.make((name, None, None)), bbox.BBox((0, 0), (1, 1)))
    return list(f.planify(t.number(scl), t.seq(t.point(*p) for p in pts), closed))


def coloured(d, t):
    stops, xs = d
    g = gradient.Gradient(t.seq(t.again([t.number(p), t.point(*c)]) for p, c in stops))
    return [(g.get(t.number(x)), g.get_hex(t.number(x))) for x in xs]


def stored(d, t):
    ents = d
    p = Scratch.path("data")
    w = rg.Writer(p, rg.GRow(rg.IVar("a", -500, 500), rg.FVar("x", -500, 500, 4), rg.SVar("s", 4, True)))
    for segs in ents:
        w.write(t.seq(t.seq(t.again([a, t.number(x), s]) for a, x, s in seg) for seg in segs))
    w.close()
    return [bytes_of(p + ".rg"), bytes_of(p + ".md")]


def bytes_of(p):
    with open(p, "rb") as f:
        return f.read()


def shored(d, t):
    ents, size = d
    p = Scratch.path("data.p")
    w = pf.Writer(p, size)
    for k, polys in enumerate(ents):
        w.write("e%d" % k, t.again(t.again(t.point(*q) for q in ring) for ring in polys))
    return [w.close(), bytes_of(p)]


def shaped(d, t):
    kind, ents = d
    w = shapefile.Writer(kind)
    w.field("A", "N", 12)
    w.field("B", "N", 12, 3)
    w.field("C", "C", 9)
    for parts, rec in ents:
        if kind == 1:
            w.point(t.number(parts[0][0][0]), t.number(parts[0][0][1]))
        elif kind == 3:
            w.line(t.again(t.again(t.point(*p) for p in part) for part in parts))
        else:
            w.poly(t.again(t.again(t.point(*p) for p in part) for part in parts))
        w.record(t.number(rec[0]), t.number(rec[1]), rec[2])
    fs = [io.BytesIO() for _ in range(3)]
    w.save(shp=fs[0], shx=fs[1], dbf=fs[2])
    b = [f.getvalue() for f in fs]
    rd = shapefile.Reader(shp=fs[0], dbf=fs[2])
    # 5.0 and 5 have one value, but not one text
    return [b[0], b[1], rd.records(), len(b[2])]


def drawn(d, t):
    calls, size = d
    c = vector.Canvas()
    n = t.number
    for k, p, pts, r, ink in calls:
        if k == "circle":
            c.addcircle(t.point(*p), n(r), fill=None if ink is None else n(ink), stroke=n(0))
        elif k == "poly":
            c.addpolygon(t.seq(t.point(*q) for q in pts), fill=None if ink is None else n(ink), stroke=n(.5))
        elif k == "line":
            c.addpolyline(t.seq(t.point(*q) for q in pts), stroke=n(1))
        elif k == "round":
            c.addroundedpolygon(t.seq(t.point(*q) for q in pts), n(r), fill=n(1))
        elif k == "text":
            c.addtext(t.point(*p), "text", n(r), "Courier", "c")
        elif k == "dash":
            c.setdash(t.again(n(v) for v in (r, 2)), n(1))
        elif k == "width":
            c.setwidth(n(r))
        elif k == "image":
            c.addimage(t.again([1, 2, 3, 4, 5, 6]), 3, t.point(*p), n(r))
    path = Scratch.path("c.eps")
    if calls and calls[-1][0] in ("dash", "width"):
        c.addcircle((0, 0), 1, stroke=0)
    c.save(path, None if size is None else n(size))
    return eps.read(path)[:2]


def pixels(d, t):
    w, h, calls, rings = d
    c = raster.GrayCanvas(w, h)
    for (x0, y0), (x1, y1), v in calls:
        c[t.again([x0 % w, y0 % h])] = v
        c.line(t.again([x0 % w, y0 % h]), t.again([x1 % w, y1 % h]), v)
        c.strokepolygon(t.again([t.again([x0 % w, y0 % h]), t.again([x1 % w, y1 % h]), t.again([0, h - 1])]), v)
    scans = None
    for r in rings:
        scans = c.scanpolygon(t.again(t.again([x % w, y % h]) for x, y in r), scans)
    if scans:
        c.fillpolygons(scans, 7)
    return bytes(c.data)


def measured(d, t):
    n = t.number
    a, b = d
    a, b = [tuple(n(v) for v in s) for s in (a, b)]
    fs = [stats.avg, stats.sum, stats.max, stats.min, stats.var, stats.std_dev, stats.len]
    stats.cache_clear()
    out = [f(a) for f in fs] + [stats.covar(a, b)]
    if stats.var(a) and stats.var(b):
        out.append(stats.corr(a, b))
    return out


def metered(d, t):
    k, desc, every = d
    f = io.StringIO()
    xs = t.seq(range(k))
    return list(tqdm.tqdm(xs, desc, total=k, file=f, mininterval=1e9, miniters=every)), f.getvalue().split("[")[0]


def tabled(d, t):
    names, rows = d
    T = collections.namedtuple("T", names)
    tab = t.again(T(*r[:len(names)]) for r in rows)
    out = [[tuple(r) for r in x] for x in (table.addkey(tab, "new", lambda r: r[0] + "!"), table.delkeys(tab, t.again(names[1:])), table.getall(tab, names[0], rows[0][0]))]
    out.append(sorted(table.indexby(tab, names[0]).items()))
    table.writefile(Scratch.path("t"), tab, t.again(names[:2]))
    out.append(bytes_of(Scratch.path("t")))
    out.append([tuple(r) for r in table.readfile(Scratch.path("t"), t.again(names[:1]))])
    return out


num = st.integers(-40, 40) | st.integers(-4000, 4000).map(lambda i: i / 100) | st.integers(-40, 40).map(float)
pos = st.integers(1, 40) | st.integers(1, 4000).map(lambda i: i / 100) | st.integers(1, 40).map(float)
pt = st.tuples(num, num)
geo = st.tuples(st.integers(-170, 170) | st.integers(-1700, 1700).map(lambda i: i / 10), st.integers(-80, 80) | st.integers(-800, 800).map(lambda i: i / 10))
pts = st.lists(pt, min_size=1, max_size=8)
small = st.integers(-90, 90) | st.integers(-90, 90).map(lambda i: i / 2)


@st.composite
def ring(draw):
    x, y = draw(st.integers(-150, 150)), draw(st.integers(-60, 60))
    a, b = draw(st.integers(1, 12)), draw(st.integers(1, 12))
    f = draw(st.sampled_from([int, float]))
    r = [(f(x), f(y)), (f(x + a), y), (x + a, f(y + b)), (f(x), y + b + draw(st.sampled_from([0, .5, 2])))]
    return r + [(x, y)] * draw(st.booleans())


rings = st.lists(ring(), min_size=1, max_size=3)
call = st.tuples(st.sampled_from(["circle", "poly", "line", "round", "text", "dash", "width", "image"]), st.tuples(num, num), st.lists(st.tuples(num, num), min_size=3, max_size=5), pos, st.none() | st.sampled_from([0, 1, .5, 0.0, 1.0]))
cell = st.tuples(st.integers(0, 20), st.integers(0, 20))
series = st.lists(num, min_size=2, max_size=6)

OPS = {
    # name: data, operation, kinds of variation that must be accepted
    "boxes": (st.tuples(pts, st.tuples(pt, pt), pt, num.map(abs)), boxes, "number point seq"),
    "sphere": (st.tuples(geo, geo, st.integers(0, 359) | st.integers(0, 359).map(float), st.integers(0, 10 ** 6), st.sampled_from([6371000, 1.0, 3])), sphere, "number point"),
    "simplified": (st.tuples(st.lists(st.tuples(num, num), max_size=20), st.sampled_from([1, 2, 5, .5, 3.0]), st.booleans(), st.sampled_from([2, 4, 8])), simplified, "number point seq"),
    "centroid": (rings, centroid, "number point seq"),
    "projected": (st.tuples(projs.config(), st.lists(geo, min_size=1, max_size=3), st.sampled_from([1, 1000, 2.5, 10.0])), projected, "number point"),
    "framed": (st.tuples(st.sampled_from(projs.SPHERE), st.lists(geo, min_size=1, max_size=10), st.sampled_from([1000, 50000.0, 10 ** 6]), st.booleans()), framed, "number point seq"),
    "coloured": (st.tuples(st.lists(st.tuples(st.sampled_from([0, 1, .25, .5, 0.0, 1.0, .75]), st.tuples(*[st.sampled_from([0, 1, 0.0, 1.0, .5])] * 3)), min_size=1, max_size=4, unique_by=lambda s: s[0]),
                           st.lists(st.sampled_from([0, 1, 0.0, 1.0, .25, .4, .5]), min_size=1, max_size=4)), coloured, "number point seq"),
    "stored": (st.lists(st.lists(st.lists(st.tuples(st.integers(-500, 500), num, st.none() | st.sampled_from(["", "ab", "é"])), max_size=4), max_size=3), min_size=1, max_size=3), stored, "number seq"),
    "shored": (st.tuples(st.lists(rings, min_size=1, max_size=3), st.sampled_from([1, 2, 4, 8])), shored, "number point seq"),
    "shaped": (st.tuples(st.sampled_from([1, 3, 5]), st.lists(st.tuples(rings, st.tuples(st.integers(-99, 99), num, st.sampled_from(["x", "é"]))), min_size=1, max_size=3)), shaped, "number point seq"),
    "drawn": (st.tuples(st.lists(call, min_size=1, max_size=6), st.none() | st.sampled_from([100, 200.0])), drawn, "number point seq"),
    "pixels": (st.tuples(st.integers(2, 15), st.integers(2, 15), st.lists(st.tuples(cell, cell, st.integers(0, 255)), max_size=4), st.lists(st.lists(cell, min_size=3, max_size=5), max_size=2)), pixels, "seq"),
    "measured": (series.flatmap(lambda a: st.tuples(st.just(a), st.lists(num, min_size=len(a), max_size=len(a)))), measured, "number"),
    "metered": (st.tuples(st.integers(0, 20), st.sampled_from(["", "x"]), st.integers(1, 3)), metered, "seq"),
    "tabled": (st.lists(st.sampled_from(["a", "b", "c"]), min_size=1, max_size=3, unique=True).flatmap(lambda n: st.tuples(st.just(n), st.lists(st.tuples(*[st.sampled_from(["x", "y", "zé", ""])] * 3).map(lambda r: ("k" + r[0],) + r[1:]), min_size=1, max_size=5))), tabled, "seq"),
}


def outcome(func, d, t):
    try:
        return norm(func(d, t))
    except (Violation, Budget):
        raise
    except Exception as e:
        return "raised " + type(e).__name__


def same(case):
    name, d, seed = case
    _, func, kinds = OPS[name]
    want = outcome(func, d, Plain())
    for k in range(3):
        t = Other(seed * 3 + k, kinds.split() if k != 1 else ["number"] if "number" in kinds else kinds.split())
        got = outcome(func, d, t)
        need(got == want, "{} of equal arguments of other types ({}) gives {}, otherwise {}", name, sorted(t.used), got, want)
    if isinstance(want, str):
        return False
    return name if t.used else False


FACETS = [
    Facet("same", lambda: st.tuples(st.sampled_from(sorted(OPS)).flatmap(lambda k: st.tuples(st.just(k), OPS[k][0])), st.integers(0, 10 ** 6)).map(lambda t: t[0] + t[1:]), same,
          "fifteen families of operations with whole floats for ints and vice versa, lists, named tuples and arrays for points, tuples, iterators and deques for lists; performed, with at least one change of type", 4000, weight=2),
]
