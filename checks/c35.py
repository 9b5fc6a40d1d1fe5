import math
import os
from hypothesis import assume, strategies as st
from vlib import eps, gen, projs
from vlib import shp as SP
from vlib.engine import Facet, Scratch, close, fail, need, pt
from checks import c07, c12, c16
from coral import bbox, coord, frame, pf, shapefile, vector

ASSUMPTIONS = ["shapes have distinct points over a positive range of longitude and latitude, away from the singular points of the projection",
               "entity names are distinct ASCII text; projected coordinates stay clear of rounding ties",
               "a frame does not end within rounding of a projected box"]

off = st.integers(-40, 40).map(lambda i: i / 4)


@st.composite
def part(draw, ax, ay):
    w = draw(st.sampled_from([0.01, 0.25, 1, 3]))
    ox, oy = draw(off), draw(off)
    k = draw(st.integers(0, 2))
    if k:
        n = draw(st.integers(3, 14))
        r = [draw(st.integers(2, 10)) for _ in range(n)]
        p = [(ax + ox + w * r[i] * math.cos(2 * math.pi * i / n), ay + oy / 2 + w * r[i] * math.sin(2 * math.pi * i / n)) for i in range(n)]
    else:
        p = [(ax + ox + w * draw(st.integers(-9, 9)), ay + oy / 2 + w * draw(st.integers(-9, 9))) for _ in range(draw(st.integers(3, 6)))]
    if draw(st.booleans()):
        p.reverse()
    return [(x, max(-85.0, min(85.0, y))) for x, y in p + p[:1]]


names = st.text("abcXYZ 019_-./", min_size=1, max_size=8).map(str.strip).filter(bool)


@st.composite
def country(draw, anchor=None):
    t = draw(st.sampled_from([5, 5, 15, 25, 3]))
    ax, ay = anchor or draw(st.tuples(st.integers(-120, 120), st.integers(-50, 50)))
    out = []
    for i, nm in enumerate(draw(st.lists(names, min_size=1, max_size=6, unique=True))):
        parts = [draw(part(ax, ay)) for _ in range(draw(st.sampled_from([1, 1, 2, 4])))]
        out.append((nm, draw(st.integers(-99, 999)), parts))
    return t, out


def save(base, t, rows, holes=()):
    gs = []
    for nm, v, parts in rows:
        flat = [p for q in parts for p in q]
        starts, n = [], 0
        for q in parts:
            starts.append(n)
            n += len(q)
        extra = [float(i % 9) for i in range(len(flat))]
        gs.append(SP.Geo(t, flat, starts, None, extra if t in SP.HAS_Z else None, extra if t in SP.HAS_M else None))
    shp, shx = SP.encode(t, gs)
    dbf = SP.encode_dbf([("NAME", "C", 10, 0), ("CODE", "N", 4, 0)], [[nm.encode(), str(v).encode()] for nm, v, _ in rows], [], "utf-8")
    for e, d in (("shp", shp), ("shx", shx), ("dbf", dbf)):
        with open(base + "." + e, "wb") as f:
            f.write(d)


GET = {"name": lambda r: r[0], "both": lambda r: "{}:{}".format(r[0], r[1]), "code": lambda r: "n" + str(r[1]) + r[0]}


def usable(rows):
    return c16.usable([(nm, parts) for nm, _, parts in rows]) and all(len(set(p)) >= 3 and abs(x) <= 180 for _, _, ps in rows for p in ps for x, _ in p)


def convert(d, t, rows, size, how):
    base, out = os.path.join(d, "in"), os.path.join(d, "out.p")
    save(base, t, rows)
    errs = pf.sf2pf(base, out, GET[how], size) if size != 4 else pf.sf2pf(base, out, GET[how])
    return out, errs


def conversion(case):
    (t, rows), size, how, order = case
    assume(usable(rows))
    d = Scratch.fresh()
    out, errs = convert(d, t, rows, size, how)
    want = [(GET[how]((nm, v)), parts) for nm, v, parts in rows]
    r = pf.Reader(out)
    need(len(r) == len(want) and list(r.names) == [n for n, _ in want], "entities {}, expected {}", r.names, [n for n, _ in want])
    for i in order + list(range(len(want))):
        i %= len(want)
        c16.judge(r.get(want[i][0]), want[i][1], size, "shape {!r}".format(want[i][0]))
        c16.judge(r.read(i), want[i][1], size, "shape {}".format(i))
    r.close()
    need(len(errs) == sum(len(p) - 1 for _, ps in want for p in ps), "{} distances reported", len(errs))
    many = any(len(ps) > 1 for _, ps in want)
    return "size {}{}".format(size, ", several parts" if many else "")


inks = st.sampled_from([0, 0.5, (0.4, 0.9, 0.2), (1, 1, 1), (0, 0, 1)])


def recipe(case):
    (t, rows), cfg, pixsz, bg, fill, stroke, closed, skip, keep = case
    prj = projs.make(cfg)
    assume(all(projs.margin(cfg, p) >= 3 for _, _, ps in rows for q in ps for p in q))
    base = os.path.join(Scratch.fresh(), "map")
    save(base, t, rows)
    # the recipe of the README
    sf = shapefile.Reader(base)
    cvs = vector.Canvas(bg) if bg is not None else vector.Canvas()
    for sr in sf.shapeRecords():
        if sr.record[1] % 5 == skip:
            continue
        points = sr.shape.points
        offsets = list(sr.shape.parts) + [len(points)]
        for a, b in zip(offsets[:-1], offsets[1:]):
            outside = len(points[a:b]) % 3 == keep
            if outside:
                bb = cvs.bbox
            polygon = (prj.geo2rect(lon, lat) for lon, lat in points[a:b])
            polygon = coord.simplify(polygon, pixsz, closed=True) if closed else coord.simplify(polygon, pixsz)
            cvs.addpolygon(polygon, fill=fill, stroke=stroke)
            if outside:
                cvs.bbox = bb
    path = base + ".eps"
    cvs.save(path)
    # composed anew from the data
    want, counts = [], []
    for nm, v, parts in rows:
        if v % 5 == skip:
            continue
        for p in parts:
            raw = [projs.fwd(prj, q) for q in p]
            raw = [(x / pixsz, y / pixsz) for x, y in raw]
            assume(all(abs(c - math.floor(c) - .5) > 1e-6 and abs(c) < 1e8 for q in raw for c in q))
            lat = [(round(x), round(y)) for x, y in raw]
            want.append(lat)
            counts.append(len(p) % 3 != keep)
    page, painted, _ = eps.read(path)
    if bg is not None:
        need(painted and painted[0]["kind"] == "fill", "no background painted")
        painted = painted[1:]
    ops = [k for k, i in (("fill", fill), ("stroke", stroke)) if i is not None]
    need([p["kind"] for p in painted] == ops * len(want), "painted {}, expected {} times {}", [p["kind"] for p in painted], len(want), ops)
    shown = []
    for i, lat in enumerate(want):
        for j, k in enumerate(ops):
            p = painted[i * len(ops) + j]
            ink = fill if k == "fill" else stroke
            ink = tuple(map(float, ink)) if isinstance(ink, tuple) else (float(ink),) * 3
            need(p["ink"] == ink, "part {}: {} with {}, expected {}", i, k, p["ink"], ink)
            path = p["path"]
            need(path[0][0] == "m" and path[-1] == ("z",) and all(e[0] == "l" for e in path[1:-1]), "part {}: path {}", i, path)
            out = []
            for e in path[:-1]:
                need(all(c == int(c) for c in e[1]), "part {}: vertex {} is not rounded", i, e[1])
                out.append(tuple(map(int, e[1])))
            if closed:
                need(c07.subsequence(out, lat + lat), "part {}: vertices {}, expected among {}", i, out, lat)
                need(c07.chain(out + out[:1]) == c07.chain(lat + lat[:1]), "part {}: outline {}, expected {}", i, out, lat)
            else:
                c07.check_open(out, lat)
            if counts[i] and not j:
                assume(c33around(out) != (0, 0, 0, 0))
                shown += out
    if shown:
        # the page is made for the parts that count; spikes are gone
        need(tuple(page) == tuple(map(float, c33around(shown))), "page {}, expected {}", page, c33around(shown))
    if not want:
        return False
    return "{}, {}".format(cfg[0], "one" if len(want) == 1 else "several")


def c33around(pts):
    xs, ys = [p[0] for p in pts], [p[1] for p in pts]
    return min(xs), min(ys), max(xs), max(ys)


def framed(case):
    (t, rows), cfg, size, pick, side, grow = case
    assume(usable(rows))
    prj = projs.make(cfg)
    assume(all(projs.margin(cfg, p) >= 4 for _, _, ps in rows for q in ps for p in q))
    d = Scratch.fresh()
    out, _ = convert(d, t, rows, size, "name")
    r = projs.radius(cfg)
    boxes = {}
    rd = pf.Reader(out)
    for nm, v, parts in rows:
        boxes[nm] = []
        for stored, p in zip(rd.get(nm), parts):
            near = [projs.fwd(prj, q) for q in stored]
            boxes[nm].append(c33around(near))
    flat = [b for n in boxes for b in boxes[n]]
    # extents of one grid step collapse at the smallest size
    assume(all(b[0] < b[2] and b[1] < b[3] for b in flat))
    b = flat[pick % len(flat)]
    w, h = b[2] - b[0], b[3] - b[1]
    e = 1e-6 * r
    f = [(b[2] + e, b[1], b[2] + w * grow + 2 * e, b[3]), (b[0] - w, b[1] - h, b[0] - e, b[3] + h), (b[0] + w / 3, b[1] + h / 3, b[0] + w / 2, b[1] + h / 2),
         (b[0] - w * grow, b[1] - h * grow, b[0] + w / 2, b[1] + h / 2), (b[0], b[3] + e, b[2], b[3] + h * grow + 2 * e)][side]
    assume(f[0] < f[2] and f[1] < f[3])

    def hits(x):
        return x[0] < f[2] and f[0] < x[2] and x[1] < f[3] and f[1] < x[3]
    want = [nm for nm, _, _ in rows if any(map(hits, boxes[nm]))]
    fr = frame.Frame(prj, bbox.BBox((f[0], f[1]), (f[2], f[3])))
    key = os.path.join(d, "k")
    n = fr.cachenames(key, rd)
    got = list(fr.loadnames(key))
    need(got == want and n == len(want), "frame {}: {} names reported, {} cached, {} fall into it", f, n, got, want)
    # what is drawn from the names: the stored polygons, flattened to the scale
    s = max(w, h) / 50 + 1e-9 * r
    for nm in want[:2]:
        for poly in rd.get(nm):
            g = [pt(q) for q in fr.planify(s, poly)]
            raw = [tuple(c / s for c in projs.fwd(prj, q)) for q in poly]
            if any(abs(c - math.floor(c) - .5) < 1e-6 for q in raw for c in q):
                continue
            lat = [(round(x), round(y)) for x, y in raw]
            need(c07.chain(g + g[:1]) == c07.chain(lat + lat[:1]), "polygon of {!r} flattened to {}, expected {}", nm, g, lat)
    rd.close()
    return "none" if not want else "all" if len(want) == len(rows) else "some"


@st.composite
def mapped(draw):
    cfg = draw(projs.config())
    c = projs.origin(cfg) if cfg[0] != "ConicEqualArea" else (0, 0)
    lon = c[0] + draw(st.sampled_from([20, -30, 5, 45]))
    anchor = ((lon + 180) % 360 - 180, draw(st.sampled_from([10, -20, 35, 48])))
    return draw(country(anchor)), cfg


@st.composite
def atlas(draw):
    "Many records, or many parts."
    r = draw(gen.seeds)
    n, k, m = draw(st.sampled_from([(150, 1, 12), (40, 6, 8), (4, 60, 6), (2, 3, 300), (12, 12, 12)]))
    rows = []
    for i in range(gen.upto(r, n)):
        parts = []
        for _ in range(gen.upto(r, k)):
            ox, oy, w, c = r.randint(-150, 150), r.randint(-70, 70), r.choice([.01, .25, 1]), max(3, gen.upto(r, m))
            p = [(ox + w * r.randint(2, 9) * math.cos(2 * math.pi * j / c), oy + w * r.randint(2, 9) * math.sin(2 * math.pi * j / c)) for j in range(c)]
            parts.append(p + p[:1])
        rows.append(("r%d" % i, r.randint(-99, 999), parts))
    return (r.choice([5, 5, 15, 3]), rows), r.choice([1, 2, 4, 8]), r.choice(sorted(GET)), [r.randrange(n) for _ in range(2)]


FACETS = [
    Facet("bulk", atlas, conversion, "shapefiles of up to 150 records, 60 parts or 300 points; every case", 60, budget=200000000),
    Facet("conversion", lambda: st.tuples(country(), st.sampled_from([1, 2, 4, 8]), st.sampled_from(sorted(GET)), st.lists(st.integers(0, 9), max_size=3)), conversion,
          "shapefiles of 1..6 polygon or polyline records with 1..4 parts, all PF sizes, three name functions; every case", 900),
    Facet("recipe", lambda: st.tuples(mapped(), st.sampled_from([0.0005, 0.001, 0.004, 0.02]), st.none() | inks, st.none() | inks, inks, st.booleans(), st.sampled_from([9, 9, 9, 0, 3]),
                                      st.sampled_from([9, 9, 0, 1])).map(lambda c: (c[0][0], c[0][1], c[1] * projs.radius(c[0][1])) + c[2:]), recipe,
          "the README recipe over shapefiles in all projections, several pixel sizes, inks and backgrounds; something is drawn", 1100),
    Facet("framed", lambda: st.tuples(mapped(), st.sampled_from([1, 2, 4, 8]), st.integers(0, 30), st.integers(0, 4), st.sampled_from([0.25, 1, 4])).map(lambda c: (c[0][0], c[0][1]) + c[1:]), framed,
          "converted shapefiles against frames beside, inside or across a part; every case", 900),
]
