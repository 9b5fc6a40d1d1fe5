import collections
import io
import os
import time
from hypothesis import strategies as st
from vlib import eps, gen, projs, shp as SP
from vlib.engine import Budget, Facet, Scratch, Violation, need
from checks import c11, c13, c15, c16, c20, c22, c23, c25, c26, c28, c31, c33
from coral import bbox, coord, frame, gradient, pf, raster, rg, shapefile, stats, table, tqdm, vector

ASSUMPTIONS = ["calls are interleaved in one thread; objects do not share files that one of them writes",
               "the clock stands still, so that progress meters are comparable"]

# Each task is a generator: a step of work between two yields, the outcome at the end.


def w_rangegrid(data, d, shared):
    cols, ents = data
    w = rg.Writer(os.path.join(d, "data"), c15.make_row(cols))
    yield
    for i, segs in ents:
        w.write(segs) if i is None else w.write(segs, i)
        yield
    w.close()
    yield
    out = []
    with open(os.path.join(d, "data.rg"), "rb") as f:
        out.append(f.read())
    r = rg.Reader(os.path.join(d, "data"))
    for k, (i, segs) in enumerate(ents):
        yield
        out.append(r.read() if k % 2 else r.read(c15.key(k, i)))
    r.close()
    return out


def r_rangegrid(data, d, shared):
    (cols, ents), order = data
    path = os.path.join(shared, "data")
    if not os.path.exists(path + ".rg"):
        c15.write(path, cols, ents)
    r = rg.Reader(path)
    out = []
    for k in order:
        yield
        k %= len(ents) + 1
        try:
            out.append(r.read() if k == len(ents) else r.read(c15.key(k, ents[k][0])))
        except IndexError:
            out.append("end")
    r.close()
    return out


def w_pf(data, d, shared):
    ents, size = data
    w = pf.Writer(os.path.join(d, "data.p"), size)
    for n, polys in ents:
        yield
        w.write(n, polys)
    yield
    out = [w.close()]
    r = pf.Reader(os.path.join(d, "data.p"))
    for k in range(len(r)):
        yield
        out.append((r.names[k], r.read(k)))
    r.close()
    return out


def r_pf(data, d, shared):
    ents, order = data
    path = os.path.join(shared, "data.p")
    if not os.path.exists(path):
        c16.store(path, ents, 2)
    r = pf.Reader(path)
    out = [list(r.names)]
    for k in order:
        yield
        k %= len(ents)
        out.append(r.get(ents[k][0]) if order[0] % 2 else r.read(k))
    r.close()
    return out


def look(s):
    return [s.shapeType, [list(p) for p in s.points]] + [list(getattr(s, k, None) or []) for k in ("parts", "partTypes", "z", "m", "bbox")]


def w_shapefile(data, d, shared):
    t, shapes = data
    w = shapefile.Writer(t)
    w.field("N", "N", 6)
    for k, s in enumerate(shapes):
        yield
        c23.add(w, t, s)
        yield
        w.record(k)
    yield
    fs = [io.BytesIO() for _ in range(3)]
    w.saveShp(fs[0])
    yield
    w.saveShx(fs[1])
    yield
    w.saveDbf(fs[2])
    yield
    b = [f.getvalue() for f in fs]
    return b[:2] + [b[2][4:], [look(s) for s in w.shapes()]]


def r_shapefile(data, d, shared):
    ds, ops = data
    gs, shp, shx, dbf = c25.files(ds)
    base = os.path.join(shared, "in")
    if not os.path.exists(base + ".shp"):
        c26.put(base, shp, shx, dbf)
    r = shapefile.Reader(base, **({} if ds[2] == "utf-8" else {"encoding": ds[2]}))
    out = [list(map(list, r.fields)), r.shapeType, list(r.bbox)]
    n = len(gs)
    its = []
    for op, k in ops:
        yield
        try:
            if op == "shape":
                out.append(look(r.shape(k % n if n else 0)))
            elif op == "record":
                out.append(r.record(-1 - k % n if n else 0))
            elif op == "shapes":
                out.append([look(s) for s in r.shapes()])
            elif op == "records":
                out.append(r.records())
            elif op == "pair":
                x = r.shapeRecord(k % n if n else 0)
                out.append((look(x.shape), x.record))
            elif op == "iter":
                its.append(r.iterShapes())
            elif op == "iterrec":
                its.append(r.iterRecords())
            elif its:
                x = next(its[k % len(its)], "end")
                out.append(look(x) if hasattr(x, "points") else x)
        except (IndexError, AttributeError) as e:
            out.append(type(e).__name__)
    c26.shut(r)
    return out


def canvas(data, d, shared):
    bg, steps, sz = data
    c = vector.Canvas(bg)
    c.addcircle((50, 60), 5, fill=0.25)
    cs = [c]
    for s in steps:
        yield
        k, a = s[0], s[1:]
        if k == "ink":
            c.setink(a[0])
        elif k == "gray":
            c.setgray(a[0])
        elif k == "color":
            c.setcolor(*a[0])
        elif k == "width":
            c.setwidth(a[0])
        elif k == "dash":
            c.setdash(a[0], a[1])
        elif k == "circle":
            c.addcircle(a[0], a[1], fill=a[2], stroke=a[3])
        elif k == "poly":
            c.addpolygon(list(a[0]), fill=a[1], stroke=a[2])
        elif k == "line":
            c.addpolyline(list(a[0]), stroke=a[1])
        elif k == "round":
            c.addroundedpolygon(a[0][0], a[0][1], fill=a[1], stroke=a[2])
        elif k == "text":
            c.setink(a[5])
            c.addtext(a[0], a[1], a[2], a[3], a[4])
        elif k == "image":
            c.addimage(a[0], a[1], a[2], a[3], a[4])
        elif k == "copy":
            cs.append(c.copy())
        elif k == "use":
            c = cs[a[0] % len(cs)]
    out = []
    for c in cs:
        yield
        p = os.path.join(d, "c.eps")
        c.save(p, sz)
        out.append(eps.read(p)[:2])
    return out


def pixels(data, d, shared):
    kind, ops, rings = data
    c = {"bw": raster.BWCanvas, "gray": raster.GrayCanvas, "color": raster.ColorCanvas}[kind](c22.W, c22.H)
    ink = lambda v: v % 2 if kind == "bw" else v if kind == "gray" else (v, 255 - v, 9)
    scans = None
    for x, y, v in ops:
        yield
        c[x % c22.W, y % c22.H] = ink(v)
        if v % 3 == 0:
            yield
            c.line((x % c22.W, y % c22.H), (y % c22.W, x % c22.H), ink(v))
        if v % 5 == 0 and kind != "bw":
            c.aaline((x % c22.W, y % c22.H), (y % c22.W, x % c22.H), ink(v))
    for r in rings:
        yield
        scans = c.scanpolygon(r, scans)
    yield
    if scans:
        c.fillpolygons(scans, ink(3))
    yield
    p = os.path.join(d, "c.pnm")
    c.save(p)
    with open(p, "rb") as f:
        return f.read()


def ring(data, d, shared):
    n, ops = data
    b = coord.Buffer(n)
    out = []
    for k, op in enumerate(ops):
        yield
        try:
            out.append(b.push(k) if op == "push" else getattr(b, op)())
        except Exception as e:
            out.append("refused")
        out.append((bool(b.isempty()), bool(b.isfull()), str(b)))
    return out


def lazy(data, d, shared):
    pts, scl, closed = data
    out = []
    for p in coord.simplify(iter(pts), scl, closed=closed):
        out.append(tuple(p))
        yield
    return out


def tables(data, d, shared):
    t, keep = data
    rows = c31.make(t)
    names = t[0]
    out = []
    for r in table.addkey(rows, "added", lambda r: "<%s>" % r[0]):
        yield
        out.append(tuple(r))
    for r in table.delkeys(rows, names[1:] if keep else []):
        yield
        out.append(tuple(r))
    for r in table.getall(rows, names[0], rows[0][0]):
        yield
        out.append(tuple(r))
    p = os.path.join(d, "t.txt")
    table.writefile(p, rows)
    yield
    return out, table.readfile(p), sorted(table.indexby(rows, names[0]).items())


def meter(data, d, shared):
    n, desc, leave, known, step = data
    f = io.StringIO()
    out = []
    for x in tqdm.tqdm(list(range(n)) if known else iter(range(n)), desc, leave=leave, file=f, mininterval=0, miniters=step):
        out.append(x)
        yield
    return out, f.getvalue()


def maps(data, d, shared):
    cfg, box, pts = data
    prj = projs.make(cfg)
    f = frame.Frame(prj, bbox.BBox(box[:2], box[2:]))
    out = []
    for p in pts:
        yield
        try:
            xy = prj.geo2rect(*p)
            out.append((xy, f.point(1000, p)))
            yield
            out.append(prj.rect2geo(*xy))
        except Exception as e:
            out.append(type(e).__name__)
    yield
    f.save(os.path.join(d, "f.frame"))
    yield
    g = frame.load(os.path.join(d, "f.frame"))
    b = g.bounding
    return out, (b.x0, b.y0, b.x1, b.y1), type(g.projection).__name__


def colours(data, d, shared):
    stops, xs = data
    g = gradient.Gradient([tuple(s) for s in stops])
    out = []
    for x in xs:
        yield
        out.append((g.get(x), g.get_hex(x)))
    return out


def boxes(data, d, shared):
    b = bbox.BBox()
    out = []
    for k, p in enumerate(data):
        yield
        if k % 3 == 2:
            b = b + p
        elif k % 3 == 1:
            b |= bbox.BBox(p, (0, 0))
        else:
            b = b | bbox.BBox(data)
        out.append((b.x0, b.y0, b.x1, b.y1, b.area() if hasattr(b, "area") else None))
    return out


def averages(data, d, shared):
    out = []
    for s in data:
        yield
        out.append((stats.avg(s), stats.sum(s), stats.max(s), stats.min(s), stats.var(s), stats.len(s)))
    return out


order = st.lists(st.integers(0, 9), min_size=1, max_size=8)
readops = st.lists(st.tuples(st.sampled_from(["shape", "record", "shapes", "records", "pair", "iter", "iterrec", "next", "next", "next"]), st.integers(0, 9)), min_size=2, max_size=12)
drawing = st.lists(c33.step().filter(lambda s: s[0] not in ("reset", "hold", "release", "dashes")), min_size=1, max_size=10)
number = st.integers(-9, 9) | st.sampled_from([.5, 2.25, 1e6])

TASKS = {
    "rangegrid": (w_rangegrid, lambda: c15.dataset()),
    "rangegrid read": (r_rangegrid, None),
    "pf": (w_pf, lambda: st.tuples(c16.entities(False).filter(c16.usable), st.sampled_from([1, 2, 4, 8]))),
    "pf read": (r_pf, None),
    "shapefile": (w_shapefile, lambda: c23.dataset(4)),
    "shapefile read": (r_shapefile, None),
    "canvas": (canvas, lambda: st.tuples(st.none() | c33.ink, drawing, st.sampled_from([None, 100]))),
    "pixels": (pixels, lambda: st.tuples(st.sampled_from(["bw", "gray", "color"]), st.lists(st.tuples(st.integers(0, 60), st.integers(0, 60), st.integers(0, 255)), max_size=5),
                                         st.lists(st.lists(c22.vertex, min_size=3, max_size=5), max_size=3))),
    "buffer": (ring, lambda: st.tuples(st.sampled_from([1, 2, 4, 8]), st.lists(st.sampled_from(["push", "push", "push", "pop", "shift", "peek"]), min_size=3, max_size=15))),
    "simplify": (lazy, lambda: st.tuples(st.lists(st.tuples(st.integers(-9, 9), st.integers(-9, 9)), min_size=3, max_size=20), st.sampled_from([1, 2, .5]), st.booleans())),
    "table": (tables, lambda: st.tuples(c31.tab().filter(lambda t: "added" not in t[0]), st.booleans())),
    "meter": (meter, lambda: st.tuples(st.integers(0, 12), st.sampled_from(["", "x", "a longer name"]), st.booleans(), st.booleans(), st.integers(1, 4))),
    "map": (maps, lambda: st.tuples(projs.config(), c11.box, st.lists(gen.geo, min_size=1, max_size=4))),
    "gradient": (colours, lambda: st.tuples(c13.stops, st.lists(c13.pos, min_size=1, max_size=5))),
    "box": (boxes, lambda: st.lists(gen.xy(), min_size=1, max_size=6)),
    "stats": (averages, lambda: st.lists(st.lists(number, min_size=1, max_size=4).map(tuple), min_size=1, max_size=6)),
}
ALONE = [k for k in TASKS if TASKS[k][1]] + ["canvas", "canvas", "shapefile", "pixels"]


@st.composite
def group(draw):
    "The same kind of task several times (readers of one file set, too), or different ones."
    n = draw(st.integers(2, 4))
    how = draw(st.sampled_from(["same", "same", "same", "read", "mixed"]))
    if how == "read":
        k = draw(st.sampled_from(["rangegrid read", "pf read", "shapefile read", "shapefile read"]))
        if k == "rangegrid read":
            ds = draw(c15.dataset())
            jobs = [(k, (ds, draw(order))) for _ in range(n)]
        elif k == "pf read":
            ds = draw(c16.entities(False).filter(c16.usable))
            jobs = [(k, (ds, draw(order))) for _ in range(n)]
        else:
            ds = draw(c25.dataset(maxn=4))
            jobs = [(k, (ds, draw(readops))) for _ in range(n)]
    elif how == "same":
        k = draw(st.sampled_from(ALONE))
        jobs = [(k, draw(TASKS[k][1]())) for _ in range(n)]
    else:
        jobs = [(k, draw(TASKS[k][1]())) for k in draw(st.lists(st.sampled_from(ALONE), min_size=2, max_size=4))]
    return jobs, draw(st.lists(st.integers(0, 3), min_size=4, max_size=40))


@st.composite
def canvases(draw):
    r = draw(gen.seeds)
    jobs = []
    for _ in range(draw(st.integers(2, 3))):
        n = draw(st.sampled_from([6, 25, 40]))
        jobs.append(("canvas", (r.choice([None, None, .5, (0, 0, 1)]), [s for s in c33.bulksteps(r, max(21, n))[:n] if s[0] not in ("reset", "hold", "release")], None)))
    return jobs, [r.randrange(3) for _ in range(30)]


def advance(g, out, i):
    try:
        next(g)
        return True
    except StopIteration as e:
        out[i] = repr(e.value)
    except (Violation, Budget):
        raise
    except Exception as e:
        out[i] = "raised " + type(e).__name__
    return False


def together(case):
    jobs, schedule = case
    base = Scratch.fresh()
    real = time.time
    time.time = lambda: 1000.0
    try:
        want, got = {}, {}
        for i, (k, data) in enumerate(jobs):
            d, shared = os.path.join(base, "a%d" % i), os.path.join(base, "as%d" % i)
            os.mkdir(d), os.mkdir(shared)
            stats.cache_clear()
            g = TASKS[k][0](data, d, shared)
            while advance(g, want, i):
                pass
        shared = os.path.join(base, "shared")
        os.mkdir(shared)
        stats.cache_clear()
        gs = {}
        for i, (k, data) in enumerate(jobs):
            d = os.path.join(base, "b%d" % i)
            os.mkdir(d)
            gs[i] = TASKS[k][0](data, d, shared)
        turns = [k % len(jobs) for k in schedule]
        switches = 0
        last = None
        for i in turns * 30:
            if i in gs:
                switches += i != last
                last = i
                if not advance(gs[i], got, i):
                    del gs[i]
        for i in sorted(gs):
            while advance(gs[i], got, i):
                pass
    finally:
        time.time = real
    for i, (k, data) in enumerate(jobs):
        need(got[i] == want[i], "{} number {} gives {} among others, {} alone", k, i, got[i], want[i])
    return jobs[0][0] if switches > 2 else False


FACETS = [
    Facet("together", group, together, "2..4 tasks of one kind, reading one file set, or of different kinds, in turns by a drawn schedule; more than two switches", 1500, budget=30000000, weight=2),
    Facet("canvases", canvases, together, "2..3 canvases drawn on in turns, 6..40 calls each; more than two switches", 300, budget=30000000),
]
