import collections
import contextlib
import io
import os
from hypothesis import strategies as st
from vlib import projs
from vlib.engine import Budget, Facet, Scratch, Violation
from coral import bbox, coord, frame, gradient, grid, pf, proj, raster, rg, shapefile, stats, table, tqdm, vector

ASSUMPTIONS = ["work that is asked for takes its time: long lines, large bitmaps, many points"]

inf, nan = float("inf"), float("nan")
HUGE = [1e15, 1e16, 4.5e15 + .5, 1e17, 1e20, 1e38, -1.5e38, 1e100, 1.7e308, 10 ** 20, 2 ** 53 + 1, 10 ** 400]
TINY = [1e-15, 5e-324, 1e-300, 2.2e-308]
ODD = [inf, -inf, nan]
value = st.one_of(st.sampled_from([0, -0.0, 1, 90, -90, 180, -180, 360, 45.5, 1e6, 540, -720]), st.floats(-400, 400), st.sampled_from(HUGE).flatmap(lambda v: st.sampled_from([v, -v])),
                  st.sampled_from(TINY).flatmap(lambda v: st.sampled_from([v, -v])), st.sampled_from(ODD), st.floats())
usual = st.floats(-170, 170) | st.integers(-80, 80)
mixed = st.one_of(usual, usual, usual, value)
xy = st.tuples(mixed, mixed)


def w_pf(d, ps, a):
    w = pf.Writer(os.path.join(d, "x"), 4)
    w.write("a", [ps])
    w.close()
    return pf.Reader(os.path.join(d, "x")).read(0)


def sf2pf(d, ps, a):
    w = shapefile.Writer(5)
    w.field("N", "C", 4)
    w.poly([ps])
    w.record("a")
    w.save(os.path.join(d, "s"))
    return pf.sf2pf(os.path.join(d, "s"), os.path.join(d, "x"), lambda r: r[0])


def w_rg(d, ps, a):
    b = [int(v) for v in a]
    f = [grid.IVar("a", min(b[:2]), max(b[:2])), grid.FVar("x", min(b[2:]), max(b[2:]), 4)]
    w = rg.Writer(os.path.join(d, "x"), grid.GRow(*f))
    w.write([[(min(max(int(x), f[0].minv), f[0].maxv), min(max(y, f[1].minv), f[1].maxv)) for x, y in ps]])
    w.close()
    return rg.Reader(os.path.join(d, "x")).read()


def w_eps(d, ps, a):
    c = vector.Canvas()
    c.addpolygon(ps, fill=.5, stroke=0)
    c.addroundedpolygon(ps, a[0], stroke=0)
    c.addcircle(ps[0], a[1], fill=.1)
    c.addpolyline(iter(ps), stroke=.3)
    c.save(os.path.join(d, "x"), abs(a[2]), a[3])


def w_shp(d, ps, a):
    w = shapefile.Writer(5)
    w.field("N", "N", 12, 3)
    w.poly([ps])
    w.record(a[0])
    w.save(os.path.join(d, "s"))
    r = shapefile.Reader(os.path.join(d, "s"))
    return r.shapes(), r.records()


def frames(d, ps, a):
    f = frame.Frame(proj.Mercator((a[0], 0), a[1]), bbox.BBox(ps[0], ps[-1]))
    f.save(os.path.join(d, "f"))
    f = frame.load(os.path.join(d, "f"))
    return [f.point(a[2], p) for p in ps], list(f.planify(a[3], ps))


def projections(d, ps, a):
    out = []
    for name in projs.ALL:
        for args in ((), ((a[0], a[1]),)):
            try:
                p = getattr(proj, name)(*args)
            except Exception:
                continue
            for q in ps:
                for f in p.geo2rect, p.rect2geo, p.scale:
                    try:
                        out.append(f(*q))
                    except Budget:
                        raise
                    except Exception:
                        pass
    return out


def navigation(d, ps, a):
    (a0, b0), (a1, b1) = ps[0], ps[-1]
    out = []
    for f, args in ((coord.haversine, (a0, b0, a1, b1)), (coord.bearing, (a0, b0, a1, b1)), (coord.midpoint, (a0, b0, a1, b1)), (coord.destination, (a0, b0, a[0], a[1])), (coord.destination, (a0, b0, a1, a[1], a[2])),
                    (coord.radiusat, (a[0],)), (coord.bearing2cardinal, (a[0],)), (coord.bearing2hours, (a[0],)), (proj.corangle, (a[0],)), (coord.collinear, (ps[0], ps[-1], tuple(a[:2])))):
        try:
            out.append(f(*args))
        except Budget:
            raise
        except Exception:
            pass
    return out


def boxes(d, ps, a):
    b, c = bbox.BBox(ps), bbox.BBox(ps[:2])
    return b | c, b & c, b.collide(c), b.area(), b.center(), b.hypot(), b.translate(a[0], a[1]), b.scale(a[2]), b == c, ps[0] in b, hash(b), b * a[0], b / a[1]


def colours(d, ps, a):
    g = gradient.Gradient([(p[0], (p[1], 0, 0)) for p in ps])
    return [g.get(x) for x in a] + [g.get_hex(x) for x in a]


def numbers(d, ps, a):
    stats.cache_clear()
    s, t = tuple(p[0] for p in ps), tuple(p[1] for p in ps)
    out = []
    for f in stats.avg, stats.var, stats.std_dev, stats.gini_deaton, stats.gini_kakwani, stats.max, stats.min:
        for x in s, t:
            try:
                out.append(f(x))
            except Budget:
                raise
            except Exception:
                pass
    for f in stats.covar, stats.corr:
        try:
            out.append(f(s, t))
        except Budget:
            raise
        except Exception:
            pass
    return out


def codecs(d, ps, a):
    out = []
    for lo, hi in ps:
        for make in (lambda: grid.IVar("i", lo, hi, True), lambda: grid.FVar("f", lo, hi, 8), lambda: grid.FVar("f", hi, lo, 1, True), lambda: grid.SVar("s", hi)):
            try:
                v = make()
                out.append((repr(v), str(v), v.size))
            except Budget:
                raise
            except Exception:
                continue
            for x in a:
                try:
                    out.append(v.decode(v.encode(x)))
                except Budget:
                    raise
                except Exception:
                    pass
    return out


Row, Other = collections.namedtuple("Row", "k v"), collections.namedtuple("Other", "v w")


def text(d, ps, a):
    t = [Row(str(x), str(y)) for x, y in ps]
    table.writefile(os.path.join(d, "t"), t)
    u = table.readfile(os.path.join(d, "t"))
    with contextlib.redirect_stdout(io.StringIO()):
        table.pprint(u)
    n = [Row(*p) for p in ps]
    return table.join(n, [Other(x, x) for x in a]), table.indexby(n, "k"), list(table.addkey(n, "s", sum)), list(table.getall(n, "v", a[0]))


def editing(d, ps, a):
    w = shapefile.Editor(shapeType=15)
    w.field("N", "F", 20, 9)
    w.poly([[p + (a[0], a[1]) for p in ps]])
    w.record(a[2])
    w.save(os.path.join(d, "s"))
    e = shapefile.Editor(os.path.join(d, "s"))
    e.save(os.path.join(d, "t"))
    return shapefile.Reader(os.path.join(d, "t")).shapeRecords()


def meter(d, ps, a):
    return tqdm.format_interval(abs(a[0])), tqdm.format_meter(7, a[1], abs(a[2]))


WORK = {
    "pf": w_pf, "sf2pf": sf2pf, "rg": w_rg, "eps": w_eps, "shp": w_shp, "frame": frames, "projections": projections, "navigation": navigation, "boxes": boxes, "gradient": colours,
    "stats": numbers, "meter": meter, "codecs": codecs, "table": text, "editor": editing,
    "centroid": lambda d, ps, a: coord.geocentroid([ps], None, abs(a[0]) if a[1] > 0 else None),
    "centroids": lambda d, ps, a: coord.geocentroid([ps, ps[::-1], ps[:3]]),
    "simplify": lambda d, ps, a: (list(coord.simplify(iter(ps), a[0])), list(coord.simplify(iter(ps), a[1], closed=True))),
}


def ends(case):
    kind, ps, a = case
    try:
        WORK[kind](Scratch.fresh(), ps, a)
    except (Violation, Budget, MemoryError):
        raise
    except Exception:
        return kind + " refused"
    return kind


def plain(case):
    kind, ps, a = case
    return all(abs(v) <= 1000 for p in ps for v in p) and all(abs(v) <= 1000 for v in a)


def verdict(case):
    kind = ends(case)
    return not plain(case) and kind


FACETS = [
    Facet("extremes", lambda: st.tuples(st.sampled_from(sorted(WORK)), st.lists(xy, min_size=3, max_size=7), st.tuples(mixed, mixed, mixed, mixed)),
          verdict, "eighteen families of calls with huge, tiny, infinite and undefined numbers among ordinary ones; at least one out of the ordinary", 6000, budget=200000, weight=2),
]
