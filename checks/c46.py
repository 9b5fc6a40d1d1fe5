import gc
import io
import os
from hypothesis import assume, strategies as st
from vlib import projs
from vlib.engine import Facet, Scratch, need
from checks import c15, c16, c20, c23, c25, c26, c30, c33, c44
from coral import bbox, frame, pf, proj, raster, rg, shapefile, table, vector

ASSUMPTIONS = ["before a RangeGrid or PF writer is closed nothing is promised about its files",
               "a file object that was passed in is the caller's to flush and close"]


def held(root):
    "Files below root that this process has open."
    out = []
    for fd in os.listdir("/proc/self/fd"):
        try:
            p = os.readlink("/proc/self/fd/" + fd)
        except OSError:
            continue
        if p.startswith(os.path.realpath(root) + os.sep):
            out.append(os.path.relpath(p, os.path.realpath(root)))
    return sorted(out)


# -- saving: returns what must be kept alive, and the number of files expected -----------------

def s_rg(d, data):
    cols, ents = data
    w = rg.Writer(os.path.join(d, "x"), c15.make_row(cols))
    for i, segs in ents:
        w.write(segs) if i is None else w.write(segs, i)
    w.close()
    return w, 2


def s_pf(d, data):
    ents, size = data
    w = pf.Writer(os.path.join(d, "x"), size)
    for n, polys in ents:
        w.write(n, polys)
    w.close()
    return w, 1


def s_shp(d, data):
    (t, shapes), how, many = data
    keep = []
    for k in range(many):
        w = shapefile.Writer(t)
        w.field("N", "N", 6)
        for i, s in enumerate(shapes):
            c23.add(w, t, s)
            w.record(i + k)
        base = os.path.join(d, "x%d" % k)
        if how == "save":
            w.save(base)
        elif how == "parts":
            w.save(shp=base, shx=base, dbf=base)
        elif how == "part":
            w.save(shp=base)
            w.save(dbf=base)
            w.save(shx=base)
        else:
            w.saveShp(base)
            w.saveShx(base + ".shx")
            w.saveDbf(base + ".dbf")
        keep.append(w)
    return keep, 3 * many


def s_edit(d, data):
    _, shp, shx, dbf = c25.files(data)
    src = Scratch.path("source")
    c26.put(src, shp, shx, dbf)
    e = shapefile.Editor(src)
    e.save(os.path.join(d, "x"))
    return e, 3


def s_eps(d, data):
    bg, steps = data
    c = vector.Canvas(bg)
    c.addcircle((10, 20), 3)
    keep = [c]
    for s in steps:
        if s[0] == "circle":
            c.addcircle(*s[1:3], fill=s[3], stroke=s[4])
        elif s[0] == "poly":
            c.addpolygon(s[1], fill=s[2], stroke=s[3])
        elif s[0] == "ink":
            c.setink(s[1])
        elif s[0] == "copy":
            keep.append(c.copy())
    for k, c in enumerate(keep):
        c.save(os.path.join(d, "x%d" % k), 100)
    return keep, len(keep)


def s_pnm(d, data):
    kind, w, h, v = data
    c = {"bw": raster.BWCanvas, "gray": raster.GrayCanvas, "color": raster.ColorCanvas}[kind](w, h)
    c.line((0, 0), (w - 1, h - 1), (v, 0, 9) if kind == "color" else v)
    c.save(os.path.join(d, "x"))
    return c, 1


def s_frame(d, data):
    cfg, box, names = data
    f = frame.Frame(projs.make(cfg), bbox.BBox((-1e12, -1e12), (1e12, 1e12)))
    f.save(os.path.join(d, "x"))
    try:
        for p in c44.Ents([]).get(""):
            for q in p:
                f.projection.geo2rect(*q)
    except (proj.ProjectionError, ValueError, ZeroDivisionError, OverflowError):
        assume(False)
    f.cachenames(os.path.join(d, "x"), c44.Ents(["n%d" % k for k in range(names)]))
    return f, 2


def s_table(d, data):
    rows = [c44.Row("%d" % k, "é" * data[1]) for k in range(data[0])]
    table.writefile(os.path.join(d, "x"), rows)
    return rows, 1


def entities():
    return c16.entities(False).filter(c16.usable)


STEP = st.one_of(st.tuples(st.just("circle"), c33.point, st.sampled_from([1, 5]), c33.oink, c33.oink), st.tuples(st.just("poly"), c33.points, c33.oink, c33.oink),
                 st.tuples(st.just("ink"), c33.ink), st.tuples(st.just("copy")))
SAVE = {
    "rg": (s_rg, lambda: st.one_of(c15.dataset(), c15.dataset(), c15.bulk())),
    "pf": (s_pf, lambda: st.tuples(entities(), st.sampled_from([1, 2, 4, 8]))),
    "shp": (s_shp, lambda: st.tuples(c23.dataset(8), st.sampled_from(["save", "parts", "part", "each"]), st.integers(1, 3))),
    "edit": (s_edit, lambda: c25.dataset(maxn=4).filter(lambda ds: ds[2] == "utf-8")),
    "eps": (s_eps, lambda: st.tuples(st.none() | c33.ink, st.lists(STEP, min_size=1, max_size=12))),
    "pnm": (s_pnm, lambda: st.tuples(st.sampled_from(["bw", "gray", "color"]), st.sampled_from([1, 3, 8, 30, 200]), st.sampled_from([1, 2, 9, 100]), st.integers(0, 1))),
    "frame": (s_frame, lambda: st.tuples(projs.config(), st.just(0), st.sampled_from([0, 1, 5, 3000]))),
    "table": (s_table, lambda: st.tuples(st.sampled_from([1, 2, 30, 2000]), st.integers(0, 9))),
}


def saved(case):
    kind, data = case
    d = os.path.join(Scratch.fresh(), "d")
    os.mkdir(d)
    func = SAVE[kind][0]
    try:
        keep, n = func(d, data)
    except shapefile.ShapefileException:
        if kind != "edit":
            raise
        return False
    files = sorted(f for f in os.listdir(d))
    need(len(files) == n, "{}: saved {}", kind, files)
    now = c44.tree(d)
    open_ = held(d)
    need(not open_, "{}: {} still open after saving", kind, open_)
    del keep
    gc.collect()
    later = c44.tree(d)
    need(later == now, "{}: {} not complete on return", kind, c44.differing(now, later))
    return kind


# -- reading ----------------------------------------------------------------------------------------

def reading(case):
    kind, k, cut, use, close = case
    d = os.path.join(Scratch.fresh(), "d")
    os.mkdir(d)
    base = os.path.join(d, "x")
    K = c44.KINDS[kind]
    K.save(base, k)
    gc.collect()
    refused = False
    if cut is not None:
        which, at = cut
        f = sorted(os.listdir(d))[which % len(os.listdir(d))]
        p = os.path.join(d, f)
        if at is None:
            os.remove(p)
        else:
            with open(p, "rb") as g:
                data = g.read()
            with open(p, "wb") as g:
                g.write(data[:int(len(data) * at)])

    def work():
        if kind in ("rg", "pf"):
            r = {"rg": rg.Reader, "pf": pf.Reader}[kind](base)
            for i in range(use):
                r.read() if kind == "rg" else r.read(i % len(r))
            if close:
                r.close()
                need(not held(d), "{} open after closing the reader", held(d))
        elif kind == "shp":
            r = shapefile.Reader(base)
            its = [r.iterShapes(), r.iterRecords()][:use]
            for it in its:
                next(it, None)
            if use > 2:
                r.shapeRecords()
        elif kind == "edit":
            shapefile.Editor(base)
        elif kind in ("frame", "table", "names"):
            K.read(base, k)
            need(not held(d), "{} open after reading a {}", held(d), kind)

    try:
        work()
    except (IndexError, KeyError):
        refused = True
    except Exception as e:
        if cut is None or type(e).__name__ in ("Violation", "Budget"):
            raise
        refused = True
    gc.collect()
    need(not held(d), "{}: {} open after the reader is gone", kind, held(d))
    return kind + (" refused" if refused else "")


# -- file objects of the caller -------------------------------------------------------------------------

def passed(case):
    ds, which, real, again = case
    t, shapes = ds
    w = shapefile.Writer(t)
    w.field("N", "N", 6)
    for k, s in enumerate(shapes):
        c23.add(w, t, s)
        w.record(k)
    d = Scratch.fresh()
    fs = {n: open(os.path.join(d, n), "w+b") if real else io.BytesIO() for n in ("shp", "shx", "dbf")}
    if which == "save":
        w.save(**fs)
    else:
        w.saveShp(fs["shp"]), w.saveShx(fs["shx"]), w.saveDbf(fs["dbf"])
    for n, f in fs.items():
        need(not f.closed, "the {} file that was passed in is closed", n)
    r = shapefile.Reader(**fs)
    for _ in range(again):
        need(len(r.shapes()) == len(shapes) and [list(x) for x in r.records()] == [[k] for k in range(len(shapes))], "files passed in do not read as saved")
        if shapes:
            r.shapeRecord(0)
    del r, w
    gc.collect()
    for n, f in fs.items():
        need(not f.closed, "the {} file that was passed in is closed in the end", n)
        f.close()
    return which if shapes else False


FACETS = [
    Facet("saved", lambda: st.sampled_from(sorted(SAVE)).flatmap(lambda k: st.tuples(st.just(k), SAVE[k][1]())), saved,
          "data sets of eight kinds saved in all ways, with what saved them kept; every case", 1200, budget=30000000, weight=2),
    Facet("reading", lambda: st.tuples(st.sampled_from(["rg", "pf", "shp", "edit", "frame", "table", "names"]), st.integers(0, 60), st.none() | st.tuples(st.integers(0, 2), st.none() | st.sampled_from([0, .1, .5, .9]) | st.floats(0, 1)),
                                           st.integers(0, 4), st.booleans()), reading, "data sets of seven kinds read in part or as a whole, intact, cut or with a file missing; every case", 1000),
    Facet("passed", lambda: st.tuples(c23.dataset(4), st.sampled_from(["save", "each"]), st.booleans(), st.integers(1, 2)), passed, "shapefiles saved to and read from file objects of the caller; at least one shape", 500),
]
