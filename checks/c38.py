import io
import os
from hypothesis import assume, strategies as st
from vlib import eps, shp as SP
from vlib.engine import Budget, Facet, Scratch, Violation, fail, need, raises
from checks import c14, c15, c16, c23, c24, c33
from coral import grid, pf, raster, rg, shapefile, vector

ASSUMPTIONS = ["a refused call is one that raises; which calls are refused is otherwise judged only for values outside the declared ranges, malformed points, inks, pixels and rows",
               "where this is open (entities without extent), the call may also succeed"]



def refuse(func, what):
    try:
        r = func()
    except (Violation, Budget):
        raise
    except Exception:
        return
    fail("{} is not refused: {!r}", what, r)


# -- RangeGrid writers ----------------------------------------------------------

def spoil(cols, row, col, how):
    "The row with a value its column cannot hold."
    k, name, a = cols[col]
    if how == "short":
        return row[:-1]
    if k == "S":
        v = {"low": "x" * (a[0] + 1), "high": "é" * a[0], "odd": 5, "none": None}[how]
        if how == "none" and a[1]:
            v = 5
    else:
        lo, hi = a[:2]
        v = {"low": lo - 1, "high": hi + 1, "odd": "x", "none": None}[how]
        if how == "none" and a[-1]:
            v = hi + 1000
    return row[:col] + (v,) + row[col + 1:]


def broken(segs, at):
    "Segments that come from somewhere, which fails on the way."
    n = 0
    for s in segs:
        def rows():
            nonlocal n
            for r in s:
                if n == at:
                    raise OSError("source failed")
                n += 1
                yield r
        yield rows()
    raise OSError("source failed")


def rgwrite(case):
    (cols, ents), bad = case
    path = os.path.join(Scratch.fresh(), "data")
    w = rg.Writer(path, c15.make_row(cols))
    n = 0
    good = {}
    for i in range(len(ents) + 1):
        for at, how, src, col, seg, row, id_ in bad:
            if at % (len(ents) + 1) != i:
                continue
            segs = [list(s) for s in ents[src % len(ents)][1]]
            if how == "source":
                refuse(lambda: w.write(broken(segs, row), id_), "an entity whose source fails")
            else:
                rows = [r for s in segs for r in s]
                assume(rows)
                seg %= len(segs)
                while not segs[seg]:
                    seg = (seg + 1) % len(segs)
                r = row % len(segs[seg])
                segs[seg][r] = spoil(cols, segs[seg][r], col % len(cols), how)
                if how == "short" and len(cols) == 1:
                    segs[seg][r] = 5
                refuse(lambda: w.write(segs) if id_ is None else w.write(segs, id_), "row {}".format(segs[seg][r]))
            n += 1
        if i < len(ents):
            id_, segs = ents[i]
            w.write(segs) if id_ is None else w.write(segs, id_)
    w.close()
    r = rg.Reader(path)
    for i, (id_, segs) in enumerate(ents):
        c15.same(r.read(), cols, segs, "entity {} after {} refused ones".format(i, n))
    raises(IndexError, r.read, what="reading on after the last entity, {} refused ones".format(n))
    for i in reversed(range(len(ents))):
        c15.same(r.read(c15.key(i, ents[i][0])), cols, ents[i][1], "entity {!r} after {} refused ones".format(c15.key(i, ents[i][0]), n))
    r.close()
    return bad[0][1] if n else False


# -- PF writers -------------------------------------------------------------------

def badpolys(polys, how, at):
    polys = [list(p) for p in polys]
    p = polys[at % len(polys)]
    k = at // 3 % len(p)
    if how == "nan":
        p[k] = (float("nan"), p[k][1])
    elif how == "nanlat":
        p[k] = (p[k][0], float("nan"))
    elif how == "text":
        p[k] = ("x", p[k][1])
    elif how == "short":
        p[k] = p[k][:1]
    elif how == "none":
        p[k] = None
    elif how == "empty":
        p[:] = []
    elif how == "nothing":
        return []
    elif how == "noextent":
        return [[(0.0 - 180, 10), (-180.0, 20), (-180, 30)]]
    return polys


def pfwrite(case):
    ents, size, bad = case
    assume(c16.usable(ents))
    path = os.path.join(Scratch.fresh(), "data.p")
    w = pf.Writer(path, size)
    names, points, n = [], 0, 0
    want = []
    for i in range(len(ents) + 1):
        for at, how, src, k in bad:
            if at % (len(ents) + 1) != i:
                continue
            polys = badpolys(ents[src % len(ents)][1], how, k)
            nm = "refused, number %d" % n
            if how in ("noextent", "nothing"):
                try:
                    w.write(nm, polys)
                except Exception:
                    pass
                else:
                    want.append((nm, None))
                    points += sum(map(len, polys))
            else:
                refuse(lambda: w.write(nm, polys), "polygons with {}".format(how))
            n += 1
        if i < len(ents):
            w.write(*ents[i])
            want.append(ents[i])
            points += sum(map(len, c16.expected(ents[i][1])))
    errs = w.close()
    need(len(errs) == points, "{} distances for {} points, {} entities were refused", len(errs), points, n)
    r = pf.Reader(path)
    need(list(r.names) == [nm for nm, _ in want] and len(r) == len(want), "names {}, written {}", r.names, [nm for nm, _ in want])
    for i, (nm, polys) in enumerate(want):
        if polys is None:
            continue
        c16.judge(r.read(i), polys, size, "entity {!r} after refused ones".format(nm))
        raises(ValueError, r.get, "ã", what="reading an unknown name")
        raises(IndexError, r.read, len(want), what="reading an unknown index")
        c16.judge(r.get(nm), polys, size, "entity {!r} after refused ones".format(nm))
    r.close()
    return bad[0][1] if n else False


# -- shapefile writers --------------------------------------------------------------

def shpwrite(case):
    (t, shapes), bad, faulty = case
    w = shapefile.Writer(t)
    if any(b[1] == "early" for b in bad):
        refuse(lambda: w.record(1, "x"), "a record before the fields")
    w.field("N", "N", 6)
    w.field("S", "C", 10)
    n = 0
    want = []
    for i in range(len(shapes) + 1):
        for at, how in bad:
            if at % (len(shapes) + 1) != i:
                continue
            n += 1
            if how == "record":
                refuse(lambda: w.record(1), "a record of one value for two fields")
            elif how == "ring":
                refuse(lambda: w.poly([[(0, 0), (1, 0), (1, 1)], []], shapeType=5), "a polygon with an empty part")
            elif how == "point":
                refuse(lambda: w.poly([[(0, 0), (1, 0), 5]], shapeType=3), "a line with a vertex that is a number")
            elif how == "parts":
                refuse(lambda: w.poly([5], shapeType=3), "a line whose part is a number")
            elif how == "noxy":
                refuse(lambda: w.point(), "a point without coordinates")
        if i < len(shapes):
            c23.add(w, t, shapes[i])
            w.record(i, "s%d" % i)
            want.append(c23.expect(t, shapes[i]))
    if faulty and shapes:
        # a set that cannot be saved as it is
        k = faulty % len(shapes)
        w.records[k][0] = 12345678
        refuse(lambda: w.save(shp=io.BytesIO(), shx=io.BytesIO(), dbf=io.BytesIO()), "a number too long for its field")
        w.records[k][0] = k
        refuse(lambda: w.save(shp=io.BytesIO(), shx=io.StringIO(), dbf=io.BytesIO()), "a target that takes no bytes")
    fs = [io.BytesIO() for _ in range(3)]
    w.save(shp=fs[0], shx=fs[1], dbf=fs[2])
    h, stored = SP.decode(fs[0].getvalue(), fs[1].getvalue())
    need(len(stored) == len(want), "{} shapes in the file, {} written and {} refused", len(stored), len(want), n)
    for i, (a, b) in enumerate(zip(stored, want)):
        SP.same_geo(a, b, "shape {}, {} calls were refused".format(i, n))
    ff, raw = SP.decode_dbf(fs[2].getvalue(), "utf-8")
    need([[c.strip() for c in x] for x in raw] == [[b"%d" % i, b"s%d" % i] for i in range(len(want))], "records in the file {}, {} written, {} calls refused", raw, len(want), n)
    return bad[0][1] if n else "saving" if faulty and shapes else False


# -- drawings ----------------------------------------------------------------------

INKS = ["red", (1, 0), [0, 0, 0], (1, 0, 0, 1), ()]


def misuse(c, how, ink, both):
    ink = INKS[ink % len(INKS)]
    f, s = {0: (ink, None), 1: (None, ink), 2: (ink, 0.5), 3: (0.5, ink)}[both]
    pts = [(900, 900), (1000, 900), (1000, 2000)]
    bad = pts + [(1, 2, 3)]
    calls = {
        "circle": lambda: c.addcircle((500, 500), 3, fill=f, stroke=s),
        "center": lambda: c.addcircle(5, 3, fill=0, stroke=(1, 0, 0)),
        "radius": lambda: c.addcircle((5, 5), "3", fill=0.25, stroke=(1, 0, 0)),
        "line": lambda: c.addpolyline(pts, stroke=ink),
        "vertex": lambda: c.addpolyline(bad, stroke=0.25),
        "polygon": lambda: c.addpolygon(pts, fill=f, stroke=s),
        "corner": lambda: c.addpolygon(bad, fill=0.25, stroke=0.75),
        "round": lambda: c.addroundedpolygon(pts, 1, fill=f, stroke=s),
        "edge": lambda: c.addroundedpolygon(bad, 1, fill=0.25, stroke=0.75),
        "anchor": lambda: c.addtext((1, 1), "abc", 5, "Courier", "middle"),
        "words": lambda: c.addtext((1, 1), 55, 5),
        "place": lambda: c.addtext(1, "abc", 5),
        "pixels": lambda: c.addimage([0, 1, 2, 0.5], 2),
        "letters": lambda: c.addimage("abcd", 2),
        "position": lambda: c.addimage([0, 1, 2, 3], 2, position=5),
        "ink": lambda: c.setink(ink),
        "dash": lambda: c.setdash(5),
    }
    refuse(calls[how], "{} with ink {!r}".format(how, ink))


CALLS = ["circle", "circle", "center", "radius", "line", "vertex", "polygon", "polygon", "corner", "round", "edge", "anchor", "words", "place", "pixels", "letters", "position", "ink", "dash"]


def pictures(cvs):
    out = []
    for c, m in cvs:
        p = Scratch.path("p.eps")
        c.save(p)
        page, painted, _ = eps.read(p)
        out.append((page, painted))
    return out


def drawing(case):
    hist, bad = case
    want = pictures(c33.replay(hist))
    n = k = 0

    def watch(c, m):
        nonlocal n, k
        for at, how, ink, both in bad:
            if at == k:
                misuse(c, how, ink, both)
                n += 1
        k += 1
    cvs = c33.replay(hist, watch)
    got = pictures(cvs)
    need(len(got) == len(want), "{} canvases against {}", len(got), len(want))
    for (p1, a), (p2, b) in zip(want, got):
        need(p1 == p2, "page {} instead of {} after {} refused calls", p2, p1, n)
        need(a == b, "drawing {} instead of {} after {} refused calls", b, a, n)
    return bad[0][1] if n and want[0][1] else False


# -- pixels -----------------------------------------------------------------------

def pixels(case):
    kind, (w, h), ops = case
    c = {"bw": raster.BWCanvas, "gray": raster.GrayCanvas, "color": raster.ColorCanvas}[kind](w, h)
    c.aaline if c.aa else None
    n = 0

    def show():
        p = Scratch.path("p.pnm")
        c.save(p)
        with open(p, "rb") as f:
            return f.read()
    for x, y, v, how in ops:
        x, y = x % w, y % h
        before = show()
        if how == "set":
            c[x, y] = v % 2 if kind == "bw" else v if kind == "gray" else (v, 255 - v, 7)
            continue
        bad = {"high": 256 + v, "low": -1 - v, "odd": "x", "real": 0.5, "alpha": (300, 1.0)}[how]
        if how == "beyond":
            pass
        if kind == "color":
            bad = (v, 1, bad) if how != "alpha" else (v, 300, 7, 1.0)
        if kind != "bw":
            def put():
                c[x, y] = bad
            refuse(put, "pixel value {!r}".format(bad))
            n += 1
            need(show() == before, "a refused pixel {!r} altered the image", bad)
        if kind != "color":
            def beyond():
                c[x, h] = 1
            refuse(beyond, "a pixel below the canvas")
            n += 1
            need(show() == before, "a refused pixel altered the image")
    return kind if n else False


many = st.lists(st.tuples(st.integers(0, 9), st.sampled_from(["low", "high", "odd", "none", "short", "source"]), st.integers(0, 9), st.integers(0, 9), st.integers(0, 5), st.integers(0, 9) | st.integers(0, 20000), st.none() | st.just("bad")), min_size=1, max_size=3)

FACETS = [
    Facet("rgwrite", lambda: st.tuples(c15.dataset(), many), rgwrite, "1..5 entities written with 1..3 refused ones in between: values out of range, of another type, missing, or a failing source; some call refused", 700),
    Facet("rgbulk", lambda: st.tuples(c15.bulk(), many), rgwrite, "up to 255 columns, 513 entities, 513 segments or 16385 rows, with refused calls in between", 40, budget=60000000),
    Facet("pfwrite", lambda: st.tuples(c16.entities(False), st.sampled_from([1, 2, 4, 8]),
                                       st.lists(st.tuples(st.integers(0, 9), st.sampled_from(["nan", "nanlat", "text", "short", "none", "empty", "nothing", "noextent"]), st.integers(0, 9), st.integers(0, 99)), min_size=1, max_size=3)),
          pfwrite, "1..4 entities written with 1..3 refused ones in between; some call refused", 700),
    Facet("shpwrite", lambda: st.tuples(c23.dataset(), st.lists(st.tuples(st.integers(0, 9), st.sampled_from(["record", "ring", "point", "parts", "noxy", "early"])), max_size=4), st.integers(0, 5)),
          shpwrite, "up to 6 shapes and records with refused ones in between, and refused attempts to save; some call refused", 700),
    Facet("drawing", lambda: st.tuples(c33.history(), st.lists(st.tuples(st.integers(0, 12), st.sampled_from(CALLS), st.integers(0, 4), st.integers(0, 3)), min_size=1, max_size=4)), drawing,
          "drawings of up to 25 calls with refused ones in between; some call refused, something drawn", 700, weight=2),
    Facet("pixels", lambda: st.tuples(st.sampled_from(["bw", "gray", "color"]), st.tuples(st.integers(1, 9), st.integers(1, 6)),
                                      st.lists(st.tuples(st.integers(0, 9), st.integers(0, 9), st.integers(0, 255), st.sampled_from(["set", "set", "high", "low", "odd", "real", "alpha"])), min_size=1, max_size=8)), pixels,
          "pixels set with refused ones in between; some call refused", 600),
]
