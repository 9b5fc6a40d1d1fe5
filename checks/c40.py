import copy
import io
import os
from hypothesis import strategies as st
from vlib import eps, gen, projs
from vlib.engine import Facet, Scratch, need
from checks import c11, c13, c15, c16, c22, c23, c25, c33
from coral import bbox, coord, frame, gradient, names, pf, raster, rg, shapefile, table, vector

ASSUMPTIONS = ["perimeter marks made by scanpolygon are consumed by fillpolygons; iterators are consumed; objects meant to be shared (a projection and box given to a frame, the shapes of a writer) are not copied",
               "boxes are treated as values: results may be the operands themselves"]


def thaw(x):
    "Tuples become lists, all the way down."
    return [thaw(v) for v in x] if isinstance(x, (list, tuple)) else x


def scramble(x):
    "The caller goes on using the lists."
    if isinstance(x, list):
        for v in x:
            scramble(v)
        for i, v in enumerate(x):
            if isinstance(v, (int, float)) and not isinstance(v, bool):
                x[i] = v / 3 + 7
        x.reverse()
        x.append(x[0] if x else 5)
    elif isinstance(x, (bytearray,)):
        x.extend(b"zz")
        x.reverse()


def slurp(*paths):
    out = []
    for p in paths:
        with open(p, "rb") as f:
            out.append(f.read())
    return out


def thumb(path):
    page, painted, _ = eps.read(path)
    return page, painted


class Ops:
    "Each: (case) -> mutable arguments; (arguments) -> object; (object) -> outcome."

    class gradient:
        strategy = staticmethod(lambda: st.tuples(c13.stops, st.lists(c13.pos, max_size=4)))
        args = staticmethod(thaw)
        build = staticmethod(lambda a: (gradient.Gradient(a[0]), tuple(a[1])))
        outcome = staticmethod(lambda o: [(o[0].get(x), o[0].get_hex(x)) for x in o[1] + (0, .5, 1)])

    class box:
        strategy = staticmethod(lambda: st.tuples(st.lists(gen.xy(), min_size=1, max_size=6), gen.xy()))
        args = staticmethod(thaw)

        @staticmethod
        def build(a):
            b = bbox.BBox(a[0])
            c = bbox.BBox(a[1], a[0][0])
            return b, c, b + a[1], b - a[1], b.has_point(a[1])
        outcome = staticmethod(lambda o: [(b.x0, b.y0, b.x1, b.y1) for b in o[:4]] + [o[4]])

    class navigation:
        strategy = staticmethod(lambda: st.tuples(st.sampled_from([((0, 0), (30, 0), (0, 20)), ((0, 0), (9, 0), (9, 5), (1, 8)), ((0, 0), (1, 9), (20, 5))]), st.integers(-150, 150), st.integers(-60, 60)))
        args = staticmethod(lambda c: [[[(x + c[1], y + c[2]) if (x + y) % 20 else [x + c[1], y + c[2]] for x, y in c[0]]]])

        @staticmethod
        def build(a):
            bb = bbox.BBox(a[0][0])
            was = repr(bb)
            r = coord.geocentroid(a[0], bb), coord.geocentroid(a[0])
            need(repr(bb) == was, "the box given to geocentroid was altered")
            return r
        outcome = staticmethod(lambda o: o)

    class simplify:
        strategy = staticmethod(lambda: st.tuples(st.lists(st.tuples(st.integers(-9, 9), st.integers(-9, 9)), max_size=12), st.sampled_from([1, 2, .5]), st.booleans()))
        args = staticmethod(thaw)
        build = staticmethod(lambda a: list(coord.simplify(a[0], a[1], closed=a[2])))
        outcome = staticmethod(lambda o: o)

    class abbreviate:
        strategy = staticmethod(lambda: st.tuples(st.lists(st.text("abcdefgh ", min_size=1, max_size=9).map(str.strip).filter(bool), min_size=1, max_size=6, unique=True), st.integers(3, 5)))
        args = staticmethod(lambda c: [list(c[0]), c[1], ["DE", "A"]])

        @staticmethod
        def build(a):
            try:
                return names.abbreviations(a[0], a[1], a[2])
            except Exception:
                return {}
        outcome = staticmethod(lambda o: sorted(o.items()))

    class mapping:
        strategy = staticmethod(lambda: st.tuples(st.lists(st.text("abc", min_size=1, max_size=4), min_size=1, max_size=4), st.lists(st.text("abc", min_size=1, max_size=4), min_size=1, max_size=4)))
        args = staticmethod(thaw)
        build = staticmethod(lambda a: names.mapping(a[0], a[1]))
        outcome = staticmethod(lambda o: [tuple(m) for m in o])

    class rangegrid:
        strategy = staticmethod(lambda: c15.dataset())
        args = staticmethod(lambda c: [[[list(i) if isinstance(i, tuple) else i, thaw(s)] for i, s in c[1]], list(map(list, c[0]))])

        @staticmethod
        def build(a):
            w = rg.Writer(Scratch.path("data"), c15.make_row([(k, n, tuple(x)) for k, n, x in a[1]]))
            for i, s in a[0]:
                w.write(s) if i is None else w.write(s, i)
            return w

        @staticmethod
        def outcome(w):
            w.close()
            return slurp(Scratch.path("data.rg"), Scratch.path("data.md"))

    class pffile:
        strategy = staticmethod(lambda: c16.entities(False).filter(c16.usable))
        args = staticmethod(lambda c: [[n, thaw(p)] for n, p in c])

        @staticmethod
        def build(a):
            w = pf.Writer(Scratch.path("data.p"))
            for n, p in a:
                w.write(n, p)
            return w
        outcome = staticmethod(lambda w: [w.close()] + slurp(Scratch.path("data.p")))

    class shapes:
        strategy = staticmethod(lambda: c23.dataset())
        args = staticmethod(lambda c: [c[0], thaw(c[1]), [[i, "s%d" % i] for i in range(len(c[1]))], ["N", "N", 6]])

        @staticmethod
        def build(a):
            w = shapefile.Writer(a[0])
            w.field(*a[3])
            w.field("S", "C", 9)
            for s, r in zip(a[1], a[2]):
                c23.add(w, a[0], s)
                w.record(*r)
            return w

        @staticmethod
        def outcome(w):
            fs = [io.BytesIO() for _ in range(3)]
            w.save(shp=fs[0], shx=fs[1], dbf=fs[2])
            d = [f.getvalue() for f in fs]
            return d[:2] + [d[2][4:]]

    class canvas:
        strategy = staticmethod(lambda: st.tuples(c33.corner_polygon(), c33.image(), st.lists(c33.point, min_size=2, max_size=5), st.lists(st.sampled_from([1, 2, 3.5]), max_size=3)))
        args = staticmethod(lambda c: [[[tuple(p) for p in c[0][0]], c[0][1]], [bytearray(c[1][1]), c[1][2], thaw(c[1][3]), c[1][4], c[1][5]], thaw(c[2]), list(c[3])])

        @staticmethod
        def build(a):
            v = vector.Canvas()
            v.setdash(a[3], 1)
            v.addroundedpolygon(a[0][0], a[0][1], fill=0.5)
            v.addpolyline(a[2], stroke=0.25)
            v.addpolygon(a[2], fill=(1, 0, 0))
            v.addcircle(a[2][0], 3, stroke=0.75)
            v.addtext(a[2][1], "abc", 5)
            v.addimage(a[1][0], a[1][1], a[1][2], a[1][3], a[1][4])
            v.addimage(list(a[1][0]), a[1][1], a[1][2], a[1][3], a[1][4])
            return v

        @staticmethod
        def outcome(v):
            v.setdash([9, 9], 0)
            v.addpolyline([(0, 0), (5, 5)], stroke=0)
            p = Scratch.path("c.eps")
            v.save(p)
            return thumb(p)

    class pixels:
        strategy = staticmethod(lambda: st.lists(st.lists(c22.vertex, min_size=3, max_size=6), min_size=1, max_size=3))
        args = staticmethod(thaw)

        @staticmethod
        def build(a):
            c = raster.GrayCanvas(c22.W, c22.H)
            scans = None
            for r in a:
                scans = c.scanpolygon(r, scans)
            spot = [c22.W // 2, c22.H // 2]
            end = [3, 3]
            c.line(spot, end, 9)
            need(spot == [c22.W // 2, c22.H // 2] and end == [3, 3], "ends of the line were altered")
            return c, scans

        @staticmethod
        def outcome(o):
            o[0].fillpolygons(o[1], 50)
            p = Scratch.path("c.pgm")
            o[0].save(p)
            return slurp(p)

    class frames:
        strategy = staticmethod(lambda: st.tuples(projs.config(), c11.box, st.lists(st.tuples(st.integers(-60, 60), st.integers(-60, 60)), max_size=5)))
        args = staticmethod(lambda c: [c[0][0], thaw(c[0][1]), c[0][2], thaw(c[1]), thaw(c[2])])

        @staticmethod
        def build(a):
            f = frame.Frame(projs.make((a[0], a[1], a[2])), bbox.BBox(a[3][:2], a[3][2:]))
            try:
                flat = [tuple(p) for p in f.planify(1000, a[4])] if a[4] else []
            except Exception as e:
                flat = type(e).__name__
            return f, flat

        @staticmethod
        def outcome(o):
            p = Scratch.path("map.frame")
            o[0].save(p)
            return slurp(p) + [o[1]]

    class tables:
        strategy = staticmethod(lambda: st.tuples(st.lists(st.tuples(st.sampled_from("abc"), st.sampled_from("xyz")), min_size=1, max_size=5), st.lists(st.sampled_from(["k", "v"]), min_size=1, max_size=2, unique=True)))
        args = staticmethod(thaw)

        @staticmethod
        def build(a):
            p = Scratch.path("t.txt")
            rows = [["k", "v"]] + a[0]
            with open(p, "w") as f:
                f.writelines(",".join(r) + "\n" for r in rows)
            t = table.readfile(p)
            was = list(t)
            out = [table.join(t, t, a[1], a[1]), table.readfile(p, a[1]), list(table.delkeys(t, a[1][1:])), table.indexby(t, a[1][0])]
            table.writefile(p, t, a[1])
            need(t == was, "the table was altered")
            return out, slurp(p)
        outcome = staticmethod(lambda o: repr(o))


def alone(op):
    def check(case):
        Scratch.fresh()
        a = op.args(case)
        was = copy.deepcopy(a)
        o = op.build(a)
        need(repr(a) == repr(was), "arguments {} became {}", was, a)
        one = op.outcome(o)
        need(repr(a) == repr(was), "arguments {} became {} later", was, a)
        o = op.build(a)
        scramble(a)
        two = op.outcome(o)
        need(repr(one) == repr(two), "the outcome {} became {} when the caller went on to use the lists handed over", one, two)
        return None
    return check


# -- results ----------------------------------------------------------------------

def mess(x):
    "The caller uses what was returned."
    if isinstance(x, list):
        for v in x:
            mess(v)
        x.append(99)
        x.reverse()
    elif isinstance(x, dict):
        for k in list(x)[:1]:
            del x[k]
        x["it was"] = "here"
    elif hasattr(x, "typecode"):
        x.append(x[0] if len(x) else 0)


def shapelist(s):
    return [s.shapeType, [list(p) for p in s.points]] + [list(getattr(s, k, None) or []) for k in ("parts", "partTypes", "z", "m", "bbox")]


def messshape(s):
    for k in ("points", "parts", "z", "m", "bbox", "partTypes"):
        v = getattr(s, k, None)
        if v is not None:
            mess(v) if not isinstance(v, tuple) else None


def results(case):
    what, data, ops = case
    d = Scratch.fresh()
    if what == "shapefile":
        gs, shp, shx, dbf = c25.files(data)
        enc = data[2]
        n = len(gs)
        args = {} if enc == "utf-8" else {"encoding": enc}
        fresh = lambda: shapefile.Reader(shp=io.BytesIO(shp), shx=io.BytesIO(shx), dbf=io.BytesIO(dbf), **args)
        calls = {0: lambda r, i: [r.shape(i)], 1: lambda r, i: r.shapes(), 2: lambda r, i: [r.record(i)], 3: lambda r, i: r.records(),
                 4: lambda r, i: list(r.iterShapes()), 5: lambda r, i: [r.shapeRecord(i)], 6: lambda r, i: r.shapeRecords(), 7: lambda r, i: list(r.iterRecords())}
        if not n:
            return False

        def view(x):
            return [shapelist(v) if hasattr(v, "points") else [shapelist(v.shape), v.record] if hasattr(v, "shape") else v for v in x]

        def use(x):
            for v in x:
                if hasattr(v, "points"):
                    messshape(v)
                elif hasattr(v, "shape"):
                    messshape(v.shape)
                    mess(v.record)
                else:
                    mess(v)
            x.append(x[0] if x else 5)
            x.reverse()
    elif what == "rg":
        cols, ents = data
        c15.write(os.path.join(d, "data"), cols, ents)
        n = len(ents)
        fresh = lambda: rg.Reader(os.path.join(d, "data"))
        calls = {k: lambda r, i: r.read(c15.key(i, ents[i][0])) for k in range(8)}
        view, use = copy.deepcopy, mess
    elif what == "pf":
        if not c16.usable(data):
            return False
        c16.store(os.path.join(d, "data.p"), data, 4)
        n = len(data)
        fresh = lambda: pf.Reader(os.path.join(d, "data.p"))
        calls = {k: (lambda r, i: r.read(i)) if k % 2 else lambda r, i: r.get(data[i][0]) for k in range(8)}
        view, use = copy.deepcopy, mess
    else:
        n = 1
        p = os.path.join(d, "x")
        with open(p + ".names", "w") as f:
            f.write("a\nb\n")
        with open(p, "w") as f:
            f.write("k,v\na,b\nc,d\n")
        fresh = lambda: None
        calls = {0: lambda r, i: frame.Frame(None, None).loadnames(p), 1: lambda r, i: names.mapping(["ab", "cd"], ["ab", "d"]), 2: lambda r, i: names.abbreviations(["ab cd", "efghij"], 3),
                 3: lambda r, i: table.readfile(p), 4: lambda r, i: table.indexby(table.readfile(p), "k"), 5: lambda r, i: table.join(table.readfile(p), table.readfile(p)),
                 6: lambda r, i: list(coord.simplify([(0, 0), (5, 5), (9, 2)], 1)), 7: lambda r, i: list(table.getall(table.readfile(p), "k", "a"))}
        view, use = copy.deepcopy, mess
    r = fresh()
    want = {}
    for k, i in ops:
        k, i = k % 8, i % n
        if (k, i) not in want:
            q = fresh()
            want[k, i] = repr(view(calls[k](q, i)))
            if hasattr(q, "close"):
                q.close()
        got = calls[k](r, i)
        need(repr(view(got)) == want[k, i], "call {} of item {} gives {} after earlier results were changed, a fresh one {}", k, i, view(got), want[k, i])
        use(got)
    if hasattr(r, "close"):
        r.close()
    return what


FACETS = [
    Facet(n, getattr(Ops, n).strategy, alone(getattr(Ops, n)), "arguments compared before and after, then changed before the outcome is looked at; every case", q)
    for n, q in [("gradient", 400), ("box", 400), ("navigation", 60), ("simplify", 400), ("abbreviate", 300), ("mapping", 300), ("rangegrid", 300), ("pffile", 300), ("shapes", 500), ("canvas", 300), ("pixels", 300), ("frames", 300), ("tables", 300)]
] + [
    Facet("results", lambda: st.one_of(st.tuples(st.just("shapefile"), c25.dataset(maxn=4)), st.tuples(st.just("rg"), c15.dataset()), st.tuples(st.just("pf"), c16.entities(False)), st.tuples(st.just("misc"), c13.stops)).flatmap(
        lambda t: st.tuples(st.just(t[0]), st.just(t[1]), st.lists(st.tuples(st.integers(0, 7), st.integers(0, 3)), min_size=2, max_size=8))), results,
        "2..8 reads, each result changed by the caller before the next; something to read", 800, weight=2),
]
