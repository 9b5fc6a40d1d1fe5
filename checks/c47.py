import io
import os
import random
from hypothesis import strategies as st
from vlib import eps, gen, projs
from vlib.engine import Budget, Facet, Scratch, Violation, need
from checks import c11, c13, c20, c22, c23, c25, c26, c28, c33, c42
from coral import bbox, coord, frame, gradient, grid, names, raster, shapefile, stats, table, vector

ASSUMPTIONS = ["what a query returns is not changed by the caller afterwards",
               "sequential reads, pushes, draws and the like are changes; a save to another file is a query",
               "an editor's placeholder for the deletion flag is not one of its fields"]

# Each subject: make(data, d) -> (object, steps), what the steps do, the final outcome, and queries
# (object, number, directory) -> something comparable.


def data(path):
    with open(path, "rb") as f:
        return f.read()


class Ring:
    strategy = staticmethod(lambda: st.tuples(st.sampled_from([1, 2, 4, 8, 16]), st.lists(st.sampled_from(["push", "push", "push", "pop", "shift"]), min_size=2, max_size=25)))

    def __init__(self, case, d):
        n, self.steps = case
        self.b = coord.Buffer(n)
        self.k = 0

    def step(self, op):
        self.k += 1
        try:
            return self.b.push("v%d" % self.k) if op == "push" else getattr(self.b, op)()
        except IndexError:
            return "refused"

    def end(self, d):
        out = [str(self.b)]
        while not self.b.isempty():
            out.append(self.b.shift())
        return out

    def peek(self, k, p):
        try:
            return self.b.peek()
        except IndexError:
            return "refused"

    queries = [peek, lambda s, k, p: str(s.b), lambda s, k, p: repr(s.b), lambda s, k, p: (bool(s.b.isempty()), bool(s.b.isfull()))]


class Eps:
    strategy = staticmethod(lambda: st.tuples(st.none() | c33.ink, st.lists(c33.step().filter(lambda s: s[0] not in ("reset", "hold", "release", "dashes")), min_size=1, max_size=10)))

    def __init__(self, case, d):
        bg, self.steps = case
        self.c = vector.Canvas(bg)
        self.c.addcircle((50, 60), 5, fill=0.25)
        self.other = None

    def step(self, s):
        k, a, c = s[0], s[1:], self.c
        if k == "ink":
            c.setink(a[0])
        elif k == "gray":
            c.setgray(a[0])
        elif k == "color":
            c.setcolor(*a[0])
        elif k == "width":
            c.setwidth(a[0])
        elif k == "dash":
            c.setdash(a[0], a[1])
        elif k == "circle":
            c.addcircle(a[0], a[1], fill=a[2], stroke=a[3])
        elif k == "poly":
            c.addpolygon(list(a[0]), fill=a[1], stroke=a[2])
        elif k == "line":
            c.addpolyline(list(a[0]), stroke=a[1])
        elif k == "round":
            c.addroundedpolygon(a[0][0], a[0][1], fill=a[1], stroke=a[2])
        elif k == "text":
            c.setink(a[5])
            c.addtext(a[0], a[1], a[2], a[3], a[4])
        elif k == "image":
            c.addimage(a[0], a[1], a[2], a[3], a[4])

    def end(self, d):
        p = os.path.join(d, "end")
        self.c.save(p)
        q = os.path.join(d, "end2")
        self.c.save(q, 300, 10)
        return eps.read(p)[:2], eps.read(q)[:2]

    def save(self, k, p):
        if k % 4:
            self.c.save(p, [None, 100, None, 7][k % 4], [0, 1, 2.5, 30][k % 7 % 4])
        else:
            self.c.save(p)
        return data(p)

    def copied(self, k, p):
        c = self.c.copy()
        c.save(p)
        out = data(p)
        # the copy goes its own way
        c.setwidth(9)
        c.setink((1, 0, 0))
        c.addcircle((1e5, 1e5), 3, fill=.5, stroke=0)
        return out

    def box(self, k, p):
        b = self.c.bbox
        return b.x0, b.y0, b.x1, b.y1, b.center(), b.area()

    queries = [save, save, copied, box]


class Pixels:
    strategy = staticmethod(lambda: st.tuples(st.sampled_from(["bw", "gray", "color"]), st.integers(0, 255),
                            st.lists(st.tuples(st.sampled_from(["pixel", "line", "aaline", "ring", "fill", "stroke"]), c22.vertex, c22.vertex, c22.vertex, st.integers(0, 255)), min_size=1, max_size=8)))

    def __init__(self, case, d):
        self.kind, bg, self.steps = case
        self.c = {"bw": raster.BWCanvas, "gray": raster.GrayCanvas, "color": raster.ColorCanvas}[self.kind](c22.W, c22.H, self.ink(bg))
        self.scans = None

    def ink(self, v):
        return v % 2 if self.kind == "bw" else v if self.kind == "gray" else (v, 255 - v, v * 7 % 256)

    def at(self, v):
        return int(v[0]) % c22.W, int(v[1]) % c22.H

    def step(self, s):
        op, a, b, c, v = s
        if op == "pixel":
            self.c[self.at(a)] = self.ink(v)
        elif op == "line" or op == "aaline" and self.kind == "bw":
            self.c.line(self.at(a), self.at(b), self.ink(v))
        elif op == "aaline":
            self.c.aaline(self.at(a), self.at(b), self.ink(v))
        elif op == "stroke":
            self.c.strokepolygon([self.at(a), self.at(b), self.at(c)], self.ink(v))
        elif op == "ring":
            self.scans = self.c.scanpolygon([a, b, c], self.scans)
        elif self.scans:
            self.c.fillpolygons(self.scans, self.ink(v))
            self.scans = None

    def end(self, d):
        if self.scans:
            self.c.fillpolygons(self.scans, self.ink(3))
        self.c.save(os.path.join(d, "end"))
        return data(os.path.join(d, "end"))

    def save(self, k, p):
        self.c.save(p)
        return data(p)

    def row(self, k, p):
        return [self.c[x, k % c22.H] for x in range(c22.W)]

    def scan(self, k, p):
        self.c.scanpolygon([(1, 1), (k % c22.W, 5), (3, c22.H - 1)])
        return self.c.width, self.c.height

    queries = [save, row, row, scan]


class Shp:
    strategy = staticmethod(lambda: st.tuples(c23.dataset(5), st.booleans()))

    def __init__(self, case, d):
        (self.t, shapes), late = case
        self.w = shapefile.Writer(None if late and shapes and self.t in (3, 5) else self.t)
        self.w.field("N", "N", 6)
        self.w.field("T", "C", 8)
        self.steps = [(i, s, half) for i, s in enumerate(shapes) for half in (0, 1)]

    def step(self, s):
        i, shape, half = s
        if half:
            self.w.record(i, "t%d" % i)
        else:
            c23.add(self.w, self.t, shape)

    def end(self, d):
        fs = [io.BytesIO() for _ in range(3)]
        self.w.save(shp=fs[0], shx=fs[1], dbf=fs[2])
        b = [f.getvalue() for f in fs]
        return b[0], b[1], b[2][4:]

    def save(self, k, p):
        self.w.save(p)
        return [data(p + e) if e != ".dbf" else data(p + e)[4:] for e in (".shp", ".shx", ".dbf")]

    def part(self, k, p):
        f = io.BytesIO()
        if k % 3 == 0:
            self.w.saveDbf(f)
            return f.getvalue()[4:]
        self.w.saveShp(f)
        if k % 3 == 1:
            return f.getvalue()
        f = io.BytesIO()
        self.w.saveShx(f)
        return f.getvalue()

    def shapes(self, k, p):
        return [c42.look(s) for s in self.w.shapes()]

    def one(self, k, p):
        n = len(self.w.shapes())
        return c42.look(self.w.shape(k % n)) if n else None

    def about(self, k, p):
        return list(map(list, self.w.records)), [list(f) for f in self.w.fields if f[0] != "DeletionFlag"], self.w.bbox() if self.w.shapes() else None

    queries = [save, part, part, shapes, one, about]


class Edit(Shp):
    strategy = staticmethod(lambda: st.tuples(c25.dataset(maxn=4, allow_deleted=False, encs=("utf-8",)).filter(lambda ds: ds[0]), st.lists(st.tuples(st.sampled_from(["delete", "add", "point"]), st.integers(0, 9)), min_size=1, max_size=4)))

    def __init__(self, case, d):
        ds, self.steps = case
        t, shapes, enc, fields, rows, deleted, surplus = ds
        fields = [(n, ty, 18 if ty == "N" and dec else size, dec) for n, ty, size, dec in fields]
        ds = t, shapes, enc, fields, rows, deleted, surplus
        base = os.path.join(d, "in")
        c26.put(base, *c25.files(ds)[1:])
        self.w = shapefile.Editor(base)
        self.t = t

    def step(self, s):
        op, k = s
        n = len(self.w.shapes())
        if op == "delete" and n:
            self.w.delete(k % n)
            del self.w.records[k % n]
        elif op == "point" and self.t in (1, 11, 21):
            self.w.point(k, -k)
        elif op == "add":
            self.w.null()
            self.w.balance()


class Mixed:
    "Pure functions and objects: any call between two others."
    strategy = staticmethod(lambda: st.tuples(projs.config(), c11.box, c13.stops, st.lists(st.tuples(gen.geo, st.sampled_from(["out", "back", "point", "get", "hex", "box", "code", "avg", "name"]), st.integers(0, 9)), min_size=2, max_size=8)))

    def __init__(self, case, d):
        cfg, box, stops, self.steps = case
        self.p = projs.make(cfg)
        self.b = bbox.BBox(box[:2], box[2:])
        self.f = frame.Frame(self.p, self.b)
        self.g = gradient.Gradient([tuple(s) for s in stops])
        self.v = grid.FVar("x", -200, 200, 2, True)
        self.row = grid.GRow(self.v, grid.SVar("s", 8))
        stats.cache_clear()

    def call(self, q, op, k):
        lon, lat = q
        if op == "out":
            return self.p.geo2rect(lon, lat)
        elif op == "back":
            return self.p.rect2geo(lon * 1000, lat * 1000)
        elif op == "point":
            return self.f.point(1000 + k, q), [tuple(x) for x in self.f.planify(5000, [q, (lon / 2, lat / 3), (lon / 3, lat)])]
        elif op == "get":
            return self.g.get(lon)
        elif op == "hex":
            return self.g.get_hex(lon * k)
        elif op == "box":
            b = self.b | bbox.BBox(q, (k, k))
            c = self.b & b
            return (b.x0, b.y0, b.x1, b.y1), bool(c), q in self.b, self.b.has_bbox(b), self.b.collide(b), b.area(), self.b == b
        elif op == "code":
            return self.row.encode(lon, "s%d" % k), self.row.decode(self.row.encode(None, "s")), str(self.v)
        elif op == "avg":
            s = tuple(float(i * k) for i in range(1 + k))
            return stats.avg(s), stats.var(s), stats.max(s), stats.len(s), stats.gini_deaton(tuple(v + 1 for v in s)) if k else None
        return names.damlev("name %d" % k, "%r" % lon), names.jaro("abcdef"[:k], "badce"), names.ascii("é%dã" % k)

    def step(self, s):
        try:
            return self.call(*s)
        except (Violation, Budget, MemoryError):
            raise
        except Exception as e:
            return type(e).__name__

    def end(self, d):
        p = os.path.join(d, "end")
        self.f.save(p)
        b = frame.load(p).bounding
        return data(p), (self.b.x0, self.b.y0, self.b.x1, self.b.y1), (b.x0, b.y0, b.x1, b.y1)

    def other(self, k, p):
        r = random.Random(k)
        return self.step(((r.uniform(-180, 180), r.uniform(-90, 90)), r.choice(["out", "back", "point", "get", "hex", "box", "code", "avg", "name"]), k % 10))

    def save(self, k, p):
        self.f.save(p)
        f = frame.load(p)
        return data(p), type(f.projection).__name__

    queries = [other, other, other, save]


SUBJECTS = {"buffer": Ring, "eps": Eps, "pixels": Pixels, "shapefile": Shp, "editor": Edit, "mixed": Mixed}


def run(S, case, d, looks, seed):
    "Outcomes of the steps and in the end; with queries in between if there is a number of them."
    os.mkdir(d)
    s = S(case, d)
    r = random.Random(seed)
    out, asked = [], 0
    for i in range(len(s.steps) + 1):
        for _ in range(looks if r.random() < .7 else 0):
            q, k = r.choice(S.queries), r.randrange(1000)
            got = []
            # asked twice, another question in between at times
            for j in range(2):
                try:
                    got.append(q(s, k, os.path.join(d, "q%d.%d" % (k, j))))
                except (Violation, Budget, MemoryError, IndexError, KeyError):
                    raise
                except shapefile.ShapefileException as e:
                    got.append(("refused", str(e)))
                if j == 0 and r.random() < .3:
                    r.choice(S.queries)(s, k + 1, os.path.join(d, "o%d" % k))
            need(got[0] == got[1], "after {} steps of {}: {} gives {}, then {}", i, s.steps[:i], q.__name__, got[0], got[1])
            asked += 1
        if i < len(s.steps):
            out.append(s.step(s.steps[i]))
    return out, s.end(d), asked


def looking(case):
    kind, c, looks, seed = case
    S = SUBJECTS[kind]
    d = Scratch.fresh()
    plain = run(S, c, os.path.join(d, "a"), 0, seed)
    asked = run(S, c, os.path.join(d, "b"), looks, seed)
    for i, (x, y) in enumerate(zip(plain[0], asked[0])):
        need(x == y, "{}: step {} gives {}, and {} after queries", kind, i, x, y)
    need(plain[1] == asked[1], "{}: ends in {}, and after {} queries in {}", kind, plain[1], asked[2], asked[1])
    return kind if asked[2] else False


FACETS = [
    Facet("looking", lambda: st.sampled_from(sorted(SUBJECTS)).flatmap(lambda k: st.tuples(st.just(k), SUBJECTS[k].strategy(), st.sampled_from([1, 1, 2, 4]), st.integers(0, 10 ** 6))), looking,
          "histories of six kinds of objects with and without queries, copies and saves in between, each asked twice; with at least one query", 4000, budget=30000000, weight=3),
]
