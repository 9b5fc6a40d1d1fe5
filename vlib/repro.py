"""Performs operations on request and answers with digests of what came out (used by C37).

Reads lines holding the repr of an operation, answers each with a line."""
import hashlib
import importlib
import os
import sys
sys.dont_write_bytecode = True
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from vlib import engine
from vlib.engine import Scratch
from vlib import projs


def v_abbreviations(lst, length, extras):
    from coral import names
    return list(names.abbreviations(list(lst), length, extras).items())


def v_mapping(keys, values):
    from coral import names
    return [tuple(m) for m in names.mapping(list(keys), list(values))]


def v_join(t1, t2, pivots, keys):
    from coral import table
    from checks import c31
    got = table.join(c31.make(t1), c31.make(t2), pivots, keys)
    table.writefile(Scratch.path("joined.txt"), got)
    return [(r._fields, tuple(r)) for r in got]


def v_geocentroid(region, eps, box):
    from coral import coord
    return coord.geocentroid(region) if eps is None else coord.geocentroid(region, epsilon=eps)


def v_simplify(points, scl, closed):
    from coral import coord
    return list(coord.simplify(points, scl, closed=closed))


def v_project(cfg, points):
    prj = projs.make(cfg)
    out = []
    for p in points:
        try:
            xy = tuple(prj.geo2rect(*p))
            out.append(xy)
            out.append(tuple(prj.rect2geo(*xy)))
        except Exception as e:
            out.append(type(e).__name__)
    return out


def v_navigate(a, b, d):
    from coral import coord
    h = coord.bearing(a[0], a[1], b[0], b[1])
    return h, coord.destination(a[0], a[1], h, d), coord.midpoint(a[0], a[1], b[0], b[1]), coord.haversine(a[0], a[1], b[0], b[1]), coord.bearing2cardinal(h)


def v_gradient(stops, at):
    from coral import gradient
    g = gradient.Gradient(stops)
    return [(g.get(x), g.get_hex(x)) for x in at]


def v_pprint(names, rows):
    import collections
    import contextlib
    import io
    from coral import table
    T = collections.namedtuple("Row", names)
    f = io.StringIO()
    with contextlib.redirect_stdout(f):
        table.pprint([T(*r) for r in rows])
    return f.getvalue()


def v_meter(n, desc, leave):
    import io
    from coral import tqdm
    real, t = tqdm.time.time, [1000]

    def clock():
        t[0] += 7
        return t[0]
    tqdm.time.time = clock
    try:
        f = io.StringIO()
        return list(tqdm.tqdm(range(n), desc, leave=leave, file=f)), f.getvalue()
    finally:
        tqdm.time.time = real


class Named:
    "Entities by name, as Frame.cachenames takes them."
    def __init__(self, ents):
        self.names = [n for n, _ in ents]
        self.ents = dict(ents)

    def get(self, name):
        return self.ents[name]


def v_names(cfg, box, names):
    from coral import bbox, frame
    prj = projs.make(cfg)
    f = frame.Frame(prj, bbox.BBox((-1e9, -1e9), (1e9, 1e9)))
    n = f.cachenames("key", Named([(n, [[(0, 10), (1, 10), (1, 11)]]) for n in dict.fromkeys(names)]))
    return n, f.loadnames("key")


def v_index(names):
    from coral import rg
    w = rg.Writer("data", rg.GRow(rg.IVar("a", 0, 300), rg.SVar("b", 9)))
    for k, n in enumerate(names):
        w.write([[(k, "x" * (k % 9))]], n)
    w.close()
    r = rg.Reader("data")
    out = [r.read(n) for n in names], [e[0] for e in r.index]
    r.close()
    return out


def v_page(bg, texts):
    from coral import vector
    c = vector.Canvas(bg)
    c.addcircle((5, 5), 5, fill=.5)
    for k, (t, font, anchor) in enumerate(texts):
        c.addtext((k, k), t, 8, font, anchor)
    c.save("page.eps", 100)
    c.save("page2.eps")
    return None


def v_text(names, rows):
    from coral import table
    import collections
    T = collections.namedtuple("Row", names)
    table.writefile("t.txt", [T(*r) for r in rows])
    return [(r._fields, tuple(r)) for r in table.readfile("t.txt")]


def each(calls):
    "Outcomes of calls, refusals among them."
    out = []
    for c in calls:
        try:
            out.append(repr(c()))
        except Exception:
            out.append("refused")
    return out


def v_buffer(n, ops):
    from coral import coord
    out = []
    try:
        b = coord.Buffer(n)
    except Exception:
        return "refused"
    for k, op in enumerate(ops):
        out += each([(lambda: b.push(k)) if op == "push" else getattr(b, op)])
        out.append((str(b), bool(b.isempty()), bool(b.isfull())))
    return out


def v_field(kind, args, values, indices):
    from coral import grid
    try:
        f = {"I": grid.IVar, "F": grid.FVar, "S": grid.SVar}[kind]("f", *args)
        row = grid.GRow(f)
    except Exception:
        return "refused"
    out = []
    for v in values:
        out += each([lambda: row.encode(v), lambda: f.encode(v)])
    for k in indices:
        data = bytes(k)
        out += each([lambda: row.decode(data), lambda: f.decode(data)])
    return out


def v_foreign(kind, data, index):
    from coral import pf, rg, shapefile, frame
    for ext in (".p", ".rg", ".shp", ".shx", ".dbf", ".frame"):
        with open("in" + ext, "wb") as f:
            f.write(data)
    with open("in.md", "wb") as f:
        f.write(index)

    def take():
        if kind == "pf":
            r = pf.Reader("in.p")
            out = r.names, [r.read(k) for k in range(len(r))]
            r.close()
        elif kind == "rg":
            r = rg.Reader("in")
            out = r.index, [r.read() for _ in r.index]
            r.close()
        elif kind == "frame":
            return frame.load("in.frame").bounding
        elif kind == "dbf":
            with open("in.dbf", "rb") as f:
                r = shapefile.Reader(dbf=f)
                return r.fields, r.records()
        else:
            with open("in.shp", "rb") as f:
                r = shapefile.Reader(shp=f)
                return r.shapeType, [[list(p) for p in s.points] for s in r.shapes()]
        return out
    return each([take])


def v_anchors(anchors):
    from coral import vector
    c = vector.Canvas()
    c.addcircle((5, 5), 5, fill=.5)
    out = each([lambda: c.addtext((1, 1), "x", 8, "Courier", a) for a in anchors])
    c.save("page.eps")
    return out


def perform(op):
    "-> text that describes the outcome"
    for d, _, files in os.walk(Scratch.dir(), topdown=False):
        for f in files:
            os.remove(os.path.join(d, f))
    os.chdir(Scratch.dir())
    kind, name, args = op
    try:
        if kind == "value":
            engine.Meter.start(60000000)
            res = repr(globals()["v_" + name](*args))
        else:
            m = importlib.import_module("checks." + kind.lower())
            facet = [f for f in m.FACETS if f.name == name][0]
            engine.Meter.start(max(60000000, facet.budget))
            facet.check(args)
            res = "done"
    except BaseException as e:
        if isinstance(e, KeyboardInterrupt):
            raise
        res = "raised " + type(e).__name__
    engine.Meter.stop()
    out = []
    for d, _, files in os.walk(Scratch.dir()):
        for f in files:
            with open(os.path.join(d, f), "rb") as g:
                data = g.read()
            if data[:1] in (b"\x03", b"\x83"):
                # dBASE files hold the date of writing
                data = data[:1] + data[4:]
            out.append(hashlib.blake2b(data, digest_size=6).hexdigest() + ":%d" % len(data))
    return res + " | " + " ".join(sorted(out))


def main():
    answers = os.fdopen(os.dup(1), "w", encoding="utf8", errors="surrogateescape")
    null = os.open(os.devnull, os.O_RDWR)
    os.dup2(null, 1)
    os.dup2(null, 2)
    Scratch.base = sys.argv[1]
    engine.Meter.install()
    for line in sys.stdin.buffer:
        op = engine.literal(line.decode("utf8", "surrogateescape").rstrip("\n"))
        answers.write(perform(op).replace("\n", "\\n").encode("utf8", "backslashreplace").decode("utf8") + "\n")
        answers.flush()


if __name__ == "__main__":
    main()
