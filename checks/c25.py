import io
import os
from hypothesis import assume, strategies as st
from vlib import shp as SP
from vlib import gen
from vlib.engine import Facet, Scratch, fail, need
from coral import shapefile

ASSUMPTIONS = ["measures are no data below -1e38, as the format says",
               "attribute tables have text, number, float, date and logical fields"]

num = st.integers(-1000, 1000) | st.integers(-10 ** 6, 10 ** 6).map(lambda i: i / 1024) | st.floats(-1e15, 1e15, allow_nan=False)

mnum = num | st.sampled_from([-9.9e37, -1e37, 1e38, 1e39, 1.7e308])


@st.composite
def geo(draw, t):
    if t == 0 or draw(st.integers(0, 6)) == 0:
        return (0, [], None, None, None, None)
    k = SP.BASE[t]
    n = 1 if k == "point" else draw(st.integers(1, 7))
    pts = [draw(st.tuples(num, num)) for _ in range(n)]
    parts = pt = z = m = None
    if k in ("line", "poly", "patch"):
        parts = [0] + sorted(draw(st.sets(st.integers(1, n - 1), max_size=2))) if n > 1 else [0]
        if k == "patch":
            pt = [draw(st.integers(0, 5)) for _ in parts]
    if t in SP.HAS_Z:
        z = [draw(num) for _ in pts]
    if t in SP.HAS_M:
        how = draw(st.sampled_from(["all", "mixed", "nodata"] + ["none"] * 2))
        if how != "none":
            m = [None if how == "nodata" or (how == "mixed" and draw(st.booleans())) else draw(mnum) for _ in pts]
    return (t, pts, parts, pt, z, m)


ENC = {"utf-8": "abc é漢ß€ 01", "latin-1": "abc éÿß 01", "cp1252": "abc é€ 01", "cp850": "abc éñ 01"}


@st.composite
def cell(draw, enc, f):
    name, t, size, dec = f
    k = draw(st.integers(0, 5))
    if k == 0:
        return b"", ""
    if t == "C":
        s = draw(st.text(ENC[enc], max_size=size)).strip()
        while len(s.encode(enc)) > size:
            s = s[:-1].strip()
        return s.encode(enc), s
    if t == "F" and draw(st.booleans()) and size > 12:
        v = draw(st.integers(-9999, 9999) | st.floats(-1e9, 1e9) | st.floats(-1e17, 1e17))
        s = "%.*e" % (draw(st.sampled_from([0, 2, size - 9, size - 9])), v)
        return s.encode(), float(s)
    if t in "NF":
        if dec:
            v = draw(st.integers(-9999, 9999)) / 10 ** dec
            s = "%.*f" % (dec, v)
            if len(s) > size:
                s = "0.5"
            return s.encode(), float(s)
        v = draw(st.integers(-10 ** (size - 1) + 1, 10 ** size - 1) if size > 1 else st.integers(0, 9))
        s = str(v)
        if draw(st.booleans()):
            s = s.ljust(size)
        return s.encode(), v
    if t == "D":
        y, m, d = draw(st.tuples(st.integers(1, 9999), st.integers(1, 12), st.integers(1, 31)))
        return b"%04d%02d%02d" % (y, m, d), [y, m, d]
    v = draw(st.sampled_from("TtYyFfNn?"))
    return v.encode(), "T" if v in "TtYy" else "F" if v in "FfNn" else "?"


@st.composite
def dataset(draw, maxn=6, minf=1, allow_deleted=True, encs=tuple(ENC)):
    t = draw(st.sampled_from(SP.TYPES + [0]))
    shapes = draw(st.lists(geo(t), max_size=maxn))
    enc = draw(st.sampled_from(encs))
    names = draw(st.lists(st.sampled_from(["A", "NAME", "VALUE_10CH", "X1", "data", "Z"]), min_size=minf, max_size=4, unique=True))
    fields = []
    for n in names:
        ty = draw(st.sampled_from("CNNFDL"))
        size, dec = {"C": (draw(st.integers(1, 20)), 0), "D": (8, 0), "L": (1, 0)}.get(ty) or draw(st.sampled_from([(5, 0), (1, 0), (18, 0), (9, 2), (12, 4), (19, 11)]))
        fields.append((n, ty, size, dec))
    rows = [[draw(cell(enc, f)) for f in fields] for _ in shapes]
    deleted = sorted(draw(st.sets(st.integers(0, max(0, len(shapes) - 1)), max_size=3))) if allow_deleted and shapes and draw(st.booleans()) else []
    surplus = [draw(st.sampled_from([0, 0, 2, 4, 8, 14, 24, 40, 62, 1000])) for _ in shapes] if draw(st.integers(0, 2)) == 0 else []
    return t, shapes, enc, fields, rows, deleted, surplus


def files(ds, junk=b"", **hdr):
    t, shapes, enc, fields, rows, deleted, surplus = ds
    gs = [SP.Geo(*s) for s in shapes]
    # surplus content must not look like measures
    room = lambda g: (8 if SP.BASE[g.type] == "point" else 16 + 8 * len(g.points)) - 2
    sur = [min(n, room(g)) if g.type in SP.HAS_M and g.m is None else n for g, n in zip(gs, surplus)]
    shp, shx = SP.encode(t, gs, sur, **hdr)
    return gs, shp, shx, SP.encode_dbf(fields, [[c[0] for c in r] for r in rows], deleted, enc, junk=junk)


def foreign(case):
    ds, how, hdr, nodata, junk = case
    t, shapes, enc, fields, rows, deleted, surplus = ds
    extra = {"nodata": nodata, "junk": junk}
    if hdr:
        extra.update(bbox=hdr[:4], z=hdr[4:6], m=hdr[6:8])
    gs, shp, shx, dbf = files(ds, **extra)
    args = {} if enc == "utf-8" else {"encoding": enc}
    if how == "path":
        base = os.path.join(Scratch.fresh(), "in")
        for e, d in (("shp", shp), ("shx", shx), ("dbf", dbf)):
            with open(base + "." + e, "wb") as f:
                f.write(d)
        r = shapefile.Reader(base, **args)
    elif how == "noshx":
        r = shapefile.Reader(shp=io.BytesIO(shp), dbf=io.BytesIO(dbf), **args)
    else:
        r = shapefile.Reader(shp=io.BytesIO(shp), shx=io.BytesIO(shx), dbf=io.BytesIO(dbf), **args)
    need(r.shapeType == t, "shape type {}, in the file {}", r.shapeType, t)
    if hdr:
        need(tuple(r.bbox) == tuple(hdr[:4]), "bounding box {}, in the file {}", list(r.bbox), hdr[:4])
        need(tuple(r.elevation) == tuple(hdr[4:6]), "elevation range {}, in the file {}", list(r.elevation), hdr[4:6])
        need(tuple(r.measure) == tuple(hdr[6:8]), "measure range {}, in the file {}", list(r.measure), hdr[6:8])
    need(r.numRecords == len(rows), "{} records reported, in the file {}", r.numRecords, len(rows))
    need([tuple(f) for f in r.fields if f[0] != "DeletionFlag"] == list(fields), "fields {}, in the file {}", r.fields, fields)
    got = r.shapes()
    need(len(got) == len(gs), "{} shapes read, {} in the file", len(got), len(gs))
    for i, (a, g) in enumerate(zip(got, gs)):
        SP.same(a, g, "shape {}".format(i))
    want = [[c[1] for c in row] for row in rows]
    live = [i for i in range(len(rows)) if i not in deleted]
    recs = [list(x) for x in r.records()]
    need(recs == [want[i] for i in live], "records read {}, in the file {}", recs, [want[i] for i in live])
    whole = [n for n, f in enumerate(fields) if f[1] == "F" and not f[3]]
    kinds = [[float if n in whole and type(v) is int else type(v) for n, v in enumerate(x)] for x in recs + [want[i] for i in live]]
    need(kinds[:len(recs)] == kinds[len(recs):], "types of {} against {}", recs, want)
    pairs = r.shapeRecords()
    need(len(pairs) == len(live), "{} shape-record pairs, {} rows are not deleted", len(pairs), len(live))
    for p, i in zip(pairs, live):
        need(list(p.record) == want[i], "pair of shape {}: record {}, in the file {}", i, p.record, want[i])
        SP.same(p.shape, gs[i], "shape {} paired with its record".format(i))
    for i in live:
        need(list(r.record(i)) == want[i], "record({}) is {}, in the file {}", i, r.record(i), want[i])
        SP.same(r.shape(i), gs[i], "shape({})".format(i))
    if how == "path":
        r.shp.close(), r.shx.close(), r.dbf.close()
    if not shapes:
        return False
    return "type {}".format(t) + (" deleted rows" if deleted else "") + (" surplus" if any(surplus) else "")


@st.composite
def bulk(draw, allow_deleted=True, encs=tuple(ENC)):
    r = draw(gen.seeds)
    t = draw(st.sampled_from(SP.TYPES))
    n, npts, nparts, nf = draw(st.sampled_from([(300, 5, 2, 2), (3, 900, 4, 2), (3, 400, 130, 2), (60, 20, 5, 10), (4, 4, 2, 130)]))
    v = lambda: r.choice([r.randint(-1000, 1000), r.uniform(-1e6, 1e6)])
    shapes = []
    for _ in range(gen.upto(r, n)):
        if r.random() < .1:
            shapes.append((0, [], None, None, None, None))
            continue
        k = SP.BASE[t]
        m = 1 if k == "point" else gen.upto(r, npts)
        pts = [(v(), v()) for _ in range(m)]
        parts = pt = z = ms = None
        if k in ("line", "poly", "patch"):
            parts = [0] + sorted(r.sample(range(1, m), min(m - 1, gen.upto(r, nparts) - 1)))
            pt = [r.randint(0, 5) for _ in parts] if k == "patch" else None
        if t in SP.HAS_Z:
            z = [v() for _ in pts]
        if t in SP.HAS_M and r.random() < .7:
            ms = [None if r.random() < .2 else v() for _ in pts]
        shapes.append((t, pts, parts, pt, z, ms))
    enc = draw(st.sampled_from(encs))
    fields = []
    for i in range(gen.upto(r, nf)):
        ty = r.choice("CNFDL")
        size, dec = {"C": (r.choice([1, 20, 254]), 0), "D": (8, 0), "L": (1, 0)}.get(ty) or r.choice([(5, 0), (18, 0), (9, 2)])
        fields.append(("F%d" % i, ty, size, dec))

    def cell(f):
        name, ty, size, dec = f
        if r.random() < .1:
            return b"", ""
        if ty == "C":
            s = "".join(r.choice(ENC[enc]) for _ in range(r.randint(0, size))).strip()
            while len(s.encode(enc)) > size:
                s = s[:-1].strip()
            return s.encode(enc), s
        if ty in "NF":
            s = "%.*f" % (dec, r.randint(-99999, 99999) / 10 ** dec) if dec else str(r.randint(-10 ** (size - 1) + 1, 10 ** size - 1))
            return s.encode(), float(s) if dec else int(s)
        if ty == "D":
            d = [r.randint(1, 9999), r.randint(1, 12), r.randint(1, 31)]
            return b"%04d%02d%02d" % tuple(d), d
        x = r.choice("TF?")
        return x.encode(), x
    rows = [[cell(f) for f in fields] for _ in shapes]
    deleted = sorted(r.sample(range(len(shapes)), r.randint(0, len(shapes) // 2))) if allow_deleted and r.random() < .5 else []
    surplus = [r.choice([0, 0, 2, 8, 40, 400, 3000]) for _ in shapes] if r.random() < .4 else []
    return t, shapes, enc, fields, rows, deleted, surplus


hdr = st.none() | st.lists(st.floats(-1e9, 1e9, allow_nan=False), min_size=8, max_size=8)
FACETS = [
    Facet("foreign", lambda: st.tuples(dataset(), st.sampled_from(["path", "file", "noshx"]), hdr, st.sampled_from([-1e39, -1.7e308, -3e40, -1.0001e38, -3e38, -9.9e38]), st.sampled_from([b"", b"", b"", b"JUNK\0MORE", b"QUX", b"\0x\xff\xfe ", b"          "])), foreign,
          "independently encoded sets of 0..6 shapes of any type: optional measures, nulls, no-data, surplus content, deleted rows, four encodings; at least one shape", 5000),
    Facet("bulk", lambda: st.tuples(bulk(), st.sampled_from(["path", "file", "noshx"]), st.none(), st.just(-1e39), st.just(b"")), foreign,
          "independently encoded sets of up to 300 shapes, 900 points, 130 parts or 130 fields; at least one shape", 60, budget=60000000),
]
