import io
import os
from hypothesis import assume, strategies as st
from vlib import shp as SP
from vlib import gen
from vlib.engine import Facet, Scratch, fail, need
from coral import shapefile

ASSUMPTIONS = ["all shapes of one file have the same type or are null; parts are non-empty",
               "multipatches consist of ring parts; elevations and measures are finite, missing measures None"]

num = st.integers(-1000, 1000) | st.integers(-10 ** 6, 10 ** 6).map(lambda i: i / 1024) | st.floats(-1e15, 1e15, allow_nan=False) | st.sampled_from([0, 0.0, 180, -180, 1e-300])
mval = num | st.none()


@st.composite
def part(draw, dims, lo):
    n = draw(st.integers(lo, 5))
    out = []
    for _ in range(n):
        p = [draw(num), draw(num)]
        if dims > 2:
            p.append(draw(num))
        if dims > 3:
            p.append(draw(mval))
        out.append(tuple(p))
    if draw(st.booleans()) and len(out) > 1:
        out.append(out[0])
    return out


@st.composite
def shape(draw, t):
    "-> ('null',) or (parts of coordinate tuples, part types)"
    if draw(st.integers(0, 5)) == 0:
        return None
    k = SP.BASE[t]
    dims = draw(st.integers(2, 4)) if t in SP.HAS_Z else draw(st.sampled_from([2, 4])) if t in SP.HAS_M else 2
    if k == "point":
        return [draw(part(dims, 1))[:1]], None
    nparts = 1 if k == "multi" else draw(st.sampled_from([1, 1, 2, 3]))
    parts = [draw(part(dims, {"multi": 1, "line": 2, "poly": 3, "patch": 3}[k])) for _ in range(nparts)]
    # without part types, all parts default to the shape type
    pt = [draw(st.integers(2, 5)) for _ in parts] if k == "patch" and draw(st.integers(0, 3)) else None
    return parts, pt


@st.composite
def dataset(draw, maxn=6):
    t = draw(st.sampled_from(SP.TYPES))
    return t, draw(st.lists(shape(t), max_size=maxn))


def add(w, t, s):
    if s is None:
        w.null()
        return
    parts, pt = s
    if SP.BASE[t] == "point":
        w.point(*parts[0][0])
    elif t == 31 and pt is None:
        w.poly(parts, shapeType=t)
    elif t == 31:
        w.poly(parts, shapeType=t, partTypes=pt)
    elif t == 3 and len(parts) % 2:
        w.line(parts)
    elif t == 5 and len(parts) % 2:
        w.poly(parts)
    else:
        w.poly(parts, shapeType=t)


def expect(t, s):
    if s is None:
        return SP.Geo(0)
    parts, pt = s
    k = SP.BASE[t]
    out = []
    for p in parts:
        p = [tuple(q) + (0,) * (4 - len(q)) for q in p]
        if k in ("poly", "patch") and tuple(parts[len(out)][0]) != tuple(parts[len(out)][-1]):
            p.append(p[0])
        out.append(p)
    flat = [q for p in out for q in p]
    starts, n = [], 0
    for p in out:
        starts.append(n)
        n += len(p)
    if t == 31 and pt is None:
        pt = [31] * len(parts)
    return SP.Geo(t, [q[:2] for q in flat], starts if k in ("line", "poly", "patch") else None, pt,
                  [q[2] for q in flat] if t in SP.HAS_Z else None, [q[3] for q in flat] if t in SP.HAS_M else None)


def write(case):
    (t, shapes), how, infer = case
    w = shapefile.Writer() if infer else shapefile.Writer(t)
    if infer:
        # the type is that of the first shape that is not null
        assume(any(s for s in shapes) and SP.BASE[t] != "point" or t == 1)
        if not any(shapes):
            t = 0
    w.field("N", "N", 6)
    want = []
    for i, s in enumerate(shapes):
        before = repr(s)
        add(w, t, s)
        need(repr(s) == before, "writing changed the caller's points")
        w.record(i)
        want.append(expect(t, s))
    if how == "path":
        base = os.path.join(Scratch.fresh(), "out")
        w.save(base)
        files = []
        for e in ("shp", "shx", "dbf"):
            with open(base + "." + e, "rb") as f:
                files.append(f.read())
        r = shapefile.Reader(base)
    else:
        fs = [io.BytesIO() for _ in range(3)]
        w.save(shp=fs[0], shx=fs[1], dbf=fs[2])
        files = [f.getvalue() for f in fs]
        r = shapefile.Reader(shp=fs[0], shx=fs[1], dbf=fs[2])
    h, stored = SP.decode(files[0], files[1])
    need(h["type"] == t, "file of type {}, expected {}", h["type"], t)
    need(len(stored) == len(want), "{} shapes written, {} in the file", len(want), len(stored))
    for i, (a, b) in enumerate(zip(stored, want)):
        SP.same_geo(a, b, "shape {}".format(i))
    need(r.shapeType == t, "read back as type {}, written {}", r.shapeType, t)
    got = r.shapes()
    need(len(got) == len(want), "{} shapes written, {} read", len(want), len(got))
    for i, (a, b) in enumerate(zip(got, want)):
        SP.same(a, b, "shape {} of {}".format(i, len(want)))
        SP.same(r.shape(i), b, "shape({})".format(i))
    if how == "path":
        r.shp.close(), r.shx.close(), r.dbf.close()
    real = sum(s is not None for s in shapes)
    return "type {}{}".format(t, " and null" if real < len(shapes) else "") if real else "only null" if shapes else False


def rshape(r, t, nparts, npts):
    "A shape drawn from one seed."
    if r.random() < .1:
        return None
    k = SP.BASE[t]
    dims = r.randint(2, 4) if t in SP.HAS_Z else r.choice([2, 4]) if t in SP.HAS_M else 2
    v = lambda: r.choice([r.randint(-1000, 1000), r.randint(-10 ** 6, 10 ** 6) / 1024, r.uniform(-1e6, 1e6)])

    def point():
        p = (v(), v())
        if dims > 2:
            p += (v(),)
        if dims > 3:
            p += (v() if r.random() < .9 else None,)
        return p
    if k == "point":
        return [[point()]], None
    parts = []
    for _ in range(1 if k == "multi" else gen.upto(r, nparts)):
        q = [point() for _ in range(r.randint({"multi": 1, "line": 2, "poly": 3, "patch": 3}[k], max(3, npts)))]
        if r.random() < .5:
            q.append(q[0])
        parts.append(q)
    return parts, [r.randint(2, 5) for _ in parts] if k == "patch" and r.random() < .8 else None


@st.composite
def bulk(draw):
    t, r = draw(st.sampled_from(SP.TYPES)), draw(gen.seeds)
    n, nparts, npts = draw(st.sampled_from([(300, 1, 3), (140, 2, 4), (3, 140, 4), (3, 3, 300), (3, 1, 1200), (30, 20, 8)]))
    n = gen.upto(r, n)
    return t, [rshape(r, t, gen.upto(r, nparts), r.randint(1, npts)) for _ in range(n)]


FACETS = [
    Facet("write", lambda: st.tuples(dataset(), st.sampled_from(["path", "file"]), st.sampled_from([False, False, False, True])), write,
          "0..6 shapes of any type with nulls in between, 1..3 parts, points given with 2, 3 or 4 coordinates; at least one shape", 5000),
    Facet("bulk", lambda: st.tuples(bulk(), st.sampled_from(["path", "file"]), st.just(False)), write,
          "up to 300 shapes, 140 parts or 1200 points of any type; at least one shape", 80, budget=60000000),
]
