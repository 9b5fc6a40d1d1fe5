import io
import os
from hypothesis import strategies as st
from vlib import projs, shp as SP
from vlib.engine import Budget, Facet, Scratch, Violation, need, raises
from checks import c11, c25, c26
from coral import frame, shapefile

ASSUMPTIONS = ["the intact sets are conforming shapefiles, as in C25",
               "files are cut short or missing, not altered; without attribute table and index, negative indexes into a cut geometry file are not judged",
               "a geometry file cut between two records may be read as the records before the cut"]


def attempt(func):
    "-> (True, result) or (False, None) if it was refused."
    try:
        return True, func()
    except (Violation, Budget):
        raise
    except Exception:
        return False, None


ops = st.lists(st.tuples(st.sampled_from(["shape", "shape", "negshape", "negshape", "record", "negrecord", "pair", "shapes", "records", "iter", "iterrec", "pairs"]), st.integers(0, 11)), min_size=2, max_size=10)


def cuts(n, fr):
    if n <= 300:
        return range(n)
    return sorted({min(n - 1, int(f * n)) for f in fr} | set(range(0, 120, 7)) | set(range(n - 30, n)))


def opened(parts, args, how):
    if how == "path":
        base = os.path.join(Scratch.fresh(), "in")
        c26.put(base, *(parts.get(k) for k in ("shp", "shx", "dbf")))
        return shapefile.Reader(base, **args)
    return shapefile.Reader(**{k: io.BytesIO(v) for k, v in parts.items()}, **args)


def history(r, gs, want, deleted, todo, exact, what):
    """Every answer is the one of the intact set, or a refusal.
    exact: the number of items is beyond doubt."""
    n = len(gs)
    live = [i for i in range(n) if i not in deleted]

    def shape(got, i, w):
        SP.same(got, gs[i], w)

    def rec(got, i, w):
        need((got is None) == (i in deleted), "{}: row {} gives {}", w, i, got)
        need(got is None or list(got) == want[i], "{}: row {} gives {}, written {}", w, i, got, want[i] if i < len(want) else None)
    served = refused = 0
    for op, k in todo:
        i = k % n if n else 0
        w = "{}, {}({})".format(what, op, i)
        if op in ("shape", "negshape", "record", "negrecord", "pair") and not n:
            continue
        if op.startswith("neg") and not exact:
            continue
        if op == "shape":
            ok, got = attempt(lambda: r.shape(i))
            if ok:
                shape(got, i, w)
        elif op == "negshape":
            ok, got = attempt(lambda: r.shape(i - n))
            if ok:
                shape(got, i, w)
        elif op == "record":
            ok, got = attempt(lambda: r.record(i))
            if ok:
                rec(got, i, w)
        elif op == "negrecord":
            ok, got = attempt(lambda: r.record(i - n))
            if ok:
                rec(got, i, w)
        elif op == "pair":
            ok, got = attempt(lambda: r.shapeRecord(i))
            if ok:
                shape(got.shape, i, w)
                rec(got.record, i, w)
        elif op in ("shapes", "iter"):
            ok, got = attempt(lambda: r.shapes() if op == "shapes" else list(r.iterShapes()))
            if ok:
                need(len(got) <= n, "{}: {} shapes, written {}", w, len(got), n)
                for j, s in enumerate(got):
                    shape(s, j, w)
        elif op in ("records", "iterrec"):
            ok, got = attempt(lambda: r.records() if op == "records" else list(r.iterRecords()))
            if ok:
                need([list(x) for x in got] == [want[j] for j in live], "{}: {}, written {}", w, got, [want[j] for j in live])
        else:
            ok, got = attempt(lambda: r.shapeRecords())
            if ok:
                need(len(got) <= len(live), "{}: {} pairs, written {}", w, len(got), len(live))
                for p, j in zip(got, live):
                    shape(p.shape, j, w)
                    rec(p.record, j, w)
        served += ok
        refused += not ok
    return served, refused


def cutting(case):
    ds, which, having, fr, todo, how = case
    t, shapes, enc, fields, rows, deleted, surplus = ds
    gs, shp, shx, dbf = c25.files(ds)
    parts = {"shp": shp, "shx": shx, "dbf": dbf}
    if how != "path":
        parts = {k: v for k, v in parts.items() if k in having or k == which}
        if set(parts) == {"shx"}:
            parts["shp"] = shp
    args = {} if enc == "utf-8" else {"encoding": enc}
    want = [[c[1] for c in row] for row in rows]
    data = parts[which]
    exact = which == "shx" or "dbf" in parts or "shx" in parts
    total = refusals = 0
    for n in cuts(len(data), fr):
        what = "{} of {} bytes cut to {}".format(which, len(data), n)
        ok, r = attempt(lambda: opened({**parts, which: data[:n]}, args, how))
        if not ok:
            refusals += 1
            continue
        s, f = history(r, gs, want, deleted, todo, exact, what)
        total += s
        refusals += f
        if how == "path":
            c26.shut(r)
        if which == "dbf" and n < len(data) - 1 and rows:
            # every row counts
            r = opened({**parts, which: data[:n]}, args, "files")
            need(not attempt(lambda: r.records())[0], "{}: the records are read without an error", what)
    r = opened(parts, args, how)
    s, f = history(r, gs, want, deleted, [o for o in todo if ("dbf" in parts or o[0] not in ("record", "negrecord", "pair", "records", "iterrec", "pairs"))
                                            and ("shp" in parts or o[0] in ("record", "negrecord", "records", "iterrec"))], True, "intact set")
    need(not f, "the intact set is refused")
    if how == "path":
        c26.shut(r)
    if not shapes:
        return False
    return "{}{}".format(which, "" if len(parts) == 3 else " with only " + " ".join(sorted(parts)))


def missing(case):
    ds, gone, ext = case
    gone = set(gone)
    t, shapes, enc, fields, rows, deleted, surplus = ds
    gs, shp, shx, dbf = c25.files(ds)
    parts = {"shp": shp, "shx": shx, "dbf": dbf}
    args = {} if enc == "utf-8" else {"encoding": enc}
    want = [[c[1] for c in row] for row in rows]
    live = [i for i in range(len(rows)) if i not in deleted]
    base = os.path.join(Scratch.fresh(), "in")
    c26.put(base, *(None if k in gone else parts[k] for k in ("shp", "shx", "dbf")))
    # as files: what does not depend on the absent part works, the rest is refused
    have = {k: v for k, v in parts.items() if k not in gone}
    ok, r = attempt(lambda: shapefile.Reader(base + ext, **args))
    need(not ok or gone <= {"shx"}, "{} is missing, the set is opened all the same", sorted(gone))
    if ok:
        c26.shut(r)
    else:
        raises(shapefile.ShapefileException, shapefile.Reader, base + ext, what="opening a set without " + " ".join(sorted(gone)), **args)
        raises(shapefile.ShapefileException, shapefile.Editor, base + ext, what="editing a set without " + " ".join(sorted(gone)))
    if not set(have) & {"shp", "dbf"}:
        if have:
            raises(shapefile.ShapefileException, lambda: shapefile.Reader(**{k: io.BytesIO(v) for k, v in have.items()}), what="opening only " + " ".join(have))
        else:
            # a reader whose files are to be loaded later
            r = shapefile.Reader(**args)
            for f in r.shapes, r.records, r.shapeRecords, lambda: r.shape(0), lambda: r.record(0), lambda: list(r.iterShapes()), lambda: list(r.iterRecords()):
                raises(shapefile.ShapefileException, f, what="reading with no file at all")
        return "nothing left"
    r = shapefile.Reader(**{k: io.BytesIO(v) for k, v in have.items()}, **args)
    X = shapefile.ShapefileException
    n = len(gs)
    for _ in range(2):
        if "shp" in gone:
            for f in (r.shapes, lambda: list(r.iterShapes()), r.shapeRecords) + ((lambda: r.shape(0), lambda: r.shapeRecord(n - 1)) if n else ()):
                raises(X, f, what="reading shapes without the geometry file")
        else:
            got = r.shapes()
            need(len(got) == n, "{} shapes read, written {}", len(got), n)
            for i in range(n):
                SP.same(got[i], gs[i], "shape {}".format(i))
                SP.same(r.shape(i), gs[i], "shape({})".format(i))
        if "dbf" in gone:
            for f in (r.records, lambda: list(r.iterRecords()), r.shapeRecords) + ((lambda: r.record(0), lambda: r.shapeRecord(n - 1)) if n else ()):
                raises(X, f, what="reading records without the attribute table")
        else:
            need([list(x) for x in r.records()] == [want[i] for i in live], "records read")
            need([None if (x := r.record(i)) is None else list(x) for i in range(n)] == [want[i] if i in live else None for i in range(n)], "records read one by one")
    return "without " + " ".join(sorted(gone))


def reading(case):
    "A frame file cut short."
    cfg, b = case
    d = Scratch.fresh()
    p, q = os.path.join(d, "a.json"), os.path.join(d, "b.json")
    c11.build(cfg, b).save(p)
    with open(p) as g:
        text = g.read()
    for n in range(len(text)):
        with open(q, "w") as g:
            g.write(text[:n])
        ok, l = attempt(lambda: frame.load(q))
        if ok:
            bb = l.bounding
            need(not text[n:].strip(), "frame cut to {} of {} characters is loaded", n, len(text))
            need((bb.x0, bb.y0, bb.x1, bb.y1) == tuple(b), "frame cut to {} characters has the box {}", n, bb)
    return cfg[0]


fr = st.lists(st.floats(0, 1), min_size=5, max_size=40)
FACETS = [
    Facet("cut", lambda: st.tuples(c25.dataset(maxn=4), st.sampled_from(["shp", "shx", "dbf"]), st.sets(st.sampled_from(["shp", "shx", "dbf"])) | st.just({"shp", "shx", "dbf"}), fr, ops,
                                   st.sampled_from(["files", "files", "files", "path"])).map(lambda c: (c[0], c[1], sorted(c[2])) + c[3:]), cutting,
          "one file of a set cut at every byte (at up to 90 places if longer than 300 bytes), then 2..10 accesses, refused ones included; at least one shape", 250, weight=4, budget=40000000),
    Facet("missing", lambda: st.tuples(c25.dataset(maxn=4), st.sets(st.sampled_from(["shp", "shx", "dbf"]), min_size=1).map(sorted), st.sampled_from(["", ".shp", ".dbf"])), missing,
          "one to three files of a set missing, by path and as file objects; every case", 600),
    Facet("frame", lambda: st.tuples(projs.config(), c11.box), reading, "a saved frame cut at every character; every case", 40),
]
