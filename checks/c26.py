import io
import os
from hypothesis import assume, strategies as st
from vlib import shp as SP
from vlib import gen
from vlib.engine import Facet, Scratch, fail, need, raises
from checks import c23, c25
from coral import shapefile

ASSUMPTIONS = ["the editor is used on sets without deleted rows, in UTF-8",
               "iterators are not carried on with after other files are loaded"]


def put(base, shp, shx, dbf):
    for e, d in (("shp", shp), ("shx", shx), ("dbf", dbf)):
        if d is not None:
            with open(base + "." + e, "wb") as f:
                f.write(d)


def shut(r):
    for f in (r.shp, r.shx, r.dbf):
        if f is not None and not isinstance(f, io.BytesIO):
            f.close()


def access(case):
    ds, how, ops = case
    t, shapes, enc, fields, rows, deleted, surplus = ds
    gs, shp, shx, dbf = c25.files(ds)
    n = len(gs)
    args = {} if enc == "utf-8" else {"encoding": enc}
    if how == "path":
        base = os.path.join(Scratch.fresh(), "in")
        put(base, shp, shx, dbf)
        r = shapefile.Reader(base, **args)
    elif how == "ext":
        base = os.path.join(Scratch.fresh(), "in")
        put(base, shp, shx, dbf)
        r = shapefile.Reader(base + ".shp", **args)
    else:
        kw = {"shp": io.BytesIO(shp), "shx": io.BytesIO(shx), "dbf": io.BytesIO(dbf)}
        if how in ("noshx", "shponly"):
            del kw["shx"]
        if how in ("nodbf", "shponly"):
            del kw["dbf"]
        for f in kw.values():
            f.seek(7)
        r = shapefile.Reader(**kw, **args)
    tab = how not in ("nodbf", "shponly")
    want = [[c[1] for c in row] for row in rows]
    live = [i for i in range(n) if i not in deleted]
    hist = []
    its = []

    def rec(got, i, what):
        if i in deleted:
            need(got is None, "{}: row {} is deleted, got {}", what, i, got)
        else:
            need(list(got) == want[i], "{}: record {} is {}, expected {}", what, i, got, want[i])
    for op, k in ops:
        i = k % (n + 2) - 1 if op.endswith("bad") else k % n if n else None
        hist.append("{}({})".format(op, "" if i is None else i))
        h = "; ".join(hist)
        if op == "shape" and n:
            SP.same(r.shape(i), gs[i], h)
        elif op == "negshape" and n:
            SP.same(r.shape(i - n), gs[i], h)
        elif op == "record" and n and tab:
            rec(r.record(i), i, h)
        elif op == "negrecord" and n and tab:
            rec(r.record(i - n), i, h)
        elif op == "pair" and n and tab:
            p = r.shapeRecord(i)
            SP.same(p.shape, gs[i], h)
            rec(p.record, i, h)
            p = r.shapeRecord(i - n)
            SP.same(p.shape, gs[i], h)
            rec(p.record, i, h)
        elif op == "bad":
            # one past either end, or far away
            for j in (n, -n - 1, n + 1 + k, -n - 2 - k):
                raises(IndexError, r.shape, j, what="{}: shape({}) of {}".format(h, j, n))
                if tab:
                    raises(IndexError, r.record, j, what="{}: record({}) of {}".format(h, j, n))
                    raises(IndexError, r.shapeRecord, j, what="{}: shapeRecord({}) of {}".format(h, j, n))
        elif op == "shapes":
            got = r.shapes()
            need(len(got) == n, "{}: {} shapes of {}", h, len(got), n)
            for a, g in zip(got, gs):
                SP.same(a, g, h)
        elif op == "records" and tab:
            got = [list(x) for x in r.records()]
            need(got == [want[j] for j in live], "{}: {}, expected {}", h, got, [want[j] for j in live])
        elif op == "pairs" and tab:
            got = r.shapeRecords()
            need(len(got) == len(live), "{}: {} pairs of {}", h, len(got), len(live))
            for p, j in zip(got, live):
                SP.same(p.shape, gs[j], h)
                rec(p.record, j, h)
        elif op == "iter":
            its.append(["s", r.iterShapes(), 0])
        elif op == "iterrec" and tab:
            its.append(["r", r.iterRecords(), 0])
        elif op == "step" and its:
            it = its[k % len(its)]
            try:
                a = next(it[1])
            except StopIteration:
                need(it[2] == (n if it[0] == "s" else len(live)), "{}: iteration ends after {} items", h, it[2])
                its.remove(it)
                continue
            if it[0] == "s":
                need(it[2] < n, "{}: iteration goes on after {} shapes", h, n)
                SP.same(a, gs[it[2]], h)
            else:
                need(it[2] < len(live), "{}: iteration goes on after {} records", h, len(live))
                rec(a, live[it[2]], h)
            it[2] += 1
    got = list(r.iterShapes())
    need(len(got) == n, "iteration yields {} shapes of {}", len(got), n)
    for a, g in zip(got, gs):
        SP.same(a, g, "iterated shape")
    if tab:
        need([list(x) for x in r.iterRecords()] == [want[j] for j in live], "iterated records")
    shut(r)
    return how + (" deleted" if deleted else "") if n and ops else False


OPS = ["shape", "shape", "negshape", "record", "record", "negrecord", "pair", "bad", "shapes", "records", "pairs", "iter", "iterrec", "step", "step", "step"]


def saves(case):
    t, batches, infer = case
    w = shapefile.Writer(t)
    w.field("N", "N", 6)
    w.field("T", "C", 8)
    d = Scratch.fresh()
    want, n = [], 0
    for bn, (shapes, how) in enumerate(batches):
        for s in shapes:
            c23.add(w, t, s)
            w.record(n, "t%d" % n)
            want.append(c23.expect(t, s))
            n += 1
        base = os.path.join(d, "b%d" % bn)
        if how == "base":
            w.save(base)
        elif how == "same":
            base = os.path.join(d, "same")
            w.save(base)
        elif how == "ext":
            w.save(base + ".shp")
        elif how == "apart":
            w.save(shp=base, shx=base, dbf=base)
        elif how == "saveX":
            w.saveShp(base)
            w.saveShx(base + ".shx")
            w.saveDbf(base + ".dbf")
        elif how == "subdir":
            base = os.path.join(d, "new%d" % bn, "deep", "b")
            w.save(base)
        elif how == "generated":
            os.chdir(d)
            try:
                base = w.save()
                need(isinstance(base, str) and base, "the base name is {!r}", base)
            finally:
                os.chdir(Scratch.dir())
        else:
            fs = [io.BytesIO() for _ in range(3)]
            w.save(shp=fs[0], shx=fs[1], dbf=fs[2])
            put(base, *[f.getvalue() for f in fs])
        data = []
        for e in ("shp", "shx", "dbf"):
            with open(base + "." + e, "rb") as f:
                data.append(f.read())
        what = "save {} ({}) with {} shapes".format(bn + 1, how, n)
        h, stored = SP.decode(data[0], data[1])
        need(h["type"] == t, "{}: type {}", what, h["type"])
        need(len(stored) == n, "{}: {} in the file", what, len(stored))
        for i, (a, b) in enumerate(zip(stored, want)):
            SP.same_geo(a, b, "{}, shape {}".format(what, i))
        ff, raw = SP.decode_dbf(data[2], "utf-8")
        need([[v.strip() for v in x] for x in raw] == [[b"%d" % i, b"t%d" % i] for i in range(n)], "{}: records {}", what, raw)
        r = shapefile.Reader(base)
        got = r.shapes()
        need(len(got) == n, "{}: {} read", what, len(got))
        for i, (a, b) in enumerate(zip(got, want)):
            SP.same(a, b, "{}, shape {} read".format(what, i))
        shut(r)
    return None if len(batches) > 1 and n else False


def loads(case):
    "One reader for several data sets, one after the other."
    sets, first, ops, enc = case
    d = Scratch.fresh()
    sets = [(ds[0], ds[1], enc) + tuple(ds[3:]) for ds in sets]
    data = [c25.files(ds) for ds in sets]
    for k, (gs, shp, shx, dbf) in enumerate(data):
        put(os.path.join(d, "s%d" % k), shp, shx, dbf)
        put(os.path.join(d, "nodbf%d" % k), shp, shx, None)
        put(os.path.join(d, "noshx%d" % k), shp, None, dbf)
    args = {} if enc == "utf-8" else {"encoding": enc}
    now, hist, used = None, [], set()
    if first == "none":
        r = shapefile.Reader(**args)
    elif first == "path":
        r, now = shapefile.Reader(os.path.join(d, "s0"), **args), 0
    else:
        r, now = shapefile.Reader(shp=io.BytesIO(data[0][1]), shx=io.BytesIO(data[0][2]), dbf=io.BytesIO(data[0][3]), **args), 0
    for op, k in ops:
        hist.append("{}({})".format(op, k))
        h = "on {}: {}".format(now, "; ".join(hist))
        if op == "load":
            now = k % len(sets)
            r.load(os.path.join(d, "s%d" % now) + ["", ".shp", ".dbf"][k % 3])
            continue
        if op == "again":
            r.load()
            continue
        if op == "missing":
            raises(shapefile.ShapefileException, r.load, os.path.join(d, ["nodbf0", "noshx0", "gone"][k % 3]), what=h)
            continue
        if now is None:
            for f, a in ((r.shapes, ()), (r.records, ()), (r.shape, (0,)), (r.record, (0,)), (r.shapeRecords, ())):
                raises(shapefile.ShapefileException, f, *a, what=h + ": nothing loaded, " + f.__name__)
            continue
        used.add(now)
        gs = data[now][0]
        t, shapes, enc, fields, rows, deleted, surplus = sets[now]
        want = [None if j in deleted else [c[1] for c in row] for j, row in enumerate(rows)]
        live = [x for x in want if x is not None]
        n, rec = len(gs), lambda x: None if x is None else list(x)
        if op == "about":
            need(r.shapeType == t, "{}: type {}, expected {}", h, r.shapeType, t)
            need(r.numRecords == n, "{}: {} records of {}", h, r.numRecords, n)
            need([tuple(f) for f in r.fields if f[0] != "DeletionFlag"] == list(fields), "{}: fields {}, expected {}", h, r.fields, fields)
            need(r.bbox is None or len(r.bbox) == 4, "{}: box", h)
        elif op == "records":
            need([list(x) for x in r.records()] == live, "{}: {}, expected {}", h, r.records(), live)
        elif op == "iterRecords":
            need([list(x) for x in r.iterRecords()] == live, "{}: expected {}", h, live)
        elif op in ("shapes", "iterShapes"):
            got = list(getattr(r, op)())
            need(len(got) == n, "{}: {} shapes of {}", h, len(got), n)
            for a, g in zip(got, gs):
                SP.same(a, g, h)
        elif op == "shapeRecords":
            got = r.shapeRecords()
            need([list(p.record) for p in got] == live, "{}: expected {}", h, live)
            for p, g in zip(got, [g for g, x in zip(gs, want) if x is not None]):
                SP.same(p.shape, g, h)
        elif op == "bad":
            for i in (n, -n - 1):
                raises(IndexError, r.shape, i, what=h)
                raises(IndexError, r.record, i, what=h)
        elif n:
            i = k % n
            if op == "shape":
                SP.same(r.shape(i - n * (k % 2)), gs[i], h)
            elif op == "record":
                need(rec(r.record(i - n * (k % 2))) == want[i], "{}: expected {}", h, want[i])
    shut(r)
    return first if len(used) > 1 else False


LOOK = ["about", "records", "iterRecords", "shapes", "iterShapes", "shapeRecords", "bad", "shape", "shape", "record", "record"]


@st.composite
def batches(draw):
    t = draw(st.sampled_from(SP.TYPES))
    return t, draw(st.lists(st.tuples(st.lists(c23.shape(t), max_size=3), st.sampled_from(["base", "same", "same", "ext", "apart", "saveX", "subdir", "file", "generated"])), min_size=1, max_size=4)), False


def editor(case):
    ds, ext, gone, added = case
    t, shapes, enc, fields, rows, deleted, surplus = ds
    assume(t != 0)
    gs, shp, shx, dbf = c25.files(ds)
    d = Scratch.fresh()
    base, out = os.path.join(d, "in"), os.path.join(d, "out")
    put(base, shp, shx, dbf)
    e = shapefile.Editor(base + ext)
    want = [[c[1] for c in row] for row in rows]
    if gone is not None and gs:
        i = gone % len(gs)
        e.delete(i)
        del e.records[i]
        gs, want = gs[:i] + gs[i + 1:], want[:i] + want[i + 1:]
    for s, row in added:
        values = [""] * len(fields) if row is None or not rows else [c[1] for c in rows[row % len(rows)]]
        if s is not None and SP.BASE[t] == "point":
            # without measures, which the editor fills in; balancing adds the record
            s = [[tuple(s[0][0][0][:3])]], None
            e.point(*s[0][0][0])
            e.records[-1] = list(values) if row is not None else e.records[-1]
        else:
            # one of the two, and balancing adds the other
            if s is None and row is not None and row % 2:
                e.record(*values)
                e.balance()
            else:
                c23.add(e, t, s)
                e.balance() if row is None else e.record(*values)
            e.balance()
        gs, want = gs + [c23.expect(t, s)], want + [values]
    e.save(out)
    with open(base + ".shp", "rb") as f:
        need(f.read() == shp, "editing changed the original")
    data = []
    for x in ("shp", "shx", "dbf"):
        with open(out + "." + x, "rb") as f:
            data.append(f.read())
    h, stored = SP.decode(data[0], data[1])
    need(h["type"] == t, "type {} becomes {}", t, h["type"])
    need(len(stored) == len(gs), "{} shapes become {}", len(gs), len(stored))
    for i, (a, b) in enumerate(zip(stored, gs)):
        SP.same_geo(a, b, "edited shape {}".format(i))
    ff, raw = SP.decode_dbf(data[2], "utf-8")
    need(ff == list(fields), "fields {} become {}", fields, ff)
    r = shapefile.Reader(out)
    need([tuple(f) for f in r.fields if f[0] != "DeletionFlag"] == list(fields), "fields {} become {}", fields, r.fields)
    need([list(x) for x in r.records()] == want, "records {} become {}", want, r.records())
    got = r.shapes()
    need(len(got) == len(gs), "{} shapes read", len(got))
    for i, (a, b) in enumerate(zip(got, gs)):
        SP.same(a, b, "edited shape {}".format(i))
    shut(r)
    return "type {}{}".format(t, ", added" if added else "") if shapes or added else False


@st.composite
def editable(draw):
    ds = draw(c25.dataset(allow_deleted=False, encs=("utf-8",)))
    t, shapes, enc, fields, rows, deleted, surplus = ds
    # real numbers as the writer prints them, whole numbers within their width
    fields = [(n, ty, 18 if ty == "N" and dec else size, dec) for n, ty, size, dec in fields]
    added = []
    if t and draw(st.booleans()):
        # rows of the set again, or empty ones
        added = draw(st.lists(st.tuples(c23.shape(t), st.none() | st.integers(0, 9)), max_size=3))
    return (t, shapes, enc, fields, rows, deleted, surplus), draw(st.sampled_from(["", ".shp", ".dbf"])), draw(st.none() | st.integers(0, 9)), added


@st.composite
def bulkedit(draw):
    t, shapes, enc, fields, rows, deleted, surplus = draw(c25.bulk(False, ("utf-8",)))
    r = draw(gen.seeds)
    fields = [(n, ty, 18 if ty == "N" and dec else size, dec) for n, ty, size, dec in fields]
    added = [(c23.rshape(r, t, 3, 5), r.choice([None, r.randint(0, 300)])) for _ in range(r.choice([0, 1, 100]))]
    return (t, shapes, enc, fields, rows, deleted, surplus), r.choice(["", ".shp", ".dbf"]), r.choice([None, r.randint(0, 300)]), added


FACETS = [
    Facet("access", lambda: st.tuples(c25.dataset(), st.sampled_from(["path", "ext", "file", "noshx", "nodbf", "shponly"]), st.lists(st.tuples(st.sampled_from(OPS), st.integers(0, 50)), max_size=14)), access,
          "up to 14 calls in any order, with iterators left open and resumed, on independently encoded sets; non-empty", 4000, weight=2),
    Facet("loads", lambda: st.sampled_from(["utf-8", "utf-8", "latin-1"]).flatmap(lambda e: st.tuples(
              st.lists(c25.dataset(maxn=4, encs=(e,)), min_size=2, max_size=3), st.sampled_from(["none", "path", "files"]),
              st.lists(st.tuples(st.sampled_from(["load", "load", "load", "again", "missing"] + LOOK), st.integers(0, 60)), min_size=4, max_size=20), st.just(e))), loads,
          "one reader that loads up to three independently encoded sets in turn, with refused loads and up to 20 calls in all; two sets looked at", 1500),
    Facet("saves", batches, saves, "1..4 saves of a growing writer, by every way of saving; several saves with shapes", 1500),
    Facet("editor", editable, editor, "independently encoded sets opened and saved elsewhere, a shape deleted or up to three added in some; at least one shape", 2000),
    Facet("bulk", lambda: st.tuples(c25.bulk(), st.sampled_from(["path", "file", "noshx"]), st.lists(st.tuples(st.sampled_from(OPS), st.integers(0, 1000)), min_size=10, max_size=40)), access,
          "10..40 calls on sets of up to 300 shapes; non-empty", 80, budget=200000000),
    Facet("bulksaves", lambda: st.builds(lambda t, n, how: (t[0], [(t[1][:n], how[0]), (t[1][n:], how[1])], False), c23.bulk(), st.integers(0, 200), st.tuples(*[st.sampled_from(["base", "same", "apart", "saveX", "file"])] * 2)), saves,
          "two saves of writers with up to 300 shapes", 30, budget=60000000),
    Facet("bulkeditor", bulkedit, editor, "sets of up to 300 shapes opened, changed and saved elsewhere", 30, budget=60000000),
]
