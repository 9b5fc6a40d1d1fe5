import io
import os
import struct
from hypothesis import strategies as st
from vlib import gen, shp as SP
from vlib.engine import Budget, Facet, Scratch, Violation, need
from checks import c15, c16, c25
from coral import pf, rg, shapefile

ASSUMPTIONS = ["damage is confined to the contents of shapes (their record headers kept), to the fields of attribute rows and to the coordinates or rows of entities",
               "what a damaged item itself gives is not judged here",
               "reading ahead by up to a quarter of a file is allowed"]


def garbage(r, n, kind):
    if kind == "ones":
        return b"\xff" * n
    if kind == "zeros":
        return b"\x00" * n
    if kind == "counts":
        # a shape type with counts far too large
        return (struct.pack("<i", r.choice([3, 5, 8, 15, 23, 31])) + r.randbytes(32) + struct.pack("<2i", r.choice([1, 5000, 2 ** 31 - 1, -1]), r.choice([100, 2 ** 31 - 1, -5])) + r.randbytes(n))[:n]
    return r.randbytes(n)


KINDS = st.sampled_from(["ones", "zeros", "random", "counts"])


def attempt(f, *args):
    "Whether a call on something damaged gave a value."
    try:
        f(*args)
        return True
    except (Violation, Budget):
        raise
    except Exception:
        return False


def places(shx):
    n = (len(shx) - 100) // 8
    return [[2 * v for v in struct.unpack_from(">2i", shx, 100 + 8 * i)] for i in range(n)]


@st.composite
def spoilt(draw):
    ds = draw(c25.dataset(maxn=7, allow_deleted=False).filter(lambda d: len(d[1]) >= 2))
    n = len(ds[1])
    some = st.sets(st.integers(0, n - 1), max_size=n - 1)
    ops = st.lists(st.tuples(st.sampled_from(["shape", "shape", "record", "record", "pair", "negative", "iterate", "rows", "all"]), st.integers(0, n - 1)), min_size=4, max_size=14)
    return ds, draw(some), draw(some), draw(KINDS), draw(gen.seeds), draw(ops), draw(st.sampled_from(["path", "objects"]))


def shapefiles(case):
    ds, bad, badrows, kind, r, ops, how = case
    t, shapes, enc, fields, rows, deleted, surplus = ds
    gs, shp, shx, dbf = c25.files(ds)
    shp, dbf = bytearray(shp), bytearray(dbf)
    n = len(gs)
    for i in bad:
        off, size = places(shx)[i]
        shp[off + 8:off + 8 + size] = garbage(r, size, kind)
    head, width = struct.unpack_from("<2H", dbf, 8)
    for i in badrows:
        at = head + i * width
        dbf[at + 1:at + width] = garbage(r, width - 1, kind)
    args = {} if enc == "utf-8" else {"encoding": enc}
    if how == "path":
        base = os.path.join(Scratch.fresh(), "in")
        for e, d in (("shp", shp), ("shx", shx), ("dbf", dbf)):
            with open(base + "." + e, "wb") as f:
                f.write(d)
        rd = shapefile.Reader(base, **args)
    else:
        rd = shapefile.Reader(shp=io.BytesIO(bytes(shp)), shx=io.BytesIO(shx), dbf=io.BytesIO(bytes(dbf)), **args)
    need(rd.shapeType == t and rd.numRecords == n, "type {} and {} records, in the file {} and {}", rd.shapeType, rd.numRecords, t, n)
    need([tuple(f) for f in rd.fields[1:]] == list(fields), "fields {}, in the file {}", rd.fields, fields)
    want = [[c[1] for c in row] for row in rows]
    hit = 0
    where = "with shapes {} and rows {} damaged: ".format(sorted(bad), sorted(badrows))

    def judge(k, s=None, row=None, what=""):
        if s is not None:
            SP.same(s, gs[k], where + "{} {}".format(what, k))
        if row is not None:
            need(list(row) == want[k], "{}{} {} is {}, in the file {}", where, what, k, row, want[k])
    for op, k in ops:
        j = k - n if op == "negative" else k
        if op in ("shape", "negative"):
            if k in bad:
                hit += attempt(rd.shape, j) is False
            else:
                judge(k, rd.shape(j), None, "shape")
        if op in ("record", "negative"):
            if k in badrows:
                hit += attempt(rd.record, j) is False
            else:
                judge(k, None, rd.record(j), "record")
        elif op == "pair":
            if k in bad or k in badrows:
                hit += attempt(rd.shapeRecord, j) is False
            else:
                p = rd.shapeRecord(j)
                judge(k, p.shape, p.record, "pair")
        elif op == "iterate":
            for i, s in zip(range(min(bad, default=n)), rd.iterShapes()):
                judge(i, s, None, "shape, while going through them,")
        elif op == "rows":
            for i, row in zip(range(min(badrows, default=n)), rd.iterRecords()):
                judge(i, None, row, "record, while going through them,")
        elif op == "all":
            hit += sum(not attempt(f) for f in (rd.shapes, rd.records, rd.shapeRecords))
    if how == "path":
        rd.shp.close(), rd.shx.close(), rd.dbf.close()
    return kind + ("/refused" if hit else "") if bad or badrows else False


def rangegrids(case):
    (cols, ents), bad, kind, r, ops = case
    path = os.path.join(Scratch.fresh(), "data")
    c15.write(path, cols, ents)
    counts = [sum(map(len, segs)) for _, segs in ents]
    bad = {b % len(ents) for b in bad}
    with open(path + ".rg", "r+b") as f:
        data = bytearray(f.read())
        row = c15.make_row(cols)
        first = len(data) - sum(counts) * row.size
        for b in bad:
            at, size = first + sum(counts[:b]) * row.size, counts[b] * row.size
            data[at:at + size] = garbage(r, size, kind)
        f.seek(0)
        f.write(data)
    rd = rg.Reader(path)
    hit = 0
    turn, hist = 0, []
    for k in ops:
        # by name, or the next; after a failure the next is the one that failed
        k = turn if k > 9 else k % len(ents)
        key = () if k == turn and turn < len(ents) and ops[0] % 2 else (c15.key(min(k, len(ents) - 1), ents[min(k, len(ents) - 1)][0]),)
        k = min(k, len(ents) - 1)
        hist.append("read({})".format(*key or [""]))
        turn = k
        if k in bad and counts[k]:
            ok = attempt(rd.read, *key)
            hit += not ok
            again = rg.Reader(path)
            need(ok == attempt(again.read, c15.key(k, ents[k][0])), "with entities {} damaged, {}: entity {} is {}, alone it is not", sorted(bad), hist, k, "read" if ok else "refused")
            again.close()
            turn += ok
        else:
            c15.same(rd.read(*key), cols, ents[k][1], "with entities {} damaged, {}: entity {}".format(sorted(bad), hist, k))
            turn += 1
    # and one after another, up to the first damaged one
    rd.close()
    rd = rg.Reader(path)
    for k in range(min(bad, default=len(ents))):
        c15.same(rd.read(), cols, ents[k][1], "with entities {} damaged, entity {} in turn".format(sorted(bad), k))
    rd.close()
    return kind + ("/refused" if hit else "") if any(counts[b] for b in bad) and len(bad) < len(ents) else False


def geometries(case):
    ents, size, bad, kind, r, ops = case
    path = os.path.join(Scratch.fresh(), "data.p")
    w = pf.Writer(path, size)
    for n, polys in ents:
        w.write(n, polys)
    w.close()
    rd = pf.Reader(path)
    want = [rd.read(i) for i in range(len(ents))]
    rd.close()
    counts = [sum(map(len, e)) for e in want]
    bad = {b % len(ents) for b in bad}
    with open(path, "r+b") as f:
        data = bytearray(f.read())
        first = len(data) - sum(counts) * size * 2
        for b in bad:
            at, n = first + sum(counts[:b]) * size * 2, counts[b] * size * 2
            data[at:at + n] = garbage(r, n, kind)
        f.seek(0)
        f.write(data)
    rd = pf.Reader(path)
    need(list(rd.names) == [n for n, _ in ents], "names {}", rd.names)
    for k in ops:
        k %= len(ents)
        got = rd.get(ents[k][0]) if len(bad) % 2 else rd.read(k)
        need([len(p) for p in got] == [len(p) for p in want[k]], "with entities {} damaged, lengths of entity {}", sorted(bad), k)
        if k not in bad:
            need(got == want[k], "with entities {} damaged, entity {} is {}, before {}", sorted(bad), k, got, want[k])
    rd.close()
    return kind if bad and len(bad) < len(ents) else False


class Counted(io.BytesIO):
    "A file object that counts the bytes it hands out."
    taken = 0

    def read(self, *args):
        d = super().read(*args)
        self.taken += len(d)
        return d

    def readinto(self, b):
        n = super().readinto(b)
        self.taken += n
        return n

    def readline(self, *args):
        d = super().readline(*args)
        self.taken += len(d)
        return d

    def getvalue(self):
        self.taken += len(super().getvalue())
        return super().getvalue()

    def getbuffer(self):
        self.taken += len(super().getvalue())
        return super().getbuffer()

    def spent(self):
        n, self.taken = self.taken, 0
        return n


def economy(case):
    t, n, r, fields, ops = case
    k = SP.BASE[t]
    gs = []
    for i in range(n):
        m = 1 if k == "point" else r.randint(2, 12)
        pts = [(float(r.randint(-100, 100)), float(r.randint(-100, 100))) for _ in range(m)]
        extra = [float(r.randint(0, 9)) for _ in pts]
        gs.append(SP.Geo(t, pts, [0] if k in ("line", "poly", "patch") else None, [0] if k == "patch" else None, extra if t in SP.HAS_Z else None, extra if t in SP.HAS_M else None))
    rows = [[b"%d" % r.randint(0, 99) if f[1] == "N" else b"v%d" % i for f in fields] for i in range(n)]
    shp, shx = SP.encode(t, gs)
    dbf = SP.encode_dbf(fields, rows, (), "utf-8")
    fs = fshp, fshx, fdbf = [Counted(d) for d in (shp, shx, dbf)]
    limits = [len(d) // 4 for d in (shp, shx, dbf)]
    head, width = struct.unpack_from("<2H", dbf, 8)
    rd = shapefile.Reader(shp=fshp, shx=fshx, dbf=fdbf)
    for f, lim, what in zip(fs, (limits[0] + 100, limits[1] + 100, limits[2] + head), ("shp", "shx", "dbf")):
        c = f.spent()
        need(c <= lim, "opening {} shapes reads {} of the {} bytes of the {} file", n, c, len(f.getvalue()), what)
        f.spent()
    rd.shape(0)
    for f in fs:
        f.spent()
    shapes, records = rd.iterShapes(), rd.iterRecords()
    for op, i in ops:
        i %= n
        try:
            if op == "shape":
                SP.same(rd.shape(i), gs[i], "shape {}".format(i))
            elif op == "record":
                need(len(rd.record(i)) == len(fields), "record {}", i)
            elif op == "pair":
                rd.shapeRecord(i)
            elif op == "next shape":
                next(shapes, None)
            else:
                next(records, None)
        finally:
            a, b, c = [f.spent() for f in fs]
        lim = (limits[0] if op != "record" and op != "next record" else 0) + 8 + places(shx)[i][1], limits[1] + 8, (limits[2] if op in ("record", "pair", "next record") else 0) + width
        need(a <= lim[0] and b <= lim[1] and c <= lim[2], "{} {} of {} reads {} bytes of the shp, {} of the shx and {} of the dbf file, which have {}, {} and {}", op, i, n, a, b, c, len(shp), len(shx), len(dbf))
    return op


FIELDS = [("A", "C", 10, 0), ("B", "N", 6, 0), ("LONGER", "C", 60, 0), ("D", "N", 9, 2)]


FACETS = [
    Facet("shapefile", spoilt, shapefiles, "2..7 shapes and records, some of them overwritten with garbage; up to 14 accesses, damaged ones among them; something damaged", 2500, weight=2),
    Facet("rangegrid", lambda: st.tuples(c15.dataset(), st.sets(st.integers(0, 4), min_size=1, max_size=3), KINDS, gen.seeds, st.lists(st.integers(0, 19), min_size=3, max_size=14)), rangegrids,
          "1..5 entities, the rows of some overwritten; damaged and intact ones", 1200),
    Facet("pf", lambda: st.tuples(c16.entities(False).filter(c16.usable), st.sampled_from([1, 2, 4, 8]), st.sets(st.integers(0, 4), min_size=1, max_size=3), KINDS, gen.seeds, st.lists(st.integers(0, 9), min_size=3, max_size=10)), geometries,
          "1..4 entities, the coordinates of some overwritten; damaged and intact ones", 1200),
    Facet("economy", lambda: st.tuples(st.sampled_from([x for x in SP.TYPES if x]), st.integers(60, 300), gen.seeds, st.lists(st.sampled_from(FIELDS), min_size=1, max_size=4, unique=True),
                                       st.lists(st.tuples(st.sampled_from(["shape", "record", "pair", "next shape", "next record"]), st.integers(0, 299)), min_size=2, max_size=12)), economy,
          "60..300 shapes and records; bytes taken from the file objects on opening and by up to 12 accesses", 150),
]
