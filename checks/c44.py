import collections
import io
import os
import shutil
from hypothesis import strategies as st
from vlib import eps
from vlib.engine import Budget, Facet, Scratch, Violation, close, fail, need
from coral import bbox, frame, pf, proj, raster, rg, shapefile, table, vector

ASSUMPTIONS = ["names are those of ordinary files in existing directories (directories that are missing are made by shapefile writers only)",
               "the extensions .shp, .shx and .dbf of shapefile names are left out when the three files are named, others are part of the name",
               "an index (.shx) is saved after or together with its geometry"]

Row = collections.namedtuple("Row", "id name")


def base(n):
    return n[:-4] if n[-4:].lower() in (".shp", ".shx", ".dbf") and os.path.basename(n)[:-4].strip(".") else n


def grid(k):
    return [[[(k * 7 + i + j,) for j in range(k % 4)] for i in range(1 + k % 3)] for _ in range(1 + k % 5)]


class RG:
    @staticmethod
    def files(n):
        return [n + ".rg", n + ".md"]

    @staticmethod
    def save(n, k, away=None):
        w = rg.Writer(n, rg.GRow(rg.IVar("v", 0, 4000)))
        here = os.getcwd()
        if away:
            os.chdir(away)
        for i, segs in enumerate(grid(k)):
            w.write(segs, "e{}-{}".format(k, i))
        w.close()
        os.chdir(here)

    @staticmethod
    def read(n, k):
        r = rg.Reader(n)
        try:
            return [[[tuple(x) for x in s] for s in r.read("e{}-{}".format(k, i))] for i in range(len(grid(k)))], len(r.index)
        finally:
            r.close()

    @staticmethod
    def want(k):
        return grid(k), len(grid(k))


class One:
    @staticmethod
    def files(n):
        return [n]


class PF(One):
    @staticmethod
    def save(n, k):
        w = pf.Writer(n, 4)
        for i in range(1 + k % 4):
            w.write("e{}-{}".format(k, i), [[(0, 0), (k + 1, 0), (k + 1, 1 + i)]])
        w.close()

    @staticmethod
    def read(n, k):
        r = pf.Reader(n)
        try:
            return list(r.names), [[round(v, 3) for v in p] for p in r.read(len(r) - 1)[0]]
        finally:
            r.close()

    @staticmethod
    def want(k):
        return ["e{}-{}".format(k, i) for i in range(1 + k % 4)], [[0, 0], [k + 1, 0], [k + 1, 1 + k % 4]]


class Frame(One):
    @staticmethod
    def save(n, k):
        frame.Frame(proj.Mercator((10, 0), 100 + k), bbox.BBox((0, 0), (k + 1, 10 ** (k % 5)))).save(n)

    @staticmethod
    def read(n, k):
        f = frame.load(n)
        b = f.bounding
        return [b.x0, b.y0, b.x1, b.y1, f.projection.r]

    @staticmethod
    def want(k):
        return [0, 0, k + 1, 10 ** (k % 5), 100 + k]


class Ents:
    def __init__(self, names):
        self.names = names

    def get(self, name):
        return [[(0, 0), (1, 0), (1, 1)]]


class Names:
    files = staticmethod(lambda n: [n + ".names"])
    fr = staticmethod(lambda: frame.Frame(proj.Mercator((0, 0), 1000), bbox.BBox((-1e9, -1e9), (1e9, 1e9))))

    @staticmethod
    def save(n, k):
        Names.fr().cachenames(n, Ents(Names.want(k)))

    @staticmethod
    def read(n, k):
        return Names.fr().loadnames(n)

    @staticmethod
    def want(k):
        return ["name {} {}".format(k, i) for i in range(k % 6)]


class Table(One):
    @staticmethod
    def save(n, k):
        table.writefile(n, Table.want(k))

    @staticmethod
    def read(n, k):
        return [tuple(r) for r in table.readfile(n)]

    @staticmethod
    def want(k):
        return [Row("{}".format(k + i), "é" * (k % 3) + "x") for i in range(1 + k % 4)]


class PNM(One):
    @staticmethod
    def save(n, k):
        c = [raster.GrayCanvas, raster.ColorCanvas, raster.BWCanvas][k % 3](1 + k % 5, 1 + k % 4)
        for x in range(c.width):
            for y in range(c.height):
                v = (k + x * y) % 256
                c[x, y] = [v, (v, 255 - v, 7), v % 2][k % 3]
        c.save(n)

    @staticmethod
    def read(n, k):
        with open(n, "rb") as f:
            return f.read()

    @staticmethod
    def want(k):
        w, h = 1 + k % 5, 1 + k % 4
        vs = [[(k + x * y) % 256 for x in range(w)] for y in range(h)]
        if k % 3 == 2:
            return "P4\n{} {}\n".format(w, h).encode() + bytes(sum((v % 2) << (7 - x) for x, v in enumerate(row)) for row in vs)
        data = bytes(b for row in vs for v in row for b in ([v, 255 - v, 7] if k % 3 else [v]))
        return "P{}\n{} {}\n255\n".format(5 + k % 3, w, h).encode() + data


class EPS(One):
    @staticmethod
    def save(n, k):
        c = vector.Canvas()
        for i in range(1 + k % 4):
            c.addcircle((k, i), 5, fill=.5)
        c.save(n, 100 + k)

    @staticmethod
    def read(n, k):
        with open(n) as f:
            t = f.read()
        return t.count(" arc "), "%%BoundingBox: 0 0 {0} {0}\n".format(100 + k) in t

    @staticmethod
    def want(k):
        return 1 + k % 4, True


def shpwriter(k):
    w = shapefile.Writer(1)
    w.field("N", "N", 6)
    for i in range(k % 5):
        w.point(k, i)
        w.record(k * 10 + i)
    return w


def shut(r):
    for f in (r.shp, r.shx, r.dbf):
        if f:
            f.close()


class SHP:
    files = staticmethod(lambda n: [base(n) + e for e in (".shp", ".shx", ".dbf")])

    @staticmethod
    def save(n, k):
        shpwriter(k).save(n)

    @staticmethod
    def read(n, k):
        r = shapefile.Reader([base(n), base(n) + ".shp", n, base(n) + ".dbf", base(n) + ".shx"][k % 5])
        try:
            return [list(s.points[0]) for s in r.shapes()], [list(x) for x in r.records()]
        finally:
            shut(r)

    @staticmethod
    def want(k):
        return [[k, i] for i in range(k % 5)], [[k * 10 + i] for i in range(k % 5)]


class SHPEdit(SHP):
    @staticmethod
    def save(n, k):
        shpwriter(k).save(n)
        e = shapefile.Editor(n)
        e.save(n)


class SHPAlone:
    files = staticmethod(lambda n: [base(n) + ".shp"])

    @staticmethod
    def save(n, k):
        w = shpwriter(k)
        w.saveShp(n)
        w.shp.close()

    @staticmethod
    def read(n, k):
        with open(base(n) + ".shp", "rb") as f:
            return [list(s.points[0]) for s in shapefile.Reader(shp=f).shapes()]

    @staticmethod
    def want(k):
        return SHP.want(k)[0]


class DBFAlone:
    files = staticmethod(lambda n: [base(n) + ".dbf"])

    @staticmethod
    def save(n, k):
        w = shpwriter(k)
        w.saveDbf(n)
        w.dbf.close()

    @staticmethod
    def read(n, k):
        with open(base(n) + ".dbf", "rb") as f:
            return [list(x) for x in shapefile.Reader(dbf=f).records()]

    @staticmethod
    def want(k):
        return SHP.want(k)[1]


KINDS = {"rg": RG, "pf": PF, "frame": Frame, "names": Names, "table": Table, "pnm": PNM, "eps": EPS, "shp": SHP, "edit": SHPEdit, "shp alone": SHPAlone, "dbf alone": DBFAlone}
SHAPES = ["shp", "shp", "shp", "edit", "shp alone", "dbf alone"]


def tree(root):
    out = {}
    for d, dirs, files in os.walk(root):
        for f in files:
            p = os.path.join(d, f)
            with open(p, "rb") as g:
                out[os.path.relpath(p, root)] = g.read()
        for s in dirs:
            out[os.path.relpath(os.path.join(d, s), root) + "/"] = True
    return out


def differing(a, b):
    return sorted(k for k in set(a) | set(b) if a.get(k) != b.get(k))


BESIDE = [".tmp", "~", ".bak", ".new", ".part", ".lock", ".old", "tmp"]


def histories(case):
    ops = case
    root = os.path.join(Scratch.fresh(), "w.d")
    for d in ("", "sub", "sub.1", "sub.1/deep dir"):
        os.makedirs(os.path.join(root, d), exist_ok=True)
    with open(os.path.join(root, "bystander.shp.txt"), "w") as f:
        f.write("x")
    there = os.getcwd()
    os.chdir(root)
    try:
        return history(ops, root)
    finally:
        os.chdir(there)


def history(ops, root):
    have = {}
    again = reads = 0
    taken = {os.path.normpath(f) for _, kind, d, n, _, _ in ops for f in KINDS[kind].files(os.path.join(d, n))}
    for f in sorted(taken):
        for p in [f + e for e in BESIDE] + [os.path.join(os.path.dirname(f), "." + os.path.basename(f))]:
            if p not in taken and len(os.path.basename(p)) < 100 and not os.path.exists(p):
                with open(p, "w") as g:
                    g.write("bystander " + p)
    before = tree(root)
    for op, kind, d, n, how, k in ops:
        rel = os.path.join(d, n) if d else n
        K = KINDS[kind]
        files = [os.path.normpath(f) for f in K.files(rel)]
        arg = {"plain": rel, "dot": os.path.join(".", rel), "full": os.path.join(root, rel), "around": os.path.join("sub.1", "..", rel)}[how if how in ("dot", "full", "around") else "plain"]
        if op == "read":
            if not have:
                continue
            kind, rel, k = sorted(have)[k % len(have)], None, None
            kind, rel = kind
            k = have[kind, rel]
            got = KINDS[kind].read({"dot": os.path.join(".", rel), "full": os.path.join(root, rel)}.get(how, rel), k)
            need(got == KINDS[kind].want(k), "{} {!r} reads {}, saved was {}; others: {}", kind, rel, got, KINDS[kind].want(k), sorted(have))
            after = tree(root)
            need(after == before, "reading {} {!r} changes {}", kind, rel, differing(before, after))
            reads += 1
            continue
        if any(f + "/" in before for f in files):
            continue
        if how == "away" and kind == "rg":
            K.save(rel, k, "sub")
        else:
            K.save(arg, k)
        after = tree(root)
        need(all(f in after for f in files), "saving {} {!r} leaves no {}, but changes {}", kind, arg, [f for f in files if f not in after], differing(before, after))
        odd = [f for f in differing(before, after) if f not in files]
        need(not odd, "saving {} {!r} changes {}", kind, arg, odd)
        again += (kind, rel) in have
        for q in [q for q in have if set(files) & set(map(os.path.normpath, KINDS[q[0]].files(q[1])))]:
            del have[q]
        have[kind, rel] = k
        got = K.read(arg, k)
        need(got == K.want(k), "{} {!r} reads {}, just saved was {}", kind, rel, got, K.want(k))
        before = after
    for (kind, rel), k in sorted(have.items()):
        got = KINDS[kind].read(rel, k)
        need(got == KINDS[kind].want(k), "{} {!r} reads {} in the end, saved was {}; others: {}", kind, rel, got, KINDS[kind].want(k), sorted(have))
    need(tree(root) == before, "reading changes {}", differing(before, tree(root)))
    return ("again" if again else "beside") if len(have) > 1 else False


STEMS = ["a", "b", "roads", "a.v1", "a.v2", "a.1.5", "a b", "é", "São.Luís", ".x", ".x.y", "a.", "a..b", "A", "a.shp.zip", "x" * 60,
         "-", "#1", "a%s", "{}", "100%", "a,b", "~", "a'b"]
EXTS = [""] * 6 + [".rg", ".md", ".shp", ".dbf", ".shx", ".names", ".p", ".txt", ".v1", ".v2", "~", ".tmp", ".bak", ".part", ".new", "r", "g", "d", ".SHP", ".Dbf", ".sh", ".shape", ".shpx", ".db", ".dbase", "shp"]
stem = st.builds(lambda s, e: s + e, st.sampled_from(STEMS), st.sampled_from(EXTS))
dirs = st.sampled_from(["", "", "", "sub", "sub.1", "sub.1/deep dir"])
hows = st.sampled_from(["plain", "plain", "dot", "full", "around", "away"])


@st.composite
def many(draw):
    stems = draw(st.lists(stem, min_size=1, max_size=4))
    kinds = draw(st.lists(st.sampled_from(sorted(KINDS)), min_size=1, max_size=3)) if draw(st.booleans()) else SHAPES
    one = st.tuples(st.sampled_from(["save", "save", "read"]), st.sampled_from(kinds), dirs, st.sampled_from(stems), hows, st.integers(0, 60))
    return draw(st.lists(one, min_size=2, max_size=10))


# -- names that the library makes up, and directories ------------------------------------------

def unnamed(case):
    ks, sub = case
    root = Scratch.fresh()
    there = os.getcwd()
    os.chdir(root)
    try:
        names = []
        for k in ks:
            before = tree(root)
            n = shpwriter(k).save()
            names.append(n)
            after = tree(root)
            need(differing(before, after) == sorted(os.path.relpath(f, os.path.realpath(root)) if os.path.isabs(n) else f for f in SHP.files(os.path.realpath(n) if os.path.isabs(n) else n)),
                 "saving without a name changes {}, and returns {!r}", differing(before, after), n)
        for n, k in zip(names, ks):
            need(SHP.read(n, k) == SHP.want(k), "{!r} does not read as saved", n)
        before = tree(root)
        path = os.path.join(*sub)
        shpwriter(ks[0]).save(path)
        made = {os.path.join(*sub[:i]) + "/" for i in range(1, len(sub))}
        need(set(differing(before, tree(root))) == made | set(SHP.files(path)), "saving {!r} makes {}", path, differing(before, tree(root)))
        need(SHP.read(path, ks[0]) == SHP.want(ks[0]), "{!r} does not read as saved", path)
    finally:
        os.chdir(there)
    return "directories" if len(sub) > 1 else "plain"


def parts(case):
    "Some of the three files, each to a path or a file object of its own."
    k, which, target = case
    root = Scratch.fresh()
    there = os.getcwd()
    os.chdir(root)
    try:
        w = shpwriter(k)
        given, want = {}, set()
        for part, how in which:
            if how == "path":
                given[part] = "p" + part
                want.add("p{0}.{0}".format(part))
            elif how == "object":
                given[part] = io.BytesIO()
            else:
                given[part] = open("f" + part, "w+b")
                want.add("f" + part)
        if target:
            given["target"] = "t"
        if "shx" in given and "shp" not in given:
            w.saveShp(io.BytesIO())
        w.save(**given)
        for f in (w.shp, w.shx, w.dbf):
            if f and not f.closed and not any(f is g for g in given.values()):
                f.close()
        got = {}
        for part, how in which:
            if how == "path":
                with open("p{0}.{0}".format(part), "rb") as f:
                    got[part] = f.read()
            else:
                given[part].seek(0)
                got[part] = given[part].read()
                given[part].close()
        need(set(tree(root)) == want, "saving {} leaves {}", given, sorted(tree(root)))
        w = shpwriter(k)
        w.save("whole")
        for part in got:
            with open("whole." + part, "rb") as f:
                need(got[part] == f.read(), "the {} file saved by itself differs", part)
    finally:
        os.chdir(there)
    return "{} of three".format(len(which)) if k % 5 else False


FACETS = [
    Facet("histories", many, histories, "2..10 data sets of eleven kinds saved under confusable names in four directories, and read; more than one in the end", 2500, budget=30000000, weight=2),
    Facet("unnamed", lambda: st.tuples(st.lists(st.integers(0, 60), min_size=1, max_size=3), st.lists(st.sampled_from(["new", "new.d", "é x", "a.b.c"]), min_size=1, max_size=3)), unnamed,
          "1..3 shapefiles saved without a name, one into directories to be made; every case", 300),
    Facet("parts", lambda: st.tuples(st.integers(0, 60), st.lists(st.tuples(st.sampled_from(["shp", "shx", "dbf"]), st.sampled_from(["path", "object", "file"])), min_size=1, max_size=3, unique_by=lambda t: t[0]), st.booleans()), parts,
          "one to three of the three files saved to paths or file objects of their own; records present", 400),
]
