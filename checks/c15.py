import os
from hypothesis import assume, strategies as st
from vlib.engine import Facet, Scratch, close, fail, need, num, raises
from checks import c14
from vlib import gen
from coral import grid, rg

ASSUMPTIONS = ["identifiers are distinct and without line breaks; field names are distinct identifiers without a leading underscore",
               "ranges are integers, as the format stores them"]

fname = st.sampled_from(["lon", "lat", "name", "x", "y", "z", "Count", "index_", "a1", "b2", "column_with_a_rather_long_name"])
ident = st.one_of(st.none(), st.integers(-5, 40), st.text("abcXYZ019 _-.:", min_size=1, max_size=10), st.sampled_from(["São Paulo", "1 2", " x", "x ", "0"]), st.integers(0, 3), st.sampled_from(["7", "07", "007", "-7", "+7", "7.0", "a", "A", "aa", "a ", "ab"]))


@st.composite
def column(draw, name):
    k = draw(st.sampled_from("IFS"))
    if k == "I":
        lo, hi, nullable, vals = draw(c14.ivar())
        a = (lo, hi, nullable)
    elif k == "F":
        lo = draw(st.sampled_from([0, -90, -180, -1, 10 ** 6, -10 ** 9]) | st.integers(-1000, 1000))
        hi = lo + draw(st.sampled_from([1, 2, 100, 180, 360, 359, 10 ** 6]) | st.integers(1, 100000))
        size = draw(st.sampled_from([1, 2, 4, 8]))
        nullable = draw(st.booleans())
        vals = [lo, hi] + [min(hi, lo + (hi - lo) * t) for t in draw(st.lists(st.floats(0, 1), max_size=3))]
        a = (lo, hi, size, nullable)
    else:
        size = draw(st.integers(1, 30) | st.sampled_from([127, 128, 300]))
        nullable = draw(st.booleans())
        vals = [v.encode("utf8")[:size].decode("utf8", "ignore").rstrip("\x00") for v in draw(st.lists(c14.text, min_size=1, max_size=3))]
        a = (size, nullable)
    return k, name, a, vals + ([None] if nullable else [])


@st.composite
def dataset(draw, minrows=0):
    names = draw(st.lists(fname, min_size=1, max_size=5, unique=True))
    cols = [draw(column(n)) for n in names]
    ents, used = [], set()
    for i in range(draw(st.integers(1, 5))):
        id_ = draw(ident)
        key = str(i if id_ is None else id_)
        if key in used:
            id_, key = "e%d#" % i, "e%d#" % i
        used.add(key)
        segs = []
        for _ in range(draw(st.sampled_from([1, 1, 2, 3, 0]))):
            n = draw(st.sampled_from([0, 1, 2, 3, 7]))
            segs.append([tuple(draw(st.sampled_from(c[3])) for c in cols) for _ in range(n)])
        if segs and segs[0] and draw(st.integers(0, 11)) == 0:
            segs[-1] = segs[0] * draw(st.integers(20, 150))
        ents.append((id_, segs))
    return [c[:3] for c in cols], ents


CLS = {"I": grid.IVar, "F": grid.FVar, "S": grid.SVar}


def make_row(cols):
    return grid.GRow(*[CLS[k](n, *a) for k, n, a in cols])


def write(path, cols, ents, lazy=False):
    w = rg.Writer(path, make_row(cols))
    for id_, segs in ents:
        if lazy:
            segs = ((list(r) for r in s) for s in segs)
        if id_ is None:
            w.write(segs)
        else:
            w.write(segs, id_)
    w.close()


def key(i, id_):
    return str(i if id_ is None else id_)


def same(got, cols, segs, what):
    row = make_row(cols)
    need(isinstance(got, (list, tuple)) and len(got) == len(segs), "{}: {} segments written, read {!r}", what, len(segs), got)
    for s, (g, w) in enumerate(zip(got, segs)):
        need(len(g) == len(w), "{}: segment {} of {} rows is read with {}", what, s, len(w), len(g))
        for a, b in zip(g, w):
            want = row.decode(row.encode(*b))
            need(tuple(a) == want, "{}: row {} is read as {}, the codec gives {}", what, b, tuple(a), want)
            for (k, n, arg), v, u in zip(cols, b, want):
                need(getattr(a, n) == u, "{}: field {} is {!r}, not {!r}", what, n, getattr(a, n), u)
                if k != "F" or v is None:
                    need(u == v, "{}: {!r} comes back as {!r}", what, v, u)


def spec(r, cols):
    fs = list(r.row.fields)
    need(len(fs) == len(cols), "{} columns are read as {}", len(cols), fs)
    for f, (k, n, a) in zip(fs, cols):
        need(type(f) is CLS[k], "column {} of kind {} is read as {!r}", n, k, f)
        w = CLS[k](n, *a)
        for at in ("name", "nullable", "size") + (("minv", "maxv") if k != "S" else ()):
            need(getattr(f, at) == getattr(w, at), "column {}: {} is {!r}, written {!r}", n, at, getattr(f, at), getattr(w, at))


def roundtrip(case):
    (cols, ents), ops, lazy, old = case
    path = os.path.join(Scratch.fresh(), "data")
    if old:
        write(path, [("S", "other", (200, False))], [(None, [[("x" * 150,)] * 5])] * 9)
    write(path, cols, ents, lazy)
    r = rg.Reader(path)
    spec(r, cols)
    # in the writing order
    for i, (id_, segs) in enumerate(ents):
        same(r.read(), cols, segs, "entity {} in sequence".format(i))
    # any history of reads by identifier and in sequence
    q = rg.Reader(path)
    pos = 0
    hist = []
    for op, n in ops:
        i = n % len(ents)
        if op == "id":
            hist.append("read({!r})".format(key(i, ents[i][0])))
            same(q.read(key(i, ents[i][0])), cols, ents[i][1], "; ".join(hist))
            pos = i + 1
        elif op == "raw":
            id_ = i if ents[i][0] is None else ents[i][0]
            hist.append("read({!r})".format(id_))
            same(q.read(id_), cols, ents[i][1], "; ".join(hist))
            pos = i + 1
        elif op == "bad":
            hist.append("read('nowhere')")
            raises(KeyError, q.read, "nowhere", what="; ".join(hist))
            near, ids = key(i, ents[i][0]), [key(j, e[0]) for j, e in enumerate(ents)]
            for u in (near.swapcase(), "0" + near, near + "0", near + " ", " " + near, near[1:], near[:-1], near.strip()):
                if u not in ids:
                    raises(KeyError, q.read, u, what="read({!r}), of {}".format(u, ids))
        elif op == "reopen":
            q.close()
            q = rg.Reader(path)
            pos = 0
            hist = []
        elif pos < len(ents):
            hist.append("read()")
            same(q.read(), cols, ents[pos][1], "; ".join(hist))
            pos += 1
    r.close()
    q.close()
    rows = sum(len(s) for _, ss in ents for s in ss)
    if not rows:
        return False
    return "jumps" if len({n % len(ents) for o, n in ops if o in ("id", "raw")}) > 1 else None


ops = st.lists(st.tuples(st.sampled_from(["id", "id", "raw", "next", "next", "bad", "reopen"]), st.integers(0, 9)), max_size=10)


@st.composite
def bulk(draw):
    "Many columns, entities, segments or rows."
    r = draw(gen.seeds)
    what = draw(st.sampled_from(["cols", "ents", "segs", "rows", "rows"]))
    n = draw(gen.sizes)
    if what == "cols":
        n = min(n, 255)
        cols = [("FIS"[(i + n) % 3], "c%d" % i, [(-10, 300 * i + 5, 4, False), (i, i * i + 9, bool(i % 2)), (i % 9 + 3, True)][(i + n) % 3]) for i in range(n)]
    else:
        cols = [("I", "a", (0, 70000, False)), ("S", "b", (draw(st.sampled_from([3, 127, 128])), True))]

    def value(c, i):
        k, _, a = c
        return {"I": lambda: a[0] + i % (a[1] - a[0] + 1), "F": lambda: a[0] + i % (a[1] - a[0]), "S": lambda: None if i % 5 == 3 else "%x" % (i % 4096)}[k]()

    def row_(i):
        return tuple(value(c, i) for c in cols)
    if what == "ents":
        ents = [(None if draw(st.just(i % 3 == 0)) else "id %d" % i, [[row_(i + j) for j in range(r.randint(0, 3))]] * r.randint(0, 2)) for i in range(n)]
    elif what == "segs":
        ents = [("a", [[row_(7)]]), ("b", [[row_(i * 3 + j) for j in range(r.randint(0, 2))] for i in range(n)]), ("c", [[row_(5)]])]
    elif what == "rows":
        m = draw(st.sampled_from([n, n, 1000, 8191, 16384, 16385]))
        ents = [("a", [[row_(i) for i in range(m)], [row_(1)]]), (None, [[row_(2)]])]
    else:
        ents = [("a", [[row_(i) for i in range(3)]]), ("b", [[row_(9)], [row_(8)]])]
    return cols, ents


def rowcounts(case):
    "More rows than two bytes can count, in one segment or over several."
    counts, step = case
    path = os.path.join(Scratch.fresh(), "data")
    w = rg.Writer(path, grid.GRow(grid.IVar("a", 0, 250, False)))
    for c in counts:
        w.write([[(j * step % 251,) for j in range(c)]])
    w.close()
    r = rg.Reader(path)
    for i in list(range(len(counts))) + [0]:
        got = r.read(str(i)) if i == 0 else r.read()
        need(len(got) == 1 and len(got[0]) == counts[i], "entity {} of one segment of {} rows is read as {} segments of {}", i, counts[i], len(got), [len(g) for g in got])
        need([x[0] for x in got[0]] == [j * step % 251 for j in range(counts[i])], "entity {} of {}: other values", i, counts)
    r.close()


FACETS = [
    Facet("rowcounts", lambda: st.tuples(st.tuples(st.sampled_from([65534, 65535, 65536, 65537, 131072]) | st.integers(60000, 140000)) | st.lists(st.sampled_from([16383, 16384, 32767, 32768]) | st.integers(15000, 40000), min_size=2, max_size=6).map(tuple), st.integers(1, 250)), rowcounts,
          "one to six segments of together about 30000 to 240000 rows", 12, budget=200000000),
    Facet("bulk", lambda: st.tuples(bulk(), st.lists(st.tuples(st.sampled_from(["id", "raw", "next"]), st.integers(0, 600)), max_size=5), st.booleans(), st.just(False)), roundtrip,
          "up to 255 columns, 513 entities, 513 segments or 16385 rows", 70, budget=60000000),
    Facet("roundtrip", lambda: st.tuples(dataset(), ops, st.booleans(), st.sampled_from([False, False, True])), roundtrip,
          "1..5 entities of 0..3 segments of 0..7 rows over 1..5 mixed columns, then up to 10 reads by identifier, in sequence, of unknown identifiers; at least one row", 4000),
]
