import collections
from hypothesis import assume, strategies as st
from vlib import gen
from vlib.engine import Facet, Scratch, fail, need, raises
from coral import table

ASSUMPTIONS = ["the separator and the comment mark share no character; values hold no character of the separator or comment mark and no line break; they neither start nor end with blanks",
               "a row is never blank as a whole (one column with an empty value, or only empty values between blank separators)"]

NAMES = ["a", "b", "c", "uf_id", "nome", "code", "região", "x1", "count", "index", "keys"]
SEPS = [",", ",", ";", "\t", " ", "|", "::", ", ", "$", ".", "%"]
COMMS = ["#", "#", "//", "%%", "--"]
ABC = "abcXYZ019 éãß漢€ąñ'\"()[]{}*\\/+-=_%$.:;,|#&?!\u00a0\U0001F600"


@st.composite
def case(draw):
    names = draw(st.permutations(NAMES))[:draw(st.integers(1, 6))]
    sep = draw(st.sampled_from(SEPS))
    comm = draw(st.sampled_from([c for c in COMMS if not set(c) & set(sep)]))
    abc = "".join(c for c in ABC if c not in sep and c not in comm)
    value = st.text(abc, max_size=6).map(str.strip) | st.sampled_from(["", "x", "10"]).filter(lambda v: not set(v) & set(sep + comm))
    rows = draw(st.lists(st.tuples(*[value] * len(names)), min_size=draw(st.sampled_from([0, 1, 2])), max_size=12))
    rows = [r for r in rows if sep.join(r).strip()]
    keys = draw(st.none() | st.permutations(names).flatmap(lambda p: st.integers(1, len(p)).map(lambda k: list(p[:k]))))
    return names, rows, sep, comm, keys


def rows_of(names, rows):
    R = collections.namedtuple("R", names)
    return [R(*r) for r in rows]


def same(got, names, rows, what):
    need(isinstance(got, list), "{}: not a list: {}", what, got)
    need(len(got) == len(rows), "{}: {} rows, expected {}: {}", what, len(got), len(rows), got)
    for i, (a, b) in enumerate(zip(got, rows)):
        need(a._fields == tuple(names), "{}: columns {}, expected {}", what, a._fields, names)
        need(tuple(a) == tuple(b), "{}: row {} is {}, expected {}", what, i, tuple(a), tuple(b))
        for k, v in zip(names, b):
            need(getattr(a, k) == v, "{}: row {}, column {} is {!r}, expected {!r}", what, i, k, getattr(a, k), v)


def pick(names, rows, keys):
    return [tuple(r[names.index(k)] for k in keys) for r in rows]


def trip(c):
    names, rows, sep, comm, keys = c
    d = Scratch.dir()
    t = rows_of(names, rows)
    path = d + "/t.txt"
    if rows:
        table.writefile(path, t, sep=sep)
    else:
        table.writefile(path, t, list(names), sep=sep)
    same(table.readfile(path, sep=sep, comm=comm), names, rows, "round trip")
    if keys is not None:
        same(table.readfile(path, keys, sep=sep, comm=comm), keys, pick(names, rows, keys), "reading columns {} of {}".format(keys, names))
        part = pick(names, rows, keys)
        if all(sep.join(r).strip() for r in part):
            sub = d + "/s.txt"
            table.writefile(sub, t, keys, sep=sep)
            same(table.readfile(sub, sep=sep, comm=comm), keys, part, "writing columns {} of {}".format(keys, names))
    need([tuple(r) for r in t] == rows, "writing changed the table")
    table.writefile(path, t[:1], list(names), sep=sep)
    same(table.readfile(path, sep=sep, comm=comm), names, rows[:1], "a shorter table over a longer file")
    return "empty table" if not rows else "empty ends" if any(r[0] == "" or r[-1] == "" for r in rows) else "with selection" if keys else None


@st.composite
def messy(draw):
    c = draw(case())
    names, rows, sep, comm, keys = c
    gap = [b for b in (" ", "\t") if b not in sep]
    lines = [sep.join(names)] + [sep.join(r) for r in rows]
    out = []
    word = st.text("ab é" + sep + comm, max_size=5)

    def junk(first):
        for _ in range(draw(st.sampled_from([0, 0, 0, 1, 2]))):
            k = draw(st.integers(0, 2))
            out.append(["", " \t "[draw(st.integers(0, 2)):], draw(st.sampled_from(["", " "])) + comm + draw(word)][k])
    for i, l in enumerate(lines):
        junk(i == 0)
        if gap and draw(st.integers(0, 3)) == 0:
            l = draw(st.sampled_from(gap)) + l
        k = draw(st.integers(0, 3))
        if k == 0:
            l += comm + draw(word)
        elif k == 1 and gap:
            l += draw(st.sampled_from(gap)) + draw(st.sampled_from(["", comm + draw(word)]))
        out.append(l)
    junk(False)
    end = draw(st.sampled_from(["\n", "\n", "\r\n"]))
    return c, end.join(out) + draw(st.sampled_from([end, ""])), draw(st.integers(0, 2))


def comments(c):
    (names, rows, sep, comm, keys), text, how = c
    path = Scratch.dir() + "/m.txt"
    with open(path, "w", encoding="utf8", newline="") as f:
        f.write(text)
    want = rows if keys is None else pick(names, rows, keys)
    got = table.readfile(path, keys, sep, comm) if how else table.readfile(path, keys=keys, comm=comm, sep=sep)
    same(got, names if keys is None else keys, want, "file {!r}".format(text))
    need(open(path, encoding="utf8", newline="").read() == text, "reading changed the file")
    plain = text == "\n".join([sep.join(names)] + [sep.join(r) for r in rows]) + "\n"
    return False if plain else None


@st.composite
def headless(draw):
    comm = draw(st.sampled_from(COMMS))
    lines = draw(st.lists(st.sampled_from(["", " ", "\t", comm, comm + "a,b", " " + comm + " x", "\r"]), max_size=6))
    return comm, "\n".join(lines) + draw(st.sampled_from(["", "\n"]))


def refuse(c):
    comm, text = c
    path = Scratch.dir() + "/h.txt"
    with open(path, "w", encoding="utf8", newline="") as f:
        f.write(text)
    raises(Exception, table.readfile, path, comm=comm, what="file without a header {!r}".format(text))
    return "empty" if not text.strip() else None


@st.composite
def bulk(draw):
    r = draw(gen.seeds)
    nc, nr = draw(st.sampled_from([(3, 600), (140, 6), (300, 2), (20, 60), (1, 1500)]))
    nc, nr = gen.upto(r, nc), gen.upto(r, nr + 1) - 1
    names = ["c%d" % i for i in range(nc)]
    r.shuffle(names)
    sep, comm = draw(st.sampled_from(SEPS)), "#"
    abc = "".join(c for c in ABC if c not in sep and c not in comm)
    value = lambda: "".join(r.choice(abc) for _ in range(r.choice([0, 1, 5, 5, 80]))).strip()
    rows = [tuple(value() for _ in names) for _ in range(nr)]
    rows = [q for q in rows if sep.join(q).strip()]
    keys = r.sample(names, r.randint(1, nc)) if r.random() < .5 else None
    return names, rows, sep, comm, keys


FACETS = [
    Facet("trip", case, trip, "tables of 1..6 columns and 0..12 rows, nine separators, all column selections and orders; every case", 1800, weight=2),
    Facet("comments", messy, comments, "tables with blank lines, comments, indents, trailing blanks and either line end; something added to the plain file", 2000, weight=2),
    Facet("headless", headless, refuse, "files of up to 6 blank or comment lines; every case", 500),
    Facet("bulk", bulk, trip, "tables of up to 300 columns or 1500 rows; every case", 80, budget=60000000),
]
