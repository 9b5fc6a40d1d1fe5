import collections
import contextlib
import io
from hypothesis import assume, strategies as st
from vlib import gen
from vlib.engine import Facet, fail, need
from coral import table

ASSUMPTIONS = ["explicit pivots are columns of both tables; tables have at least one row except where column names are given",
               "an index over repeated values keeps the last of the rows"]

NAMES = ["a", "b", "c", "id", "uf", "nome", "région"]
POOL = ["", "a", "b", "1", "01", "é", "a b", "ab", "%s", "-+-", " | "]


@st.composite
def tab(draw, names=None, lo=1, hi=8):
    names = list(draw(st.permutations(NAMES))[:draw(st.integers(1, 5))]) if names is None else names
    pool = st.sampled_from(POOL[:draw(st.sampled_from([2, 3, 5, len(POOL)]))])
    return names, draw(st.lists(st.tuples(*[pool] * len(names)), min_size=lo, max_size=hi))


def make(t):
    names, rows = t
    R = collections.namedtuple("R", names)
    return [R(*r) for r in rows]


class Kept:
    "Asserts that tables are unaltered."

    def __init__(self, *tables):
        self.tables = tables

    def __enter__(self):
        self.before = [[(id(r), tuple(r)) for r in t] for t in self.tables]

    def __exit__(self, *exc):
        if exc[0] is None:
            need(self.before == [[(id(r), tuple(r)) for r in t] for t in self.tables], "an input table was altered")


def dicts(rows):
    return [dict(r._asdict()) for r in rows]


def model(t):
    return [dict(zip(t[0], r)) for r in t[1]]


OBJECTS = ["", "a", "1", None, 0, 1, 2.5, False, 0.0, (), (1, 2)]


def other(draw, t):
    "The same table with values that are not strings."
    names, rows = t
    m = {v: draw(st.sampled_from(OBJECTS)) for v in POOL}
    return names, [tuple(m[v] for v in r) for r in rows], m


@st.composite
def joinable(draw):
    t1 = draw(tab())
    shared = draw(st.lists(st.sampled_from(t1[0]), unique=True, max_size=len(t1[0])))
    extra = [n for n in NAMES if n not in t1[0]]
    own = draw(st.lists(st.sampled_from(extra), unique=True, max_size=3)) if extra else []
    names = list(draw(st.permutations(shared + own)))
    t2 = draw(tab(names or [NAMES[0]]))
    if draw(st.integers(0, 2)) == 0:
        # make rows of the second table agree with rows of the first in a column or two
        rows = []
        for i, r in enumerate(t2[1]):
            src = dict(zip(t1[0], t1[1][draw(st.integers(0, len(t1[1]) - 1))]))
            keep = draw(st.sets(st.sampled_from(names))) if names else set()
            rows.append(tuple(src.get(n, v) if n in keep else v for n, v in zip(t2[0], r)))
        t2 = (t2[0], rows)
    common = [n for n in t1[0] if n in t2[0]]
    pivots = draw(st.none() | st.permutations(common).flatmap(lambda p: st.integers(0, len(p)).map(lambda k: list(p[:k]))))
    every = list(dict.fromkeys(t1[0] + t2[0]))
    keys = draw(st.none() | st.permutations(every).flatmap(lambda p: st.integers(1, len(p)).map(lambda k: list(p[:k]))))
    if draw(st.integers(0, 2)) == 0:
        *t1, m = other(draw, t1)
        t2 = (t2[0], [tuple(m[v] for v in r) for r in t2[1]])
    return t1, t2, pivots, keys


def joining(case):
    t1, t2, pivots, keys = case
    a, b = make(t1), make(t2)
    args = {}
    if pivots is not None:
        args["pivots"] = list(pivots)
    if keys is not None:
        args["keys"] = list(keys)
    with Kept(a, b):
        got = table.join(a, b, **args)
    need(args.get("pivots", pivots) == pivots and args.get("keys", keys) == keys, "the lists of columns were altered")
    m1, m2 = model(t1), model(t2)
    piv = [n for n in t1[0] if n in t2[0]] if pivots is None else pivots
    cols = list(dict.fromkeys(t1[0] + t2[0])) if keys is None else keys
    want = []
    hits = 0
    for r in m1:
        d = dict(r)
        for s in m2:
            if all(r[p] == s[p] for p in piv):
                d.update(s)
                hits += 1
                break
        want.append({k: d.get(k, "") for k in cols})
    need(isinstance(got, list) and len(got) == len(want), "{} rows joined, expected {}", got, len(want))
    for i, (g, w) in enumerate(zip(got, want)):
        if keys is None:
            need(sorted(g._fields) == sorted(cols), "columns {}, expected {}", g._fields, cols)
        else:
            need(list(g._fields) == cols, "columns {}, expected {}", g._fields, cols)
        need(dict(g._asdict()) == w, "row {} of the join is {}, expected {}", i, dict(g._asdict()), w)
    return "all match" if hits == len(m1) else "some match" if hits else "none match"


@st.composite
def lookup(draw):
    t = draw(tab())
    return t, draw(st.sampled_from(t[0])), draw(st.sampled_from(POOL) | st.sampled_from([v for r in t[1] for v in r]))


def select(case):
    t, key, q = case
    a = make(t)
    j = t[0].index(key)
    want = [r for r in t[1] if r[j] == q]
    with Kept(a):
        one = table.getone(a, key, q)
        got = list(table.getall(a, key, q))
        idx = table.indexby(a, key)
    need(one is None if not want else tuple(one) == want[0], "getone({!r}, {!r}) of {}: {}", key, q, t, one)
    need([tuple(r) for r in got] == want, "getall({!r}, {!r}) of {}: {}", key, q, t, got)
    need(all(r._fields == tuple(t[0]) for r in got), "getall changed the columns")
    rest = [n for n in t[0] if n != key]
    wanti = {r[j]: tuple(v for k, v in zip(t[0], r) if k != key) for r in t[1]}
    need(set(idx) == set(wanti), "indexed by {}: {}, expected {}", key, set(idx), set(wanti))
    for v, r in wanti.items():
        need(tuple(idx[v]) == r and idx[v]._fields == tuple(rest), "index of {} at {!r}: {}, expected {}", t, v, idx[v], r)
    return "{} found".format("several" if len(want) > 1 else "one" if want else "none")


@st.composite
def columns(draw):
    t = draw(tab())
    new = draw(st.sampled_from([n for n in NAMES + ["new", "z9"] if n not in t[0]]))
    return t, new, draw(st.integers(0, 2)), draw(st.sets(st.sampled_from(t[0]), max_size=len(t[0]))), draw(st.sampled_from([list, tuple, set]).map(lambda f: f.__name__))


def project(case):
    t, new, how, gone, kind = case
    a = make(t)
    funcs = [lambda r: "|".join(r), lambda r: getattr(r, t[0][-1]) + "!", lambda r: len(r[0])]
    calls = []

    def func(r):
        calls.append(tuple(r))
        return funcs[how](r)
    with Kept(a):
        got = list(table.addkey(a, new, func))
    need(calls == t[1], "the function of the new column saw {}, expected {}", calls, t[1])
    need(all(r._fields == tuple(t[0]) + (new,) for r in got), "columns {}", got and got[0]._fields)
    want = [r + (f,) for r, f in zip(t[1], [funcs[how](r) for r in a])]
    need([tuple(r) for r in got] == want, "with column {}: {}, expected {}", new, got, want)
    drop = {"list": list, "tuple": tuple, "set": set}[kind](sorted(gone) + ["nowhere"])
    with Kept(a):
        less = list(table.delkeys(a, drop))
    keep = [n for n in t[0] if n not in gone]
    want = [tuple(r[t[0].index(k)] for k in keep) for r in t[1]]
    need([tuple(r) for r in less] == want and all(r._fields == tuple(keep) for r in less), "without {}: {}, expected {}", gone, less, want)
    back = list(table.delkeys(got, [new]))
    need([tuple(r) for r in back] == t[1] and all(list(r._fields) == t[0] for r in back), "adding and deleting a column gives {}", back)
    return "nothing left" if not keep else "some deleted" if gone else "none deleted"


@st.composite
def shown(draw):
    t = draw(tab(lo=0))
    keys = draw(st.none() | st.permutations(t[0]).flatmap(lambda p: st.integers(1, len(p)).map(lambda k: list(p[:k])))) if t[1] else list(t[0])
    return t, keys


def pretty(case):
    t, keys = case
    a = make(t)
    out = io.StringIO()
    with Kept(a), contextlib.redirect_stdout(out):
        if keys is None:
            table.pprint(a)
        else:
            table.pprint(a, keys)
    cols = t[0] if keys is None else keys
    want = [cols] + [[r[t[0].index(k)] for k in cols] for r in t[1]]
    text = out.getvalue()
    need(text.endswith("\n"), "output {!r}", text)
    lines = text[:-1].split("\n")
    need(len(lines) == len(want) + 1, "{} lines printed for {} rows: {!r}", len(lines), len(t[1]), text)
    rule = lines.pop(1)
    need(set(rule) <= {"-", "+"}, "rule {!r}", rule)
    spans, pos = [], 0
    for w in rule.split("-+-"):
        spans.append((pos, pos + len(w)))
        pos += len(w) + 3
    need(len(spans) == len(cols), "{} columns ruled for {}: {!r}", len(spans), cols, rule)
    for l, vals in zip(lines, want):
        rest = l.ljust(len(rule))
        need(len(rest) == len(rule), "line {!r} is longer than its rule {!r}", l, rule)
        for (x, y), v in zip(spans, vals):
            need(rest[x:y] == v.ljust(y - x), "column of {!r} shows {!r}, in line {!r} of {!r}", v, rest[x:y], l, text)
        for (_, y), (x, _) in zip(spans, spans[1:]):
            need(rest[y:x] == " | ", "columns of {!r} are separated by {!r}", l, rest[y:x])
    return "no rows" if not t[1] else None


def rtab(r, names, n):
    pool = [str(i) for i in range(r.choice([2, 10, 100, 1000]))] + POOL[:r.choice([0, 4])]
    rows = [[r.choice(pool) for _ in names] for _ in range(n)]
    # a few values unlike all others, often in the last rows
    for _ in range(r.choice([0, 0, 1, 3])):
        r.choice([r.choice(rows), rows[-1], rows[-r.randint(1, min(n, 9))]])[r.randrange(len(names))] = "v" * r.randint(1, 12) + str(r.randrange(9))
    return names, [tuple(q) for q in rows]


BULK = [(3, 300), (4, 150), (120, 4), (30, 30)]


@st.composite
def bigjoin(draw):
    r = draw(gen.seeds)
    c, n = draw(st.sampled_from([(3, 120), (5, 80), (60, 4), (20, 20)]))
    every = ["c%d" % i for i in range(2 * c)]
    n1, n2 = r.sample(every, gen.upto(r, c)), r.sample(every, gen.upto(r, c))
    t1, t2 = rtab(r, n1, gen.upto(r, n)), rtab(r, n2, gen.upto(r, n))
    common = [k for k in n1 if k in n2]
    if common and r.random() < .6:
        rows = []
        for q in t2[1]:
            src = dict(zip(n1, r.choice(t1[1])))
            rows.append(tuple(src.get(k, v) for k, v in zip(n2, q)))
        t2 = (n2, rows)
    every = list(dict.fromkeys(n1 + n2))
    return t1, t2, r.choice([None, r.sample(common, r.randint(0, len(common)))]), r.choice([None, r.sample(every, r.randint(1, len(every)))])


@st.composite
def bigtab(draw):
    r = draw(gen.seeds)
    c, n = draw(st.sampled_from(BULK))
    return r, rtab(r, r.sample(["c%d" % i for i in range(c)], gen.upto(r, c)), gen.upto(r, n))


def biglookup():
    return bigtab().map(lambda x: (x[1], x[0].choice(x[1][0]), x[0].choice(x[1][1])[0]))


def bigcolumns():
    return bigtab().map(lambda x: (x[1], "new", x[0].randrange(3), set(x[0].sample(x[1][0], x[0].randint(0, len(x[1][0])))), x[0].choice(["list", "tuple", "set"])))


def bigshown():
    return bigtab().map(lambda x: (x[1], x[0].choice([None, x[0].sample(x[1][0], x[0].randint(1, len(x[1][0])))])))


FACETS = [
    Facet("join", joinable, joining, "two tables with 0..5 common columns over a small value pool, default or explicit pivots and columns; every case", 2500, weight=2),
    Facet("select", lookup, select, "a table, a column and a value of the pool or of the table; every case", 2000),
    Facet("project", columns, project, "a table, a computed column and a set of columns to delete; every case", 2000),
    Facet("pprint", shown, pretty, "a table of 0..8 rows, all column selections; every case", 1500),
    Facet("bigjoin", bigjoin, joining, "tables of up to 120 rows or 60 columns; every case", 80, budget=60000000),
    Facet("bigselect", biglookup, select, "tables of up to 300 rows or 120 columns; every case", 80, budget=60000000),
    Facet("bigproject", bigcolumns, project, "tables of up to 300 rows or 120 columns; every case", 80, budget=60000000),
    Facet("bigpprint", bigshown, pretty, "tables of up to 300 rows or 120 columns; every case", 80, budget=60000000),
]
