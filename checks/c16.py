import math
import os
from hypothesis import assume, strategies as st
from vlib.engine import Facet, Scratch, close, fail, need, num, pt
from vlib import sphere as S
from coral import pf

ASSUMPTIONS = ["entities are made of polygons of at least three distinct points",
               "out-of-range longitudes are folded by whole turns; out-of-range latitudes are only required to come out within -90..90",
               "names are ASCII without NUL, distinct"]

quarter = st.integers(-720, 720).map(lambda i: i / 4)
qlat = st.integers(-360, 360).map(lambda i: i / 4)
vertex = st.one_of(st.tuples(quarter, qlat), st.tuples(quarter, qlat), st.tuples(st.floats(-180, 180), st.floats(-90, 90)),
                   st.tuples(st.sampled_from([-180, 180, 0, 12, -156, -132]), st.sampled_from([-90, 90, 0, 12, -84])))
name = st.text(st.characters(min_codepoint=1, max_codepoint=127), max_size=10) | st.text("abAB 01", max_size=3)


@st.composite
def local(draw):
    "Vertices around an anchor: a few metres to a few degrees wide."
    ax, ay = draw(st.tuples(st.integers(-1790, 1790).map(lambda i: i / 10), st.integers(-890, 890).map(lambda i: i / 10)))
    w = draw(st.sampled_from([1e-5, 1e-3, .01, .5]))
    n = draw(st.integers(3, 8))
    return [(ax + draw(st.integers(-100, 100)) * w / 100, ay + draw(st.integers(-100, 100)) * w / 100) for _ in range(n)]


@st.composite
def loop(draw):
    "A ring of more than 127 points, where lengths take two bytes."
    n = draw(st.integers(120, 400))
    w = draw(st.sampled_from([.01, 3, 20]))
    x, y = draw(st.tuples(st.integers(-150, 150), st.integers(-60, 60)))
    return [(x + w * math.cos(i * 2 * math.pi / n), y + w * math.sin(i * 2 * math.pi / n)) for i in range(n)]


@st.composite
def flat(draw):
    "All on one meridian or parallel, such as the date line."
    k = draw(st.sampled_from([-180, 180, 0, 12, -156, 36, 90, -90, 5.5]) | quarter)
    vs = draw(st.lists(quarter, min_size=3, max_size=6, unique=True))
    return [(k, v / 2) for v in vs] if draw(st.booleans()) else [(v, k / 2) for v in vs]


polygon = st.one_of(flat(), local(), local(), local(), local(), loop(), st.lists(vertex, min_size=3, max_size=8), st.lists(vertex, min_size=3, max_size=8), st.lists(vertex, min_size=3, max_size=8), st.lists(vertex, min_size=3, max_size=8)).filter(lambda p: len(set(p)) >= 3)


@st.composite
def entities(draw, shifts=True):
    out = []
    names = draw(st.lists(name, min_size=0 if shifts else 1, max_size=4, unique=True))
    if len(names) > 1:
        # names that differ little
        alike = draw(st.sampled_from([None, None, None, str.swapcase, str.upper, str.strip, lambda n: n + " ", lambda n: " " + n, lambda n: n + "0", lambda n: "0" + n, lambda n: n[:-1], lambda n: n[1:]]))
        if alike and alike(names[0]) not in names:
            names[1] = alike(names[0])
    for nm in names:
        polys = []
        for p in draw(st.lists(polygon, min_size=1, max_size=3)):
            k = draw(st.sampled_from([0, 0, 0, 1, -1, 2])) if shifts else 0
            if k and all(c * 8 == int(c * 8) for q in p for c in q):
                p = [(x + 360 * k, y) for x, y in p]
            if shifts and draw(st.integers(0, 9)) == 0:
                p = p[:-1] + [(p[-1][0], p[-1][1] + draw(st.sampled_from([180, -180])))]
            if draw(st.booleans()):
                p = p + [p[0]]
            polys.append(p)
        out.append((nm, polys))
    return out


def fold(p):
    x, y = p
    while x < -180:
        x += 360
    while x > 180:
        x -= 360
    return x, y


def expected(polys):
    out = []
    for p in polys:
        q = [fold(v) for v in p]
        if q[0] == q[-1]:
            q = q[:-1]
        out.append(q)
    return out


def within(p):
    return -90 <= p[1] <= 90


def judge(got, polys, size, what):
    want = expected(polys)
    need(len(got) == len(want), "{}: {} polygons written, {} read", what, len(want), len(got))
    xs = [x for q in want for x, _ in q]
    odd = any(not within(v) for q in want for v in q)
    ys = [y for q in want for _, y in q]
    w = (max(xs) - min(xs) + 2 * 360 / 65535) / (256 ** size - 1)
    h = (180 if odd else max(ys) - min(ys) + 2 * 180 / 65535) / (256 ** size - 1)
    for g, q in zip(got, want):
        need(len(g) == len(q), "{}: polygon of {} points is read with {}", what, len(q), len(g))
        for a, b in zip(g, q):
            lon, lat = pt(a, "stored point")
            close(lon, b[0], w + 1e-11, "{}: longitude of {} at size {}".format(what, b, size))
            need(-90 - 1e-9 <= lat <= 90 + 1e-9 and -180 - 1e-9 <= lon <= 180 + 1e-9, "{}: {} is out of range", what, a)
            if within(b):
                close(lat, b[1], h + 1e-11, "{}: latitude of {} at size {}".format(what, b, size))


def usable(ents):
    for _, polys in ents:
        q = [v for p in expected(polys) for v in p]
        if any(p[0][0] == p[-1][0] and p[0][1] != p[-1][1] and (p[0][1] - p[-1][1]) % 180 == 0 for p in expected(polys)):
            return False
        if any(len(p) < 2 for p in expected(polys)):
            return False
    return True


def store(path, ents, size, lazy=False):
    w = pf.Writer(path, size) if size != 4 else pf.Writer(path)
    for n, polys in ents:
        w.write(n, [tuple(map(list, p)) for p in polys] if lazy else polys)
    return w.close()


def roundtrip(case):
    ents, size, order, old, lazy = case
    assume(usable(ents))
    path = os.path.join(Scratch.fresh(), "data.p")
    if old:
        with open(path, "wb") as f:
            f.write(b"\x55" * 20000)
    before = repr(ents)
    errs = store(path, ents, size, lazy)
    need(repr(ents) == before, "writing altered the polygons")
    r = pf.Reader(path)
    need(len(r) == len(ents), "{} entities written, {} reported", len(ents), len(r))
    need(list(r.names) == [n for n, _ in ents], "names read: {}", r.names)
    first = {}
    for how, n in [("i", i) for i in range(len(ents))] + order:
        if not ents:
            break
        i = n % len(ents)
        got = r.read(i) if how == "i" else r.get(ents[i][0])
        judge(got, ents[i][1], size, "entity {!r} by {}".format(ents[i][0], "index" if how == "i" else "name"))
        got = [[pt(v) for v in p] for p in got]
        need(first.setdefault(i, got) == got, "entity {} differs between reads", i)
    r.close()
    # the reported errors
    flat = [v for _, polys in ents for p in expected(polys) for v in p]
    stored = [v for i in range(len(ents)) for p in first[i] for v in p]
    need(len(errs) == len(stored), "{} distances for {} points", len(errs), len(stored))
    for e, a, b in zip(errs, flat, stored):
        if within(a):
            d = S.dist(S.vec(*a), S.vec(*b)) * 6367000
            # any Earth radius between the polar and the equatorial one
            close(e, d, 1e-6 + .0025 * d, "distance reported for {} stored at {}".format(a, b))
    if not ents:
        return False
    if len(ents) > 1 and len(flat) > 127:
        return "two-byte lengths"
    return "size {}{}".format(size, " several" if len(ents) > 1 else "")


@st.composite
def many(draw):
    "Numbers of entities and parts around the powers of two, of small polygons spread over the globe."
    counts = draw(st.lists(st.sampled_from([1, 2, 3, 4, 5, 6, 7, 9, 12, 17, 33]) | st.sampled_from([127, 128, 129, 130, 255, 256, 257]), min_size=1, max_size=3))
    counts += [1 + (i * draw(st.integers(0, 3))) % 4 for i in range(draw(st.sampled_from([0, 1, 4, 9, 17, 64, 126, 127, 128, 256])))]
    if draw(st.booleans()):
        counts.reverse()
    a, b, n = draw(st.integers(1, 97)), draw(st.integers(1, 89)), draw(st.integers(3, 5))
    out, k = [], 0
    for i, c in enumerate(counts):
        polys = []
        for _ in range(c):
            k += 1
            x, y = k * a % 350 - 175, k * b % 170 - 85
            polys.append([(x + (j % 2) + k % 7 / 16, y + j * .75 + k % 5 / 16) for j in range(n + k % 2)])
        out.append(("e%d" % i, polys))
    return out


FACETS = [
    Facet("many", lambda: st.tuples(many(), st.sampled_from([1, 2, 4, 8]), st.lists(st.tuples(st.sampled_from("in"), st.integers(0, 200)), max_size=4), st.booleans(), st.booleans()), roundtrip,
          "up to 260 entities, up to 257 polygons in one; every case", 80, budget=30000000),
    Facet("roundtrip", lambda: st.tuples(entities(), st.sampled_from([1, 2, 4, 8]), st.lists(st.tuples(st.sampled_from("in"), st.integers(0, 9)), max_size=6), st.booleans(), st.booleans()), roundtrip,
          "0..4 entities of 1..3 polygons (world-wide or a few metres wide, closed or not, shifted by whole turns), read in generated orders by index and name; at least one entity", 4000),
]
