import math
from collections import Counter
from hypothesis import strategies as st
from vlib import gen
from vlib.engine import Facet, fail, need
from coral import coord

ASSUMPTIONS = ["scaled coordinates stay clear of rounding ties"]


def run(points, scl, closed, k, how):
    src = {"list": list, "iter": iter, "gen": lambda p: (q for q in p)}[how](points)
    args = {} if k is None else {"k": k}
    if closed is not None:
        args["closed"] = closed
    out = list(coord.simplify(src, scl, **args))
    res = []
    for p in out:
        try:
            x, y = p
        except (TypeError, ValueError):
            fail("not a point: {!r}", p)
        need(x == int(x) and y == int(y), "not rounded: {!r}", p)
        res.append((int(x), int(y)))
    return res


def chain(path):
    """Signed traversals of every primitive lattice step: two paths cover the
    same ground, in the same sense and as often, exactly when these agree."""
    c = Counter()
    for (x0, y0), (x1, y1) in zip(path, path[1:]):
        dx, dy = x1 - x0, y1 - y0
        g = math.gcd(dx, dy)
        if not g:
            continue
        dx, dy = dx // g, dy // g
        for i in range(g):
            a, b = (x0 + i * dx, y0 + i * dy), (x0 + (i + 1) * dx, y0 + (i + 1) * dy)
            if a < b:
                c[a, b] += 1
            else:
                c[b, a] -= 1
    return {k: v for k, v in c.items() if v}


def subsequence(out, src):
    it = iter(src)
    return all(any(p == q for q in it) for p in out)


def dedupe(path):
    return [p for i, p in enumerate(path) if i == 0 or p != path[i - 1]]


def turn(a, b, c):
    return (b[0] - a[0]) * (c[1] - b[1]) - (b[1] - a[1]) * (c[0] - b[0])


def ahead(a, b, c):
    return (b[0] - a[0]) * (c[0] - b[0]) + (b[1] - a[1]) * (c[1] - b[1])


def corners(path):
    "Reference for a path that does not retrace itself; None if it does."
    path = dedupe(path)
    out = path[:1]
    for a, b, c in zip(path, path[1:], path[2:]):
        if turn(a, b, c):
            out.append(b)
        elif ahead(a, b, c) < 0:
            return None
    return out + path[1:][-1:]


def raw(lattice, jit, scl):
    return [((x + jx) * scl, (y + jy) * scl) for (x, y), (jx, jy) in zip(lattice, jit)]


def polyline(case):
    lattice, jit, scl, k, how = case
    n = min(len(lattice), len(jit))
    lattice = lattice[:n]
    pts = raw(lattice, jit, scl)
    for flag in (None, False):
        out = run(pts, scl, flag, k, how)
        check_open(out, lattice)
    if n < 2:
        need(out == lattice, "short input {} became {}", lattice, out)
        return "short"
    ref = corners(lattice)
    if ref is not None:
        need(dedupe(out) == ref, "path {} became {}, expected {}", lattice, out, ref)
    return ("simple" if ref is not None else "retracing") + ("/long" if len(out) > (k or 8) + 2 else "")


def check_open(out, lattice):
    need(subsequence(out, lattice), "{} is not a subsequence of {}", out, lattice)
    if lattice:
        need(out and out[0] == lattice[0] and out[-1] == lattice[-1], "ends of {} became {}", lattice, out)
    else:
        need(out == [], "empty input became {}", out)
    need(chain(out) == chain(lattice), "path {} became {}, a different shape", lattice, out)


def ring(case):
    lattice, jit, scl, k, how, close = case
    n = min(len(lattice), len(jit))
    lattice = lattice[:n]
    if close and lattice:
        lattice = lattice + lattice[:1]
        jit = jit[:n] + jit[:1]
    pts = raw(lattice, jit, scl)
    out = run(pts, scl, True, k, how)
    if not lattice:
        need(out == [], "empty input became {}", out)
        return False
    need(len(out) > 0 or not chain(lattice + lattice[:1]), "ring {} vanished", lattice)
    need(subsequence(out, lattice + lattice), "{} is not in the order of {}", out, lattice)
    need(chain(out + out[:1]) == chain(lattice + lattice[:1]), "ring {} became {}, a different shape", lattice, out)
    if corners(lattice) is not None:
        d = dedupe(out)
        for a, b, c in zip(d, d[1:], d[2:]):
            need(turn(a, b, c) != 0, "ring {} kept the redundant vertex {}", lattice, b)
    return "long" if len(out) > (k or 8) + 2 else "short" if len(out) > 3 else "tiny"


def spikes(case):
    """A simple path with spikes (out along one to three segments and straight
    back) at some vertices simplifies as if they were not there."""
    base, at, scl, how = case
    base = [tuple(p) for p in base]
    ref = corners(base)
    if ref is None or len(ref) < 2:
        return False
    path, used = [], 0
    for i, p in enumerate(base):
        path.append(p)
        for j, legs in at:
            if j % len(base) == i and used != i + 1:
                used = i + 1
                way = [p]
                for dx, dy in legs:
                    way.append((way[-1][0] + dx, way[-1][1] + dy))
                path += way[1:] + way[-2::-1]
    out = run([(x * scl, y * scl) for x, y in path], scl, False, None, how)
    need(dedupe(out) == ref, "path {} with spikes removed is {}, got {}", path, ref, out)
    return "spike" if used else False


def ring_spikes(case):
    "A ring with spikes, begun anywhere on the ring or on a spike, simplifies to the ring."
    base, at, first, scl, k = case
    base = dedupe([tuple(p) for p in base])
    while len(base) > 1 and base[0] == base[-1]:
        base.pop()
    n = len(base)
    if n < 3 or any(turn(base[i - 1], base[i], base[(i + 1) % n]) == 0 for i in range(n)):
        return False
    path, used = [], set()
    for i, p in enumerate(base):
        path.append(p)
        for j, legs in at:
            if j % n == i and i not in used:
                used.add(i)
                way = [p]
                for dx, dy in legs:
                    way.append((way[-1][0] + dx, way[-1][1] + dy))
                path += way[1:] + way[-2::-1]
    first %= len(path)
    path = dedupe(path[first:] + path[:first])
    path.append(path[0])
    out = dedupe(run([(x * scl, y * scl) for x, y in path], scl, True, k, "list"))
    need(out[0] == out[-1], "ring {} became {}, not closed", path, out)
    out.pop()
    (ax, ay), (bx, by), (cx, cy) = out[-1], out[0], out[1 % len(out)]
    if out[0] not in base and turn(out[-1], out[0], out[1 % len(out)]) == 0 and (bx - ax) * (cx - bx) + (by - ay) * (cy - by) > 0:
        # begun within a segment
        del out[0]
    m = out.index(base[0]) if base[0] in out else 0
    need(out[m:] + out[:m] == base, "ring {} with spikes, begun at number {}: {}, got {}", base, first, path, out)
    return "spike" if used else False


def rounding(case):
    "Coordinates are divided by the pixel size and rounded, halves aside."
    (x, y), scl = case
    out = run([(x, y)], scl, False, None, "list")
    need(len(out) == 1, "one point became {}", out)
    for v, r in zip((x, y), out[0]):
        need(abs(v / scl - r) <= .5 + 1e-6 + 1e-15 * abs(r), "{} / {} rounded to {}", v, scl, r)


spread = st.floats(-1e5, 1e5) | st.floats(-1e12, 1e12) | st.integers(-10 ** 12, 10 ** 12)
unit = st.sampled_from([-1, 0, 1])
step = st.one_of(st.tuples(unit, unit), st.tuples(st.integers(-3, 3), st.integers(-3, 3)),
                 st.sampled_from([(1, 0), (0, 1), (-1, 0), (0, -1)]))


def walk(steps):
    path = [(0, 0)]
    for dx, dy in steps:
        path.append((path[-1][0] + dx, path[-1][1] + dy))
    return path


walks = st.one_of(st.lists(step, max_size=40).map(walk), st.lists(step, min_size=15, max_size=40).map(walk),
                  st.lists(st.tuples(st.integers(1, 3), st.integers(-3, 3)), max_size=40).map(walk),
                  st.lists(st.tuples(st.integers(-3, 3), st.integers(-3, 3)), max_size=3),
                  st.lists(st.tuples(st.integers(-20, 20), st.integers(-20, 20)), min_size=2, max_size=30))


def star(t):
    rad, n, c = t
    return [(round(c + r * math.cos(2 * math.pi * i / len(rad))), round(c + r * math.sin(2 * math.pi * i / len(rad)))) for i, r in enumerate(rad)]


stars = st.tuples(st.lists(st.integers(4, 30), min_size=3, max_size=45), st.just(0), st.integers(-5, 5)).map(star)
jitter = st.one_of(st.just([(0, 0)] * 64),
                   st.lists(st.tuples(st.integers(-44, 44), st.integers(-44, 44)).map(lambda t: (t[0] / 100, t[1] / 100)), min_size=8, max_size=8).map(lambda l: l * 8))
scales = st.sampled_from([1, 2, .5, 10, 1000, 0.001, 5000, 3.7, 7])
hows = st.sampled_from(["list", "iter", "gen"])
ks = st.sampled_from([None, None, 1, 2, 4, 8, 16])


@st.composite
def long_walk(draw):
    n, r = draw(gen.sizes), draw(gen.seeds)
    kind = draw(st.sampled_from(["free", "monotone", "stairs", "spiral", "runs"]))
    if kind == "monotone":
        return walk([(r.randint(1, 3), r.randint(-3, 3)) for _ in range(n)])
    if kind == "stairs":
        return walk([(i % 2, 1 - i % 2) for i in range(n)])
    if kind == "spiral":
        return walk([([1, 0, -1, 0][i % 4] * (i + 1), [0, 1, 0, -1][i % 4] * (i + 1)) for i in range(n)])
    if kind == "runs":
        return walk([s for _ in range(n // 8) for s in [(r.randint(-2, 2), r.randint(-2, 2))] * r.randint(1, 15)])
    return walk([(r.randint(-2, 2), r.randint(-2, 2)) for _ in range(n)])


@st.composite
def long_ring(draw):
    n, r = draw(gen.sizes), draw(gen.seeds)
    return star(([r.randint(40, 900) for _ in range(n)], 0, 3))


FACETS = [
    Facet("longline", lambda: st.tuples(long_walk(), st.just([(0, 0)] * 5000), scales, ks, hows), polyline,
          "walks of 16..5000 points: free, monotone, stairs, spirals, long straight runs", 250, budget=30000000),
    Facet("longring", lambda: st.tuples(st.one_of(long_ring(), long_ring(), long_walk()), st.just([(0, 0)] * 5000), scales, ks, hows, st.booleans()), ring,
          "rings of 16..5000 vertices", 250, budget=30000000),
    Facet("polyline", lambda: st.tuples(walks, jitter, scales, ks, hows), polyline,
          "lattice walks of 0..41 points (straight runs, repeats, reversals) jittered within their pixel", 2500, weight=2),
    Facet("ring", lambda: st.tuples(st.one_of(walks, stars, stars), jitter, scales, ks, hows, st.booleans()), ring,
          "rings of 0..45 vertices, explicitly closed or not; non-trivial unless empty", 2500, weight=2),
    Facet("ring spikes", lambda: st.tuples(stars, st.lists(st.tuples(st.integers(0, 45), st.lists(step.filter(any), min_size=1, max_size=3)), max_size=4), st.integers(0, 80), scales, st.sampled_from([None, 8, 16])), ring_spikes,
          "rings of corners with up to 4 spikes of 1..3 segments, begun anywhere", 2000),
    Facet("spikes", lambda: st.tuples(st.lists(st.tuples(st.integers(1, 3), st.integers(-3, 3)), min_size=1, max_size=20).map(walk),
                                      st.lists(st.tuples(st.integers(0, 20), st.lists(step.filter(any), min_size=1, max_size=3)), max_size=4), scales, hows), spikes,
          "monotone paths with up to 4 out-and-back spikes of 1..3 segments; non-trivial with at least one spike", 2500, weight=2),
    Facet("rounding", lambda: st.tuples(st.tuples(spread, spread), scales), rounding, "single points up to 1e12 off", 1500),
]
