import math
from hypothesis import assume, strategies as st
from vlib.engine import Facet, close, fail, need, num
from vlib import gen
from coral import gradient

ASSUMPTIONS = ["stop positions lie in 0..1; of stops that share a position the first given meets the blend from the left and the last given the one to the right; channels in 0..1; linear blends are compared to 1e-9"]

unit = st.integers(0, 100).map(lambda i: i / 100) | st.integers(0, 15).map(lambda i: i / 15) | st.sampled_from([0, 1, .5, .25]) | st.floats(0, 1)
pos = st.integers(0, 16).map(lambda i: i / 16) | st.integers(0, 1000).map(lambda i: i / 1000) | st.sampled_from([0, 1])
colour = st.tuples(unit, unit, unit)
stops = st.lists(st.tuples(pos, colour), min_size=1, max_size=7, unique_by=lambda t: t[0])

PREDEFINED = {
    "gray": [(0, (0, 0, 0)), (1, (1, 1, 1))],
    "bwr": [(0, (0, 0, 1)), (.5, (1, 1, 1)), (1, (1, 0, 0))],
    "heat": [(0, (0, 0, 1)), (.25, (0, 1, 1)), (.5, (0, 1, 0)), (.75, (1, 1, 0)), (1, (1, 0, 0))],
    "height": [(0, (0, .36, .18)), (.25, (.84, .84, .39)), (.57, (.63, .39, 0)), (1, (1, 1, 1))],
}


def model(points, x):
    points = sorted(points)
    if x <= points[0][0]:
        return points[0][1]
    if x >= points[-1][0]:
        return points[-1][1]
    for (pa, ca), (pb, cb) in zip(points, points[1:]):
        if pa <= x <= pb:
            t = (x - pa) / (pb - pa)
            return tuple(a + (b - a) * t for a, b in zip(ca, cb))


def judge(g, points, x):
    got, want = g.get(x), model(points, x)
    need(len(got) == 3, "colour at {} is {}", x, got)
    exact = [c for p, c in points if p == x]
    if exact:
        need(tuple(got) == tuple(exact[0]), "colour at the stop {} is {}, not {}", x, got, exact[0])
    want = exact[0] if exact else want
    for a, b in zip(got, want):
        close(a, b, 1e-9, "colour of {} at {}: {} where {} is due; channel".format(points, x, got, want))
    h = g.get_hex(x)
    need(isinstance(h, str) and len(h) == 4 and h[0] == "#", "hexadecimal form {!r}", h)
    for c, v in zip(h[1:], want):
        need(c in "0123456789abcdefABCDEF", "hexadecimal form {!r}", h)
        need(int(c, 16) in (math.floor(v * 15 - 1e-9 * 15), math.floor(v * 15 + 1e-9 * 15)),
             "hexadecimal form {!r} of {} at {}", h, want, x)
        if exact:
            need(int(c, 16) == int(v * 15), "hexadecimal form {!r} of the stop colour {}", h, v)


def linear(case):
    points, xs = case
    g = gradient.Gradient(list(points))
    for p, _ in points:
        judge(g, points, p)
    for x in xs + [0, 1]:
        judge(g, points, x)
    ps = sorted(p for p, _ in points)
    for a, b in zip(ps, ps[1:]):
        judge(g, points, (a + b) / 2)
    # asking never changes the answer
    for x in reversed(xs):
        judge(g, points, x)
    inside = any(ps[0] < x < ps[-1] for x in xs)
    order = [p for p, _ in points]
    return "unsorted" if order != ps and inside else None if inside or len(ps) > 1 else False


def predefined(case):
    name, x = case
    judge(getattr(gradient, name), PREDEFINED[name], x)


@st.composite
def hard(draw):
    "Stops of which some share a position."
    at = draw(st.lists(pos, min_size=1, max_size=4, unique=True))
    order = draw(st.permutations([p for p in at for _ in range(draw(st.sampled_from([1, 2, 2, 3])))]))
    return [(p, draw(colour)) for p in order], draw(st.lists(pos | st.floats(0, 1), min_size=1, max_size=6))


def steps(case):
    points, xs = case
    g = gradient.Gradient(list(points))
    at = {}
    for p, c in points:
        at.setdefault(p, []).append(c)
    ps = sorted(at)
    for x in xs + ps + [(a + b) / 2 for a, b in zip(ps, ps[1:])] + [0, 1]:
        got = g.get(x)
        if x in at:
            need(tuple(got) in [tuple(c) for c in at[x]], "colour of {} at {} is {}: none of those of its stops", points, x, got)
            continue
        left, right = [p for p in ps if p < x][-1:], [p for p in ps if p > x][:1]
        if left and right:
            (a,), (b,) = left, right
            t = (x - a) / (b - a)
            want = tuple(u + (v - u) * t for u, v in zip(at[a][-1], at[b][0]))
        else:
            want = at[left[0]][-1] if left else at[right[0]][0]
        for u, v in zip(got, want):
            close(u, v, 1e-9, "colour of {} at {}: {} where {} is due; channel".format(points, x, got, want))
    return None if len(ps) < len(points) else False


@st.composite
def fine(draw):
    n, r = draw(st.sampled_from([8, 9, 16, 17, 33, 100])), draw(gen.seeds)
    at = r.sample(range(1001), n)
    if draw(st.booleans()):
        at.sort()
    return [(p / 1000, (r.random(), r.randint(0, 15) / 15, r.choice([0, 1]))) for p in at], [r.random() for _ in range(5)]


FACETS = [
    Facet("steps", hard, steps, "1..12 stops of which up to three share a position; at least two do", 2000),
    Facet("fine", fine, linear, "8..100 stops", 200),
    Facet("linear", lambda: st.tuples(stops, st.lists(pos | st.floats(0, 1), min_size=1, max_size=6)), linear,
          "1..7 stops in any order, queried at the stops, the ends, midpoints and generated positions; more than one stop", 8000, weight=2),
    Facet("predefined", lambda: st.tuples(st.sampled_from(sorted(PREDEFINED)), pos | st.floats(0, 1)), predefined, "the four predefined gradients", 3000),
]
