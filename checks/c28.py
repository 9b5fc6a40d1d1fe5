import math
from fractions import Fraction as F
from hypothesis import strategies as st
from vlib import gen
from vlib.engine import Facet, fail, need, num
from coral import stats

ASSUMPTIONS = ["values are finite, at most 1e15 in size, and zero or at least 1e-12; ints are at most 1e15",
               "correlations are judged where the spread of both data sets is not lost in rounding"]

mag = st.sampled_from([1, 10, 1000, 10 ** 6, 10 ** 9, 10 ** 15])


@st.composite
def values(draw, lo=1, hi=40, positive=False):
    m = draw(mag)
    a = 1 if positive else -m
    ints = st.integers(a, m)
    grid = st.integers(a * 64, m * 64).map(lambda i: i / 64)
    free = st.floats(1e-12 if positive else -m, m, allow_nan=False).map(lambda x: x if abs(x) >= 1e-12 else 0.0)
    kinds = [ints, grid, free, ints | free, st.sampled_from([m, m + 1, m + 0.5]),
             st.floats(0, 1).map(lambda x: m + x), st.integers(1, 3)]
    if not positive:
        kinds.append(st.sampled_from([m, -m, 1, 0, 1e-9, -0.5]))
    return tuple(draw(st.lists(draw(st.sampled_from(kinds)), min_size=lo, max_size=draw(st.sampled_from([max(lo, 3), hi])))))


def ex(t):
    return [F(x) for x in t]


def near(got, want, tol, what, data):
    if not isinstance(got, F):
        num(got, what)
    if not abs(F(got) - want) <= tol:
        fail("{} of {}: {}, expected {} within {}", what, data, got, float(want), float(tol))


E = F(1, 2 ** 52)


def one(t):
    q = ex(t)
    n, M = len(q), max(abs(x) for x in q)
    tot = sum(q)
    try:
        w = float(tot)
    except OverflowError:
        w = None
    need(stats.sum(t) == w, "sum of {}: {}, exactly {}", t, stats.sum(t), w)
    need(stats.len(t) == n, "len of {}: {}", t, stats.len(t))
    need(stats.max(t) == max(t) and any(stats.max(t) == x for x in t), "max of {}: {}", t, stats.max(t))
    need(stats.min(t) == min(t), "min of {}: {}", t, stats.min(t))
    u = tot / n
    near(stats.avg(t), u, 3 * E * abs(u), "mean", t)
    v = sum((x - u) ** 2 for x in q) / n
    # the mean is known to an ulp of the data, so the variance to its square
    slack = (E * M * 64) ** 2
    tv = v / 10 ** 11 + slack
    near(stats.var(t), v, tv, "variance", t)
    need(stats.var(t) >= 0, "variance of {} is negative", t)
    s = stats.std_dev(t)
    num(s, "standard deviation")
    need(s >= 0, "standard deviation of {} is negative", t)
    near(F(s) * F(s), v, 2 * tv, "squared standard deviation", t)
    if n == 1:
        return "single value"
    return "all equal" if v == 0 else "spread in rounding" if v < (M / 10 ** 9) ** 2 else "spread"


@st.composite
def pairs(draw):
    x = draw(values(draw(st.sampled_from([1, 2, 4, 4, 8])), 20))
    k = draw(st.integers(0, 3))
    n = len(x)
    if k == 0:
        a, b = draw(st.integers(-5, 5)), draw(st.integers(-100, 100))
        y = tuple(a * v + b for v in x)
    elif k == 1:
        y = tuple(draw(st.permutations(x)))
    else:
        y = (draw(values(n, n)) * n)[:n]
    return x, y, draw(st.sampled_from([2, 0.5, 3, 1024, 0.1, 7.25])), draw(st.sampled_from([0, 1, -3, 0.25]))


def cov_of(x, y):
    qx, qy = ex(x), ex(y)
    n = len(x)
    ux, uy = sum(qx) / n, sum(qy) / n
    c = sum((a - ux) * (b - uy) for a, b in zip(qx, qy)) / n
    size = sum(abs((a - ux) * (b - uy)) for a, b in zip(qx, qy)) / n
    Mx, My = max(map(abs, qx)), max(map(abs, qy))
    vx = sum((a - ux) ** 2 for a in qx) / n
    vy = sum((b - uy) ** 2 for b in qy) / n
    sx, sy = math.sqrt(vx), math.sqrt(vy)
    tol = size / 10 ** 11 + (64 * E) ** 2 * Mx * My + 64 * E * E * (Mx * F(sy) + My * F(sx))
    return c, tol, vx, vy, Mx, My


def two(case):
    x, y, a, b = case
    c, tol, vx, vy, Mx, My = cov_of(x, y)
    near(stats.covar(x, y), c, tol, "covariance", (x, y))
    near(stats.covar(y, x), F(stats.covar(x, y)), 2 * tol, "covariance the other way round", (x, y))
    _, tx, _, _, _, _ = cov_of(x, x)
    near(stats.covar(x, x), F(stats.var(x)), 2 * tx + (E * Mx * 64) ** 2, "covariance with itself", x)
    if not vx or not vy:
        return "constant"
    sx, sy = math.sqrt(vx), math.sqrt(vy)
    # relative uncertainty of deviations and covariance
    rel = float(tol) / (sx * sy) + 1e-9 + float((E * Mx * 64) ** 2 / vx + (E * My * 64) ** 2 / vy)
    if rel > 1e-6:
        return "constant to rounding"
    want = float(c) / (sx * sy)
    r = num(stats.corr(x, y), "correlation")
    need(abs(r - want) <= rel, "correlation of {}: {}, expected {}", (x, y), r, want)
    need(-1 - 1e-9 <= r <= 1 + 1e-9, "correlation of {} is {}", (x, y), r)
    x2 = tuple(a * v + b * sx for v in x)
    if rel < 1e-8 and float(Mx) < 1e5 * sx:
        r2 = num(stats.corr(x2, y), "correlation")
        need(abs(r2 - r) <= 1e-8, "rescaling {} by {} and {} changed its correlation with {} from {} to {}", x, a, b * sx, y, r, r2)
        r3 = stats.corr(y, tuple(-v for v in x))
        need(abs(r3 + r) <= 1e-8, "negating {} changed its correlation with {} from {} to {}", x, y, r, r3)
        return "correlated" if abs(r) > 0.999999 else "partly correlated"
    return "hardly spread"


@st.composite
def incomes(draw):
    k = draw(st.integers(0, 5))
    n = draw(st.integers(2, 30))
    if k == 0:
        t = (draw(st.sampled_from([1, 0.1, 3.7, 1000])),) * n
    elif k == 1:
        t = [0] * n
        t[draw(st.integers(0, n - 1))] = draw(st.sampled_from([1, 0.1, 2500]))
        t = tuple(t)
    else:
        t = draw(values(2, 30, True))
    return t, draw(st.sampled_from([2, 0.5, 3, 1000, 0.01])), draw(st.permutations(range(len(t))))


def gini(case):
    t, k, order = case
    q = sorted(ex(t))
    n = len(q)
    u = sum(q) / n
    want = float(sum((2 * i + 1 - n) * x for i, x in enumerate(q)) / (n * (n - 1)) / u)
    moved = tuple(t[i] for i in order)
    for f in (stats.gini_kakwani, stats.gini_deaton):
        for name, d in (("", t), (" reordered", moved), (" multiplied by {}".format(k), tuple(k * x for x in t))):
            g = num(f(d), "Gini index")
            need(abs(g - want) <= 1e-11, "{} of {}{}: {}, expected {}", f.__name__, t, name, g, want)
    return "equal" if want == 0 else "one has all" if want == 1 else "unequal" if list(t) != [float(x) for x in q] else "sorted"


def rvalues(r, n, positive=False):
    m = r.choice([1, 10, 1000, 10 ** 6, 10 ** 9, 10 ** 15])
    a = 1 if positive else -m
    k = r.randrange(5)
    f = [lambda: r.randint(a, m), lambda: r.uniform(1e-6 if positive else -m, m), lambda: m + r.random(), lambda: r.randint(1, 3),
         lambda: r.choice([m, 1, .5]) if positive else r.choice([m, -m, 1, 0, .5])][k]
    return tuple(f() for _ in range(n))


long1 = lambda: st.builds(rvalues, gen.seeds, gen.sizes | st.integers(41, 600))


@st.composite
def long2(draw):
    r, n = draw(gen.seeds), draw(gen.sizes)
    x = rvalues(r, n)
    y = [rvalues(r, n), tuple(r.randint(-3, 3) * 0 + 2 * v - 5 for v in x), tuple(r.sample(x, n))][draw(st.integers(0, 2))]
    return x, y, draw(st.sampled_from([2, 0.5, 3])), draw(st.sampled_from([0, 1, -3]))


@st.composite
def long3(draw):
    r, n = draw(gen.seeds), draw(gen.sizes)
    return rvalues(r, n, True), draw(st.sampled_from([2, 0.5, 1000])), r.sample(range(n), n)


FACETS = [
    Facet("one", values, one, "tuples of 1..40 ints and floats of either sign, also nearly equal or cancelling; every case", 2500),
    Facet("two", pairs, two, "pairs of equally long tuples, dependent, permuted or free; every case", 2500),
    Facet("gini", incomes, gini, "2..30 positive values, all equal values, or one owner of everything; every case", 2500),
    Facet("longone", long1, one, "tuples of 16..600 values; every case", 150, budget=30000000),
    Facet("longtwo", long2, two, "pairs of tuples of 16..513 values; every case", 100, budget=30000000),
    Facet("longgini", long3, gini, "16..513 positive values; every case", 100, budget=30000000),
]
