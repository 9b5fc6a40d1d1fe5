"""Strategies shared by several checks."""
from random import Random
from hypothesis import strategies as st

small = st.integers(-4, 4)
# Differences of these are either zero or at least a thousandth.
real = st.one_of(st.integers(-1000000, 1000000).map(lambda i: i / 1000),
                 st.integers(-4096, 4096).map(lambda i: i / 1024),
                 st.integers(-1000000, 1000000))
half = st.integers(-10, 10).map(lambda i: i / 2)


def coord():
    return st.one_of(small, half, real)


def xy(c=None):
    c = coord() if c is None else c
    return st.tuples(c, c)


def corners(c=None):
    "Normalised box ((x0, y0), (x1, y1)), often degenerate."
    c = coord() if c is None else c
    return st.tuples(c, c, c, c).map(
        lambda t: ((min(t[0], t[1]), min(t[2], t[3])), (max(t[0], t[1]), max(t[2], t[3]))))


def boxpair():
    "Two boxes that often share coordinates."
    def build(t):
        pool, idx = t
        a = [pool[i % len(pool)] for i in idx]
        def box(v):
            return ((min(v[0], v[1]), min(v[2], v[3])), (max(v[0], v[1]), max(v[2], v[3])))
        return box(a[:4]), box(a[4:])
    shared = st.tuples(st.lists(coord(), min_size=2, max_size=6, unique=True),
                       st.lists(st.integers(0, 11), min_size=8, max_size=8)).map(build)
    return st.one_of(shared, shared, st.tuples(corners(small), corners(small)), st.tuples(corners(), corners()))


lon = st.one_of(st.integers(-180, 180), st.floats(-180, 180, allow_nan=False),
                st.sampled_from([-180, -179.9999, -90, 0, 90, 179.9999, 180]))
lat = st.one_of(st.integers(-90, 90), st.floats(-90, 90, allow_nan=False),
                st.sampled_from([-90, -89.9999, -45, 0, 45, 89.9999, 90]))
geo = st.tuples(lon, lat)


# Sizes around powers of two and of ten, for bulk cases drawn from one seed.
SIZES = [16, 17, 31, 32, 33, 63, 64, 65, 99, 100, 101, 127, 128, 129, 200, 255, 256, 257, 300, 500, 511, 512, 513]
sizes = st.sampled_from(SIZES)
seeds = st.integers(0, 10 ** 6).map(Random)


def upto(r, n):
    "A size up to n, often n itself."
    return r.choice([n, r.randint(1, n), r.randint(1, n), n - r.randint(0, n // 4)])
