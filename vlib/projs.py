"""Configurations of all projections and their domains."""
import math
from hypothesis import strategies as st
from vlib import gen, sphere as S
from vlib.engine import pt
from coral import proj

SPHERE = ["Mercator", "TransMercator", "ObliqMercator", "EckertIV", "Stereographic", "AzimuthalEquidistant", "AzimuthalEqualArea"]
ALL = SPHERE + ["EMercator", "ConicEqualArea"]
AZIMUTHAL = SPHERE[4:]
R0 = (6378137 + 6378137 * (1 - 1 / 298.257223563)) / 2


def ellipsoid(e):
    a, f = e
    return proj.Ellipsoid(a, a * (1 - f), math.sqrt(2 * f - f * f), f)


def make(cfg):
    name, c, size = cfg
    if name == "EMercator":
        size = None if size is None else ellipsoid(size)
    cls = getattr(proj, name)
    if c is None and size is None:
        return cls()
    if size is None:
        return cls(c)
    return cls(c, size)


def radius(cfg):
    if cfg[2] is None:
        return 6378137 if cfg[0] == "EMercator" else R0
    return cfg[2][0] if isinstance(cfg[2], tuple) else cfg[2]


def origin(cfg):
    return (0, 0) if cfg[1] is None else cfg[1]


orilon = st.integers(-180, 180) | st.sampled_from([0, 45, -54, 180, -180]) | st.floats(-180, 180)
orilat = st.integers(-90, 90) | st.sampled_from([-90, 90, 0, -15, 60]) | st.floats(-90, 90)
sizes = st.none() | st.sampled_from([1, 1000, 6371000.0]) | st.integers(1, 10 ** 8).map(lambda i: i / 10)
ells = st.none() | st.tuples(st.sampled_from([1, 6378137, 6378388.0]), st.sampled_from([1 / 298.257223563, 1 / 297, 0, .01, .1, .5, .75]) | st.integers(0, 900).map(lambda i: i / 1000))
par = st.integers(-90, 90) | st.floats(-90, 90)


def cone_ok(c):
    return abs(math.sin(math.radians(c[0])) + math.sin(math.radians(c[1]))) >= .1


def config(names=ALL):
    def one(name):
        if name == "EMercator":
            return st.tuples(st.just(name), st.none() | st.tuples(orilon, orilat), ells)
        if name == "ConicEqualArea":
            return st.tuples(st.just(name), st.tuples(par, par).filter(cone_ok), sizes)
        return st.tuples(st.just(name), st.none() | st.tuples(orilon, orilat), sizes)
    return st.sampled_from(names).flatmap(one)


def with_point(names=ALL):
    "Configuration and a point: anywhere, or at a chosen place relative to the centre."
    def place(cfg):
        c = origin(cfg)
        if cfg[0] == "ConicEqualArea":
            return st.tuples(st.just(cfg), gen.geo)

        def at(t):
            b, d = t
            return S.geo(S.travel(c[0], c[1], b, math.radians(d)))
        rel = st.tuples(st.integers(0, 359), st.sampled_from([1e-6, .001, 1, 30, 89.999, 90, 91, 120, 150, 178]) | st.integers(0, 1780).map(lambda i: i / 10)).map(at)
        special = st.sampled_from([c, (c[0], 90), (c[0], -90), (c[0] + 180, 0), (c[0] - 90, 45), (0, 90), (0, -90), (180, 10), (-180, 10)])
        return st.tuples(st.just(cfg), st.one_of(gen.geo, gen.geo, rel, special))
    return config(names).flatmap(place)


def margin(cfg, p):
    "Degrees between p and the nearest point where the projection is singular."
    name, c = cfg[0], origin(cfg)
    v = S.vec(*p)
    if name in ("Mercator", "EMercator"):
        return 90 - abs(p[1])
    if name == "TransMercator":
        e = S.frame(c[0], 0)[1]
        a = S.angle(v, e)
        return math.degrees(min(a, math.pi - a))
    if name == "ObliqMercator":
        # the pole of the oblique cylinder, as its documented formula places it
        s, k = math.sin(math.radians(c[1])), math.cos(math.radians(c[1]))
        e = S.frame(c[0], 0)[1]
        pole = (-k * e[0], -k * e[1], s)
        a = S.angle(v, pole)
        return math.degrees(min(a, math.pi - a))
    if name in AZIMUTHAL:
        return 180 - math.degrees(S.angle(v, S.vec(*c)))
    return 180


def seam(cfg, p):
    "Degrees of longitude to the line where the map is cut."
    if cfg[0] in ("Mercator", "EMercator", "EckertIV"):
        return 180 - abs(S.angdiff(p[0], origin(cfg)[0]))
    return 180


def fwd(prj, p):
    return pt(prj.geo2rect(*p), "projection of {}".format(p))
