import math
from hypothesis import assume, strategies as st
from vlib.engine import Facet, close, fail, need, num, raises
from vlib import gen, projs, sphere as S
from coral import proj
from checks.c09 import jacobian

ASSUMPTIONS = ["the Albers projection has neither an origin nor whole-turn symmetry in this library (longitude is used as given)",
               "points within 2 degrees of singular points and on the map seam are excluded"]

SCALED = ["Mercator", "EMercator", "TransMercator", "ObliqMercator", "ConicEqualArea"]
UNSCALED = ["EckertIV", "Stereographic", "AzimuthalEquidistant", "AzimuthalEqualArea"]


def domain(cfg, p):
    assume(projs.margin(cfg, p) >= 2 and projs.seam(cfg, p) > 1e-3)


def per(cfg, dx, dy):
    w = 2 * math.pi * projs.radius(cfg)
    if cfg[0] == "ObliqMercator":
        dx -= w * round(dx / w)
    if cfg[0] == "TransMercator":
        dy -= w * round(dy / w)
    return math.hypot(dx, dy)


def scale(case):
    cfg, p = case
    prj = projs.make(cfg)
    if cfg[0] in UNSCALED:
        raises(NotImplementedError, prj.scale, *p, what=cfg[0] + ".scale")
        return cfg[0]
    domain(cfg, p)
    assume(projs.seam(cfg, p) > .1)
    if cfg[0] in ("ConicEqualArea", "EMercator"):
        assume(abs(p[1]) <= 87)
    k = num(prj.scale(*p), "scale")
    je, jn = jacobian(cfg, prj, p, 1e-5)
    close(math.hypot(*jn) / k, 1, 2e-6, "{} at {}: reported over actual scale along the meridian".format(cfg, p))
    if cfg[0] != "ConicEqualArea":
        close(math.hypot(*je) / k, 1, 2e-6, "{} at {}: reported over actual scale along the parallel".format(cfg, p))
    return cfg[0]


def size(case):
    cfg, p, k = case
    domain(cfg, p)
    name, c, s = cfg
    if name == "EMercator":
        s1 = s or (6378137, 1 / 298.257223563)
        s2 = (s1[0] * k, s1[1])
    else:
        s1 = s or projs.R0
        s2 = s1 * k
    a = projs.fwd(projs.make((name, c, s1)), p)
    b = projs.fwd(projs.make((name, c, s2)), p)
    t = 1e-12 * (abs(a[0]) + abs(a[1]) + (s1[0] if name == "EMercator" else s1)) * k
    close(b[0], a[0] * k, t, "{} {}: x with {} times the radius".format(cfg, p, k))
    close(b[1], a[1] * k, t, "{} {}: y with {} times the radius".format(cfg, p, k))
    # the default Earth models
    d = projs.fwd(projs.make((name, c, None)), p)
    r = 6378137 if name == "EMercator" else projs.R0
    e = projs.fwd(projs.make((name, c, (r, 1 / 298.257223563) if name == "EMercator" else r)), p)
    close(d[0], e[0], 1e-9 * r, "{} {}: default Earth, x".format(name, p))
    close(d[1], e[1], 1e-9 * r, "{} {}: default Earth, y".format(name, p))
    if c is None:
        o = projs.fwd(projs.make((name, (0, 0), s)), p)
        close(per(cfg, o[0] - projs.fwd(projs.make(cfg), p)[0], o[1] - projs.fwd(projs.make(cfg), p)[1]), 0, 1e-9 * r, "default origin")
    return name


# Half the width (and height) of the map of a globe of radius 1.
EXTENT = {"Mercator": (math.pi, None), "EMercator": (math.pi, None), "TransMercator": (None, math.pi), "ObliqMercator": (math.pi, None),
          "EckertIV": (4 * math.pi / math.sqrt(4 * math.pi + math.pi ** 2), 2 * math.sqrt(math.pi / (4 + math.pi))),
          "AzimuthalEquidistant": (math.pi, math.pi), "AzimuthalEqualArea": (2, 2)}


def within(cfg, xy):
    for v, m in zip(xy, EXTENT.get(cfg[0], ())):
        need(m is None or abs(v) <= projs.radius(cfg) * m * (1 + 1e-9), "{}: {} is off the map", cfg, xy)


def shift(case):
    cfg, p, s, turn = case
    domain(cfg, p)
    name, c, z = cfg
    r = projs.radius(cfg)
    c = projs.origin(cfg)
    a = projs.fwd(projs.make(cfg), p)
    t = r * (1e-9 + 1e-11 / math.sin(math.radians(min(90, projs.margin(cfg, p)))) ** 2) + 1e-12 * math.hypot(*a) * 1e3
    if name == "EckertIV":
        t = max(t, 1e-9 * r)
    b = projs.fwd(projs.make((name, (c[0] + s, c[1]), z)), (p[0] + s, p[1]))
    close(per(cfg, b[0] - a[0], b[1] - a[1]), 0, t, "{} {}: shifted together by {}".format(cfg, p, s))
    b = projs.fwd(projs.make(cfg), (p[0] + 360 * turn, p[1]))
    close(per(cfg, b[0] - a[0], b[1] - a[1]), 0, t, "{} {}: {} whole turns away".format(cfg, p, turn))
    within(cfg, a)
    within(cfg, b)
    return name


def placement(case):
    cfg, lat, lon = case
    name = cfg[0]
    prj = projs.make(cfg)
    c = projs.origin(cfg)
    r = projs.radius(cfg)
    if name == "ConicEqualArea":
        if abs(lat) < 89.99:
            close(projs.fwd(prj, (0, lat))[0], 0, 1e-9 * r, "x on the central meridian")
        x, y = projs.fwd(prj, (0, 0))
        close(math.hypot(x, y), 0, 1e-9 * r, "{}: the origin".format(cfg))
        for par in c:
            if abs(par) < 89:
                close(prj.scale(lon, par), 1, 1e-9, "{}: scale on the standard parallel {}".format(cfg, par))
        return name
    p = (c[0], lat)
    assume(projs.margin(cfg, p) >= 2)
    if name == "ObliqMercator":
        close(math.hypot(*projs.fwd(prj, (c[0], 0))), 0, 1e-9 * r, "{}: origin".format(cfg))
        return name
    x, y = projs.fwd(prj, p)
    close(x, 0, 1e-9 * r, "{}: x of {}".format(cfg, p))
    if name == "TransMercator":
        w = 2 * math.pi * r
        d = y - r * math.radians(lat - c[1])
        close(d - w * round(d / w), 0, 1e-9 * r, "{}: y of {} on the central meridian".format(cfg, p))
    elif name in projs.AZIMUTHAL:
        need(abs(lat - c[1]) < 1e-6 or (y > 0) == (lat > c[1]), "{}: {} is on the wrong side of the centre", cfg, p)
    else:
        need(abs(lat) < 1e-6 or (y > 0) == (lat > 0), "{}: {} is on the wrong side of the equator", cfg, p)
        close(projs.fwd(prj, (c[0], 0))[1], 0, 1e-9 * r, "{}: y on the equator".format(cfg))
        e = projs.fwd(prj, (c[0] + 10, 0))[0]
        need(e > 0, "{}: east is not to the right", cfg)
    return name


def family(case):
    lon0, p, r = case
    assume(abs(p[1]) <= 88 and 180 - abs(S.angdiff(p[0], lon0)) > 1e-3)
    m = projs.fwd(proj.Mercator((lon0, 0), r), p)
    e = projs.fwd(proj.EMercator((lon0, 0), proj.Ellipsoid(r, r, 0, 0)), p)
    t = 1e-9 * r
    close(e[0], m[0], t, "EMercator without eccentricity against Mercator, x")
    close(e[1], m[1], t, "EMercator without eccentricity against Mercator, y")
    o = projs.fwd(proj.ObliqMercator((lon0, 90), r), p)
    close(o[0], m[0], t, "ObliqMercator with a polar pole against Mercator, x")
    close(o[1], m[1], t * 1e3 / max(1e-3, math.cos(math.radians(p[1]))) ** 2 * 1e-3, "ObliqMercator with a polar pole against Mercator, y")
    b = math.cos(math.radians(p[1])) * math.sin(math.radians(p[0] - lon0))
    if abs(b) < .999:
        tm = projs.fwd(proj.TransMercator((lon0, 0), r), p)
        ob = projs.fwd(proj.ObliqMercator((lon0, 0), r), p)
        close(ob[1], -tm[0], t, "Transverse against oblique Mercator, x")
        d = ob[0] - tm[1]
        w = 2 * math.pi * r
        close(d - w * round(d / w), 0, t, "Transverse against oblique Mercator, y")
        close(proj.TransMercator((lon0, 0), r).scale(*p), proj.ObliqMercator((lon0, 0), r).scale(*p), 1e-6, "Transverse against oblique scale")
    close(proj.EMercator((lon0, 0), proj.Ellipsoid(r, r, 0, 0)).scale(*p), proj.Mercator((lon0, 0), r).scale(*p), 1e-9, "EMercator against Mercator scale")


def angles(a):
    got = num(proj.corangle(a), "corangle")
    need(-math.pi <= got <= math.pi, "corangle({}) = {}", a, got)
    k = (a - got) / (2 * math.pi)
    close(k, round(k), 1e-12 * (1 + abs(a)), "whole turns removed from {}".format(a))
    if -math.pi <= a <= math.pi:
        need(got == a, "corangle({}) = {}", a, got)
        return False
    return "several turns" if abs(a) > 10 else None


def earth(case):
    name, a, rf = case
    e = getattr(proj, name)
    f = 1 / rf
    close(e.a, a, 0, name + ".a")
    close(e.f, f, 1e-15, name + ".f")
    close(e.b, a * (1 - f), 1e-8, name + ".b")
    close(e.e, math.sqrt(1 - (e.b / e.a) ** 2), 1e-12, name + ".e")


FACETS = [
    Facet("scale", projs.with_point, scale, "reported scale against central differences, NotImplementedError elsewhere", 4000, weight=2),
    Facet("size", lambda: projs.with_point().flatmap(lambda t: st.tuples(st.just(t[0]), st.just(t[1]), st.sampled_from([.5, 2, 1000, 1e-3, 6.5]))), size,
          "radius or ellipsoid scaled; defaults", 3000),
    Facet("shift", lambda: projs.with_point([n for n in projs.ALL if n != "ConicEqualArea"]).flatmap(
        lambda t: st.tuples(st.just(t[0]), st.just(t[1]), st.integers(-400, 400), st.integers(-2, 2))), shift, "origin and point shifted together, whole turns", 3000),
    Facet("placement", lambda: st.tuples(projs.config(), gen.lat, gen.lon), placement, "central meridian, equator, standard parallels", 3000),
    Facet("family", lambda: st.tuples(projs.orilon, gen.geo, st.sampled_from([1, 6371000.0, 6378137])), family, "pairs of projections that coincide", 3000),
    Facet("angles", lambda: st.floats(-60, 60, allow_nan=False) | st.integers(-9, 9).map(lambda i: i * math.pi) | st.integers(-3000, 3000).map(lambda i: i / 10), angles,
          "angles outside -pi..pi", 2000, weight=.5),
    Facet("earth", lambda: st.sampled_from([("WGS84", 6378137, 298.257223563), ("GRS80", 6378137, 298.257222101)]), earth, "the two predefined ellipsoids", 100, weight=.3),
]
