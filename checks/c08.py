import math
from hypothesis import assume, strategies as st
from vlib.engine import Facet, fail, need, pt
from vlib import gen, projs, sphere as S
from coral import proj

ASSUMPTIONS = ["points within 1 degree of a projection's singular points (0.1 degrees of the poles for Mercator) are excluded",
               "Albers parallels have a cone constant of at least 0.05",
               "accuracy: 1e-9 radians, less where the inverse is ill-conditioned (poles 1e-7, Eckert IV 4e-6 above 75 degrees)"]


def tol(cfg, p):
    if cfg[0] == "EckertIV":
        return 1e-8 if abs(p[1]) < 75 else 4e-6
    if cfg[0] == "ConicEqualArea":
        return 1e-7
    if abs(p[1]) > 89.9 or cfg[0] == "ObliqMercator":
        return 1e-7
    return 2e-9 if margin_ok(cfg, p, 5) else 1e-7


def margin_ok(cfg, p, m):
    return projs.margin(cfg, p) >= m


def roundtrip(case):
    cfg, p = case
    assume(margin_ok(cfg, p, .1 if "ercator" in cfg[0][:9] and cfg[0] in ("Mercator", "EMercator") else 1))
    prj = projs.make(cfg)
    xy = projs.fwd(prj, p)
    q = pt(prj.rect2geo(*xy), "inverse")
    need(abs(q[1]) <= 90 + 1e-9, "latitude {} out of range", q[1])
    if cfg[0] in ("Mercator", "EMercator"):
        need(abs(q[0]) <= 180 + 1e-9, "longitude {} out of range", q[0])
    e = S.dist(S.vec(*q), S.vec(*p))
    need(e <= tol(cfg, p), "{} {} -> {} -> {}, off by {} radians", cfg, p, xy, q, e)
    if abs(p[1]) < 85:
        d = abs(S.angdiff(q[0], p[0]))
        need(math.radians(d) <= 20 * tol(cfg, p), "{} {} comes back with longitude {}", cfg, p, q[0])
    # using it again gives the same (no hidden state)
    need(projs.fwd(prj, p) == xy, "projecting again gives another result")
    c = projs.origin(cfg)
    if cfg[0] in projs.AZIMUTHAL:
        far = S.angle(S.vec(*c), S.vec(*p)) > math.pi / 2
        return cfg[0] + ("/polar" if abs(c[1]) == 90 else "") + ("/beyond90" if far else "")
    return cfg[0]


def plane(case):
    "From the plane and back, where the plane point comes from the domain."
    cfg, p = case
    assume(margin_ok(cfg, p, 2) and abs(p[1]) < 89 and projs.seam(cfg, p) > 1e-3)
    prj = projs.make(cfg)
    x, y = projs.fwd(prj, p)
    q = pt(prj.rect2geo(x, y))
    x2, y2 = projs.fwd(prj, (q[0], max(-90, min(90, q[1]))))
    r = projs.radius(cfg)
    per = 2 * math.pi * r
    dx, dy = abs(x - x2), abs(y - y2)
    if cfg[0] == "TransMercator":
        dy = min(dy, abs(dy - per))
    elif cfg[0] == "ObliqMercator":
        dx = min(dx, abs(dx - per))
    elif cfg[0] == "ConicEqualArea":
        # longitudes +-180 are the two edges of the map
        if abs(p[0]) > 179.999:
            return False
    lim = (1e-4 if cfg[0] == "EckertIV" else 1e-6) * r
    need(dx <= lim and dy <= lim, "{}: ({}, {}) -> {} -> ({}, {})", cfg, x, y, q, x2, y2)
    return cfg[0]


def centre(case):
    cfg, = case
    prj = projs.make(cfg)
    c = projs.origin(cfg)
    q = pt(prj.rect2geo(0, 0))
    if cfg[0] in projs.AZIMUTHAL:
        need(S.dist(S.vec(*q), S.vec(*c)) <= 1e-9, "{}: the origin maps back to {}", cfg, q)
    elif cfg[0] in ("Mercator", "EMercator", "EckertIV"):
        need(S.dist(S.vec(*q), S.vec(c[0], 0)) <= 1e-9, "{}: the origin maps back to {}", cfg, q)
    elif cfg[0] == "TransMercator":
        need(S.dist(S.vec(*q), S.vec(*c)) <= 1e-7, "{}: the origin maps back to {}", cfg, q)
    elif cfg[0] == "ConicEqualArea":
        need(S.dist(S.vec(*q), S.vec(0, 0)) <= 1e-7, "{}: the origin maps back to {}", cfg, q)
    return cfg[0]


def singular(case):
    "At singular points: a projection error or finite coordinates, nothing else."
    cfg, lon, sign, eps = case
    c = projs.origin(cfg)
    name = cfg[0]
    if name in ("Mercator", "EMercator"):
        p = (lon, 90 * sign)
    elif name == "TransMercator":
        p = (c[0] + 90 * sign, eps)
    elif name == "ObliqMercator":
        p = (c[0] - 90 * sign, sign * c[1])
    elif name in projs.AZIMUTHAL:
        p = (c[0] + 180 * sign, -c[1])
    else:
        p = (lon, 90 * sign)
    prj = projs.make(cfg)
    try:
        projs.fwd(prj, p)
    except proj.ProjectionError:
        return name + "/refused"
    if name in ("Mercator", "EMercator") and sign < 0:
        fail("{} accepts latitude -90", cfg)
    return name


def rim(case):
    "Next to singular points the inverse still exists, if less accurate."
    cfg, bear, m, sign = case
    c = projs.origin(cfg)
    name = cfg[0]
    if name in ("Mercator", "EMercator"):
        s = (bear, 90 * sign)
    elif name == "TransMercator":
        s = (c[0] + 90 * sign, 0)
    elif name == "ObliqMercator":
        s = (c[0] - 90 * sign, sign * c[1])
    else:
        s = (c[0] + 180 * sign, -c[1])
    p = S.geo(S.travel(s[0], s[1], bear, math.radians(m)))
    prj = projs.make(cfg)
    try:
        xy = projs.fwd(prj, p)
    except proj.ProjectionError:
        need(m < 1e-5, "{} refuses {}, {} degrees from its singular point", cfg, p, m)
        return name + "/refused"
    q = pt(prj.rect2geo(*xy), "inverse")
    need(abs(q[1]) <= 90 + 1e-9, "latitude {} out of range", q[1])
    e = S.dist(S.vec(*q), S.vec(*p))
    # The forward formulas lose digits next to the singular point.
    t = math.radians(m)
    lim = 2e-7 + min(1e-14 / t ** 3, 1e-7 / t) if name == "AzimuthalEqualArea" else 2e-7 + 1e-14 / t ** 2
    need(e <= lim or m < 1e-3, "{} {} -> {} -> {}, off by {} radians", cfg, p, xy, q, e)
    return name


FACETS = [
    Facet("roundtrip", projs.with_point, roundtrip, "all nine projections, default and generated origins (poles, date line), radii and ellipsoids; points anywhere, near the centre, beyond 90 degrees, at poles", 7000, weight=3, budget=400000),
    Facet("plane", projs.with_point, plane, "as roundtrip, starting on the plane", 4000, weight=2, budget=400000),
    Facet("centre", lambda: st.tuples(projs.config()), centre, "plane origin of every configuration", 2500, budget=400000),
    Facet("rim", lambda: st.tuples(projs.config([n for n in projs.ALL if n not in ("EckertIV", "ConicEqualArea")]), st.integers(0, 359) | st.floats(0, 360),
                                   st.sampled_from([1e-9, 1e-8, 1e-7, 1e-6, 1e-5, 1e-4, .001, .01, .1, .5]) | st.floats(1e-5, .5), st.sampled_from([-1, 1])), rim,
          "points 1e-9 to 0.5 degrees from the singular points", 3000, budget=400000),
    Facet("singular", lambda: st.tuples(projs.config(), gen.lon, st.sampled_from([-1, 1]), st.sampled_from([0, 0, 1e-9])), singular,
          "singular points of every configuration", 2500, budget=400000),
]
