import math
from hypothesis import assume, strategies as st
from vlib.engine import Facet, close, fail, need, num
from vlib import gen, projs, sphere as S

ASSUMPTIONS = ["derivatives are central differences over 1e-5 radians (Eckert IV: 3e-4)",
               "points within 2 degrees of singular points, on the map seam, and for Mercator/Eckert/Albers within 1..10 degrees of the poles are excluded"]

CONFORMAL = ["Mercator", "EMercator", "TransMercator", "ObliqMercator", "Stereographic"]
EQUALAREA = ["EckertIV", "AzimuthalEqualArea", "ConicEqualArea"]


def jacobian(cfg, prj, p, h):
    """Derivatives of the map towards east and north per unit of ground length
    (unit sphere, or metres on the ellipsoid)."""
    name = cfg[0]
    r = projs.radius(cfg)
    if name == "EMercator":
        a, f = (6378137, 1 / 298.257223563) if cfg[2] is None else cfg[2]
        e2 = 2 * f - f * f
        s = math.sin(math.radians(p[1]))
        w = 1 - e2 * s * s
        n, m = a / math.sqrt(w), a * (1 - e2) / w ** 1.5
        g = math.degrees(h)
        q = [(p[0] - g, p[1]), (p[0] + g, p[1]), (p[0], p[1] - g), (p[0], p[1] + g)]
        le, ln = n * math.cos(math.radians(p[1])) / a, m / a
    else:
        g = math.degrees(h)
        n, e = S.frame(*p)
        v = S.vec(*p)
        q = []
        for t, s in ((e, -1), (e, 1), (n, -1), (n, 1)):
            lon, lat = S.geo(S.add(v, t, math.cos(h), s * math.sin(h)))
            q.append((p[0] + S.angdiff(lon, p[0]), lat))
        le = ln = 1
    xy = [projs.fwd(prj, k) for k in q]
    per = 2 * math.pi * r

    def diff(a, b, wrap):
        d = a - b
        return d - per * round(d / per) if wrap else d
    wx = name in ("Mercator", "EMercator", "ObliqMercator")
    wy = name == "TransMercator"
    je = (diff(xy[1][0], xy[0][0], wx) / (2 * h * le * r), diff(xy[1][1], xy[0][1], wy) / (2 * h * le * r))
    jn = (diff(xy[3][0], xy[2][0], wx) / (2 * h * ln * r), diff(xy[3][1], xy[2][1], wy) / (2 * h * ln * r))
    return je, jn


def domain(cfg, p):
    assume(projs.margin(cfg, p) >= 2)
    assume(projs.seam(cfg, p) > .1)
    if cfg[0] == "EckertIV":
        assume(abs(p[1]) <= 80)
    elif cfg[0] in ("ConicEqualArea", "EMercator"):
        assume(abs(p[1]) <= 87)
    elif cfg[0] == "ObliqMercator":
        assume(abs(p[1]) <= 89.99)


def conformal(case):
    cfg, p = case
    domain(cfg, p)
    je, jn = jacobian(cfg, projs.make(cfg), p, 1e-5)
    k = math.hypot(*je)
    need(k > 0, "{} collapses east at {}", cfg, p)
    need(abs(je[0] - jn[1]) <= 1e-6 * k and abs(je[1] + jn[0]) <= 1e-6 * k,
         "{} at {}: east maps to {}, north to {}: angles are not preserved", cfg, p, je, jn)
    return cfg[0]


def equalarea(case):
    cfg, p = case
    domain(cfg, p)
    h = 3e-4 if cfg[0] == "EckertIV" else 1e-5
    je, jn = jacobian(cfg, projs.make(cfg), p, h)
    d = je[0] * jn[1] - je[1] * jn[0]
    # rounding of the central differences grows towards the singular point
    t = 1e-4 if cfg[0] == "EckertIV" else 2e-6 * max(1, (20 / projs.margin(cfg, p)) ** 2)
    need(abs(d - 1) <= t, "{} at {}: area is scaled by {}", cfg, p, d)
    return cfg[0]


def azimuthal(case):
    cfg, p = case
    c = projs.origin(cfg)
    r = projs.radius(cfg)
    prj = projs.make(cfg)
    x, y = projs.fwd(prj, c)
    need(math.hypot(x, y) <= 1e-12 * r, "{}: centre maps to {}", cfg, (x, y))
    assume(projs.margin(cfg, p) >= 1)
    ang = S.angle(S.vec(*c), S.vec(*p))
    x, y = projs.fwd(prj, p)
    if ang < 1e-7:
        return False
    n, e = S.frame(*c)
    v = S.vec(*p)
    want = (S.dot(e, v), S.dot(n, v))
    s, d = math.hypot(*want), math.hypot(x, y)
    need(d > 0, "{}: {} maps to the centre", cfg, p)
    err = math.hypot(x / d - want[0] / s, y / d - want[1] / s)
    need(err <= 1e-14 / math.sin(ang) * 10 + 1e-9, "{}: {} appears in direction {}, true direction {}", cfg, p, (x / d, y / d), (want[0] / s, want[1] / s))
    if cfg[0] == "AzimuthalEquidistant":
        close(d / r, ang, 1e-8, "{}: distance of {} from the centre".format(cfg, p))
    elif cfg[0] == "AzimuthalEqualArea":
        close(d / r, 2 * math.sin(ang / 2), 1e-8, "{}: radius of {} on the map (area of the cap)".format(cfg, p))
    else:
        close(d / r / (2 * math.tan(ang / 2)), 1, 1e-8, "{}: radius of {} on the map".format(cfg, p))
    return cfg[0] + ("/polar" if abs(c[1]) == 90 else "") + ("/beyond90" if ang > math.pi / 2 else "")


def bands(case):
    "Eckert IV: the area below a parallel is that of the spherical zone; poles are lines of half the equator's length."
    (c, size), lat = case
    cfg = ("EckertIV", c, size)
    prj = projs.make(cfg)
    r = projs.radius(cfg)
    n = 400
    rows = []
    for i in range(n + 1):
        la = lat * i / n
        x, y = projs.fwd(prj, (projs.origin(cfg)[0] + 90, la))
        rows.append((x * 4, y))
    area = sum((a[0] + b[0]) / 2 * (b[1] - a[1]) for a, b in zip(rows, rows[1:]))
    want = 2 * math.pi * r * r * math.sin(math.radians(lat))
    need(abs(area - want) <= 1e-4 * r * r, "{}: zone to {} has area {}, expected {}", cfg, lat, area, want)
    return False if lat == 0 else None


FACETS = [
    Facet("conformal", lambda: projs.with_point(CONFORMAL), conformal, "local east and north images orthogonal and of equal length, in the same sense", 4000, weight=2),
    Facet("equalarea", lambda: projs.with_point(EQUALAREA), equalarea, "Jacobian determinant equal to the squared radius", 4000, weight=2),
    Facet("azimuthal", lambda: projs.with_point(projs.AZIMUTHAL), azimuthal, "direction and distance law from the centre; labelled polar / beyond 90 degrees", 5000, weight=2),
    Facet("bands", lambda: st.tuples(st.tuples(st.none() | st.tuples(projs.orilon, projs.orilat), projs.sizes), gen.lat), bands,
          "areas of zones in Eckert IV by integration, up to the poles", 150),
]
