import json
import math
import os
from hypothesis import assume, strategies as st
from vlib.engine import Facet, Scratch, close, fail, need
from vlib import gen, projs, sphere as S
from coral import bbox, frame, proj

ASSUMPTIONS = ["probe points are at least 2 degrees away from singular points and off the map seam"]

box = st.tuples(*[st.floats(-1e8, 1e8, allow_nan=False) | st.integers(-10 ** 8, 10 ** 8)] * 4).map(
    lambda t: (min(t[0], t[2]), min(t[1], t[3]), max(t[0], t[2]), max(t[1], t[3])))


def build(cfg, b):
    return frame.Frame(projs.make(cfg), bbox.BBox((b[0], b[1]), (b[2], b[3])))


def same(cfg, fa, prj, probes):
    r = projs.radius(cfg)
    used = 0
    for p in probes:
        if projs.margin(cfg, p) < 2 or projs.seam(cfg, p) < 1e-3 or (cfg[0] == "ConicEqualArea" and abs(p[1]) > 89):
            continue
        a, b = projs.fwd(fa.projection, p), projs.fwd(prj, p)
        t = 1e-9 * r + 1e-8 * math.hypot(*b)
        per = 2 * math.pi * r
        dx, dy = a[0] - b[0], a[1] - b[1]
        if cfg[0] in ("ObliqMercator",):
            dx -= per * round(dx / per)
        if cfg[0] == "TransMercator":
            dy -= per * round(dy / per)
        need(abs(dx) <= t and abs(dy) <= t, "{}: {} projects to {} after loading, {} before", cfg, p, a, b)
        used += 1
    return used


def saveload(case):
    cfg, b, probes, again = case
    d = Scratch.fresh()
    path = os.path.join(d, "map.frame")
    if again:
        with open(path, "w") as f:
            f.write("x" * 5000)
    fr = build(cfg, b)
    prj, bb = fr.projection, fr.bounding
    fr.save(path)
    need(fr.projection is prj and fr.bounding is bb, "saving replaced the parts of the frame")
    need((bb.x0, bb.y0, bb.x1, bb.y1) == b, "saving altered the bounding box: {}", bb)
    with open(path) as f:
        text = f.read()
    try:
        json.loads(text)
    except ValueError as e:
        fail("the saved frame is not JSON: {}: {!r}", e, text[:200])
    lo = frame.load(path)
    need(type(lo.projection) is getattr(proj, cfg[0]), "a frame with {} is loaded with {}", cfg[0], type(lo.projection).__name__)
    l = lo.bounding
    need((l.x0, l.y0, l.x1, l.y1) == b, "bounding box {} is loaded as {}", b, (l.x0, l.y0, l.x1, l.y1))
    n = same(cfg, lo, projs.make(cfg), probes)
    n += same(cfg, fr, projs.make(cfg), probes)
    with open(path) as f:
        need(f.read() == text, "loading altered the file")
    # a second generation
    lo.save(path)
    l2 = frame.load(path)
    l = l2.bounding
    need((l.x0, l.y0, l.x1, l.y1) == b, "bounding box {} after two generations is {}", b, (l.x0, l.y0, l.x1, l.y1))
    same(cfg, l2, projs.make(cfg), probes)
    return cfg[0] if n else False


# Probes cover the globe, so that every parameter of the projection matters.
probes = st.lists(gen.geo, min_size=3, max_size=6).map(lambda l: l + [(10, 20), (-70, -35), (130, 5)])

FACETS = [
    Facet("saveload", lambda: st.tuples(projs.config(), box, probes, st.booleans()), saveload,
          "all projections with default or generated parameters; at least one usable probe point", 6000),
]
