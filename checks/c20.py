import os
from hypothesis import assume, strategies as st
from vlib import gen, netpbm
from vlib.engine import Facet, Scratch, close, fail, need
from coral import raster

ASSUMPTIONS = ["coordinates lie on the canvas; black-and-white pixels are written as 0 or 1",
               "blends that fall within 1e-6 of a rounding tie may go either way"]

dim = st.integers(1, 20) | st.sampled_from([7, 8, 9, 16, 17, 1])
level = st.integers(0, 255) | st.sampled_from([0, 255, 128, 127])
rgb = st.tuples(level, level, level)
alpha = st.sampled_from([0, 1, .5, .25, 0.0, 1.0]) | st.floats(0, 1)


@st.composite
def history(draw):
    kind = draw(st.sampled_from(["bw", "gray", "color"]))
    w, h = draw(dim), draw(dim)
    if kind == "bw":
        bg, val = draw(st.sampled_from([None, 0, 1])), st.sampled_from([0, 1])
    elif kind == "gray":
        bg, val = draw(st.none() | level), level | st.tuples(level, alpha)
    else:
        bg, val = draw(st.none() | rgb), rgb | rgb.map(list) | st.tuples(level, level, level, alpha)
    pos = st.tuples(st.integers(0, w - 1) | st.sampled_from([0, w - 1, w // 2]), st.integers(0, h - 1) | st.sampled_from([0, h - 1, h // 2]))
    return kind, w, h, bg, draw(st.lists(st.tuples(pos, val), max_size=14))


@st.composite
def wide(draw):
    kind = draw(st.sampled_from(["bw", "gray", "color"]))
    w, h = draw(gen.sizes | st.integers(1, 600)), draw(st.integers(1, 12))
    if draw(st.booleans()):
        w, h = h, w
    r = draw(gen.seeds)
    lv = lambda: r.choice([0, 255, r.randrange(256)])
    n = draw(st.integers(1, 400))
    if kind == "bw":
        bg, val = r.choice([None, 0, 1]), lambda: r.randrange(2)
    elif kind == "gray":
        bg, val = r.choice([None, lv()]), lambda: lv() if r.random() < .5 else (lv(), r.choice([0, 1, .5, r.random()]))
    else:
        bg, val = r.choice([None, (lv(), lv(), lv())]), lambda: (lv(), lv(), lv()) if r.random() < .5 else (lv(), lv(), lv(), r.choice([0, 1, .5, r.random()]))
    return kind, w, h, bg, [((r.choice([0, w - 1, r.randrange(w)]), r.choice([0, h - 1, r.randrange(h)])), val()) for _ in range(n)]


CLS = {"bw": (raster.BWCanvas, 0), "gray": (raster.GrayCanvas, 255), "color": (raster.ColorCanvas, (255, 255, 255))}


def mix(old, new, a):
    "Accepted levels."
    v = old * (1 - a) + new * a
    if a == 0:
        return {old}
    if a == 1:
        return {new}
    return {int(v + .5 - 1e-6), int(v + .5 + 1e-6)}


def pixels(case):
    kind, w, h, bg, ops = case
    cls, default = CLS[kind]
    c = cls(w, h) if bg is None else cls(w, h, bg)
    bg = default if bg is None else bg
    need((c.width, c.height) == (w, h), "size {} x {}", c.width, c.height)
    model = {(x, y): bg for y in range(h) for x in range(w)}

    def norm(v):
        return tuple(v) if kind == "color" else v

    def compare(what):
        for k, v in model.items():
            need(norm(c[k]) == v, "{}: pixel {} of the {} {} x {} canvas is {}, expected {}", what, k, kind, w, h, c[k], v)
    compare("new canvas")
    blended = False
    for p, v in ops:
        old = model[p]
        c[p] = v
        got = norm(c[p])
        if kind == "gray" and isinstance(v, tuple):
            blended = True
            need(got in mix(old, *v), "{} over {} with opacity {} gives {}, expected {}", v[0], old, v[1], got, mix(old, *v))
        elif kind == "color" and len(v) == 4:
            blended = True
            for g, o, n in zip(got, old, v):
                need(g in mix(o, n, v[3]), "{} over {} with opacity {} gives {}", v[:3], old, v[3], got)
        else:
            need(got == norm(v), "{} written at {} reads back as {}", v, p, got)
        model[p] = got
        if len(ops) <= 4:
            compare("after writing {} at {}".format(v, p))
    compare("after {}".format(ops))
    path = os.path.join(Scratch.fresh(), "c.pnm")
    with open(path, "wb") as f:
        f.write(b"old" * 1000)
    c.save(path)
    with open(path, "rb") as f:
        k, sw, sh, data = netpbm.read(f.read())
    need(k == {"bw": "P4", "gray": "P5", "color": "P6"}[kind] and (sw, sh) == (w, h), "saved as {} {} x {}", k, sw, sh)
    need(data == [model[x, y] for y in range(h) for x in range(w)], "the saved image differs from the canvas")
    compare("after saving")
    return kind + (" blend" if blended else "") if ops else False


FACETS = [
    Facet("pixels", history, pixels, "1..20 x 1..20 canvases of the three kinds with up to 14 writes, plain or with opacity; at least one write", 5000),
    Facet("wide", wide, pixels, "canvases of up to 600 x 12 or 12 x 600 with up to 400 writes; at least one write", 120),
]
