import math
from hypothesis import assume, strategies as st
from vlib import eps, gen
from vlib.engine import Facet, Scratch, fail, need, num
from checks import c33
from coral import vector, bbox

ASSUMPTIONS = c33.ASSUMPTIONS[:1] + ["texts do not count for the bounding box; the box of a canvas without elements is not judged",
                                     "saving at a fixed size needs a drawing of some extent and a margin smaller than the size"]

coord = c33.coord
point = st.tuples(coord, coord)
same_x = coord.flatmap(lambda x: st.lists(st.tuples(st.just(x), coord), min_size=1, max_size=4))
same_y = coord.flatmap(lambda y: st.lists(st.tuples(coord, st.just(y)), min_size=1, max_size=4))
points = st.lists(point, max_size=5) | same_x | same_y
how = st.sampled_from(["list", "iter", "tuple"])


def step():
    return st.one_of(
        st.tuples(st.just("line"), points, c33.ink, how),
        st.tuples(st.just("poly"), points, c33.oink, c33.oink, how),
        st.tuples(st.just("circle"), point, st.sampled_from([0.5, 1, 3, 40]), c33.oink, c33.oink),
        st.tuples(st.just("round"), c33.corner_polygon(), c33.oink, c33.oink),
        c33.image(),
        st.tuples(st.just("text"), point, c33.text, st.just(10), st.just("Courier"), st.sampled_from(c33.ANCHORS), c33.ink),
        st.tuples(st.just("copy")), st.tuples(st.just("use"), st.integers(0, 3)),
        st.tuples(st.just("reset")), st.tuples(st.just("hold")), st.tuples(st.just("release")),
    )


sizes = st.none() | st.sampled_from([1, 100, 300, 512.5])
margins = st.sampled_from([0, 0, 1, 5, 2.5, 50])


@st.composite
def history(draw):
    return (draw(st.none() | c33.ink), draw(st.lists(step(), min_size=draw(st.sampled_from([1, 3, 6])), max_size=16)),
            draw(st.lists(st.tuples(sizes, margins) | st.tuples(st.sampled_from([10, 100, 301]), st.integers(1, 9).map(lambda i: i / 10)).map(lambda t: (t[0], t[0] * t[1])), min_size=1, max_size=3)))


def box_of(b):
    return tuple(num(v, "corner of the box") for v in (b.x0, b.y0, b.x1, b.y1))


def close4(a, b, tol):
    return all(abs(x - y) <= tol for x, y in zip(a, b))


def boxes(case):
    bg, ops, saves = case

    def watch(c, m):
        if m.box is None:
            return
        b = box_of(c.bbox)
        tol = 1e-12 * max(map(abs, m.box))
        need(close4(b, m.box, tol), "box {}, expected {}", b, m.box)
    cvs = c33.replay((bg, ops, None, 0), watch)
    empty = True
    done = set()
    for i, (c, m) in enumerate(cvs):
        if m.box is None:
            continue
        empty = False
        first = {}
        before = box_of(c.bbox)
        for size, margin in saves + saves[:1]:
            if size is not None and (size <= margin or not c33.span(m)):
                size = None
            path = Scratch.path("p.eps")
            c.save(path, size=size, margin=margin)
            with open(path) as f:
                src = f.read()
            need(first.setdefault((size, margin), src) == src, "canvas {}: saving the same canvas twice gives different programs", i)
            need(box_of(c.bbox) == before, "canvas {}: saving changed its box from {} to {}", i, before, box_of(c.bbox))
            want, ctm = c33.page(m, size, margin)
            box, painted, it = eps.read(path)
            big = max(map(abs, want + ctm + tuple(v * ctm[0] for v in m.box)))
            need(close4(box, want, 1e-9 * big), "canvas {}: page box {}, expected {} (box {}, size {}, margin {})", i, box, want, m.box, size, margin)
            if bg is not None:
                painted = painted[1:]
            marks = [(1, 0, 0, 1, 0, 0)] if size is None else []
            for p in painted + [{"ctm": it.g.ctm, "kind": "end"}]:
                if p["kind"] == "image":
                    continue
                # where the corners of the box end up
                b = m.box
                for x, y in ((b[0], b[1]), (b[2], b[3]), (b[0], b[3])):
                    need(c33.near(eps.app(p["ctm"], (x, y)), eps.app(ctm, (x, y)), 1e-8 * big),
                         "canvas {}: corner {} of the box is placed at {}, expected {} (box {}, size {}, margin {})",
                         i, (x, y), eps.app(p["ctm"], (x, y)), eps.app(ctm, (x, y)), b, size, margin)
            done.add(size is not None)
    if empty:
        return False
    return "copies" if len(cvs) > 1 else "fixed size" if True in done else "page grown by the margin"


def copies(case):
    "Whatever is done to one of the copies, the others save the same program."
    bg, ops, more, which = case
    cvs = [c for c, m in c33.replay((bg, ops, None, 0))]
    cvs.append(cvs[which % len(cvs)].copy())
    k = which // 7 % len(cvs)

    def program(c):
        path = Scratch.path("q.eps")
        c.save(path, margin=1)
        with open(path) as f:
            return f.read(), box_of(c.bbox)
    before = [program(c) for c in cvs]
    need(before[-1] == before[which % (len(cvs) - 1)], "a fresh copy saves another program than its original")
    c = cvs[k]
    for o in more:
        if o == "poly":
            c.addpolygon([(0, 0), (900, 0), (3, 777)], fill=0.125, stroke=(0, 0, 1))
        elif o == "text":
            c.addtext((1, 1), "copy", 10, anchor="tr")
        elif o == "text2":
            c.addtext((1, 1), "copy", 10, anchor="c")
        elif o == "state":
            c.setwidth(7), c.setdash([4, 4], 1), c.setink((0.2, 0.4, 0.6))
        elif o == "dash":
            c.setdash([], 0), c.addpolyline([(0, 0), (1, 1)], 0.75)
        elif o == "reset":
            c.resetbbox()
        elif o == "bg":
            c.bgcolor = (0.25, 0, 0)
    after = [program(d) for d in cvs]
    for i, (a, b) in enumerate(zip(before, after)):
        need(i == k or a == b, "drawing {} on canvas {} of {} changed canvas {}", more, k, len(cvs), i)
    # the untouched ones still know their state
    d = cvs[k - 1]
    d.setwidth(7), d.setdash([4, 4], 1), d.addpolyline([(0, 0), (5, 6)], stroke=(0.2, 0.4, 0.6))
    path = Scratch.path("q.eps")
    d.save(path)
    p = eps.read(path)[1][-1]
    need(p["kind"] == "stroke" and p["width"] == 7 and p["dash"] == ((4, 4), 1), "line drawn on canvas {} after drawing on canvas {}: {}", (k - 1) % len(cvs), k, p)
    c33.same_ink(p["ink"], (0.2, 0.4, 0.6), "line drawn on canvas {} after drawing on canvas {}".format((k - 1) % len(cvs), k))
    return "of the original" if k < len(cvs) - 1 else "of the copy"


@st.composite
def bulk(draw):
    r = draw(gen.seeds)
    return (r.choice([None, .5]), c33.bulksteps(r, draw(st.sampled_from([3, 6, 60, 150])), r.random() < .5),
            draw(st.lists(st.tuples(sizes, margins), min_size=1, max_size=2)))


FACETS = [
    Facet("boxes", history, boxes, "up to 16 drawing calls on a canvas and its copies, box resets, saved at several sizes and margins; something is drawn", 2200),
    Facet("copies", lambda: st.tuples(st.none() | c33.ink, st.lists(c33.step(), min_size=1, max_size=8),
                                      st.lists(st.sampled_from(["poly", "text", "text2", "state", "dash", "reset", "bg"]), min_size=1, max_size=4), st.integers(0, 70)), copies,
          "a drawing, a copy of it and more drawing on one of them; every case", 1500),
    Facet("bulk", bulk, boxes, "histories of up to 150 calls and elements of up to 700 vertices; something is drawn", 50, budget=60000000),
]
