import math
from hypothesis import assume, strategies as st
from vlib import eps, gen
from vlib.engine import Facet, Scratch, fail, need
from coral import vector

ASSUMPTIONS = ["text is ASCII; inks have components within 0..1; no element lies at the origin without extent",
               "the ink of text and of polylines without stroke is judged where it was set explicitly just before, or never set on a canvas without background",
               "corners of rounded polygons are proper and their radius fits the edges"]

coord = st.integers(-20, 300) | st.integers(-80, 1200).map(lambda i: i / 4) | st.floats(-1e4, 1e4, allow_nan=False).map(lambda v: round(v, 3))
point = st.tuples(coord, coord)
level = st.sampled_from([0, 0.0, 1, 0.5, 0.25, 1.0]) | st.sampled_from([0, 1, 0.5]) | st.integers(0, 255).map(lambda i: i / 255) | st.floats(0, 1)
ink = level | st.tuples(level, level, level) | st.sampled_from([(0, 0, 0), (1, 1, 1), (0.5, 0.5, 0.5), (1, 0, 0), (0.1, 0.2, 0.3)])
oink = st.none() | ink
FONTS = ["Times-Bold", "Helvetica", "Courier"]
ANCHORS = "c t tr r br b bl l tl".split()
points = st.lists(point, max_size=6) | st.lists(st.tuples(st.integers(0, 3), st.integers(0, 3)), max_size=6)
text = st.text("abcXYZ 019()\\<>[]{}/%#'\"$&*+,-.:;=?@^_`|~!\t", max_size=8) | st.sampled_from(["", "(", ")", "\\", "))((", "\\n", "\\101", "a\nb", "%c", "São"[:1], ")) show"])


@st.composite
def corner_polygon(draw):
    n = draw(st.integers(3, 6))
    pts = [(draw(st.integers(0, 60)), draw(st.integers(0, 60))) for _ in range(n)]
    best = None
    for i in range(n):
        p, v, q = pts[i - 1], pts[i], pts[(i + 1) % n]
        a, b = (p[0] - v[0], p[1] - v[1]), (q[0] - v[0], q[1] - v[1])
        la, lb = math.hypot(*a), math.hypot(*b)
        assume(la > 0 and lb > 0)
        half = math.atan2(abs(a[0] * b[1] - a[1] * b[0]), a[0] * b[0] + a[1] * b[1]) / 2
        assume(0.05 < half < 1.52)
        lim = min(la, lb) / 2 * math.tan(half)
        best = lim if best is None else min(best, lim)
    return pts, round(best * draw(st.sampled_from([0.1, 0.5, 0.9])), 6) or best / 2


@st.composite
def image(draw):
    color = draw(st.booleans())
    w, h = draw(st.integers(1, 5)), draw(st.integers(1, 4))
    data = draw(st.binary(min_size=w * h * (3 if color else 1), max_size=w * h * (3 if color else 1)))
    return "image", data, w, draw(st.none() | point), draw(st.sampled_from([1, 2, 0.5, 10])), color, draw(st.sampled_from(["bytes", "list", "bytearray"]))


def step():
    return st.one_of(
        st.tuples(st.just("ink"), ink),
        st.tuples(st.just("gray"), level),
        st.tuples(st.just("color"), st.tuples(level, level, level)),
        st.tuples(st.just("width"), st.sampled_from([0, 0.5, 1, 2, 2.5])),
        st.tuples(st.just("dash"), st.sampled_from([[], [3], [3, 1], [2.5, 0.5, 1]]), st.sampled_from([0, 1, 2.5]), st.booleans()),
        st.tuples(st.just("dashes"), st.lists(st.sampled_from([[], [3], [3, 1]]), min_size=2, max_size=3), st.sampled_from([0, 1])),
        st.tuples(st.just("circle"), point, st.sampled_from([0.5, 1, 3, 40]), oink, oink),
        st.tuples(st.just("poly"), points, oink, oink, st.sampled_from(["list", "iter", "tuple"])),
        st.tuples(st.just("poly"), points, oink, oink, st.sampled_from(["list", "iter", "tuple"])),
        st.tuples(st.just("line"), points, oink, st.sampled_from(["list", "iter", "tuple"])),
        st.tuples(st.just("round"), corner_polygon(), oink, oink),
        st.tuples(st.just("text"), point, text, st.sampled_from([5, 10, 7.5]), st.sampled_from(FONTS), st.sampled_from(ANCHORS), ink),
        image(),
        st.tuples(st.just("copy")),
        st.tuples(st.just("use"), st.integers(0, 3)),
        st.tuples(st.just("reset")),
        st.tuples(st.just("hold")),
        st.tuples(st.just("release")),
    )


@st.composite
def history(draw):
    return (draw(st.none() | st.none() | ink), draw(st.lists(step(), min_size=draw(st.sampled_from([1, 4, 10])), max_size=25)),
            draw(st.sampled_from([None, None, 100, 512.5])), draw(st.sampled_from([0, 5, 2.5])))


def rgb(i):
    return tuple(map(float, i)) if isinstance(i, tuple) else (float(i),) * 3


class Model:
    def __init__(self, bg):
        self.bg, self.ops, self.box, self.held = bg, [], None, None
        self.ink = (0.0, 0.0, 0.0) if bg is None else None
        self.width, self.dash = 1, ((), 0)

    def copy(self):
        m = Model(self.bg)
        m.__dict__.update(self.__dict__)
        m.ops = self.ops[:]
        return m

    def grow(self, x0, y0, x1, y1):
        assume((x0, y0, x1, y1) != (0, 0, 0, 0))
        b = self.box
        self.box = (x0, y0, x1, y1) if b is None else (min(b[0], x0), min(b[1], y0), max(b[2], x1), max(b[3], y1))

    def paint(self, kind, ink, **kw):
        self.ops.append(dict(kind=kind, ink=ink, width=self.width, dash=self.dash, **kw))

    def area(self, path, fill, stroke):
        if fill is not None:
            self.paint("fill", rgb(fill), path=path)
        if stroke is not None:
            self.paint("stroke", rgb(stroke), path=path)
        if fill is not None or stroke is not None:
            self.ink = None


def around(pts):
    xs, ys = [p[0] for p in pts], [p[1] for p in pts]
    return min(xs), min(ys), max(xs), max(ys)


def rounded(pts, r):
    p0, p1 = pts[:2]
    start = ((p0[0] + p1[0]) / 2, (p0[1] + p1[1]) / 2)
    path = [("m", start)]
    n = len(pts)
    for k in range(n):
        i = (k + 1) % n
        p, v, q = pts[i - 1], pts[i], pts[(i + 1) % n]
        a, b = (p[0] - v[0], p[1] - v[1]), (q[0] - v[0], q[1] - v[1])
        la, lb = math.hypot(*a), math.hypot(*b)
        a, b = (a[0] / la, a[1] / la), (b[0] / lb, b[1] / lb)
        half = math.acos(max(-1, min(1, a[0] * b[0] + a[1] * b[1]))) / 2
        d = r / math.tan(half)
        m = math.hypot(a[0] + b[0], a[1] + b[1])
        h = r / math.sin(half)
        t1 = (v[0] + d * a[0], v[1] + d * a[1])
        path.append(("l", t1))
        path.append(("arc", (v[0] + (a[0] + b[0]) / m * h, v[1] + (a[1] + b[1]) / m * h), r, t1, (v[0] + d * b[0], v[1] + d * b[1])))
    return path + [("z",)]


def wrap(kind, pts):
    return {"list": list, "iter": iter, "tuple": tuple}[kind](pts)


def replay(case, watch=lambda c, m: None):
    "Run a history -> pairs of canvas and model."
    bg, ops, size, margin = case
    cvs = [(vector.Canvas(bg) if bg is not None else vector.Canvas(), Model(bg))]
    cur = 0
    held, mine = {}, []
    for o in ops:
        c, m = cvs[cur]
        k = o[0]
        if k == "ink":
            c.setink(o[1])
            m.ink = rgb(o[1])
        elif k == "gray":
            c.setgray(o[1])
            m.ink = rgb(o[1])
        elif k == "color":
            c.setcolor(*o[1])
            m.ink = rgb(o[1])
        elif k == "width":
            c.setwidth(o[1])
            m.width = o[1]
        elif k == "dash":
            p = list(o[1])
            if o[3]:
                # the list stays the caller's, who may use it again
                mine[:] = p
                p = mine
            c.setdash(p, o[2]) if o[2] or o[3] else c.setdash(p)
            m.dash = (tuple(o[1]), o[2])
        elif k == "dashes":
            for q in o[1]:
                mine[:] = q
                c.setdash(mine, o[2])
            m.dash = (tuple(o[1][-1]), o[2])
        elif k == "circle":
            _, (x, y), r, fill, stroke = o
            c.addcircle((x, y), r, fill=fill, stroke=stroke)
            m.area([("m", (x + r, y)), ("arc", (x, y), r, (x + r, y), (x + r, y)), ("z",)], fill, stroke)
            m.grow(x - r, y - r, x + r, y + r)
        elif k == "poly":
            _, pts, fill, stroke, how = o
            c.addpolygon(wrap(how, pts), fill=fill, stroke=stroke)
            if pts:
                m.area([("m", pts[0])] + [("l", p) for p in pts[1:]] + [("z",)], fill, stroke)
                m.grow(*around(pts))
        elif k == "line":
            _, pts, stroke, how = o
            if stroke is None and m.ink is None:
                stroke = 0.5
            if stroke is None:
                c.addpolyline(wrap(how, pts))
            else:
                c.addpolyline(wrap(how, pts), stroke=stroke)
            if pts:
                m.paint("stroke", m.ink if stroke is None else rgb(stroke), path=[("m", pts[0])] + [("l", p) for p in pts[1:]])
                if stroke is not None:
                    m.ink = None
                m.grow(*around(pts))
        elif k == "round":
            _, (pts, r), fill, stroke = o
            mine = list(pts)
            c.addroundedpolygon(mine, r, fill=fill, stroke=stroke)
            need(mine == list(pts), "the corners of a rounded polygon were altered")
            m.area(rounded(pts, r), fill, stroke)
            m.grow(*around(pts))
        elif k == "text":
            _, (x, y), s, fs, font, anchor, i = o
            if len(s) % 3:
                c.setink(i)
                m.ink = rgb(i)
            c.addtext((x, y), s, fs, font, anchor)
            w, h = eps.ADV * fs * len(s), eps.RISE * fs if s else 0
            dx = 0 if "l" in anchor else w if "r" in anchor else w / 2
            dy = 0 if "b" in anchor else h if "t" in anchor else h / 2
            m.paint("text", m.ink, text=s, at=(x - dx, y - dy), font=(font, fs))
        elif k == "image":
            _, data, w, pos, scale, color, how = o
            d = {"bytes": bytes, "list": list, "bytearray": bytearray}[how](data)
            kw = {} if pos is None else {"position": pos}
            c.addimage(d, w, scale=scale, color=color, **kw)
            h = len(data) // (w * (3 if color else 1))
            x, y = pos or (0, 0)
            m.paint("image", None, data=data, size=(w, h), comps=3 if color else 1, rect=(x, y, x + w * scale, y + h * scale))
            m.grow(x, y, x + w * scale, y + h * scale)
        elif k == "copy":
            cvs.append((c.copy(), m.copy()))
            if len(cvs) % 2:
                cur = len(cvs) - 1
        elif k == "use":
            cur = o[1] % len(cvs)
        elif k == "reset":
            c.resetbbox()
            m.box = None
        elif k == "hold":
            held[cur] = c.bbox, m.box
        elif k == "release" and cur in held:
            c.bbox, m.box = held[cur]
        for pair in cvs:
            watch(*pair)
    return cvs


def page(m, size, margin):
    "-> page box, transformation from canvas to page"
    b = m.box or (0, 0, 0, 0)
    if size is None:
        return (b[0] - margin, b[1] - margin, b[2] + margin, b[3] + margin), (1, 0, 0, 1, 0, 0)
    k = (size - margin) / max(b[2] - b[0], b[3] - b[1])
    return (0, 0, size, size), (k, 0, 0, k, size / 2 - k * (b[0] + b[2]) / 2, size / 2 - k * (b[1] + b[3]) / 2)


def span(m):
    b = m.box or (0, 0, 0, 0)
    return max(b[2] - b[0], b[3] - b[1])


def near(p, q, tol):
    return abs(p[0] - q[0]) <= tol and abs(p[1] - q[1]) <= tol


def same_path(got, want, ctm, tol, what):
    need(len(got) == len(want), "{}: path {}, expected {}", what, got, want)
    for g, w in zip(got, want):
        need(g[0] == w[0], "{}: path {}, expected {}", what, got, want)
        if g[0] in "ml":
            need(near(g[1], eps.app(ctm, w[1]), tol), "{}: path {}, expected {} (under {})", what, got, want, ctm)
        elif g[0] == "arc":
            ok = near(g[1], eps.app(ctm, w[1]), tol) and abs(g[2] - w[2] * ctm[0]) <= tol
            ok = ok and near(g[3], eps.app(ctm, w[3]), tol) and near(g[4], eps.app(ctm, w[4]), tol)
            full = near(w[3], w[4], 0)
            ok = ok and (abs(g[5]) >= 360 - 1e-9 if full else abs(g[5]) < 180)
            need(ok, "{}: path {}, expected {} (under {})", what, got, want, ctm)


def same_ink(got, want, what):
    need(want is None or all(abs(a - b) < 1e-9 for a, b in zip(got, want)), "{}: painted with {}, requested {}", what, got, want)


def judge(c, m, size, margin, what):
    if size is not None and (size <= margin or not span(m)):
        size = None
    path = Scratch.path("c.eps")
    c.save(path, size, margin) if size is not None or margin else c.save(path)
    box, painted, it = eps.read(path)
    want_box, ctm = page(m, size, margin)
    big = max([1.0] + [abs(v) for v in want_box + ctm] + [abs(v * ctm[0]) for v in (m.box or ())])
    tol = 1e-8 * big
    if m.bg is not None:
        need(painted, "{}: the background is not painted", what)
        p = painted.pop(0)
        x0, y0, x1, y1 = box
        need(p["kind"] == "fill", "{}: painted first: {}", what, p)
        same_ink(p["ink"], rgb(m.bg), what + ", background")
        pts = [q for e in p["path"] for q in e[1:2]]
        need(all(e[0] in "mlz" for e in p["path"]) and all(any(near(q, r, tol) for q in pts) for r in ((x0, y0), (x1, y0), (x1, y1), (x0, y1)))
             and all(any(near(q, r, tol) for r in ((x0, y0), (x1, y0), (x1, y1), (x0, y1))) for q in pts) and 4 <= len(pts) <= 5
             and all(not (abs(a[0] - b[0]) > tol and abs(a[1] - b[1]) > tol) for a, b in zip(pts, pts[1:])),
             "{}: the background path {} is not the page {}", what, p["path"], box)
    got = eps.drop_empty(painted)
    want = eps.drop_empty(m.ops)
    for i, (g, w) in enumerate(zip(got, want)):
        where = "{}, paint operation {}".format(what, i)
        need(g["kind"] == w["kind"], "{}: {} painted, expected {}", where, g, w)
        same_ink(g["ink"], w["ink"], where)
        if g["kind"] == "stroke":
            need(g["width"] == w["width"], "{}: line width {}, requested {}", where, g["width"], w["width"])
            need(g["dash"] == w["dash"], "{}: dash {}, requested {}", where, g["dash"], w["dash"])
        if "path" in w:
            same_path(g["path"], w["path"], ctm, tol, where)
        elif g["kind"] == "text":
            need(g["text"] == w["text"], "{}: text {!r}, expected {!r}", where, g["text"], w["text"])
            need(g["font"] == w["font"], "{}: font {}, requested {}", where, g["font"], w["font"])
            need(near(g["at"], eps.app(ctm, w["at"]), tol), "{}: text {!r} at {}, expected {} under {}", where, w["text"], g["at"], w["at"], ctm)
        else:
            need(g["size"] == w["size"] and g["comps"] == w["comps"], "{}: image of {} and {} components, expected {} and {}", where, g["size"], g["comps"], w["size"], w["comps"])
            need(g["data"] == w["data"], "{}: image data {!r}, expected {!r}", where, g["data"], w["data"])
            x0, y0, x1, y1 = w["rect"]
            iw, ih = w["size"]
            for a, b in (((0, 0), (x0, y1)), ((iw, 0), (x1, y1)), ((0, ih), (x0, y0))):
                need(near(eps.app(g["place"], a), eps.app(ctm, b), tol), "{}: image corner {} at {}, expected {}", where, a, eps.app(g["place"], a), b)
    need(len(got) == len(want), "{}: {} operations painted, expected {}: {}", what, len(got), len(want), (got[len(want):] or want[len(got):])[:1])
    return len(got)


def painting(case):
    bg, ops, size, margin = case
    cvs = replay(case)
    n = 0
    for i, (c, m) in enumerate(cvs):
        n += judge(c, m, size, margin, "canvas {}".format(i))
    if not n:
        return False
    return "{}{}{}".format("background" if bg is not None else "plain", ", copies" if len(cvs) > 1 else "", ", fixed size" if size else "")


def bulksteps(r, n, texts=True):
    "Long histories and large elements drawn from one seed."
    lev = lambda: r.choice([0, 0.0, 1, .5, .25, r.randint(0, 1000) / 1000])
    ik = lambda: lev() if r.random() < .5 else (lev(), lev(), lev())
    oi = lambda: r.choice([None, ik()])
    xy = lambda: (r.randint(-80, 1200) / 4 + .25, r.randint(-20, 300) + .5)
    how = lambda: r.choice(["list", "iter", "tuple"])
    out = []
    for _ in range(n):
        k = r.randrange(17)
        many = r.choice([1, 3, 8]) if n > 20 else r.choice([60, 130, 260, 700])
        if k < 2:
            out.append(("ink", ik()))
        elif k == 2:
            out.append(("gray", lev()))
        elif k == 3:
            out.append(("color", (lev(), lev(), lev())))
        elif k == 4:
            out.append(("width", r.choice([0, .5, 1, 2, 2.5])))
        elif k == 5:
            out.append(("dash", [r.choice([1, 2.5, 3]) for _ in range(r.choice([0, 1, 2, 3, 11]))], r.choice([0, 1, 2.5]), r.random() < .5))
        elif k == 6:
            out.append(("circle", xy(), r.choice([.5, 1, 40]), oi(), oi()))
        elif k < 9:
            out.append(("poly", [xy() for _ in range(r.randint(1, many))], oi(), oi(), how()))
        elif k < 11:
            out.append(("line", [xy() for _ in range(r.randint(1, many))], oi(), how()))
        elif k < 13 and texts:
            out.append(("text", xy(), "".join(r.choice("abcXYZ 019()\\<>[]%{}") for _ in range(r.choice([0, 3, 9, many]))), r.choice([5, 10]), r.choice(FONTS), r.choice(ANCHORS), ik()))
        elif k == 13:
            color = r.random() < .5
            w, h = (r.randint(1, 4), r.randint(1, 3)) if n > 20 else r.choice([(100, 40), (1, 200), (260, 2), (17, 17)])
            out.append(("image", r.randbytes(w * h * (3 if color else 1)), w, r.choice([None, xy()]), r.choice([1, 2, .5]), color, r.choice(["bytes", "list", "bytearray"])))
        elif k == 14:
            out.append(("reset",) if r.random() < .3 else ("hold",) if r.random() < .5 else ("release",))
        elif r.random() < .15:
            out.append(("copy",))
        else:
            out.append(("use", r.randrange(4)))
    return out


@st.composite
def bulk(draw):
    r = draw(gen.seeds)
    return r.choice([None, None, .5, (0, 0, 1)]), bulksteps(r, draw(st.sampled_from([3, 6, 60, 150, 300]))), draw(st.sampled_from([None, None, 100])), draw(st.sampled_from([0, 5]))


FACETS = [
    Facet("history", history, painting,
          "up to 25 calls (inks, widths, dashes, all elements, copies, box resets) on a canvas with or without background; something is painted", 2500),
    Facet("bulk", bulk, painting, "histories of up to 300 calls, elements of up to 700 vertices, images of up to 4000 pixels; something is painted", 60, budget=60000000),
]
