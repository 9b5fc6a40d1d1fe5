import io
import itertools
import os
import sys
import threading
import time
from hypothesis import strategies as st
from vlib import gen, projs, shp as SP
from vlib.engine import Budget, Facet, Infra, Scratch, Violation, need
from checks import c14, c27, c31, c42
import coral
from coral import bbox, coord, frame, gradient, grid, names, shapefile, stats, table

ASSUMPTIONS = ["threads do not share objects that one of them changes, nor files that one of them writes; caches of statistics are shared",
               "a switch can happen between any two lines of the library, but not within a line",
               "the clock stands still, so that progress meters are comparable"]

LIBRARY = os.path.dirname(os.path.abspath(coral.__file__)) + os.sep


class Baton:
    "Lets one thread run at a time, and hands over after so many lines of the library, as scheduled."

    def __init__(self, n, schedule):
        self.gates = [threading.Semaphore(0) for _ in range(n)]
        self.alive = set(range(n))
        self.schedule = itertools.cycle(schedule)
        self.left = 1
        self.switches = 0
        self.stuck = False
        self.done = threading.Semaphore(0)

    def tracer(self, me):
        def line(f, event, arg):
            if event == "line" and not self.stuck:
                self.left -= 1
                if self.left <= 0:
                    self.pass_on(me)
            return line

        def call(f, event, arg):
            return line if f.f_code.co_filename.startswith(LIBRARY) else None
        return call

    def choose(self):
        who, self.left = next(self.schedule)
        return sorted(self.alive)[who % len(self.alive)]

    def pass_on(self, me):
        who = self.choose()
        if who != me:
            self.switches += 1
            self.gates[who].release()
            if not self.gates[me].acquire(timeout=60):
                self.stuck = True

    def run(self, me, work):
        if not self.gates[me].acquire(timeout=60):
            self.stuck = True
        sys.settrace(self.tracer(me))
        try:
            work()
        finally:
            sys.settrace(None)
            self.alive.discard(me)
            if self.alive:
                self.gates[self.choose()].release()
            self.done.release()

    def start(self, works):
        threads = [threading.Thread(target=self.run, args=(i, w), daemon=True) for i, w in enumerate(works)]
        for t in threads:
            t.start()
        self.gates[self.choose()].release()
        for t in threads:
            t.join(120)
            if t.is_alive():
                raise Infra("threads got stuck")
        if self.stuck:
            raise Infra("threads got stuck")


# calls on objects that threads share, without changing them

def projected(made, call):
    p, (kind, q) = made, call
    return getattr(p, kind)(*q)


def framed(made, call):
    f, (scale, pts) = made, call
    return [f.point(scale, p) for p in pts], list(f.planify(scale, pts)), f.bounding.center()


def coded(made, call):
    row, values = made, call
    return row.encode(*values), row.decode(row.encode(*values)), len(row), str(row.fields[0])


def coloured(made, call):
    return made.get(call), made.get_hex(call)


def navigated(made, call):
    (a, b), (c, d), x = call
    return (coord.haversine(a, b, c, d), coord.bearing(a, b, c, d), coord.destination(a, b, x, 1e6), coord.midpoint(a, b, c, d), coord.radiusat(b), coord.bearing2cardinal(x), coord.bearing2hours(x),
            coord.haversine(a, b, c, d, 1), coord.collinear((a, b), (c, d), (x, x)))


def centred(made, call):
    return coord.geocentroid(call), coord.geocentroid(call, None, 1e-5)


def named(made, call):
    a, b, more = call
    out = [names.ascii(a), names.damlev(a, b), names.jaro(a, b), names.jaro_winkler(a, b)]
    if more and a:
        out.append([tuple(m) for m in names.mapping([a, b], more)])
        out.append(names.abbreviations(more, 4, ["de"]))
    return out


def boxed(made, call):
    b, p = made, call
    c = bbox.BBox(p, (p[0] + 1, p[1] + 2))
    return b | c, b & c, b.collide(c), b.translate(*p), b.scale(p[0]), p in b, b == c, b < c, hash(b)


def counted(made, call):
    s, t = call
    return stats.avg(s), stats.var(s), stats.std_dev(s), stats.covar(s, t), stats.sum(s), stats.max(s), stats.min(t), stats.gini_kakwani(s), stats.gini_deaton(t)


def tabled(made, call):
    t, key = made, call
    k = t[0]._fields[key % len(t[0]._fields)]
    return table.getone(t, k, getattr(t[-1], k)), list(table.getall(t, k, getattr(t[0], k))), sorted(map(repr, table.indexby(t, k).items())), table.join(t, t, [k]), list(table.delkeys(t, [k]))


def shown(data):
    t, shapes = data
    k = SP.BASE[t]
    gs = []
    for parts in shapes:
        flat = [p for q in parts for p in q]
        extra = [float(i) for i in range(len(flat))]
        starts = list(itertools.accumulate([0] + [len(q) for q in parts[:-1]]))
        gs.append(SP.Geo(t, flat, starts if k in ("line", "poly") else None, None, extra if t in SP.HAS_Z else None, extra if t in SP.HAS_M else None))
    shp, shx = SP.encode(t, gs)
    return shapefile.Reader(shp=io.BytesIO(shp), shx=io.BytesIO(shx)).shapes()


def viewed(made, call):
    s = made[call % len(made)]
    return s.__geo_interface__, s.shapeType, s.points


def thinned(made, call):
    scale, closed, k = call
    return list(coord.simplify(made, scale, closed, k)), list(coord.sqr_fit(made, scale))


ring = st.tuples(st.integers(-120, 120), st.integers(-60, 60), st.integers(1, 20)).map(lambda t: [(t[0], t[1]), (t[0] + t[2], t[1]), (t[0] + t[2], t[1] + t[2] / 2), (t[0], t[1] + t[2])])
numbers = st.lists(st.integers(1, 9) | st.sampled_from([.5, 2.25]), min_size=2, max_size=5).map(tuple)
word = st.text("abcdeé ", max_size=6)
near = st.tuples(st.integers(-170, 170), st.integers(-80, 80))


@st.composite
def rows(draw):
    spec = draw(c14.row())
    def values(r):
        return [v if r.random() < .5 else {"I": lambda: r.randint(a[0], a[1]), "F": lambda: r.choice(a[:2]), "S": lambda: "x" * r.randint(0, a[0])}[k]() for k, a, v in spec]
    r = draw(gen.seeds)
    return [s[:2] for s in spec], [values(r) for _ in range(6)]


@st.composite
def shared(draw):
    kind = draw(st.sampled_from(sorted(KINDS)))
    if kind == "row":
        data, calls = draw(rows())
        call = st.sampled_from(calls)
    else:
        data, call = draw(KINDS[kind][2]), KINDS[kind][3]
    return kind, data, draw(st.lists(st.lists(call, min_size=1, max_size=3), min_size=2, max_size=3)), draw(schedule)


KINDS = {
    "projection": (projs.make, projected, projs.config(), st.tuples(st.sampled_from(["geo2rect", "geo2rect", "scale"]), near) | st.tuples(st.just("rect2geo"), st.tuples(st.integers(-10 ** 6, 10 ** 6), st.integers(-10 ** 6, 10 ** 6)))),
    "frame": (lambda c: frame.Frame(projs.make(c), bbox.BBox((-10, -20), (30, 40))), framed, projs.config(), st.tuples(st.sampled_from([1, 1000, 1e5]), st.lists(near, min_size=1, max_size=4))),
    "row": (lambda spec: grid.GRow(*[{"I": grid.IVar, "F": grid.FVar, "S": grid.SVar}[k]("f%d" % i, *a) for i, (k, a) in enumerate(spec)]), coded, None, None),
    "gradient": (lambda s: gradient.Gradient([tuple(p) for p in s]), coloured, st.lists(st.tuples(st.sampled_from([0, .2, .4, .7, 1]), st.tuples(*[st.floats(0, 1)] * 3)), min_size=1, max_size=5, unique_by=lambda p: p[0]), st.floats(0, 1)),
    "navigation": (lambda x: None, navigated, st.none(), st.tuples(near, near, st.integers(-180, 180))),
    "centroid": (lambda x: None, centred, st.none(), st.lists(ring, min_size=1, max_size=3)),
    "names": (lambda x: None, named, st.none(), st.tuples(word, word, st.lists(word.filter(len), max_size=3, unique=True))),
    "views": (shown, viewed, c27.dataset(), st.integers(0, 3)),
    "simplify": (lambda x: x, thinned, st.lists(st.tuples(st.integers(-9, 9), st.integers(-9, 9)), min_size=3, max_size=20), st.tuples(st.sampled_from([1, 2, .5]), st.booleans(), st.sampled_from([1, 2, 8]))),
    "box": (lambda b: bbox.BBox(*b), boxed, st.tuples(near, near), near),
    "stats": (lambda x: None, counted, st.none(), st.tuples(numbers, numbers).map(lambda t: tuple(s[:min(map(len, t))] for s in t))),
    "table": (c31.make, tabled, c31.tab().filter(lambda t: len(t[1]) > 0), st.integers(0, 5)),
}
schedule = st.lists(st.tuples(st.integers(0, 3), st.sampled_from([1, 1, 1, 2, 3, 5, 8, 20]) | st.integers(1, 30)), min_size=4, max_size=25)


def attempt(f):
    try:
        return repr(f())
    except (Violation, Budget):
        raise
    except Exception as e:
        return "raised " + type(e).__name__


def calls(case):
    kind, data, lists, plan = case
    make, act = KINDS[kind][:2]
    made = make(data)
    stats.cache_clear()
    want = [[attempt(lambda: act(made, c)) for c in cs] for cs in lists]
    got = [[] for _ in lists]

    def work(i):
        def run():
            for c in lists[i]:
                got[i].append(attempt(lambda: act(made, c)))
        return run
    made = make(data)
    stats.cache_clear()
    b = Baton(len(lists), plan)
    b.start([work(i) for i in range(len(lists))])
    for i, (g, w) in enumerate(zip(got, want)):
        need(g == w, "{}: thread {} gets {} among others, {} alone", kind, i, g, w)
    return kind if b.switches > 2 and any(not x.startswith("raised") for w in want for x in w) else False


def tasks(case):
    jobs, plan = case
    base = Scratch.fresh()
    real = time.time
    time.time = lambda: 1000.0
    try:
        want, got = {}, {}
        for i, (k, data) in enumerate(jobs):
            d, common = os.path.join(base, "a%d" % i), os.path.join(base, "as%d" % i)
            os.mkdir(d), os.mkdir(common)
            stats.cache_clear()
            g = c42.TASKS[k][0](data, d, common)
            while c42.advance(g, want, i):
                pass
        stats.cache_clear()

        def work(i):
            k, data = jobs[i]
            d = os.path.join(base, "b%d" % i)
            os.mkdir(d)

            def run():
                # readers read the same files
                g = c42.TASKS[k][0](data, d, os.path.join(base, "as%d" % (0 if k.endswith("read") else i)))
                try:
                    while c42.advance(g, got, i):
                        pass
                except Budget as e:
                    got[i] = e
            return run
        b = Baton(len(jobs), plan)
        b.start([work(i) for i in range(len(jobs))])
    finally:
        time.time = real
    for i, (k, data) in enumerate(jobs):
        if isinstance(got[i], Budget):
            raise got[i]
        need(got[i] == want[i], "{} number {} gives {} among others, {} alone", k, i, got[i], want[i])
    return jobs[0][0] if b.switches > 5 else False


FACETS = [
    Facet("tasks", lambda: st.tuples(c42.group().map(lambda g: g[0]), schedule), tasks,
          "2..4 tasks of one kind, reading one file set, or of different kinds, each in a thread; switches between lines of the library by a drawn schedule; more than five switches", 700, budget=30000000, weight=2),
    Facet("calls", shared, calls, "2..3 threads with up to three calls each on one object or function; switches between lines; more than two switches and a call that is not refused", 1500, budget=30000000),
]
