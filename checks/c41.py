import builtins
import io
import os
import sys
from hypothesis import assume, strategies as st
from vlib import projs
from vlib.engine import PKG, Budget, Facet, Scratch, Violation, need
from checks import c11, c15, c16
from coral import frame, pf, rg

ASSUMPTIONS = ["the writer stops between two of its statements; of what it wrote until then everything, only what was flushed, or everything of one file and the flushed part of the others has reached the disk",
               "a data set may have stood at the same place before; then it, too, may be read",
               "cut files are the subject of C17"]


class Watcher:
    "Records the possible contents of a directory at every line coral executes."

    def __init__(self, folder, flush):
        self.folder, self.flush = folder, flush
        self.states, self.files = [], []

    def look(self):
        for f in self.files if self.flush else ():
            if not f.closed and f.writable():
                if self.flush == "all" or f.name.endswith(self.flush):
                    f.flush()
        now = {}
        for n in sorted(os.listdir(self.folder)):
            with self.open(os.path.join(self.folder, n), "rb") as f:
                now[n] = f.read()
        if not self.states or self.states[-1] != now:
            self.states.append(now)

    def trace(self, frame, event, arg):
        if not frame.f_code.co_filename.startswith(PKG):
            return None
        if event in ("line", "return"):
            self.look()
        return self.trace

    def opening(self, *args, **kw):
        f = self.open(*args, **kw)
        self.files.append(f)
        return f

    def __enter__(self):
        self.open = builtins.open
        builtins.open = io.open = self.opening
        self.before = sys.gettrace()
        self.look()
        sys.settrace(self.trace)
        return self

    def __exit__(self, *exc):
        sys.settrace(self.before)
        builtins.open = io.open = self.open
        if exc[0] is None:
            self.look()


def attempt(func):
    try:
        return True, func()
    except (Violation, Budget):
        raise
    except Exception:
        return False, None


def judge(write, old, new, read, flushes):
    """write(folder, data); read(folder) -> content or an error."""
    seen, refused = set(), 0
    for flush in flushes:
        d = Scratch.fresh()
        work, copy = os.path.join(d, "work"), os.path.join(d, "copy")
        os.mkdir(work), os.mkdir(copy)
        was = None
        if old is not None:
            write(work, old)
            was = read(work)
        with Watcher(work, flush) as w:
            write(work, new)
        now = read(work)
        for k, s in enumerate(w.states):
            key = tuple(sorted(s.items()))
            if key in seen:
                continue
            seen.add(key)
            for n in os.listdir(copy):
                os.remove(os.path.join(copy, n))
            for n, data in s.items():
                with open(os.path.join(copy, n), "wb") as f:
                    f.write(data)
            ok, got = attempt(lambda: read(copy))
            if not ok:
                refused += 1
                continue
            need(got == now or was is not None and got == was,
                 "interrupted at state {} of {} (flushed: {}): files of {} bytes are read as {}, written {}, before {}",
                 k, len(w.states), flush, {n: len(x) for n, x in s.items()}, got, now, was)
    return refused


def rgget(folder):
    r = rg.Reader(os.path.join(folder, "data"))
    try:
        ids = [i for i, _ in r.index]
        out = []
        for i in ids:
            out.append((i, [[tuple(x) for x in s] for s in r.read()]))
        for i, segs in out:
            got = [[tuple(x) for x in s] for s in r.read(i)]
            if got != segs:
                return "by identifier", i, got, segs
        return out
    finally:
        r.close()


def rgput(folder, data):
    c15.write(os.path.join(folder, "data"), *data)


@st.composite
def rgpair(draw):
    cols, ents = draw(c15.dataset())
    how = draw(st.sampled_from(["none", "rows", "ids", "segments", "merged", "other"]))
    old = None
    if how == "rows":
        old = cols, [(i, [s[::-1] for s in segs]) for i, segs in ents]
    elif how == "ids":
        old = cols, [("was %d" % k, [s[::-1] for s in segs]) for k, (i, segs) in enumerate(ents)]
    elif how == "segments":
        old = cols, [(i, [[r] for s in segs for r in s[::-1]]) for i, segs in ents]
    elif how == "merged":
        old = cols, [("all", [[r for i, segs in ents[::-1] for s in segs for r in s]])]
    elif how == "other":
        old = draw(c15.dataset())
    return old, (cols, ents), how


def rgstop(case):
    old, new, how = case
    assume(sum(len(s) for _, ss in new[1] for s in ss) < 60)
    refused = judge(rgput, old, new, rgget, [None, "all", ".rg", ".md"])
    return how if refused else False


def pfget(folder):
    r = pf.Reader(os.path.join(folder, "data.p"))
    try:
        return [(r.names[i], r.read(i)) for i in range(len(r))]
    finally:
        r.close()


def pfput(folder, data):
    c16.store(os.path.join(folder, "data.p"), *data)


def pfstop(case):
    old, new = case
    assume(c16.usable(new[0]) and (old is None or c16.usable(old[0])))
    assume(sum(len(p) for _, ps in new[0] for p in ps) < 60)
    judge(pfput, old, new, pfget, [None, "all"])
    return "over another" if old else "new"


def frameput(folder, data):
    c11.build(*data).save(os.path.join(folder, "map.frame"))


def frameget(folder):
    f = frame.load(os.path.join(folder, "map.frame"))
    p = f.projection
    keys = ("lat1", "lat2", "a", "e") if hasattr(p, "lat1") else ("lon0", "lat0", "r")
    b = f.bounding
    return type(p).__name__, [getattr(p, k, None) for k in keys], (b.x0, b.y0, b.x1, b.y1)


def framestop(case):
    old, new = case
    judge(frameput, old, new, frameget, [None, "all"])
    return "over another" if old else "new"


FACETS = [
    Facet("rangegrid", rgpair, rgstop, "a data set written where none, a similar one or another one stood, interrupted after every statement; some state is refused", 150, weight=4, budget=40000000),
    Facet("pf", lambda: st.tuples(st.none() | st.tuples(c16.entities(False), st.sampled_from([1, 2, 4, 8])), st.tuples(c16.entities(False), st.sampled_from([1, 2, 4, 8]))), pfstop,
          "a PF file written where none or another one stood, interrupted after every statement; every case", 100, weight=3, budget=40000000),
    Facet("frame", lambda: st.tuples(st.none() | st.tuples(projs.config(), c11.box), st.tuples(projs.config(), c11.box)), framestop,
          "a frame saved where none or another one stood, interrupted after every statement; every case", 100),
]
