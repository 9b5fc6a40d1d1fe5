import os
import re
import sys
import tempfile
import time
from hypothesis import assume, strategies as st
from vlib.engine import Facet, fail, need
from coral import tqdm as T

ASSUMPTIONS = ["a total of 0 may be shown or not; percentages are judged to one point, times to one second, rates to a hundredth (relative 1e-3)",
               "descriptions are one line of text; the clock does not run backwards"]

LINE = re.compile(r"(?:\|([#-]*)\| (\d+)/(\d+) +(\d+)% \[elapsed: ([\d:]+) left: ([\d:]+|\?), +([\d.]+|\?) iters/sec\]"
                  r"|(\d+) \[elapsed: ([\d:]+), +([\d.]+|\?) iters/sec\])")


def clock(s):
    "Seconds shown by MM:SS or H:MM:SS."
    m = re.fullmatch(r"(?:([1-9]\d*):)?(\d\d):(\d\d)", s)
    need(m, "time shown as {!r}", s)
    h, mi, se = int(m[1] or 0), int(m[2]), int(m[3])
    need(mi < 60 and se < 60, "time shown as {!r}", s)
    return h * 3600 + mi * 60 + se


def parse(s):
    m = LINE.fullmatch(s)
    need(m, "status line {!r}", s)
    if m[2]:
        return int(m[2]), int(m[3]), m[1], int(m[4]), clock(m[5]), None if m[6] == "?" else clock(m[6]), m[7]
    return int(m[8]), None, None, None, clock(m[9]), None, m[10]


def status(s, n, total, elapsed=None):
    "Check a status line against count, total and (if known) elapsed time."
    k, t, bar, pct, el, left, rate = parse(s)
    need(k == n, "{!r} shows {} items, expected {}", s, k, n)
    if total is None or n > total:
        need(t is None, "{!r} shows a total, expected none (total {})", s, total)
    elif total:
        need(t == total, "{!r} shows total {}, expected {}", s, t, total)
    if t:
        need(len(bar) == 10 and bar == "#" * (10 * n // t) + "-" * (10 - 10 * n // t), "{!r}: bar for {} of {}", s, n, t)
        need(abs(pct - 100 * n / t) <= 1, "{!r}: percentage for {} of {}", s, n, t)
    if elapsed is None:
        return
    need(abs(el - elapsed) <= 1 and el <= elapsed, "{!r}: {} seconds elapsed", s, elapsed)
    if not elapsed:
        need(rate == "?", "{!r}: rate without elapsed time", s)
    else:
        need(rate != "?" and abs(float(rate) - n / elapsed) <= 0.0051 + 1e-3 * n / elapsed, "{!r}: rate of {} in {} s", s, n, elapsed)
    if t:
        if n:
            want = elapsed / n * (t - n)
            need(left is not None and abs(left - want) <= 1 + 1e-9 * want, "{!r}: remaining time should be {}", s, want)
        else:
            need(left is None, "{!r}: remaining time without a rate", s)


class Screen:
    "A terminal line; every flush is looked at."

    def __init__(self, now):
        self.line, self.col, self.done = [], 0, []
        self.seen = []
        self.now = now
        self.text = ""

    def write(self, s):
        need(isinstance(s, str), "wrote {!r}", s)
        self.text += s
        for c in s:
            if c == "\r":
                self.look()
                self.col = 0
            elif c == "\n":
                self.look()
                self.done.append("".join(self.line))
                self.line, self.col = [], 0
            else:
                self.line[self.col:self.col + 1] = [c]
                self.col += 1
        return len(s)

    def flush(self):
        self.look()

    def look(self):
        l = "".join(self.line)
        if not self.seen or self.seen[-1][0] != l:
            self.seen.append((l, self.now()))


class Boom(Exception):
    pass


@st.composite
def wraps(draw, count=st.integers(0, 50)):
    n = draw(count)
    kind = draw(st.sampled_from(["list", "gen", "range", "tuple", "str", "dict", "trange"]))
    total = draw(st.sampled_from(["absent", "absent", "right", "small", "large", "zero"]))
    opts = {}
    if draw(st.booleans()):
        opts["desc"] = draw(st.sampled_from(["x", "loading maps", "|##| 3/4", "é", "a: b"]))
    if total != "absent":
        opts["total"] = {"right": n, "small": draw(st.integers(0, n)), "large": n + draw(st.integers(1, 60)), "zero": 0}[total]
    if draw(st.booleans()):
        opts["leave"] = draw(st.booleans())
    opts["mininterval"] = draw(st.sampled_from([0, 0, 0.5, 3, 1000]))
    if draw(st.booleans()):
        opts["miniters"] = draw(st.integers(0, 5))
    if draw(st.integers(0, 4)) == 0:
        del opts["mininterval"]
    boom = draw(st.integers(0, n)) if kind == "gen" and draw(st.integers(0, 3)) == 0 else None
    steps = draw(st.lists(st.sampled_from([0, 0, 0.1, 0.3, 1, 7.5, 61, 3700, 0.01]), min_size=1, max_size=8))
    return n, kind, opts, boom, steps


def wrap(case):
    n, kind, opts, boom, steps = case
    cur = [1000.0]
    asked = [0]
    pulled = [0]

    def fake():
        asked[0] += 1
        return cur[0]

    def work(i):
        cur[0] += steps[i % len(steps)]

    def gen():
        for i in range(n):
            if i == boom:
                raise Boom()
            pulled[0] += 1
            yield i * i
        if boom == n:
            raise Boom()
    scr = Screen(lambda: cur[0])
    src = {"list": lambda: [i * i for i in range(n)], "gen": gen, "range": lambda: range(3, n + 3), "tuple": lambda: tuple(range(n)),
           "str": lambda: "ab%é" * 400, "dict": lambda: {str(i): i for i in range(n)}, "trange": lambda: range(3, n + 3)}[kind]()
    if kind == "str":
        src = src[:n]
    want = [i * i for i in range(n)] if kind == "gen" else list(src)
    sized = kind != "gen"
    total = opts.get("total", n if sized else None)
    leave = opts.get("leave", True)
    real = time.time, time.monotonic, time.perf_counter
    leak = tempfile.TemporaryFile()
    fds = os.dup(1), os.dup(2)
    sys.stdout.flush(), sys.stderr.flush()
    got = []
    boomed = False
    try:
        time.time = time.monotonic = time.perf_counter = fake
        os.dup2(leak.fileno(), 1), os.dup2(leak.fileno(), 2)
        try:
            it = T.trange(3, n + 3, file=scr, **opts) if kind == "trange" else T.tqdm(src, file=scr, **opts)
            for x in it:
                got.append(x)
                if kind == "gen":
                    need(pulled[0] == len(got), "{} items taken from the source to deliver {}", pulled[0], len(got))
                work(len(got) - 1)
        except Boom:
            boomed = True
        sys.stdout.flush(), sys.stderr.flush()
    finally:
        time.time, time.monotonic, time.perf_counter = real
        os.dup2(fds[0], 1), os.dup2(fds[1], 2)
        os.close(fds[0]), os.close(fds[1])
    leak.seek(0)
    spill = leak.read()
    leak.close()
    need(not spill, "written elsewhere than to the given file: {!r}", spill)
    need(boomed == (boom is not None), "the exception of the iterable was {}", "lost" if not boomed else "invented")
    want = want[:boom] if boomed else want
    need(got == want, "items {}, expected {}", got, want)
    scr.look()
    pre = opts["desc"] + ": " if "desc" in opts else ""
    seen = [(l.rstrip(" "), at) for l, at in scr.seen if l.strip()]
    counts = []
    start = seen[0][1] if seen else None
    for l, at in seen:
        need(l.startswith(pre), "line {!r} does not begin with {!r}", l, pre)
        k = parse(l[len(pre):])[0]
        if counts and k == counts[-1][0] and l == counts[-1][2]:
            continue
        counts.append((k, at, l))
        if asked[0]:
            status(l[len(pre):], k, total, at - start)
        else:
            status(l[len(pre):], k, total)
    ks = [c[0] for c in counts]
    need(ks == sorted(set(ks)) and all(k <= len(got) for k in ks), "counts shown: {} of {} items", ks, len(got))
    if not boomed:
        if leave:
            need(len(scr.done) == 1 and not scr.line, "output does not end with one line: {!r}", scr.text)
            last = scr.done[0].rstrip(" ")
            need(last.startswith(pre), "last line {!r}", last)
            status(last[len(pre):], n, total)
        else:
            need(not scr.done and not "".join(scr.line).strip() and scr.col == 0, "the line is not blanked: {!r}, cursor at {}", "".join(scr.line), scr.col)
    # updates neither too early nor too late
    mi, mt = opts.get("miniters", 1), opts.get("mininterval", 0.5)
    mid = counts[1:-1] if leave and counts and counts[-1][0] == len(got) else counts[1:]
    if asked[0]:
        for (k0, t0, _), (k1, t1, _) in zip(counts, mid):
            need(k1 - k0 >= mi and t1 - t0 >= mt - 1e-9, "updated at item {} ({} s) after item {} ({} s)", k1, t1, k0, t0)
        at = 1000.0
        times = [at]
        for i in range(len(got)):
            at += steps[i % len(steps)]
            times.append(at)
        lastk, lastt = 0, 1000.0
        shown = set(ks)
        for k in range(1, len(got) + 1):
            if k == len(got) and boomed:
                break
            if k - lastk >= mi and times[k] - lastt >= mt + 1e-9:
                need(k in shown, "not updated at item {} ({} s) after item {} ({} s)", k, times[k], lastk, lastt)
            if k in shown:
                lastk, lastt = k, times[k]
    return "exception" if boomed else "nothing to do" if not n else "{}{}".format("left" if leave else "blanked", " with updates" if len(ks) > 2 else "")


big = st.integers(0, 60) | st.integers(0, 10 ** 6) | st.integers(0, 10 ** 12)
secs = st.sampled_from([0, 0.0, 0.5, 59, 59.99, 60, 61, 3599, 3600, 3661, 86399, 10 ** 6]) | st.integers(0, 10 ** 5) | st.floats(0.01, 10 ** 6) | st.integers(1, 10 ** 6).map(lambda i: i / 100)


@st.composite
def meters(draw):
    n = draw(big)
    k = draw(st.integers(0, 6))
    if k == 0:
        total = None
    elif k == 1:
        total = draw(big)
    elif k == 2:
        total = n
    elif k == 3:
        t = draw(st.integers(0, 10 ** 6))
        n, total = t * draw(st.integers(0, 10)), t * 10
    else:
        total = n + draw(st.sampled_from([-1, 0, 1, 2])) if draw(st.booleans()) else n + draw(big)
        total = max(total, 0)
    return n, total, draw(secs)


def meter(case):
    n, total, t = case
    s = T.format_meter(n, total, t)
    status(s, n, total, t)
    i = T.format_interval(t)
    need(clock(i) == int(t), "{} seconds shown as {}", t, i)
    return "unknown total" if total is None else "exceeded" if n > total else "no items" if not n else "complete" if n == total else None


def overwriting(case):
    scr = Screen(lambda: 0)
    p = T.StatusPrinter(scr)
    for i, s in enumerate(case):
        p.print_status(s)
        need("".join(scr.line).rstrip(" ") == s.rstrip(" "), "after {} the line shows {!r}", case[:i + 1], "".join(scr.line))
    need(not scr.done, "status lines went to a new line")
    return None if any(len(a) > len(b) for a, b in zip(case, case[1:])) else False


FACETS = [
    Facet("wrap", wraps, wrap, "seven kinds of iterables of 0..50 items, all options, an item-driven clock, exceptions of the iterable; every case", 2500, weight=2),
    Facet("meter", meters, meter, "counts, totals and times up to 1e12, 1e12 and 1e6; every case", 5000),
    Facet("overwrite", lambda: st.lists(st.text("ab [|#é", max_size=12), min_size=1, max_size=8), overwriting,
          "sequences of status texts; some text is shorter than its predecessor", 1500),
    Facet("longwrap", lambda: wraps(st.integers(51, 1500)), wrap, "as wrap with 51..1500 items; every case", 120, budget=30000000),
    Facet("longlines", lambda: st.lists(st.text("ab [|#é", max_size=12) | st.integers(0, 300).map(lambda n: "x" * n), min_size=2, max_size=40), overwriting,
          "sequences of up to 40 texts of up to 300 characters; some text is shorter than its predecessor", 200),
]
