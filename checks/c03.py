import re
from collections import deque
from hypothesis import strategies as st
from vlib.engine import Facet, fail, need, raises
from coral.coord import Buffer

ASSUMPTIONS = ["capacities are positive"]


def history(case):
    n, ops = case
    b = Buffer(n)
    model = deque()
    serial = 0
    label = set()

    def look():
        need(bool(b.isempty()) == (len(model) == 0), "isempty with {} of {} elements", len(model), n)
        need(bool(b.isfull()) == (len(model) == n), "isfull with {} of {} elements", len(model), n)
        text = str(b)
        need(re.findall(r"v\d+", text) == list(model), "str is {!r}, contents {}", text, list(model))
    look()
    for op, times in ops:
        for _ in range(times):
            if op == "push":
                serial += 1
                v = "v%d" % serial
                if len(model) == n:
                    raises(Exception, b.push, v, what="push to a full buffer")
                    label.add("refused")
                else:
                    b.push(v)
                    model.append(v)
            elif not model:
                raises(Exception, getattr(b, op), what=op + " of an empty buffer")
                label.add("refused")
            else:
                got = getattr(b, op)()
                want = {"pop": model.pop, "shift": model.popleft, "peek": lambda: model[-1]}[op]()
                need(got == want, "{} gave {}, expected {}", op, got, want)
            look()
    rest = []
    while not b.isempty():
        rest.append(b.shift())
        need(len(rest) <= n, "more than {} elements", n)
    need(rest == list(model), "contents {} expected {}", rest, list(model))
    if serial > 2 * n:
        label.add("wrapped")
    return "+".join(sorted(label)) or None if serial else False


def values(case):
    "Any object can be stored, None and equal ones included."
    n, items, k = case
    b = Buffer(n)
    model = deque()
    for v in items:
        if len(model) == n:
            need(b.shift() == model.popleft(), "shift")
        b.push(v)
        model.append(v)
        need(b.peek() is v, "peek does not give the object pushed")
        need(bool(b.isempty()) is False, "not empty after push")
    while model:
        k, j = divmod(k, 2)
        got, want = (b.pop(), model.pop()) if j else (b.shift(), model.popleft())
        need(got is want, "got {!r} expected {!r}", got, want)
    need(b.isempty(), "empty after removing all")


def capacity(n):
    if n & (n - 1):
        raises(Exception, Buffer, n, what="capacity %d" % n)
        return "refused"
    b = Buffer(n)
    for i in range(n):
        need(not b.isfull(), "full after {} of {}", i, n)
        b.push(i)
    need(b.isfull(), "not full after {}", n)
    need([b.shift() for i in range(n)] == list(range(n)), "contents")
    return "accepted"


OPS = st.lists(st.tuples(st.sampled_from(["push", "push", "push", "pop", "shift", "shift", "peek"]), st.integers(1, 10)), max_size=25)


def deep(case):
    "Large capacities and long histories, compared in full after every run of calls."
    n, ops = case
    b, model, serial = Buffer(n), deque(), 0
    for op, times in ops:
        for _ in range(times):
            if op == "push" and len(model) < n:
                serial += 1
                b.push(serial)
                model.append(serial)
            elif op != "push" and model:
                got = getattr(b, op)()
                want = model.pop() if op == "pop" else model.popleft()
                need(got == want, "{} gave {}, expected {}", op, got, want)
            need(bool(b.isfull()) == (len(model) == n) and bool(b.isempty()) == (not model), "with {} of {} elements: full {}, empty {}", len(model), n, b.isfull(), b.isempty())
        need(re.findall(r"\d+", str(b)) == list(map(str, model)), "str is {}, contents {}", b, list(model))
    return "wrapped" if serial > 2 * n else False


FACETS = [
    Facet("deep", lambda: st.tuples(st.sampled_from([16, 64, 128, 256, 512]), st.lists(st.tuples(st.sampled_from(["push", "push", "pop", "shift"]), st.integers(1, 600)), min_size=6, max_size=20)), deep,
          "capacities up to 512 and thousands of calls; non-trivial once the indices wrapped", 120, budget=30000000),
    Facet("history", lambda: st.tuples(st.sampled_from([1, 2, 4, 8, 16, 32]), OPS), history,
          "operation sequences (with repetition, up to 250 calls) on capacities 1..32, compared after every call; non-trivial once something was pushed", 2500, weight=3),
    Facet("values", lambda: st.tuples(st.sampled_from([1, 2, 4, 8, 16, 64]),
                                      st.lists(st.none() | st.integers(-2, 2) | st.booleans() | st.text(max_size=2) | st.tuples(), min_size=1, max_size=20),
                                      st.integers(0, 2 ** 8)), values, "arbitrary objects drained from both ends", 3000),
    Facet("capacity", lambda: st.integers(1, 70) | st.integers(0, 10).map(lambda i: 1 << i) | st.integers(1, 1500), capacity, "capacities 1..1500", 600, weight=.5),
]
