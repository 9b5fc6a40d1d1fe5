import os
import subprocess
import sys
from hypothesis import strategies as st
from vlib import engine, gen, projs
from vlib.engine import Facet, Scratch, VERIF, need
from checks import c06, c11, c12, c13, c15, c16, c18, c19, c20, c23, c24, c26, c30, c31, c33, c34

ASSUMPTIONS = ["the date of writing in attribute tables is left out of account",
               "results of coral.stats are compared by C29, since equal arguments of different type share their answers"]


class Server:
    "A Python process of its own with a given hash seed."
    made = {}

    def __init__(self, name, seed, env={}, options=[]):
        d = Scratch.path("server-" + name)
        os.makedirs(d, exist_ok=True)
        env = dict(os.environ, **(env or {"PYTHONHASHSEED": str(seed)}))
        self.p = subprocess.Popen([sys.executable] + options + [os.path.join(VERIF, "vlib", "repro.py"), d], stdin=subprocess.PIPE, stdout=subprocess.PIPE,
                                  stderr=subprocess.DEVNULL, env=env)

    @classmethod
    def get(cls, name, seed, env={}, options=[]):
        if name not in cls.made:
            cls.made[name] = cls(name, seed, env, options)
        return cls.made[name]

    def send(self, op):
        line = repr(op).encode("utf8", "surrogateescape")
        if b"\n" in line:
            raise RuntimeError("line break in an operation")
        try:
            self.p.stdin.write(line + b"\n")
            self.p.stdin.flush()
        except BrokenPipeError:
            raise engine.Infra("a process performing operations has ended")

    def answer(self):
        line = self.p.stdout.readline()
        if not line:
            raise engine.Infra("a process performing operations has ended")
        return line.decode("utf8").rstrip("\n")


def facet(mod, name):
    f = [f for f in mod.FACETS if f.name == name][0]
    return st.tuples(st.just(mod.__name__.split(".")[-1].upper()), st.just(name), st.deferred(f.strategy))


def value(name, strategy):
    return st.tuples(st.just("value"), st.just(name), strategy)


def projected():
    return st.tuples(projs.config(), st.lists(gen.geo, min_size=1, max_size=6))


def operation():
    return st.one_of(
        facet(c11, "saveload"), facet(c12, "cache"), facet(c15, "roundtrip"), facet(c16, "roundtrip"), facet(c20, "pixels"),
        facet(c23, "write"), facet(c24, "attributes"), facet(c26, "editor"), facet(c30, "trip"), facet(c33, "history"), facet(c34, "boxes"),
        value("abbreviations", c19.namelist()), value("mapping", c18.FACETS[2].strategy()),
        value("join", c31.joinable()), value("join", c31.joinable()), value("geocentroid", c06.FACETS[0].strategy()),
        value("simplify", st.tuples(st.lists(st.tuples(st.integers(-9, 9), st.integers(-9, 9)), max_size=20), st.sampled_from([1, 2, 0.5]), st.booleans())),
        value("project", projected()),
        value("navigate", st.tuples(gen.geo, gen.geo, st.sampled_from([1, 1000, 5e6]))),
        value("gradient", st.tuples(c13.stops, st.lists(st.floats(0, 1), min_size=1, max_size=4))),
    )


def family(op):
    return op[1] if op[0] == "value" else op[0]


def same(case):
    op, before = case
    a, b = Server.get("a", 0), Server.get("b", 4711)
    a.send(op)
    for o in before + [op, op]:
        b.send(o)
    first = a.answer()
    for _ in before:
        b.answer()
    for k in ("after other operations", "repeated"):
        got = b.answer()
        need(got == first, "{} {}, in another process: {}; first: {}", family(op), k, got[:300], first[:300])
    if first.startswith("raised UnsatisfiedAssumption"):
        return False
    return family(op)


@st.composite
def cases(draw):
    op = draw(operation())
    before = draw(st.lists(operation(), max_size=2))
    if draw(st.integers(0, 2)) == 0:
        # others of the same kind
        before += [o for o in draw(st.lists(operation(), max_size=6)) if o[:2] == op[:2]]
    return op, before


def bulk():
    big = st.one_of(facet(c31, "bigjoin"), value("join", c31.bigjoin()), facet(c16, "many"), facet(c23, "bulk"), facet(c24, "bulk"), facet(c33, "bulk"), facet(c30, "bulk"), facet(c19, "many"),
                    value("mapping", c18.manykeys()))
    return st.tuples(big, st.lists(operation(), max_size=1))


FACETS = [
    Facet("same", cases, same, "one of twenty kinds of operations, performed in a process of its own, and twice in another one with another hash seed after 0..8 other operations; performed at all", 1600),
    Facet("bulk", bulk, same, "as same, with large inputs; performed at all", 60, budget=60000000),
]
