import os
import sys
from hypothesis import strategies as st
from vlib import gen, projs
from vlib.engine import Facet, need
from checks import c03, c11, c12, c13, c14, c15, c16, c17, c23, c24, c26, c30, c31, c33, c35, c37, c38, c39

ASSUMPTIONS = ["paths are ASCII; whether other names can be opened depends on the system, not on the library",
               "the date of writing in attribute tables is left out of account",
               "locales present: C with its ASCII encoding, and C.UTF-8"]

ASCII = {"LC_ALL": "C", "LANG": "C", "PYTHONUTF8": "0", "PYTHONCOERCECLOCALE": "0"}
UTF8 = {"LC_ALL": "C.UTF-8", "LANG": "C.UTF-8", "PYTHONUTF8": "0"}
SURROUNDINGS = {
    "base": (dict(UTF8, TZ="UTC", PYTHONHASHSEED="0"), []),
    "ascii": (dict(ASCII, TZ="UTC", PYTHONHASHSEED="0"), []),
    "optimised": (dict(UTF8, TZ="UTC", PYTHONHASHSEED="0"), ["-O"]),
    "elsewhere": (dict(ASCII, TZ="XYZ-13:45", PYTHONHASHSEED="99", HOME="/nonexistent", COLUMNS="20", LINES="5", TERM="dumb", NO_COLOR="1", USER="nobody", TMPDIR="/tmp", PYTHONIOENCODING="latin-1"), ["-OO"]),
    "isolated": (dict(UTF8, TZ="America/Sao_Paulo", LC_NUMERIC="pt_BR.UTF-8", PYTHONHASHSEED="5"), ["-X", "dev", "-W", "ignore"]),
}


def ask(name, op):
    env, options = SURROUNDINGS[name]
    s = c37.Server.get("env-" + name, None, env, options)
    s.send(op)
    return s


def same(case):
    op, others = case
    servers = [(n, ask(n, op)) for n in ["base"] + others]
    answers = [(n, s.answer()) for n, s in servers]
    first = answers[0][1]
    for n, a in answers[1:]:
        need(a == first, "{}: {} in the surroundings {}, otherwise {}", c37.family(op), a[:300], n, first[:300])
    if first.startswith("raised UnsatisfiedAssumption"):
        return False
    return c37.family(op)


facet, value = c37.facet, c37.value
word = st.text("abcXYZ éãçß日€\u00a0Ω-'.", min_size=1, max_size=8).map(str.strip).filter(bool)
name = st.one_of(word, st.sampled_from(["São Paulo", "Curaçao", "Åland", "ascii", "Ñuñoa", "東京"]))
anchors = "c t tr r br b bl l tl".split()
ink = st.none() | st.sampled_from([.5, (0, .5, 1)])
integer = st.integers(-5, 5) | st.sampled_from([0, 1, 255, 256, 65535, 65536, 2 ** 32, -300])


def field():
    lim = st.tuples(integer, integer)
    return st.one_of(
        st.tuples(st.just("I"), st.tuples(lim, st.booleans()).map(lambda t: t[0] + (t[1],))),
        st.tuples(st.just("F"), st.tuples(lim, st.sampled_from([1, 2, 4, 8, 3]), st.booleans()).map(lambda t: t[0] + t[1:])),
        st.tuples(st.just("S"), st.tuples(st.integers(1, 4), st.booleans())))


def fieldcase():
    v = integer | st.none() | st.sampled_from([.5, "", "ab", "abcde", "é", "ééé"])
    return st.tuples(field(), st.lists(v, min_size=1, max_size=6), st.lists(st.lists(st.sampled_from([0, 1, 254, 255]), min_size=1, max_size=8), max_size=3)).map(
        lambda t: (t[0][0], t[0][1], t[1], t[2]))


def foreign():
    head = st.sampled_from([b"PF\x00", b"PF\x00\x02", b"PF\x00\x03", b"PF\x01\x02", b"FP\x00\x02", b"PG\x00\x01", b"RG\x01\x01", b"RG\x02\x01", b"GR\x01\x01", b"RG\x01\x00", b"\x03", b"\x00\x00'\n", b"{", b"[]", b"{}", b""])
    rest = st.one_of(st.just(b""), st.binary(max_size=40), st.lists(st.sampled_from([b"\0", b"\0\0\0\0", b"\1", b"\2", b"a", b"name\0", b"\r", b" ", b"N", b"\x80", b"\xff"]), max_size=25).map(b"".join))
    md = st.sampled_from([b"", b"0\n", b"1\n0 1\n0\n", b"1\na 1\n1\n", b"1\na 2\n1\n", b"1\na 1\n1 1\n", b"2\na 0\n\nb 1\n1\n", b"1\n\xc3\xa9 0\n\n", b"1\n\xe9 0\n\n"])
    return st.tuples(st.sampled_from(["pf", "rg", "rg", "frame", "dbf", "shp"]), st.tuples(head, rest).map(b"".join), md)


def operation():
    return st.one_of(
        value("names", st.tuples(projs.config(), st.just(0), st.lists(name, min_size=1, max_size=5))),
        value("index", st.tuples(st.lists(name, min_size=1, max_size=5, unique=True))),
        value("page", st.tuples(ink, st.lists(st.tuples(name, st.sampled_from(["Courier", "Times-Bold"]), st.sampled_from(anchors)), min_size=1, max_size=4))),
        value("text", st.integers(1, 3).flatmap(lambda n: st.tuples(st.lists(st.sampled_from(["a", "b", "c", "ação", "größe"]), min_size=n, max_size=n, unique=True),
                                                                    st.lists(st.lists(name, min_size=n, max_size=n), min_size=1, max_size=4)))),
        value("pprint", st.integers(1, 3).flatmap(lambda n: st.tuples(st.lists(st.sampled_from(["a", "b", "c", "longer"]), min_size=n, max_size=n, unique=True),
                                                                      st.lists(st.lists(name, min_size=n, max_size=n), min_size=1, max_size=4)))),
        value("meter", st.tuples(st.integers(0, 30), st.just("") | name, st.booleans())),
        value("buffer", st.tuples(st.sampled_from([1, 2, 4, 8, 3, 6]), st.lists(st.sampled_from(["push", "push", "pop", "shift", "peek"]), min_size=1, max_size=12))),
        value("field", fieldcase()), value("field", fieldcase()),
        value("foreign", foreign()), value("foreign", foreign()),
        value("anchors", st.tuples(st.lists(st.sampled_from(anchors + ["", "x", "lt", "C", "rt", "tt"]), min_size=1, max_size=5))),
        facet(c03, "history"), facet(c14, "ints"), facet(c14, "reals"), facet(c14, "strings"), facet(c14, "rows"),
        facet(c17, "pfaltered"), facet(c17, "rgaltered"), facet(c38, "rgwrite"), facet(c38, "pfwrite"), facet(c38, "shpwrite"), facet(c38, "drawing"), facet(c38, "pixels"),
        facet(c39, "missing"), facet(c12, "cache"), facet(c35, "recipe"), facet(c24, "attributes"), facet(c23, "write"), facet(c30, "trip"),
        c37.operation(), c37.operation())


def cases():
    return st.tuples(operation(), st.lists(st.sampled_from([k for k in SURROUNDINGS if k != "base"]), min_size=1, max_size=4, unique=True))


def bulk():
    big = st.one_of(facet(c16, "many"), facet(c23, "bulk"), facet(c24, "bulk"), facet(c33, "bulk"), facet(c30, "bulk"), facet(c17, "rgcut"), facet(c39, "cut"),
                    value("names", st.tuples(projs.config(), st.just(0), st.lists(name, min_size=20, max_size=80))))
    return st.tuples(big, st.just(["elsewhere"]) | st.just(["ascii", "optimised"]))


FACETS = [
    Facet("same", cases, same, "one of over thirty kinds of operations, performed in 2..5 processes that differ in locale, character encoding, time zone, optimisation level and directory; performed at all", 1500, budget=30000000, weight=2),
    Facet("bulk", bulk, same, "as same, with large inputs; performed at all", 40, budget=60000000),
]
