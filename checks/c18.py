from hypothesis import assume, strategies as st
from vlib import gen
from vlib.engine import Facet, close, fail, need, num
from coral import names

ASSUMPTIONS = ["relative error and mapping are used on non-empty strings", "the Winkler prefix weight is 0.1"]

word = st.one_of(st.text("ab", max_size=8), st.text("abc*", max_size=9), st.text("abcdefgh ", max_size=12),
                 st.text(st.characters(exclude_categories=["Cs"]), max_size=6), st.sampled_from(["", "*", "São Paulo", "MARTHA", "MARHTA", "DIXON", "DICKSONX"]))


@st.composite
def pair(draw):
    a = draw(word)
    if draw(st.integers(0, 2)) == 0:
        return a, draw(word)
    b = list(a)
    for _ in range(draw(st.integers(0, 4))):
        k = draw(st.sampled_from("idstt"))
        i = draw(st.integers(0, max(0, len(b))))
        if k == "i":
            b.insert(i, draw(st.sampled_from("abc*z")))
        elif k == "d" and i < len(b):
            del b[i]
        elif k == "s" and i < len(b):
            b[i] = draw(st.sampled_from("abc*z"))
        elif k == "t" and i + 1 < len(b):
            b[i], b[i + 1] = b[i + 1], b[i]
    return a, "".join(b)


def osa(a, b):
    d = [[i + j for j in range(len(b) + 1)] for i in range(len(a) + 1)]
    for i in range(1, len(a) + 1):
        for j in range(1, len(b) + 1):
            r = min(d[i - 1][j] + 1, d[i][j - 1] + 1, d[i - 1][j - 1] + (a[i - 1] != b[j - 1]))
            if i > 1 and j > 1 and a[i - 1] == b[j - 2] and a[i - 2] == b[j - 1]:
                r = min(r, d[i - 2][j - 2] + 1)
            d[i][j] = r
    return d[-1][-1]


def edit(case):
    a, b = case
    want = osa(a, b)
    for x, y in ((a, b), (b, a)):
        got = names.damlev(x, y)
        need(got == want, "damlev({!r}, {!r}) = {}, the distance is {}", x, y, got, want)
    need((want == 0) == (a == b), "oracle")
    if a or b:
        close(names.strerr(a, b), 2 * want / (len(a) + len(b)), 1e-12, "strerr({!r}, {!r})".format(a, b))
    return "swap" if want and sorted(a) == sorted(b) else None if want else False


def ref_jaro(a, b):
    w = max(0, max(len(a), len(b)) // 2 - 1)
    fa, fb = [False] * len(a), [False] * len(b)
    for i, c in enumerate(a):
        for j in range(len(b)):
            if abs(i - j) <= w and not fb[j] and b[j] == c:
                fa[i] = fb[j] = True
                break
    m = sum(fa)
    if not m:
        return 0.0
    x = [c for c, f in zip(a, fa) if f]
    y = [c for c, f in zip(b, fb) if f]
    t = sum(p != q for p, q in zip(x, y)) / 2
    return (m / len(a) + m / len(b) + (m - t) / m) / 3


def jaro(case):
    a, b = case
    want = ref_jaro(a, b)
    got = num(names.jaro(a, b), "jaro({!r}, {!r})".format(a, b))
    close(got, want, 1e-12, "jaro({!r}, {!r})".format(a, b))
    close(names.jaro(b, a), got, 1e-12, "jaro({!r}, {!r}) the other way round".format(a, b))
    need(0 <= got <= 1 + 1e-12, "jaro out of range: {}", got)
    if a and a == b:
        close(got, 1, 1e-12, "jaro of equal strings")
    if not set(a) & set(b):
        close(got, 0, 1e-12, "jaro without common characters")
    n = 0
    while n < min(4, len(a), len(b)) and a[n] == b[n]:
        n += 1
    close(names.jaro_winkler(a, b), want + n * .1 * (1 - want), 1e-12, "jaro_winkler({!r}, {!r})".format(a, b))
    return "{} matching".format("some" if want < 1 else "all") if want else False


def mapping(case):
    keys, values = case
    got = names.mapping(list(keys), list(values))
    need(sorted(m.key for m in got) == sorted(keys), "keys {} map as {}", keys, got)
    for m in got:
        errs = [2 * osa(m.key, v) / (len(m.key) + len(v)) for v in values]
        need(m.value in values, "{!r} is not among the values {}", m.value, values)
        mine = 2 * osa(m.key, m.value) / (len(m.key) + len(m.value))
        need(mine <= min(errs) + 1e-12, "{!r} maps to {!r} with error {}, {} is attainable", m.key, m.value, mine, min(errs))
        close(m.score, 1 - mine, 1e-12, "score of {!r} -> {!r}".format(m.key, m.value))
    sc = [m.score for m in got]
    need(all(a >= b for a, b in zip(sc, sc[1:])), "scores are not in descending order: {}", sc)
    return "several" if len(keys) > 1 and len(values) > 1 else False


@st.composite
def longpair(draw):
    r, n = draw(gen.seeds), draw(st.integers(10, 140))
    letters = draw(st.sampled_from(["ab", "abcd", "abcdefghijklmnopqrstuvwxyz ", "ab*"]))
    a = [r.choice(letters) for _ in range(n)]
    if draw(st.integers(0, 2)) == 0:
        return "".join(a), "".join(r.choice(letters) for _ in range(draw(st.integers(0, 140))))
    b = list(a)
    for _ in range(draw(st.integers(0, 12))):
        i = r.randrange(len(b))
        k = r.randrange(5)
        if k == 0:
            b.insert(i, r.choice(letters))
        elif k == 1 and len(b) > 1:
            del b[i]
        elif k == 2:
            b[i] = r.choice(letters)
        elif i + 1 < len(b):
            b[i], b[i + 1] = b[i + 1], b[i]
    return "".join(a), "".join(b)


@st.composite
def manykeys(draw):
    r = draw(gen.seeds)
    letters = draw(st.sampled_from(["ab", "abcdefgh", "abc "]))
    mk = lambda n: ["".join(r.choice(letters) for _ in range(r.randint(1, 8))) for _ in range(n)]
    return mk(draw(st.integers(1, 40))), mk(draw(st.integers(1, 40)))


nonempty = st.text("abc", min_size=1, max_size=5) | st.text("abcdefgh *", min_size=1, max_size=10)
FACETS = [
    Facet("edit", pair, edit, "unrelated strings and strings derived by up to 4 edits; differing", 5000),
    Facet("jaro", pair, jaro, "as edit; with common characters", 6000),
    Facet("mapping", lambda: st.tuples(st.lists(nonempty, min_size=1, max_size=5), st.lists(nonempty, min_size=1, max_size=5)), mapping, "1..5 keys and values, more than one of each", 3000),
    Facet("long", longpair, edit, "strings of 10..140 characters, derived by up to 12 edits or unrelated; differing", 100),
    Facet("longjaro", longpair, jaro, "as long; with common characters", 400),
    Facet("manykeys", manykeys, mapping, "up to 40 keys and values, more than one of each", 60, budget=30000000),
]
