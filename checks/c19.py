import unicodedata
from itertools import combinations
from hypothesis import assume, strategies as st
from vlib import gen
from vlib.engine import Facet, Violation, fail, need
from coral import names

ASSUMPTIONS = ["names are words separated by single spaces; extra words never stand next to each other, first or last in a name",
               "an abbreviation may leave the initial or word initials only if every candidate keeping them is already an abbreviation of another name"]

MARKS = {"\u0300", "\u0301", "\u0302", "\u0303", "\u0308"}


def fold(c):
    d = unicodedata.normalize("NFD", c)
    if len(d) == 2 and (d[0] in "aeiouAEIOU" and d[1] in MARKS or d[0] in "cC" and d[1] == "\u0327"):
        return d[0]
    return c


accented = "áàãâäéèẽêëíìĩîïóòõôöúùũûüçÁÀÃÂÄÉÈẼÊËÍÌĨÎÏÓÒÕÔÖÚÙŨÛÜÇ"
near = "ñýÿåāăőœæçćčşğøđÑÝÅŠžż\u0301\u0327\u0303ıſßΆά"


def folding(s):
    got = names.ascii(s)
    want = "".join(map(fold, s))
    need(got == want, "{!r} folds to {!r}, expected {!r}", s, got, want)
    need(names.ascii(got) == got, "folding {!r} again changes it", got)
    return None if got != s else False


letters = st.text("abcdeABE", min_size=1, max_size=5) | st.text("ab", min_size=1, max_size=3) | st.text("aáãbcçdeéêõoúz", min_size=1, max_size=6) | st.text("abcdefghijklmnopqrstuvwxyz", min_size=1, max_size=7)


@st.composite
def namelist(draw):
    extras = draw(st.sampled_from([[], [], ["DE"], ["DE", "DO", "E"]]))
    out = []
    for _ in range(draw(st.integers(1, 7))):
        ws = draw(st.lists(letters, min_size=1, max_size=3))
        ws = [w for w in ws if names_norm(w) not in extras] or ["ab"]
        name = ws[0]
        for w in ws[1:]:
            if extras and draw(st.booleans()):
                name += " " + draw(st.sampled_from(extras)).lower()
            name += " " + w
        if len(name) <= 16:
            out.append(name)
    out = list(dict.fromkeys(out)) or ["abc"]
    return out, draw(st.integers(1, 5)), extras


def names_norm(s):
    return "".join(map(fold, s.upper()))


def subsequence(a, s):
    it = iter(s)
    return all(c in it for c in a)


def abbreviate(case):
    lst, length, extras = case
    short = {}
    for n in lst:
        ws = names_norm(n).split(" ")
        short[n] = " ".join(w for i, w in enumerate(ws) if not (0 < i < len(ws) - 1 and w in extras))

    def cands(s, keep):
        "All strings of the given length taken from s that use the positions in keep."
        rest = [i for i, c in enumerate(s) if c != " " and i not in keep]
        for comb in combinations(rest, length - len(keep)):
            yield "".join(s[i] for i in sorted(comb + keep))
    try:
        got = names.abbreviations(list(lst), length, extras) if extras else names.abbreviations(list(lst), length)
    except Violation:
        raise
    except Exception as e:
        need("unable" in str(e), "failed with {!r}", e)
        need(any(len(s) > length and len(set(cands(s, ()))) <= len(lst) - 1 for s in short.values()),
             "{} at length {}: said to be impossible, but every name has more candidates than there are names", lst, length)
        return "unable"
    need(sorted(got) == sorted(lst), "names {} are answered as {}", lst, got)
    vals = list(got.values())
    some = False
    for n, a in got.items():
        s = short[n]
        need(len(a) <= length, "{!r} for {!r} exceeds {}", a, n, length)
        need(subsequence(a, names_norm(n)), "{!r} does not occur in {!r}", a, n)
        if len(s) <= length:
            need(a == s, "{!r} fits in {} but becomes {!r}", s, length, a)
            continue
        some = True
        need(len(a) == length, "{!r} for {!r} is shorter than {}", a, n, length)
        need(vals.count(a) == 1, "{!r} stands for several of {}", a, got)
        others = set(vals)
        if a[0] != s[0]:
            need(all(c in others for c in cands(s, (0,))), "{!r} for {!r} does not start with the initial", a, n)
        ini = tuple([0] + [i + 1 for i, c in enumerate(s) if c == " "])[:length]
        mine = set(cands(s, ini))
        if a not in mine:
            need(mine <= others, "{!r} for {!r} leaves out word initials, {} are free", a, n, sorted(mine - others)[:3])
    return None if some else False


@st.composite
def manynames(draw):
    r = draw(gen.seeds)
    letters = draw(st.sampled_from(["abcde", "abcdefghijklmnopqrst", "ab", "aáãbcçdeé"]))
    extras = draw(st.sampled_from([[], ["DE", "DO"]]))
    out = []
    for _ in range(draw(st.integers(8, 60))):
        ws = ["".join(r.choice(letters) for _ in range(r.randint(3, 6))) for _ in range(r.randint(1, 3))]
        name = ws[0]
        for w in ws[1:]:
            name += (" " + r.choice(extras).lower() if extras and r.random() < .5 else "") + " " + w
        if len(name) <= 16:
            out.append(name)
    return list(dict.fromkeys(out)) or ["abc"], draw(st.integers(2, 4)), extras


FACETS = [
    Facet("folding", lambda: st.text(accented, max_size=8) | st.text(accented + near + "abcXYZ 019", max_size=10) | st.text(st.characters(exclude_categories=["Cs"]), max_size=8), folding,
          "strings of accented, similar and arbitrary characters; something folded", 4000),
    Facet("abbreviations", namelist, abbreviate, "1..7 similar names with accents and extra words at lengths 1..5; some name had to be shortened", 3000, weight=2, budget=20000000),
    Facet("many", manynames, abbreviate, "8..60 names at lengths 2..4; some name had to be shortened", 60, budget=100000000),
    Facet("longtext", lambda: st.builds(lambda r, n: "".join(r.choice(accented + near + "abcXYZ 019") for _ in range(n)), gen.seeds, gen.sizes), folding, "strings of 16..513 characters; something folded", 200),
]
