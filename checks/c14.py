import struct
from hypothesis import assume, strategies as st
from vlib.engine import Facet, Violation, close, fail, need, num, raises
from coral import grid

ASSUMPTIONS = ["string fields have at least one byte and their values do not end in NUL",
               "reals are compared to half a step plus float rounding (8 ulps of the range's magnitude)",
               "a refusal is any exception raised by encode"]

edges = [0, 1, 2, 100, 253, 254, 255, 256, 65533, 65534, 65535, 65536, 2 ** 32 - 3, 2 ** 32 - 2, 2 ** 32 - 1, 2 ** 32, 2 ** 64 - 3, 2 ** 64 - 2, 2 ** 64 - 1, 2 ** 63]
delta = st.sampled_from([e for e in edges if e > 0]) | st.integers(1, 2 ** 64 - 2)
minv = st.sampled_from([0, -128, -1, 1, -2 ** 31, -2 ** 63, 10 ** 12]) | st.integers(-1000, 1000) | st.integers(-2 ** 70, 2 ** 70)


@st.composite
def ivar(draw):
    nullable = draw(st.booleans())
    lo, d = draw(minv), draw(delta)
    d = min(d, 2 ** 64 - 1 - nullable)
    vals = draw(st.lists(st.integers(0, d) | st.integers(0, min(d, 300)) | st.integers(max(0, d - 300), d), max_size=5))
    return lo, lo + d, nullable, [lo + v for v in vals] + [lo, lo + d]


def isize(d, nullable):
    for n in (1, 2, 4, 8):
        if d + 1 + nullable <= 256 ** n:
            return n


def ints(case):
    lo, hi, nullable, values = case
    f = grid.IVar("f", lo, hi, nullable)
    n = isize(hi - lo, nullable)
    need(f.size == n, "integers in {}..{}{} take {} bytes, {} suffice", lo, hi, " or null" if nullable else "", f.size, n)
    codes = {}
    for v in values:
        e = f.encode(v)
        need(isinstance(e, bytes) and len(e) == n, "{} encodes to {!r}, the size is {}", v, e, n)
        d = f.decode(e)
        need(d == v and isinstance(d, int), "{} in {}..{} decodes to {!r}", v, lo, hi, d)
        codes[e] = v
        need(int.from_bytes(e, "big") == v - lo, "{} in {}..{} encodes to {!r}: not the big-endian offset", v, lo, hi, e)
    need(len(codes) == len(set(values)), "two values share an encoding")
    if nullable:
        e = f.encode(None)
        need(len(e) == n and e not in codes, "null encodes to {!r}, like {}", e, codes.get(e))
        need(f.decode(e) is None, "null decodes to {!r}", f.decode(e))
    else:
        raises(Exception, f.encode, None, what="null in a non-nullable integer field")
    for v in (lo - 1, hi + 1, lo - 1000, hi + 1000, lo - 2 ** 65, hi + 2 ** 65):
        raises(Exception, f.encode, v, what="{} in {}..{}".format(v, lo, hi))
    return "{} bytes".format(n)


def toobig(case):
    lo, extra, nullable = case
    d = 2 ** 64 - nullable + extra
    raises(Exception, grid.IVar, "f", lo, lo + d, nullable, what="integer range that fits no size")


real = st.integers(-10 ** 6, 10 ** 6).map(lambda i: i / 1000) | st.sampled_from([0, 1, -1, 359, 100, 0.1]) | st.floats(-1e9, 1e9, allow_nan=False)


@st.composite
def fvar(draw):
    a, b = draw(real), draw(real)
    lo, hi = min(a, b), max(a, b)
    assume(hi - lo > 1e-6 * max(1, abs(lo), abs(hi)))
    size = draw(st.sampled_from([1, 2, 4, 8]))
    fr = draw(st.lists(st.floats(0, 1) | st.integers(0, 510).map(lambda i: i / 510) | st.integers(0, 255).map(lambda i: i / 255), max_size=5))
    return lo, hi, size, draw(st.booleans()), [min(hi, max(lo, lo + (hi - lo) * t)) for t in fr] + [lo, hi]


def reals(case):
    lo, hi, size, nullable, values = case
    f = grid.FVar("f", lo, hi, size, nullable)
    need(f.size == size, "size is {}", f.size)
    step = (hi - lo) / (256 ** size - 1 - nullable)
    ulp = max(abs(lo), abs(hi)) * 2.0 ** -52
    codes = set()
    for v in values:
        e = f.encode(v)
        need(isinstance(e, bytes) and len(e) == size, "{} encodes to {!r}", v, e)
        d = num(f.decode(e), "decoded value")
        close(d, v, step / 2 + 8 * ulp, "{} in {}..{} on {} bytes".format(v, lo, hi, size))
        codes.add(e)
        need(lo <= d <= hi, "{} decodes out of range: {}", v, d)
        # decoding is stable
        e2 = f.encode(d)
        if size < 8:
            need(e2 == e, "{} -> {!r} -> {} -> {!r}", v, e, d, e2)
    close(f.decode(f.encode(lo)), lo, 4 * ulp, "lower end")
    close(f.decode(f.encode(hi)), hi, 8 * ulp, "upper end")
    if nullable:
        e = f.encode(None)
        need(len(e) == size and e not in codes, "null encodes to {!r}, like a value", e)
        need(f.decode(e) is None, "null decodes to {!r}", f.decode(e))
    else:
        raises(Exception, f.encode, None, what="null in a non-nullable real field")
    w = hi - lo
    for v in (lo - w, hi + w, lo - w * 1e-3, hi + w * 1e-3):
        raises(Exception, f.encode, v, what="{} in {}..{}".format(v, lo, hi))
    return "{} bytes{}".format(size, " nullable" if nullable else "")


@st.composite
def stored(draw):
    "A field and bytes that may or may not have been written by it."
    if draw(st.booleans()):
        lo, hi, nullable, _ = draw(ivar())
        n = isize(hi - lo, nullable)
        spec = ("I", lo, hi, nullable)
    else:
        lo, hi, n, nullable, _ = draw(fvar() | wide())
        spec = ("F", lo, hi, n, nullable)
    top = 256 ** n - 1
    d = min(top, hi - lo if spec[0] == "I" else top)
    i = st.integers(0, top) | st.integers(max(0, top - 3), top) | st.integers(max(0, d - 3), min(top, d + 3)) | st.integers(0, min(top, 3))
    return spec, draw(st.lists(i, min_size=1, max_size=6))


@st.composite
def wide(draw):
    "Real ranges with whole ends of any size, as RangeGrid files have them."
    lo, d = draw(minv), draw(delta)
    return lo, lo + d, draw(st.sampled_from([1, 2, 4, 8])), draw(st.booleans()), []


def attempt(f):
    try:
        return True, f()
    except Violation:
        raise
    except Exception as e:
        return False, e


def decoding(case):
    (k, lo, hi, *a), codes = case
    f = (grid.IVar if k == "I" else grid.FVar)("f", lo, hi, *a)
    size, nullable = (isize(hi - lo, a[0]), a[0]) if k == "I" else a
    row = grid.GRow(f)
    refused = False
    for c in codes:
        e = c.to_bytes(size, "big")
        ok, v = attempt(lambda: f.decode(e))
        if c == 256 ** size - 1 and nullable:
            need(ok and v is None, "{!r} in {}: null decodes to {!r}", e, case[0], v)
            continue
        if k == "I" and c > hi - lo:
            refused = True
            need(not ok and isinstance(v, ValueError), "{!r} in {}: beyond the range, decodes to {!r}", e, case[0], v)
            raises(ValueError, row.decode, e, what="row with a value out of range")
            continue
        need(ok, "{!r} in {}: {!r}", e, case[0], v)
        need(lo <= num(v, "decoded value") <= hi, "{!r} in {} decodes out of range: {!r}", e, case[0], v)
        back = f.encode(v)
        if k == "I" or (hi - lo) / 256 ** size > 1e-13 * max(abs(lo), abs(hi)):
            need(back == e, "{!r} in {} decodes to {!r}, which encodes to {!r}", e, case[0], v, back)
        need(row.decode(e) == (v,), "row of {!r}", e)
    return k + (" refused" if refused else "")


text = st.text(st.characters(exclude_categories=["Cs"]), max_size=12) | st.text("abcé€\U0001F600 \x00", max_size=12)


def strings(case):
    size, nullable, values = case
    f = grid.SVar("f", size, nullable)
    need(f.size == size, "size is {}", f.size)
    some = False
    for v in values:
        n = len(v.encode("utf8"))
        if n > size:
            raises(Exception, f.encode, v, what="{!r} in a field of {} bytes".format(v, size))
            continue
        if v.endswith("\x00"):
            continue
        some = some or n > 0
        e = f.encode(v)
        need(isinstance(e, bytes) and len(e) == size, "{!r} encodes to {!r}", v, e)
        need(f.decode(e) == v, "{!r} decodes to {!r}", v, f.decode(e))
        if nullable:
            need(e != f.encode(None), "{!r} encodes like null", v)
    if nullable:
        e = f.encode(None)
        need(len(e) == size, "null encodes to {!r}", e)
        need(f.decode(e) is None, "null decodes to {!r}", f.decode(e))
    else:
        raises(Exception, f.encode, None, what="null in a non-nullable string field")
    return None if some else False


@st.composite
def row(draw):
    spec = []
    for i in range(draw(st.integers(1, 6))):
        k = draw(st.sampled_from("IFS"))
        nullable = draw(st.booleans())
        if k == "I":
            lo, hi, nullable, vals = draw(ivar())
            a = (lo, hi, nullable)
        elif k == "F":
            lo, hi, size, nullable, vals = draw(fvar())
            a = (lo, hi, size, nullable)
        else:
            size = draw(st.integers(1, 40))
            vals = draw(st.lists(text, min_size=1, max_size=3))
            vals = [v.encode("utf8")[:size].decode("utf8", "ignore").rstrip("\x00") for v in vals]
            a = (size, nullable)
        v = draw(st.sampled_from(vals + ([None, None] if nullable else [])))
        spec.append((k, a, v))
    return spec


def fields(spec):
    return [{"I": grid.IVar, "F": grid.FVar, "S": grid.SVar}[k]("f%d" % i, *a) for i, (k, a, _) in enumerate(spec)]


def rows(spec):
    fs = fields(spec)
    r = grid.GRow(*fs)
    need(len(r) == len(fs), "the row has {} fields", len(r))
    need(r.size == sum(f.size for f in fs), "row size {}", r.size)
    values = [v for _, _, v in spec]
    e = r.encode(*values)
    need(e == b"".join(f.encode(v) for f, v in zip(fs, values)), "row of {} encodes to {!r}", spec, e)
    d = r.decode(e)
    want = []
    o = 0
    for f in fs:
        want.append(f.decode(e[o:o + f.size]))
        o += f.size
    need(len(d) == len(want) and all(a == b and type(a) is type(b) for a, b in zip(d, want)), "row decodes to {}, fields to {}", d, want)
    for (k, a, v), g in zip(spec, d):
        if k != "F" or v is None:
            need(g == v, "{!r} comes back as {!r} in a row", v, g)
    need(len(e) != r.size or r.encode(*values) == e, "encoding twice differs")
    # damaged rows
    raises(Exception, r.decode, e[:-1], what="row cut short")
    if len(values) > 1:
        raises(Exception, r.encode, *values[:-1], what="row with a missing value")
    raises(Exception, r.encode, *values, values[-1], what="row with a value too many")
    return "{} fields".format(len(fs)) if len(fs) > 1 else None



FACETS = [
    Facet("wide", lambda: st.tuples(row(), st.integers(2, 60)).map(lambda t: (t[0] * t[1])[:140]), rows, "rows of up to 140 fields", 150),
    Facet("ints", ivar, ints, "ranges around the sizes of 1, 2, 4 and 8 bytes with and without null; values at both ends", 5000, weight=2),
    Facet("toobig", lambda: st.tuples(minv, st.integers(0, 1000), st.booleans()), toobig, "ranges beyond 8 bytes", 300, weight=.3),
    Facet("reals", fvar, reals, "all sizes; values at both ends, at and between steps", 4000, weight=2),
    Facet("stored", stored, decoding, "a field and up to six stored numbers, valid or not; every case", 3000),
    Facet("strings", lambda: st.tuples(st.integers(1, 20), st.booleans(), st.lists(text, max_size=5)), strings, "a non-empty string that fits", 3000),
    Facet("rows", row, rows, "1..6 mixed fields with nulls", 3000, weight=2),
]
