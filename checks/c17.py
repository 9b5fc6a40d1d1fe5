import io
import os
from hypothesis import assume, strategies as st
from vlib.engine import Budget, Facet, Scratch, Violation, fail, need
from checks import c15, c16
from coral import pf, rg

ASSUMPTIONS = ["cuts of the RangeGrid index may also be read as exactly the written data (trailing line breaks are redundant)",
               "as in C15 and C16 for the intact files; files of up to 400 bytes are cut at every byte, longer ones at 60 generated and 40 fixed places"]


def places(n, fr):
    if n <= 400:
        return range(n)
    return sorted({min(n - 1, int(f * n)) for f in fr} | set(range(20)) | set(range(n - 20, n)))


def put(path, data):
    with open(path, "wb") as f:
        f.write(data)


def get(path):
    with open(path, "rb") as f:
        return f.read()


def refused(func, what):
    try:
        r = func()
    except (Violation, Budget):
        raise
    except Exception:
        return
    fail("{}: read without an error: {!r}", what, r)


def pfall(path):
    r = pf.Reader(path)
    try:
        return [(r.names[i], r.read(i)) for i in range(len(r))]
    finally:
        r.close()


def pfcut(case):
    ents, size, fr = case
    assume(c16.usable(ents))
    d = Scratch.fresh()
    path, cut = os.path.join(d, "a.p"), os.path.join(d, "b.p")
    c16.store(path, ents, size)
    data = get(path)
    need(len(pfall(path)) == len(ents), "intact file: {} entities", len(pfall(path)))
    for n in places(len(data), fr):
        put(cut, data[:n])
        refused(lambda: pfall(cut), "PF file of {} bytes cut to {}".format(len(data), n))
    return "size {}".format(size)


def pfalter(case):
    ents, size, pos, value = case
    assume(c16.usable(ents))
    d = Scratch.fresh()
    path = os.path.join(d, "a.p")
    c16.store(path, ents, size)
    data = bytearray(get(path))
    assume(data[pos] != value)
    data[pos] = value
    put(path, bytes(data))
    refused(lambda: pfall(path), "PF file with byte {} set to {}".format(pos, value))


def rgall(path, ents):
    r = rg.Reader(path)
    try:
        return [r.read() for _ in ents]
    finally:
        r.close()


def rgcut(case):
    (cols, ents), fr, fm = case
    d = Scratch.fresh()
    a, b = os.path.join(d, "a"), os.path.join(d, "b")
    c15.write(a, cols, ents)
    whole = rgall(a, ents)
    data, index = get(a + ".rg"), get(a + ".md")
    put(b + ".md", index)
    for n in places(len(data), fr):
        put(b + ".rg", data[:n])
        refused(lambda: rgall(b, ents), "RG file of {} bytes cut to {}".format(len(data), n))
        refused(lambda: [rg.Reader(b).read(c15.key(i, e[0])) for i, e in enumerate(ents)], "RG file of {} bytes cut to {}, by identifier".format(len(data), n))
    put(b + ".rg", data)
    for n in places(len(index), fm):
        put(b + ".md", index[:n])
        try:
            got = rgall(b, ents)
        except (Violation, Budget):
            raise
        except Exception:
            continue
        need(got == whole, "index of {} bytes cut to {}: read as {!r}, written {!r}", len(index), n, got, whole)
    put(b + ".md", index)
    need(rgall(b, ents) == whole, "restored file")
    return None if sum(len(s) for _, ss in ents for s in ss) else "no rows"


def rgalter(case):
    (cols, ents), pos, value = case
    a = os.path.join(Scratch.fresh(), "a")
    c15.write(a, cols, ents)
    data = bytearray(get(a + ".rg"))
    assume(data[pos] != value)
    data[pos] = value
    put(a + ".rg", bytes(data))
    refused(lambda: rgall(a, ents), "RG file with byte {} set to {}".format(pos, value))


def encode(v):
    out = [v & 127]
    v >>= 7
    while v:
        out.append(v & 127 | 128)
        v >>= 7
    return bytes(reversed(out))


def vlv(case):
    mod, values, tail = case
    m = {"pf": pf, "rg": rg}[mod]
    f = io.BytesIO()
    g = io.BytesIO()
    for v in values:
        a = f.tell()
        m.writevlv(f, abs(v))
        need(f.getvalue()[a:] == encode(abs(v)), "{} encodes to {!r}, base 128 is {!r}", abs(v), f.getvalue()[a:], encode(abs(v)))
        m.writesvlv(g, v)
    f = io.BytesIO(f.getvalue() + tail)
    g = io.BytesIO(g.getvalue() + tail)
    for v in values:
        got = m.readvlv(f)
        need(got == abs(v), "{} decodes to {}", abs(v), got)
        got = m.readsvlv(g)
        need(got == v, "signed {} decodes to {}", v, got)
    need(f.read() == tail and g.read() == tail, "bytes left over after decoding")
    # cut short
    e = encode(abs(values[0]))
    for n in range(len(e)):
        refused(lambda: m.readvlv(io.BytesIO(e[:n])), "{!r} cut to {}".format(e, n))
    return "long" if any(abs(v) > 127 for v in values) else None


integer = st.one_of(st.integers(-300, 300), st.sampled_from([s * (128 ** k + d) for k in range(1, 10) for d in (-1, 0, 1) for s in (1, -1)]), st.integers(-2 ** 80, 2 ** 80))
byte = st.sampled_from([0, 1, 2, 255, ord("P"), ord("p"), ord("R"), ord("F"), ord("G")]) | st.integers(0, 255)
fr = st.lists(st.floats(0, 1), min_size=5, max_size=60)
size = st.sampled_from([1, 2, 4, 8])

FACETS = [
    Facet("pfcut", lambda: st.tuples(c16.entities(False), size, fr), pfcut, "PF files of 1..4 entities, each cut at every byte", 200, weight=3, budget=20000000),
    Facet("pfaltered", lambda: st.tuples(c16.entities(False), size, st.integers(0, 2), byte), pfalter, "signature or version byte replaced", 800),
    Facet("rgcut", lambda: st.tuples(c15.dataset(), fr, fr), rgcut, "data and index file, each cut at every byte", 250, weight=4, budget=20000000),
    Facet("rgaltered", lambda: st.tuples(c15.dataset(), st.integers(0, 2), byte), rgalter, "signature or version byte replaced", 600),
    Facet("vlv", lambda: st.tuples(st.sampled_from(["pf", "rg"]), st.lists(integer, min_size=1, max_size=6), st.binary(max_size=3)), vlv,
          "1..6 integers around powers of 128, in both modules, signed and unsigned, with bytes following", 4000),
]
