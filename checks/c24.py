import datetime
import io
import os
from hypothesis import assume, strategies as st
from vlib import shp as SP
from vlib import gen
from vlib.engine import Facet, Scratch, fail, need
from coral import shapefile

ASSUMPTIONS = ["text has no leading or trailing white space and no NUL (the format pads with blanks)",
               "numbers fit their field; a number with a fraction in a field for whole numbers may come back as any number type",
               "field names are distinct; blanks in them become underscores"]

ALPHA = {"utf-8": "abcXYZ 0129-_.,'éãçÀß€漢字\U0001F600", "latin-1": "abcXYZ 0129-_.éãçÀßÿ", "cp1252": "abcXYZ 0129-_.éã€“”", "cp850": "abcXYZ 0129éãçñÑ", "ascii": "abcXYZ 0129-_.,'\"#"}
NAMES = ["NAME", "POP", "area", "Count", "x", "DATE_1", "TEN_CHARS_", "flag", "Deletion", "DeletionFl", "código", "N2", "i", "value", "ELEVEN_CHAR", "RATHER_A_LONG_NAME", "with blank", "população total", "ééééééé", "aéééééé", "Bevölkerung"]
WIDE = ["漢字漢字", "a漢字漢字", "ab漢字漢字😀"]


def cut(name, enc):
    "What remains of a field name in the ten bytes it has."
    return name.encode(enc)[:10].decode(enc, "ignore").replace(" ", "_")


@st.composite
def field(draw, enc, name):
    t = draw(st.sampled_from("CCNNFDL"))
    if t == "C":
        size = draw(st.integers(1, 12) | st.sampled_from([50, 254, 3]))
        val = st.text(ALPHA[enc], max_size=14).map(str.strip) | st.text(ALPHA[enc], min_size=size, max_size=size + 3).map(str.strip) if size < 60 else st.text(ALPHA[enc], max_size=14).map(str.strip)
        dec = 0
    elif t == "F":
        size, dec = draw(st.integers(3, 20)), draw(st.sampled_from([0, 3, 11]))
        val = (st.integers(-10 ** 7, 10 ** 7).map(lambda i: i / 8) | st.floats(-1e9, 1e9, allow_nan=False) | st.integers(-10 ** 6, 10 ** 6)).map(
            lambda v: v if len(str(v)) <= size else 7)
    elif t == "N":
        size = draw(st.integers(1, 18))
        dec = draw(st.sampled_from([0, 0, 1, 3, 8]))
        if dec:
            val = (st.integers(-10 ** 7, 10 ** 7).map(lambda i: i / 8) | st.floats(-1e9, 1e9, allow_nan=False) | st.integers(-10 ** 6, 10 ** 6)).map(
                lambda v: v if len(str(v)) <= size else 7)
        else:
            val = st.integers(-10 ** (size - 1) + 1, 10 ** size - 1) | st.sampled_from([0, 1])
            if size == 1:
                val = st.integers(0, 9)
            elif size > 3 and draw(st.integers(0, 3)) == 0:
                val |= st.integers(-10 ** (size - 3) + 1, 10 ** (size - 3)).map(lambda i: i / 2).filter(lambda v: len(str(v)) <= size)
    elif t == "D":
        size, dec = 8, 0
        ymd = st.tuples(st.integers(1, 9999) | st.integers(1900, 2100), st.integers(1, 12), st.integers(1, 28))
        val = ymd | ymd.map(list) | ymd.map(lambda v: datetime.date(*v)) | ymd.map(lambda v: datetime.datetime(*v, 13, 5)) | ymd.map(lambda v: "%04d%02d%02d" % v)
    else:
        size, dec = 1, 0
        val = st.sampled_from([True, False, "T", "F", "?", "Y", "N", "t", "y", "n"])
    return (name, t, size, dec), val | st.sampled_from(["", None]) if draw(st.booleans()) else val


def expect(f, v, enc):
    name, t, size, dec = f
    if v is None or v == "" and isinstance(v, str):
        return ""
    if t == "C":
        return v.encode(enc)[:size].decode(enc, "ignore").strip()
    if t in "NF":
        return float(v) if dec else v
    if isinstance(v, datetime.date):
        return [v.year, v.month, v.day]
    if t == "D":
        return [int(v[:4]), int(v[4:6]), int(v[6:])] if isinstance(v, str) else list(v)
    return {"T": "T", "Y": "T", "F": "F", "N": "F"}.get(str(v)[:1].upper(), "?")


@st.composite
def table(draw):
    enc = draw(st.sampled_from(["utf-8", "utf-8", "utf-8", "latin-1", "cp1252", "cp850", "ascii"]))
    names = draw(st.lists(st.sampled_from([n for n in NAMES if enc != "ascii" or n.isascii()] + WIDE * (enc == "utf-8")), min_size=1, max_size=5, unique=True))
    fs = [draw(field(enc, n)) for n in names]
    rows = draw(st.lists(st.tuples(st.sampled_from(["pos", "pos", "kw", "some"]), st.tuples(*[v for _, v in fs]), st.integers(1, 31)), max_size=6))
    return enc, [f for f, _ in fs], rows, draw(st.sampled_from(["path", "file", "dbf"])), draw(st.sampled_from([False, True, False, True, "lower"]))


def attributes(case):
    enc, fields, rows, how, text = case
    w = shapefile.Writer(shapefile.POINT) if enc == "utf-8" else shapefile.Writer(shapefile.POINT, encoding=enc)
    for name, t, size, dec in fields:
        t = t.lower() if text == "lower" else t
        if dec:
            w.field(name, t, str(size) if text else size, dec)
        elif (t, size) == ("C", 50):
            w.field(name)
        else:
            w.field(name, t, str(size) if text else size)
    want = []
    for i, (mode, row, mask) in enumerate(rows):
        w.point(i, -i)
        if mode == "pos":
            w.record(*row)
        else:
            keep = [mode == "kw" or mask >> k & 1 for k in range(len(fields))]
            if not any(keep):
                keep[0] = True
            row = tuple(v if k else "" for v, k in zip(row, keep))
            w.record(**{f[0]: v for f, v, k in zip(fields, row, keep) if k})
        want.append([expect(f, v, enc) for f, v in zip(fields, row)])
    args = {} if enc == "utf-8" else {"encoding": enc}
    if how == "path":
        base = os.path.join(Scratch.fresh(), "out")
        w.save(base)
        with open(base + ".dbf", "rb") as f:
            data = f.read()
        r = shapefile.Reader(base, **args)
    else:
        fs = [io.BytesIO() for _ in range(3)]
        if how == "dbf":
            w.saveDbf(fs[2])
            r = shapefile.Reader(dbf=fs[2], **args)
        else:
            w.save(shp=fs[0], shx=fs[1], dbf=fs[2])
            r = shapefile.Reader(shp=fs[0], shx=fs[1], dbf=fs[2], **args)
        data = fs[2].getvalue()
    # the file, independently
    ff, raw = SP.decode_dbf(data, enc)
    stored = [(cut(f[0], enc),) + f[1:] for f in fields]
    need(ff == stored, "fields in the file {}, written {}", ff, fields)
    need(len(raw) == len(rows), "{} records in the file, written {}", len(raw), len(rows))
    for n, (rr, ww) in enumerate(zip(raw, want)):
        for f, v, u in zip(fields, rr, ww):
            s = v.decode(enc).strip()
            if u == "":
                ok = s == ""
            elif f[1] in "NF":
                ok = float(s) == u if isinstance(u, float) else int(s) == u
            elif f[1] == "D":
                ok = s == "%04d%02d%02d" % tuple(u)
            elif f[1] == "L":
                ok = {"T": "T", "Y": "T", "F": "F", "N": "F"}.get(s.upper(), "?") == u
            else:
                ok = s == u
            need(ok, "record {}: field {} holds {!r}, expected {!r}", n, f, v, u)
    # the reader
    got = [tuple(f) for f in r.fields if f[0] != "DeletionFlag"]
    need(got == stored, "fields read {}, written {}", got, fields)
    recs = r.records()
    need(len(recs) == len(want), "{} records read, {} written", len(recs), len(want))
    for n, (a, b) in enumerate(zip(recs, want)):
        need(list(a) == b and all(type(x) is type(y) or type(y) is float and not f[3] and f[1] in "NF" and type(x) is int for x, y, f in zip(a, b, fields)), "record {} of {}: read {!r}, expected {!r}", n, fields, a, b)
        need(list(r.record(n)) == b, "record({}) is {!r}, expected {!r}", n, r.record(n), b)
    if how == "path":
        r.shp.close(), r.shx.close(), r.dbf.close()
    return enc if rows else False


@st.composite
def bulk(draw):
    r = draw(gen.seeds)
    enc = draw(st.sampled_from(["utf-8", "latin-1", "cp850"]))
    nf, nr = draw(st.sampled_from([(1, 300), (3, 300), (130, 4), (254, 2), (20, 40)]))
    nf, nr = gen.upto(r, nf), gen.upto(r, nr)
    fs = []
    for i in range(nf):
        t = r.choice("CCNNFDL")
        size, dec = (r.choice([1, 10, 20, 254]) if t == "C" else 8 if t == "D" else 1, 0) if t not in "NF" else r.choice([(1, 0), (5, 0), (18, 0), (12, 4)])
        fs.append(("%s%d" % (r.choice(["F", "FIELD_", "é" if enc != "ascii" else "e"]), i), t, size, dec))

    def val(f):
        name, t, size, dec = f
        if t == "C":
            return "".join(r.choice(ALPHA[enc]) for _ in range(r.choice([0, 3, min(size, 260), min(size + 2, 260)]))).strip()
        if t in "NF":
            return round(r.uniform(-99999, 99999), dec) if dec else r.randint(0, 10 ** size - 1)
        return [r.randint(1, 9999), r.randint(1, 12), r.randint(1, 28)] if t == "D" else r.choice([True, False, "?", "T"])
    rows = [(r.choice(["pos", "kw", "some"]), tuple(map(val, fs)), r.randrange(1, 2 ** nf)) for _ in range(nr)]
    return enc, fs, rows, r.choice(["path", "file", "dbf"]), r.random() < .5


FACETS = [
    Facet("attributes", table, attributes, "0..6 records of 1..5 text, number, date and logical fields in five encodings, given in order, by name or partly by name; at least one record", 4000),
    Facet("bulk", bulk, attributes, "up to 300 records or 254 fields; at least one record", 60, budget=60000000),
]
