"""Independent encoder and strict decoder of shapefile sets, written from the
ESRI white paper (July 1998) and the dBASE III table layout."""
import math
import struct
from vlib.engine import fail, need

NULL, POINT, LINE, POLY, MULTI = 0, 1, 3, 5, 8
BASE = {1: "point", 11: "point", 21: "point", 3: "line", 13: "line", 23: "line",
        5: "poly", 15: "poly", 25: "poly", 8: "multi", 18: "multi", 28: "multi", 31: "patch", 0: "null"}
TYPES = [1, 3, 5, 8, 11, 13, 15, 18, 21, 23, 25, 28, 31]
HAS_Z = {11, 13, 15, 18, 31}
HAS_M = {11, 13, 15, 18, 31, 21, 23, 25, 28}
NODATA = -1e39


class Geo:
    "One shape: flat points, part starts, part types, z and m (None: absent, None entries: no data)."

    def __init__(self, type, points=(), parts=None, parttypes=None, z=None, m=None):
        self.type, self.points = type, [tuple(p) for p in points]
        self.parts, self.parttypes, self.z, self.m = parts, parttypes, z, m

    def __repr__(self):
        return "Geo{}".format((self.type, self.points, self.parts, self.parttypes, self.z, self.m))


def box(points):
    if not points:
        return (0.0, 0.0, 0.0, 0.0)
    xs, ys = [p[0] for p in points], [p[1] for p in points]
    return min(xs), min(ys), max(xs), max(ys)


def span(values):
    v = [x for x in values or () if x is not None]
    return (min(v), max(v)) if v else (0.0, 0.0)


def content(g, nodata=NODATA):
    "Record content of a shape."
    t = g.type
    out = struct.pack("<i", t)
    if t == 0:
        return out
    n = len(g.points)
    ms = None if g.m is None else [nodata if v is None else v for v in g.m]
    if t in (1, 11, 21):
        out += struct.pack("<2d", *g.points[0])
        if t == 11:
            out += struct.pack("<d", g.z[0])
        if t in (11, 21) and ms is not None:
            out += struct.pack("<d", ms[0])
        return out
    out += struct.pack("<4d", *box(g.points))
    if BASE[t] in ("line", "poly", "patch"):
        out += struct.pack("<i", len(g.parts))
    out += struct.pack("<i", n)
    if BASE[t] in ("line", "poly", "patch"):
        out += struct.pack("<%di" % len(g.parts), *g.parts)
    if t == 31:
        out += struct.pack("<%di" % len(g.parts), *g.parttypes)
    for p in g.points:
        out += struct.pack("<2d", *p)
    if t in HAS_Z:
        out += struct.pack("<2d", *span(g.z)) + struct.pack("<%dd" % n, *g.z)
    if t in HAS_M and ms is not None:
        out += struct.pack("<2d", *span(g.m)) + struct.pack("<%dd" % n, *ms)
    return out


def header(words, type, bbox, z, m):
    return struct.pack(">7i", 9994, 0, 0, 0, 0, 0, words) + struct.pack("<2i", 1000, type) + struct.pack("<8d", *(tuple(bbox) + tuple(z) + tuple(m)))


def encode(type, shapes, surplus=(), bbox=None, z=None, m=None, nodata=NODATA):
    "-> (shp, shx) bytes.  surplus: extra even numbers of bytes at the end of each record."
    body = index = b""
    for i, g in enumerate(shapes):
        c = content(g, nodata) + b"\x5a" * (surplus[i] if i < len(surplus) else 0)
        index += struct.pack(">2i", (100 + len(body)) // 2, len(c) // 2)
        body += struct.pack(">2i", i + 1, len(c) // 2) + c
    pts = [p for g in shapes for p in g.points]
    bbox = box(pts) if bbox is None else bbox
    z = span([v for g in shapes for v in g.z or ()]) if z is None else z
    m = span([v for g in shapes for v in g.m or ()]) if m is None else m
    return (header((100 + len(body)) // 2, type, bbox, z, m) + body,
            header((100 + len(index)) // 2, type, bbox, z, m) + index)


class Cursor:
    def __init__(self, data, what):
        self.data, self.pos, self.what = data, 0, what

    def get(self, fmt):
        n = struct.calcsize(fmt)
        need(self.pos + n <= len(self.data), "{} ends in the middle of a value", self.what)
        v = struct.unpack_from(fmt, self.data, self.pos)
        self.pos += n
        return v

    def left(self):
        return len(self.data) - self.pos


def head(data, what):
    need(len(data) >= 100, "{} has {} bytes, the header takes 100", what, len(data))
    code, u1, u2, u3, u4, u5, words = struct.unpack(">7i", data[:28])
    need(code == 9994 and not any((u1, u2, u3, u4, u5)), "{}: bad start of header {!r}", what, data[:24])
    version, type = struct.unpack("<2i", data[28:36])
    need(version == 1000, "{}: version {}", what, version)
    need(words * 2 == len(data), "{}: header says {} bytes, there are {}", what, words * 2, len(data))
    d = struct.unpack("<8d", data[36:100])
    return {"type": type, "bbox": d[:4], "z": d[4:6], "m": d[6:8]}


def decode(shp, shx):
    "Strict: -> (header, [Geo]); everything derivable is verified."
    h = head(shp, ".shp")
    hx = head(shx, ".shx")
    need(hx == h, "headers of .shp and .shx differ: {} {}", h, hx)
    need((len(shx) - 100) % 8 == 0, ".shx has {} bytes", len(shx))
    pos, out, index = 100, [], []
    while pos < len(shp):
        need(pos + 8 <= len(shp), "record header {} is cut short", len(out) + 1)
        num, words = struct.unpack_from(">2i", shp, pos)
        need(num == len(out) + 1, "record number {} where {} is due", num, len(out) + 1)
        need(words > 1 and pos + 8 + words * 2 <= len(shp), "record {} of {} words at {} exceeds the file", num, words, pos)
        index.append((pos // 2, words))
        out.append(record(shp[pos + 8:pos + 8 + words * 2], h["type"], num))
        pos += 8 + words * 2
    got = [struct.unpack_from(">2i", shx, p) for p in range(100, len(shx), 8)]
    need(got == index, ".shx entries {} do not locate the records {}", got, index)
    t = h["type"]
    pts = [p for g in out for p in g.points]
    if pts:
        need(h["bbox"] == box(pts), "header box {}, the points span {}", h["bbox"], box(pts))
    if t in HAS_Z:
        zs = [v for g in out for v in g.z or ()]
        if zs:
            need(h["z"] == span(zs), "header elevations {}, present {}", h["z"], span(zs))
    if t in HAS_M:
        ms = [v for g in out for v in g.m or () if v is not None]
        if ms:
            need(h["m"] == span(ms), "header measures {}, present {}", h["m"], span(ms))
    return h, out


def record(data, filetype, num):
    c = Cursor(data, "record {}".format(num))
    t, = c.get("<i")
    if t == 0:
        need(not c.left(), "null record {} has {} more bytes", num, c.left())
        return Geo(0)
    need(t == filetype, "record {} of type {} in a file of type {}", num, t, filetype)
    if t in (1, 11, 21):
        p = c.get("<2d")
        z = c.get("<d") if t == 11 else None
        m = None
        if t in (11, 21) and c.left():
            m = [None if v < -1e38 else v for v in c.get("<d")]
        need(not c.left(), "record {} has {} more bytes", num, c.left())
        return Geo(t, [p], None, None, z and list(z), m)
    b = c.get("<4d")
    parts = ptypes = z = m = None
    n = None
    if BASE[t] in ("line", "poly", "patch"):
        k, = c.get("<i")
        n, = c.get("<i")
        need(k > 0 and n >= 0, "record {} has {} parts and {} points", num, k, n)
        parts = list(c.get("<%di" % k))
        need(parts[0] == 0 and all(a < q for a, q in zip(parts, parts[1:])) and parts[-1] < n, "record {}: parts start at {} of {} points", num, parts, n)
        if t == 31:
            ptypes = list(c.get("<%di" % k))
            need(all(0 <= q <= 5 for q in ptypes) or set(ptypes) == {31}, "record {}: part types {}", num, ptypes)
    else:
        n, = c.get("<i")
    pts = [c.get("<2d") for _ in range(n)]
    need(b == box(pts), "record {}: box {}, the points span {}", num, b, box(pts))
    if t in HAS_Z:
        r = c.get("<2d")
        z = list(c.get("<%dd" % n))
        need(r == span(z), "record {}: elevation range {}, present {}", num, r, span(z))
    if t in HAS_M and c.left():
        r = c.get("<2d")
        m = [None if v < -1e38 else v for v in c.get("<%dd" % n)]
        if any(v is not None for v in m):
            need(r == span(m), "record {}: measure range {}, present {}", num, r, span(m))
    need(not c.left(), "record {} has {} more bytes", num, c.left())
    return Geo(t, pts, parts, ptypes, z, m)


def rings(g):
    "Points split at the parts."
    ends = list(g.parts[1:]) + [len(g.points)]
    return [g.points[a:b] for a, b in zip(g.parts, ends)]


def blank(m):
    "A measure list without any value means the same as none at all."
    return None if m is None or all(v is None for v in m) else [None if v is None else float(v) for v in m]


def same(got, g, what):
    "A shape object of coral against a Geo."
    need(got.shapeType == g.type, "{}: type {}, expected {}", what, got.shapeType, g.type)
    pts = [tuple(p) for p in got.points]
    need(pts == [tuple(map(float, p)) for p in g.points], "{}: points {}, expected {}", what, pts, g.points)
    if g.type == 0:
        return
    if g.parts is not None:
        need(list(got.parts) == list(g.parts), "{}: parts start at {}, expected {}", what, list(got.parts), g.parts)
    if g.type == 31:
        need(list(got.partTypes) == list(g.parttypes), "{}: part types {}, expected {}", what, list(got.partTypes), g.parttypes)
    if g.type in HAS_Z:
        need(list(got.z) == [float(v) for v in g.z], "{}: elevations {}, expected {}", what, list(got.z), g.z)
    if g.type in HAS_M:
        m = getattr(got, "m", None)
        need(blank(None if m is None else list(m)) == blank(g.m), "{}: measures {}, expected {}", what, m, g.m)
    if BASE[g.type] not in ("point", "null"):
        need(tuple(got.bbox) == box([tuple(map(float, p)) for p in g.points]), "{}: box {}, points {}", what, got.bbox, g.points)


def same_geo(a, b, what):
    need(a.type == b.type and a.points == [tuple(map(float, p)) for p in b.points], "{}: stored {}, expected {}", what, a, b)
    if b.type == 0:
        return
    if b.parts is not None:
        need(list(a.parts) == list(b.parts), "{}: stored parts {}, expected {}", what, a.parts, b.parts)
    if b.type == 31:
        need(a.parttypes == list(b.parttypes), "{}: stored part types {}, expected {}", what, a.parttypes, b.parttypes)
    if b.type in HAS_Z:
        need(a.z == [float(v) for v in b.z], "{}: stored elevations {}, expected {}", what, a.z, b.z)
    if b.type in HAS_M:
        need(blank(a.m) == blank(b.m), "{}: stored measures {}, expected {}", what, a.m, b.m)


# -- attribute tables ----------------------------------------------------------

def encode_dbf(fields, rows, deleted=(), encoding="utf-8", tail=b"\x1a", junk=b""):
    """fields: (name, type, size, decimals); rows: lists of bytes, padded here.
    junk: what fills the room after the NUL that ends a field name;
    a Q takes the place of the NUL of names of ten bytes."""
    size = 1 + sum(f[2] for f in fields)
    out = struct.pack("<4BIHH20x", 3, 113, 7, 26, len(rows), 33 + 32 * len(fields), size)
    for name, t, n, dec in fields:
        out += struct.pack("<11sc4xBB14x", name.encode(encoding) + (b"\0" if junk[:1] != b"Q" or len(name.encode(encoding)) < 10 else b"") + junk, t.encode("ascii"), n, dec)
    out += b"\r"
    for i, row in enumerate(rows):
        out += b"*" if i in deleted else b" "
        for (name, t, n, dec), v in zip(fields, row):
            out += v.rjust(n) if t == "N" else v.ljust(n)
    return out + tail


def decode_dbf(data, encoding):
    "-> fields, rows of raw bytes.  Strict."
    need(len(data) >= 33, ".dbf of {} bytes", len(data))
    version, yy, mm, dd, n, hlen, rlen = struct.unpack("<4BIHH", data[:12])
    need(version & 7 == 3, ".dbf version {}", version)
    need(1 <= mm <= 12 and 1 <= dd <= 31, ".dbf date {}-{}-{}", yy, mm, dd)
    need((hlen - 33) % 32 == 0 and hlen <= len(data), ".dbf header of {} bytes", hlen)
    fields = []
    for i in range((hlen - 33) // 32):
        name, t, size, dec = struct.unpack_from("<11sc4xBB14x", data, 32 + 32 * i)
        fields.append((name.split(b"\0")[0].decode(encoding), t.decode("ascii"), size, dec))
    need(data[hlen - 1:hlen] == b"\r", ".dbf header ends with {!r}", data[hlen - 1:hlen])
    need(rlen == 1 + sum(f[2] for f in fields), ".dbf record length {}, fields {}", rlen, fields)
    body = data[hlen:]
    need(len(body) in (n * rlen, n * rlen + 1), ".dbf has {} bytes for {} records of {}", len(body), n, rlen)
    need(len(body) == n * rlen or body[-1:] == b"\x1a", ".dbf ends with {!r}", body[-1:])
    rows = []
    for i in range(n):
        r = body[i * rlen:(i + 1) * rlen]
        need(r[:1] in (b" ", b"*"), ".dbf record {} starts with {!r}", i, r[:1])
        p, row = 1, []
        for f in fields:
            row.append(r[p:p + f[2]])
            p += f[2]
        rows.append(row)
    return fields, rows
