"Strict reader of binary netpbm files."
from vlib.engine import need


def read(data):
    "-> (kind, width, height, pixels as a flat list of ints or triples)"
    kind = data[:2]
    need(kind in (b"P4", b"P5", b"P6"), "not a netpbm file: {!r}", data[:10])
    pos = 2
    vals = []
    while len(vals) < (2 if kind == b"P4" else 3):
        start = pos
        while data[pos:pos + 1] in (b" ", b"\n", b"\t", b"\r") and pos < len(data):
            pos += 1
        need(pos > start, "no white space at byte {}", start)
        if data[pos:pos + 1] == b"#":
            while data[pos:pos + 1] not in (b"\n", b""):
                pos += 1
            continue
        start = pos
        while data[pos:pos + 1].isdigit():
            pos += 1
        need(pos > start, "number expected at byte {} of {!r}", start, data[:20])
        vals.append(int(data[start:pos]))
    need(data[pos:pos + 1] in (b" ", b"\n", b"\t", b"\r"), "white space expected before the pixels")
    body = data[pos + 1:]
    w, h = vals[:2]
    if kind == b"P4":
        nw = (w + 7) // 8
        need(len(body) == nw * h, "{} bytes of pixels for {} x {}", len(body), w, h)
        return "P4", w, h, [body[y * nw + x // 8] >> (7 - x % 8) & 1 for y in range(h) for x in range(w)]
    need(vals[2] == 255, "maximum is {}", vals[2])
    if kind == b"P5":
        need(len(body) == w * h, "{} bytes of pixels for {} x {}", len(body), w, h)
        return "P5", w, h, list(body)
    need(len(body) == 3 * w * h, "{} bytes of pixels for {} x {}", len(body), w, h)
    return "P6", w, h, [tuple(body[i:i + 3]) for i in range(0, 3 * w * h, 3)]
