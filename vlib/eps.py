"""A small PostScript interpreter that records what a program paints, and a
model of coral.vector.Canvas to compare it with."""
import math
from vlib.engine import fail, need


class Name(str):
    pass


class Lit(str):
    pass


class Mark:
    pass


MARK = Mark()
DELIMS = "()<>[]{}/%"
SPACE = " \t\r\n\f\0"


def tokens(src):
    i, n = 0, len(src)
    while i < n:
        c = src[i]
        if c in SPACE:
            i += 1
        elif c == "%":
            while i < n and src[i] not in "\r\n":
                i += 1
        elif c == "(":
            depth, out = 1, []
            i += 1
            while True:
                need(i < n, "unterminated string in the program")
                c = src[i]
                if c == "\\":
                    i += 1
                    need(i < n, "unterminated string in the program")
                    c = src[i]
                    if c in "nrtbf":
                        out.append({"n": "\n", "r": "\r", "t": "\t", "b": "\b", "f": "\f"}[c])
                    elif c in "01234567":
                        k = i
                        while k < min(i + 3, n) and src[k] in "01234567":
                            k += 1
                        out.append(chr(int(src[i:k], 8) & 255))
                        i = k - 1
                    elif c != "\n":
                        out.append(c)
                elif c == "(":
                    depth += 1
                    out.append(c)
                elif c == ")":
                    depth -= 1
                    if not depth:
                        i += 1
                        break
                    out.append(c)
                else:
                    out.append(c)
                i += 1
            yield ("str", "".join(out))
        elif c == "<" and src[i + 1:i + 2] != "<":
            j = src.find(">", i)
            need(j > 0, "unterminated hexadecimal string in the program")
            h = "".join(ch for ch in src[i + 1:j] if ch not in SPACE)
            need(all(ch in "0123456789abcdefABCDEF" for ch in h), "hexadecimal string {!r}", h[:40])
            yield ("hex", bytes.fromhex(h + "0" * (len(h) % 2)))
            i = j + 1
        elif c in "{}[]":
            yield ("op", c)
            i += 1
        elif src[i:i + 2] in ("<<", ">>"):
            yield ("op", src[i:i + 2])
            i += 2
        else:
            need(c not in ")>", "stray {!r} in the program", c)
            j = i + 1
            while j < n and src[j] not in SPACE and src[j] not in DELIMS:
                j += 1
            w = src[i:j]
            i = j
            if w[0] == "/":
                yield ("lit", w[1:])
                continue
            try:
                v = int(w)
            except ValueError:
                try:
                    v = float(w)
                    need(math.isfinite(v) and "_" not in w and w[-1] not in "fnyFNY", "the program contains the number {}", w)
                except ValueError:
                    yield ("name", w)
                    continue
            yield ("num", v)


def parse(it, closing=None):
    out = []
    for k, v in it:
        if k == "op" and v == "{":
            out.append(("proc", parse(it, "}")))
        elif k == "op" and v == "}":
            need(closing == "}", "stray } in the program")
            return out
        else:
            out.append((k, v))
    need(closing is None, "unterminated procedure in the program")
    return out


class GState:
    def __init__(self):
        self.ctm = (1.0, 0.0, 0.0, 1.0, 0.0, 0.0)
        self.ink = (0.0, 0.0, 0.0)
        self.width = 1
        self.dash = ((), 0)
        self.join = 0
        self.font = None
        self.path = []
        self.cur = None
        self.start = None

    def copy(self):
        g = GState()
        g.__dict__.update(self.__dict__)
        g.path = self.path[:]
        return g


def mul(a, b):
    "a then b"
    return (a[0] * b[0] + a[1] * b[2], a[0] * b[1] + a[1] * b[3],
            a[2] * b[0] + a[3] * b[2], a[2] * b[1] + a[3] * b[3],
            a[4] * b[0] + a[5] * b[2] + b[4], a[4] * b[1] + a[5] * b[3] + b[5])


def app(m, p):
    return (m[0] * p[0] + m[2] * p[1] + m[4], m[1] * p[0] + m[3] * p[1] + m[5])


def inv(m):
    d = m[0] * m[3] - m[1] * m[2]
    need(d != 0, "singular transformation")
    return (m[3] / d, -m[1] / d, -m[2] / d, m[0] / d,
            (m[2] * m[5] - m[3] * m[4]) / d, (m[1] * m[4] - m[0] * m[5]) / d)


ADV, RISE = 0.5, 0.75      # glyph metrics per unit of font size


class Interp:
    """Paths are kept in device space as ('m'|'l', p), ('c', p1, p2, p3),
    ('arc', centre, rx, start point, end point, degrees), ('z',)."""

    def __init__(self, src):
        self.stack, self.g, self.saved = [], GState(), []
        self.dicts = [{}]
        self.painted = []
        self.steps = 0
        self.run(parse(tokens(src)))

    # stack
    def pop(self, *types):
        need(self.stack, "stack underflow in the program")
        v = self.stack.pop()
        if types:
            need(isinstance(v, types) and not (isinstance(v, bool) and bool not in types), "operand {!r} of the wrong kind", v)
        return v

    def num(self):
        return self.pop(int, float)

    def nums(self, n):
        v = [self.num() for _ in range(n)]
        return v[::-1]

    def push(self, *v):
        self.stack.extend(v)

    def run(self, prog):
        for k, v in prog:
            self.steps += 1
            need(self.steps < 200000, "the program does not end")
            if k == "num" or k == "hex":
                self.push(v)
            elif k == "str":
                self.push(("s", v))
            elif k == "lit":
                self.push(Lit(v))
            elif k == "proc":
                self.push(v)
            elif k == "op":
                if v in ("[", "<<"):
                    self.push(MARK)
                elif v == "]":
                    out = []
                    while True:
                        x = self.pop()
                        if x is MARK:
                            break
                        out.append(x)
                    self.push(tuple(["array"] + out[::-1]))
                else:
                    fail("operator {} is not supported here", v)
            else:
                self.call(v)

    def call(self, name):
        for d in reversed(self.dicts):
            if name in d:
                v = d[name]
                if isinstance(v, list):
                    self.run(v)
                else:
                    self.push(v)
                return
        f = getattr(self, "op_" + name, None)
        if f is None:
            fail("operator {!r} is not defined where it is used", name)
        f()

    # definitions and stack operators
    def op_def(self):
        v = self.pop()
        k = self.pop(Lit)
        self.dicts[-1][str(k)] = v

    def op_bind(self):
        v = self.pop(list)
        self.push(v)

    def op_load(self):
        k = self.pop(Lit)
        for d in reversed(self.dicts):
            if k in d:
                self.push(d[k])
                return
        need(hasattr(self, "op_" + k), "{} is not defined", k)
        self.push([("name", str(k))])

    def op_dict(self):
        self.num()
        self.push({})

    def op_begin(self):
        self.dicts.append(self.pop(dict))

    def op_end(self):
        need(len(self.dicts) > 1, "dictionary stack underflow")
        self.dicts.pop()

    def op_exch(self):
        a, b = self.pop(), self.pop()
        self.push(a, b)

    def op_dup(self):
        v = self.pop()
        self.push(v, v)

    def op_pop(self):
        self.pop()

    def op_index(self):
        n = self.pop(int)
        need(0 <= n < len(self.stack), "stack underflow in the program")
        self.push(self.stack[-1 - n])

    def op_copy(self):
        n = self.pop(int)
        need(0 <= n <= len(self.stack), "stack underflow in the program")
        if n:
            self.stack.extend(self.stack[-n:])

    def op_roll(self):
        j, n = self.pop(int), self.pop(int)
        need(0 <= n <= len(self.stack), "stack underflow in the program")
        if n:
            t = self.stack[-n:]
            j %= n
            self.stack[-n:] = t[-j:] + t[:-j] if j else t

    def op_exec(self):
        self.run(self.pop(list))

    def op_repeat(self):
        p, n = self.pop(list), self.pop(int)
        for _ in range(n):
            self.run(p)

    def op_if(self):
        p, c = self.pop(list), self.pop(bool)
        if c:
            self.run(p)

    def op_ifelse(self):
        q, p, c = self.pop(list), self.pop(list), self.pop(bool)
        self.run(p if c else q)

    def op_true(self):
        self.push(True)

    def op_false(self):
        self.push(False)

    def op_mark(self):
        self.push(MARK)

    def op_cleartomark(self):
        while self.pop() is not MARK:
            pass

    def op_clear(self):
        self.stack.clear()

    def op_save(self):
        self.op_gsave()
        self.push("save")

    def op_restore(self):
        self.pop(str)
        self.op_grestore()

    # arithmetic
    def op_add(self):
        a, b = self.nums(2)
        self.push(a + b)

    def op_sub(self):
        a, b = self.nums(2)
        self.push(a - b)

    def op_mul(self):
        a, b = self.nums(2)
        self.push(a * b)

    def op_div(self):
        a, b = self.nums(2)
        need(b != 0, "division by zero in the program")
        self.push(a / b)

    def op_neg(self):
        self.push(-self.num())

    def op_abs(self):
        self.push(abs(self.num()))

    def op_sqrt(self):
        self.push(math.sqrt(self.num()))

    def op_eq(self):
        self.push(self.pop() == self.pop())

    def op_ne(self):
        self.push(self.pop() != self.pop())

    def op_gt(self):
        a, b = self.nums(2)
        self.push(a > b)

    def op_lt(self):
        a, b = self.nums(2)
        self.push(a < b)

    # graphics state
    def op_gsave(self):
        self.saved.append(self.g.copy())

    def op_grestore(self):
        if self.saved:
            self.g = self.saved.pop()

    def unit(self, v):
        # values outside 0..1 are clipped by setgray and setrgbcolor
        return min(1.0, max(0.0, float(v)))

    def op_setgray(self):
        v = self.unit(self.num())
        self.g.ink = (v, v, v)

    def op_setrgbcolor(self):
        self.g.ink = tuple(map(self.unit, self.nums(3)))

    def op_setlinewidth(self):
        self.g.width = self.num()

    def op_setlinejoin(self):
        self.g.join = self.pop(int)

    def op_setlinecap(self):
        self.pop(int)

    def op_setmiterlimit(self):
        self.num()

    def op_setdash(self):
        off = self.num()
        a = self.pop()
        if isinstance(a, list):
            a = tuple(["array"] + [v for _, v in a])
        need(isinstance(a, tuple) and a[:1] == ("array",), "setdash without an array")
        need(all(isinstance(v, (int, float)) and v >= 0 for v in a[1:]) and (len(a) == 1 or any(a[1:])), "dash pattern {}", a[1:])
        self.g.dash = (a[1:], off)

    def op_translate(self):
        x, y = self.nums(2)
        self.g.ctm = mul((1, 0, 0, 1, x, y), self.g.ctm)

    def op_scale(self):
        x, y = self.nums(2)
        self.g.ctm = mul((x, 0, 0, y, 0, 0), self.g.ctm)

    def op_rotate(self):
        a = math.radians(self.num())
        self.g.ctm = mul((math.cos(a), math.sin(a), -math.sin(a), math.cos(a), 0, 0), self.g.ctm)

    def matrix(self):
        m = self.pop()
        if isinstance(m, list):
            m = tuple(["array"] + [v for _, v in m])
        need(isinstance(m, tuple) and m[:1] == ("array",) and len(m) == 7, "not a matrix: {}", m)
        return m[1:]

    def op_concat(self):
        self.g.ctm = mul(self.matrix(), self.g.ctm)

    # paths
    def here(self):
        need(self.g.cur is not None, "no current point")
        return app(inv(self.g.ctm), self.g.cur)

    def move(self, p):
        g = self.g
        g.cur = g.start = app(g.ctm, p)
        g.path.append(("m", g.cur))

    def line(self, p):
        g = self.g
        need(g.cur is not None, "no current point")
        g.cur = app(g.ctm, p)
        g.path.append(("l", g.cur))

    def op_newpath(self):
        self.g.path, self.g.cur, self.g.start = [], None, None

    def op_moveto(self):
        self.move(self.nums(2))

    def op_lineto(self):
        self.line(self.nums(2))

    def op_rmoveto(self):
        dx, dy = self.nums(2)
        x, y = self.here()
        self.move((x + dx, y + dy))

    def op_rlineto(self):
        dx, dy = self.nums(2)
        x, y = self.here()
        self.line((x + dx, y + dy))

    def op_closepath(self):
        if self.g.path and self.g.path[-1] != ("z",):
            self.g.path.append(("z",))
            self.g.cur = self.g.start

    def op_currentpoint(self):
        self.push(*self.here())

    def op_arc(self):
        x, y, r, a, b = self.nums(5)
        while b < a:
            b += 360
        self.arc(x, y, r, a, b)

    def op_arcn(self):
        x, y, r, a, b = self.nums(5)
        while b > a:
            b -= 360
        self.arc(x, y, r, a, b)

    def arc(self, x, y, r, a, b):
        def at(t):
            # exact at the quarters
            c = {0: (1, 0), 90: (0, 1), 180: (-1, 0), 270: (0, -1)}.get(t % 360) or (math.cos(math.radians(t)), math.sin(math.radians(t)))
            return (x + r * c[0], y + r * c[1])
        g = self.g
        p, q = at(a), at(b)
        if g.cur is None:
            self.move(p)
        elif app(g.ctm, p) != g.cur:
            self.line(p)
        s = math.sqrt(abs(g.ctm[0] * g.ctm[3] - g.ctm[1] * g.ctm[2]))
        g.cur = app(g.ctm, q)
        g.path.append(("arc", app(g.ctm, (x, y)), abs(r) * s, app(g.ctm, p), g.cur, b - a))

    def op_arct(self):
        x1, y1, x2, y2, r = self.nums(5)
        x0, y0 = self.here()
        ax, ay, bx, by = x0 - x1, y0 - y1, x2 - x1, y2 - y1
        la, lb = math.hypot(ax, ay), math.hypot(bx, by)
        if not la or not lb or abs(ax * by - ay * bx) <= 1e-12 * la * lb or not r:
            self.line((x1, y1))
            return
        ax, ay, bx, by = ax / la, ay / la, bx / lb, by / lb
        half = math.atan2(abs(ax * by - ay * bx), ax * bx + ay * by) / 2
        d = r / math.tan(half)
        t1 = (x1 + ax * d, y1 + ay * d)
        t2 = (x1 + bx * d, y1 + by * d)
        h = r / math.sin(half)
        mx, my = ax + bx, ay + by
        m = math.hypot(mx, my)
        c = (x1 + mx / m * h, y1 + my / m * h)
        self.line(t1)
        g = self.g
        s = math.sqrt(abs(g.ctm[0] * g.ctm[3] - g.ctm[1] * g.ctm[2]))
        turn = 180 - 2 * math.degrees(half)
        g.cur = app(g.ctm, t2)
        g.path.append(("arc", app(g.ctm, c), r * s, app(g.ctm, t1), g.cur, math.copysign(turn, -(ax * by - ay * bx))))

    def op_arcto(self):
        self.op_arct()
        self.push(0, 0, 0, 0)

    def op_curveto(self):
        v = self.nums(6)
        need(self.g.cur is not None, "no current point")
        p = [app(self.g.ctm, v[i:i + 2]) for i in (0, 2, 4)]
        self.g.cur = p[2]
        self.g.path.append(("c", *p))

    def op_flattenpath(self):
        pass

    def op_pathbbox(self):
        m = inv(self.g.ctm)
        pts = [app(m, p) for e in self.g.path for p in e[1:3 if e[0] == "box" else 2]]
        need(pts, "no current point")
        xs, ys = [p[0] for p in pts], [p[1] for p in pts]
        self.push(min(xs), min(ys), max(xs), max(ys))

    def op_clip(self):
        fail("clipping is not expected")

    # painting
    def paint(self, kind, **kw):
        g = self.g
        self.painted.append(dict(kind=kind, ink=g.ink, width=g.width, dash=g.dash, join=g.join, ctm=g.ctm, **kw))

    def op_fill(self):
        self.paint("fill", path=self.g.path)
        self.op_newpath()

    op_eofill = op_fill

    def op_stroke(self):
        self.paint("stroke", path=self.g.path)
        self.op_newpath()

    def op_rectfill(self):
        x, y, w, h = self.nums(4)
        old = self.g.copy()
        self.op_newpath()
        self.move((x, y))
        for p in ((x + w, y), (x + w, y + h), (x, y + h)):
            self.line(p)
        self.op_closepath()
        self.paint("fill", path=self.g.path)
        self.g = old

    # text
    def op_findfont(self):
        self.push(("font", str(self.pop(Lit)), 1))

    def op_scalefont(self):
        s = self.num()
        f = self.pop(tuple)
        need(f[0] == "font", "scalefont without a font")
        self.push(("font", f[1], f[2] * s))

    def op_setfont(self):
        f = self.pop(tuple)
        need(f[0] == "font", "setfont without a font")
        self.g.font = f[1:]

    def op_selectfont(self):
        s = self.num()
        self.g.font = (str(self.pop(Lit)), s)

    def text(self):
        s = self.pop(tuple)
        need(s[0] == "s", "text operator without text")
        need(self.g.font is not None, "text without a font")
        return s[1]

    def op_charpath(self):
        self.pop(bool)
        s = self.text()
        x, y = self.here()
        w = ADV * self.g.font[1] * len(s)
        # no path for empty text beyond the point itself
        self.g.path.append(("box", app(self.g.ctm, (x, y)), app(self.g.ctm, (x + w, y + RISE * self.g.font[1] if s else y))))
        self.g.cur = app(self.g.ctm, (x + w, y))

    def op_stringwidth(self):
        self.push(ADV * self.g.font[1] * len(self.text()), 0)

    def op_show(self):
        s = self.text()
        x, y = self.here()
        self.paint("text", text=s, at=self.g.cur, font=self.g.font)
        self.g.cur = app(self.g.ctm, (x + ADV * self.g.font[1] * len(s), y))

    # images
    def fetch(self, n):
        src = self.pop()
        data = b""
        if isinstance(src, bytes):
            return src
        need(isinstance(src, list), "image without data")
        while len(data) < n:
            self.run(src)
            d = self.pop(bytes)
            if not d:
                break
            data += d
        return data

    def image(self, ncomp):
        data_at = len(self.stack)
        src = self.pop()
        m = self.matrix()
        w, h, bits = self.nums(3)
        self.push(src)
        data = self.fetch(w * h * ncomp)
        need(bits == 8, "{} bits per sample", bits)
        need(len(data) == w * h * ncomp, "image of {}x{} has {} bytes of data", w, h, len(data))
        self.paint("image", size=(w, h), data=data, comps=ncomp, place=mul(inv(m), self.g.ctm))

    def op_image(self):
        self.image(1)

    def op_colorimage(self):
        n = self.pop(int)
        need(self.pop(bool) is False, "images of several sources are not expected")
        self.image(n)

    def op_showpage(self):
        pass


def read(path):
    "-> (page box, list of paint operations, interpreter)"
    with open(path, encoding="utf8", newline="") as f:
        src = f.read()
    lines = src.split("\n")
    need(lines[0].startswith("%!PS-Adobe-") and " EPSF-" in lines[0], "the file does not begin like an EPS file: {!r}", lines[0])
    boxes = [l for l in lines if l.startswith("%%BoundingBox:")]
    need(len(boxes) == 1, "{} page boxes", len(boxes))
    v = boxes[0].split(":")[1].split()
    need(len(v) == 4, "page box {!r}", boxes[0])
    box = tuple(map(float, v))
    it = Interp(src)
    need(not it.stack or all(isinstance(x, (int, float)) for x in it.stack), "left on the stack: {}", it.stack)
    need(not it.saved, "graphics state saved but not restored")
    return box, it.painted, it


def drop_empty(painted):
    "Without painting operations that leave no mark."
    return [p for p in painted if "path" not in p or any(e[0] in ("l", "c", "arc") for e in p["path"])]
