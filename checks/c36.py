import os
import subprocess
import sys
import tempfile
from hypothesis import assume, strategies as st
from vlib import eps, gen
from vlib.engine import Facet, REPO, Scratch, close, fail, need
from checks import c33, c34
from coral import vector

ASSUMPTIONS = ["gs and convert are stand-ins that record how they are called and copy their input",
               "paths do not begin with a dash, hold no line break and no character with a meaning of its own to the programs (% : [ ] * ? @)",
               "an animation has at least one frame"]

GS = r"""#!/bin/sh
printf 'gs\n' >> "$STUB/log"
n=$(wc -l < "$STUB/log")
for a; do
  printf '%s\n' "$a" >> "$STUB/args.$n"
  case "$a" in
    -sOutputFile=*) o="${a#-sOutputFile=}";;
    -*) ;;
    *) i="$a";;
  esac
done
pwd > "$STUB/cwd.$n"
if [ -n "$INNER" ] && [ ! -e "$STUB/inner" ]; then
  : > "$STUB/inner"
  "$PYTHON" -c "$INNER"
fi
cat "$i" > "$o"
exit "$GS_STATUS"
"""

CONVERT = r"""#!/bin/sh
printf 'convert\n' >> "$STUB/log"
n=$(wc -l < "$STUB/log")
k=0
for a; do
  printf '%s\n' "$a" >> "$STUB/args.$n"
  last="$a"
done
while [ $# -gt 1 ]; do
  case "$1" in
    -delay|-loop) shift 2;;
    *) cp "$1" "$STUB/frame.$k" || : > "$STUB/frame.$k.missing"; k=$((k+1)); shift;;
  esac
done
echo "$k frames" > "$last"
exit "$CONVERT_STATUS"
"""


class Stage:
    "Stand-ins on the search path, a temporary directory of our own, an empty folder to work in."

    def __init__(self, gs=0, convert=0, inner=None):
        self.top = Scratch.fresh()
        for d in ("stub", "bin", "tmp", "out"):
            os.mkdir(os.path.join(self.top, d))
        for name, text in (("gs", GS), ("convert", CONVERT)):
            p = os.path.join(self.top, "bin", name)
            with open(p, "w") as f:
                f.write(text)
            os.chmod(p, 0o755)
        self.env = {"STUB": self.at("stub"), "PATH": self.at("bin") + ":/usr/local/bin:/usr/bin:/bin", "GS_STATUS": str(gs),
                    "CONVERT_STATUS": str(convert), "TMPDIR": self.at("tmp"), "INNER": inner or "", "PYTHON": sys.executable}

    def at(self, *names):
        return os.path.join(self.top, *names)

    def __enter__(self):
        self.saved = dict(os.environ), tempfile.tempdir, os.getcwd()
        os.environ.update(self.env)
        tempfile.tempdir = self.at("tmp")
        os.chdir(self.at("out"))
        return self

    def __exit__(self, *exc):
        os.environ.clear()
        os.environ.update(self.saved[0])
        tempfile.tempdir = self.saved[1]
        os.chdir(self.saved[2])

    def calls(self):
        "-> [(program, arguments)]"
        try:
            with open(self.at("stub", "log")) as f:
                names = f.read().split()
        except FileNotFoundError:
            return []
        out = []
        for i, n in enumerate(names, 1):
            with open(self.at("stub", "args.%d" % i)) as f:
                out.append((n, f.read().split("\n")[:-1]))
        return out

    def tidy(self, *expected):
        left = sorted(os.listdir(self.at("tmp")))
        need(not left, "left in the temporary directory: {}", left)
        left = sorted(set(os.listdir(self.at("out"))) - set(expected))
        need(not left, "files nobody asked for: {}", left)


def gsargs(args, out, device, what):
    need("-dBATCH" in args and "-dNOPAUSE" in args, "{}: gs would wait for input: {}", what, args)
    need("-dEPSCrop" in args, "{}: the picture is not cropped to the page: {}", what, args)
    need([a for a in args if a.startswith("-sDEVICE=")] == ["-sDEVICE=" + device], "{}: device {}, expected {}", what, args, device)
    need([a for a in args if a.startswith("-sOutputFile=")] == ["-sOutputFile=" + out], "{}: output {}, expected {!r}", what, args, out)
    files = [a for a in args if not a.startswith("-")]
    need(len(files) == 1, "{}: input {}", what, files)
    return files[0]


plainname = st.sampled_from(["map.png", "a.png", "out"])
oddname = st.sampled_from(["a map.png", "it's.png", '"q".png', "a$HOME.png", "a;echo b.png", "a&b.png", "(x).png", "São Paulo.png", "a  b.png", "`ls`.png", "a\\b.png", "#1.png", "a|b", "<x>", "~.png", "a'b'c d.png", "tab\t.png"])
name = plainname | oddname | oddname
devices = st.none() | st.sampled_from(["png16m", "pngalpha", "pnggray", "pdfwrite"])
status = st.sampled_from([0, 0, 0, 1, 3])
fit = st.none() | st.tuples(c34.sizes, c34.margins)
bg = st.none() | c33.ink
drawing = st.tuples(bg, st.lists(c33.step(), min_size=1, max_size=4))


def draw(d):
    return c33.replay((d[0], d[1], None, 0))[0][0]


def text(path):
    with open(path) as f:
        return f.read()


def fitting(c, f):
    "Arguments of save, as far as the drawing can be fitted."
    if f is None:
        return {}
    size, margin = f
    b = c34.box_of(c.bbox)
    if size is not None and (margin >= size or max(b[2] - b[0], b[3] - b[1]) <= 0):
        size = None
    return {"size": size, "margin": margin}


def exporting(case):
    d, out, dev, f, ret, where, positional = case
    c = draw(d)
    kw = fitting(c, f)
    with Stage(gs=ret) as s:
        path = s.at("out", out) if where == "full" else out
        c.save(s.at("want.eps"), **kw)
        want = text(s.at("want.eps"))
        if dev is None:
            r = c.export(path, **kw)
        elif positional:
            r = c.export(path, dev, *(kw.values()))
        else:
            r = c.export(path, device=dev, **kw)
        calls = s.calls()
        need([n for n, _ in calls] == ["gs"], "programs run: {}", [n for n, _ in calls])
        src = gsargs(calls[0][1], path, dev or "png256", "export")
        need(os.path.exists(s.at("out", out)), "nothing was written to {!r}", out)
        need(text(s.at("out", out)) == want, "another drawing was handed over than save writes")
        need(r == ret, "status {!r}, the program ended with {}", r, ret)
        need(not os.path.exists(src), "the temporary file {} was left behind", src)
        s.tidy(out)
        c.save(s.at("again.eps"), **kw)
        need(text(s.at("again.eps")) == want, "exporting altered the canvas")
    return "failing" if ret else "odd path" if not out.isascii() or set(out) - set("map.ngout") else None


def filed(case):
    d, src, out, dev, ret, where = case
    assume(src != out)
    c = draw(d)
    with Stage(gs=ret) as s:
        a, b = (s.at("out", src), s.at("out", out)) if where == "full" else (src, out)
        c.save(s.at("out", src))
        want = text(s.at("out", src))
        r = vector.export(a, b) if dev is None else vector.export(a, b, dev)
        calls = s.calls()
        need([n for n, _ in calls] == ["gs"], "programs run: {}", [n for n, _ in calls])
        need(gsargs(calls[0][1], b, dev or "png256", "export") == a, "input {}, expected {!r}", calls[0][1], a)
        need(os.path.exists(s.at("out", out)), "nothing was written to {!r}", out)
        need(text(s.at("out", out)) == want and text(s.at("out", src)) == want, "{!r} was not converted as it is", src)
        need(r == ret, "status {!r}, the program ended with {}", r, ret)
        s.tidy(out, src)
    return "failing" if ret else None


INNER = """
import sys
sys.dont_write_bytecode = True
sys.path.insert(0, {!r})
from coral import vector
c = vector.Canvas({!r})
c.addcircle((5, 6), 7, fill=(0, 0.5, 1))
sys.exit(c.export({!r}))
"""


def simultaneous(case):
    "Another process exports while this one waits for gs."
    d, colour = case
    c = draw(d)
    top = Scratch.dir()
    with Stage(inner=INNER.format(REPO, colour, "other.png")) as s:
        c.save(s.at("want.eps"))
        o = vector.Canvas(colour)
        o.addcircle((5, 6), 7, fill=(0, 0.5, 1))
        o.save(s.at("other.eps"))
        r = c.export("mine.png")
        need(r == 0, "status {!r}", r)
        need(os.path.exists("mine.png") and os.path.exists("other.png"), "written: {}", os.listdir("."))
        need(text("mine.png") == text(s.at("want.eps")), "the picture of this process was replaced by that of another one exporting at the same time")
        need(text("other.png") == text(s.at("other.eps")), "the picture of the other process is not its own")
        s.tidy("mine.png", "other.png")


def animating(case):
    frames, order, out, delay, dev, f, ret, how = case
    cs = [draw(d) for d in frames]
    seq = [cs[i % len(cs)] for i in order]
    if dev is None:
        # the arguments that follow belong to export
        f = None
    boxes = [c34.box_of(c.bbox) for c in seq]
    solid = [b for b in boxes if b != (0, 0, 0, 0)]
    union = c34.box_of(vector.bbox.BBox()) if not solid else (min(b[0] for b in solid), min(b[1] for b in solid), max(b[2] for b in solid), max(b[3] for b in solid))
    w, h = union[2] - union[0], union[3] - union[1]
    size, margin = f or (None, 0)
    if size is not None and (margin >= size or max(w, h) <= 0):
        size = None
    with Stage(convert=ret) as s:
        own = []
        for i, c in enumerate(cs):
            c.save(s.at("own.%d" % i))
            own.append(text(s.at("own.%d" % i)))
        args = [] if delay is None else [delay]
        if dev is not None:
            args = [10 if delay is None else delay, dev]
            if f is not None:
                args += [size, margin]
        given = {"list": list, "tuple": tuple}[how](seq)
        r = vector.animation(out, given, *args)
        need(list(given) == seq, "the list of frames was altered")
        calls = s.calls()
        need([n for n, _ in calls] == ["gs"] * len(seq) + ["convert"], "programs run: {}", [n for n, _ in calls])
        for i, (_, a) in enumerate(calls[:-1]):
            t = [x for x in a if x.startswith("-sOutputFile=")]
            need(len(t) == 1, "frame {}: output {}", i, t)
            gsargs(a, t[0].split("=", 1)[1], dev or "png256", "frame {}".format(i))
        a = calls[-1][1]
        need(a and a[-1] == out, "convert writes {}, expected {!r}", a[-1:], out)
        opts = dict(zip(a[:-1], a[1:]))
        need(opts.get("-delay") == str(10 if delay is None else delay), "delay: {}", a)
        need(opts.get("-loop") == "0", "not repeated for ever: {}", a)
        need(text(s.at("out", out)) == "%d frames\n" % len(seq), "{} frames expected in the animation, {}", len(seq), text(s.at("out", out)))
        need(r == ret, "status {!r}, the program ended with {}", r, ret)
        s.tidy(out)
        pages = set()
        for i, c in enumerate(seq):
            p = s.at("stub", "frame.%d" % i)
            need(os.path.exists(p), "frame {} does not exist", i)
            page, painted, _ = eps.read(p)
            k = order[i] % len(cs)
            alone = eps.read(s.at("own.%d" % k))[1]
            pages.add(page)
            if size is None:
                x0, y0, x1, y1 = page
                e = 1e-9 * (1 + max(map(abs, union)))
                grow = .1
                need(union[0] - margin - w * grow - e <= x0 <= union[0] - margin + e and union[2] + margin - e <= x1 <= union[2] + margin + w * grow + e
                     and union[1] - margin - h * grow - e <= y0 <= union[1] - margin + e and union[3] + margin - e <= y1 <= union[3] + margin + h * grow + e,
                     "page {} for drawings within {}", page, union)
                close(x0 + x1, union[0] + union[2], 2 * e, "centre of the page")
                close(y0 + y1, union[1] + union[3], 2 * e, "centre of the page")
                if c.bgcolor is not None:
                    painted, alone = painted[1:], alone[1:]
                need(painted == alone, "frame {} shows {}, expected {}", i, painted, alone)
            else:
                need(tuple(map(float, page)) == (0, 0, size, size), "page {} for size {}", page, size)
                need([q["kind"] for q in painted] == [q["kind"] for q in alone], "frame {} shows {}, expected {}", i, painted, alone)
        need(len(pages) == 1, "the frames have different pages: {}", pages)
        for i, c in enumerate(cs):
            c.save(s.at("own"))
            need(text(s.at("own")) == own[i], "the animation altered frame {}", i)
    return "failing" if ret else "more than ten" if len(seq) > 10 else "several" if len(seq) > 1 else "one"


@st.composite
def long(draw):
    r = draw(gen.seeds)
    n = gen.upto(r, draw(st.sampled_from([12, 101, 130])))
    # a drawing that moves, so that the last frames count for the page, or few that repeat
    k = n if draw(st.booleans()) else 3
    dx, dy = r.choice([-7, 0, 7]), r.choice([-7, 0, 7])
    frames = [(None, [("circle", (r.randint(0, 50) + i * dx, i * dy), r.randint(1, 9), 0.5, None)]) for i in range(k)]
    return frames, list(range(n)) if k == n else [r.randrange(k) for _ in range(n)], "a.gif", None, None, None, 0, "list"


FACETS = [
    Facet("export", lambda: st.tuples(drawing, name, devices, fit, status, st.sampled_from(["here", "full"]), st.booleans()), exporting,
          "drawings of up to 4 calls exported to plain and odd paths, with and without device, size and margin, the program failing or not; every case", 700),
    Facet("file", lambda: st.tuples(drawing, name.map(lambda n: n + ".eps"), name, devices, status, st.sampled_from(["here", "full"])), filed,
          "saved drawings converted; every case", 400),
    Facet("simultaneous", lambda: st.tuples(drawing, bg), simultaneous, "two processes export at the same time; every case", 40),
    Facet("animation", lambda: st.tuples(st.lists(drawing, min_size=1, max_size=4), st.lists(st.integers(0, 11), min_size=1, max_size=6) | st.lists(st.integers(0, 11), min_size=10, max_size=13),
                                         oddname.map(lambda n: n + ".gif") | st.just("a.gif"), st.none() | st.sampled_from([0, 1, 10, 250]), devices, fit, status, st.sampled_from(["list", "tuple"])), animating,
          "1..13 frames, some repeated, with different boxes and backgrounds; every case", 300, weight=2),
    Facet("long", long, animating, "animations of up to 130 frames; every case", 16, budget=60000000),
]
