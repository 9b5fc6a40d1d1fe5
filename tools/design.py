"""Writes DESIGN.md from the text below, the facets of the checks and the planted bugs (run: python3-vt tools/design.py)."""
import importlib, json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path[:0] = [V, os.environ.get("CORAL_REPO", "/repo")]
sys.dont_write_bytecode = True

HEAD = """# DESIGN: deciding the properties of lecram/coral by property-based testing and fuzzing

(generated by tools/design.py from its own text, the facets in checks/ and the planted bugs in seeded/)

## What is decided, and how

coral is a single-threaded, deterministic Python library: geometry and map projections, binary
geodata formats (PF, RangeGrid, shapefile), tables, statistics, and three ways of drawing (raster,
EPS, progress meter). Its guarantees quantify over inputs, configurations, files and sequential
histories of calls, all of which can be generated; none concerns threads, crashes in the middle of a
system call or liveness beyond "this call returns". So every listed property is decided by generated
inputs against an explicit oracle, and `not_applicable` in MANIFEST.json is empty. The limit of the
family applies throughout: a quiet run means that nothing was found among the cases counted in
evidence/<id>.json, not that nothing exists.

One check per property: `python3-vt check.py Cxx [--tier quick|thorough] [--seed N] [--facet NAME]
[--scale X] [--replay FILE]`. A check is made of *facets*; a facet is a Hypothesis strategy yielding
plain literals and an oracle called with each of them (vlib/engine.py).

* Every facet runs in forked workers (8 at a time), seeded from VERIF_SEED, property, facet and shard
  number: a run is a pure function of the code and the seed. No example database, no deadline.
* A failure is shrunk by Hypothesis; the smallest literal of each facet is written to replay/ and
  `--replay FILE` runs it again without Hypothesis. Some are kept in regress/ and run first.
* Non-termination is found by counting jumps and branches executed inside coral
  (sys.monitoring), never by the clock; the allowance of each facet is at least ten times what its
  largest case needs. The wall clock only guards the harness itself (exit 2, inconclusive).
* An oracle returns False for a trivial case, or a label; evidence reports cases, distinct
  non-trivial cases (by the rule printed with each facet), the label distribution and samples.
* An exception of coral where the property promises an answer is a violation; one raised where the
  property promises a refusal is not. Workers may use 3 GB each, far more
  than any case needs, so running out of it is a violation too. Full disks and broken workers are harness errors.
* Cases are small on purpose, but sizes are drawn from a seed as well: each property has *bulk* facets
  with sizes around powers of two and ten (vlib/gen.py SIZES, up to some hundreds or thousands of
  elements), since realistic bugs hide behind block sizes, caches and counters. Bulk cases are built
  by `random.Random(n)`, n being generated (and printed) by Hypothesis, so they replay and stay literal.
* All files live in a scratch directory that the check makes and removes. coral deletes nothing itself.
* Quick runs take 10 to 60 s on 8 cores; thorough runs generate 20 times as many cases.

Oracles are independent of the code: 3-D vectors for the sphere, differential geometry for
projections, exact rationals for blends, statistics and polygon filling, decoders and encoders written
from the ESRI and dBASE descriptions (vlib/shp.py), a netpbm decoder (vlib/netpbm.py), a PostScript
interpreter for the operators the library may emit (vlib/eps.py), a virtual terminal for the meter.
They judge values, files and pages, not how the code is written.

## Properties

"""

# oracle; domain decisions; false alarms that were corrected
P = {
"C01": ("Minimum and maximum over the points; rectangles as 4-tuples; a box of positive area is also compared pointwise.",
        "The default box (0, 0)-(0, 0) is the identity of the union, so a degenerate box at the origin is not distinguished from it."),
"C02": ("Boxes as tuples of corners; order by area; has_point and has_bbox by half-open comparison.",
        "Equality by hash was a defect of the original (fixed). Only boxes of different corners and equal area are left unordered."),
"C03": ("collections.deque, compared after every call, refused calls included.", ""),
"C04": ("Angle from atan2(|u x v|, u.v); ellipsoid radius from the prime-vertical radius.",
        "Rounding of haversine itself near antipodes (6e-8 radians) is accepted."),
"C05": ("Positions as unit vectors; bearing from the tangent plane; nearest of sixteen sectors.",
        "Bearings count counter-clockwise in this library (west is 90); starts within 0.01 degrees of a pole are excluded."),
"C06": ("The answer must be a fixed point of an independent equal-area projection and polygon centroid; metamorphic rotation, reordering, reversal and shift.",
        "Polygons at least a degree across. Two non-terminations near poles were genuine (fixed)."),
"C07": ("Exact integer simplifier for paths that do not retrace themselves, validity predicates otherwise; rings by their cyclic chain.",
        "Coordinates stay clear of rounding ties, since round() of a quotient may fall either way there."),
"C08": ("Round trip as an angle on the sphere, with a tolerance that follows from the conditioning of each inverse.",
        "Accuracy is judged from 1e-3 degrees off the singular points on; closer, only finite values or the projection error are demanded (facets rim, singular)."),
"C09": ("Numerical Jacobian against conformality, equal area, and distance/azimuth from the centre by spherical trigonometry.",
        "2-degree neighbourhoods of singular points and seams are excluded, since central differences lose accuracy there."),
"C10": ("Central differences against scale(); exact metamorphic relations; pairs of coinciding projections.", ""),
"C11": ("The loaded frame projects probe points as the saved one (relative 1e-9), same box, same class; the file is JSON.", ""),
"C12": ("Floor of the projected point over the scale; C07's simplifier on projected vertices; visibility recomputed with independent boxes.",
        "Polygons touching the frame within rounding are not judged."),
"C13": ("Interpolation in exact rationals.", "Stop positions are distinct."),
"C14": ("Size of the encoding, round trip within half a step, distinctness of null; refusal of everything outside.",
        "Any exception is a refusal. Strings of no bytes or ending in NUL cannot be stored by the format."),
"C15": ("The written data set in memory; read cursor model.", "Ranges are integers, as the format stores them; field names are valid namedtuple fields."),
"C16": ("The normalised input; one quantisation step of the stored box; haversine of the stored position for the reported errors.",
        "Entities without extent in one direction are excluded (format limit: division by zero). Latitudes beyond the poles: only the range is required."),
"C17": ("Every proper prefix must raise; an altered signature must raise; integers encoded by an independent base-128 encoder.",
        "A RangeGrid index without its last line break is complete."),
"C18": ("Optimal string alignment by an independent recursion, textbook Jaro with match flags; minimality over all values.", ""),
"C19": ("Unicode decomposition restricted to the documented letters; validity predicates, and search of all candidates to judge that initials could not be kept.",
        "The first version demanded initials always: too strong when candidates are exhausted; corrected."),
"C20": ("Dictionary of pixels; independent netpbm decoder on the saved file.", "Exact blend ties go either way."),
"C21": ("Plain: every column (row) has one pixel within half of the true line, in exact rationals. Smooth: weights of the two neighbouring pixels by distance; nothing else changes.", "The stroke of a polygon is the union of its edges."),
"C22": ("Winding number in exact rationals at each pixel; the even-odd value where both rules agree.",
        "Pixels within half a pixel of a crossing are not judged; for self-crossing rings only those where both rules agree. Demanding the even-odd rule alone was an alarm of the first version, corrected."),
"C23": ("Decoder written from the ESRI description; doubles compared bit for bit; reading back with the library.", "Default part type 31 of multipatches is documented, and accepted."),
"C24": ("Independent DBF decoder; reading back; numbers by value.", "Values fit their fields; text without outer blanks (the format pads)."),
"C25": ("Independent encoder knows the content. Files as other programs write them: optional measures, surplus bytes in records and headers, field-name junk after the NUL, deleted rows, code pages.", "Number fields are in decimal or exponent form, without the asterisks some programs put for numbers that do not fit."),
"C26": ("The written content; histories of accesses with open iterators; several saves; editor.", "Editor.delete(part/point) and Editor.point(addr) are unfinished in the library and left out."),
"C27": ("Regrouping model on exact integer areas.", "Null shapes and multipatches have no view in this version (pyshp 1.1.9)."),
"C28": ("Fractions.", "Correlations only where the spread is not lost in rounding."),
"C29": ("Fresh computation of every answer; accounting of hits and misses in the report; clearing.", "Memory is judged over the next eight calls only."),
"C30": ("Rows as dictionaries, files written by the library and by hand.", "See assumptions; a blank row cannot be told from a blank line."),
"C31": ("Relational model on dictionaries; layout of pprint parsed by its rule line.", "Column order of joins with default columns is not specified."),
"C32": ("Virtual terminal; clock driven by the iterable (the functions of the time module are replaced during a case); independent arithmetic of the status line.", "A total of 0 may be shown or not; rounding of percent and seconds by one."),
"C33": ("Interpreter of the saved program records each painting operation with path, ink, width, dash in force; model of the calls.",
        "Text ink is judged only if set just before or never. arcto leaving numbers on the operand stack, and images above the PostScript string limit, are noted but not judged."),
"C34": ("Minimum and maximum model of elements; matrix obtained by interpreting the program.", "Elements whose own box is the default box are excluded, as C01."),
"C36": ("Stand-ins for gs and convert on PATH record arguments and copy their input; the picture handed over is compared with what save writes, frames with the interpreted program of each canvas.",
        "Neither program is installed here, so what they make of the file is not judged (C33 and C34 judge the file). Characters special to the programs themselves (% in an output name, : or [ for convert) are left out."),
"C37": ("Two long-lived processes with hash seeds 0 and 4711 perform operations on request (vlib/repro.py) and answer with the value returned and digests of all files written; one performs the operation at once, the other after other operations and twice.",
        "Operations reuse the generators and drivers of other checks. Fields of dBASE files holding the date are masked. Results of coral.stats are left to C29."),
"C35": ("Composition of independent models of each stage over one data set: shapefile, PF, frame, simplification, page.", ""),
"C38": ("The same history without the refused calls: files decoded or read back, programs interpreted.",
        "Five kinds of traces were genuine (fixed). Which calls must be refused is fixed only for clear cases; elsewhere the call may succeed."),
"C39": ("The intact set, read by the same calls; answers must be equal or exceptions.",
        "A geometry file cut between records reads as the records before the cut, as in C26; a missing .shx alone may be accepted."),
"C40": ("The same operation on copies; the arguments before; a fresh reader for each result.",
        "Boxes are values and may be returned themselves. Perimeter marks are consumed by filling, which is how they are used."),
"C41": ("Directory contents recorded by a line tracer while the library writes; each distinct state is laid out anew and given to the reader.",
        "Four flushing disciplines stand for what may have reached the disk; pages of one file reaching it out of order are not modelled."),
"C42": ("Each task (writing, reading, drawing, lazily simplifying, ...) is a generator that yields between its calls. It is run alone, then in turns with one to three others by a drawn schedule; the outcomes must agree.",
        "One thread; readers share a file set, writers do not share files. The clock is stopped so that meters compare."),
"C43": ("Servers as in C37, started with different locales and encodings, time zones, directories, variables and -O or -OO; each performs the same operation, answers and digests of files must agree. Invalid values and foreign files are drawn often, since refusals by assert vanish under -O.",
        "Found and fixed: text files in the encoding of the locale, refusals by assert. Paths stay ASCII."),
"C44": ("A directory tree is compared byte by byte before and after every call; a map from names to contents says what may have changed and what must be readable.",
        "Found and fixed: shapefile names lost what follows a dot (two data sets became one), RangeGrid's pair parted when the current directory changed."),
"C45": ("Arguments are built twice from the same data, plainly and with other types drawn by a seed; results are compared after dropping types. Attribute tables are compared by the values read, as 5 and 5.0 differ in text.",
        "Refusing a type that is not documented is not judged; those combinations are not generated. Found and fixed: rounded polygons refused tuples."),
"C46": ("After each save the directory is read and /proc/self/fd searched for files below it; then the objects are dropped and the files compared. Readings are done intact, cut short and with a file missing.",
        "Nothing is promised about RangeGrid and PF files before close. Found and fixed: saveShp/saveShx/saveDbf left files open and incomplete."),
"C47": ("Each history runs twice, plain and with queries drawn by a seed; every query is asked twice, at times with another in between.",
        "An editor's placeholder for the deletion flag, dropped by a save, is not counted among its fields."),
"C50": ("Contents of drawn items are overwritten with ones, zeros, random bytes or headers with far too large counts; intact items are compared with what was written, in any order and after failures. File objects count bytes for data sets of 60..300 shapes.",
        "What a damaged item itself gives belongs to C17 and C39."),
"C49": ("Threads are traced; one runs at a time, and after a drawn number of lines of the library it hands over to a drawn one. What each gets is compared with the same calls one after another.",
        "Schedules are found by drawing, not enumerated; shared are only objects no thread changes, and the caches of statistics."),
"C48": ("Steps are counted by the interpreter (backward jumps); more than 200000 in a case of at most seven points count as running on. The ordinary case takes some hundreds.",
        "geocentroid with an epsilon that rounding can not reach is expected to end, with the best point it has; what a call returns for such numbers is left to the other properties."),
}
try:
    from tools import design_more
    P.update(design_more.P)
except ImportError:
    pass

MISSED = """
Planted bugs that the checks missed at first, and what was changed:

* c16-offset (offsets of entities after many parts): C16 got the facet `many`; bulk facets were then added to all checks.
* c23-part-count: sizes are now drawn by `gen.upto`, often exactly the largest.
* c25-name-nul: the independent encoder now leaves junk after the NUL of field names.
* c26-restrict-neg: bulk histories make more calls, negative indices included.
* c31-pprint-width: big tables get a few values unlike all others, often in the last rows.
* c35-read-parts: C35 got a bulk facet with up to 60 parts and 150 records.
* Reverting the fixes one by one (below) showed four gaps: C08 got the facet `rim`, C33 shared and mutated dash lists, C26
  points added by the editor, C23 default part types.

Dropped: candidates that turned out equivalent on the documented domain (c20-gray-bg, an error-term variant of the line,
c24-name-strip), and those that changed lines which are not original.
"""

TAIL = """## Repairs in /repo

All genuine defects found were small to repair; each is one commit starting with "fix:", listed in
known_findings.txt as `fixed: property=<id> <commit> <what failed>`. There are no recorded,
unrepaired findings. Each fix was reverted on its own in a scratch clone where it does not conflict
with later ones: the check of its property reports every one of them again.

## Noticed, but outside the properties

Unfinished parts of the bundled pyshp (Editor.delete with part or point, Editor.point with an address,
'F' fields returned as text, saveShp without close leaving data unflushed), polylines without stroke on a canvas with background drawn in the
background's ink, GRow.encode ignoring surplus values, PF entities without extent at a grid line
(ZeroDivisionError), PF latitudes beyond a pole folded by 180 degrees. The documentation does not promise anything there.

## Soundness of the machinery

The checks ran on the unchanged tree with several dozen seeds each, in fresh processes, also with
PYTHONHASHSEED=0, and against behaviour-preserving rewrites of the modules (loops into comprehensions,
helpers extracted, other accumulation order, slots removed, attributes renamed where private).
"""


def main():
    out = [HEAD]
    for line in open(os.path.join(V, "properties.jsonl")):
        p = json.loads(line)
        m = importlib.import_module("checks." + p["id"].lower())
        oracle, note = P.get(p["id"], ("", ""))
        out.append("### %s %s\n\n" % (p["id"], p["title"]))
        out.append("Specified: %s\n\nQuantified over: %s. Tests: %s\n\n" % (p["statement"], p["quantifier"]["text"], p["why_tests_cant"]))
        out.append("Oracle: %s\n\n" % oracle)
        if note:
            out.append("Decisions: %s\n\n" % note)
        if getattr(m, "ASSUMPTIONS", []):
            out.append("Domain: %s.\n\n" % "; ".join(m.ASSUMPTIONS))
        out.append("Facets (cases of a quick run; thorough runs are 20 times as long):\n\n")
        for f in m.FACETS:
            out.append("* `%s` (%d): %s\n" % (f.name, f.quick, f.rule))
        out.append("\n")
    out.append("## Planted bugs\n\nEach is caught (exit 1, VIOLATION line) by the quick run of the check of its own property at VERIF_SEED=1.\n\n| bug | property | needs |\n|---|---|---|\n")
    for d in sorted(os.listdir(os.path.join(V, "seeded"))):
        m = json.load(open(os.path.join(V, "seeded", d, "meta.json")))
        out.append("| %s | %s | %s |\n" % (d, m["property"], m["needs"].replace("|", "/")))
    out.append(MISSED + "\n" + TAIL)
    with open(os.path.join(V, "DESIGN.md"), "w") as f:
        f.write("".join(out))


main()
