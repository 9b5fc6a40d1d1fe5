"""Single source for properties.jsonl and MANIFEST.json (run: python3-vt tools/props.py)."""
import json, os

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))

T_IN = "The existing tests fix a handful of constants; the property quantifies over every input."

# id, title, statement, quantifier(over, text), why tests cannot settle it, files, [(mechanism, where)], observe_at, technique, oracle note
P = []


def prop(id, title, statement, over, text, why, files, mech, observe, technique, note):
    assert statement.count(". ") <= 2, (id, statement.count(". "))
    assert len(title) <= 80
    P.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why,
                  files=files, mech=mech, observe=observe, technique=technique, note=note))


prop("C01", "Bounding boxes: tight hull, union and intersection",
     "A box built from any non-empty collection of points has exactly the minimum and maximum coordinates of those points, and its width, height, area, centre and diagonal follow from its corners. "
     "The union of two boxes is the smallest box covering both (also when one of them has zero width or height), with the default box as its identity; the intersection has positive area exactly when the interiors overlap and is then their common rectangle, and the default empty box otherwise. "
     "Two boxes of positive area collide exactly when their intersection is non-empty, one without extent collides with another when it lies in it (left and lower edges included), and none of these operations changes its operands.",
     ["inputs"], "all point collections (any order, duplicates, collinear, negative, int or float) and all pairs/triples of normalised boxes, including touching, nested, disjoint and degenerate ones",
     "Tests use one fixed box, its double and one translate; touching, disjoint, nested and degenerate operands and operand order are never exercised.",
     ["coral/bbox.py"], [("min/max accumulation in the constructor", "coral/bbox.py:BBox.__init__"), ("union/intersection", "coral/bbox.py:BBox.__or__,__and__"), ("collide", "coral/bbox.py:BBox.collide")],
     ["x0,y0,x1,y1 of results", "has_point on lattice points"],
     "property-based testing against a min/max and point-set reference model", "Hypothesis generates boxes/points on a small lattice and over floats; results compared with an independent hull/rectangle model and pointwise with membership.")

prop("C02", "Bounding boxes: equality, order, membership, translation, scaling",
     "Two boxes are equal exactly when all four corner coordinates are equal (equal boxes hash equally) and boxes are ordered by area. "
     "A point is inside a box under half-open rules (lower edges included, upper edges excluded) and a box is inside another exactly when both its corners are, through the methods and through the `in` operator alike. "
     "Translation adds the vector to every corner and subtracting it restores the box, scaling by a factor keeps the centre and multiplies width and height by the factor, and the operators + - * / agree with the named methods and leave the operand unchanged.",
     ["inputs"], "all normalised boxes, points, boxes, vectors and positive factors",
     "Tests compare one box with three rescalings of itself and probe eight points; equality over arbitrary coordinates, edge points and operator forms are not covered.",
     ["coral/bbox.py"], [("equality/hash/order", "coral/bbox.py:BBox.__eq__,__hash__,__lt__"), ("half-open membership", "coral/bbox.py:BBox.has_point,has_bbox,__contains__"), ("transforms", "coral/bbox.py:BBox.translate,scale")],
     ["comparison results", "corner coordinates"],
     "property-based testing against a tuple model and algebraic laws", "Hypothesis; integer-lattice boxes give exact oracles, float scaling is compared with a stated tolerance.")

prop("C03", "The ring buffer is a bounded double-ended queue for every history",
     "After any sequence of push, pop, peek and shift, a buffer of capacity n (a power of two) contains exactly what an ideal double-ended queue would contain: pop and peek give the newest element, shift the oldest, and isempty/isfull report 0 and n elements. "
     "Pushing to a full buffer and popping, peeking or shifting an empty one is refused without changing the contents, and a capacity that is not a power of two is refused. "
     "Its string form lists the contents oldest first.",
     ["histories"], "all operation sequences on buffers of capacity 1..64, including index wrap-around many times over and refused operations in between",
     "The single test replays one history on capacity 4.",
     ["coral/coord.py"], [("masked start/end counters", "coral/coord.py:Buffer._inc,_dec,isempty,isfull,push,pop,peek,shift")],
     ["return values and str() after every step"],
     "stateful model-based testing against collections.deque", "Hypothesis operation sequences compared with deque after every step.")

prop("C04", "Great-circle distance and Earth radius",
     "The distance between two geographic points is the radius times the central angle: it is never negative, symmetric, zero for coinciding points, unaffected by whole turns of longitude or a common longitude shift, equal to pi times the radius for antipodes, obeys the triangle inequality, and is defined for every pair of points on the globe. "
     "When no radius is given, the Earth radius at the mean latitude of the two points is used. "
     "That radius is the distance from the centre of the given ellipsoid (WGS84 by default) to its surface at that geodetic latitude, lying between the polar and equatorial radii.",
     ["inputs"], "all longitude/latitude pairs (poles, antimeridian, near-coincident and near-antipodal included), all positive radii, all oblate ellipsoids",
     "One doctest evaluates a single pair; antipodal and polar rounding is never reached.",
     ["coral/coord.py", "coral/proj.py"], [("haversine formula", "coral/coord.py:haversine"), ("geocentric radius", "coral/coord.py:radiusat")],
     ["return values"],
     "property-based differential testing against 3-D vector geometry", "Oracle: central angle from atan2(|u x v|, u.v) of unit vectors; surface point of the ellipsoid computed from the prime-vertical radius.")

prop("C05", "Navigation: bearing, destination, midpoint and compass names agree",
     "Starting from any point, travelling along a bearing for a distance (back, for a negative one) arrives at the point that lies at that distance in that direction on the sphere (bearings count counter-clockwise from north), with longitude within -180..180, so that destination inverts bearing plus distance. "
     "The midpoint of two non-antipodal points lies on the great circle through them, at half the distance from each. "
     "A bearing is named by the nearest of the sixteen compass points counted counter-clockwise (N, NNW, NW, WNW, W and so on through S and E), and as a clock hour by 12 - bearing/30 with bearings taken modulo a full turn.",
     ["inputs"], "all start points, bearings in -360..360 and distances up to half the circumference; all non-antipodal pairs",
     "One doctest checks one triple of numbers; poles, antimeridian crossings, westward headings and sector boundaries are not covered.",
     ["coral/coord.py"], [("destination", "coral/coord.py:destination"), ("bearing", "coral/coord.py:bearing"), ("midpoint", "coral/coord.py:midpoint"), ("sector tables", "coral/coord.py:bearing2cardinal,bearing2hours")],
     ["return values"],
     "property-based round-trip and differential testing against 3-D vector geometry", "Positions compared as unit vectors so that representation (whole turns) does not matter; sector ties excluded by a stated margin.")

prop("C06", "The geographic centroid is the balance point of the region",
     "For any region of polygons smaller than a hemisphere (outer rings and oppositely oriented holes, given in either overall orientation) the geographic centroid computation terminates and returns the point at which the region, projected by an equal-area projection centred on that very point, has its centre of area, within the requested precision. "
     "It does not depend on the starting vertex or on the order of the polygons, and shifting the region in longitude shifts it by the same amount. "
     "Regions that are symmetric about a point have that point as their centroid.",
     ["inputs"], "all regions of one or more simple polygons with positive area within about 40 degrees of extent, including ones centred exactly on the first guess",
     "No test calls it.",
     ["coral/coord.py", "coral/proj.py"], [("fixed-point iteration", "coral/coord.py:geocentroid"), ("azimuthal equal-area projection", "coral/proj.py:AzimuthalEqualArea")],
     ["returned longitude/latitude", "termination (step budget)"],
     "property-based testing: fixed-point validity predicate with an independent projection, metamorphic shifts", "Independent implementation of the Lambert azimuthal equal-area projection and polygon centroid; non-termination is detected by a deterministic branch budget.")

prop("C07", "Line simplification only drops redundant points",
     "Simplifying any polyline at a given pixel size yields the coordinates divided by the pixel size and rounded to the nearest integers, keeping the first and last vertex, emitting vertices only from the rounded input in their original order, and dropping only points that repeat the previous one or lie straight between their neighbours, so a path that does not retrace itself keeps its exact shape. "
     "In closed mode the ring keeps its cyclic vertex order and shape whatever its length. "
     "Spikes that go out and straight back are removed, and inputs of zero or one point are passed through.",
     ["inputs"], "all finite point sequences, all positive pixel sizes, all look-back lengths (powers of two), open and closed, including repeated points, long collinear runs and paths far longer than the look-back length",
     "No test calls it; failures need rings longer than the look-back length or special collinear patterns.",
     ["coral/coord.py"], [("rounding to pixels", "coral/coord.py:sqr_fit,nearest"), ("collinearity filter with look-back buffer", "coral/coord.py:open_no_slit,closed_no_slit,collinear,simplify")],
     ["sequence of output vertices"],
     "property-based testing against an exact reference simplifier plus validity predicates", "For paths that do not retrace themselves the output must equal an exact integer reference; for arbitrary paths validity predicates (sub-sequence, ends, no redundant straight points) apply.")

prop("C08", "Every projection's inverse undoes it",
     "For each map projection, every configuration (origin, standard parallels, radius or ellipsoid) and every point in its domain, projecting to the plane and back returns the original longitude (modulo whole turns) and latitude; latitudes returned lie within -90..90, and longitudes from the Mercator projections within -180..180. "
     "This covers the whole globe except each projection's singular points: points beyond 90 degrees from the centre, polar aspects and the projection centre itself included. "
     "Both directions always terminate and, where a projection announces a point as invalid, it does so with the projection error.",
     ["inputs", "configurations"], "nine projections x all origins/parallels (polar, antimeridian, southern) x radii/ellipsoids x points at least a small stated distance from the projection's singularities",
     "No test calls any projection except through one haversine doctest.",
     ["coral/proj.py"], [("forward/inverse formula pairs", "coral/proj.py:*.geo2rect,*.rect2geo"), ("angle normalisation", "coral/proj.py:corangle")],
     ["rect2geo(geo2rect(p)) against p as unit vectors"],
     "property-based round-trip testing", "Round trip compared as angular distance on the sphere with per-projection tolerance derived from conditioning; singular neighbourhoods excluded by a stated margin; step budget for iterative inverses.")

prop("C09", "Projections have the geometric character they are named for",
     "The Mercator family (spherical, ellipsoidal, transverse, oblique) and the stereographic projection preserve local angles; Eckert IV, Lambert azimuthal and Albers conic preserve area up to their fixed radius; the azimuthal equidistant projection shows true distance from its centre. "
     "All azimuthal projections map the centre to the origin and show the true direction from it, with north up and east to the right. "
     "This holds at every point of their domains, for every origin, pair of standard parallels, radius and ellipsoid.",
     ["inputs", "configurations"], "nine projections x configurations x points away from singularities",
     "No test computes a projected coordinate.",
     ["coral/proj.py"], [("forward formulas", "coral/proj.py:*.geo2rect")],
     ["numerical Jacobian of geo2rect", "distance and azimuth from the centre"],
     "property-based testing of differential invariants (numerical Jacobian) and independent spherical trigonometry", "Central differences with stated tolerance; excludes 1-degree neighbourhoods of singularities and of the antimeridian cut.")

prop("C10", "Projection scale, placement and mutual consistency",
     "Where a projection reports a local scale, it equals the actual magnification at that point (along meridians for the Albers conic), and projections without one say so with NotImplementedError. "
     "Projected coordinates scale linearly with the radius (or ellipsoid size), are unchanged when origin and point are shifted together in longitude or the point by whole turns (the Albers conic, which has no origin, excepted), place the central meridian on x = 0 and stay on the map of one globe; the Albers conic is true to scale on its standard parallels. "
     "Coinciding members of the family agree (ellipsoidal Mercator with zero eccentricity, oblique Mercator with a polar pole, transverse versus oblique), the default Earth models are WGS84 and its mean axis radius, and angle correction returns the equivalent angle in -pi..pi.",
     ["inputs", "configurations"], "all configurations and points as for C08; all finite angles up to thousands of turns",
     "No test reads a scale or compares two projections.",
     ["coral/proj.py"], [("scale formulas", "coral/proj.py:*.scale"), ("configuration defaults", "coral/proj.py:Proj,CProj,EProj"), ("corangle", "coral/proj.py:corangle")],
     ["scale() against numerical derivative", "pairs of projections"],
     "property-based metamorphic and differential testing", "Numerical derivative with stated tolerance and exact metamorphic relations.")

prop("C11", "A saved map frame loads back as the same frame",
     "Saving a frame and loading the file gives a frame with the same kind of projection, the same bounding box (exactly), and the same centre or standard parallels, radius or ellipsoid, so that it projects every point to the same coordinates up to rounding. "
     "This holds for every projection the library offers. "
     "The saved file is JSON, and saving does not alter the frame.",
     ["inputs", "configurations"], "all nine projections x origins/parallels x radii/ellipsoids x bounding boxes (ints and floats, negative, large)",
     "No test covers frames.",
     ["coral/frame.py", "coral/proj.py"], [("JSON model", "coral/frame.py:Frame.save,load")],
     ["loaded frame's bounding box and projected probe points"],
     "property-based round-trip testing through a scratch file", "Probe points projected by both frames must agree to relative 1e-9.")

prop("C12", "Frames place points on the grid and index entities by visibility",
     "A point of a frame is its projected position divided by the scale and rounded down on each axis, and flattening a polygon is projecting every vertex and simplifying the result at that scale. "
     "The cached name list of a frame holds, in order, exactly the names of those entities with at least one polygon whose projected bounding box collides with the frame, its length is reported, and loading the list returns the very same names. "
     "None of this depends on what was cached before.",
     ["inputs", "configurations"], "frames over several projections, scales and bounding boxes; entity collections with zero or more polygons inside, outside or straddling the frame; names with inner, leading and trailing blanks",
     "No test covers frames.",
     ["coral/frame.py"], [("point/planify", "coral/frame.py:Frame.point,planify"), ("name cache", "coral/frame.py:Frame.cachenames,loadnames")],
     ["returned points", "the .names file and loadnames"],
     "property-based testing against a recomputed model", "Model recomputes visibility with independent min/max boxes; boundary cases within float rounding of the frame edge are avoided by construction.")

prop("C13", "Colour gradients interpolate linearly between their stops",
     "For any set of colour stops with positions in 0..1, in any order, the colour at a stop's position is that stop's colour, between two neighbouring stops it is the linear blend of the two, and before the first or after the last stop it is that stop's colour; every position in 0..1 is answered, and stops sharing a position make a hard edge between the first and the last of them as given. "
     "The hexadecimal form is '#' followed by one digit per channel, the channel value times 15 rounded down. "
     "The predefined gradients obey the same rule.",
     ["inputs"], "all stop lists (1..8 stops, unsorted, with or without ends at 0 and 1), all positions in 0..1 including stop positions and their float neighbours",
     "No test covers gradients.",
     ["coral/gradient.py"], [("sorted stops and bisection", "coral/gradient.py:Gradient.__init__,get"), ("hex conversion", "coral/gradient.py:Gradient.get_hex")],
     ["returned colour tuples and strings"],
     "property-based testing against an exact rational interpolation", "Fractions-based reference with tolerance 1e-9; hex digit accepted when within float rounding of the boundary.")

prop("C14", "Field and row codecs keep every value in their declared range",
     "Every value within a field's declared range encodes to exactly the field's size in bytes and decodes back: integers exactly, reals (both range ends included) to within half a quantisation step and float rounding, strings exactly, and null for nullable fields distinct from every value. "
     "Integer fields take the smallest of 1, 2, 4 or 8 bytes that fits their range; values outside the range, over-long strings and nulls in non-nullable fields are refused, and nothing outside the range is ever decoded. "
     "A row encodes as the concatenation of its fields and decodes to the same values in order, and one with more or fewer values is refused.",
     ["inputs", "configurations"], "all integer ranges around every size boundary, real ranges x sizes 1/2/4/8, string sizes incl. multi-byte text filling the field exactly, nullable or not, rows of 1..6 fields",
     "No test covers the grid module.",
     ["coral/grid.py"], [("index/value mapping", "coral/grid.py:IVar,FVar"), ("string padding", "coral/grid.py:SVar"), ("row concatenation", "coral/grid.py:GRow")],
     ["encode/decode results", "len of encodings"],
     "property-based round-trip testing with boundary-biased ranges", "Quantisation bound computed exactly; encodings of range ends and of null checked for distinctness.")

prop("C15", "RangeGrid data sets read back exactly what was written",
     "Everything written to a RangeGrid data set (entities made of segments of rows, under explicit or default identifiers) is returned by a reader after closing: same segments, same number of rows, values as the row codec decodes them, with fields accessible under their names. "
     "Sequential reads follow the writing order, reads by identifier work in any order and the next sequential read continues after the entity last read, and an unknown identifier raises KeyError. "
     "The column specification (names, kinds, ranges, sizes, nullability) read from the file equals the one written.",
     ["inputs", "histories"], "row formats of 1..6 mixed fields with negative and multi-byte range limits, 0..8 entities of 0..4 segments of 0..40 rows (some >127), identifiers as ints or text with blanks, read histories mixing both access modes",
     "No test covers the rg module.",
     ["coral/rg.py", "coral/grid.py"], [("header and index writing", "coral/rg.py:Writer,_writeindex"), ("index lookup", "coral/rg.py:Reader.read,_readindex")],
     ["rows returned by read()"],
     "stateful/model-based round-trip testing through scratch files", "In-memory model of the data set; expected real values bounded by half a step.")

prop("C16", "PF geometry files read back every entity within their precision",
     "Every entity written to a PF file is read back under its name and index with the same polygons (a repeated closing point dropped, longitudes and latitudes brought into range), every coordinate within one quantisation step of the entity's bounding box at the chosen size (1, 2, 4 or 8 bytes). "
     "Entities can be read in any order and repeatedly, by index or name, with the same result, and the number of entities is reported. "
     "Closing the writer returns, for every stored point, the distance in metres between the original and the stored position.",
     ["inputs", "histories", "configurations"], "collections of 1..6 named entities of 1..4 polygons of 3..200 points anywhere on the globe (exactly at +-180/+-90, out-of-range longitudes/latitudes, thin polygons), four coordinate sizes, arbitrary read orders",
     "No test covers the pf module.",
     ["coral/pf.py"], [("quantisation against the bounding box", "coral/pf.py:Writer.write"), ("offset computation", "coral/pf.py:Reader.read"), ("variable-length lengths", "coral/pf.py:writevlv,readvlv")],
     ["points returned by read/get", "error tuple returned by close"],
     "stateful/model-based round-trip testing through scratch files", "Model keeps the normalised input; tolerance is one step of the (outward rounded) bounding box.")

prop("C17", "Damaged data files are refused, never misread or hung on",
     "Opening and fully reading a PF or RangeGrid data file that was cut short at any byte, or whose signature or version was altered, ends with an error in bounded time; a RangeGrid index cut short never yields anything but the written data. "
     "The variable-length integers used by both formats encode every non-negative integer (and, in the signed form, every integer) to a sequence that decodes back to it, consumes exactly its own bytes and is big-endian base 128 with the high bit marking continuation. "
     "An intact file followed by nothing else always reads.",
     ["inputs", "crash_points", "fault_sequences"], "every truncation point of generated files, altered signature bytes, integers up to 2^80 including every 7-bit boundary",
     "No test reads a file; a crash while writing can cut a file at any byte.",
     ["coral/pf.py", "coral/rg.py"], [("signature asserts and length-checked unpacking", "coral/pf.py:Reader._header,Reader.read"), ("vlv codecs", "coral/pf.py:writevlv,readvlv; coral/rg.py:writevlv,writesvlv")],
     ["exception or result of open+read of every entity", "termination (step budget)"],
     "fault-injection property testing: every truncation point, bounded by a deterministic step budget", "Files are produced by the real writer, cut at every byte; intact file must read, every proper prefix must raise.")

prop("C18", "Name similarity measures and best-match mapping",
     "The edit distance of two strings is the minimum number of insertions, deletions, substitutions and swaps of neighbouring characters (no substring edited twice); it is symmetric and zero exactly for equal strings, and the relative error is twice it over the total length. "
     "The Jaro and Jaro-Winkler similarities follow their published definition: within 0..1, symmetric for Jaro, 1 for equal non-empty strings, 0 with no characters in common, the Winkler form adding a tenth of the remainder per common leading character up to four. "
     "Mapping keys to values gives every key once, paired with a value of minimal relative error and scored one minus that error, best scores first.",
     ["inputs"], "all string pairs up to length 12 over small and full alphabets (including '*'), all non-empty key and value lists",
     "No test covers the names module.",
     ["coral/names.py"], [("dynamic programme", "coral/names.py:damlev,strerr"), ("matching window", "coral/names.py:jaro,jaro_winkler"), ("argmin and sort", "coral/names.py:mapping")],
     ["return values"],
     "property-based differential testing against independent reference implementations", "References: recursive optimal-string-alignment distance, textbook Jaro with match flags.")

prop("C19", "Accent folding and abbreviations",
     "Accent folding replaces each accented Latin letter it knows (acute, grave, circumflex, tilde, diaeresis on vowels, cedilla; both cases) by its base letter and leaves every other character alone. "
     "Abbreviating a list of distinct names to a length gives every name an abbreviation no longer than that length whose characters occur in that order in the folded upper-case name, the whole name if it fits and otherwise exactly that length, and as long as a candidate not yet taken allows it, starting with the initial of the name and the initials of its words, unimportant words aside. "
     "Abbreviations that had to be shortened never coincide with any other, or else the call fails saying it is unable to.",
     ["inputs"], "all strings; all lists of distinct multi-word names and lengths 2..6",
     "No test covers the names module.",
     ["coral/names.py"], [("translation table", "coral/names.py:ascii"), ("combination search", "coral/names.py:abbreviations")],
     ["returned strings and mapping"],
     "property-based testing against Unicode decomposition and validity predicates", "Oracle for folding is NFD decomposition restricted to the documented letters.")

prop("C20", "Raster canvases store exactly the pixels set and save them as netpbm",
     "On black-and-white, grey and colour canvases of any size, a pixel reads back the value last written to it, unwritten pixels read the background, and writing one pixel changes no other. "
     "Writing with an opacity blends linearly between old and new colour, rounded to the nearest level, opacity 0 and 1 giving exactly the old and the new colour. "
     "Saving writes a binary PBM, PGM or PPM file whose header and pixel data decode to exactly the canvas contents.",
     ["inputs", "histories"], "canvas sizes 1..40 including widths not multiple of 8, all backgrounds, all sequences of pixel writes with and without opacity",
     "No test covers the raster module.",
     ["coral/raster.py"], [("index arithmetic and bit masks", "coral/raster.py:*.__getitem__,*.__setitem__"), ("blend", "coral/raster.py:*.blend"), ("save", "coral/raster.py:*.save")],
     ["all pixels after every history", "saved file"],
     "stateful model-based testing with an independent netpbm decoder", "Dictionary model of pixels; blended values accepted within rounding of the exact value.")

prop("C21", "Lines are drawn connected, complete and only where they belong",
     "A plain line between any two pixels sets exactly one pixel per step along its longer axis, both ends included, each touching the next and within half a pixel of the ideal line, and changes nothing else. "
     "An anti-aliased line changes only pixels less than one pixel away from the ideal line, gives the two pixels straddling each interior step complementary weights according to their distance, may touch the canvas border, and is the same drawn from either end. "
     "Stroking a polygon draws the segment between every pair of consecutive vertices including last to first.",
     ["inputs"], "all integer end points on canvases up to 40x40 including single-pixel lines, border lines, all octants and directions; polygons of 1..8 vertices",
     "No test covers the raster module.",
     ["coral/raster.py"], [("Bresenham", "coral/raster.py:BaseCanvas.line"), ("Wu", "coral/raster.py:BaseCanvas.aaline"), ("stroke", "coral/raster.py:BaseCanvas.strokepolygon")],
     ["set of changed pixels and their levels"],
     "property-based testing of geometric validity predicates", "Exact rational distances; any choice at exact half-pixel ties is accepted.")

prop("C22", "Polygon filling colours the inside and nothing else",
     "Filling scanned polygons sets every pixel whose row sample point lies inside by more than half a pixel horizontally and no pixel that lies outside by more than that, for outer rings with holes of opposite orientation, several polygons at once, polygons sharing edges or touching the canvas borders. "
     "Rows run from the polygon's top vertex inclusive to its bottom vertex exclusive, and the result does not depend on the starting vertex of a ring or the order of the polygons. "
     "Polygons that share edges leave neither a gap nor an overlap between them, whether filled one by one or together, and pixels outside are left untouched.",
     ["inputs"], "simple integer polygons (convex, star-shaped, rectilinear, combs) and ring-with-hole and side-by-side compositions on canvases up to 40x40, on all three canvas kinds",
     "No test covers the raster module.",
     ["coral/raster.py"], [("scanline marks", "coral/raster.py:BaseCanvas.scanpolygon"), ("span filling", "coral/raster.py:BaseCanvas.fillpolygons")],
     ["set of changed pixels"],
     "property-based testing against an exact rational winding-number reference", "Pixels within the half-pixel tolerance band of an edge crossing are not judged.")

prop("C23", "Shapefile geometry survives writing and is written to specification",
     "Geometry written with the shapefile writer (null, point, polyline, polygon and multipoint shapes, their Z and M variants and multipatches) reads back with the same shape types, parts, points and, where the type has them, elevations and measures, rings closed. "
     "The .shp and .shx files follow the published format: header length equal to the file size, record numbers from 1, record lengths and index offsets locating every record, bounding boxes and Z/M ranges covering exactly the coordinates present. "
     "This holds for any number of shapes and parts, alone or mixed with null shapes.",
     ["inputs", "configurations"], "all shape types x 1..8 shapes x 1..4 parts x 1..12 points with arbitrary finite coordinates",
     "No test covers the shapefile module.",
     ["coral/shapefile.py"], [("record and header writing", "coral/shapefile.py:Writer.__shpRecords,__shapefileHeader,__shxRecords"), ("record parsing", "coral/shapefile.py:Reader.__shape")],
     ["shapes() of a reader", "bytes of .shp/.shx parsed by an independent decoder"],
     "property-based round-trip testing plus an independent ESRI-format decoder", "Decoder written from the ESRI white paper; doubles compared bit for bit.")

prop("C24", "Shapefile attributes survive writing",
     "Attribute records written with the shapefile writer read back with the same field definitions and values: text (in the chosen encoding, also non-ASCII and empty), whole and decimal numbers, dates (as numbers, text or date objects), logical and missing values, whether given in order or by field name. "
     "Text longer than its field is cut to whole characters that fit its byte size and never disturbs other fields or records. "
     "The .dbf file is well formed: record count, header and record lengths consistent with its size, one record per attribute row.",
     ["inputs", "configurations"], "1..6 fields of kinds C, N, F, L, D with sizes 1..80 and decimals, 0..10 records, encodings utf-8 and latin-1, text with multi-byte characters at the cut",
     "No test covers the shapefile module.",
     ["coral/shapefile.py"], [("record formatting", "coral/shapefile.py:Writer.__dbfRecords,__dbfHeader,record,field"), ("record parsing", "coral/shapefile.py:Reader.__record")],
     ["records()/fields of a reader", "bytes of .dbf"],
     "property-based round-trip testing plus an independent DBF decoder", "Independent DBF decoder; numbers compared by value.")

prop("C25", "Conforming shapefiles from other producers are read faithfully",
     "Any conforming shapefile set is read as what it contains, whoever wrote it: every shape type with or without the optional measures, null shapes in between, surplus content at the end of a record, measures marked as no-data (returned as none), and attribute tables in their declared encoding. "
     "Attribute rows flagged as deleted are left out of the record list and never shift the pairing between the remaining rows and their shapes. "
     "Header fields (shape type, bounding box, Z and M ranges, record count) are reported as stored.",
     ["inputs", "configurations"], "files assembled byte by byte by an independent encoder: all shape types, 0..8 records, optional measures present or absent, padding, deleted flags in any pattern, with and without index file",
     "No test covers the shapefile module, and its own writer can only produce a subset of valid files.",
     ["coral/shapefile.py"], [("record parsing", "coral/shapefile.py:Reader.__shape,__record"), ("pairing", "coral/shapefile.py:Reader.shapeRecords,shapeRecord,records")],
     ["shapes, records and shapeRecords of a reader"],
     "generation-based fuzzing with an independent format encoder as oracle", "The encoder knows the intended content; everything the reader reports is compared with it.")

prop("C26", "All ways of reaching a shape or record agree, for every access history",
     "For every shapefile, fetching shapes and records one by one (by non-negative or negative index), as lists, by iteration, or as shape-record pairs gives the same content in any order of calls, from paths or file objects, with or without the index file, and likewise after other files were loaded into the same reader; indexes outside -n..n-1 raise IndexError. "
     "A writer can be saved repeatedly, with shapes added in between, each save being a correct file set, to a base name, to separate files or to file objects. "
     "Opening a shapefile in the editor and saving it elsewhere reproduces its shapes, fields and records, and what is added there is balanced by blank records and null shapes.",
     ["histories", "inputs"], "all call histories over shape, shapes, iterShapes, record, records, iterRecords, shapeRecord, shapeRecords; all save/add/save histories; file sets from 1 record up",
     "No test covers the shapefile module; the failure needs a particular order of calls.",
     ["coral/shapefile.py"], [("offset table and index restriction", "coral/shapefile.py:Reader.__shapeIndex,__restrictIndex,shape,record"), ("offset bookkeeping", "coral/shapefile.py:Writer.save,__shpRecords,__shxRecords"), ("editor", "coral/shapefile.py:Editor.__init__")],
     ["results of every access method"],
     "stateful model-based testing", "Model is the written content; every access is compared after arbitrary histories.")

prop("C27", "The GeoJSON view of a shape partitions its points correctly",
     "The geo interface of a shape names the GeoJSON type for its geometry and number of parts and contains all its points, in order, split exactly at its parts. "
     "For polygons, the first ring and every clockwise ring starts a new polygon and the counter-clockwise rings that follow belong to it as holes, with a single polygon reported as Polygon and several as MultiPolygon. "
     "The signed area used for this equals the exact ring area, positive for counter-clockwise rings.",
     ["inputs"], "points, multipoints, polylines and polygons (plain, Z and M) with 1..5 parts of either orientation",
     "No test covers the shapefile module.",
     ["coral/shapefile.py"], [("ring grouping", "coral/shapefile.py:_Shape.__geo_interface__"), ("orientation", "coral/shapefile.py:signed_area")],
     ["__geo_interface__ of read shapes"],
     "property-based testing against an exact regrouping model", "Integer coordinates make ring areas exact.")

prop("C28", "Statistics equal their definitions",
     "For every non-empty tuple of numbers, the sum is the exact sum correctly rounded, and mean, population variance and standard deviation, minimum, maximum and length equal their mathematical definitions to rounding, also for cancelling or nearly equal values; covariance and correlation of equally long tuples likewise, covariance being symmetric with cov(x, x) the variance, and correlation within -1..1 to rounding, unchanged by positive linear rescaling. "
     "The two Gini formulas give the same value for any two or more positive values in any order, 0 for equal values and 1 when one value has everything. "
     "Gini is unchanged by multiplying all values by a positive constant.",
     ["inputs"], "tuples of 1..40 ints or floats of mixed magnitude and sign (positive for Gini)",
     "No test covers the stats module.",
     ["coral/stats.py"], [("formulas", "coral/stats.py:avg,var,std_dev,covar,corr,gini_kakwani,gini_deaton")],
     ["return values"],
     "property-based differential testing against exact rational arithmetic", "Fraction reference; tolerance relative to the magnitude of the data.")

prop("C29", "Caching of statistics is invisible and accounted for",
     "Whatever calls were made before, in whatever order, and whether or not the caches were cleared or overflowed in between, a statistic of a given tuple returns what a fresh computation would return. "
     "The cache report counts every hit, miss and stored entry of all cached statistics and clearing empties all of them. "
     "Repeating a call without clearing is answered from the cache.",
     ["histories"], "all call histories of up to 60 calls over a pool of tuples and generators, with clears in between, longer than the cache sizes",
     "No test covers the stats module; staleness needs a history.",
     ["coral/stats.py"], [("memoisation", "coral/stats.py:memoize"), ("aggregate report", "coral/stats.py:cache_info,cache_clear")],
     ["return values along the history", "cache_info()"],
     "stateful model-based testing", "Fresh-computation oracle per call; accounting laws on cache_info deltas.")

prop("C30", "Tables survive writing to and reading from text files",
     "A table of text values written to a file and read back has the same columns, rows and values in the same order, for any separator, with non-ASCII text and empty values. "
     "Writing or reading a subset or reordering of the columns gives each row exactly the values belonging to the named columns. "
     "Blank lines and comments (from the comment mark to the end of the line) are ignored wherever they stand, and a file without a header line is refused rather than waited on.",
     ["inputs"], "tables of 1..6 columns and 1..12 rows of text without separators, comment marks or line breaks; all column selections and orders; comments and blank lines inserted anywhere",
     "No test covers the table module.",
     ["coral/table.py"], [("parsing", "coral/table.py:readfile"), ("formatting", "coral/table.py:writefile")],
     ["rows returned by readfile", "termination (step budget)"],
     "property-based round-trip testing through scratch files", "Model rows as dictionaries; step budget detects the endless header search.")

prop("C31", "Table operations are relationally correct and leave their input alone",
     "Joining two tables keeps every row of the first in order, extended with the values of the first row of the second that agrees on all pivot columns (by default the common ones; in a shared column the second table wins), or with empty text where there is none. "
     "Lookup of one or all rows by column value, indexing by a column, adding a computed column and deleting columns return exactly the rows and columns their definition says, in order. "
     "The pretty-printer prints every value in its own aligned column under its heading, and no operation alters its input tables.",
     ["inputs"], "tables of 1..5 columns and 1..8 rows over a small value pool (many duplicates and misses), explicit or default pivots and keys",
     "No test covers the table module.",
     ["coral/table.py"], [("join", "coral/table.py:join"), ("selection", "coral/table.py:getone,getall,indexby"), ("projection", "coral/table.py:addkey,delkeys"), ("pprint", "coral/table.py:pprint")],
     ["returned rows as dictionaries", "captured standard output"],
     "property-based testing against a dictionary-based relational model", "Column order of joins with default keys is unspecified, so rows are compared as dictionaries.")

prop("C32", "The progress meter is transparent and tells the truth",
     "Wrapping any iterable, sized or not, with any options yields exactly its items in order, lazily, and lets an exception of the iterable through. "
     "Everything it prints goes to the given file; when leaving the meter, the last status shows the number of items produced, and when not leaving, the line is blanked. "
     "A status line shows count, total and percentage when the total is known and not exceeded, a bar of one mark per full tenth, and elapsed and remaining time derived from the rate; shorter lines fully overwrite longer ones.",
     ["inputs", "histories"], "lists, generators, ranges of 0..50 items, totals absent, right, too small or too large, all option combinations; all non-negative counts, totals and times",
     "No test covers the tqdm module.",
     ["coral/tqdm.py"], [("generator wrapper", "coral/tqdm.py:tqdm"), ("formatting", "coral/tqdm.py:format_meter,format_interval,StatusPrinter")],
     ["items yielded", "text written to the file object"],
     "property-based testing with a virtual terminal and an arithmetic reference for the status line", "Time is observed only through the printed text; rate text is parsed, not predicted.")

prop("C33", "EPS output paints each element exactly as requested",
     "Executing the saved EPS program paints, in order, exactly the circles, polylines, polygons, rounded polygons, texts and images added to the canvas, each with its own geometry and with the ink, line width and dash requested for it (fill before stroke), whatever was drawn before and whatever the background colour. "
     "The background, if any, is painted first over the whole page. "
     "Every operator the program uses is defined before use, text appears verbatim whatever characters it contains, and image data verbatim at its position and size.",
     ["histories", "inputs"], "all sequences of up to 25 drawing and state calls with colours, greys, widths and dashes from small pools, with and without background, on original and copied canvases",
     "No test covers the vector module; the failure needs a particular sequence of inks.",
     ["coral/vector.py", "coral/defs.ps"], [("cached graphics state", "coral/vector.py:Canvas.setgray,setcolor,setink,setwidth,setdash"), ("drawing methods", "coral/vector.py:Canvas.add*"), ("prologue and dependencies", "coral/vector.py:Canvas.save")],
     ["operations painted by a PostScript interpreter"],
     "stateful model-based testing with a small PostScript interpreter as oracle", "The interpreter implements the operators used, with gsave/grestore, and records paint operations with the ink in force.")

prop("C34", "EPS page box: everything drawn is on the page; copies are independent",
     "The canvas bounding box is exactly the smallest box covering all circles, lines, polygons and images added since it was last reset, straight horizontal and vertical lines included, and the saved page box is that box grown by the margin. "
     "Saved at a fixed size, the page is the square of that size, and the drawing is centred in it, uniformly scaled so that its longer side fills the size minus the margin. "
     "Drawing on a copy of a canvas never affects the original or the other way round, and saving does not alter the canvas.",
     ["inputs", "histories"], "all drawing sequences with elements anywhere, sizes and margins, interleaved copies and resets",
     "No test covers the vector module.",
     ["coral/vector.py", "coral/bbox.py"], [("bounding box accumulation", "coral/vector.py:Canvas.add*"), ("page setup", "coral/vector.py:Canvas.save"), ("copy", "coral/vector.py:Canvas.copy,resetbbox")],
     ["canvas.bbox", "%%BoundingBox and the page transformation of the saved file"],
     "property-based testing against a min/max model and the interpreted page transformation", "The transformation matrix is obtained by interpreting the saved program.")

prop("C35", "From shapefile to map: the pipeline preserves the geography",
     "Converting a shapefile to a PF file keeps, for every shape, its name as computed from its attributes and each of its parts as a polygon within the PF precision. "
     "Following the documented recipe (read shapes, split into parts, project, simplify at a pixel size, add to a canvas, save) paints one polygon per part whose vertices are the projected, rounded vertices of that part. "
     "A frame over the converted file lists exactly the entities that fall into it.",
     ["inputs", "configurations"], "shapefiles of 1..6 polygon records with 1..4 parts, all four PF sizes, several projections and pixel sizes",
     "No test runs two modules together.",
     ["coral/pf.py", "coral/shapefile.py", "coral/coord.py", "coral/vector.py", "coral/frame.py"], [("conversion", "coral/pf.py:sf2pf"), ("recipe", "README.rst")],
     ["PF contents", "painted polygons of the EPS"],
     "property-based end-to-end testing against an independently composed model", "Model composes independently checked stages.")


prop("C36", "Export and animation hand over the right pictures",
     "Exporting a canvas, or a saved EPS file, to an image runs the converter once, on exactly the drawing that saving writes, with the requested device, output path, size and margin, whatever characters the path holds, and reports its exit status. "
     "An animation shows the given frames in order and as often as given, all on one common page that covers every one of them, and is written to the given path with the given delay. "
     "Neither leaves temporary files behind, alters the canvases or is disturbed by another process exporting at the same time.",
     ["inputs", "configurations"], "drawings, devices, sizes, margins and paths with blanks, quotes and shell characters; animations of 1..130 frames with repetitions; failing converters; a second process exporting meanwhile",
     "No test covers the vector module, and the programs it calls are not installed where tests run.",
     ["coral/vector.py"], [("command lines and temporary files", "coral/vector.py:Canvas.export,export"), ("common page and order of frames", "coral/vector.py:animation")],
     ["arguments and input of the programs", "files written", "return values"],
     "property-based testing with recording stand-ins for the external programs", "Stand-ins for gs and convert on the search path copy their input and record their arguments; pictures are compared with what save writes.")


prop("C37", "The same input gives the same output, in every process and history",
     "What the library writes and returns is determined by the arguments alone: data sets, drawings, images, frames, attribute tables (their date of writing aside), joined tables, abbreviations, mappings, centroids, simplified lines and projected points come out identical in every process, whatever its hash seed. "
     "They do not depend on what was computed, written or read before in the same process. "
     "Repeating a call with the same arguments gives the same result.",
     ["inputs", "histories"], "twenty kinds of operations over the inputs of the other properties, in two processes with different hash seeds, after 0..8 other operations and repeated",
     "Tests run in one process, in one order, and never compare two runs.",
     ["coral/table.py", "coral/names.py", "coral/vector.py", "coral/shapefile.py", "coral/pf.py", "coral/rg.py", "coral/frame.py", "coral/raster.py", "coral/coord.py", "coral/proj.py"],
     [("order of columns", "coral/table.py:join"), ("choice among candidates", "coral/names.py:abbreviations,mapping"), ("dependencies of the prologue", "coral/vector.py:Canvas.save")],
     ["contents of written files", "returned values"],
     "metamorphic property-based testing across processes with different hash seeds and histories", "Digests of everything written and returned are compared between a process that performs the operation first and one that performs it later and twice.")


prop("C38", "A refused call leaves no trace",
     "When a call is refused because of its arguments (values beyond the declared ranges, malformed points, inks, rows, parts or pixels, a source that fails while it is read), whatever it was called on is as if the call had not been made. "
     "A RangeGrid or PF file, a shapefile or an image finished afterwards holds exactly the entities, shapes, records, pixels and errors of the accepted calls, reachable in order and by name; a drawing shows exactly the accepted elements, in their inks, dashes and places, on the same page.",
     ["inputs", "histories"], "histories of accepted calls with refused ones at any place, of every kind of fault at every position within an entity, row, part or element",
     "Tests of errors stop at the exception: none goes on to use the object that raised it.",
     ["coral/rg.py", "coral/pf.py", "coral/shapefile.py", "coral/vector.py", "coral/raster.py"],
     [("entities written whole", "coral/rg.py:Writer.write,coral/pf.py:Writer.write"), ("elements added whole", "coral/vector.py:Canvas.add*"), ("shapes and records", "coral/shapefile.py:Writer.poly,record,save"), ("pixels", "coral/raster.py:Canvas.__setitem__")],
     ["files written after the refusal", "pages drawn after the refusal"],
     "stateful property-based testing with injected faulty calls against the history without them", "Outcome with refused calls is compared with the model of the accepted ones.")


prop("C39", "Cut or incomplete shapefile sets and frame files are refused, never misread",
     "When a file of a shapefile set was cut short at any byte, or is missing, every answer the reader still gives is the one the intact set gives; whatever can no longer be answered is refused with an exception. "
     "That holds for every order of reading shapes, records, pairs and iterators, forwards, by index and from the end, also after an earlier refusal. "
     "A frame file cut short is refused.",
     ["inputs", "crash points", "histories"], "every kind of set, each of its files cut at drawn or all positions or missing, by path or as file objects, read by up to 10 accesses in any order",
     "Tests read one intact set; a short read shows only at particular positions and accesses.",
     ["coral/shapefile.py", "coral/frame.py"],
     [("reading of records", "coral/shapefile.py:Reader.__shape,__record"), ("index", "coral/shapefile.py:Reader.__shapeIndex"), ("headers", "coral/shapefile.py:Reader.__shpHeader,__dbfHeader"), ("frames", "coral/frame.py:load")],
     ["values returned", "exceptions"],
     "fault-injecting property-based testing with differential reading of the intact set", "The intact set read by the same calls is the oracle; only cuts and missing files are injected.")


prop("C40", "Arguments are left alone, and results belong to the caller",
     "No operation alters the lists, points, rings, rows, colours, tables or boxes passed to it, nor does it matter what the caller does with them after the call has returned: what was written, drawn or built shows them as they were. "
     "Likewise what a call returns belongs to the caller: changing a shape, record, entity, table, mapping or list that was returned does not change what any later call returns.",
     ["inputs", "histories"], "arguments of all writers, canvases, gradients, frames, tables and geometric functions as nested lists, changed after the call; histories of reading with every result changed before the next",
     "Tests pass literals and compare results at once; sharing shows only when a list is used again.",
     ["coral/gradient.py", "coral/shapefile.py", "coral/pf.py", "coral/rg.py", "coral/vector.py", "coral/raster.py", "coral/coord.py", "coral/table.py", "coral/names.py", "coral/frame.py", "coral/bbox.py"],
     [("stops of a gradient", "coral/gradient.py:Gradient.__init__"), ("shapes and parts kept until saving", "coral/shapefile.py:Writer.poly,record"), ("closing points", "coral/pf.py:Writer.write"), ("cached index and records", "coral/shapefile.py:Reader,coral/rg.py:Reader")],
     ["arguments after the call", "outcomes after arguments and results were changed"],
     "metamorphic property-based testing: the same operation with and without interference through shared lists", "Scanline marks consumed by fillpolygons, and objects documented as shared, are excepted.")


prop("C41", "An interrupted writer never leaves a file that reads as something else",
     "If the process stops anywhere while a RangeGrid data set, a PF file or a frame is being written, what is then on disk is either refused by the reader or read as exactly the finished data set, or as the one that stood there before. "
     "That holds whichever part of the written data has reached the disk by then.",
     ["crash points", "inputs"], "data sets written to a new place, or over a similar or different one, stopped after every statement of the library, with nothing, everything, or either file of the pair flushed",
     "A test writes files to the end; the state in between is never looked at.",
     ["coral/rg.py", "coral/pf.py", "coral/frame.py"],
     [("header completed last", "coral/rg.py:Writer.close"), ("index", "coral/rg.py:_writeindex"), ("signature and lengths", "coral/pf.py:Writer.close,Reader.__init__"), ("JSON", "coral/frame.py:Frame.save,load")],
     ["files at every point of writing", "values read or exceptions"],
     "crash-point enumeration over generated data sets with the reader as judge", "States of the directory are recorded at every executed line, under four flushing disciplines; reordering below the file level is not modelled.")

prop("C42", "Independent objects do not influence each other",
     "Writers, readers, canvases, buffers, lazy results and other objects that a program uses in turns behave as each does on its own: whatever the order of calls to different objects, every object's results and the files it writes are those it gives alone. "
     "That includes several readers of one data set.",
     ["schedules", "histories"], "2..4 tasks of one kind, on one file set, or of different kinds, interleaved by a drawn schedule",
     "Tests use one object at a time, from start to end, so state shared between objects or kept at module level is not seen.",
     ["coral/vector.py", "coral/shapefile.py", "coral/rg.py", "coral/pf.py", "coral/coord.py", "coral/raster.py", "coral/tqdm.py"],
     [("graphics state", "coral/vector.py:Canvas.__init__,copy"), ("lists of the writer, offsets of the reader", "coral/shapefile.py:Writer,Reader"), ("open files", "coral/rg.py:Reader, coral/pf.py:Reader"), ("ring", "coral/coord.py:Buffer"), ("scan lists", "coral/raster.py:BaseCanvas.scanpolygon")],
     ["results of every call", "bytes written"],
     "model-based schedule generation: interleaved run against each task run alone (metamorphic)", "Calls are interleaved in one thread; objects do not share files that one of them writes.")

prop("C43", "The surroundings of the process make no difference",
     "Given the same inputs, the same values are returned, the same files are written, and the same calls and files are refused, whatever the locale and its character encoding, the time zone, the current directory, the environment variables and the optimisation level (python -O) of the process. "
     "A file written in one such process reads the same in any other.",
     ["configurations", "inputs"], "over thirty kinds of operations, names with non-ASCII letters, invalid values and foreign files among them, in processes that differ in all of these",
     "Tests run in one process with one locale and with assertions enabled.",
     ["coral/frame.py", "coral/rg.py", "coral/vector.py", "coral/table.py", "coral/grid.py", "coral/pf.py", "coral/coord.py", "coral/shapefile.py"],
     [("text files", "coral/frame.py:Frame.cachenames,loadnames; coral/rg.py:_writeindex,_readindex; coral/vector.py:Canvas.save; coral/table.py:readfile,writefile"), ("refusals", "coral/grid.py, coral/pf.py:Reader._header, coral/rg.py:Reader._header, coral/coord.py:Buffer")],
     ["values, exceptions and files of each process"],
     "differential testing of generated operations between processes in different surroundings", "Two locales (ASCII and UTF-8) are present; other byte orders and systems are out of reach.")

prop("C44", "Files are written under the name asked for, and no others are touched",
     "Whatever is saved goes to exactly the files its name stands for, in the directory named, and replaces what they held completely; every other file stays as it was, names that differ only after a dot included, and reading changes no file. "
     "Every data set stays readable under its name, relative or absolute, until one of its own files is overwritten.",
     ["histories"], "2..10 data sets of eleven kinds saved under confusable names (dots, blanks, accents, extensions of other kinds) in several directories, with the current directory changing, and read in between",
     "Tests write no files or one, to a fresh place.",
     ["coral/shapefile.py", "coral/rg.py", "coral/pf.py", "coral/frame.py", "coral/table.py", "coral/raster.py", "coral/vector.py"],
     [("names of the three files", "coral/shapefile.py:Reader.load,Writer.saveShp,saveShx,saveDbf,save,Editor.__init__"), ("names of the pair", "coral/rg.py:Writer,Reader"), ("names file", "coral/frame.py:Frame.cachenames,loadnames")],
     ["bytes of all files in the tree after every call", "values read back"],
     "model-based generation of histories of saving and reading, against a map from names to contents", "Ordinary names on one file system; links and permissions are not varied.")

prop("C45", "Arguments count by their contents, not by their types",
     "An integer and the float equal to it, and points and sequences given as tuples, lists, arrays, named tuples or iterators with the same contents, lead to the same results, drawings and files. "
     "This holds for boxes, navigation, simplification, centroids, projections, frames, gradients, the writers of all formats, canvases, tables, statistics and progress meters.",
     ["inputs"], "fifteen families of operations, each repeated three times with arguments of other types and equal contents",
     "Tests pass tuples and floats; what else a caller may hand over is not varied.",
     ["coral/bbox.py", "coral/coord.py", "coral/proj.py", "coral/frame.py", "coral/gradient.py", "coral/rg.py", "coral/pf.py", "coral/shapefile.py", "coral/vector.py", "coral/raster.py", "coral/stats.py", "coral/table.py"],
     [("constructor", "coral/bbox.py:BBox.__init__"), ("vertices", "coral/shapefile.py:Writer.poly; coral/pf.py:Writer.write; coral/vector.py:Canvas.addpolygon"), ("rows", "coral/rg.py:Writer.write")],
     ["results and files"],
     "metamorphic property-based testing: equal arguments of other types", "int and float only; where one type is documented (inks, hashable sequences, pixel coordinates) others are left out.")

prop("C46", "Saved means saved, closed means closed",
     "When a save or close returns, each file it was to write is complete and no longer held open, while the object that saved it is still alive, and as many saves as wanted may follow. "
     "Readers that were closed or dropped, and reads that ended or were refused, hold no file; file objects passed in by the caller stay open.",
     ["crash", "inputs"], "data sets of eight kinds saved in all ways and inspected on return; intact and damaged data sets read in part or as a whole; file objects of the caller",
     "Tests let objects go before they look at files, so unflushed buffers and leaked handles never show.",
     ["coral/shapefile.py", "coral/rg.py", "coral/pf.py", "coral/vector.py", "coral/raster.py", "coral/frame.py", "coral/table.py", "coral/names.py"],
     [("save", "coral/shapefile.py:Writer.save; coral/vector.py:Canvas.save; coral/raster.py:Canvas.save"), ("close", "coral/rg.py:Writer.close; coral/pf.py:Writer.close"), ("readers", "coral/rg.py:Reader; coral/pf.py:Reader; coral/shapefile.py:Reader")],
     ["files in the file system", "open file descriptors"],
     "property-based testing: descriptors of the process and bytes on disk after each call, against those after the objects are gone", "Linux (/proc/self/fd) and CPython only.")

prop("C47", "Looking changes nothing",
     "Queries, renderings as text, copies and saves elsewhere, made at any point in the life of an object and any number of times, change neither the results of later calls nor the final state or file. "
     "The same question asked twice without a change in between gets the same answer, and a file saved twice has the same bytes.",
     ["histories"], "histories of buffers, EPS canvases, bitmaps, shapefile writers and editors, and of projections, frames, boxes, gradients, field codecs, statistics and name functions, with queries put in anywhere",
     "Tests ask once, at the end; caches and clean-ups made while answering show only when something follows.",
     ["coral/coord.py", "coral/vector.py", "coral/raster.py", "coral/shapefile.py", "coral/frame.py", "coral/gradient.py", "coral/stats.py", "coral/proj.py", "coral/grid.py", "coral/names.py"],
     [("saving", "coral/vector.py:Canvas.save; coral/raster.py:Canvas.save; coral/shapefile.py:Writer.save; coral/frame.py:Frame.save"), ("queries", "coral/coord.py:Buffer.peek,__str__; coral/shapefile.py:Writer.bbox,shape,shapes"), ("copies", "coral/vector.py:Canvas.copy")],
     ["results of calls", "saved files"],
     "metamorphic property-based testing: histories with and without queries", "Reading sequentially and taking from a buffer are changes, not queries.")
prop("C48", "Every call ends, whatever numbers it is given",
     "A call with huge, tiny, infinite or undefined numbers among its coordinates, values, scales or bounds ends: with a result or with an exception. "
     "No loop that approaches a result or brings a number into range runs without end because rounding, overflow or an undefined value keeps it from arriving.",
     ["extremes"], "eighteen families of calls in all parts of the library, with numbers up to the largest and down to the smallest float, integers beyond them, infinities and undefined values among ordinary ones",
     "A test that would hang is not written, and no-data markers such as -1.5e38 or nan turn up in real data only.",
     ["coral/coord.py", "coral/proj.py", "coral/pf.py", "coral/rg.py", "coral/grid.py", "coral/frame.py", "coral/bbox.py", "coral/gradient.py", "coral/stats.py", "coral/table.py", "coral/tqdm.py", "coral/vector.py", "coral/shapefile.py"],
     [("iterations", "coral/coord.py:geocentroid,simplify; coral/proj.py:EMercator.rect2geo,EckertIV.geo2rect"), ("ranges", "coral/proj.py:corangle; coral/pf.py:Writer.write"), ("digits", "coral/pf.py:base128; coral/rg.py:base128")],
     ["termination within a bounded number of steps"],
     "property-based testing with a step counter", "The time that long lines, large bitmaps and many points take is not judged here.")

prop("C49", "Threads that share nothing they change do not meet",
     "Calls made from several threads, on objects of their own or on shared ones that none of them changes, give each thread what they give alone, wherever the threads take turns within the calls. "
     "No result passes through a scratch variable of a module, class, default argument or process-wide setting where another thread can reach it.",
     ["schedules", "inputs"], "tasks of all parts of the library in two to four threads, and calls on a shared projection, frame, gradient, field row, box or table and of the plain functions; turns between any two lines of the library by drawn schedules",
     "Tests run in one thread, and where threads are tried the turns fall by chance, seldom inside the few lines that matter.",
     ["coral/bbox.py", "coral/coord.py", "coral/frame.py", "coral/gradient.py", "coral/grid.py", "coral/names.py", "coral/pf.py", "coral/proj.py", "coral/raster.py", "coral/rg.py", "coral/shapefile.py", "coral/stats.py", "coral/table.py", "coral/tqdm.py", "coral/vector.py"],
     [("functions", "coral/coord.py:geocentroid,simplify; coral/names.py:mapping,abbreviations; coral/stats.py:cache"), ("shared objects", "coral/proj.py:geo2rect,rect2geo; coral/gradient.py:Gradient.get; coral/grid.py:GRow.encode"), ("tasks", "coral/shapefile.py:Writer,Reader; coral/vector.py:Canvas; coral/raster.py:Canvas")],
     ["results of calls per thread", "files written per thread"],
     "property-based testing of schedules: threads handed over between lines by a drawn schedule, against the same calls one after another", "Turns within a line, and threads that change the same object, are left out.")

prop("C50", "Reading one thing depends on that thing only",
     "A shape, record or entity that is intact reads back as it was written whatever the others in its file contain, also after a failed attempt at a damaged one, and going through a file gives everything before the first damaged item. "
     "Opening a shapefile reads its headers only, and reading one shape or record reads little more than that shape or record from the file.",
     ["inputs", "faults", "histories"], "data sets with garbage in place of any of their shapes, attribute rows or entities, any sequence of accesses, intact and damaged ones mixed; larger data sets behind file objects that count the bytes taken",
     "Tests read small intact files, where reading everything gives the same result as reading what was asked for.",
     ["coral/shapefile.py", "coral/rg.py", "coral/pf.py"],
     [("headers", "coral/shapefile.py:Reader.load,__shpHeader,__dbfHeader"), ("one item", "coral/shapefile.py:Reader.shape,record,shapeRecord,iterShapes,iterRecords; coral/rg.py:Reader.read; coral/pf.py:Reader.read,get")],
     ["values returned", "bytes read from file objects"],
     "property-based testing with faults put into files, and metering of file objects", "Record headers and file headers stay intact; reading ahead by a quarter of a file is allowed.")


def main():
    with open(os.path.join(V, "properties.jsonl"), "w") as f:
        for p in P:
            f.write(json.dumps({
                "id": p["id"], "title": p["title"], "statement": p["statement"],
                "quantifier": {"over": p["over"], "text": p["text"]},
                "why_tests_cant": p["why"],
                "anchors": {"files": p["files"],
                            "mechanism": [{"name": m[0], "where": m[1]} for m in p["mech"]],
                            "observe_at": p["observe"], "hook_needed": None}}) + "\n")
    have = [p for p in P if os.path.exists(os.path.join(V, "checks", p["id"].lower() + ".py"))]
    na = [p for p in P if p not in have]
    man = {
        "version": 1,
        "setup_cmd": "python3-vt /verif/check.py --selftest",
        "checks": [{
            "property": p["id"],
            "quick_cmd": "python3-vt /verif/check.py %s" % p["id"],
            "thorough_cmd": "python3-vt /verif/check.py %s --tier thorough" % p["id"],
            "evidence_file": "evidence/%s.json" % p["id"],
            "technique": p["technique"], "level": "exploration",
            "level_note": p["note"] + " Generated-input search: no absence claim beyond the cases explored."}
            for p in have],
        "not_applicable": [{"property": p["id"], "reason": "check not built yet"} for p in na],
        "notes": "Hypothesis-driven checks in checks/; shared machinery in vlib/; see DESIGN.md.",
    }
    with open(os.path.join(V, "MANIFEST.json"), "w") as f:
        json.dump(man, f, indent=1)
        f.write("\n")


if __name__ == "__main__":
    main()
