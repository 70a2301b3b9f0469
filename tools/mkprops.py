#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (the texts live here so that they can be edited comfortably)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, state=(), observe=()):
    assert len(title) <= 80, (id, len(title))
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text}, "why_tests_cant": why,
              "anchors": {"files": files,
                          "state": [dict(zip(("name", "meaning", "where"), s)) for s in state],
                          "mechanism": [dict(zip(("name", "where"), m)) for m in mech],
                          "observe_at": list(observe), "hook_needed": None}})

p("C01", "A bounding box built from points is the tightest box around them",
  "A bounding box built from a non-empty collection of points (a list or a one-shot iterator) covers every one of the points, and each of its four sides touches at least one of them. Built from two corners it has exactly those corners, built from nothing it is the empty box at the origin, and its width, height, area, centre and diagonal are the ones its corners determine.",
  ["inputs"], "all finite sequences of points (any length, order, sign, repetition) and all corner pairs",
  "The tests build one box from 1000 points of a circle; the guarantee is over every sequence, e.g. monotone ones, single points and points that move both extremes.",
  ["coral/bbox.py"], [("BBox.__init__ min/max scan", "coral/bbox.py:BBox.__init__"), ("measures", "coral/bbox.py:BBox.width,height,area,center,hypot")],
  observe=["x0,y0,x1,y1 of the box"])
p("C02", "Box union covers exactly both boxes and intersection exactly their overlap",
  "The union of two boxes is the smallest box that covers both, including boxes that have no area (a point or a segment), and the empty box is neutral for it. The intersection of two boxes contains exactly the points that lie in both, and is the empty box when there are none. Both leave their operands untouched.",
  ["inputs"], "all pairs of boxes with x0<=x1 and y0<=y1, the empty box included, disjoint, nested, touching and degenerate ones too",
  "The tests compare two areas on one overlapping pair; disjoint, nested, touching, empty and zero-area operands are never tried.",
  ["coral/bbox.py"], [("BBox.__or__", "coral/bbox.py"), ("BBox.__and__", "coral/bbox.py")])
p("C03", "Point containment, box containment and collision agree with one another",
  "A box contains exactly the points with x0<=x<x1 and y0<=y<y1, and the `in` operator agrees with the point and box queries and rejects anything else with TypeError. A box is reported inside another only if every point of it is inside the other, and two boxes with area collide exactly when some point lies in both.",
  ["inputs"], "all points, all pairs of boxes with x0<=x1 and y0<=y1",
  "Seven points and two boxes are sampled by the tests; the relation between the three queries must hold for every pair, in particular on shared edges.",
  ["coral/bbox.py"], [("half-open tests", "coral/bbox.py:BBox.has_point"), ("corner tests", "coral/bbox.py:BBox.has_bbox"), ("interval overlap", "coral/bbox.py:BBox.collide"), ("dispatch", "coral/bbox.py:BBox.__contains__")])
p("C04", "Translating, scaling and copying a box are exact and leave the original alone",
  "Translating moves every corner by exactly the given offset, scaling keeps the centre and multiplies both sides by the factor, and a copy has the same corners. The operators + and -, and * and /, undo one another, and none of these operations changes the box it is applied to or shares state with it.",
  ["inputs"], "all boxes, offsets and (for division non-zero) factors, over exact arithmetic",
  "One box is scaled by 2 and translated once in the tests; nothing checks the operators, the inverse laws or that operands stay unchanged.",
  ["coral/bbox.py"], [("translate/scale/copy", "coral/bbox.py:BBox.translate,scale,copy"), ("operators", "coral/bbox.py:BBox.__add__,__sub__,__mul__,__truediv__")])
p("C05", "Boxes are equal exactly when their corners are, and hash and order agree",
  "Two boxes compare equal exactly when all four corner coordinates are equal, and equal boxes have equal hashes. A box compares less than another exactly when its area is smaller, and it is true in a boolean context exactly when its area is not zero.",
  ["inputs"], "all pairs of boxes",
  "Three pairs are compared by the tests; inequality of different boxes is a statement about all pairs (and used to fail for coordinates -1 and -2).",
  ["coral/bbox.py"], [("BBox.__eq__/__hash__/__lt__/__bool__", "coral/bbox.py")])
p("C06", "The ring buffer behaves as a bounded double-ended queue in every history",
  "Whatever sequence of operations is applied to a buffer of capacity 2^k, push, pop, peek and shift behave as on a deque of at most 2^k items: pop and peek give the most recently pushed remaining item, shift gives the oldest, peek removes nothing, and no other item is lost, duplicated or reordered. It reports empty exactly when it holds nothing and full exactly when it holds 2^k items, and pushing to a full or taking from an empty buffer is refused without changing it.",
  ["histories", "inputs"], "all capacities 2^k, all operation histories (any wrap-around position) and all item values",
  "The one test runs a fixed history of about 30 operations on capacity 4; wrap-around positions, other capacities and interleavings are unbounded.",
  ["coral/coord.py"], [("masks _m1/_m2 and the doubled index space", "coral/coord.py:Buffer")],
  state=[("buf,s,e", "items at buf[(s+i) mod n] for i < (e-s) mod 2n", "coral/coord.py:Buffer.__init__")])
p("C07", "Simplifying an open line keeps its ends, its order and the pixel grid",
  "Simplifying an open line at a given pixel size yields points of the integer grid: each is an input point divided by the pixel size and rounded to nearest with halves away from zero. The first input point comes out first and the last one last, and the points in between are input points in input order, none used twice. This holds for every buffer size, and a line of no points or one point gives that many points.",
  ["inputs", "configurations"], "all finite point sequences, all positive pixel sizes, all power-of-two buffer sizes",
  "No test calls the simplification at all; it is a streaming algorithm whose behaviour depends on the whole history of the line and on the buffer filling up.",
  ["coral/coord.py"], [("grid snapping", "coral/coord.py:sqr_fit,nearest"), ("streaming removal of duplicates, collinear points and slits", "coral/coord.py:open_no_slit"), ("dispatch", "coral/coord.py:simplify")])
p("C08", "Simplifying a closed ring keeps the cyclic order of its vertices",
  "Simplifying a closed ring yields grid-snapped vertices of the input whose cyclic order is the input's: up to the choice of the starting vertex, the output is the input with some vertices left out, and no vertex is moved to another place. This holds for every ring length and every buffer size.",
  ["inputs", "configurations"], "all finite rings (with or without a repeated closing vertex), all pixel sizes, all power-of-two buffer sizes",
  "No test calls it; rings with more kept vertices than the buffer holds take a different path from small ones.",
  ["coral/coord.py"], [("two ring buffers around the seam", "coral/coord.py:closed_no_slit")])
p("C09", "Great-circle distance is a symmetric, bounded haversine distance",
  "The distance between two geographic points is R times the central angle given by the haversine formula, so it is never negative, is zero between a point and itself, is the same in both directions and never exceeds half the circumference pi*R. When no radius is given, R is the geocentric radius of the ellipsoid at the mean latitude, which lies between the polar and the equatorial radius.",
  ["inputs"], "all pairs of points with latitudes in [-90, 90], all positive radii, exact real arithmetic",
  "A doctest evaluates one pair of points; symmetry and bounds are statements about all pairs.",
  ["coral/coord.py"], [("haversine", "coral/coord.py:haversine"), ("geocentric radius", "coral/coord.py:radiusat")])
p("C10", "Bearing, destination and midpoint agree with great-circle geometry",
  "Going from a point by the bearing and the distance computed towards a second point arrives at the second point (longitude modulo 360). The destination lies at exactly the requested distance for distances up to half the circumference, and the midpoint of two points is equally far from both.",
  ["inputs"], "all pairs of points with latitudes strictly between the poles (not antipodal for the midpoint), all positive radii, exact real arithmetic",
  "One doctest goes round the loop for a single pair; other quadrants, hemispheres and wrap-around are untested.",
  ["coral/coord.py"], [("bearing", "coral/coord.py:bearing"), ("destination", "coral/coord.py:destination"), ("midpoint", "coral/coord.py:midpoint")])
p("C11", "Compass names and clock hours are the nearest to the given bearing",
  "The compass name returned for a bearing (counter-clockwise degrees from north, any value from -360 up) is one of the sixteen standard points whose direction is at most 11.25 degrees away from the bearing. The clock hour is in (0, 12] and is 12 minus one hour per 30 degrees counter-clockwise, modulo 12.",
  ["inputs"], "all real bearings >= -360",
  "No test calls these; sector boundaries and wrap-around at north are easy to get wrong by one.",
  ["coral/coord.py"], [("bearing2cardinal, nearest", "coral/coord.py"), ("bearing2hours", "coral/coord.py")])
p("C12", "Longitude wrapping lands in [-pi, pi] on the same direction",
  "Wrapping an angle always ends, gives a value between -pi and pi, and differs from the given angle by a whole number of turns; an angle already in range is returned unchanged.",
  ["inputs"], "all real angles, exact real arithmetic",
  "No test calls it; it is a loop whose invariant matters for every angle.",
  ["coral/proj.py"], [("corangle loops", "coral/proj.py:corangle")])
p("C13", "Cylindrical projections are inverted exactly by their inverse",
  "For the spherical and ellipsoidal Mercator, the transverse Mercator and the oblique Mercator projections, projecting a point and applying the inverse gives the point back (longitude modulo 360), for every centre and radius or ellipsoid. The Mercator projections refuse the south pole, and the transverse one refuses its two singular points, with a projection error.",
  ["inputs", "configurations"], "all centres, all positive radii, all eccentricities in [0,1), all points off the projection's singular points, exact real arithmetic",
  "No test calls any projection; quadrant errors only show for points on the far side of the centre.",
  ["coral/proj.py"], [("Mercator/EMercator/TransMercator/ObliqMercator geo2rect and rect2geo", "coral/proj.py")])
p("C14", "Azimuthal projections are inverted exactly by their inverse",
  "For the stereographic, azimuthal equidistant and azimuthal equal-area projections, projecting a point and applying the inverse gives the point back (longitude modulo 360), for every centre including the poles, every radius and every point other than the antipode, the centre itself included. The centre projects to the origin.",
  ["inputs", "configurations"], "all centres, all positive radii, all points except the centre's antipode, exact real arithmetic",
  "No test calls any projection; the far hemisphere, polar centres and the centre itself are separate cases.",
  ["coral/proj.py"], [("Stereographic/AzimuthalEquidistant/AzimuthalEqualArea geo2rect and rect2geo", "coral/proj.py")])
p("C15", "Equal-area world and conic projections are inverted by their inverse",
  "For the Albers conic projection, projecting a point and applying the inverse gives the point back for every valid pair of standard parallels, northern or southern. For the Eckert IV projection the inverse gives the longitude back (modulo 360) and a latitude whose sine is within 2e-6 of the original's.",
  ["inputs", "configurations"], "all parallels with non-zero mean sine, all centres and radii, all points with longitude in [-180,180] and latitude in [-90,90] (strictly between the poles for the latitude inverse of Eckert IV), exact real arithmetic",
  "No test calls any projection; southern parallels take their own branch and the Eckert IV solution is iterative.",
  ["coral/proj.py"], [("ConicEqualArea", "coral/proj.py"), ("EckertIV Newton iteration", "coral/proj.py")])
p("C16", "Map scale factors are the local stretch of the projection",
  "The scale factor reported by the Mercator (sphere and ellipsoid), transverse Mercator and oblique Mercator projections is at least 1 wherever it is defined, is exactly 1 on the projection's central line, and equals 1/cos(latitude) for the spherical Mercator. For the Albers conic the reported meridian scale is exactly 1 on a standard parallel when both parallels coincide with it.",
  ["inputs", "configurations"], "all points off the singular points, all centres, exact real arithmetic",
  "No test calls scale().",
  ["coral/proj.py"], [("scale methods", "coral/proj.py")])
p("C17", "Variable-length integers are read back as they were written",
  "Every non-negative integer written as a variable-length value, and every integer written as a signed one, is read back unchanged, in both file formats that use them. Reading consumes exactly the bytes that writing produced, so consecutive values never bleed into one another, and every byte but the last has its top bit set.",
  ["inputs"], "all integers of any size, any following bytes",
  "No test touches the codecs; the number of bytes is unbounded.",
  ["coral/pf.py", "coral/rg.py"], [("base128/writevlv/readvlv/writesvlv/readsvlv", "coral/pf.py, coral/rg.py")])
p("C18", "Grid fields encode into their fixed size and decode to the same value",
  "Every value in range of an integer field, string field or nullable field encodes into exactly the field's size and decodes to the same value (null to null); a real field decodes to a value within half a quantisation step, (max-min)/(2*levels), of the original, with the two ends of the range exact. A row decodes to its values field by field, and values out of range, nulls in non-nullable fields and strings that do not fit are refused.",
  ["inputs", "configurations"], "all field ranges and sizes 1, 2, 4, 8, nullable or not, all values in range",
  "No test touches the module (integer fields could not be encoded at all, nor the largest value of a real field); range ends and nulls are boundary values of an unbounded space.",
  ["coral/grid.py"], [("IVar/FVar index and value maps", "coral/grid.py"), ("SVar padding", "coral/grid.py"), ("GRow slicing", "coral/grid.py")])
p("C19", "A range-grid data set reads back the entities that were written",
  "Whatever entities (any number of segments and rows) are written to a range-grid data set and closed, opening it gives the same column names, types, sizes and ranges, and reading by id or in sequence gives each entity's segments and rows, decoded, in order. Asking for an id that was not written raises KeyError.",
  ["inputs", "histories"], "all row formats, all entity lists, all read orders",
  "No test touches the module (its reader could not be constructed at all).",
  ["coral/rg.py"], [("header", "coral/rg.py:Writer._header/Reader._header"), ("index", "coral/rg.py:_writeindex/_readindex"), ("offsets", "coral/rg.py:Reader.read")])
p("C20", "A P file reads back every entity, part and point within its resolution",
  "Whatever named entities are written to a P file and closed, opening it gives the same names in order and, for each, by position or by name, the same number of parts and of points per part in the same order (a repeated closing point being dropped). Each coordinate comes back within half a quantisation step of the written one (after longitudes are brought into [-180,180] and latitudes into [-90,90]), the step being the entity's bounding-box side divided by 2^(8*size)-1.",
  ["inputs", "histories"], "all entity lists with distinct ASCII names and parts of at least one point, all coordinate sizes",
  "No test touches the module; offsets depend on all previous entities and rounding on every coordinate.",
  ["coral/pf.py"], [("quantisation and bounding box", "coral/pf.py:Writer.write"), ("index and grid", "coral/pf.py:Writer.close, Reader._header"), ("offsets", "coral/pf.py:Reader.read")])
p("C21", "A written shapefile's geometry reads back unchanged",
  "For every shape type the writer supports, saving shapes and reading them back gives the same number of shapes in the same order with the same type, the same part starts and the same points (elevations and measures included where the type has them), whether read by index, all at once or by iteration, with or without the index file. Polygons come back closed.",
  ["inputs", "histories"], "all lists of shapes of one type (point, multipoint, polyline, polygon and their Z and M kinds), any number of parts and points, repeated saves of a growing data set",
  "No test touches the module; record offsets depend on every previous record.",
  ["coral/shapefile.py"], [("Writer record layout", "coral/shapefile.py:Writer.__shpRecords"), ("Reader record layout", "coral/shapefile.py:Reader.__shape"), ("index", "coral/shapefile.py:Writer.__shxRecords, Reader.__shapeIndex")])
p("C22", "Shapefile headers, record lengths and index describe the file truly",
  "In every saved data set the geometry header gives the true file length in 16-bit words and the true bounding box, every record header gives the true record number and content length, and the index file has one entry per shape with the true offset and content length of its record. The table header gives the true number of records, header length and record length.",
  ["inputs", "histories"], "all lists of shapes of one type and records, repeated saves of a growing data set",
  "No test touches the module; lengths must match for every number of parts and points.",
  ["coral/shapefile.py"], [("length computation", "coral/shapefile.py:Writer.__shpFileLength"), ("back-patched record length", "coral/shapefile.py:Writer.__shpRecords"), ("header", "coral/shapefile.py:Writer.__shapefileHeader")])
p("C23", "Shapefile attribute records read back in step with their fields",
  "For every table of fields and records, saving and reading back gives the same field names, types and sizes and, for each record in order, the same values: numbers that fit as numbers, text cut to the field size and stripped of surrounding blanks. No value, whatever its characters, shifts the fields or records after it, and tables of no records read back as such.",
  ["inputs"], "all field lists and all records with values that fit (text of any characters)",
  "No test touches the module; alignment depends on the encoded size of every value.",
  ["coral/shapefile.py"], [("fixed-width records", "coral/shapefile.py:Writer.__dbfRecords"), ("header", "coral/shapefile.py:Writer.__dbfHeader"), ("parsing", "coral/shapefile.py:Reader.__dbfHeader, Reader.__record")])
p("C24", "Setting a raster pixel changes that pixel alone and reads back",
  "On the bilevel, gray and colour canvases, for every canvas size and every position inside, setting a pixel to a value makes reading it give that value (its truth on the bilevel canvas) and leaves every other pixel as it was; a new canvas has the background colour everywhere. A value with an alpha channel gives the rounded blend with the old pixel, never outside 0..255, and saving writes the right header and exactly the pixel data.",
  ["inputs", "configurations"], "all widths and heights, all positions inside, all values and alphas in [0,1]",
  "No test touches the module; packing eight pixels to a byte makes widths not divisible by 8 and every bit position separate cases.",
  ["coral/raster.py"], [("index and mask arithmetic", "coral/raster.py:BWCanvas/GrayCanvas/ColorCanvas __getitem__/__setitem__"), ("blend", "coral/raster.py"), ("PNM headers", "coral/raster.py:save")])
p("C25", "Raster lines connect their end points with one connected run of pixels",
  "Drawing a line between any two pixels ends, colours both end points, and colours exactly max(|dx|,|dy|)+1 pixels, each adjacent to the one before (horizontally, vertically or diagonally). Every coloured pixel lies within the rectangle spanned by the end points and within half a pixel of the ideal line, measured along the minor axis.",
  ["inputs"], "all pairs of integer end points (all octants, degenerate lines included)",
  "No test draws anything; it is a loop carrying an error term, correct only through its invariant.",
  ["coral/raster.py"], [("Bresenham error term", "coral/raster.py:BaseCanvas.line")])
p("C26", "Filling a scanned polygon colours exactly the pixels between crossings",
  "Scanning a polygon marks, on every row a non-horizontal edge spans (top inclusive, bottom exclusive), the column where the edge crosses that row, tagged with the edge's direction, and no other row. Filling colours exactly the pixels of each row that lie between an entering crossing and the following leaving one, and never a pixel outside the canvas.",
  ["inputs"], "all polygons with rows inside the canvas, any number of edges and of crossings per row",
  "No test draws anything; the scan is a nest of loops over edges and rows.",
  ["coral/raster.py"], [("edge scan", "coral/raster.py:BaseCanvas.scanpolygon"), ("span fill", "coral/raster.py:BaseCanvas.fillpolygons")])
p("C27", "A vector canvas's bounding box covers everything drawn on it",
  "After any sequence of drawing operations (circles, lines, polygons, rounded polygons, images) on a canvas, its bounding box is the smallest box covering everything drawn, including figures without area. A copy of a canvas is independent of the original, and the saved file declares that box enlarged by the margin.",
  ["histories", "inputs"], "all drawing histories",
  "No test touches the module; the box is accumulated over the whole history.",
  ["coral/vector.py"], [("bbox accumulation", "coral/vector.py:Canvas.add*"), ("copy", "coral/vector.py:Canvas.copy"), ("BoundingBox line", "coral/vector.py:Canvas.save")])
p("C28", "Every figure on a vector canvas is painted in the ink it was given",
  "When the PostScript program of a canvas is executed, every fill and every stroke uses the colour or gray level requested for it (and the width and dash last set), whatever was drawn before and whatever the background. The path painted consists of exactly the given vertices in order, closed for polygons.",
  ["histories", "inputs"], "all drawing histories mixing gray and colour inks, fill and stroke, backgrounds",
  "No test touches the module; ink commands are left out when believed redundant, so correctness depends on the whole history.",
  ["coral/vector.py"], [("cached state", "coral/vector.py:Canvas.setgray,setcolor,setwidth,setdash"), ("gs/gr bracketing", "coral/vector.py:Canvas.addpolygon etc.")],
  state=[("Canvas.state", "the ink, width and dash the interpreter is believed to be in", "coral/vector.py")])
p("C29", "A colour gradient interpolates linearly between its stops",
  "For every position in [0,1] a gradient gives the linear interpolation between the two neighbouring stops: the stop's own colour at a stop, and the first or last stop's colour before the first or after the last. The hexadecimal form has one digit per channel equal to the channel times 15 rounded down.",
  ["inputs", "configurations"], "all non-empty stop lists (in any order) with positions in [0,1], all positions in [0,1]",
  "No test touches the module.",
  ["coral/gradient.py"], [("end padding and bisection", "coral/gradient.py:Gradient")])
p("C30", "Statistics equal their definitions and respect their bounds",
  "Average, variance, standard deviation, covariance and correlation equal their textbook definitions on every non-empty sequence, so the variance is never negative, the covariance of a sequence with itself is its variance, covariance is symmetric and correlation lies in [-1,1]. The two Gini formulas give the same value, which for non-negative data lies between 0 and 1.",
  ["inputs"], "all finite sequences (of length at least 2 for Gini, non-constant for correlation), exact real arithmetic",
  "No test touches the module; these are sums over sequences of any length.",
  ["coral/stats.py"], [("avg,var,std_dev,covar,corr", "coral/stats.py"), ("gini_kakwani, gini_deaton", "coral/stats.py")])
p("C31", "The name distance is the optimal-string-alignment edit distance",
  "The edit distance between two strings is the least number of insertions, deletions, substitutions and swaps of adjacent characters (no substring edited twice) turning one into the other. Hence it is zero exactly for equal strings, symmetric, at least the difference and at most the maximum of their lengths; the error rate is twice the distance over the summed lengths, and matching maps each key to a value of least error rate.",
  ["inputs"], "all pairs of strings, all key lists and non-empty value lists",
  "No test touches the module; it is a table filled by two nested loops.",
  ["coral/names.py"], [("dynamic programming table", "coral/names.py:damlev"), ("strerr, mapping", "coral/names.py")])
p("C32", "Table operations keep every row and every column in its place",
  "Selecting rows by a key gives exactly the rows with that value, in order (the first one, or none, when one is asked for); adding, deleting or indexing by a column keeps all other columns and all rows. Joining keeps each row of the first table once, in order, completed from the first row of the second that agrees on the pivot columns, with empty text where there is none.",
  ["inputs"], "all tables and keys",
  "No test touches the module.",
  ["coral/table.py"], [("join,getone,getall,indexby,addkey,delkeys", "coral/table.py")])
p("C33", "A table written to a file reads back the same, whatever columns are asked",
  "Writing a table of text values (without separators, comment marks, line breaks or blank edges) and reading it back gives the same columns and rows in the same order. Reading with a list of columns gives each asked column its own values whatever their order, and blank lines and comments in the file are ignored.",
  ["inputs"], "all tables of such values, all non-empty column selections and orders",
  "No test touches the module.",
  ["coral/table.py"], [("readfile/writefile", "coral/table.py")])
p("C34", "A progress meter passes its iterable through unchanged",
  "Iterating through the progress meter yields exactly the items of the wrapped iterable, each once and in order, whether or not its length is known and whatever the timing and options. The meter never shows more than 100% and falls back to a plain counter when there is no usable total.",
  ["inputs", "configurations", "schedules"], "all iterables, all clock readings, all option values",
  "No test touches the module (iterables without a length failed at once); clock readings vary from run to run.",
  ["coral/tqdm.py"], [("tqdm generator", "coral/tqdm.py:tqdm"), ("format_meter", "coral/tqdm.py")])
p("C35", "A saved map frame loads back as the same frame",
  "Saving a frame with a spherical or ellipsoidal projection that has a centre and loading it gives a projection of the same kind with the same centre and Earth model and the same bounding box. Projecting with the frame agrees with its projection, and the name list stored for a data set holds exactly the entities with some part whose projected box meets the frame's, in order.",
  ["inputs", "configurations"], "all frames over projections with a centre, all data sets",
  "No test touches the module (ellipsoidal frames could not be loaded).",
  ["coral/frame.py"], [("save/load", "coral/frame.py"), ("point, planify, cachenames, loadnames", "coral/frame.py:Frame")])

with open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl"), "w") as f:
    for x in P:
        f.write(json.dumps(x, ensure_ascii=False) + "\n")
print(len(P), "properties")
