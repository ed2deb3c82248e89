"""Source of properties.jsonl and MANIFEST.json (python3 tools/props.py rewrites both)."""
import json, os

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []


def prop(id, title, statement, over, text, why, files, mech, observe=None, level_note=None,
         technique="property-based testing (Hypothesis) against an independent reference model"):
    P.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files, mech=mech,
                  observe=observe, level_note=level_note, technique=technique))


prop("C01", "Lengths keep five independently scaled components under all arithmetic",
     "A length is the sum of true, user, visual, width and TeX components; addition, subtraction, negation, multiplication and division by numbers act on each component, and a plain number in a sum or conversion is a user length in the default unit. "
     "Conversion to m, cm, mm, inch and pt, comparison, and the ratio of two lengths use the scale factors and default unit in force at the time of the conversion. Using a length never changes it.",
     ["inputs", "histories"], "all arithmetic expressions over lengths of all types and units and numbers, all scale factors and default units, changed at any time between construction and use",
     "The unit tests check a handful of fixed sums; component mix-ups only show for particular type/scale/unit combinations.",
     ["pyx/unit.py"], [("length arithmetic", "unit.length"), ("conversion", "unit._convert_to")])
prop("C02", "Transformations compose, invert and serialise as affine maps",
     "Every transformation acts on points as the affine map its documentation defines: rotation, scaling, slanting (with or without centre), mirroring at the line of the given direction, translation, products (right factor first) and the *ed methods (applied afterwards). "
     "Its inverse undoes it, the matrix written to PostScript, PDF and SVG is the same map (with the SVG y axis pointing down), and giving only one centre coordinate is rejected.",
     ["inputs"], "all non-singular matrices, angles, factors, centres and vectors in all units, all chains of products and methods, all points",
     "The unit tests check a few identities (e.g. a mirror applied twice) that hold for wrong maps as well.",
     ["pyx/trafo.py"], [("composition", "trafo.trafo_pt.__mul__"), ("special maps", "trafo.rotate/scale/slant/mirror/translate"), ("serialisation", "trafo_pt.processPS/processPDF/processSVGattrs")])
prop("C03", "A path denotes the PostScript geometry of its elements",
     "The normpath of a path, and its begin and end points, trace exactly the curve that PostScript semantics assign to the sequence of its elements (absolute, relative, arcs, tangent arcs, multi-elements, closepath, several subpaths), up to the accuracy epsilon and arc approximation; the helpers line, curve, rect, circle and ellipse trace the named shape. "
     "This stays true after any sequence of append, extend, + and += interleaved with queries. A path that does not start with a moveto or arc is rejected.",
     ["inputs", "histories"], "all valid element sequences, units, epsilon settings and editing histories",
     "The unit tests use a few fixed paths; wrong context updates only show after particular element sequences.",
     ["pyx/path.py", "pyx/normpath.py"], [("element semantics", "path.*_pt.updatenormpath"), ("arc conversion", "path._arctobezierpath"), ("cached normpath", "path.path._normpath")])
prop("C04", "PostScript, PDF and SVG output of a path denote the same curve",
     "The PostScript operators, the PDF path operators and the SVG path data written for a path or normpath, when interpreted by the rules of those formats, all trace the path's geometry (subpaths, direction, closedness) up to the printed precision of the numbers. Numbers of any magnitude are written in the number syntax of the format.",
     ["inputs"], "all valid element sequences and their transformed normpaths, with and without y inversion",
     "The functional tests write files but nothing reads them back.",
     ["pyx/path.py", "pyx/normpath.py"], [("PS", "path.*.outputPS"), ("PDF", "path.path.outputPDF, normpath.outputPDF"), ("SVG", "path.*.returnSVGdata")])


prop("C05", "Arc lengths, positions and path parameters agree with the path's geometry",
     "The arc length of a path is the length of the curve it denotes (its lower and upper estimates differing from it by less than the accuracy), and the point at an arc length, given alone or in an unsorted list, as number, length or path parameter, in pts or units, is the point of the curve at that distance from the beginning over all subpaths. "
     "Converting lengths to parameters and back is the identity, and parameter arithmetic (sum, difference, multiple, quotient, with parameters and lengths on either side) and comparison act on the arc lengths.",
     ["inputs"], "all paths with any mixture of segments and subpaths, all accuracies, all lists of lengths and parameters within the path",
     "The unit tests evaluate a few lines and one curve at one or two ordered positions.",
     ["pyx/normpath.py", "pyx/path.py", "pyx/unit.py"], [("arc length", "normcurve_pt.arclen_pt/_split"), ("length to parameter", "normpath._arclentoparam_pt, subparamtoparam"), ("parameter to length", "_paramtoarclen_pt"), ("parameters", "normpathparam")])
prop("C06", "Tangents, rotations, local coordinate systems and curvatures follow the curve",
     "At every regular position of a path, given as arc length in pts or units or as parameter, alone or in a list, the tangent starts at the point, points along the direction of travel and has the requested length; rotation and trafo map the x axis to this direction (trafo also the origin to the point) without scaling or mirroring; and the curvature is the signed curvature of the curve.",
     ["inputs"], "all paths and all positions away from corners and cusps",
     "The unit tests check a few positions on one curve.",
     ["pyx/normpath.py", "pyx/path.py"], [("tangent", "normpath._tangent"), ("rotation and trafo", "normcurve_pt.rotation, trafo"), ("curvature", "normcurve_pt.curvature_pt")])
prop("C07", "Splitting, reversing, joining, adding and transforming act on geometry only",
     "Splitting at positions yields consecutive parts which together trace the path (a closed subpath is opened, with the part over its closing point in one piece); reversing traces it backwards; joining connects the end of the first to the beginning of the second path by a line; adding concatenates; transforming applies the affine map. "
     "Operations not documented as in place leave all their operands as they were, and later changes of a result never affect an operand or another result.",
     ["inputs", "histories"], "all paths and normpaths, all ascending positions, all affine maps, all sequences of these operations on a pool of paths",
     "The unit tests use single lines and one curve, and never look at the operands or at sequences of operations.",
     ["pyx/normpath.py", "pyx/path.py"], [("split", "normpath._split_pt, normsubpath.segments"), ("reverse", "normpath.reversed"), ("join", "normpath.join, normsubpath.join"), ("copy", "normsubpath.copy")])
prop("C08", "Path intersection finds every crossing exactly once and nothing else",
     "The positions returned by the intersection of two paths pair up: both paths are at the same point there, every transversal crossing, touching vertex or crossing at a segment junction is reported once (crossings closer than the accuracy counting as one), and overlapping collinear pieces report at least one point of the overlap. The result does not depend on the order of the paths.",
     ["inputs"], "all pairs of paths of lines, curves and arcs, open or closed, with coincident vertices, touching and overlapping pieces, down to pieces hardly longer than the accuracy",
     "The unit tests intersect a few lines; missed or doubled points depend on where crossings fall relative to segment junctions and subdivision.",
     ["pyx/normpath.py"], [("segments", "normline_pt.intersect, normcurve_pt.intersect"), ("merging of close points", "normsubpath.intersect")])
prop("C09", "The bounding box of a path is its exact extent",
     "The bounding box of a path or normpath, also after reversing or transforming, contains every point of the curve and each of its four sides is attained by it, including extremes inside of curves and arcs and points reached by relative elements.",
     ["inputs"], "all element sequences in all units",
     "The unit tests compare bounding boxes of two or three curves.",
     ["pyx/path.py", "pyx/normpath.py"], [("extremes of curves", "path._bezierpolyrange"), ("extremes of arcs", "path._arcbboxdata"), ("elements", "path.*.updatebbox")])
prop("C10", "Bounding boxes behave as rectangles with an empty element",
     "Union, intersection (empty for disjoint boxes), inclusion of points, enlargement, transformation, copying and the edge, size and centre accessors of bounding boxes agree with closed rectangles in the plane, where an empty box is neutral for union, absorbing for intersection and has no coordinates. In-place variants change exactly the box they are called on, in any sequence of operations, and integer boxes are the smallest containing ones.",
     ["inputs", "histories"], "all sequences of operations on boxes including empty and degenerate ones, in pts and units",
     "The unit tests check a handful of operations on fixed boxes.",
     ["pyx/bbox.py"], [("box arithmetic", "bbox.bbox_pt")])
prop("C40", "Polynomial root finding returns the real roots and nothing else",
     "For polynomials up to degree four, given by their coefficients with any number of leading zeros, every value returned is a real root and every simple real root is returned exactly once.",
     ["inputs"], "all polynomials up to degree four with separated roots of moderate size, including multiple roots and complex pairs",
     "The unit tests check a few polynomials; wrong branches need particular signs of the discriminant and exact coincidences.",
     ["pyx/mathutils.py"], [("closed formulas", "mathutils._realroots_cubic, _realroots_quartic, realpolyroots")])


prop("C11", "EPS, PDF and SVG output paint exactly what was drawn on the canvas",
     "Interpreting the EPS, PDF or SVG output of a canvas by the rules of the format yields, in drawing order, the fills and strokes the drawing program asked for: geometry under all nested transformations, clippings, colours, opacities, fill rules, line widths, caps, joins, miter limits and dashes after merging attributes from left to right, fills before strokes of the same path, layers in their requested order. "
     "Attributes of one item or nested canvas never affect another.",
     ["inputs", "histories"], "all nested canvas programs of draw, stroke, fill, insert and layer calls with all style, colour, transformation, clipping and decorator attributes",
     "The functional tests write files that nothing reads back; state leaks and ordering faults need particular attribute combinations.",
     ["pyx/canvas.py", "pyx/deco.py", "pyx/style.py", "pyx/attr.py", "pyx/pdfwriter.py", "pyx/pswriter.py", "pyx/svgwriter.py"],
     [("canvas output", "canvas.canvas.processPS/processPDF/processSVG"), ("paths", "deco.decoratedpath.process*"), ("attribute merging", "attr.mergeattrs")])
prop("C12", "Bounding boxes stated in the output cover everything painted",
     "The bounding boxes written to EPS, PS, PDF (media and crop box) and SVG (view box, size) contain everything that is painted, including half the line width around strokes, plus the requested enlargement; without rotations and clippings they are not larger than that, and a manually specified box is used as given. The box of a canvas contains the visible parts of all its items.",
     ["inputs"], "all canvas programs with transformations, clippings, line widths and box enlargements",
     "No test looks at the written boxes; they go wrong for particular nestings of transformations, clippings and line widths.",
     ["pyx/canvas.py", "pyx/deco.py", "pyx/document.py", "pyx/bbox.py"], [("box bookkeeping while writing", "canvas.process*, decoratedpath.process*"), ("page box", "document.page._process")])
prop("C13", "Pages are rotated, centred and fitted on the paper as requested",
     "On a page with a paper format the content appears unscaled in its place, rotated by 90 degrees, centred on the paper, or scaled to the largest size that fits into the paper without the margins, according to the page options, in every output format, and the page and crop boxes, orientation, page count, order and labels of the document agree. All pages of a document are independent of each other.",
     ["inputs"], "all documents of pages with all combinations of paper formats, rotation, centring, fitting, margins, enlargements and manual boxes",
     "The tests write one document with three pages and do not read it back.",
     ["pyx/document.py", "pyx/pswriter.py", "pyx/pdfwriter.py", "pyx/svgwriter.py"], [("page transformation", "document.page._process"), ("page dictionaries and comments", "PDFpage.write, PSwriter")])
prop("C14", "Output files are well formed and carry the requested metadata and options",
     "Every PDF, PS, EPS and SVG file follows the structure of its format, and title, author, subject, keywords and creation date read from it are the given ones for any text, date and time zone. Documented writer options take effect and deprecated spellings are accepted; the same bytes are written to streams and files, with the suffix appended when missing and the format chosen by suffix.",
     ["inputs"], "all metadata texts, dates, time zones, writer options, file names and ways of calling a writer",
     "The tests neither parse files nor use metadata or options.",
     ["pyx/pdfwriter.py", "pyx/pswriter.py", "pyx/svgwriter.py", "pyx/document.py"], [("information dictionary", "pdfwriter.PDFinfo"), ("structuring comments", "pswriter"), ("files", "document._outputstream, writetofile")])
prop("C15", "Writing is repeatable and leaves the drawing unchanged",
     "Writing a canvas in any format, or querying it or its paths, changes neither the canvas nor any later output: after any history of drawing, writing and querying, the bytes written are those of a canvas built without the intermediate steps, and writing again gives the same bytes.",
     ["histories"], "all sequences of drawing steps on several canvases sharing paths and attributes, interleaved with writes in all formats and queries",
     "The tests write each canvas once per format.",
     ["pyx/canvas.py", "pyx/deco.py", "pyx/path.py", "pyx/pdfwriter.py", "pyx/pswriter.py"], [("writer contexts", "pswriter/pdfwriter/svgwriter.context"), ("canvas items", "canvas.canvas")])


prop("C28", "Tick positions are exact rational numbers",
     "A tick position made from a string, a pair of integers, an integer, a fraction or another position, raised to any integer power, is exactly that number, a float is kept to the requested number of digits, and products, quotients, absolute values and comparisons of positions are exact. Merging ordered tick lists gives the ordered union, with the lowest levels and the first label at shared positions, and leaves the given lists untouched.",
     ["inputs"], "all numbers in all accepted notations, all pairs of them and all tick lists",
     "The tests do not use tick arithmetic directly.",
     ["pyx/graph/axis/tick.py"], [("rational numbers", "tick.rational"), ("merging", "tick.mergeticklists, tick.tick.merge")])
prop("C29", "Partitioners place ticks at all exact positions of the axis range",
     "A linear or logarithmic partition of a range consists, in ascending order, of exactly those multiples or products of powers which lie within the range, extended to the next position of the requested level at the ends which may be extended, each with the lowest level it belongs to. Automatic partitioners go through their variants with ever fewer or more ticks; negative logarithmic ranges mirror positive ones.",
     ["inputs"], "all tick and label distances, multiplicators, extension levels and ranges including ends on tick positions",
     "The tests see partitions only through a few example graphs.",
     ["pyx/graph/axis/parter.py"], [("linear partitions", "parter.linear, parter.autolinear"), ("logarithmic partitions", "parter.logarithmic, parter.autologarithmic")])
prop("C30", "Axes cover their data and map values to coordinates",
     "A created axis covers all finite data given to it and its ticks unless an end is fixed, keeps fixed ends, shows every manual tick with its label and only labels which equal the value of their tick, and maps values linearly or logarithmically to 0 at its begin and 1 at its end, or the other way round when reversed. Bar and split axes give each name in order of appearance a range in proportion to its size with the given distances, and refuse values out of range. Time axes treat date and time values likewise. Setting parameters afterwards is the same as setting them at once.",
     ["inputs"], "all data columns, fixed ends, reversals, divisors, manual ticks, partitioners and bar layouts",
     "The tests create a handful of axes in example graphs and do not look at values.",
     ["pyx/graph/axis/axis.py", "pyx/graph/axis/rater.py", "pyx/graph/axis/painter.py", "pyx/graph/axis/positioner.py"], [("ranges and ticks", "axis._regularaxis"), ("bars", "axis.bar, axis.split, axis.nestedbar"), ("positions", "axis.anchoredaxis, positioner")])
prop("C31", "Tick labels state the exact value of their tick",
     "The text made for a tick as a decimal with period, as a number times a power of a base, or as a fraction is exactly the value of the tick, written with the given prefixes, signs, separators and minimal or equal number of digits, in the notation chosen by the limits, for any list of ticks. Given labels and ticks without label stay as they are.",
     ["inputs"], "all lists of rational values and all texter options",
     "The tests show only the default labels of a few graphs.",
     ["pyx/graph/axis/texter.py"], [("decimals", "texter.decimal"), ("exponentials", "texter.default"), ("fractions", "texter.rational")])

prop("C16", "Attribute lists are merged by the rules of their attributes",
     "When attributes are given to a drawing or text method, of attributes of an exclusive kind only the last one stays, a clear attribute removes what was given before it of its kind (or everything), an attribute which belongs before others is put there, and all others keep their order; the lists given stay unchanged. "
     "Changeable attributes select the attribute for an index out of a total, cyclically or not, and nothing when one of them has nothing. Attributes of a kind which a method does not take are refused with a TypeError and nothing is drawn.",
     ["inputs"], "all lists of attributes of all (built-in and newly defined) attribute classes, all nested changeable attributes and indices",
     "The tests use a few fixed attribute lists and compare nothing.",
     ["pyx/attr.py", "pyx/style.py", "pyx/color.py", "pyx/deco.py", "pyx/text.py", "pyx/canvas.py"], [("merging", "attr.mergeattrs and the merge methods"), ("selection", "attr.selectattrs, changelist, multichangeattr"), ("refusal", "attr.checkattrs, canvas.draw/insert")])

prop("C38", "Boxes align and space themselves exactly around their shape",
     "A polygonal box put on a circle or a line touches it from the outside (its closest point lies on it at the given distance, no corner beyond), moved only along the given direction; equal alignment moves all boxes of a list by the same amount, tiling makes them follow each other at the given distance. The distance of two boxes is that of their convex shapes, its extent in a direction the support of its corners, and its center and corners follow transformations.",
     ["inputs"], "all convex polygons (also rounded by their center), directions, distances and transformations",
     "The tests align a few hand made boxes and compare nothing but the drawing.",
     ["pyx/box.py"], [("alignment", "box.polygon_pt circlealignvector, linealignvector"), ("lists", "box.*align*equal, box.tile, box.*align"), ("distance", "box.polygon_pt.boxdistance_pt")])
prop("C41", "Calling a component modifies a copy; files and options are found as configured",
     "An axis, painter, partitioner, texter, rater, decorator, pattern or deformer called with parameters acts like one constructed with the old and new parameters, parameters of a part (as painter_labeldist) act on the part in use, and the original stays as it was. "
     "A file asked for in given formats is found at the first place having it in the order of the configured methods and directories, with the extensions of the formats, and nothing is found which does not exist; options are read with their type or the default.",
     ["inputs", "histories"], "all chains of calls with parameters of all those components, all directory trees, names and formats, option files",
     "The tests use the components with a few parameters only and always the same file locator.",
     ["pyx/utils.py", "pyx/config.py", "pyx/graph/axis/axis.py", "pyx/graph/axis/painter.py", "pyx/graph/axis/texter.py", "pyx/graph/axis/parter.py", "pyx/graph/axis/rater.py", "pyx/deco.py", "pyx/pattern.py", "pyx/deformer.py"],
     [("calls", "the __call__ methods, utils.merge_members_kwargs, utils.kwsplit"), ("files", "config.open and the locators"), ("options", "config.get*")],
     technique="property-based testing (Hypothesis): metamorphic comparison of call chains with direct construction; model of the file locator")

prop("C18", "Colours convert by the standard formulas and gradients deliver valid colours",
     "Colours accept exactly the components from 0 to 1, convert between gray, rgb, hsb and cmyk by the standard formulas (with the under colour removal and black generation set), and appear in each file as given, strokes and fills separately and with their transparency. Hexadecimal strings keep all 8 bit colours. "
     "A gradient gives a valid colour for every parameter from 0 to 1, linear ones interpolate, reversed ones mirror, converted ones convert, selection spreads indices from end to end, and a path drawn with a gradient shows its colours in order along its length.",
     ["inputs"], "all colours, gradients, parameters, hexadecimal strings, indices, and paths",
     "The tests draw a colour chart and compare nothing.",
     ["pyx/color.py", "pyx/deco.py"], [("conversion", "color.gray, rgb, hsb, cmyk"), ("gradients", "color.gradient and its subclasses"), ("along paths", "deco.colorgradient")])

prop("C32", "Graph data have exactly the values of their source",
     "Data read from a file have for each non-comment line (except for lines to be skipped) the line number, numbers and strings of its columns, missing ones filled up, named by the last non-empty comment line in front of the data; config files, map files, lists of points and values likewise, and inconsistent lists are refused. "
     "Columns defined by number, name or expression have the value of this expression for each row, with nothing where it is not defined, and the source stays unchanged. Files may have any name and are read again after they have changed. Functions are evaluated at equally spaced positions of the axis range or given range, joined data contain all rows in order.",
     ["inputs"], "all data files, column definitions, expressions, skip settings, functions and axes",
     "The tests read a few fixed files.",
     ["pyx/graph/data.py"], [("files", "data.file, data.conffile, data.cbdfile"), ("expressions", "data.data"), ("functions", "data.function, data.paramfunction"), ("joins", "data.join")])

prop("C21", "An included SVG file shows its graphics at the requested place and size",
     "A parsed SVG file paints the shapes and paths of the file, with the geometry, transformations, units, view box, clipping and inherited fill and stroke attributes the SVG standard gives them, in all output formats. "
     "A file not parsed appears unchanged in SVG output and is refused by the others. In both modes the lower left corner is at the requested position, and size, ratio and bounding box are as requested or given by the file.",
     ["inputs"], "all documents made of the supported elements, in all spellings, at all positions, sizes and resolutions",
     "The tests include a single file and do not compare anything.",
     ["pyx/svgfile.py", "pyx/svgwriter.py"], [("reader", "svgfile.svgHandler"), ("placement", "svgfile.svgfile_pt")])

prop("C19", "Bitmaps keep every sample and their placement in all output formats",
     "For each bitmap inserted, decoding the PostScript, PDF and SVG files gives exactly the samples, transparency and palette of its image, however it is compressed, encoded or stored, also when several images share data; formats unable to store the image refuse it. "
     "Its corners are where position, width, height, ratio, resolution and transformations put them. Size and resolution of JPEG files are read from the file, whose data are passed on unchanged, and the announced number of data lines is right.",
     ["inputs"], "all images of all modes and sources, output options, placements, and combinations of images on a page",
     "The tests write a few fixed images and do not decode the output.",
     ["pyx/bitmap.py"], [("PostScript", "bitmap_trafo.processPS"), ("PDF", "bitmap_trafo.processPDF, PDFimage"), ("SVG", "bitmap_trafo.processSVG, image.save"), ("JPEG", "jpegimage")])

prop("C20", "An included EPS file is placed by its bounding box and does not interfere",
     "The bounding box of an EPS file is found as specified by the document structuring conventions, in its header or trailer, undisturbed by nested documents and data sections, with all kinds of line ends. "
     "The file is aligned, scaled, moved and clipped by it as requested, starts with the initial graphics state of PostScript, and whatever it leaves behind, everything drawn later appears as without it.",
     ["inputs"], "all structures of EPS files, leftovers on stacks and in the graphics state, and placement options",
     "The tests include a single file and do not interpret the output.",
     ["pyx/epsfile.py"], [("bounding box", "epsfile._readbbox, linefilereader"), ("inclusion", "epsfile.epsfile")])

prop("C22", "Patterns and meshes paint what they were given in every output format",
     "Each area filled with a pattern is filled with that pattern in EPS, PDF and SVG, whatever colours, patterns and nested canvases precede it, and the pattern repeats a cell with exactly the drawn content, "
     "with its steps, box, transformation and position. Hatchings consist of lines with the given distance, angle and style which continue from cell to cell. "
     "A mesh keeps every triangle with its corners and colours, and meshes that are not triangles of one colour space in the plane are refused.",
     ["inputs"], "all pattern cells, steps, boxes, transformations, sequences of colours and patterns, hatchings, and triangle meshes in three colour spaces",
     "The tests write two fixed files with patterns and a mesh and do not look into the output.",
     ["pyx/pattern.py", "pyx/mesh.py"], [("patterns", "pattern.processPS, processPDF, processSVGattrs, PDFpattern, SVGpattern"), ("hatchings", "hatched, crosshatched"),
                                         ("meshes", "mesh.data, processPS, processPDF")])

prop("C17", "Decorators draw their ornaments at the right place of the path",
     "An arrow head lies with its tip at the requested position, its outer curves are the path turned by half the opening angle and its constriction lies on the path; exactly the parts covered by arrows at the ends, or excluded otherwise, are left out when stroking. "
     "Line hatchings cover the whole area with lines of the given distance and angle clipped to it, texts and marks are placed along the path, braces end at the ends of the path with the given height, "
     "and styles of the path apply to its ornaments, styles of stroking and filling do not, in all output formats.",
     ["inputs"], "all paths, arrow positions, sizes, angles, constrictions and attributes, excluded ranges, hatchings, marks and braces",
     "The tests draw a few decorated paths and do not look at the output.",
     ["pyx/deco.py"], [("arrows", "deco._arrowhead, arrow.decorate"), ("ranges", "decoratedpath.excluderange, strokepath"), ("hatching", "linehatched"), ("ornaments", "shownormpath, brace, text, curvedtext")])


prop("C36", "Deformers give rounded corners, springs, offsets and smooth curves as described",
     "Smoothing replaces only the parts within the radius of corners by curves with continuous tangents; cycloids wind around the path with the given radius and loops and leave the ends to skip alone; a parallel keeps the distance to the path everywhere, without the parts being too close, with sharp or round outer corners; linesmoothed passes through all points without corners. "
     "Open paths stay open and closed paths closed, the original path is never modified, every subpath is deformed as if it was alone, and deforming while stroking is the same as stroking the deformed path.",
     ["inputs"], "random paths, radii, softness, distances, springs and tensions",
     "The tests only draw a few deformed paths without checking them.",
     ["pyx/deformer.py", "pyx/mathutils.py", "pyx/metapost/path.py"],
     [("smoothed", "cornersmoothed, controldists_from_endgeometry_pt"), ("cycloid", "cycloid.deformsubpath"), ("parallel", "parallel.deform and rebuild_intersected_normpath"), ("linesmoothed", "linesmoothed.deform")],
     technique="property-based testing (Hypothesis): independently calculated distances, tangents, curvatures and points of the original path")

prop("C37", "MetaPost-like paths run as MetaPost would draw them",
     "A path of the metapost module passes through its knots in order with the control points which Hobby's algorithm (as in MetaPost) gives for the stated curls, angles, tensions (also atleast) and explicit control points, at open and closed paths, coinciding knots and several pieces. "
     "Lines are straight, turn smooth neighbours into corners or keep the direction of the line, closed paths are closed, and the knots and links given are a description only, which can be used again.",
     ["inputs"], "all lists of knots and links with all parameters",
     "The functional test compares a dozen curves from the manual of MetaPost with printed values.",
     ["pyx/metapost/path.py", "pyx/metapost/mp_path.py"],
     [("knots and links", "metapost.path.path and its knots and links"), ("choices", "mp_make_choices, mp_solve_choices, mp_set_controls")],
     technique="property-based testing (Hypothesis): differential testing against an independent solution of Hobby's equations and the mpost program")

prop("C39", "Connectors join the boxes along the line, arc, curve or lines asked for",
     "A connector is exactly the part of the line, circular arc, Bezier curve or pair of lines, as given by the angles, bulges or lengths between the centers of the boxes, which remains when it is cut at the outline where it leaves the first box and where it enters the second, and then shortened by the given distances at the begin and end. "
     "Angles and bulges have the documented sides and signs, and two of the angles and lengths of a triangle determine all others.",
     ["inputs"], "random convex boxes, all parameters",
     "The functional test only draws some connectors.",
     ["pyx/connector.py", "pyx/box.py"],
     [("geometry", "line_pt, arc_pt, curve_pt, twolines_pt"), ("cutting", "connector_pt.omitends and shortenpath")],
     technique="property-based testing (Hypothesis): independent geometry of the connection cut by bisection")

prop("C33", "Graphs place data where the axes say and cut them at the boundary",
     "In two-dimensional graphs each data point is painted at the position given by its axes (linear, logarithmic, reversed, second axes, renamed columns) and the position, size and orientation of the graph. "
     "Lines are cut at the graph boundary and interrupted at missing values, symbols, texts and impulses outside are left out, and errorbars show their range up to the boundary with caps at the ends inside. "
     "Symbols have the requested shape, size, filling and order of changes, arrows and texts the requested length, angle, colour and place, and positions asked for by pos, vpos and the axis methods are the same.",
     ["inputs"], "all graph geometries, axes, data tables with missing and outlying values, and styles",
     "The tests paint a few graphs without comparing anything.",
     ["pyx/graph/graph.py", "pyx/graph/style.py"], [("positions", "graphxy.pos, graphxy.vpos"), ("lines", "style._line, style.line, style.impulses"), ("errorbars", "style.range, style.errorbar"), ("symbols", "style.symbol, style.arrow, style.text")])

prop("C34", "Bars, histograms, rectangles, grids and densities cover the area of their data",
     "In two-dimensional graphs histograms, bars (side by side, stacked, on nested axes) and rectangles cover exactly the part inside the graph of the area given by their data, start value and axes, with the outline and colours of the style. "
     "Grids connect neighbouring points of the grid in both directions, density and surface plots show at each place the colour of the data there (or interpolated between the data) and leave missing data out.",
     ["inputs"], "all graph geometries, axes, data tables with missing and outlying values, and style options",
     "The tests paint a few graphs without comparing anything.",
     ["pyx/graph/style.py"], [("histograms", "style.histogram"), ("bars", "style.barpos, style.stackedbarpos, style.bar, style.changebar"), ("rectangles", "style.rect"), ("grids", "style.gridpos, style.grid, style.density, style.surface")])

prop("C35", "Three-dimensional graphs show the projection of their data and axes",
     "Points, depths and angles of three-dimensional graphs follow the central or parallel projection for the given viewer, scales, size and position. "
     "All twelve axes lie on their edges (or in the requested plane) with ticks in that plane and grids around the graph, axes behind the data are painted before and others after them. "
     "Lines and errorbars are cut at the graph box, bars show exactly the faces seen by the viewer with their lighting, and of surfaces and bars the one nearest to the viewer is visible, with front and back coloured as requested.",
     ["inputs"], "all projectors, scales, axes, data tables and style options",
     "The tests paint a few graphs without comparing anything.",
     ["pyx/graph/graph.py", "pyx/graph/style.py"], [("projection", "graphxyz.central, graphxyz.parallel"), ("axes", "graphxyz.doaxispositioner, graphxyz.doaxes"), ("surfaces", "style.surface"), ("bars", "style.bar")])

prop("C42", "Axes are painted as their painters define, at their place in the graph",
     "Base path, ticks (inner and outer length by level), grid lines, labels and title of an axis are painted along its path or side of the graph at the positions given by axis and painter, with the attributes for their level, "
     "text rotated relative to the tick direction but never upside down and aligned at the requested distances. "
     "Further axes of a graph keep the axes distance to the previous one, linked axes repeat the ticks with their own painter, axes can be moved to a value of the other axis, and flipped and one-dimensional graphs exchange the sides; "
     "bar and split axes paint names, region marks and breaks at their parts and leave the painting of the parts to the painters of the subaxes.",
     ["inputs"], "all painters, tick lists, paths and graph geometries, with boxes as texts",
     "The tests paint a few axes without comparing anything.",
     ["pyx/graph/axis/painter.py", "pyx/graph/axis/positioner.py", "pyx/graph/axis/axis.py", "pyx/graph/graph.py", "pyx/box.py"],
     [("painters", "regular.paint, bar.paint, split.paint, rotatetext"), ("layout", "graphxy.doaxispositioner, graphxy.axisatv, graphxy.doaxes"), ("positions", "lineaxispos_pt, pathpositioner, subaxispositioner")])


prop("C43", "Graph keys and key graphs explain what the graph shows",
     "A key lists the titles of the data in plotting order in rows of equal distance and in columns, each beside an illustration of its styles with the attributes of the data, and is placed at the requested position in or at the graph without changing the graph. "
     "The key graph of a colour style shows the gradient along the colour axis so that the colour at a value is the one used for data of this value. "
     "An automatic key graph is placed at the axes distance to the outermost right axis and takes over the title when it has no colour axis.",
     ["inputs"], "all graphs, styles, titles and key options, with boxes as texts",
     "The tests paint a few keys without comparing anything.",
     ["pyx/graph/key.py", "pyx/graph/style.py", "pyx/graph/graph.py", "pyx/box.py"],
     [("key", "key.paint, key.paintcolumn, key_pt of the styles"), ("placement", "graphxy.dokey, graphxyz.dokey"), ("keygraph", "_keygraphstyle, style.gradient, autokeygraphtrafo")])

prop("C23", "Boxes typeset by TeX have TeX's extents and paint TeX's rules",
     "A text typeset by a TeX engine has the width, height and depth TeX computed, scaled by the unit of texts and aligned, shifted and broken into lines as its text attributes say, and its anchor, corners and bounding box follow all transformations. "
     "All rules of the text are painted at the place, in the colour and under the transformation given by TeX and by the specials in all output formats and in its text path, and each marker is reported where it was set. "
     "This holds for all texts of an engine, whatever order of texts, outputs, failed texts, restarts and later transformations takes place, and a text which TeX complains about raises an error.",
     ["inputs", "histories"], "all texts of boxes, rules, kerns, paragraphs and specials, all combinations of text attributes and all histories of a TeX or LaTeX engine",
     "The tests typeset a few texts and look at nothing but the absence of exceptions.",
     ["pyx/text.py", "pyx/dvi/dvifile.py", "pyx/box.py", "pyx/unit.py"],
     [("text box", "SingleEngine._execute, text_pt, textextbox_pt"), ("text attributes", "halign, parbox, valign, vshift, size: apply"), ("dvi", "DVIfile.readpage, putrule, special")],
     technique="model-based generated histories against an own model of TeX's boxes")


prop("C25", "Text in Type 1 fonts shows the glyph outlines of the font program",
     "For every Type 1 font program (PFA or PFB; charstrings with lines, curves, flex, hint replacement, subroutines, fractions and accented characters by seac) and every text in it "
     "(any decoding, kerning, ligatures, letter spacing, slant, size, position, color and transformation), EPS, PDF and SVG output - with embedded fonts, stripped or complete, or with text as "
     "paths - shows exactly the outlines of the font program at the positions given by the glyph widths, kerning pairs and spacing. Embedded, stripped and rewritten fonts are valid font programs "
     "containing the glyphs used with their outlines and widths, glyph widths in PDF match the font, and the bounding box of a text is the one of its font metric.",
     ["inputs"], "all Type 1 font programs, metrics and texts, all output formats and options",
     "The tests set a few words in one installed font and look at nothing but the absence of exceptions.",
     ["pyx/font/font.py", "pyx/font/t1file.py", "pyx/font/t1code.py", "pyx/font/afmfile.py", "pyx/font/pfmfile.py", "pyx/reader.py", "pyx/svgwriter.py", "pyx/canvas.py"],
     [("font program", "T1File: from_PF_bytes, getglyphpath_pt, getstrippedfont, outputPS, outputPDF; T1cmd subclasses"), ("text", "T1text_pt: textpath, processPS, processPDF, processSVG, bbox"),
      ("metric", "AFMfile, PFMfile"), ("resources", "PSreencodefont, PSchangefontmatrix, PDFfont, SVGT1file")],
     technique="generated font programs and texts against an own interpreter of charstrings and of the output formats")

prop("C24", "Pages of DVI files show what the DVI standard says",
     "For every valid DVI file (all commands with all operand sizes, any unit and magnification, any font numbers) with fonts given by TFM metrics, Type 1 fonts with map lines and encoding "
     "files, and virtual fonts (nested, with any local fonts and packets), each page as read by PyX shows, in EPS, PDF and SVG and as paths, exactly the glyphs and rules of the DVI standard: each "
     "glyph outline at its position and size, in the color, rotation and scaling of the enclosing PyX specials, markers at their positions, and the bounding box of the TFM metrics. Reading with "
     "debugging output does not change the page.",
     ["inputs"], "all DVI, VF, TFM, encoding and map files",
     "The tests read what the installed TeX writes for a few texts and check only that no exception is raised.",
     ["pyx/dvi/dvifile.py", "pyx/dvi/vffile.py", "pyx/dvi/tfmfile.py", "pyx/dvi/texfont.py", "pyx/dvi/mapfile.py", "pyx/dvi/encfile.py", "pyx/reader.py"],
     [("pages", "DVIfile.readpage, putchar, putrule, special, _push_dvistring"), ("fonts", "TeXfont, virtualfont, vffile, TFMfile"), ("maps", "readfontmap, MAPline, ENCfile")],
     technique="generated DVI/VF/TFM files and TeX output against an own DVI interpreter with outlines of the font programs")

prop("C26", "TeX message parsers accept exactly the messages they describe",
     "For every output of TeX made of messages of the documented kinds (start and end of a run; loading of nested files, of definitions, packages and graphics; box, font, package, rerun and "
     "nobbl warnings) between other text, in any order, with file names in quotes and lines wrapped at any column, each parser of texmessage removes the messages it stands for and leaves the "
     "rest unchanged, where files mentioned in load messages need to exist; each warning is logged once; the parsers for the start and the end of a run raise a TexResultError unless the output "
     "contains what they require. The helpers for patterns, brackets and positions return what a search character by character gives.",
     ["inputs"], "all sequences of TeX messages and parsers",
     "The tests typeset a few texts, whose output contains hardly any message.",
     ["pyx/text.py"],
     [("parsers", "texmessage, remove_pattern, remove_nested_brackets, index_all"), ("defaults", "SingleEngine.texmessages_*_default")],
     technique="generated TeX outputs assembled from known messages, parsed and compared to the assembly")

prop("C27", "Texts of the UnicodeEngine",
     "For every font with AFM or PFM metrics and every text of strings, scaled and shifted pieces and stacked texts with or without fraction bar, the UnicodeEngine shows the glyphs of the "
     "font side by side by their widths, in math mode with minus signs built from the bars of the equals sign at the size and height of their piece; alignment and math axis shift move the text "
     "against its anchor on the base line, transformations act around the anchor, fill styles color it and the unit for text sizes scales it; the box (corners, bounding box, also of a canvas) "
     "spans the glyph metrics, lines, anchor and advance; EPS, PDF, SVG, output as path and the text path all show the same outlines.",
     ["inputs"], "all fonts, texts and attributes",
     "The tests do not use the UnicodeEngine but for labels of a few graphs which are not compared.",
     ["pyx/text.py", "pyx/font/font.py"],
     [("engine", "UnicodeEngine.text_pt"), ("text", "unicodetextbox_pt"), ("attributes", "halign.apply_trafo, _vshiftmathaxis.apply_trafo")],
     technique="generated texts against an own layout by font widths with outlines of the font program")

prop("C44", "PDF forms hold the fields where and as they were drawn",
     "Every text field, check box, set of radio buttons and choice field inserted in a canvas of a PDF document appears exactly once in the form of the document and as annotation of its own page "
     "only, at its rectangle moved and scaled with its canvases, under its name, with the given values, options, default, flags, alignment, border, font, sizes and fill color of the canvases "
     "around it; exactly the chosen button of a set is on, and the appearances show the default text and the button states. Names and values may contain any characters.",
     ["inputs"], "all documents with form fields in translated and uniformly scaled canvases",
     "The tests write one file with four fields on one page and do not read it back.",
     ["pyx/pdfextra.py", "pyx/pdfwriter.py", "pyx/canvas.py"],
     [("fields", "pdfextra.textfield, checkbox, radiobuttons, choicefield"), ("annotations and form", "pdfwriter.PDFannotations, PDFform, PDFpage.write"), ("fill styles", "canvas.processPDF")],
     technique="generated documents read by a strict PDF parser against an own model")

prop("C45", "Compiled extensions and external search tools agree with the Python code",
     "The optional C extensions behave as what they stand in for: the compiled coder of Type 1 fonts gives exactly the bytes of the algorithm of the font format (and of the Python code) for any data, key and prefix, without errors of memory or arithmetic, "
     "and the kpathsea bindings, as part of the package, find for any name and formats the file which kpsewhich finds, and nothing when there is none or the format is unknown. "
     "The locate method finds the first listed file which has exactly the name, with the extensions of the formats in order, and nothing without this tool.",
     ["inputs"], "all byte strings, keys and prefixes; all trees of files, names and formats",
     "The tests compile the extensions only and never load them; the search by locate is not tested.",
     ["pyx/font/_t1code.c", "pyx/font/t1code.py", "pyx/pykpathsea.c", "pyx/config.py"],
     [("coder", "font/_t1code.c decoder, encoder; font/t1code.py"), ("kpathsea bindings", "pykpathsea.c find_file, config.pykpathsea"), ("external tools", "config.kpsewhich, config.locate")],
     technique="differential testing of the compiled code against reference, kpsewhich and a stand-in tool, with sanitizers")

prop("C46", "Ghostscript renders EPS and PDF alike, as drawn and without complaints",
     "An independent interpreter (Ghostscript) reads the EPS and the PDF file of any drawing (graphs, texts, images, patterns, meshes, decorations, forms in PDF) without errors or warnings, and paints the same page from both of them (apart from transparency and form fields, which PostScript does not have). "
     "The rasters of writeGSfile and pipeGS have the size of the page at the given resolution, and every pixel away from edges has the colour and opacity which painting the objects of the canvas one after another gives there. "
     "Devices are guessed from the names of the files and names from the script, unknown names and inputs are refused, and no temporary files are left behind.",
     ["inputs"], "all canvases, documents of one page, and options of the raster methods",
     "No test reads any output back, and none calls writeGSfile or pipeGS.",
     ["pyx/canvas.py", "pyx/document.py", "pyx/pswriter.py", "pyx/pdfwriter.py", "pyx/color.py", "pyx/mesh.py", "pyx/pattern.py", "pyx/bitmap.py", "pyx/font/font.py"],
     [("rasters", "canvas.writeGSfile, canvas.pipeGS, canvas._gscmd"), ("files", "pswriter.EPSwriter, pdfwriter.PDFwriter and the processPS and processPDF methods of all canvas items")],
     technique="property-based testing against a painter model and differential testing of both formats with an independent interpreter")


# ---- end of the list of properties

def main():
    lines, checks, na = [], [], []
    for p in sorted(P, key=lambda p: p["id"]):
        have = os.path.exists(os.path.join(VERIF, "checks", p["id"].lower() + ".py"))
        anchors = dict(files=p["files"], mechanism=[dict(name=n, where=w) for n, w in p["mech"]])
        if p["observe"]:
            anchors["observe_at"] = p["observe"]
        assert len(p["title"]) <= 80, p["id"]
        lines.append(json.dumps(dict(id=p["id"], title=p["title"], statement=p["statement"],
                                     quantifier=dict(over=p["over"], text=p["text"]),
                                     why_tests_cant=p["why"], anchors=anchors)))
        if have:
            cmd = "python3-vt run.py %s" % p["id"]
            checks.append(dict(property=p["id"], quick_cmd=cmd + " --tier quick", thorough_cmd=cmd + " --tier thorough",
                               technique=p["technique"], level="exploration",
                               level_note=p["level_note"] or "Random structured generation with shrinking against an independent oracle; "
                               "no exhaustiveness claim. Case counts, the rule for non-trivial cases and samples are in the evidence file."))
        else:
            na.append(dict(property=p["id"], reason="no check built yet"))
    with open(os.path.join(VERIF, "properties.jsonl"), "w") as f:
        f.write("\n".join(lines) + "\n")
    with open(os.path.join(VERIF, "MANIFEST.json"), "w") as f:
        json.dump(dict(version=1, setup_cmd="python3-vt tools/setup.py", checks=checks, not_applicable=na), f, indent=1)
        f.write("\n")
    print(len(lines), "properties", len(checks), "checks")


main()
