"""Single source for properties.jsonl and MANIFEST.json (run: python3 tools/props.py)."""
import json, os

P = "svgio/path.py"
B = "svgio/basic.py"
N = "svgio/nodes.py"
K = "svgio/constants.py"


def prop(id, title, statement, over, qtext, why, files, mech, observe, state=None, claimed=True, reason=None, note=None):
    return dict(id=id, title=title, statement=statement, over=over, qtext=qtext, why=why, files=files, mech=mech,
                observe=observe, state=state or [], claimed=claimed, reason=reason, note=note)


PROPS = [
    prop("C01", "Path data is interpreted exactly as the SVG grammar and rules prescribe",
         "For every path-data string of the SVG grammar (all commands, both cases, implicit repetition, every legal separator/number/flag spelling, segment-completing close), parsing yields one segment per drawn command with the kind, absolute coordinates, reflected control points and arc geometry (F.6 endpoint-to-centre, radius correction) the SVG specification prescribes. Parsing the text in one go, appending it in pieces, or issuing the equivalent builder-method calls (move, line, horizontal, vertical, quad, smooth_quad, cubic, smooth_cubic, arc, closed, one or many points per call) gives the same segments.",
         ["inputs"], "all grammatical path-data strings, all splittings into pieces at command boundaries, and all builder call sequences",
         "The suite parses a few dozen fixed strings; the grammar is infinite and the bugs live in combinations (number spelling x command x previous command x subpath state).",
         [P, K], [("PathLexicalParser.parse", P), ("Path builder methods", P), ("Path.smooth_point / z_point", P), ("Arc._svg_parameterize", P)],
         ["list(Path(text))", "segment .start/.end/.control*/.rx/.ry/.sweep/.center"]),
    prop("C02", "Path-data output, re-parsed, reproduces the same geometry",
         "For every path, the text produced by d() - with commands as recorded, forced absolute or forced relative, and with smooth shorthands on, off or as recorded - parses back to the same number and kinds of segments with the same points (to the 12 significant digits written; 6 for arc radii and rotation). str(path), str(subpath) and Subpath.d() obey the same rule, writing never changes the path, and forced absolute/relative output contains only commands of that case, and no shorthand when smooth is off.",
         ["inputs"], "all valid paths (parsed, built or edited) x relative in {None,True,False} x smooth in {None,True,False}",
         "Tests compare a handful of texts literally; the round trip must hold for every mix of segment kinds, recorded flags and coordinates.",
         [P, B], [("Path.d / Path.svg_d", P), ("segment d() methods", P), ("is_smooth_from", P), ("Point.__str__", B)],
         ["Path.d()", "str(Path)", "Subpath.d()", "Path(text)"]),
    prop("C03", "Every list edit leaves the path connected and closes where its subpath began",
         "After any sequence of append, insert, extend, +=, item and slice assignment, item and slice deletion, pop, remove, clear and builder calls on a path that starts with a move, each segment starts where its predecessor ends and every close ends at the latest preceding move's point. The edit itself otherwise has the effect the same edit has on a plain Python list (count, order and kinds of segments, positions of the unaffected points).",
         ["histories", "inputs"], "all edit sequences with all index/slice forms (negative, extended, out of range) over paths with several subpaths",
         "Tests perform single edits on single-subpath paths; the connection repair is local and its misses only appear in particular edit sequences.",
         [P], [("_validate_connection/_validate_subpath/_validate_move/_validate_close", P), ("validate_connections", P), ("Path.__setitem__/__delitem__/insert/extend/append", P)],
         ["segment.start/.end after each edit", "len(path)"]),
    prop("C04", "Measurements always describe the path as it is now",
         "After any sequence of edits, reversals, arc approximations and earlier measurements, length(), point(t) and npoint(ts) of a path return what a freshly built path with the same segments returns; nothing remembered from before an edit shows through. Measuring does not change the path.",
         ["histories"], "all interleavings of mutating operations and measurements",
         "The length cache is only wrong after measure-mutate-measure sequences, which the tests sample for one or two mutations.",
         [P], [("_length/_lengths cache and its resets", P), ("Path.length/point/npoint", P)],
         ["Path.length()", "Path.point()", "Path.npoint()"]),
    prop("C05", "Reversal retraces the same curve backwards",
         "Reversing a segment, a whole path or one subpath keeps the number of segments and the drawn point set while exchanging direction: the reversed segment at t is the original at 1-t, the reversed path at t is the original at 1-t (for paths whose closes are zero length, and exactly after direct_close()), subpaths come out in reverse order with closed ones still closed, and lengths and bounding boxes are unchanged. Reversing an open path or a segment twice restores it, and direct_close() makes every close zero length without altering the drawn shape.",
         ["inputs", "histories"], "all paths (open, closed, many subpaths, all segment kinds, degenerate) and all subpath indices",
         "Tests reverse a few literal paths and compare text.",
         [P], [("Path.reverse", P), ("Subpath.reverse/_reverse_segments", P), ("segment reverse()", P), ("direct_close", P)],
         ["segments before/after reverse()", "Path.point"]),
    prop("C06", "Subpaths partition the path and act as a live window on it",
         "as_subpaths() splits any path into consecutive non-overlapping runs that cover every segment in order, each run after the first starting with a move and containing no other move; count_subpaths() and subpath(i) agree with it. A subpath's length, indexing (including negative indices and slices), iteration, equality, d() and bbox() equal those of its segments taken alone, and assignments, deletions, additions, multiplication and reversal through it change exactly its own segments of the backing path.",
         ["inputs", "histories"], "all paths x all subpath indices x all index/slice forms and view operations",
         "Tests look at two-subpath literals with a few integer indices.",
         [P], [("Path.as_subpaths/subpath/count_subpaths", P), ("Subpath index mapping", P), ("Subpath.bbox/d", P)],
         ["Path.as_subpaths()", "Subpath.__getitem__/__setitem__/__iadd__"]),
    prop("C07", "Point evaluation follows the curve definitions",
         "For every segment and t in [0,1], point(t) is the value of the segment's defining formula (linear interpolation, Bernstein forms, elliptical arc from its start by its sweep), is its start at 0 and its end at 1 (to rounding), and npoint over many t equals point at each. For a path, point(t) is the point at fraction t of the total length - inside each segment, the segment's own parameter is spread linearly over its share - with 0 and 1 giving the first and last point, and npoint agrees with point for any order and repetition of positions.",
         ["inputs"], "all segments and paths x all positions (0, 1, boundaries between segments, scalars, lists, arrays)",
         "Tests evaluate a few points per curve type against stored constants.",
         [P], [("Linear/QuadraticBezier/CubicBezier/Arc npoint", P), ("PathSegment.point", P), ("Path.point/npoint", P)],
         ["segment.point(t)", "segment.npoint(ts)", "Path.point(t)", "Path.npoint(ts)"]),
    prop("C08", "Bounding boxes contain the curve and are tight",
         "For every drawn segment, bbox() returns (xmin, ymin, xmax, ymax) with xmin<=xmax and ymin<=ymax that contains every point of the segment, and each of its four sides is touched by the segment. A subpath's box is the box of its drawn segments.",
         ["inputs"], "all segments (arcs with any rotation, sweep up to a full turn, degenerate radii; beziers with coinciding or collinear controls)",
         "Six fixed segments are tested; extremum formulas fail only in special coefficient patterns.",
         [P], [("segment bbox()", P), ("CubicBezier._real_minmax", P), ("Arc.bbox", P), ("Subpath.bbox", P)],
         ["segment.bbox()", "Subpath.bbox()"]),
    prop("C09", "Lengths equal the true arc length",
         "For every segment, length() equals the arc length of its curve within the stated error, is at least the chord, is never negative, and is 0 for moves; a path's length is the sum over its segments. Lengths do not change under rotation, translation, reflection or reversal and scale by |k| under uniform scaling by k.",
         ["inputs"], "all segments and paths, including degenerate, cusped and nearly straight curves and eccentric arcs",
         "Tests pin about thirty literal lengths; closed forms fail only near degenerate coefficient patterns.",
         [P], [("Linear/QuadraticBezier/CubicBezier/Arc length", P), ("PathSegment.segment_length", P), ("Path._calc_lengths", P)],
         ["segment.length()", "Path.length()"]),
    prop("C10", "Transforming a curve transforms every one of its points",
         "For every segment, path or subpath and every invertible affine matrix, multiplying by the matrix (or its transform text) gives the curve whose point at each parameter is the matrix image of the original's - for arcs under rotation, reflection, axis exchange, non-uniform scaling and skew alike - with * leaving the operand unchanged and *= changing it in place. Multiplying by A and then B equals multiplying once by A*B.",
         ["inputs"], "all segments/paths x all invertible matrices given as Matrix or transform text",
         "Tests transform one arc by one matrix; orientation, skew and composition cases are unbounded.",
         [P, B], [("segment __imul__", P), ("Path.__imatmul__ / Path multiplication", P), ("Subpath.__imul__", P), ("Point.__imul__", B)],
         ["(segment * matrix).point(t)", "path * matrix"]),
    prop("C11", "Arc constructors produce the arc they describe",
         "An arc built from SVG endpoint parameters, complex endpoint parameters, centre plus endpoints with direction, start+end+radius, a control point on it, a bulge or sagitta, an axis-aligned quarter by its radii, centre and sweep from one end, or a bounding box, runs exactly from the given start to the given end on the described ellipse (radii, rotation, passing through the control point, sagitta height) with the requested direction (clockwise unless asked otherwise) and large/small choice. Derived attributes agree: start and end lie on the ellipse, the sweep leads from start to end, point_at_t/t_at_point and point_at_angle/angle_at_point are mutually inverse.",
         ["inputs"], "all parameter values for each constructor form",
         "A handful of circular examples are tested; quadrant, direction, rotation and too-small-radius cases combine without bound.",
         [P], [("Arc.__init__", P), ("Arc._svg_parameterize", P), ("Arc t/angle conversions", P)],
         ["Arc(...).center/rx/ry/sweep/point(t)"]),
    prop("C12", "Approximating arcs by Beziers stays on the arc",
         "as_cubic_curves(n) and as_quad_curves(n) return n joined Beziers that start and end exactly where the arc does, pass through the arc at the slice boundaries, advance in the same direction, and stay within the approximation error of their order for that slice angle; approximate_arcs_with_cubics/quads replace exactly the arcs of a path by such curves, leaving every other segment and all connections intact.",
         ["inputs"], "all arcs (eccentric, rotated, either direction, any sweep) x slice counts, and all paths containing them",
         "One test compares one arc; error and joint behaviour depend on sweep, eccentricity and count.",
         [P], [("Arc.as_cubic_curves/as_quad_curves", P), ("Path.approximate_arcs_with_*", P)],
         ["Arc.as_cubic_curves()", "Path.approximate_arcs_with_cubics()"]),
    prop("C13", "Results do not depend on numpy or scipy being installed",
         "With numpy and/or scipy unavailable, every measurement and evaluation (point, npoint, length, bbox of segments and paths) returns the same values as with them, within the requested error, and succeeds on the same inputs.",
         ["configurations", "inputs"], "the four combinations of numpy/scipy presence x all segments and paths",
         "The suite runs in one environment, so the fallback branches are only reached by direct private calls.",
         [P], [("ImportError fallbacks of npoint/length", P)],
         ["point/npoint/length in each configuration"]),
    prop("C14", "Matrix operations obey affine-map algebra",
         "For all matrices and points, applying A*B equals applying A then B; post_* and pre_* operations, the scale/translate/rotate/skew constructors (with optional centre point), multiplication by transform text, ~/inverse, point_in_inverse_space, vector, determinant, transform_point/transform_vector and identity tests equal the corresponding operation on 3x3 affine matrices. Operators other than the in-place ones leave their operands unchanged, and Matrix(copy/components) and item access or iteration preserve all six values.",
         ["inputs", "histories"], "all matrices, operation sequences and points",
         "Tests multiply a few concrete matrices.",
         [B], [("Matrix.matrix_multiply", B), ("Matrix pre_/post_ methods", B), ("Matrix.inverse", B), ("Matrix.point_in_matrix_space", B)],
         ["Matrix(...) components", "Point * Matrix"]),
    prop("C15", "Transform lists parse to the product of their functions",
         "For every transform list of SVG 1.1 / CSS 2D functions (matrix, translate, translateX/Y, scale, scaleX/Y, rotate, skew, skewX and skewY with optional centre; any letter case, separators, angle units, and lengths or percentages given the rendering context), Matrix(text) equals the product of the individual function matrices applied rightmost first. Text from Viewbox transforms and the identity/empty list parse accordingly.",
         ["inputs"], "all transform lists over all functions, argument counts, units and spellings",
         "About twenty strings are tested.",
         [B, K], [("Matrix.parse", B), ("Matrix.render", B), ("REGEX_TRANSFORM_*", K)],
         ["Matrix(text, ppi=, width=, height=)"]),
    prop("C16", "Viewbox transforms fit the box into the viewport as SVG defines",
         "For every viewport rectangle, viewBox and preserveAspectRatio value, the transform text maps the viewBox exactly as SVG 8.2 prescribes: none fills both axes, meet makes the box just fit inside, slice just cover, with the stated min/mid/max alignment per axis and xMidYMid meet as the default. viewBox text is read for all separators, Viewbox copies and dict sources carry the same values, and an incomplete viewport or viewBox yields no transform; the viewbox_transform of an svg, image or pattern element is the one of its own attributes.",
         ["inputs"], "all rectangles x the 19 align/meetOrSlice combinations and defaults",
         "Tests fix one rectangle per combination.",
         [B], [("Viewbox.viewbox_transform", B), ("Viewbox.set_viewbox", B)],
         ["Viewbox(...).transform(element)", "Matrix(text)"]),
    prop("C17", "Lengths convert, add, divide and compare as the CSS units they denote",
         "For all lengths, value() resolves each unit (px, pt, pc, in, cm, mm, %, em, ex, vw, vh, vmin, vmax, unitless) to the CSS pixel value for the given ppi, reference length, font and viewport, and returns the length itself when a needed reference is missing; to_mm/to_cm/to_inch invert it. Addition, subtraction, ratios and ordering of convertible lengths agree with the values they denote, equality holds exactly when two lengths denote the same value (in convertible units), inconvertible mixes raise ValueError, scalar multiplication and division scale, multiplying by a percentage takes that share, and operands of non-in-place operators are unchanged.",
         ["inputs"], "all amounts, unit pairs, operators and resolution contexts",
         "Tests use about twenty literals, mostly one unit pair each.",
         [B], [("Length arithmetic", B), ("Length.value / in_pixels / in_inches", B), ("Length.__eq__", B)],
         ["Length operators", "Length.value()"]),
    prop("C18", "Angles convert between units and compare modulo a turn",
         "For every angle, parsing any unit spelling (deg, grad, rad, turn, %, bare number, any case) and converting through as_degrees/as_gradians/as_turns/as_radians agree with the unit definitions, round trip, and as_positive_degrees is the equivalent value that is never negative. Two angles are equal exactly when they differ by whole turns (within rounding), normalized() lies in [0, one turn) and equals the original, and is_orthogonal holds for exact multiples of a quarter turn.",
         ["inputs"], "all angle values and unit spellings",
         "Six literals are tested.",
         [B], [("Angle.parse", B), ("Angle.__eq__/normalized", B), ("Angle unit properties", B)],
         ["Angle.parse(text)", "Angle properties", "=="]),
    prop("C19", "Every CSS colour notation denotes its defined colour",
         "Every SVG/CSS colour spelling - all 147 keywords plus transparent, #rgb, #rgba, #rrggbb, #rrggbbaa, rgb()/rgba() with integers or percentages, hsl()/hsla() with any angle - in any letter case and legal spacing, yields the red, green, blue and alpha the specification defines, with out-of-range components clamped; none yields the empty colour. Equality of colours and colour texts follows those four channels.",
         ["inputs"], "all keywords and all component values of each notation",
         "Tests check one or two colours per notation.",
         [B, K], [("Color.parse*", B), ("colour keyword table", B), ("REGEX_COLOR_*", K)],
         ["Color(text).red/green/blue/alpha", "=="]),
    prop("C20", "Colour channels, packings and conversions are mutually consistent",
         "For every colour, red, green, blue, alpha, opacity, hex, hexa, rgb, rgba and argb describe the same channel bytes; setting any one of them (or passing it to the constructor) changes exactly the channels it names, clamped to range. hue/saturation/lightness match the HSL definition and setting them (alone or as hsl) yields that colour with opacity kept, over/blend follow Porter-Duff source-over, distance is the symmetric redmean metric (0 for equal colours), and luminance, luma, brightness, blackness and intensity stay in [0,1] and follow their definitions.",
         ["inputs", "histories"], "all 32-bit colours and setter sequences",
         "Tests set a few channels once.",
         [B], [("Color properties and setters", B), ("Color.hsl_to_int", B), ("Color.over/blend", B), ("Color.distance_sq", B)],
         ["Color properties after each set"]),
    prop("C21", "Points obey plane vector arithmetic; convex hulls are convex and cover",
         "Point construction from pairs, text, complex numbers or points, item/attribute access, +, -, scalar and complex multiplication, powers, argument, distance, angle, polar, towards/move_towards, reflection, conjugate, orientation and matrix application agree with plane vector arithmetic, with non-in-place operators leaving operands unchanged. convex_hull always terminates and yields, in order without repetition, a strictly convex polygon of input points that contains every input point.",
         ["inputs"], "all point operands and all finite point sets (duplicates, collinear, ties included)",
         "Tests use a few points and one random hull.",
         [B], [("Point operators", B), ("Point.convex_hull/orientation", B)],
         ["Point results", "list(Point.convex_hull(pts))"]),
    prop("C22", "Loading a document mirrors its XML exactly",
         "Loading any well-formed XML document yields a tree with the same elements in the same order and nesting, each with exactly its attributes and character data, correct parent and owner-document links, and the node class belonging to its SVG tag (a plain node for other tags), whatever the namespace prefix, encoding, entities or comments used. Loading more text into a node appends to that node without disturbing what is there.",
         ["inputs"], "all well-formed documents (every SVG tag, foreign namespaces, arbitrary nesting, attribute text and encodings)",
         "Four small literal documents are loaded by the tests.",
         [N], [("Node.parse", N), ("BOOTSTRAP", N)],
         ["Document(source) tree", "node.attributes/parent/document"]),
    prop("C23", "Saving and re-loading a document loses nothing",
         "For every document, loaded or created or edited, the XML written by str(node), node.xml() and Document.write is well formed and re-loads to an equal tree: same element names, nesting and order, same attribute names and values (including characters that need escaping and namespaced attributes), and same character data, whatever the locale. Writing does not modify the tree, and writing what was re-loaded gives the same text.",
         ["inputs", "histories"], "all documents and DOM edit sequences",
         "Saving fails outright on current Pythons, so no test reaches it.",
         [N], [("Node.xml", N), ("Document.write", N), ("tag() of each node class", N)],
         ["str(node)", "Document.write", "re-loaded tree"]),
    prop("C24", "Ids resolve and navigation agrees with the tree",
         "get_element_by_id (and by url(#...) reference) returns exactly the element carrying that id - the last loaded or built when an id is repeated - and None for others. first_child, last_child, next/previous sibling (and the element_ variants), has_child_nodes, parent_node/parent_element, owner_document, child_element_count, children and get_ancestors agree with the actual tree at every node, also after children are added, even when siblings look identical.",
         ["inputs", "histories"], "all trees (repeated ids, many look-alike siblings) and additions",
         "Tests look up one id in a one-element document.",
         [N], [("Document.objects / get_element_by_id / get_element_by_url", N), ("Node sibling/child properties", N)],
         ["Document.get_element_by_id", "Node navigation properties"]),
    prop("C25", "Presentation values cascade from the nearest declaring ancestor",
         "For every node, each presentation property (fill, stroke, their opacities, stroke width, transform, geometry attributes, href, viewBox) reports the value declared on the node itself or else on its nearest ancestor declaring it, or the property's default; fill and stroke are that colour with the effective fill-opacity or stroke-opacity applied. Reading never alters the tree, and after an attribute changes anywhere the next read reflects it.",
         ["inputs", "histories"], "all trees, attribute placements at any depth, and attribute edits between reads",
         "Tests read one inherited stroke.",
         [N], [("Document.get_values/get_ancestors", N), ("GraphicalElement.fill/stroke", N), ("element attribute properties", N)],
         ["node.fill/stroke/...", "Document.get_values(node)"]),
    prop("C26", "Building elements through the DOM equals loading them",
         "Creating an element through a parent's factory attribute (group.rect(...), svg.path(...), and so on for every SVG element) appends exactly one child of the right class, linked to its parent and document, with the positional arguments stored under the documented attribute names and keyword arguments as given, findable by its id. A document built this way equals, node for node and in its saved XML, the one obtained by loading the equivalent text.",
         ["histories", "inputs"], "all construction sequences over all element kinds and arguments",
         "One test adds one line element.",
         [N], [("ElementBuilder", N), ("Node.__getattribute__", N), ("shape constructors", N)],
         ["parent children after a factory call", "saved XML"]),
    prop("C27", "Copies are independent and non-mutating operations do not mutate",
         "copy() of any value (point, matrix, length, colour, angle, viewbox, segment, path, subpath) and the results of non-in-place operators equal what they should but share no mutable state with their sources: changing either afterwards never changes the other. Read-only calls (evaluation, measurement, boxes, text output, comparison, iteration, conversions) leave every operand unchanged, and equality is reflexive, symmetric and distinguishes different segment kinds and coordinates.",
         ["inputs", "histories"], "all values x all operations followed by all mutations",
         "Aliasing is only visible in copy-then-mutate sequences; tests cover a few.",
         [P, B], [("__copy__ methods", P), ("Path construction from segments/paths", P), ("operators", B)],
         ["deep snapshots of all operands before/after"]),
    prop("C28", "repr() of a value evaluates back to an equal value",
         "For every point, matrix, length, colour, angle, segment (each kind), list of segments and subpath, evaluating its repr() yields an equal value to the twelve decimals written.",
         ["inputs"], "all values of each type, including negative, large, tiny and absent (None) parts",
         "Tests evaluate a few literals.",
         [P, B], [("__repr__ methods", P), ("Length.str", B)],
         ["eval(repr(x)) == x"]),
    prop("C29", "Malformed text never hangs, never corrupts, and fails only with ValueError",
         "For arbitrary text, parsing path data, transform lists, colours, lengths, angles or viewBox values terminates and either produces a well-formed value or raises ValueError, and no other exception. A path whose text has an error keeps exactly the segments that precede the error, and an existing path that is given bad text still satisfies its connection rules and keeps its previous segments.",
         ["inputs"], "arbitrary strings, and mutations, truncations and splices of valid ones",
         "Tests try under ten malformed strings.",
         [P, B, K], [("PathLexicalParser", P), ("Matrix.parse", B), ("Color.parse", B), ("Length/Angle parsing", B)],
         ["exceptions", "segments kept"]),
    prop("C32", "Segments and paths hold and report the points they were given",
         "A segment built in any documented spelling (positional, keyword or mixed parts, absent parts, relative/smooth flags, points as Point, pair, complex or text; arcs by start, end, center, prx, pry, sweep) has exactly those points and flags as attributes, items and iteration, keeps its own copies of them, equals a segment of its kind exactly when all parts agree, and its text and reversal carry the same points. Line.closest_segment_point gives the point of the segment (or, unbounded, of its line) nearest to the point given. A path built from text, a list, a tuple, separate segments, another path or by appending holds those segments in order, its sequence views (index, slice, reversed, in, index, count) agree with a list, it equals another path (or subpath, or text) exactly when their segments are equal one by one, and first_point, current_point, z_point, smooth_point and as_points are the ones its segments imply.",
         ["inputs"], "all segments in all constructor spellings, all lines and points, all paths and constructors",
         "Tests build segments in one or two spellings with a few points.",
         [P], [("segment constructors, __getitem__, __eq__, __copy__, reverse", P), ("Linear.closest_segment_point", P), ("Path.__init__", P), ("Path.first_point/current_point/z_point/smooth_point/as_points", P)],
         ["segment attributes and items", "closest_segment_point()", "Path properties"]),
    prop("C30", "Shape nodes decompose into the outlines SVG prescribes",
         "For every rect (with and without rounded corners), circle, ellipse, line, polyline, polygon and path element, loaded or built, segments(), d() and bbox() give the outline SVG 2 chapter 10 prescribes for its attributes, segment by segment in the prescribed order and direction, and nothing for a zero size; with transform they give its image under the element's own transform followed by those of its ancestors. Multiplying a shape or group by a matrix or transform text (* for a copy, *= in place) applies it after the element's own transform; circles and ellipses report the same curve through point, point_at_t/t_at_point, point_at_angle/angle_at_point, unit_matrix, arc_t and arc_angle.",
         ["inputs"], "all shape elements, attribute texts and numbers with absolute units, and chains of transforms",
         "The tests of shapes were written for an earlier class layout and do not run.",
         [N], [("Shape.d/bbox", N), ("Rect/Circle/Ellipse/Line/Polyline/Polygon/Path.segments", N), ("_RoundShape", N), ("Transformable.__mul__/__imul__", N)],
         ["node.segments(transformed)", "node.d()", "node.bbox()", "node.point_at_t(t)"]),
    prop("C33", "Image elements decode the data URL they carry",
         "For every image element whose effective href (or xlink:href) is a base64 data URL of a png, jpg, jpeg or svg+xml image, data is exactly the bytes encoded, white space inside the encoding ignored; for any other href, or none, it is None. Reading it changes nothing and follows every change of the attribute; where Pillow is installed, load() takes the size of the picture and bbox() is its rectangle (a point at the origin before), mapped like shapes by its own and its ancestors' transforms unless transformed=False.",
         ["inputs"], "all byte strings, supported and other URLs, and places of declaration",
         "No test reads image data.",
         [N], [("Image.data", N), ("Image.href", N), ("Image.load/bbox", N)],
         ["image.data", "image.load()", "image.image_width/image_height", "image.bbox()"]),
    prop("C34", "The font shorthand of text elements is split as CSS defines",
         "For every CSS font shorthand of style, variant, weight and stretch keywords in any order, a size with unit, an optional line height, family names and a generic family, text.parse_font(shorthand) sets font_weight (the number, 400 for normal and relative weights, 700 for bold), font_size (pixels for px, pt and pc, otherwise the Length), font_face (the family names as written) and font_family (the generic one), whatever the white space, and nothing for parts that are absent. Text that is not such a shorthand changes nothing, raises nothing and never hangs.",
         ["inputs"], "all shorthands of the supported form, and hostile texts",
         "No test parses a font.",
         [N, K], [("Text.parse_font", N), ("Text.parse_font_weight", N), ("REGEX_CSS_FONT", K)],
         ["text.parse_font(font)", "text.font_weight/font_size/font_face/font_family"]),
    prop("C31", "Parsing a document for rendering applies CSS, use and viewport rules",
         "The module-level parse() of a document returns rendered nodes with style sheets matched, use references expanded and viewport transforms applied as SVG prescribes.",
         ["inputs"], "all documents and viewport parameters",
         "The feature is unfinished at this commit: see reason.",
         [N], [("nodes.parse", N)],
         ["nodes.parse(source)"], claimed=False,
         reason="nodes.parse() calls SVG._use_structure_parse, which does not exist at this commit, so every call raises AttributeError before producing anything; no execution of the feature can be observed and implementing it is a feature, not a repair."),
]


def statement(p):
    """The scope joins the last sentence: a statement has at most three."""
    s = p["statement"]
    if p["id"] in SCOPE:
        s = s.rstrip(".") + " (scope: " + SCOPE[p["id"]].rstrip(".").replace(". ", "; ") + ")."
    assert len([x for x in s.replace("'5.'", "5").replace("8.2", "").split(". ") if x]) <= 3, (p["id"], s)
    return s


def main():
    root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
    with open(os.path.join(root, "properties.jsonl"), "w") as f:
        for p in PROPS:
            assert len(p["title"]) <= 80, (p["id"], len(p["title"]))
            o = {"id": p["id"], "title": p["title"], "statement": statement(p),
                 "quantifier": {"over": p["over"], "text": p["qtext"]},
                 "why_tests_cant": p["why"],
                 "anchors": {"files": p["files"], "state": p["state"],
                             "mechanism": [{"name": n, "where": w} for n, w in p["mech"]],
                             "observe_at": p["observe"], "hook_needed": None}}
            f.write(json.dumps(o) + "\n")
    checks, na = [], []
    for p in PROPS:
        modfile = os.path.join(root, "vmon", "props", p["id"].lower() + ".py")
        if not p["claimed"]:
            na.append({"property": p["id"], "reason": p["reason"]})
        elif not os.path.exists(modfile):
            na.append({"property": p["id"], "reason": "check not built yet (work in progress)"})
        else:
            checks.append({
                "property": p["id"],
                "quick_cmd": "./check %s quick" % p["id"],
                "thorough_cmd": "./check %s thorough" % p["id"],
                "evidence_file": "evidence/%s.json" % p["id"],
                "technique": "runtime monitoring: " + TECH.get(p["id"], "reference-model monitor over generated executions of the real code"),
                "level": "exploration",
                "level_note": NOTE.get(p["id"], "Held on every execution observed (counts in the evidence file); says nothing about inputs or histories the workload did not reach. Trusts the independent reference model in vmon/ and the stated tolerances."),
            })
    m = {"version": 1, "setup_cmd": "./setup.sh", "checks": checks, "not_applicable": na,
         "notes": "All checks run the real /repo/svgio code in-process (imported from /repo's working tree, no bytecode cache) and watch it from outside through its public API; no hooks in /repo are needed."}
    with open(os.path.join(root, "MANIFEST.json"), "w") as f:
        json.dump(m, f, indent=1)
        f.write("\n")


SCOPE = {
    "C01": "numbers follow the SVG 2 grammar (a trailing dot as in '5.' is not a number); arcs are compared to the accuracy of their acos-based sweep.",
    "C05": "paths start with a move; the one known exception (drawing that continues after a close without a move) is a recorded finding.",
    "C06": "paths start with a move.",
    "C11": "the direction is claimed where the caller requests it (ccw) and for the documented clockwise default; start+end+radius gives the smaller arc.",
    "C12": "error bounds, relative to the larger radius and for slices of angle a below half a turn: 1.5e-4*a^6 for cubics, 2.1e-3*a^4 for quadratics.",
    "C13": "the fallback length by bisection meets its requested error per piece, so a whole path may differ by that error times the number of pieces.",
    "C15": "skew(a) with one angle is skewX(a), as in CSS; percentages resolve per axis (x against width, y against height). Lengths that are only resolved later by render() are covered for translations; the centre of scale and skew functions is the library's extension; a centre of a single coordinate is not claimed.",
    "C16": "viewBoxes of zero size and the 'defer' keyword are not claimed; the text carries twelve decimals.",
    "C17": "equality and ordering hold to the precision of the library's own constants (1pt = 1.3333px, 1mm = 0.0393701in). Comparing zero with another unit, dividing by a zero length, %*% products and to_* of unresolvable lengths are not claimed.",
    "C18": "normalized() and equality hold to floating-point rounding (about 1e-10).",
    "C19": "hues are written as plain degrees in text; hsl agrees to within one level per channel; components exactly halfway between two levels may round either way.",
    "C20": "intensity is (r+g+b)/768; hsl packing truncates, so channels agree to one level; packed integers are in range; assigning an rgb value makes the colour opaque; over() returns a packed colour; hue is set in degrees; distinct(i) is deterministic and does not repeat.",
    "C21": "hulls are decided exactly for exactly representable coordinates and to rounding otherwise.",
    "C22": "names are compared after removing the SVG namespace; elements without any namespace count as SVG elements, SVG tag names in foreign namespaces do not; every node holds its own attributes, so that changing one node changes no other.",
    "C23": "the SVG namespace prefix itself need not be reproduced; carriage returns in text are excluded (XML normalises them); a matrix, colour or length held as an attribute is re-loaded as text its class reads back equal; Document.write is for documents with one root element.",
    "C24": "is_same_node is identity, is_equal_node compares names, attributes in any order and children; the element_* variants are claimed on SVG elements; the id table after removals or id edits is not claimed.",
    "C25": "viewBox, preserveAspectRatio and id are the element's own and are not inherited; transform is the nearest declared one; fill and stroke are None where nothing is declared; an unreadable opacity is ignored; style and class, and mixing href with xlink:href, are not claimed; a colour carrying its own alpha is not combined with an opacity.",
    "C26": "positional arguments are claimed where they are documented as attributes.",
    "C27": "equality is claimed between values of one type (paths, subpaths and path texts count as one). By design iteration and indexing of a path give its live segments, += of a segment adopts that segment, and transform_point/transform_vector write into the point given.",
    "C28": "equality is to twelve decimals per field. The relative and smooth flags of segments, absent point coordinates and integers beyond 2^53 are not claimed.",
    "C30": "geometry in numbers and absolute units given on the element itself, no negative sizes; viewBox transforms are not part of the outline; the path element's d is its attribute.",
    "C33": "PNG and JPEG pictures are claimed for load(); types are in lower case.",
    "C34": "keywords in lower case, the generic family last; sizes given as keywords are not claimed.",
    "C32": "sums of paths, windows, segments and texts count as built; the end of a close written out alone is not compared, it returns to its own start.",
    "C29": "stopping quietly at the error and raising ValueError both count as failing properly; Point(text) is not claimed.",
}
TECH = {
    "C01": "reference interpreter of SVG path data run beside the real parser, the piecewise appends and the builder calls on grammar-generated programs and spellings",
    "C02": "write/re-read monitor over generated, edited and re-flagged paths in all nine output modes",
    "C03": "edit-history monitor: connection invariant and lockstep plain-list model after every operation",
    "C04": "measure/edit histories, every measurement compared with a freshly built path",
    "C05": "before/after monitor on reversals: sampled curve, subpath order, lengths, boxes",
    "C06": "partition checker and window monitor: each view operation compared with the same operation on a plain segment list",
    "C07": "formula reference evaluated beside point/npoint",
    "C08": "containment checked on dense samples, tightness against independently refined extrema",
    "C09": "arc length compared with independent adaptive quadrature, plus metamorphic rotation/scale/reversal runs",
    "C10": "pointwise image monitor under affine maps, operand snapshots",
    "C11": "postcondition monitor per constructor form (ellipse equation, ends, direction, height)",
    "C12": "joint, on-arc, direction and error-bound monitor on approximations",
    "C13": "differential monitor: the same workload in four numpy/scipy configurations of the real code",
    "C14": "operation-history monitor against 3x3 reference algebra",
    "C15": "independent transform-list interpreter run beside the real parser",
    "C16": "independent viewport/viewBox geometry checked on the produced transform",
    "C17": "unit reference model run beside Length operations",
    "C18": "unit reference model run beside Angle operations",
    "C19": "independent CSS colour reader (own keyword table) run beside the real one",
    "C20": "setter-history monitor on channel bytes, independent conversions and compositing",
    "C21": "vector reference and exact hull oracle under a processor-time watchdog",
    "C22": "random XML written by an independent writer, loaded tree compared with the model that was written",
    "C23": "save/re-read monitor: saved text read by an independent XML parser and by the library",
    "C24": "id and navigation monitor against a model tree through additions",
    "C25": "cascade model evaluated beside every property read, tree snapshots around reads",
    "C26": "construction-history monitor against the loaded equivalent and the saved XML",
    "C27": "deep snapshots of all operands around every operation, followed by mutations of either side",
    "C28": "eval(repr()) monitor comparing field by field",
    "C30": "independent outlines and transform products evaluated beside segments(), d() and bbox() of loaded and built shape elements",
    "C33": "bytes encoded into generated documents compared with the bytes decoded, sizes and boxes of generated pictures with those loaded",
    "C34": "shorthands assembled from known parts compared with the parts stored, termination watchdog",
    "C32": "constructor-spelling monitor, exact rational nearest-point oracle and plain-list reference for paths",
    "C29": "text fuzzing with exception, termination (processor-time watchdog), well-formedness and kept-prefix monitors",
}
NOTE = {}
if __name__ == "__main__":
    main()
