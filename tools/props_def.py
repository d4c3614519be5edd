NOT_APPLICABLE = []

MON = "runtime monitor: generated workloads run the real code, "
EX = "Exploration: it speaks for the executions listed in the evidence file and judges them exactly; "

PROPS = [
 dict(id="C01", title="Boolean operations cover exactly the region the rules define",
  statement="For any subject and clip contours (self-intersecting, overlapping, degenerate, with holes), overlay rule and fill rule, the shapes returned by an overlay cover a point once if the set operation of the rule, applied to the regions which the fill rule selects by winding number (counterclockwise contours count positive), holds at it, and not at all otherwise. Where all crossings fall on integer points this is exact at every point; elsewhere it holds for all points further from the input edges than crossings can be rounded.",
  forall="all integer contours within +-2^30, 7 overlay rules, 4 fill rules, every solver strategy and precision, every way of adding the input",
  why="The tests compare some 150 recorded inputs with recorded outputs; the guarantee is over all arrangements of edges, where coincidences (shared and overlapping edges, vertices on edges, many edges in a point) interact.",
  files=["iOverlay/src/core/overlay.rs", "iOverlay/src/core/link.rs", "iOverlay/src/core/extract.rs", "iOverlay/src/core/filter.rs", "iOverlay/src/split/solver.rs", "iOverlay/src/fill/solver.rs", "iOverlay/src/segm/build.rs", "iOverlay/src/segm/merge.rs"],
  mech=[("segments are built, merged and split until nothing crosses", "iOverlay/src/core/link.rs, iOverlay/src/split/"), ("a sweep counts windings on both sides of each segment and turns them into fill bits", "iOverlay/src/fill/solver.rs, iOverlay/src/segm/winding_count.rs"), ("links that separate in from out under the rule are walked into contours", "iOverlay/src/core/filter.rs, iOverlay/src/core/extract.rs")],
  observe=["Overlay::overlay_custom", "Overlay::overlay"],
  technique=MON + "an exact winding-number oracle judges every cell of the arrangement (or sampled points with exact arithmetic)",
  note=EX + "trusted: the monitor's own winding numbers. Between rounded crossings points nearer than 6 units to an input edge are not judged."),
 dict(id="C02", title="Contours of a result are simple, closed and free of degenerate parts",
  statement="Every contour an overlay returns has at least three vertices, encloses some area, repeats no vertex in a row and never runs back on itself; with contour simplification on, no vertex lies on the line between its neighbours. No two edges of a result cross or run over each other: contours may only touch in points.",
  forall="all integer inputs within +-2^30, rules, fill rules, directions, area limits, solvers",
  why="Tests compare few results; crossings in the output only appear for particular rounding histories of near-coincident edges, and no test checks results for crossings.",
  files=["iOverlay/src/core/extract.rs", "iOverlay/src/split/solver.rs", "iOverlay/src/split/cross_solver.rs", "iOverlay/src/split/snap_radius.rs"],
  mech=[("splitting repeats, with a growing snap radius, until no crossing needs rounding", "iOverlay/src/split/"), ("contours are deduplicated or simplified and dropped below three points", "iOverlay/src/core/extract.rs Validate")],
  observe=["Overlay::overlay_custom"],
  technique=MON + "an exact structural checker examines every contour and all pairs of edges of each result",
  note=EX + "trusted: the exact predicates of the monitor (128-bit integers)."),
 dict(id="C03", title="Contours have the asked direction, holes lie in their own shape",
  statement="In every shape of a result the first contour is the outer boundary and runs in the asked main direction (counterclockwise by default), all other contours are holes and run against it. Each hole lies inside the outer boundary of the shape it is listed with and outside of that shape's other holes, so every shape on its own is a valid polygon with holes.",
  forall="all integer inputs within +-2^30, rules, fill rules, both directions, simplification on and off, solvers",
  why="Binding holes to outer contours depends on the sweep order of touching, nested and stacked contours; tests sample a few nestings, none with thousands of holes or holes touching themselves in their leftmost point.",
  files=["iOverlay/src/bind/solver.rs", "iOverlay/src/bind/segment.rs", "iOverlay/src/geom/v_segment.rs", "iOverlay/src/core/extract.rs"],
  mech=[("each hole's lowest left segment is looked up in a sweep over outer and hole segments", "iOverlay/src/bind/solver.rs"), ("the walk direction is chosen from hole-ness and main direction", "iOverlay/src/core/extract.rs")],
  observe=["Overlay::overlay_custom"],
  technique=MON + "every shape of a result is judged on its own: signed areas and cell-by-cell or exact point-in-contour containment",
  note=EX + "on inputs with rounded crossings containment is asked at the middle of up to three edges per contour."),
 dict(id="C04", title="min_area and simplify_contour change nothing but what they say",
  statement="Asking for a minimal area returns exactly the contours of the unfiltered result whose area reaches it, in the same shapes; asking for contour simplification returns exactly the unsimplified result without the vertices on the line between their neighbours. overlay() is overlay_custom() with the documented defaults (counterclockwise, simplified, no area limit, automatic solver).",
  forall="all integer inputs within +-2^30, rules, fill rules, directions, area limits at and around occurring areas, solvers",
  why="Tests use min_area in a handful of calls; whether dropping a contour disturbs others depends on how contours touch.",
  files=["iOverlay/src/core/extract.rs", "iOverlay/src/core/overlay.rs"],
  mech=[("contours are validated after the walk", "iOverlay/src/core/extract.rs Validate")],
  observe=["Overlay::overlay_custom", "Overlay::overlay"],
  technique=MON + "results with and without the option are compared contour by contour",
  note=EX + "the unfiltered result itself is judged by C01 to C03."),
 dict(id="C05", title="Results are deterministic and independent of solver and threads",
  statement="The same call gives the identical result every time, with parallel sorting and splitting on or off and at any size from which it starts. Where crossings fall on integer points, all strategies (List, Tree, Frag, Auto) and precisions return the same set of shapes.",
  over=["inputs", "configurations", "schedules"],
  forall="all integer inputs within +-2^30, rules, fill rules, 4 strategies, 6 precisions, parallel sort from any size, and repeated runs",
  why="Tests run one solver per recorded case; the strategies share little code and switch at sizes (4,000 / 8,000 / 16,000 / 32,768 segments) which no test crosses with an independent expectation.",
  files=["iOverlay/src/core/solver.rs", "iOverlay/src/split/solver_list.rs", "iOverlay/src/split/solver_tree.rs", "iOverlay/src/split/solver_fragment.rs", "iOverlay/src/split/grid_layout.rs", "iOverlay/src/util/sort.rs"],
  mech=[("three split solvers and two sweep structures chosen by size", "iOverlay/src/core/solver.rs"), ("sorting with or without rayon", "iOverlay/src/util/sort.rs")],
  observe=["Overlay::overlay_custom"],
  technique=MON + "a differential monitor compares results over strategies, precisions, thread settings and repetitions",
  note=EX + "different strategies are compared where no crossing needs rounding; elsewhere each is held to C01."),
 dict(id="C06", title="A result does not depend on how its input is written down",
  statement="Reordering contours, starting a contour at another vertex, repeating vertices or the first at the end, inserting vertices on edges, adding empty contours or a contour with its reverse, or using another of the equivalent ways to add input does not change the result. Reversing every contour while swapping Positive and Negative does not either, nor does swapping subject and clip with the rule that means the same.",
  forall="all integer inputs within +-2^30, rules, fill rules, directions, solvers, chains of up to four such rewritings",
  why="Each recorded test presents its input one way; the guarantee relates unboundedly many ways of writing the same polygon.",
  files=["iOverlay/src/segm/build.rs", "iOverlay/src/core/overlay.rs", "iOverlay/src/segm/merge.rs", "iOverlay/src/fill/solver.rs"],
  mech=[("contours become sorted segments with winding counts, repeated and collinear points are dropped", "iOverlay/src/segm/build.rs"), ("coincident segments are merged", "iOverlay/src/segm/merge.rs")],
  observe=["Overlay::with_contours", "Overlay::add_path_iter", "Overlay::overlay_custom"],
  technique=MON + "a metamorphic monitor compares each result with those of the rewritten inputs",
  note=EX + "results without touching contours are compared vertex by vertex, others as regions (a touching point can part contours in two right ways); with rounded crossings only rewritings that keep the segments are used."),
 dict(id="C07", title="Results of different rules fit together; a graph can be reused",
  statement="For one pair of inputs, the regions of Intersect, Difference, InverseDifference, Union, Xor, Subject and Clip obey the laws of sets: areas of Subject and Clip add up from their parts, and combining results again gives the results the laws demand. An OverlayGraph can be asked any number of times in any order and gives each time what a separate overlay gives.",
  forall="all integer inputs within +-2^30, fill rules, orders of extraction from one graph, solvers",
  why="Tests look at one rule at a time on recorded inputs; agreement between rules on the same arrangement is a relation over all of them.",
  files=["iOverlay/src/core/filter.rs", "iOverlay/src/core/extract.rs", "iOverlay/src/core/graph.rs", "iOverlay/src/core/overlay.rs"],
  mech=[("each rule filters the links of one graph by their fill bits", "iOverlay/src/core/filter.rs"), ("extraction keeps its visited marks outside the graph", "iOverlay/src/core/extract.rs")],
  observe=["Overlay::into_graph", "OverlayGraph::extract_shapes_custom"],
  technique=MON + "area laws are checked exactly on the seven results of one graph, which are compared with separate overlays",
  note=EX + "area laws are exact also where crossings are rounded, since all rules share one arrangement."),
 dict(id="C08", title="Results are stable: simplifying one gives it back",
  statement="Simplifying a result, or using it as the only input of an overlay, under any fill rule that means the same for it gives the same shapes back; a result united or intersected with itself is itself, and its difference from itself is empty. This holds for shape lists, shapes, contour lists and single contours, and for both directions. Simplifying any input in any of these forms is the overlay of that input alone.",
  forall="results of all rules and fill rules over integer inputs within +-2^30, any such input down to single points, every form of the Simplify call",
  why="Needs results fed back as inputs; the tests do so for three recorded polygons only.",
  files=["iOverlay/src/core/simplify.rs", "iOverlay/src/core/overlay.rs", "iOverlay/src/core/extract.rs"],
  mech=[("Simplify builds an overlay of the subject alone", "iOverlay/src/core/simplify.rs"), ("splitting is repeated until nothing crosses, so that results need no further splitting", "iOverlay/src/split/solver.rs")],
  observe=["Simplify::simplify", "Overlay::overlay_custom"],
  technique=MON + "a round-trip monitor feeds results back and compares what comes out",
  note=EX + "results without touching contours are compared vertex by vertex, others as exact regions."),
 dict(id="C09", title="Vector shapes describe the same result, with the sides of each edge",
  statement="extract_separate_vectors gives exactly the undirected pieces of the arrangement that separate inside from outside or one input from the other, each once, and none crosses another. extract_vectors gives closed chains of directed edges which, taken as contours, are the shapes of the same rule. Each edge's side marks tell truly whether subject and clip fill the left and the right of it.",
  forall="all integer inputs within +-2^30, rules, fill rules, solvers",
  why="Two recorded tests cover vectors; the marks depend on direction, order of ends and both windings of each edge, and their extraction is code of its own.",
  files=["iOverlay/src/vector/extract_vectors.rs", "iOverlay/src/vector/edge.rs", "iOverlay/src/bind/segment.rs", "iOverlay/src/core/overlay.rs"],
  mech=[("links are walked into chains of edges like contours", "iOverlay/src/vector/extract_vectors.rs"), ("fill bits become marks relative to each edge's direction", "iOverlay/src/vector/edge.rs")],
  observe=["Overlay::into_separate_vectors", "Overlay::into_shape_vectors", "OverlayGraph::extract_shape_vectors"],
  technique=MON + "the marks of every piece are compared with exact windings beside it, the chains with the shapes of the same rule",
  note=EX + "marks are judged on scenes whose crossings fall on integer points; elsewhere form and agreement with the shapes are judged."),
 dict(id="C10", title="decompose_contours parts a contour into its loops without losing any",
  statement="decompose_contours parts a contour that visits points again into loops none of which visits a point twice and whose directed edges together are exactly those of the contour; one that touches itself without crossing, as the contours of results do, gives one loop more than it has repeated visits. For a contour that visits no point twice there is nothing to part, and it says so (None), in whatever direction the contour runs and wherever it starts.",
  forall="all closed i32 point sequences without a point twice in a row, also with points visited many times",
  why="Tests part four small contours; whether loops are lost depends on how often and in which order points are visited.",
  files=["iOverlay/src/core/divide.rs"],
  mech=[("a contour is cut at the points it visits again", "iOverlay/src/core/divide.rs")],
  observe=["ContourDecomposition::decompose_contours"],
  technique=MON + "an accounting monitor compares the directed edges of the loops with those of the contour",
  note=EX + "contours come from generators that make points repeat, and from results of overlays."),
 dict(id="C11", title="Slicing parts a shape exactly along the given lines",
  statement="Slicing shapes by lines or paths returns as separate shapes exactly the connected parts into which the lines, and the input's own edges inside, divide the region the fill rule selects; together they cover that region without gap or overlap. Line ends that dangle inside cut nothing, closed lines inside cut islands out, each part comes with its holes and in the asked direction. A minimal area drops exactly the contours below it, and slicing a graph again gives the same.",
  forall="all integer shapes and lines within +-2^30, fill rules, directions, area limits, every form of the slice call, solvers",
  why="Tests slice two dozen recorded shapes; how chains of lines touch each other, vertices and edges is unbounded.",
  files=["iOverlay/src/string/overlay.rs", "iOverlay/src/string/extract.rs", "iOverlay/src/string/split.rs", "iOverlay/src/string/graph.rs", "iOverlay/src/string/slice.rs"],
  mech=[("each piece of line inside the shape is a link to be walked in both directions", "iOverlay/src/string/filter.rs, iOverlay/src/string/extract.rs"), ("closed tours are cut into loops at repeated points", "iOverlay/src/string/split.rs")],
  observe=["IntSlice::slice_by_lines", "IntSlice::slice_by_paths", "StringGraph::extract_shapes_custom"],
  technique=MON + "shapes are compared cell by cell with the connected parts found by flood fill between walls",
  note=EX + "exact where crossings fall on integer points; elsewhere by points further than 8 units from edges and lines."),
 dict(id="C12", title="Clipping returns exactly the parts of lines that lie inside the shapes",
  statement="Clipping lines or paths by shapes returns exactly the parts of them that run where the fill rule is satisfied on both sides, plus, with boundary_included, the parts that run along the boundary; with invert it returns exactly the other parts. Each part appears once, in the direction it was given in, as open polylines, and a single straight line comes back in whole runs.",
  forall="all integer shapes and open lines or paths within +-2^30, fill rules, both flags, every form of the clip call, solvers",
  why="Tests clip some thirty recorded lines; how lines overlap each other, edges and vertices is unbounded.",
  files=["iOverlay/src/string/clip.rs", "iOverlay/src/string/overlay.rs", "iOverlay/src/string/line.rs", "iOverlay/src/string/extract.rs", "iOverlay/src/string/filter.rs"],
  mech=[("lines become segments with their own counts, kept by their fill bits", "iOverlay/src/string/filter.rs"), ("the kept links are walked into lines", "iOverlay/src/string/clip.rs")],
  observe=["IntClip::clip_line", "IntClip::clip_paths", "StringOverlay::clip_string_lines"],
  technique=MON + "the returned parts are compared piece by piece with exact windings beside the lines",
  note=EX + "exact where crossings fall on integer points; elsewhere by points further from edges than crossings can be rounded, and directions by pieces longer than that."),
 dict(id="C13", title="Float overlays are exact where floats can be, and scale-free",
  statement="An overlay of float coordinates covers the region the rules define, at any magnitude and offset: exactly, with exact coordinates, when the input and its crossings lie on a grid the floats hold, and otherwise for every point further from the input edges than 1e-7 of the extent plus a few roundings of the float type. Every vertex of the result lies that near to an input edge, shapes have the asked direction and nesting, and the input times a power of two gives the result times it.",
  forall="finite f64 and f32 contours of extents from 1e-12 to 1e20, rules, fill rules, directions, solvers",
  why="Floats are mapped to an integer grid chosen from the bounds of the input; tests use a few small extents around the origin.",
  files=["iOverlay/src/float/overlay.rs", "iOverlay/src/float/graph.rs", "iOverlay/src/core/extract.rs", "iOverlay/src/split/solver_fragment.rs"],
  mech=[("bounds of the input choose offset and power-of-two scale", "iOverlay/src/float/overlay.rs, i_float FloatPointAdapter"), ("shapes are mapped back and optionally despiked", "iOverlay/src/float/graph.rs")],
  observe=["FloatOverlay::overlay_custom"],
  technique=MON + "regions on exactly representable scenes are judged cell by cell, others at probe points by the float winding number away from edges",
  note=EX + "probes closer to an edge than 20 units of the internal grid plus 8 roundings are not judged on inexact scenes."),
 dict(id="C14", title="Every form of a float call gives the same result",
  statement="Single contours, contour lists, shape lists, borrowed or owned, with float points of the user's own type, all mean the same input; the calls on them (FloatOverlay, SingleFloatOverlay, SimplifyShape, FloatSlice, FloatClip, FloatStringOverlay), their graphs and their default variants give the same result. It is the result of the integer operation on the coordinates mapped by the public adapter, mapped back.",
  forall="finite f64 and f32 inputs in every shape of container, all float calls, rules, fill rules, directions, filters, solvers",
  why="Tests call each form on one or two inputs; agreement of some thirty entry points is not tested at all.",
  files=["iOverlay/src/float/overlay.rs", "iOverlay/src/float/single.rs", "iOverlay/src/float/simplify.rs", "iOverlay/src/float/slice.rs", "iOverlay/src/float/clip.rs", "iOverlay/src/float/string_overlay.rs", "iOverlay/src/float/string_graph.rs", "iOverlay/src/float/source/resource.rs"],
  mech=[("containers are walked by one trait", "iOverlay/src/float/source/resource.rs"), ("each call builds the adapter, the integer operation and the way back", "iOverlay/src/float/")],
  observe=["SingleFloatOverlay::overlay", "SimplifyShape::simplify_shape", "FloatSlice::slice_by", "FloatClip::clip_by", "FloatOverlay::with_adapter"],
  technique=MON + "a differential monitor compares the results of all forms with each other and with the integer operation",
  note=EX + "what the operation itself gives is judged by C01 to C13."),
 dict(id="C15", title="Float filters mean what they say, in units of the input",
  statement="min_area of a float filter is an area in units of the input: exactly the contours whose area reaches it are returned, at any magnitude and offset, by overlays, graphs, simplification and slicing. simplify_contour and clean_result take away exactly the vertices which lie between their neighbours, and change no region by more than rounding.",
  forall="finite f64 inputs and f32 inputs of extents above 2^-28, rules, fill rules, directions, limits at and around occurring areas, solvers",
  why="Tests use the filter with zero area; the limit is scaled by the square of a scale that depends on the bounds of the input.",
  files=["iOverlay/src/float/overlay.rs", "iOverlay/src/float/graph.rs", "iOverlay/src/float/simplify.rs", "iOverlay/src/float/slice.rs", "iOverlay/src/float/filter.rs", "iOverlay/src/core/extract.rs"],
  mech=[("the area is scaled to the integer grid", "iOverlay/src/float/graph.rs sqr_float_to_int")],
  observe=["FloatOverlay::overlay_custom", "FloatOverlayGraph::extract_shapes_custom", "SimplifyShape::simplify_shape_with_solver"],
  technique=MON + "results with and without each option are compared contour by contour",
  note=EX + "areas nearer to the limit than the grid can tell apart are not judged; whether slicing heeds simplify_contour is left open (its cuts end on straight walls)."),
 dict(id="C16", title="A stroke covers exactly the line drawn with its width, joins and caps",
  statement="The stroke of open or closed paths covers exactly the points within half the width beside their sections, the joins at their corners (bevel, round, mitre cut below the minimal angle) and the caps at their ends (butt, round, square, custom points placed along the line and scaled by half the width), at any magnitude, however the paths turn, cross or run back, and nothing else, except for rounding. Shapes have the asked direction and form; all containers mean the same; min_area drops exactly the contours below it; scaling all by a power of two scales the result.",
  forall="finite f64 and f32 paths of extents 1e-6 to 1e6 at offsets, widths from far below to above section lengths, joins, caps, directions, filters",
  why="Tests stroke a dozen short paths and mostly count contours; where short sections, sharp turns and crossings overlap is unbounded.",
  files=["iOverlay/src/mesh/stroke/builder.rs", "iOverlay/src/mesh/stroke/builder_join.rs", "iOverlay/src/mesh/stroke/builder_cap.rs", "iOverlay/src/mesh/stroke/offset.rs", "iOverlay/src/mesh/stroke/section.rs", "iOverlay/src/mesh/boolean.rs", "iOverlay/src/mesh/miter.rs", "iOverlay/src/mesh/style.rs"],
  mech=[("sections, joins and caps become directed segments whose winding sum is positive inside", "iOverlay/src/mesh/stroke/"), ("bounds enlarged by the reach of joins and caps choose the integer grid", "iOverlay/src/mesh/stroke/offset.rs"), ("positive windings are extracted as shapes", "iOverlay/src/mesh/boolean.rs")],
  observe=["StrokeOffset::stroke", "StrokeOffset::stroke_custom"],
  technique=MON + "probe points are judged against a model that adds up rectangles, join wedges and caps, each between a least and a greatest extent",
  note=EX + "points nearer to a drawn edge than rounding, and between a circle and its coarsest polygon, are not judged; mitres within 2e-4 of an exact reversal may be cut or flat."),
 dict(id="C17", title="An outline covers exactly the polygon moved outwards or inwards",
  statement="The outline of valid polygons covers exactly the outer contours grown by the outer offset less the holes shrunk by the inner offset: growing adds what lies within the offset beside each edge and the joins at outer corners, a negative offset takes that away on the inside, at any magnitude and offset, up to and beyond sizes at which parts merge or vanish. Shapes have the asked direction and form; all containers mean the same, empty contours and repeated points change nothing, a single clockwise contour gives nothing; min_area drops exactly the contours below it.",
  forall="valid f64 and f32 polygons with holes and islands, extents 1e-6 to 1e6 at offsets, offsets of both signs from 1e-3 to 2.5 extents, joins, directions, filters",
  why="Tests offset some twenty shapes and mostly count contours; how edges shorter than the offset overlap after moving is unbounded.",
  files=["iOverlay/src/mesh/outline/builder.rs", "iOverlay/src/mesh/outline/builder_join.rs", "iOverlay/src/mesh/outline/offset.rs", "iOverlay/src/mesh/outline/section.rs", "iOverlay/src/mesh/boolean.rs", "iOverlay/src/mesh/miter.rs", "iOverlay/src/mesh/style.rs"],
  mech=[("moved edges and joins become directed segments whose winding sum is positive inside", "iOverlay/src/mesh/outline/"), ("outer contours and reversed holes are offset on their own and added up", "iOverlay/src/mesh/outline/offset.rs")],
  observe=["OutlineOffset::outline", "OutlineOffset::outline_custom"],
  technique=MON + "probe points are judged against a model that adds up the polygon, edge rectangles and join wedges",
  note=EX + "points nearer to a drawn edge than rounding, and between a circle and its coarsest polygon, are not judged; input polygons are valid, as the documentation asks."),
 dict(id="C18", title="Vertices stay where they are: only crossings are rounded",
  statement="Every vertex of a result, of the arranged edges and of a clip is a vertex of the input or a crossing of two input edges. A crossing of two edges which nothing else comes near lies less than one unit in x and in y from its exact place, and is there if it is a corner of the result; where edges cross several others it is off by no more than a few units, and no edge of any result leaves the input edges by more than that. Float results keep the same bounds in units of their internal grid.",
  forall="integer scenes from 10 to 2^31 units across anywhere within +-2^30, rules, fill rules, solvers and precisions; float scenes of any scale and offset",
  why="The tests compare a dozen crossings with recorded points; the arithmetic of a crossing takes different ways for upright, level, short and long edges (64 and 128 bit), and snapping may move any of them.",
  files=["iOverlay/src/split/cross_solver.rs", "iOverlay/src/split/snap_radius.rs", "iOverlay/src/split/solver.rs", "iOverlay/src/split/solver_list.rs", "iOverlay/src/split/solver_tree.rs", "iOverlay/src/split/solver_fragment.rs"],
  mech=[("crossings are computed relative to an end in 128 bits, and snapped to ends within the snap radius", "iOverlay/src/split/cross_solver.rs")],
  observe=["Overlay::overlay_custom", "Overlay::into_separate_vectors", "StringOverlay::clip_string_lines_with_solver", "FloatOverlay::overlay_custom"],
  technique=MON + "every vertex is looked up among the input vertices and the crossings computed exactly in 128-bit fractions",
  note=EX + "vertices, crossings and edges keep 6 units apart where single crossings are judged; elsewhere edges are held within 4 units of the input."),
 dict(id="C19", title="Every call returns: no panic, abort, overflow or endless run",
  statement="Whatever finite contours, paths and options a public call is given - empty, one-point, collinear, repeated, self-overlapping, back and forth, at the corners of the coordinate range; any extent and offset in floats; widths, offsets, angles, areas and custom caps of any value and sign - it returns a result: it never panics, aborts, overflows an integer, breaks an internal assertion, violates the contract of an unchecked access, or runs on endlessly. Contours of results have at least three points, clipped paths two, shapes at least one contour, and float coordinates are finite.",
  forall="integer contours and lines within +-2^30, finite float paths and styles, every option, all entry points",
  why="A hostile input is anything the tests do not think of; a panic or an endless loop shows only on the input that triggers it.",
  files=["iOverlay/src/core/extract.rs", "iOverlay/src/core/divide.rs", "iOverlay/src/core/overlay.rs", "iOverlay/src/core/graph.rs", "iOverlay/src/split/solver.rs", "iOverlay/src/split/cross_solver.rs", "iOverlay/src/fill/solver.rs", "iOverlay/src/string/clip.rs", "iOverlay/src/string/split.rs", "iOverlay/src/mesh/boolean.rs", "iOverlay/src/mesh/stroke/offset.rs", "iOverlay/src/mesh/outline/offset.rs"],
  mech=[("walks over nodes end where they started", "iOverlay/src/core/extract.rs"), ("empty and degenerate contours are dropped when segments are made", "iOverlay/src/core/overlay.rs"), ("splitting repeats until nothing crosses", "iOverlay/src/split/")],
  observe=["every public call"],
  technique="runtime monitor and compiler checks: hostile generated input runs the real code built with overflow checks, debug assertions and the standard library's checks of unchecked accesses; panics, signals, a CPU and a memory limit are watched",
  note=EX + "no result after 100 s of CPU time in one case counts as none, and so do 4 GB of memory; the finest precision with long edges, and bundles of long edges a few units apart, are left out (C22 has them as known findings)."),
 dict(id="C20", title="Memory is accessed only where it is owned",
  statement="The crate's unchecked accesses (sorting bins, fill sweeps, node and link walks, source iterators) stay inside live memory and inside the lengths of their vectors, read nothing uninitialised and keep the language's aliasing rules, for every input of every public call, well-formed or hostile: safe code that uses the crate has no undefined behaviour.",
  forall="integer and float input of every kind, every solver, strategy and option, with and without threads",
  why="An access past an end usually changes nothing a test looks at, and shows only under an instrument and on the input that makes it happen.",
  files=["iOverlay/src/split/solver.rs", "iOverlay/src/split/grid_layout.rs", "iOverlay/src/fill/solver.rs", "iOverlay/src/core/graph.rs", "iOverlay/src/core/link.rs", "iOverlay/src/core/node.rs", "iOverlay/src/core/extract.rs", "iOverlay/src/vector/extract_vectors.rs", "iOverlay/src/string/graph.rs", "iOverlay/src/string/split.rs", "iOverlay/src/string/clip.rs", "iOverlay/src/float/source/double.rs", "iOverlay/src/float/source/triple.rs", "iOverlay/src/mesh/outline/offset.rs"],
  mech=[("get_unchecked on indices which the construction of graph and bins keeps in range", "iOverlay/src/core/"), ("split segments are written into a buffer laid out by counted bins", "iOverlay/src/split/solver.rs")],
  observe=["every public call"],
  technique="sanitizer and interpreter: the workloads of all properties and hostile input under AddressSanitizer with the standard library's checks of unchecked accesses on, small hostile input under Miri (half of it with Tree Borrows)",
  note=EX + "Stacked Borrows, which the dependency i_key_sort does not keep to, are not asked for."),
 dict(id="C21", title="Calls at the same time, on any threads, do not disturb each other",
  statement="A call's result depends on its arguments alone: made beside other calls on other threads, inside thread pools of any size, again after any other calls, or in a build without multithreading, every call gives the identical result (of clips: the same pieces of the lines). Graphs can be built on one thread and asked by several at the same time. No execution has a data race.",
  forall="calls of every kind on generated input, solvers with and without parallel sorting, thread counts and schedules",
  over=["inputs", "schedules"],
  why="The tests make one call at a time; shared scratch memory, caches and parallel sections go wrong only when calls overlap.",
  files=["iOverlay/src/split/solver_fragment.rs", "iOverlay/src/util/sort.rs", "iOverlay/src/core/solver.rs", "iOverlay/src/core/graph.rs", "iOverlay/src/core/extract.rs", "iOverlay/src/string/graph.rs", "iOverlay/src/float/graph.rs"],
  mech=[("columns of the grid are split in parallel and their marks joined in order", "iOverlay/src/split/solver_fragment.rs"), ("graphs are extracted through shared references", "iOverlay/src/core/extract.rs")],
  observe=["every public call", "OverlayGraph, StringGraph, FloatOverlayGraph and FloatStringGraph shared between threads"],
  technique="ThreadSanitizer and runtime monitor: calls made one by one are repeated by several threads at once and in rayon pools, natively and under ThreadSanitizer, and their digests are compared; digests are also compared with a build without multithreading",
  note=EX + "schedules are those the operating system gives; which pieces of clipped lines are chained to one path is not compared."),
 dict(id="C22", title="Memory is given back; cost follows edges and crossings",
  statement="Once its result is dropped a call has given back all memory it took, however often calls are repeated. The working memory of a call and the size of its result stay within a small multiple of the edges of the input and their crossings (where the input is split by columns, times the columns an edge runs through). Where a vertical line meets only some of the edges and crossings are no more than edges, the time of a call grows little faster than the number of edges: thousands of shapes, holes, cuts or corners never cost the square of their number.",
  forall="integer and float input of every kind and call; fields of squares, holes, combs, strips, bars, chains, rings and random triangles of up to 64,000 edges",
  why="The tests look at results of small inputs; lost memory and costs beside the result show only in counters, and growth only between sizes no test reaches.",
  files=["iOverlay/src/split/solver.rs", "iOverlay/src/split/solver_fragment.rs", "iOverlay/src/split/grid_layout.rs", "iOverlay/src/fill/solver.rs", "iOverlay/src/bind/solver.rs", "iOverlay/src/core/extract.rs", "iOverlay/src/core/divide.rs", "iOverlay/src/string/split.rs", "iOverlay/src/string/clip.rs", "iOverlay/src/mesh/"],
  mech=[("list, tree or column structures are chosen by the number of edges", "iOverlay/src/core/solver.rs"), ("buffers are sized by counts taken before they are filled", "iOverlay/src/split/solver.rs, iOverlay/src/core/graph.rs")],
  observe=["every public call"],
  technique="runtime monitor: a counting allocator watches what calls of every kind take and give back; memory and result sizes are compared with the exactly counted edges and crossings, CPU times between sizes",
  note=EX + "bounds are about four times what is seen on any scene; bundles of long edges a few units beside each other break the bound on results and are known findings."),
]
