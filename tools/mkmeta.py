#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json (the list of properties is kept here)."""
import json, os
HERE = os.path.dirname(os.path.dirname(os.path.realpath(__file__)))

P = []


def prop(id, title, statement, over, text, why, files, mech, observe, note, technique):
    P.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=["gridutils/" + f for f in files],
                  mech=[dict(name=a, where=b) for a, b in mech], observe=observe, note=note, technique=technique))


TESTS = "The test script runs the tools once on one fixed 49x63 double-density grid and compares a few checksums."

prop("C01", "Grid files are read and written faithfully",
     "Reading a grid file gives exactly the dimensions of its header and, for every node in row order, the first two numbers of its line; a node whose line is blank, commented, unparsable or has NaN for either coordinate is an invalid node with both coordinates NaN. Writing nodes gives the same header and one line per node with the coordinates to 15 significant digits (both, only X or only Y), \"NaN\" for invalid nodes, so that reading what was written and writing it again reproduces the same text. Filling a grid point by point puts the points in the same row order. The length of lines does not matter.",
     ["inputs"], "All grid sizes, validity patterns and finite coordinate values of any magnitude (that do not overflow when rounded to 15 digits), all spellings of node lines (extra columns, spaces, exponents, missing last newline), and all output modes.",
     TESTS + " Its coordinates have few digits, no invalid lines other than NaN and one size.",
     ["gridnodes.c", "subgrid.c", "getnodes.c"], [("gridnodes_read()", "gridnodes.c"), ("gridnodes_write()", "gridnodes.c"), ("gridnodes_readnextpoint()", "gridnodes.c")],
     ["gridnodes_getx/gety after gridnodes_read", "text written by gridnodes_write, getnodes, subgrid"],
     "Generated files and node arrays against a reference reader/writer and the write-read-write fixpoint; in process under ASan/UBSan and through the programs.", "property-based testing: reference model and round trip")

prop("C02", "Validation keeps exactly the nodes that belong to valid cells",
     "After validation of corner nodes a node is valid if and only if it was valid and is a corner of at least one cell with four valid corners. For double-density nodes the same holds for the corner nodes, a centre node stays valid only if all four corners of its cell are valid, and an edge node only if both corner nodes next to it are. Coordinates of the nodes that stay are untouched, invalidated nodes get NaN for both coordinates, nodes of other types are left alone, and validating again changes nothing.",
     ["inputs"], "All grid sizes (including one row or column) and all patterns of valid and invalid nodes.",
     TESTS + " One pattern of invalid nodes out of 2^n is covered.",
     ["gridnodes.c", "getnodes.c"], [("gridnodes_validate(), gridnodes_validate_dd(), gridnodes_validate_cor()", "gridnodes.c")],
     ["node arrays after gridnodes_validate", "getnodes output"],
     "Random validity patterns against a declarative model of validity; exact comparison.", "property-based testing: reference model, idempotence")

prop("C03", "Conversions to and from double density and corner nodes are exact",
     "Converting double-density nodes to corner or centre nodes selects exactly the corner or centre nodes of the (validated) grid. Converting corner nodes to centre or double-density nodes keeps the corner nodes, puts edge nodes in the middle of their two corner nodes and centre nodes at the mean of the four corners of the cell, and gives NaN wherever one of these is invalid, with either kind of map selected for the grid. The dimensions of the result correspond to the same cells, the kind of map selected for the grid is inherited, converting to the same type copies, and the source grid is changed by its validation only.",
     ["inputs"], "All sizes, coordinates, validity patterns (any topology with the kd-tree map, simply connected grids with the binary tree map) and pairs of types.",
     TESTS + " Each conversion is run on one grid.",
     ["gridnodes.c", "gridmap.c", "getnodes.c"], [("gridnodes_transform()", "gridnodes.c"), ("gridmap_fij2xy()", "gridmap.c")],
     ["node arrays returned by gridnodes_transform", "getnodes output"],
     "Generated grids against an independent model evaluated in extended precision; round trips corner -> double density -> corner exact.", "property-based testing: reference model and round trip")

prop("C04", "Corner nodes are recovered from centre nodes by local extrapolation",
     "Converting centre nodes to corner or double-density nodes gives, at every node that is within 1.5 index units of the middle of a block of 2x2 valid centre nodes, the bilinear extrapolation (or interpolation) from a nearest such block, and NaN at the other nodes; the result is then validated. In particular, for a grid that is affine in index space the recovered nodes are the exact ones, and where there is no block all nodes are invalid.",
     ["inputs"], "All sizes (including a single row or column), validity patterns and coordinates of centre nodes.",
     TESTS + " One grid is recovered, and only the checksum of the result is compared.",
     ["gridnodes.c", "kdtree.c"], [("gridnodes_transform(), fij2xy()", "gridnodes.c"), ("kd_findnearestnode()", "kdtree.c")],
     ["node arrays returned by gridnodes_transform", "getnodes output"],
     "Exhaustive search for the nearest blocks as the oracle (any of the tied blocks is accepted); exact up to rounding.", "property-based testing: brute-force reference model")

prop("C05", "Index to physical mapping is bilinear, continuous and clamped",
     "For any fractional index within the grid the mapping to physical space succeeds and gives the bilinear interpolation of the corner nodes of the cell, hence the node itself at integer indices and a result that is continuous across cells; it is NaN if and only if a node with non-zero weight is invalid. Outside the index range the mapping reports failure and gives the value at the nearest point of the index range; for a NaN index it reports failure and gives NaN. Both kinds of grid map give the same result.",
     ["inputs"], "All grids and validity patterns, all index pairs: interior, on cell edges and nodes, at the last row and column, negative, beyond the range, NaN.",
     TESTS + " Two points are mapped.",
     ["gridmap.c", "xy2ij.c"], [("gridmap_fij2xy()", "gridmap.c")], ["gridmap_fij2xy", "xy2ij -r"],
     "Extended precision bilinear model; in process under ASan/UBSan, so that reads outside the node arrays are seen.", "property-based testing: reference model, differential (two map types)")

prop("C06", "Physical to index mapping (binary tree) finds the containing cell",
     "For every grid whose union of valid cells is simply connected (whatever its outline, handedness, scale or position) the default mapping finds, for a point in the grid, a valid cell that contains the point, and reports failure for a point outside all valid cells. Points on the outer boundary may be accepted or rejected within rounding, but a returned cell always contains the point to within rounding; where the coordinates are integers or simple binary fractions of moderate size, so that no rounding is involved, points on the boundary are in the grid as well. The extent reported for the map is the bounding rectangle of the valid cells.",
     ["inputs", "configurations"], "All simply connected grids without pinch points, with convex cells, and all points: interior, on shared edges, at nodes, near and far outside.",
     TESTS + " Two points of one grid are mapped.",
     ["gridbmap.c", "gridmap.c", "poly.c"], [("gridbmap_build(), cut_boundary(), subgrid_divide()", "gridbmap.c"), ("gridbmap_xy2ij()", "gridbmap.c"), ("poly_containspoint(), poly_compact()", "poly.c")],
     ["gridmap_xy2ij", "xy2ij"],
     "Random outlines (carved, grown, combs, serpentines) with random geometry; every answer is compared with exhaustive search over all cells.", "property-based testing: brute-force reference model")

prop("C07", "Fractional index mapping is the inverse of the forward mapping",
     "For a point in the grid the fractional indices lie in the containing cell and mapping them back to physical space gives the point; conversely, mapping fractional indices in a valid cell to physical space and back gives the same indices. Both hold within rounding, for cells of any convex shape (parallelograms, trapezia, general), either handedness, any scale and offset, and with both kinds of grid map.",
     ["inputs"], "All grids of convex cells, all points and index pairs in valid cells, all map types.",
     TESTS + " Two points are mapped forth and back.",
     ["gridmap.c"], [("gridmap_xy2fij(), calc_branch()", "gridmap.c"), ("gridmap_fij2xy()", "gridmap.c")], ["gridmap_xy2fij", "gridmap_fij2xy", "xy2ij"],
     "Round trips in both directions with an error bound derived from the conditioning of the cell.", "property-based testing: round trip")

prop("C08", "Physical to index mapping (kd-tree) is sound and complete for any grid",
     "With the kd-tree map, for a grid of any topology (holes, several parts, parts touching at a node) a point in a valid cell is always mapped to a valid cell that contains it, and a point outside all valid cells is always rejected. A node of a valid cell is always found, and so is a point on the boundary where no rounding is involved. Where both kinds of map apply they give the same cell, up to points on a shared edge.",
     ["inputs", "configurations"], "All validity patterns, all grids of convex non-overlapping cells including strongly stretched ones, all points.",
     TESTS + " Two points of one grid are mapped with the kd-tree.",
     ["gridkmap.c", "kdtree.c", "poly.c"], [("gridkmap_xy2ij()", "gridkmap.c"), ("kd_findnearestnode(), kd_findnodeswithinrange()", "kdtree.c"), ("poly_containspoint()", "poly.c")],
     ["gridmap_xy2ij", "xy2ij -k"],
     "Exhaustive search over all cells as the oracle; differential against the binary tree map on simply connected grids.", "property-based testing: brute-force reference model, differential")

prop("C09", "Results of a query do not depend on earlier queries or other maps",
     "The result of any map query (cell, fractional index or forward mapping) is the same as that of the same query made first on a freshly built map of the same grid, whatever queries - successful or failing - were made before, in whatever order, and whatever other maps exist. The same holds for searches in a kd-tree, and queries never modify the grid.",
     ["histories"], "All sequences of queries over several maps of several grids of both types.",
     "Tests make one or two queries per process.",
     ["gridmap.c", "gridbmap.c", "gridkmap.c", "kdtree.c"], [("cached branch of the inverse mapping", "gridmap.c"), ("tree search", "gridbmap.c, kdtree.c")], ["gridmap_xy2ij", "gridmap_xy2fij", "gridmap_fij2xy", "kd_findnearestnode"],
     "Stateful: random interleavings of queries to several maps, each compared with a fresh map.", "stateful property-based testing: differential against a fresh object")

prop("C10", "The boundary polygon is exactly the outline of the valid cells",
     "For every simply connected grid the boundary polygon is a closed ring of neighbouring nodes that goes exactly once through every edge belonging to exactly one valid cell and through no other edge, whatever valid nodes lie next to the outline. The area enclosed equals the sum of the areas of the valid cells, and the polygon in index space lists the indices of the same nodes in the same order as the one in physical space.",
     ["inputs", "configurations"], "All outlines of simply connected grids without pinch points, including notches, one-cell-wide corridors and edges joining separate parts of the outline.",
     TESTS + " One grid outline is traced.",
     ["poly.c", "getbound.c"], [("poly_formbound(), poly_formboundij()", "poly.c")], ["poly_formbound", "poly_formboundij", "getbound", "getbound -r"],
     "Random outlines; set comparison with the edges computed cell by cell, exact.", "property-based testing: reference model, differential (index vs physical)")

prop("C11", "Compacting a polygon preserves its shape",
     "Compacting a closed polygon keeps its vertices in order, removes exactly those that repeat the previous one or lie on the straight line between their neighbours, and never one that is a genuine corner, irrespective of the scale and position of the polygon and of where on the outline it starts. The region enclosed, its area and the results of point-in-polygon tests are therefore unchanged to within rounding.",
     ["inputs"], "All polygons that do not turn back on themselves and whose distinct vertices are further apart than the tolerance (boundaries of grids, polygons with repeated vertices and vertices inserted in edges), any starting vertex, direction, scale and offset.",
     TESTS + " One boundary is compacted.",
     ["poly.c", "getbound.c"], [("poly_compact(), ononeline(), point_equal()", "poly.c")], ["poly_compact", "getbound -c"],
     "Exact model on integer polygons (set of true corners); area and containment invariance on scaled and shifted polygons.", "property-based testing: reference model, metamorphic")

prop("C12", "Point-in-polygon is exact, including edges and vertices",
     "The point-in-polygon test gives yes for a point on an edge or vertex of the polygon and otherwise follows the even-odd rule, whether or not the polygon is explicitly closed, for any starting vertex and direction. It is exact where the coordinates are integers of moderate size and correct up to rounding otherwise. A point on an edge shared by two polygons, or within rounding of it, belongs to at least one of them.",
     ["inputs"], "All polygons (convex, concave, self-intersecting, with horizontal and repeated edges) and all points, in particular level with or coinciding with vertices.",
     "No test calls it directly.",
     ["poly.c"], [("poly_containspoint()", "poly.c"), ("extent of the polygon", "poly.c")], ["poly_containspoint"],
     "Exact integer reference; metamorphic relations (rotation of the start, reversal, closing).", "property-based testing: exact reference model, metamorphic")

prop("C13", "Polyline editing behaves like editing a list of points",
     "After any sequence of polyline operations (add, insert at a position, delete, append, clear, copy, close, reverse, resample, despike, compact, read, write) the polyline holds exactly the points that the documented meaning of the operations gives on a list of points, and its size, bounding rectangle, area (positive for counterclockwise) and point lookup agree with that list. Operations on one polyline do not affect another. The length of lines of a polyline file does not matter.",
     ["histories", "inputs"], "All sequences of operations on several polylines, across the growth of their storage.",
     "No test calls these operations directly.",
     ["poly.c"], [("poly_addpoint(), poly_addpointat(), poly_append(), poly_deletepoint(), ...", "poly.c"), ("extent maintenance", "poly.c")], ["poly fields", "poly_containspoint", "poly_area", "poly_write"],
     "Stateful, model-based: a list of points as the model, all observables compared after every operation, under ASan/UBSan.", "stateful model-based property testing")

prop("C14", "kd-tree nearest-node search returns a nearest node",
     "For any set of points, inserted one by one, in bulk (shuffled or not) or in any mixture, in any number of dimensions, the nearest-node search returns a node at the minimal distance from the query point, and nothing for an empty tree. Each node keeps the coordinates and the original id it was inserted with (a bulk insertion numbers its points from the number of nodes already in the tree); points with a non-finite coordinate are skipped; size and bounding box agree with the points inserted.",
     ["inputs", "histories"], "All point sets (duplicates, ties, lattices, clusters), insertion histories, dimensions and query points.",
     "Tests use the tree indirectly for two map queries.",
     ["kdtree.c"], [("kd_insertnode(), kd_insertnodes()", "kdtree.c"), ("kd_findnearestnode(), disttohyperrect()", "kdtree.c")], ["kd_findnearestnode", "kd_getnodecoords", "kd_getnodeorigid", "kd_getminmax", "kd_getsize"],
     "Brute force over all points as the oracle; exact on integer coordinates.", "stateful property-based testing: brute-force reference model")

prop("C15", "kd-tree range search returns exactly the nodes within the range",
     "The range search returns every node at a distance not exceeding the range, each exactly once, and no other; reports their number; gives the distance of each; and, when ordering is requested, returns them by increasing distance. The result set can be read to the end and then reports that there is nothing more; for an empty tree the set is empty.",
     ["inputs", "histories"], "All point sets, dimensions, ranges (zero, exactly the distance of a node, covering everything) and query points.",
     "No test uses range search.",
     ["kdtree.c"], [("kd_findnodeswithinrange(), _kdset_insert()", "kdtree.c"), ("kdset_read(), kdset_getsize()", "kdtree.c")], ["kd_findnodeswithinrange", "kdset_read", "kdset_getsize"],
     "Brute force over all points; exact on integer coordinates with ranges that are exactly attained.", "property-based testing: brute-force reference model")

prop("C16", "A subgrid is exactly the specified block of nodes",
     "Extracting a subgrid gives exactly the nodes with indices within the specified inclusive ranges, clipped to the grid, in the same order, with unchanged coordinates and validity and the type of the source; omitted ranges mean the whole grid. A range that contains no nodes is an error rather than an empty or wrong grid.",
     ["inputs"], "All grids and index ranges, including negative, reversed and exceeding the grid.",
     "No test runs it.",
     ["gridnodes.c", "subgrid.c"], [("gridnodes_subgrid()", "gridnodes.c"), ("range parsing", "subgrid.c")], ["gridnodes_subgrid", "subgrid output"],
     "Slicing model; composition of two extractions equals one.", "property-based testing: reference model, metamorphic")

prop("C17", "Inserting a grid places every node and loses none",
     "Inserting a grid at a given position gives a grid just large enough for both (extended at the start for a negative position); every node covered by the inserted grid comes from it, every other node from the master grid, and nodes covered by neither are invalid; with merging, an invalid node of the inserted grid leaves the node of the master grid in place. If the node type is specified, the result is validated according to the type, and a size impossible for the type is an error.",
     ["inputs"], "All pairs of grids, positions (inside, overlapping the edge, beyond it), modes and types.",
     "No test runs it.",
     ["insertgrid.c", "gridnodes.c"], [("main()", "insertgrid.c"), ("gridnodes_validate()", "gridnodes.c")], ["insertgrid output"],
     "Array model of insertion and merging followed by the model of validation.", "property-based testing: reference model")

prop("C18", "setbathy changes exactly the values in the index range",
     "The output of setbathy equals its input line for line, except that the lines of the cells within the specified inclusive index ranges (an omitted range means all) hold the specified value; skipped leading lines, the header and anything after the data pass through unchanged, lines of any length included. The dimensions come from the header or from the command line, and input with too few lines, a size that is not positive, or a missing value or header, is an error.",
     ["inputs"], "All file contents, dimensions, offsets and index ranges, including ranges outside the grid.",
     "No test runs it.",
     ["setbathy.c"], [("main()", "setbathy.c")], ["setbathy output and exit status"],
     "Line-by-line model of the text.", "property-based testing: reference model")

prop("C19", "A mask invalidates exactly the masked cells",
     "Applying a mask to centre nodes invalidates exactly the nodes with zero mask. Applying it to double-density nodes invalidates the centre nodes with zero mask, then the corner nodes with no valid centre node in the cells around, and then what validation requires; nothing else changes. A mask file must have one \"0\" or \"1\" per line for each cell in row order: anything else, a short file, or a mask for corner nodes, is an error.",
     ["inputs"], "All grids, masks and mask files.",
     "No test applies a mask.",
     ["gridnodes.c", "gucommon.c", "getnodes.c"], [("gridnodes_applymask()", "gridnodes.c"), ("gu_readmask()", "gucommon.c")], ["gridnodes_applymask", "gu_readmask", "getnodes -m"],
     "Declarative model of masking; malformed mask files must be refused.", "property-based testing: reference model")

prop("C20", "Reported grid quality statistics are right",
     "The reported maximum and mean deviation from orthogonality are those of the angles between adjacent sides at the four corners of every valid cell, the maximum and mean aspect ratio are those of the distances between the midpoints of opposite sides, and the mean cell size is the mean length of the sides in each index direction. The cells reported for the maxima attain them. The numbers do not depend on the node type the grid is given in or on its position and orientation.",
     ["inputs"], "All grids and validity patterns.",
     "The test prints the numbers for one grid; the angle was in fact wrong by a factor of two before it was corrected here.",
     ["gridnodes.c", "getnodes.c"], [("gridnodes_calcstats(), gridnodes_calcstats_cor(), dtheta()", "gridnodes.c")], ["getnodes -v (standard error)"],
     "Independent computation in extended precision compared with the printed numbers; metamorphic (double density vs corner, rotation).", "property-based testing: reference model, metamorphic")

prop("C21", "Gridded bathymetry is the average of the values in each cell",
     "gridbathy prints one line per cell in row order (or for the one requested cell): NaN for an invalid or masked cell or one with no usable value, otherwise the mean over n x n points regularly distributed in the cell in index space of the values given by the selected interpolation, made in physical or in index space as requested, with values beyond the depth range replaced by the limit and undefined values left out. With averaging, a cell gets the mean of the data points that lie in it.",
     ["inputs", "configurations"], "All grids, data, masks, interpolation rules, numbers of points and depth ranges.",
     "gridbathy is not even built by the tests, for lack of the interpolation libraries.",
     ["gridbathy.c", "gridaverager.c", "gridmap.c"], [("main()", "gridbathy.c"), ("ga_addpoints(), ga_getvalue()", "gridaverager.c")], ["gridbathy output", "ga_getvalue"],
     "gridbathy is linked with stand-ins for libnn and libcsa that reproduce planes exactly (the libraries themselves are not part of the repository); data are sampled from planes, and cell means have a closed form.", "property-based testing: reference model with stand-in interpolators")

prop("C22", "Malformed input leads to a clean error, never to a crash or hang",
     "Whatever the contents of the input files (truncated, corrupted, wrong sizes, non-finite values, grids that are not simply connected or have degenerate cells) and the command line arguments, every program terminates, either with success or with an error message and non-zero exit status, without reading or writing memory it does not own. A file that is missing or ends before all nodes are read is always an error. So is, for gridbathy, a cell index or number of points that does not fit an integer; a word in place of an option brings the usage message or an error.",
     ["inputs", "configurations"], "All byte strings as input files (dimensions within memory limits) and all argument lists.",
     "Tests use one well-formed file.",
     ["gridnodes.c", "gucommon.c", "gridbmap.c", "gridkmap.c", "poly.c", "getnodes.c", "getbound.c", "subgrid.c", "insertgrid.c", "setbathy.c", "xy2ij.c", "gridbathy.c"],
     [("input checks and gu_quit()", "all programs")], ["exit status, signals, sanitizer reports"],
     "Structured mutation of valid inputs and argument lists; programs built with ASan and UBSan, with a CPU limit.", "fuzzing with sanitizers: mutated and structured inputs")

prop("C23", "Point stream conversion maps every line and passes the rest through",
     "xy2ij writes exactly one output line per input line (of any length), in order: a line starting with two numbers becomes the converted coordinates (15 significant digits, as given by the mapping of the grid) followed by the rest of the line, and any other line is copied unchanged. Indices between nodes of which some are invalid give \"NaN NaN\"; a point or index outside the grid stops the program with an error after the output for the preceding lines, or gives \"NaN NaN\" if so requested, in which case the conversion of other lines is not affected.",
     ["inputs", "histories"], "All grids, streams of points, comments and blank lines, in both directions and with both map types.",
     "Tests convert one point per run.",
     ["xy2ij.c", "gridmap.c"], [("main()", "xy2ij.c")], ["xy2ij output and exit status"],
     "Streams are generated together with the expected lines (from the mapping library and, independently, from known indices); prefix and concatenation relations.", "property-based testing: reference model, metamorphic")

prop("C24", "The polar grid tweak makes longitudes continuous and splits at the seam",
     "With the polar option, longitudes are shifted by multiples of 360 degrees so that they do not jump by more than 180 degrees along a column, in whichever direction the jump is. The node before a remaining jump of more than 180 degrees in longitude, or more than 90 degrees in latitude, between neighbours along a row is invalidated; all other nodes keep their position on the sphere.",
     ["inputs"], "All grids in degrees: with seams in either direction, wraps repeated along a column, invalid nodes.",
     "No test uses the option.",
     ["getnodes.c"], [("gridnodes_tweaknpolar()", "getnodes.c")], ["getnodes -p output"],
     "Sequential model of unwrapping and seam removal; invariants: same longitude modulo 360, no jumps left.", "property-based testing: reference model, invariants")

prop("C25", "Grids, maps and polylines own their data and release it",
     "A copy, subgrid or converted grid shares no data with its source: changing or destroying either leaves the other intact, and the copy has the same size, type, nodes and map type as the source. Building and destroying grids, maps, kd-trees, polylines and result sets in any order releases all the memory they took, with no double release or use after release; a map leaves the node arrays it refers to untouched.",
     ["histories"], "All sequences of creation, copying, conversion, mapping and destruction.",
     "Tests run each program once, and the programs exit without it mattering what was released.",
     ["gridnodes.c", "gridmap.c", "gridbmap.c", "gridkmap.c", "kdtree.c", "poly.c", "gucommon.c", "gridaverager.c"], [("constructors and destructors", "all library files")], ["ASan, allocated bytes before and after"],
     "Stateful: random object lifetimes under ASan with the model's contents compared throughout and allocated bytes returning to the initial value.", "stateful property-based testing with sanitizers")

prop("C26", "Equivalent command lines give identical output",
     "The output of a program does not depend on the order of its options (where none is repeated), on the letter case of node types, on whether a file is named or fed to standard input as \"-\" or \"stdin\", or on verbosity, which only adds messages to the standard error. Node types default to double density. Options that print only X or only Y give the corresponding columns of the full output.",
     ["configurations", "inputs"], "All programs, all option subsets and orders, all inputs.",
     "Each program is tested with one or two command lines.",
     ["getnodes.c", "getbound.c", "xy2ij.c", "subgrid.c", "setbathy.c", "insertgrid.c", "gridbathy.c"], [("parse_commandline()", "all programs")], ["standard output, exit status"],
     "Metamorphic: pairs of equivalent command lines on generated inputs must give identical output.", "property-based testing: metamorphic")


prop("C27", "Verbose reports are right",
     "With the verbose option the programs report on the standard error what they did, and these reports are true: the size of the grids read and written, the number and percentage of non-empty nodes in them, the number of valid cells, the number of double-density nodes invalidated by validation, the number of valid and masked cells of a mask, and the numbers of points for which the index mapping succeeded and failed.",
     ["inputs"], "All grids, validity patterns, masks, point streams and conversions.",
     TESTS + " The messages are discarded.",
     ["gridnodes.c", "getnodes.c", "subgrid.c", "insertgrid.c", "getbound.c", "xy2ij.c", "gucommon.c"], [("gridnodes_read(), gridnodes_write(), gridnodes_getnumcells(), gridnodes_validate_dd()", "gridnodes.c"), ("main()", "xy2ij.c")], ["standard error of the programs with -v"],
     "Numbers parsed from the messages against counts made from the generated input, the output text and the models of validity and location.", "property-based testing: reference model")

prop("C28", "The programs agree with each other",
     "The same thing done by different programs, or by one program in different ways, gives the same result: a grid cut in pieces by subgrid and put together by insertgrid is the original grid; taking a block of whole cells commutes with conversion between node types; getbound, xy2ij and gridbathy give the same output for double-density nodes and for the corner nodes getnodes makes of them; chains of conversions through different node types end with the same nodes, and these are the ones xy2ij gives for the corresponding indices; a mask may be applied before or after the conversion to centre nodes, and once or twice; the cell averages of gridbathy are those of the data points that xy2ij maps to the cell, one cell printed alone has the same value, and setbathy replaces the depths in the specified part of that output.",
     ["inputs", "configurations"], "All grids (simply connected ones where a map or boundary is involved), cuts, blocks, masks, points and data.",
     TESTS + " No test combines programs.",
     ["getnodes.c", "getbound.c", "xy2ij.c", "subgrid.c", "setbathy.c", "insertgrid.c", "gridbathy.c", "gridaverager.c"], [("main()", "all programs"), ("gridnodes_transform(), gridnodes_subgrid(), gridnodes_applymask()", "gridnodes.c")], ["standard output of the programs"],
     "Pipelines of programs on generated inputs; two ways of getting the same thing have to agree, to the byte where the numbers go through the same calculation.", "property-based testing: metamorphic and differential (program against program)")

prop("C29", "Results do not depend on how a grid is numbered, mirrored or scaled",
     "Reversing either index, transposing the indices, mirroring or swapping the coordinates, scaling by a power of two and (for integers) shifting transform the results accordingly and change nothing else: the cell and the fractional indices found for a point, whether a point is in the grid at all, the position for a pair of indices, the sides, the area and the corners of the boundary and the points within it, the nodes kept by validation and masks, and the nodes obtained by conversion to other types.",
     ["inputs"], "All grids, transformations and points, with both kinds of map; points on the boundary where no rounding is involved.",
     TESTS + " It is numbered and oriented in one way.",
     ["gridmap.c", "gridbmap.c", "gridkmap.c", "poly.c", "gridnodes.c", "kdtree.c"], [("gridmap_xy2fij(), gridmap_fij2xy()", "gridmap.c"), ("gridbmap_build()", "gridbmap.c"), ("poly_formbound(), poly_compact(), poly_containspoint()", "poly.c"), ("gridnodes_validate(), gridnodes_transform()", "gridnodes.c")], ["gridmap_xy2ij, gridmap_xy2fij, gridmap_fij2xy", "poly_formbound", "gridnodes_validate, gridnodes_transform"],
     "The transformations involve no rounding, so that results are compared exactly or within the tolerance of the inverse mapping.", "property-based testing: metamorphic (symmetries)")

prop("C30", "Command lines that make no sense are refused",
     "A command line with an unknown option, an option without its value, an unknown or unsupported node type, a malformed number of gridbathy, malformed dimensions of setbathy, a position of insertgrid too big for the resulting grid, or with arguments missing or left over makes the program print its usage or fail with an error message and non-zero exit status; nothing that could be taken for results is printed. With -h, wherever it stands among valid arguments, the program prints its help and does nothing else, and with -v alone its version.",
     ["configurations"], "All programs; valid command lines spoiled in all these ways at every position.",
     "The tests use valid command lines only.",
     ["getnodes.c", "getbound.c", "subgrid.c", "insertgrid.c", "setbathy.c", "xy2ij.c", "gridbathy.c"], [("parse_commandline()", "all programs")], ["standard output and error, exit status"],
     "Generated valid command lines, one mistake in each.", "property-based testing: mutation of valid command lines, invariant on the output")

prop("C31", "The stand-alone kd-tree program finds the right points",
     "kdtree.c compiled as a program (STANDALONE) reads points with any number of dimensions, or longitudes and latitudes, from a file or the standard input, and finds the nearest one to the specified point, or all those within the specified range, sorted by distance if so requested. Coordinates, distances, the numbers of rows as ids and the numbers of points read and found are true; the result does not depend on the order of insertion or of options. Comments and rows with too few numbers are skipped, points with undefined coordinates are never found. An incomplete or contradictory command line is refused.",
     ["inputs", "configurations"], "All tables, numbers of dimensions, points, ranges and options.",
     "No test compiles or runs this program; as found, it used variables that were not initialised, and a distance and numbers of dimensions that could be anything.",
     ["kdtree.c"], [("main(), kd_readfile(), parse_commandline()", "kdtree.c"), ("kd_insertnode(), kd_findnearestnode(), kd_findnodeswithinrange()", "kdtree.c")], ["standard output and exit status of the program"],
     "Reference model: exhaustive search in extended precision on the numbers as written in the table.", "property-based testing: reference model")

prop("C32", "Matrices and new grids have the size they were asked for",
     "A matrix allocated by the library has as many rows of as many elements as requested, one after another, all zero and shared with no other matrix; what is written to an element stays there until the matrix is released. Sizes that are zero, negative or take more bytes than there can be are refused with an error message, also when creating a grid. A grid filled point by point holds the points row by row, starting again when it is full; the arrays of its coordinates stay in place.",
     ["inputs", "histories"], "All sizes, element sizes, sequences of allocation, writing and release.",
     "The tests allocate a few grids of one size and look at none of this.",
     ["gucommon.c", "gucommon.h", "gridnodes.c"], [("gu_alloc2d(), gu_free2d()", "gucommon.c"), ("gridnodes_create(), gridnodes_readnextpoint()", "gridnodes.c")], ["contents and addresses of rows; ASan; gu_quit()"],
     "Model of the contents of each matrix, compared in full after every operation; 128-bit arithmetic for sizes.", "property-based testing: model-based operation sequences")

prop("C33", "Errors of the library go to the application, and tell the truth",
     "Every error that the library detects (files that cannot be opened or written, are empty, too short or have a bad header, wrong sizes, bad masks, undefined points, unknown map types, nodes of a type that does not suit the operation) is reported exactly once, by calling the function set last with gu_setquitfn(), with a message that names the file and tells the number of the offending node or value, the sizes expected and the reason given by the system. Objects the operation was to change stay as they were, and the library works on. In the programs the message goes to the standard error, with exit status 1.",
     ["inputs", "histories"], "All kinds of errors, contents of files up to the error, sequences of errors and of replacements of the function.",
     "The tests provoke no errors.",
     ["gucommon.c", "guquit.h", "gridnodes.c", "gridmap.c", "poly.c"], [("gu_setquitfn(), gu_quit", "gucommon.c"), ("input checks", "gridnodes.c, gridmap.c, poly.c, gucommon.c")], ["calls of the function set, message, state of objects, standard error and exit status of programs"],
     "Each error is made by the generator, which knows the numbers to be reported; objects are compared with their contents before.", "property-based testing: fault injection with an explicit model of the report")

prop("C34", "Failures of input and output are reported",
     "When the output of a program (or a file written by the library) cannot be written to its end - the disk is full from the start, after any number of bytes or at the very end - there is an error message and a non-zero exit status (a call of the error function that names the file); what has been written is the beginning of the right output. When there is room for all, the program succeeds and the output is complete. When reading of a grid, a mask, points or values fails before all that is needed has been read (whatever the number of bytes read before, including for streams all of them), or cannot start because a directory is given in place of a file, this is an error too and never taken for the end of the data; what is printed before is the beginning of the right output.",
     ["inputs", "crash_points"], "All programs and command lines, all numbers of bytes after which writing or reading fails, files and the standard input.",
     "The tests write to files on a disk that has room, and read files that can be read.",
     ["gridnodes.c", "gucommon.c", "getnodes.c", "getbound.c", "subgrid.c", "insertgrid.c", "setbathy.c", "xy2ij.c", "gridbathy.c", "poly.c", "kdtree.c"],
     [("gridnodes_write(), gridnodes_read()", "gridnodes.c"), ("gu_readmask(), gu_fclose(), gu_fopen()", "gucommon.c"), ("poly_write(), poly_read()", "poly.c"), ("main()", "all programs")], ["exit status, standard error, bytes written; calls of the error function"],
     "Faults are injected by the operating system: limits of the size of files, /dev/full, a socket that is reset once all has been read, directories. The output of the same command without faults is the reference.", "property-based testing: fault injection at any byte, differential against the run without faults")


def main():
    with open(os.path.join(HERE, "properties.jsonl"), "w") as f:
        for p in P:
            f.write(json.dumps(dict(id=p["id"], title=p["title"], statement=p["statement"], quantifier=dict(over=p["over"], text=p["text"]), why_tests_cant=p["why"],
                    anchors=dict(files=p["files"], mechanism=p["mech"], observe_at=p["observe"], hook_needed=None))) + "\n")
    checks, na = [], []
    for p in P:
        if os.path.exists(os.path.join(HERE, "props", p["id"].lower() + ".cpp")):
            checks.append(dict(property=p["id"], quick_cmd="python3 check.py %s quick" % p["id"], thorough_cmd="python3 check.py %s thorough" % p["id"], evidence_file="evidence/%s.json" % p["id"],
                               technique=p["technique"], level="exploration", level_note=p["note"] + " Generated-input search: no violation among the cases generated; not a proof."))
        else:
            na.append(dict(property=p["id"], reason="the check is not written yet"))
    m = dict(version=1, setup_cmd="python3 build.py", checks=checks, not_applicable=na,
             notes="No hooks in /repo are needed: the checks compile the tree out of place (build.py) with sanitizers and use its public headers and programs only.")
    with open(os.path.join(HERE, "MANIFEST.json"), "w") as f:
        json.dump(m, f, indent=1)
        f.write("\n")
    rows = []
    for d in sorted(os.listdir(os.path.join(HERE, "seeded"))):
        with open(os.path.join(HERE, "seeded", d, "meta.json")) as f:
            s = json.load(f)
        rows.append((s["property"], d, s["needs"], s["what_it_breaks"]))
    with open(os.path.join(HERE, "DESIGN.md")) as f:
        t = f.read()
    a, b = t.index("<!-- seeded"), t.index("<!-- end -->")
    tab = "| check | change | needs | effect |\n|-|-|-|-|\n" + "".join("| %s | %s | %s | %s |\n" % (p, i, n.rstrip("."), w.rstrip(".")) for p, i, n, w in sorted(rows))
    with open(os.path.join(HERE, "DESIGN.md"), "w") as f:
        f.write(t[:a] + "<!-- seeded (written by tools/mkmeta.py) -->\n\n" + tab + "\n" + t[b:])


main()
