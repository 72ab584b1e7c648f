#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json (kept in one place so that they stay in step)."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
G = "gridutils/"
P = []


def p(id, title, statement, over, text, why, files, mech, note, observe=None):
    P.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=[G + f for f in files], mech=mech, note=note, observe=observe))


p("C01", "Grid files are read faithfully",
  "Reading a text grid (\"## nx x ny\" header followed by nx*ny lines, from a file or from standard input, for any node type) yields exactly nx*ny nodes in row-major order with the coordinates of the first two columns of each line (of up to 10000 characters). A line that is empty, a comment, unreadable, or holds NaN for either coordinate makes that node invalid in both coordinates without shifting the other nodes; extra columns, long comments and lines after the last node are ignored. A missing file, a missing or invalid header, a non-positive or excessive size and a file with too few lines are fatal errors.",
  ["inputs", "configurations"], "all files over an alphabet of line forms for small grids, all truncations and header forms, all node types, all sizes up to 7x7",
  "The tests read four well-formed grid files; the behaviour depends on every combination of line forms, sizes and truncations.",
  ["gridnodes.c", "gucommon.c"], [("gridnodes_read", "gridnodes.c"), ("gridnodes_readnextpoint", "gridnodes.c")],
  "complete enumeration of line-form combinations up to 6 nodes, with the node-by-node API as second implementation path")
p("C02", "Grid files are written faithfully and round-trip",
  "Writing grid nodes produces a header with the grid size and one line per node in row-major order: both coordinates, or only X, or only Y if so requested, with at least 15 significant digits; an invalid node is written as NaN. Reading the written two-column file back gives the same valid/invalid pattern and coordinates equal up to that precision, and writing what was read reproduces the file byte by byte. Writing to a file that cannot be opened is a fatal error.",
  ["inputs", "configurations"], "all NaN patterns of grids up to 3x3, pairs of special values, all sizes up to 12x12, X/Y/XY output",
  "The tests compare a few outputs of one grid; round trip over patterns, extreme values and sizes is not sampled.",
  ["gridnodes.c"], [("gridnodes_write", "gridnodes.c"), ("gridnodes_read", "gridnodes.c")],
  "complete enumeration of validity patterns and of a set of special values")
p("C03", "Validation of corner grids: a node is valid iff it belongs to a valid cell",
  "After validation of a grid of cell corner nodes, a node is valid if and only if it was valid before and is a corner of at least one cell whose four corner nodes were all valid before. Coordinates of the nodes that stay valid do not change, a repeated validation changes nothing, and grids without any cell end up with no valid nodes.",
  ["inputs"], "all validity patterns of corner grids up to 16 nodes, all sets of up to k missing nodes and all pairs of missing rectangles of larger grids",
  "Tests validate one grid; the property is about every combination of missing nodes.",
  ["gridnodes.c"], [("gridnodes_validate", "gridnodes.c"), ("gridnodes_validate_cor", "gridnodes.c")],
  "complete enumeration of validity patterns up to the stated sizes")
p("C04", "Validation of double density grids keeps exactly the nodes of valid cells",
  "After validation of a double density grid, a corner node (even, even) is valid iff it was valid and all four corner nodes of at least one adjacent cell were valid; a cell centre node (odd, odd) is valid iff it was valid and its four corner nodes are valid afterwards; and an edge node is valid iff it was valid and the two corner nodes at the ends of its edge are valid afterwards. Coordinates of nodes that stay valid do not change and a repeated validation changes nothing. Grids of even dimensions are refused.",
  ["inputs"], "all validity patterns of double density grids up to 5x3 nodes, all corner patterns of 5x5, 7x5 and 5x7 nodes combined with centre and edge patterns, all sets of up to k missing nodes of larger grids",
  "Tests validate one grid with a single pattern of gaps.",
  ["gridnodes.c"], [("gridnodes_validate_dd", "gridnodes.c")],
  "complete enumeration of validity patterns up to the stated sizes")
p("C05", "A cell mask removes exactly the masked cells",
  "Applying a mask of 0/1 per cell to centre nodes invalidates exactly the nodes of the cells marked 0. Applied to double density nodes, it invalidates the centre node of each cell marked 0, every corner node none of whose adjacent cells has a valid centre node, and then everything that validation removes; everything else keeps its coordinates, so that two masks applied in turn compose. Corner nodes and nodes of unspecified type cannot be masked: a fatal error.",
  ["inputs", "histories"], "all masks times all validity patterns of small grids, few missing nodes and masked cells of larger ones, sequences of two masks",
  "Tests apply one mask to one grid.",
  ["gridnodes.c"], [("gridnodes_applymask", "gridnodes.c")],
  "complete enumeration of masks x patterns up to 3x3 cells")
p("C06", "Node type conversions relate nodes exactly",
  "Converting double density nodes to corner or centre nodes picks exactly the corresponding nodes. Converting corner nodes of a simply connected grid to centre or double density nodes gives the means of the four, respectively two corner nodes around, the corner nodes themselves staying the same; a node is invalid if any of the nodes it is made from is invalid. Conversions do not modify the source, conversion to the same type is a copy, and the result is the same for both kinds of the internal grid map.",
  ["inputs", "configurations"], "all validity patterns of small grids in ten geometries, few missing nodes of larger grids, all type pairs, both map types",
  "Tests convert one rectangular-topology grid.",
  ["gridnodes.c", "gridmap.c"], [("gridnodes_transform", "gridnodes.c"), ("gridmap_fij2xy", "gridmap.c")],
  "complete enumeration of patterns; expected positions computed independently, tolerance 1e-14 relative")
p("C07", "Conversion from centre nodes extrapolates from the nearest valid 2x2 block",
  "Converting centre nodes to corner or double density nodes positions each new node by bilinear inter/extrapolation from a nearest 2x2 block of valid centre nodes, provided the middle of that block is less than 1.5 cells away in index space; otherwise the node is invalid, and the result is validated. Affine grids are recovered exactly up to rounding, and grids without any valid 2x2 block give a grid without valid nodes.",
  ["inputs"], "all validity patterns of centre grids up to 15 nodes, larger grids with few centres removed",
  "Tests convert one grid; the nearest block depends on every combination of missing centres.",
  ["gridnodes.c", "kdtree.c"], [("gridnodes_transform", "gridnodes.c"), ("kd_findnearestnode", "kdtree.c")],
  "complete enumeration of patterns; any of several equally near blocks is admitted")
p("C08", "Subgrids and copies contain exactly the selected nodes",
  "A subgrid of an index range holds exactly the nodes of the inclusive range clamped to the grid, in order, valid or not, leaves the source unchanged and composes with further subgrids. A range that does not overlap the grid (or is inverted) is a fatal error. A copy equals its source, keeps its type and is independent of it.",
  ["inputs", "histories"], "all index ranges around grids up to 5x3, extreme indices, all patterns of 3x3 nodes x all ranges, all ranges of 5x5 nodes over sets of missing nodes, two-level extraction",
  "Tests extract one range.",
  ["gridnodes.c"], [("gridnodes_subgrid", "gridnodes.c"), ("gridnodes_copy", "gridnodes.c")],
  "complete enumeration of ranges")
p("C09", "insertgrid combines two grids node by node",
  "The tool insertgrid writes a grid just large enough to hold the master grid and the slave grid placed with its first node at the given position of the master, which may be negative (then the first node of the slave, not of the master, comes first in that direction). Inside the slave's rectangle the slave's nodes (valid or not) are taken, with -m only its valid ones; all other nodes come from the master, and nodes covered by neither grid are invalid. If a node type is given the result is validated for that type. A position for which the grid would have more nodes than an int can count is refused with an error.",
  ["inputs", "configurations"], "all sizes up to 3x3 / 2x2, all positions from -4 to 4, far and unreachable positions, all validity patterns of a 3x3 master and a 2x2 slave, all options and types",
  "One insertion is tested; index arithmetic depends on relative sizes, offsets and gaps.",
  ["insertgrid.c", "gridnodes.c"], [("main", "insertgrid.c")],
  "complete enumeration of sizes, positions and patterns through the real executable")
p("C10", "setbathy replaces exactly the lines of the selected cells",
  "The tool setbathy replaces the line of every cell (i,j) with i and j inside the inclusive ranges (all, if not given) by the given value and passes all other data lines, the skipped leading lines (-o) and all trailing lines through unchanged and in order, whether the size comes from the header line (which is consumed) or from -d. Ranges may exceed the grid or be empty. Lines may have up to 10000 characters. A missing value or an input with too few lines is a fatal error.",
  ["inputs", "configurations"], "all pairs of ranges from an alphabet, all sizes up to 3x3, offsets, both ways to give the size, contents and lengths of lines, truncations",
  "One range on one file is tested.",
  ["setbathy.c"], [("main", "setbathy.c")],
  "complete enumeration through the real executable, byte-exact comparison")
p("C11", "The boundary polygon walks once around the union of valid cells",
  "For a grid whose valid cells form one piece without holes, the boundary in index space and in physical space is a closed polygon that consists of exactly the edges between a valid cell and the outside (no valid cell), each walked once. Its area equals the total area of the valid cells and it contains the centre of every valid cell and of no other. A grid without valid cells has an empty boundary, and forming it does not change the grid.",
  ["inputs"], "all simply connected shapes within 4x4, 5x3 and 6x1 cells, all simply connected unions of two rectangles and their complements in larger grids, a set of large shapes, up to ten geometries",
  "Tests walk one boundary; turns and gaps of every shape matter.",
  ["poly.c"], [("poly_formbound", "poly.c"), ("poly_formboundij", "poly.c")],
  "complete enumeration of shapes; edge set computed independently")
p("C12", "Compaction removes exactly the redundant vertices",
  "Compacting a closed polygon removes repeated vertices and vertices on the straight line between their neighbours and keeps all others in order, so that the enclosed area and the set of enclosed points do not change. It is idempotent, leaves a consistent point count and extent, and copes with degenerate polygons. This holds for edges of any length, also much shorter than one.",
  ["inputs"], "boundaries of all simply connected shapes and of unions of two rectangles, all simple polygons with 3-6 vertices on small lattices with added redundant vertices, at scales down to 2^-28",
  "No test compares compacted and original polygon beyond one example.",
  ["poly.c"], [("poly_compact", "poly.c")],
  "complete enumeration on lattices in which collinearity is exact")
p("C13", "Point-in-polygon agrees with the even-odd rule, boundary included",
  "For a simple polygon (closed explicitly or not, either orientation, any starting vertex) a point is reported as contained iff it is strictly inside or on the boundary, for every position of the point relative to edges and vertices, including points level with vertices and on horizontal edges. Polygons that cross or touch themselves follow the even-odd rule. The answer is that of the present vertices, also after the polygon has been edited or another one was asked before. Points outside the bounding rectangle and any point for polygons of fewer than two points are outside. This holds for any scale of the coordinates at which products of their differences are representable, and however close to an edge the point is.",
  ["inputs", "histories"], "all simple polygons with 3-6 vertices on small lattices x scales from 2^-300 to 2^300 and translations x all lattice and half-lattice query points and points beside edges and vertices at 2^-40; all closed walks on lattices; queries between all edits",
  "Special positions (level with vertices, on edges) are not sampled by the tests.",
  ["poly.c"], [("poly_containspoint", "poly.c")],
  "complete enumeration; exact integer oracle")
p("C14", "Polyline edits behave like edits of a point list",
  "Any sequence of polyline edits (add, insert, delete, append, clear, close, reverse, copy, despike, resample) on polylines of any size has the same effect as on an ordinary list of points: count, order and coordinates agree after every step. The recorded extent always equals the extent of the points (it is never smaller), copies are independent, and searching for a point finds the first equal one.",
  ["histories", "inputs"], "all sequences of 3 edits from 15 initial sizes, longer growing/shrinking and periodic histories",
  "Tests never edit polylines; capacity growth and extent upkeep depend on histories.",
  ["poly.c"], [("poly_addpointat", "poly.c"), ("poly_deletepoint", "poly.c"), ("poly_append", "poly.c"), ("poly_resample", "poly.c"), ("poly_despike", "poly.c")],
  "stateless exploration of all operation sequences against a vector model")
p("C15", "Area and closedness of polygons",
  "The area of a polygon is its signed area: positive for counter-clockwise order of vertices (X to the right, Y up), negative for clockwise, whether or not the first vertex is repeated at the end, reversing changes the sign only. A polyline is closed iff its first and last points agree within the given tolerance in both coordinates, and closing an open non-empty polyline appends its first point, and nothing otherwise. This holds for any scale and position of the coordinates, up to the precision of the vertices, and after any edits.",
  ["inputs"], "all polylines with up to 5 points on a 3x3 lattice, regular polygons, scales from 2^-300 to 2^300, area and closedness between edits",
  "No test looks at areas.",
  ["poly.c"], [("poly_area", "poly.c"), ("poly_isclosed", "poly.c"), ("poly_close", "poly.c")],
  "complete enumeration; exact shoelace oracle")
p("C16", "Polylines are read one at a time and round-trip through text",
  "A text stream of polylines separated by comment lines is read one polyline per call, in order, each with exactly its points, regardless of blank or comment lines before it, with lines of up to 2000 characters; at the end of the stream nothing is read. Writing a polyline and reading it back gives the same points to 15 significant digits.",
  ["inputs", "histories"], "all streams of up to three polylines over an alphabet of lines, text variants, lines of all lengths around typical buffer sizes, large polylines",
  "Tests do not read polylines.",
  ["poly.c"], [("poly_read", "poly.c"), ("poly_write", "poly.c")],
  "complete enumeration of streams over the alphabet")
p("C17", "The binary-tree map finds the cell of every point",
  "For a grid whose valid cells form one piece without holes, the default grid map reports every point inside a valid cell with exactly that cell, every point on a common edge or node with one of the adjacent valid cells, and every point outside all valid cells as outside. This holds for every shape, size, orientation and spacing of the grid, also for elongated and spiral shapes.",
  ["inputs"], "all simply connected shapes within 4x4, 5x2 and 6x1 cells, all simply connected unions of two rectangles, full grids up to 10x10, large shapes, fourteen geometries (cells from 2^-24 to 2^40), lattice of points in each cell and around the grid",
  "Tests map points of one grid.",
  ["gridbmap.c", "gridmap.c", "poly.c"], [("gridbmap_xy2ij", "gridbmap.c"), ("gridbmap_subdivide", "gridbmap.c"), ("poly_containspoint", "poly.c")],
  "complete enumeration of shapes; points on edges of non-representable geometries are excluded (see DESIGN.md)")
p("C18", "The kd-tree map finds the cell of every point, for any set of cells",
  "The kd-tree grid map reports a point with a valid cell that contains it and never with one that does not, for any pattern of valid cells including several pieces, holes and touching corners; points outside all valid cells are outside. Every point is found whose nearest valid node is a corner of its cell.",
  ["inputs"], "as C17, plus all patterns of missing nodes up to 4x3 nodes and all patterns of valid cells up to 4x3 cells",
  "Tests run it on one grid.",
  ["gridkmap.c", "gridmap.c", "kdtree.c"], [("gridkmap_xy2ij", "gridkmap.c"), ("kd_findnearestnode", "kdtree.c")],
  "complete enumeration of patterns; completeness restricted to the documented reach of the method")
p("C19", "Index to physical conversion is bilinear inside the grid",
  "Converting a fractional index (fi,fj) within [0,nce1]x[0,nce2] succeeds and gives the bilinear interpolation of the four corner nodes of its cell, with invalid (NaN) result if a corner that contributes is invalid; at integer indices it gives the node itself, including the far edges of the grid. Indices outside are reported as failures and NaN indices as failures with NaN result. Both map types agree.",
  ["inputs"], "all patterns of missing nodes up to 3x3 nodes in all geometries, dense index lattices including edges and outside, both map types",
  "Tests convert indices of one grid.",
  ["gridmap.c"], [("gridmap_fij2xy", "gridmap.c")],
  "complete enumeration of patterns x index lattice")
p("C20", "Physical to index conversion inverts index to physical conversion",
  "For every point in a valid cell the fractional index returned lies in the cell reported for the point (up to rounding) and converting it back gives the point; the index of the bilinear image of (i+u,j+v) is (i+u,j+v), for any convex cell: skewed, trapezoidal, nearly parallel, tiny, huge, left- or right-handed, offset far from the origin. Points outside all valid cells fail.",
  ["inputs"], "all convex cells with corners on a 5x5 lattice, families of bilinear warps x scales x offsets x orientations, all simply connected shapes and unions of two rectangles",
  "Tests convert points of one grid with mild cells.",
  ["gridmap.c", "gridbmap.c", "gridkmap.c"], [("gridmap_xy2fij", "gridmap.c")],
  "complete enumeration of cell shapes; tolerance 3e-8 + rounding of the coordinates")
p("C21", "Map queries do not depend on the history of queries",
  "The answer of a grid map to a query depends only on the grid and the query: not on queries made before, on other maps in use at the same time, or on the order of queries. Two maps of different grids (including mirrored ones) can be used alternately with the same answers as on their own.",
  ["histories"], "all query sequences of length 3 over an alphabet of conversions on 18 grids, all interleavings of queries to pairs of maps",
  "Tests run each query once, in a fresh process.",
  ["gridmap.c", "gridbmap.c", "gridkmap.c"], [("gridmap_xy2fij", "gridmap.c"), ("gridbmap_xy2ij", "gridbmap.c")],
  "stateless exploration of all query sequences; differential against fresh maps")
p("C22", "The kd-tree finds a nearest node",
  "For any set of points in any number of dimensions, inserted one by one or in bulk, in order or randomised, in any sequence and with duplicates, the nearest-node query returns a node whose distance to the query is minimal. An empty tree yields no node, and so does a query with NaN among its coordinates. Points with NaN or infinity among their coordinates are not stored. This holds for any scale and position of the coordinates.",
  ["inputs", "histories"], "all sequences of up to 6 lattice points in 1-3 dimensions x all queries, all sets of corners of a 4-D cube, up to 16 dimensions, trees of many sizes across capacity steps, histories of insertions, queries and destructions of two trees",
  "The kd-tree has no tests of its own.",
  ["kdtree.c"], [("kd_findnearestnode", "kdtree.c"), ("kd_insertnode", "kdtree.c"), ("kd_insertnodes", "kdtree.c")],
  "complete enumeration of insertion sequences; brute-force oracle")
p("C23", "kd-tree range queries return exactly the nodes within range",
  "A range query returns exactly the nodes whose distance to the query is not larger than the range, each once, with the right distance; if ordered, by non-decreasing distance. The result can be read to its end and beyond, and queries do not disturb each other. This holds for any scale and position of the coordinates; a query with NaN gives an empty result.",
  ["inputs", "histories"], "all sequences of up to 6 lattice points in 1-3 dimensions x all centres and ranges including exact distances, all sets of corners of a 4-D cube, up to 16 dimensions, larger trees, histories of insertions, queries and destructions of two trees",
  "The kd-tree has no tests of its own.",
  ["kdtree.c"], [("kd_findnodeswithinrange", "kdtree.c"), ("kdset_read", "kdtree.c")],
  "complete enumeration; brute-force oracle")
p("C24", "The kd-tree keeps count, coordinates, ids and extent of all insertions",
  "After any history of single and bulk insertions the tree reports the number of stored points, their coordinates and full-width original ids (as given for single insertions; for bulk insertions the position in the array plus the number of points stored before) and the exact minimum and maximum in each dimension, across all growths of its storage. Points with NaN or infinity among their coordinates are left out. Several trees do not influence each other.",
  ["histories"], "all bulk insertions of 5 points of 7 kinds, all histories of 4 insertions of sizes around the capacity steps and with positive, negative and partly non-finite coordinates, interleaved insertions into two trees",
  "The kd-tree has no tests of its own.",
  ["kdtree.c"], [("kd_insertnode", "kdtree.c"), ("kd_insertnodes", "kdtree.c"), ("kd_getminmax", "kdtree.c"), ("kd_getnodeorigid", "kdtree.c")],
  "stateless exploration of insertion histories against a list model")
p("C25", "The grid averager gives the mean of the data in each cell",
  "After any sequence of data points added in any number of batches, the value for a point in a cell is the mean of the values of all data points in that cell, NaN for a cell without data and for a point outside the grid. Data points outside the grid have no effect.",
  ["histories", "inputs"], "all sequences of 4 data points over cells and outside, in batches, three geometries, both maps, with and without a missing cell; dense data on all sizes up to 8x8",
  "The averager is not tested (gridbathy is not built).",
  ["gridaverager.c"], [("ga_addpoints", "gridaverager.c"), ("ga_getvalue", "gridaverager.c")],
  "complete enumeration of sequences against a per-cell list model")
p("C26", "Mask files are read cell by cell or refused",
  "A mask file with at least nx*ny lines, each 0 or 1, is read in row-major order into the mask; the last line need not end with a newline and further lines are ignored. A missing file, too few lines, or a line that is not 0 or 1 is a fatal error. Two-dimensional arrays of any size allocated by the library are zeroed, contiguous row-wise and separately addressable.",
  ["inputs"], "all combinations of line forms for up to 4 cells, all masks of 4x3 cells, all sizes and truncations up to 6x6",
  "One mask file is tested.",
  ["gucommon.c"], [("gu_readmask", "gucommon.c"), ("gu_alloc2d", "gucommon.c")],
  "complete enumeration of line forms")
p("C27", "xy2ij converts every point line and passes the rest through",
  "The tool xy2ij replaces the first two numbers of every point line by the converted coordinates and keeps the rest of the line; lines without two numbers are passed through unchanged, in order (lines of up to 10000 characters, any number of them). A point that cannot be converted ends the run with an error after the output for the preceding lines, or with -f is written as NaN NaN and the run continues. It works the same for DD and CO grids, both map types (-k), both directions (-r), with grid or points from standard input, and -v reports the numbers of points, successes and failures.",
  ["inputs", "configurations"], "all simply connected shapes of 3x2 cells x options x geometries, all point files of up to 3 lines over an alphabet of 10 line types x options, lines and files of many lengths, all 3x3 patterns with -k",
  "Tests convert one list of points; failures and odd lines in all positions are not covered.",
  ["xy2ij.c", "gridmap.c"], [("main", "xy2ij.c")],
  "complete enumeration through the real executable")
p("C28", "getbound writes the boundary polygon of the grid",
  "For a grid whose valid cells form one piece without holes, the tool getbound writes the point count and the closed boundary polygon of the valid cells: in physical coordinates, or with -r in node indices, for DD and CO input alike; with -c each vertex once and without vertices between others on a straight line. Nodes other than cell corners do not matter, and a grid without valid cells gives an empty polygon.",
  ["inputs", "configurations"], "all simply connected shapes of 3x3 and 4x2 cells x all options x three geometries, large shapes x all geometries",
  "Tests run it on one grid.",
  ["getbound.c", "poly.c"], [("main", "getbound.c")],
  "complete enumeration of shapes through the real executable")
p("C29", "getnodes validates, converts and masks grid files",
  "For every pair of input and output node types the tool getnodes writes the validated input converted to the output type, with the mask (-m) applied to the converted nodes; -x and -y select a single coordinate. A mask for corner output is refused. Node type names are case-insensitive, and grid input from standard input and from a file are equivalent.",
  ["inputs", "configurations"], "all type pairs x all patterns of missing nodes of 3x3 / 5x5 nodes x output columns, all masks of 2x2 and 3x2 cells, all sizes up to 8x8 cells",
  "Tests run a handful of conversions of one grid.",
  ["getnodes.c", "gridnodes.c"], [("main", "getnodes.c")],
  "complete enumeration of patterns and options through the real executable")
p("C30", "getnodes -p makes longitudes continuous and cuts the seams",
  "With -p, going along each column, the tool getnodes adds 360 to the X coordinate of a node that differs by more than 180 from the (already adjusted) node of the previous row. Then in each row a node is made invalid if its successor differs from it by more than 180 in X, and after that if the next node differs by more than 90 in Y. All other nodes are written as they are, and without -p no node is altered.",
  ["inputs"], "all assignments of longitudes from an alphabet (with NaN) to small node arrays, all latitudes likewise; all masks, types and columns with seams at any column",
  "The option is not tested.",
  ["getnodes.c"], [("gridnodes_tweaknpolar", "getnodes.c")],
  "complete enumeration over the alphabets through the real executable")
p("C31", "Grid statistics describe exactly the valid cells",
  "With -v the tool getnodes reports on the standard error the number of non-empty nodes read, the number of valid cells (in a DD grid, of those with a valid centre node), the maximum (with a cell where it occurs) and mean deviation from orthogonality over the four corner angles of all valid cells, the maximum (with cell) and mean aspect ratio (not less than one) of the valid cells, and the mean cell size in both directions. Invalid nodes and cells do not influence them, and DD and CO grids with the same corners give the same numbers. Statistics are those of the present nodes, also if the nodes have been changed, masked, copied or converted since they were last calculated.",
  ["inputs", "histories"], "all patterns of valid cells of 2x2, 3x2 and 1x5 cells in all geometries, all single cells on a lattice; histories of 4 changes with statistics after each",
  "The tests do not look at statistics.",
  ["gridnodes.c"], [("gridnodes_calcstats", "gridnodes.c"), ("dtheta", "gridnodes.c")],
  "complete enumeration; statistics recomputed independently from angles and lengths")
p("C32", "gridbathy averages the interpolated values over each cell",
  "For every valid, unmasked cell the tool gridbathy writes (two decimals, row-major order) the mean over n x n evenly spaced points of the cell of the values of the selected interpolator, NaN values being left out and values clamped to the depth range; otherwise, or if no value is left, NaN. -c selects one cell; -x interpolates in index space using only the data inside the grid; -a 4 gives the mean of the data in the cell. Interpolators are selected as documented: 0 cubic spline, 1 non-Sibsonian, 2 Sibson, 3 linear.",
  ["inputs", "configurations"], "all simply connected shapes of 3x2 cells x interpolators x spaces x types, all masks (with limits, spaces, single cells), all single cells x point numbers x ranges, all subsets of 8 data points",
  "gridbathy is not built or run by the tests here (external libraries are absent).",
  ["gridbathy.c", "gridaverager.c"], [("main", "gridbathy.c")],
  "the external interpolation libraries are replaced by closed-form stand-ins that tell the interpolators apart; everything else is the real program")
p("C33", "No invalid memory access, undefined behaviour or leak",
  "No tool, on any syntactically valid grid however small, thin, empty or gappy and any of its options, accesses memory out of bounds, uses freed or uninitialised memory in a detectable way, or has arithmetic undefined behaviour: it ends with success or with an error message. Objects of the library (grid nodes, maps, polylines, kd-trees, result sets, averagers, masks) release all their memory when destroyed, after any of their operations, and every file opened is closed.",
  ["inputs", "histories", "configurations"], "all tools x option combinations x all grid sizes up to 3x3 (thorough 6x6) with several validity patterns; life cycles of all objects for all simply connected 3x3 shapes and options",
  "Tests run without sanitizers on one grid and cannot see leaks.",
  ["gridnodes.c", "gridmap.c", "gridbmap.c", "gridkmap.c", "kdtree.c", "poly.c", "gucommon.c", "gridaverager.c"], [("gridnodes_destroy", "gridnodes.c"), ("gridbmap_destroy", "gridbmap.c"), ("kd_destroy", "kdtree.c"), ("poly_destroy", "poly.c")],
  "enumeration under AddressSanitizer and UBSan; leaks by exact byte counts over repeated life cycles")
p("C34", "Tools refuse invalid input and options with an error and no output",
  "Every tool ends with exit status 1, an error message on the standard error and no results for: missing input files, missing or invalid grid headers, grid files with too few lines, unsupported or unknown node types, DD grids of even size, missing option values, invalid masks, and (gridbathy) out-of-range settings. Called without arguments or with incomplete or unknown arguments it explains its usage instead and ends with status 0; valid input near these limits is accepted.",
  ["inputs", "configurations", "fault_sequences"], "all tools x all truncations of a grid file x comment variants x file/stdin, invalid headers, all option mistakes, all 4-line masks over an alphabet",
  "No test runs a tool on invalid input.",
  ["getnodes.c", "getbound.c", "xy2ij.c", "subgrid.c", "insertgrid.c", "setbathy.c", "gridbathy.c", "gridnodes.c", "gucommon.c"], [("gu_quit", "gucommon.c"), ("parse_commandline", "getnodes.c"), ("gridnodes_read", "gridnodes.c")],
  "complete enumeration of a fault catalogue through the real executables")
p("C35", "Histories of grid operations compose",
  "Any sequence of operations on grid nodes (validation, masks, conversions, copies, subgrids, statistics, writing and re-reading, change of map type) gives the result of the composition of the individual operations: no operation leaves hidden state behind that alters a later one, and operations that do not modify the nodes leave them unchanged.",
  ["histories"], "all histories of 4 operations from an alphabet of 16 on nine initial grids of all types",
  "Tests run one operation per process.",
  ["gridnodes.c"], [("gridnodes_transform", "gridnodes.c"), ("gridnodes_validate", "gridnodes.c"), ("gridnodes_copy", "gridnodes.c")],
  "stateless exploration of all operation sequences against a value-semantics model")
p("C36", "subgrid writes exactly the selected range of nodes",
  "The tool subgrid writes the nodes of the inclusive index ranges given by -i and -j (all, if not given), clamped to the grid, in row-major order and with the right header; invalid nodes stay invalid and no validation takes place; -x and -y select one coordinate. Ranges that do not overlap the grid are an error.",
  ["inputs", "configurations"], "all pairs of ranges around 3x2, 1x3 and 4x1 grids, extreme ranges, all output columns, stdin and files; ranges of 5x5 nodes over all sets of one or two missing nodes and all patterns in a row or column",
  "One extraction is tested.",
  ["subgrid.c", "gridnodes.c"], [("main", "subgrid.c"), ("gridnodes_subgrid", "gridnodes.c")],
  "complete enumeration of ranges through the real executable")

p("C37", "Fatal errors of the library go to the handler set by the application",
  "Every fatal error of the library (file, format, grid type, index range, option errors) calls the handler currently set with gu_setquitfn exactly once, with a message that names the offending file, value or type, and neither prints nor ends the process by itself. A handler may leave the call with longjmp; the library remains usable, errors later in the process are reported in the same way, and a handler set later replaces the one set before. Without a handler the pending standard output is kept, the message appears once on the standard error as an error, and the process ends with exit status 1.",
  ["histories", "fault_sequences"], "all pairs of 44 kinds of errors x all histories of three handlers; all errors with the default handler in three states of the process",
  "No test sets a handler or provokes more than one error in a process.",
  ["gucommon.c", "gucommon.h", "gridnodes.c", "gridmap.c", "poly.c", "kdtree.c"], [("gu_setquitfn", "gucommon.c"), ("gu_quit", "gucommon.c"), ("gu_fopen", "gucommon.c")],
  "exploration of all histories of handlers and errors within the bound; the default handler in forked processes")
p("C38", "Verbose output does not change results and counts correctly",
  "With -v every tool writes the same standard output and ends with the same exit status as without it; messages go to the standard error only, and without -v a successful run of a tool leaves the standard error empty. The numbers of non-empty nodes, of valid cells, of invalidated nodes and of masked cells that getnodes -v reports are those of the grid.",
  ["inputs", "configurations"], "all command lines of the tools x all simply connected shapes of 3x2 cells x damaged inputs, with and without -v; counts for all 3x3 patterns of all types, 5x5 double density patterns, all 3x2 masks",
  "No test uses -v.",
  ["getnodes.c", "getbound.c", "xy2ij.c", "subgrid.c", "insertgrid.c", "setbathy.c", "gridnodes.c", "gridmap.c"], [("main", "getnodes.c"), ("gridnodes_validate", "gridnodes.c"), ("gridnodes_applymask", "gridnodes.c")],
  "complete differential enumeration of command lines; counts against a set model")
p("C39", "Standard input and files are interchangeable",
  "Every tool input that may be given as a file (grid, mask, points, bathymetry) may be given as \"-\" or \"stdin\" instead, as far as the tool documents, and then has the same output and exit status as when the same contents come from a file, also for truncated or empty contents. Several inputs may come one after the other from the same standard input.",
  ["inputs", "configurations"], "all command lines x all simply connected shapes of 3x2 cells x all truncation classes of the input x file, -, stdin",
  "Tests read everything from files.",
  ["gucommon.c", "gridnodes.c", "getnodes.c", "getbound.c", "xy2ij.c", "subgrid.c", "setbathy.c", "insertgrid.c"], [("gu_fopen", "gucommon.c"), ("gridnodes_read", "gridnodes.c"), ("main", "xy2ij.c")],
  "complete differential enumeration through the real executables")

p("C40", "Options of the tools may be given in any order",
  "The output, the messages and the exit status of a tool do not depend on the order in which its options (each with its values) and its positional arguments are given, only on the order of the positional arguments among themselves. Node type names may be in upper or lower case, giving the documented default of an option explicitly is the same as leaving it out, and repeating an option with the same value changes nothing.",
  ["inputs", "configurations"], "all command lines of the tools with up to five options and arguments in all orders, with more in all exchanges, moves, rotations and reversals, x shapes of 3x2 cells x truncated inputs, with and without -v",
  "Tests use one order of options for each tool.",
  ["getnodes.c", "getbound.c", "xy2ij.c", "subgrid.c", "setbathy.c", "insertgrid.c", "gridbathy.c"], [("parse_commandline", "getnodes.c"), ("parse_commandline", "insertgrid.c"), ("parse_commandline", "xy2ij.c")],
  "complete differential enumeration of orders through the real executables")
p("C41", "The result of a run depends on options and input contents only",
  "The output and the exit status of a tool depend on its options and on the contents of its input only: not on the names, places and kinds of the input files (relative or absolute, long, with spaces, percent signs or names that resemble those of standard streams, pipes), the current directory, the environment, the time, previous contents of memory, or whether the output goes to a file or a pipe.",
  ["inputs", "configurations"], "all command lines of the tools x 41 circumstances of the run (names, places, files of the same name elsewhere, pipes, directories, environments, memory contents, times and identifiers of the process) x shapes of 3x2 cells x truncated inputs",
  "Tests run each command once in one directory and one environment.",
  ["getnodes.c", "getbound.c", "xy2ij.c", "subgrid.c", "setbathy.c", "insertgrid.c", "gridbathy.c", "gridnodes.c", "gucommon.c"], [("gridnodes_read", "gridnodes.c"), ("gu_fopen", "gucommon.c"), ("gu_readmask", "gucommon.c")],
  "complete differential enumeration of circumstances through the real executables")
p("C42", "Results are written completely or the run fails",
  "If its output cannot be written completely (the device is full, the file has reached its size limit, the output is closed, not open for writing, or a pipe that nobody reads), a tool ends with an error message and status 1; what it has written is a beginning of the complete output. If all of the output can be written, the run is as any other.",
  ["crash_points", "configurations"], "all command lines of the tools x shapes of 3x2 cells x every number of characters after which writing fails x four kinds of useless output",
  "Tests write to a working disk or pipe; a failure at one particular character of the output is never provoked.",
  ["gridnodes.c", "getbound.c", "xy2ij.c", "subgrid.c", "setbathy.c", "getnodes.c", "insertgrid.c", "gridbathy.c"], [("gridnodes_write", "gridnodes.c"), ("main", "setbathy.c"), ("main", "xy2ij.c")],
  "complete enumeration of fault points through the real executables")
p("C43", "Inputs are read to the end or the run fails",
  "If reading an input file or the standard input fails anywhere in what is needed of it, a tool ends with an error message and status 1, and what it has written is a beginning of the complete output; an error is not taken for the end of the input. The sizes of the pieces in which an input arrives do not matter.",
  ["crash_points", "inputs"], "all command lines of the tools x shapes of 3x2 cells x inputs (files and standard input) x every number of characters after which reading fails x sizes of pieces; directories as inputs",
  "Tests read from a working disk; a failure at one particular character of an input is never provoked.",
  ["gridnodes.c", "gucommon.c", "xy2ij.c", "setbathy.c", "getnodes.c", "insertgrid.c", "subgrid.c"], [("gridnodes_read", "gridnodes.c"), ("gu_readmask", "gucommon.c"), ("main", "xy2ij.c"), ("main", "setbathy.c")],
  "complete enumeration of fault points through the real executables")

P.sort(key=lambda q: q["id"])
with open(os.path.join(V, "properties.jsonl"), "w") as f:
    for q in P:
        assert len(q["title"]) <= 80, (q["id"], len(q["title"]))
        f.write(json.dumps(dict(id=q["id"], title=q["title"], statement=q["statement"], quantifier=dict(over=q["over"], text=q["text"]), why_tests_cant=q["why"], anchors=dict(files=q["files"], mechanism=[dict(name=n, where=G + w) for n, w in q["mech"]], observe_at=q["observe"] or ["public functions of the library / output of the tools"], hook_needed=None))) + "\n")
tool = {"C09", "C10", "C27", "C28", "C29", "C30", "C31", "C32", "C34", "C36", "C38", "C39", "C40", "C41", "C42", "C43"}
hist = {"C14", "C21", "C24", "C25", "C35", "C37"}
checks = []
for q in P:
    t = "stateless model checking: exhaustive exploration of operation histories of the real code against a reference model" if q["id"] in hist else "explicit enumeration of all bounded inputs and option combinations of the real executables against a reference model" if q["id"] in tool else "explicit-state bounded-exhaustive exploration of the real code against a reference model"
    checks.append(dict(property=q["id"], quick_cmd="python3 check.py %s" % q["id"], thorough_cmd="python3 check.py %s --tier thorough" % q["id"], technique=t, level="model_checking",
                       level_note="Exhaustive within the bounds in DESIGN.md (%s); %s. Trusts the reference model, the compiler and the sanitizers." % (q["text"], q["note"])))
m = dict(version=1, setup_cmd="python3 check.py --build-all", checks=checks, not_applicable=[],
         notes="No hooks in /repo. check.py builds /repo/gridutils/*.c from the working tree into /verif/build (content-addressed), explores, and writes evidence/<id>.json. gridutils has no threads and no persistent state, so schedules and crash points do not arise.")
with open(os.path.join(V, "MANIFEST.json"), "w") as f:
    json.dump(m, f, indent=1)
    f.write("\n")
