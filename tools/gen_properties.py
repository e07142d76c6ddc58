#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (the list lives here for readability)."""
import json, os
I = "include/walnut/"
S = "src/walnut/"
P = []
def p(id, title, statement, over, text, why, files, mech, observe, state=None, hook=None):
    P.append(dict(id=id, title=title, statement=statement,
                  quantifier=dict(over=over, text=text), why_tests_cant=why,
                  anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech],
                               state=state or [], observe_at=observe, hook_needed=hook)))

p("B01", "A boolean result contains exactly the points the set operation selects",
  "For every set of closed input meshes, a union, intersection or difference outputs facets whose winding number at every point in space off their surfaces is 1 where the set operation on the operands says inside and 0 elsewhere. A symmetric difference, whose facets keep the orientation they had on their operand, encloses exactly its points by parity. An operand counts as containing a point by its own winding number (1 or more for ordinary operands, 0 or more for a flipped subtrahend). The answer is exact, whatever the size of the coordinates and however the surfaces touch, overlap or coincide.",
  ["inputs", "configurations"],
  "all closed meshes with exact rational coordinates (several components, coincident, touching, nested, overlapping, non-manifold edges), any number of operands, every operation, every partitioner switch-over bound; every query point off the surfaces",
  "The tests run a few dozen hand-built pairs of boxes and wedges and count output facets; exactness must hold for every combination of coincident faces, edges and vertices and for every query point.",
  [I+"bsp_visitor.h", I+"bsp_traverser.h", I+"bsp_node.h", I+"boolean_operation_filter.h", I+"polygon_event_point.h", I+"plane_partitioner.h", I+"connecting_visitor.h"],
  [("inside/outside by pseudo winding number counting of crossed M-values", I+"bsp_node.h: PushContentsToChildren, UpdatePWN"), ("k-d then plane partitioning until leaves", I+"bsp_traverser.h"), ("filters over winding numbers", I+"bsp_visitor.h, "+I+"boolean_operation_filter.h")],
  ["polygons delivered to a collecting or connecting visitor"])
p("B02", "Boolean output is a closed, fully connected mesh of valid convex facets",
  "Every facet a boolean operation outputs is a strictly valid convex polygon lying exactly in its plane, with no vertex repeated. Every edge is linked to a partner edge of another output facet that runs between the same two points in the opposite direction, links are mutual, and no connection error is reported for closed inputs. The number of facets is never larger than before merging and no two output facets that face the same way overlap. A split recorded for an output facet, edge or vertex still exists and holds it.",
  ["inputs", "configurations"],
  "all closed operand meshes, including ones that produce non-manifold output edges, and all partitioner bounds",
  "Tests check connectivity of two or three outputs; whether pairing and merging stay consistent depends on which facets meet at each edge line, over all inputs.",
  [I+"connecting_visitor.h", I+"edge_line_connector.h", I+"connected_polygon.h", I+"convex_polygon.h"],
  [("edges bucketed by first coincident split and connected on leaving the node", I+"connecting_visitor.h: LeaveInteriorNode"), ("merging of coplanar neighbours with edge splitting", I+"convex_polygon.h: TryMergePolygon")],
  ["output polygons, their edge partners and the error log callback"])
p("B03", "Boolean results do not depend on presentation and obey set algebra",
  "The exact volume of boolean results satisfies inclusion-exclusion and the usual set identities, including absorption by empty operands. The result describes the same solid when facets are reordered, facet vertex lists rotated, facets subdivided, operands exchanged where the operation is symmetric, coordinates rescaled in homogeneous form, or the partitioning threshold changed. Mapping all operands by an invertible integer affine map multiplies the result volume by the absolute determinant.",
  ["inputs", "configurations"],
  "all operand meshes x all presentations of the same solid x all partitioner thresholds x affine maps",
  "A unit test sees one presentation of one input; this relates pairs of runs over arbitrary presentations.",
  [I+"bsp_tree.h", I+"bsp_traverser.h", I+"bsp_visitor.h", I+"boolean_operation_filter.h", I+"mesh.h"],
  [("canonical reverse-lexicographic tie breaking", I+"bsp_node.h, "+I+"bsp_edge_info.h"), ("exact arithmetic throughout", I+"big_int.h")],
  ["exact volume and membership of the output polygons"])
p("B04", "Boolean results can be used as operands of further booleans",
  "The output of a boolean operation is itself an acceptable operand: feeding outputs into further operations, to any nesting depth, yields the same solid as evaluating the whole set expression point by point on the original inputs. Subtracting a result from itself gives nothing, and uniting it with itself gives the same solid.",
  ["inputs", "histories"],
  "all expression trees over generated solids, evaluated step by step through the library",
  "Tests never feed an output back in; each nesting level yields vertices with larger exact coordinates and facets with arbitrary split history.",
  [I+"connecting_visitor.h", I+"bsp_tree.h", I+"bsp_polygon.h", I+"convex_polygon.h"],
  [("output polygons keep exact homogeneous vertices and lines", I+"convex_polygon.h"), ("edge ids reset when polygons enter a new tree", I+"bsp_tree.h, "+I+"bsp_edge_info.h")],
  ["membership and volume of chained results"])
p("B05", "Space partitioning neither loses, duplicates nor misplaces content",
  "However a partitioning tree over a set of meshes is split, every cell that no facet of a mesh passes through (facets on its border do not count) reports for that mesh exactly the winding number its interior points have. The pieces of a facet found in all cells, interior or on a border, are on the correct side of every split and together have exactly the facet's area vector and extent. Every piece records for each edge the first and last split it lies on, the last split its vertex lies on and the split that made it (none for an edge of the input).",
  ["inputs", "histories"],
  "all closed meshes x all sequences of splits by arbitrary planes (content planes, planes through edges and vertices, axis planes, generic planes) in arbitrary node order",
  "Tests apply one to three hand-chosen splits; the count depends on how each split plane meets vertices and edges of everything pushed down before.",
  [I+"bsp_node.h", I+"bsp_tree.h", I+"bsp_edge_info.h", I+"bsp_polygon.h", I+"convex_polygon.h"],
  [("pseudo winding number updates through first/last coincident edge records", I+"bsp_node.h: PushContentsToChildren, GetPWNEffectAtVertex, UpdatePWN"), ("border contents by oriented side", I+"bsp_node.h")],
  ["content info, contents and border contents of every leaf"])
p("B06", "The border computed for a tree cell is exactly that cell",
  "The border returned for a cell of a partitioning tree inside a bounding box is a closed mesh that contains a point exactly when the point is in the box and on the recorded side of every split on the cell's path. Borders of all leaves therefore tile the box: their volumes add up to the volume of the box. Without box walls, the returned facets are exactly the parts of the cell boundary that come from the splits.",
  ["inputs", "histories"],
  "all trees of generated split planes, every node path, every box that the path's planes cut, including planes coincident with box walls",
  "Tests look at single cells of tiny trees with one box; the wall handling depends on coincidences between planes and the box.",
  [I+"bsp_tree.h", I+"aabb.h", S+"aabb.cpp", I+"bsp_traverser.h"],
  [("cell re-split of box walls and plane sections", I+"bsp_tree.h: GetNodeBorder, GetNodeBorderNoBoundWalls")],
  ["returned border polygons"])
p("B07", "Membership filters compose correctly and prune soundly",
  "A filter built from any nesting of the provided membership tests (inside by count, inverted, odd) and combinators (union, intersection, difference, exclusive or, and the list versions, with any identifiers including ones that hold no content) reports inside exactly when the set expression on the winding numbers is true. When it reports that the answer can no longer change, no assignment of winding numbers to the meshes that still have content changes it, and traversing with it yields exactly the boundary of the expression. The splits recorded for the edges of collected facets hold those edges and remain available after the traversal.",
  ["inputs", "configurations"],
  "all filter expressions up to a depth, all winding-number vectors and content flags, and all meshes",
  "Tests enumerate truth tables for a handful of two-operand filters; nesting, absent ids and pruning are a product space.",
  [I+"bsp_visitor.h", I+"boolean_operation_filter.h", I+"bsp_traverser.h", I+"bsp_content_info.h"],
  [("pair (inside, may change)", I+"bsp_visitor.h"), ("early exit of traversal", I+"bsp_traverser.h")],
  ["filter results; polygons collected by the traversal"])

p("N01", "Big integer arithmetic is exact and values behave like integers",
  "Sum, difference, product, negation, absolute value, increment, decrement, fused multiply-add and multiply-subtract and their in-place forms give the mathematically exact integer for operands of every size, including when operand and destination are the same object. The result equals, hashes and compares like any other way of producing the same value. Copies and moves leave values independent and reusable.",
  ["inputs", "histories"],
  "all integers of any length, all sequences of operations on a pool of variables with aliasing",
  "Tests check chosen boundary values of single operations; carries, trimming and aliasing interact across lengths and histories.",
  [I+"big_int.h", S+"big_int.cpp", I+"big_int_words.h", I+"big_uint_word.h"],
  [("half-word fast paths, word loops with sign extension, trimming to canonical form", I+"big_int.h"), ("inline first word plus heap words", I+"big_int_words.h")],
  ["public arithmetic operators, word access, printing"])
p("N02", "Division, comparison and rational helpers are exact",
  "Quotients are rounded toward zero with the remainder carrying the dividend's sign, for operands of every size; the greatest common divisor divides both operands and every common divisor divides it. All comparison operators, with integers or machine ints, agree with the mathematical order, and rational comparison, equality, rounding up and rounding down are exact for all sign combinations of numerator and denominators.",
  ["inputs"],
  "all integer pairs and quadruples of any length with nonzero denominators",
  "Multi-word division estimates quotient digits and corrects them; wrong estimates happen on rare bit patterns no fixed test samples.",
  [I+"big_int.h", S+"big_int.cpp", I+"big_uint.h", I+"rational.h"],
  [("estimate-and-correct long division", I+"big_uint.h: DivideRemainderSlow"), ("sign handling", S+"big_int.cpp: DivideRemainderSlow"), ("rounding by sign of remainder", I+"rational.h")],
  ["public operators and helper functions"])
p("N03", "Shifts, limits, conversions and printing preserve the integer",
  "Left shifts multiply by the power of two for any amount; extreme-value constructors, unsigned magnitudes and construction from machine integers denote the integers they promise; printing gives the decimal digits. Conversion to floating point has the right sign and is within one unit in the last place of the exact value (exact when representable; an integer too large for the type becomes the infinity of its sign), and word-level primitives (carry add and subtract, wide multiply, trailing zeros, highest bit, double-word shifts) agree with wide arithmetic.",
  ["inputs"],
  "all integers, shift amounts, widths and machine words",
  "Value ranges are unbounded and each primitive has separate paths by word count and shift alignment.",
  [I+"big_int.h", S+"big_int.cpp", I+"big_uint.h", I+"big_uint_word.h", I+"big_int_words.h"],
  [("word/bit split shifts", I+"big_int.h: operator<<"), ("two or three top words to floating point", S+"big_int.cpp"), ("compiler builtins for words", I+"big_uint_word.h")],
  ["public conversion functions and stream output"])
p("N04", "Floating-point coordinates are taken over exactly or to the stated grid",
  "Decomposing any finite double gives the odd (or zero) mantissa and exponent that reproduce it exactly. A point made from doubles equals them exactly, and with a minimum exponent each coordinate is rounded to the nearest multiple of that power of two. Converting an exact point back to doubles gives, for each coordinate, the exact quotient to within rounding, and importing then exporting representable doubles is the identity.",
  ["inputs"],
  "all finite doubles of every magnitude and sign, all exponents in range",
  "A few doubles are tested; alignment of exponents and scaling depends on the relative magnitude of the three coordinates.",
  [I+"double.h", I+"homo_point3.h", S+"homo_point3.cpp", "vtk_interface/include/walnut/vtk_to_walnut_mesh.h"],
  [("frexp/scalbn decomposition", I+"double.h"), ("common exponent", S+"homo_point3.cpp: FromDoubles")],
  ["point constructors and double conversion"])

p("G01", "Geometric predicates are exact and independent of representation",
  "Side-of-plane, side-of-line, collinearity, coincidence, direction, twist, lexicographic and distance comparisons on points, vectors, lines and planes return the sign of the exact real quantity. They give the same answer for every homogeneous representation of the same objects (any positive or negative scale of a point, any positive scale of a plane or direction).",
  ["inputs"],
  "all integer coordinates of any size, all nonzero weights, degenerate configurations included",
  "Tests sample small integers; sign errors need negative weights, zero components or long coordinates in particular combinations.",
  [I+"homo_point3.h", S+"homo_point3.cpp", I+"homo_point2.h", I+"half_space3.h", I+"half_space2.h", I+"vector3.h", I+"vector2.h", I+"plucker_line.h", I+"point2.h", I+"point3.h", I+"r_transformation.h", S+"r_transformation.cpp"],
  [("signs of exact determinants with the weights' signs folded in", I+"half_space3.h, "+S+"homo_point3.cpp")],
  ["predicate return values"])
p("G02", "Constructed planes, lines and points satisfy their defining incidences",
  "A plane built from points contains them with the documented orientation, a line from points or planes lies on them with the documented direction, and the point where planes or a line and a plane meet lies on all of them; degenerate arguments are reported as invalid. Projection, negation, rotation between representations and line-plane queries are consistent with the incidences of the original objects.",
  ["inputs"],
  "all points, directions and planes with integer coordinates of any size and any weights",
  "Constructors are tested on a few axis-aligned cases; orientation and sign conventions span all octants and drop dimensions.",
  [I+"half_space3.h", S+"half_space3.cpp", I+"half_space2.h", S+"half_space2.cpp", I+"plucker_line.h", S+"plucker_line.cpp", I+"homo_point3.h"],
  [("cross and Pluecker products", S+"plucker_line.cpp, "+I+"half_space3.h")],
  ["constructed objects tested against exact incidence"])
p("G03", "Orderings of geometric objects are consistent strict orders",
  "Every ordering supplied for sorting or set membership (points, directions, planes with and without orientation) is a strict weak order whose ties are exactly the objects it promises to identify, so equal objects in different homogeneous form compare equal and different objects do not. Hashes agree with equality.",
  ["inputs"],
  "all triples of objects, including equal objects at different scale, opposite orientation, zero components",
  "Order axioms quantify over triples; tests compare a few fixed pairs.",
  [I+"half_space3.h", I+"half_space2_sideless_compare.h", I+"homo_point3.h", I+"homo_point2.h", I+"vector2.h", I+"vector3.h", I+"double_point3.h", I+"point3.h"],
  [("cross-multiplied comparisons", I+"half_space3.h: HalfSpace3Compare, "+I+"half_space2_sideless_compare.h")],
  ["comparator and hash results"])

p("P01", "Splitting a polygon partitions it exactly",
  "Classifying a convex polygon against a plane reports exactly how many vertices are on each side in which order. Splitting yields polygons whose vertices are exactly the original vertices on that side plus the exact crossing points, which lie on the plane and on the original edges; together they cover the original with no overlap, and every piece is a valid convex polygon with correct edge lines and inherited edge data.",
  ["inputs"],
  "all convex polygons of any vertex count, orientation, drop dimension and start vertex x all planes, including ones through vertices, along edges and coincident",
  "The binary searches for the crossing have many branches by polygon size, start vertex and number of coincident vertices.",
  [I+"convex_polygon.h", I+"convex_polygon_split_info.h", S+"convex_polygon_split_info.cpp", I+"aabb_convex_polygon.h", I+"bsp_polygon.h"],
  [("binary search for split boundaries", I+"convex_polygon.h: GetSplitInfo, FindSplitRanges"), ("child construction", I+"convex_polygon.h: CreateSplitChildren")],
  ["split info and child polygons"])
p("P02", "A polygon stays valid through any history of operations",
  "Through any sequence of splits, merges, inversions, rotations of the starting vertex, edge insertions and redundant-vertex removals, a polygon remains a valid convex polygon describing the region the operations imply, with exact lines, per-edge data attached to the right edges (inversion aside, which swaps vertices and lines only), and, where it maintains a bounding box, the tightest box of its vertices for its denominator.",
  ["histories"],
  "all sequences of operations from all generated polygons",
  "Each operation is tested once from a fresh polygon; index bookkeeping of the box tracker and of edge data breaks only after sequences.",
  [I+"convex_polygon.h", I+"mutable_convex_polygon.h", I+"aabb_convex_polygon.h", I+"convex_vertex_aabb_tracker.h"],
  [("index remapping of extreme vertices on split and merge", I+"convex_vertex_aabb_tracker.h"), ("vertex rotation and edge transfer", I+"convex_polygon.h")],
  ["vertices, lines, edge data, bounding box after every step"])
p("P03", "Polygon queries agree with exhaustive evaluation",
  "For every convex polygon the extreme vertices in a direction or along axes, side classification by binary search, area vector, centroid, comparison and validity results equal the values obtained by examining all vertices with exact arithmetic, for every starting hint.",
  ["inputs"],
  "all convex polygons (many vertices, collinear vertices where allowed), directions, planes and starting hints",
  "Binary searches over vertices are correct only if their unimodality reasoning holds for every polygon and hint.",
  [I+"convex_polygon.h", I+"convex_vertex_aabb_tracker.h", I+"mesh.h"],
  [("extreme vertex and split range searches", I+"convex_polygon.h: GetExtremeVertex, FindSplitRanges")],
  ["query results"])
p("P04", "Merging adjacent polygons keeps exactly their union and stays convex",
  "When two coplanar polygons that share an edge are merged the result is exactly their union, convex, with every remaining edge carrying the data and partner it had, and neighbours of the merged polygons still linked to the right edges. When a merge is declined both polygons are unchanged, and it is declined when the union is not convex.",
  ["inputs", "histories"],
  "all pairs and tilings of coplanar convex polygons sharing all or part of an edge, in every start-vertex order",
  "Tests merge a few squares and triangles; collinear edge absorption and split edges depend on the angles at both ends.",
  [I+"convex_polygon.h", I+"connected_polygon.h", I+"convex_polygon_edge.h"],
  [("endpoint angle tests and edge splicing", I+"convex_polygon.h: TryMergePolygon"), ("partner reassignment", I+"connected_polygon.h")],
  ["merged polygon, neighbours' links"])
p("P05", "Bounding boxes are exact and clip planes exactly",
  "A bounding box grown from any points is the tightest box with its denominator, and rational rounding is exact; containment, interior and intersection tests agree with exact comparison of bounds. The wall facets of a box form its closed boundary with outward normals, and its section with any plane is exactly the convex polygon of points of the plane inside the box (empty when there is no proper section).",
  ["inputs"],
  "all rational boxes of positive or zero extent, all planes including ones through corners and along faces",
  "Corner enumeration and denominators are tested on integer boxes and axis planes; the section has many degenerate cases.",
  [I+"aabb.h", S+"aabb.cpp", I+"convex_vertex_aabb_tracker.h"],
  [("rounding to a common denominator", I+"aabb.h"), ("section by clipping a large facet", S+"aabb.cpp: IntersectPlane")],
  ["box bounds, predicates, wall and section polygons"])

p("F01", "Decomposition of planar facets covers them exactly with convex pieces",
  "Decomposing any planar point list, convex or not, self-touching or self-crossing, collinear runs included, yields convex polygons of consistent orientation whose signed winding number at every point equals that of the closed input path, each piece using only input points, in the plane and orientation of the input. Degenerate (zero-area) lists yield nothing or only pieces that cancel, never a crash.",
  ["inputs"],
  "all closed planar point lists of any length in any plane (3D homogeneous coordinates), simple or not",
  "The monotone decomposition is tested on a few dozen shapes; chain merging depends on the order of all turns.",
  [I+"convex_polygon_factory.h", I+"monotone_decomposer.h", I+"orienting_monotone_decomposer.h", I+"monotone_range.h", I+"monotone_triangulator.h", I+"planar_range.h"],
  [("split into monotone ranges then reflex/convex chain decomposition", I+"orienting_monotone_decomposer.h, "+I+"monotone_decomposer.h")],
  ["polygons emitted by the factory"])
p("F02", "Extrusion and mesh measures are exact",
  "Extruding a planar outline whose normal points away from the direction yields a closed mesh with outward facets that contains exactly the swept points (inside out if the normal points along the direction; overlapping outlines keep their winding number; no volume if the direction lies in the plane). The top point, the farthest vertex in a direction and the centroid of the enclosed solid reported for a mesh equal their exact values, whatever the facet order and the homogeneous form of the vertices.",
  ["inputs"],
  "all simple planar polygons and extrusion heights, all closed meshes with rational vertices",
  "Measures are tested on a box or two; exactness must survive all orientations, weights and non-convex shapes.",
  [I+"extrude.h", S+"extrude.cpp", I+"mesh.h"],
  [("side quads plus flipped copy", S+"extrude.cpp"), ("divergence-theorem sums with common denominators", I+"mesh.h")],
  ["extruded polygons; measure functions"])
p("F03", "Facets that are not planar are split into planar ones without changing their rim",
  "A closed point list that is not planar is divided into consecutive planar runs and remainders so that the emitted polygons are each exactly planar and convex, use only input vertices, and together have exactly the input loop as boundary. A closed surface made of such facets therefore stays closed.",
  ["inputs"],
  "all closed 3D point lists (planar runs of any length, repeated points, collinear starts)",
  "Where planarity ends depends on every prefix of the list; tests use a few quads.",
  [I+"convex_polygon_factory.h", I+"planar_range.h", I+"orienting_monotone_decomposer.h"],
  [("maximal planar prefix", I+"planar_range.h"), ("remaining points loop", I+"convex_polygon_factory.h")],
  ["emitted polygons and their boundary"])
p("F04", "Plane repair returns exactly planar facets with topology preserved",
  "Given facets that are only approximately planar, repair returns facets that each lie exactly in one plane. Facets keep their cyclic order of vertex identities, so facets that shared a vertex still meet at exactly the same point; a facet that is over-constrained, or whose plane has large coefficients, is divided along diagonals. Vertices that already lie in the planes of all their facets are not moved (nothing moves if every facet was planar); a moved vertex is projected onto its plane, or onto the line or point where its planes meet.",
  ["inputs"],
  "all lists of facets of three or more vertices not all on a line, perturbed arbitrarily, in any insertion order and homogeneous form, as long as the distinct planes chosen at a vertex are not parallel or of one direction",
  "Which vertex determines which plane depends on processing order; tests run a cube and one or two perturbed shapes.",
  [I+"mesh_plane_repairer.h", S+"mesh_plane_repairer.cpp", I+"nudging_plane_builder.h", S+"nudging_plane_builder.cpp"],
  [("facet and vertex queues by degrees of freedom", S+"mesh_plane_repairer.cpp"), ("constrained plane choice", S+"nudging_plane_builder.cpp")],
  ["repaired vertices and facets"])
p("F05", "A plane fitted to fixed and free vertices contains every fixed one",
  "A plane builder fed with fixed and free vertices in any order accepts a fixed vertex unless the fixed vertices before it already determine a plane that misses it. The plane it builds contains every accepted fixed vertex, runs through three of the given vertices that are not on a line, and faces the side from which these three are seen counter-clockwise in the order they were added. Asking for the plane or its size in between, or copying the builder, changes nothing, and a plane is reported as large exactly when a coefficient exceeds half a word.",
  ["inputs", "histories"],
  "all sequences of fixed and free vertices that are not all on a line, with repeated and collinear ones, and queries in between",
  "The tests use three or four vertices in general position.",
  [I+"nudging_plane_builder.h", S+"nudging_plane_builder.cpp"],
  [("choice of three independent vertices", S+"nudging_plane_builder.cpp: SelectVertices"), ("kept plane dropped when a fixed vertex is added", I+"nudging_plane_builder.h: TryAddConstrained")],
  ["built plane, return values"])

p("C01", "Sweep-event partitioning divides content exactly and its estimates are exact",
  "For any set of facets and any dimension the list of box starts and ends is sorted by position and every start comes before its own end. The chosen partition's counts of facets before, after and crossing the position equal a direct count (facets lying in the border not counted as crossing), and no other end position has lower cost by the stated cost function, whose m log n estimate is within 1 + 3.3% of the exact value for m up to 4n. Splitting the lists by a partition leaves each side with exactly the events of the pieces on that side, correct indices and edge marks, still sorted, and this stays true when repeated until nothing can be partitioned.",
  ["inputs", "histories"],
  "all multisets of facets with rational bounds (ties, zero width, nesting) and repeated partitioning to exhaustion",
  "Tests build a few intervals; ties of starts and ends at equal coordinates have many orders.",
  [I+"polygon_event_point.h", I+"aabb_convex_polygon.h", I+"m_log_n_estimator.h", S+"m_log_n_estimator.cpp"],
  [("merge-based sorting of events and index remapping", I+"polygon_event_point.h")],
  ["chosen partition, counts and remaining event lists"])
p("C02", "Edges meeting on a line are paired so that facets bound solid wedges",
  "Given the edges of a closed surface that lie on one line, connecting them pairs every edge with edges running the other way so that the solid between the paired facets is either all inside or all outside, splitting edges where only part overlaps. Pairings are mutual, cover each edge completely, do not depend on input order. An error is reported whenever the edges running either way differ in number somewhere on the line (open surface), and never when the facets alternate around the whole line.",
  ["inputs"],
  "all sets of directed edges on a line with facets at arbitrary angles, overlapping intervals, any order and any line direction",
  "Angular order around a line with overlapping intervals is combinatorial; tests connect up to six edges.",
  [I+"edge_line_connector.h", I+"connecting_visitor.h"],
  [("sweep along the line with edges sorted by angle", I+"edge_line_connector.h")],
  ["partners after connecting; error callback"])
p("C03", "Facets lying in one wall of a cell are divided and peeled off exactly",
  "Given any coplanar convex facets in one wall of a cell, the winding numbers on the inner side and any filter, the plane partitioner passes on pieces such that at every point of the wall off the facets' edge lines the number of pieces is odd exactly when the filter tells the inner side from the outer side (inner winding numbers changed by each covering facet). No more pieces of an id and orientation cover a point than facets do; every piece is a valid part of a facet of its id facing the same way. Nodes entered are left again in order, their planes run along facet edges, and every piece lies on one side of each of them and records correctly which planes its edges and vertices lie on.",
  ["inputs", "histories"],
  "all lists of coplanar facets (overlapping, equal, nested, opposite, cut by earlier planes), all winding numbers and filters, with a partitioner used repeatedly",
  "Tests partition a few rectangles; which facets cover which region after a sequence of cuts is combinatorial.",
  [I+"plane_partitioner.h", I+"bsp_traverser.h", I+"bsp_visitor.h"],
  [("2D partition along unsplit edges", I+"plane_partitioner.h: Run"), ("peeling in a leaf", I+"plane_partitioner.h: ProcessLeaf")],
  ["pieces passed to the visitor, nodes entered and left"])
p("C04", "Exact vertices of linked facets map consistently to doubles",
  "Every exact vertex is mapped to doubles within rounding distance of its true position. Once every edge of a set of linked facets has been visited, in any order, all edges that start at one vertex and are linked around it are mapped to one shared value whatever homogeneous form each facet uses for that vertex. Vertices that are different points in space and round differently are not merged.",
  ["inputs", "histories"],
  "all linked meshes with exact vertices in arbitrary homogeneous forms (several double roundings per vertex), all visiting orders",
  "Tests use one vertex with two forms; merging more than two roundings depends on visiting order.",
  [I+"vertex_double_point3_mapper.h", I+"redirectable_value.h", I+"double_point3.h", I+"homo_point3.h"],
  [("map from rounded point to redirectable value, merged around each vertex", I+"vertex_double_point3_mapper.h: Map")],
  ["map entries after visiting all edges"])
p("C05", "Utility containers behave like their simple models",
  "A range concatenated from pieces and iterated in any direction, a transforming iterator under any steps and offsets, redirectable values under any sequence of copying, redirecting, writing and destruction, and ownership deeds under any sequence of lending, moving, returning and destruction of deeds and objects always show what a straightforward model of the same operations shows. Redirecting an entry takes all entries that share its value along; a redirected value is destroyed exactly once. Deed and object never end up pointing at anything but each other.",
  ["histories"],
  "all operation sequences over pools of these objects, including moves, self-moves and destruction in any order",
  "Tests are single scenarios of two or three steps.",
  [I+"concat_range.h", I+"redirectable_value.h", I+"deed.h", I+"transform_iterator.h"],
  [("owner back pointers", I+"deed.h"), ("path compression", I+"redirectable_value.h")],
  ["contents seen through the public accessors"])
p("C06", "Connected facets stay correctly linked while being moved and edited",
  "However connected polygons are moved within and between containers, merged, or have edges split, every link still refers to an existing edge whose link refers back, and it joins the same stretch of the line in opposite directions. Moving or merging a polygon never leaves a neighbour with a dangling link.",
  ["histories"],
  "all sequences of container growth, moves, merges and edge splits over generated connected meshes",
  "Dangling or stale links arise only from histories of several operations; tests do one operation.",
  [I+"connected_polygon.h", I+"deed.h", I+"convex_polygon_edge.h", I+"edge_info_root.h"],
  [("edge move constructors fix partner lists", I+"connected_polygon.h"), ("deeds track moved edges", I+"deed.h")],
  ["links between edges after every step"])

p("V01", "The VTK boolean filter computes the requested set operation end to end",
  "For any closed polygonal datasets on its inputs, the filter's output dataset encloses exactly the union, intersection or difference of the inputs (first minus all others) after coordinates are rounded as requested, is closed with outward facets, and reports its output points within rounding of the exact result. Changing the operation or inputs and updating again gives the new result.",
  ["inputs", "histories", "configurations"],
  "all closed polydata inputs (polygons and strips, several connections), operations and minimum exponents, repeated updates",
  "There is no test of the VTK layer at all.",
  ["vtk_interface/src/vtkWalnutBooleanFilter.cpp", "vtk_interface/include/walnut/vtkWalnutBooleanFilter.h", "vtk_interface/include/walnut/vtk_to_walnut_mesh.h", "vtk_interface/include/walnut/walnut_to_vtk_mesh.h"],
  [("import, tree, connecting visitor, export", "vtk_interface/src/vtkWalnutBooleanFilter.cpp: RequestData")],
  ["output polydata"])
p("V02", "Importing polydata yields the same surface, quantised and flipped as asked",
  "Importing a dataset of polygons and triangle strips yields facets that describe exactly the dataset's oriented surface: every cell contributes with its own orientation (alternating along strips), coordinates are exact or rounded to the requested power of two, and asking for the flipped surface reverses every facet.",
  ["inputs"],
  "all polydata with polygons of any length and strips of any length, all exponents, both flips",
  "There is no test of the VTK layer at all.",
  ["vtk_interface/include/walnut/vtk_to_walnut_mesh.h"],
  [("per-cell polygon factory, strip unrolling", "vtk_interface/include/walnut/vtk_to_walnut_mesh.h")],
  ["facets produced by the import"])
p("V03", "Exporting facets to polydata keeps every facet and shared vertex",
  "Exporting facets writes exactly one cell per facet with its vertices in order within rounding of their exact position, sharing one point among all facets that use the same exact vertex, and re-importing a dataset whose vertices are representable gives back the same surface.",
  ["inputs"],
  "all facet lists with rational vertices",
  "There is no test of the VTK layer at all.",
  ["vtk_interface/include/walnut/walnut_to_vtk_mesh.h", I+"vertex_double_point3_mapper.h"],
  [("point and cell arrays", "vtk_interface/include/walnut/walnut_to_vtk_mesh.h")],
  ["exported polydata"])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for q in P:
        assert len(q["title"]) <= 80, (q["id"], len(q["title"]))
        f.write(json.dumps(q) + "\n")
