"""The one table from which properties.jsonl and MANIFEST.json are written (tools/gen.py)."""

TECH = "deterministic simulation with fault injection (seeded schedules, heap residue and faults)"

P = []


def prop(id, title, statement, over, text, why, files, mechanism, state=(), observe=(), level_note=None, na=None):
    P.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files,
                  mechanism=mechanism, state=state, observe=observe, level_note=level_note, na=na))



prop("C01", "A curve always answers from its current state, whatever happened before",
     "After any history of edits to a NURBS curve (control points, weights, knots, degree, knot insertion, normalisation, opening and closing), with reads at any point in between, every answer the curve gives - evaluation through each entry point, derivatives, interval, bounding box, Greville abscissae, hash and equality - is the one its current control points, weights, degree and knots define; nothing computed for an earlier state survives an edit. "
     "An edit takes effect as a whole or not at all: when it is refused (wrong shape, knot outside the domain, too high a multiplicity) or fails part-way, for instance because memory runs out, the exception reaches the caller and the curve is exactly what it was before.",
     ["histories", "fault_sequences", "inputs"], "every interleaving of reads and edits on open, weighted and periodic curves; every array allocation inside an edit as a fault point; every kind of refused edit",
     "Staleness needs a read, an edit and the same read again in the right order, and half-done edits need a failure at one particular allocation; tests sample neither.",
     ["mmcore/geom/nurbs.pyx", "mmcore/geom/parametric.pyx"],
     [{"name": "point cache, its invalidation, and derived fields (interval, Greville abscissae)", "where": "mmcore/geom/nurbs.pyx NURBSCurve._evaluate_cached, knots_update_hook, setters"}],
     observe=["evaluate, evaluate_multi, points, call, derivatives, interval, bbox, greville_abscissae, hash, == after each operation"])

prop("C02", "Curves share no state with copies, derived curves or the callers' arrays",
     "A curve changes only through operations on that very curve. Copies (copy, copy.copy, deepcopy, pickling, serialization) and derived curves (splits, trims, reversals, flips, decompositions, elevations, joins) are independent of their source in both directions: editing one, or a failure while editing one, never changes what another reports or evaluates to, and a copy starts equal to its source. "
     "Arrays the caller passes in are never modified and may be overwritten afterwards without effect; arrays the curve hands out may be overwritten by the caller without changing any later answer.",
     ["histories", "fault_sequences"], "every history of copying, deriving, editing and caller-side overwriting over a pool of curves, with allocation failures inside operations",
     "Sharing shows only when one holder is changed and another one read later; tests look at one object at a time.",
     ["mmcore/geom/nurbs.pyx", "mmcore/geom/curves/knot.py"],
     [{"name": "copying of arrays at every boundary of the class, and cached points handed out", "where": "mmcore/geom/nurbs.pyx NURBSCurve ctor, setters, getters, copy, __reduce__, evaluate"}],
     observe=["every curve of the pool and every array of the callers after each operation"])

prop("C03", "Reshaping a curve never moves its points",
     "Knot insertion, knot normalisation, splitting, decomposing, trimming, reversing, flipping, degree elevation and joining, in any order and on curves that earlier steps produced, keep the geometry: the result goes through the same points as its source at corresponding parameters, for polynomial and weighted curves alike and for cuts at and between existing knots. "
     "The pieces of a split or decomposition cover exactly the source's domain in order, with the parameters of the source; an elevated curve has the requested degree; a joined curve runs through both curves one after the other whichever of their ends meet.",
     ["histories", "inputs"], "every chain of reshaping operations over every degree, knot multiplicity, weight pattern and cut position",
     "The errors sit in combinations (weights with repeated knots, a cut at a knot, a trim of a split of an elevation) that a sampled test does not form.",
     ["mmcore/geom/nurbs.pyx", "mmcore/geom/curves/knot.py"],
     [{"name": "knot insertion, splitting, trimming, degree elevation", "where": "mmcore/geom/nurbs.pyx insert_knot, split_curve, split_curve2, trim, decompose_curve, reverse_curve; mmcore/geom/curves/knot.py degree_elevate_curve, join_two_curves"}],
     observe=["points of source and result at corresponding parameters, domains, degree and knots"])

prop("C04", "A surface answers from its current state and shares it with nobody",
     "After any history of edits to NURBS surfaces (knots, degree, knot insertion, normalisation), refused edits and edits that fail because memory runs out, every answer of a surface - evaluation, interval, control points in each form, bounding box, hash and equality - is the one its current control points, degrees and knots define, and a failed edit leaves it as it was. "
     "Copies, pickles and pieces are independent of their source; arrays passed in are never modified and not referred to later; a view of the control points taken at any time keeps showing the points it was taken of, even after the surface was changed or deleted.",
     ["histories", "fault_sequences"], "every history of edits, copies, deletions and caller-side overwriting over a pool of surfaces, with allocation failures inside operations and a heap that poisons freed memory",
     "Dangling views and shared arrays show only after a later edit or deletion, and only under an allocator that reuses or poisons the memory; tests do neither.",
     ["mmcore/geom/nurbs.pyx", "mmcore/geom/parametric.pyx"],
     [{"name": "ownership of the control point memory and of the knot vectors", "where": "mmcore/geom/nurbs.pyx NURBSSurface ctor, create, copy, insert_knot_u/v, setters"}],
     observe=["all surfaces, arrays and views after each operation", "heap audit at the end of each run"])

prop("C05", "Reshaping a surface, or taking curves from it, never moves its points",
     "Knot insertion in either direction, normalisation, splitting, subdividing and decomposing, in any order and on surfaces that earlier steps produced, keep the geometry of polynomial and weighted surfaces: the result goes through the same points at the corresponding parameters and the pieces cover exactly the source's domain. "
     "Isocurves and boundary curves lie on the surface at the requested parameter with the surface's own parameters, and a surface ruled between two curves passes through both, without changing them.",
     ["histories", "inputs"], "every chain of reshaping operations over every pair of degrees, knot multiplicities, weights and cut positions",
     "As for curves, the errors sit in combinations of weights, repeated knots and previous operations.",
     ["mmcore/geom/nurbs.pyx", "mmcore/construction/ruled.py", "mmcore/numeric/intersection/ssx/boundary_intersection.py"],
     [{"name": "knot insertion and splitting in u and v, isocurve extraction, ruling", "where": "mmcore/geom/nurbs.pyx insert_knot_u/v, split_surface_u/v, subdivide_surface, decompose_surface; boundary_intersection.extract_isocurve; construction/ruled.py"}],
     observe=["points of source and result at corresponding parameters, domains and piece counts"])

prop("C06", "Saved curves and surfaces come back exactly, bytes decided by state alone",
     "A curve that is serialized or pickled, or a surface that is pickled, comes back with exactly the same degree, control points, weights, knots, interval and period flag, bit for bit, for every double a caller can store. "
     "Saving does not change the object, and the bytes written depend on the object's state alone: not on what memory held before, on how the object came about, or on what else was saved; when saving fails because memory runs out the object is unchanged.",
     ["inputs", "histories", "fault_sequences"], "every state reachable by edits, including periodic and weighted curves and extreme doubles; every residue of uninitialised memory; allocation failures while saving and loading",
     "Uninitialised bytes and lost bits depend on the memory a run happens to get; a test sees zeros.",
     ["mmcore/geom/nurbs.pyx"],
     [{"name": "binary layout and pickling state", "where": "mmcore/geom/nurbs.pyx NURBSCurve.cserialize, cdeserialize, __reduce__, __getstate__, __setstate__"}],
     observe=["bytes of repeated saves", "state after loading"])

prop("C07", "Torn or damaged curve data is refused, never misread out of bounds",
     "Deserializing bytes that were truncated at any point, had any bits flipped, bytes inserted, deleted or replaced, or blocks lost, repeated or mixed with another record, either raises ValueError or returns a curve whose degree, control points and knots belong together and are those the bytes spell out; it never reads or writes outside the data, crashes, hangs or exhausts memory. "
     "Undamaged data next to damaged data reads back exactly.",
     ["fault_sequences", "inputs"], "every truncation point and every damage of the stored bytes, with every header field set to boundary values",
     "Reading beyond a buffer usually returns something plausible in a test; it takes a guarded heap and every cut position to see it.",
     ["mmcore/geom/nurbs.pyx"], [{"name": "validation of header and length before copying", "where": "mmcore/geom/nurbs.pyx NURBSCurve.cdeserialize"}],
     observe=["outcome of deserialize", "heap audit"])

prop("C08", "Sweep-line segment intersection is exact in any interleaving",
     "For segments that do not overlap along a line, the sweep-line search reports for every segment exactly the points strictly inside it where it meets other segments - crossings, crossings of many segments at once, and places where another segment starts or ends on it - each once, in order from its start to its end. "
     "The answer does not depend on the coin flips of the skip lists, on sweeps done earlier or aborted half-way, or on sweeps running at the same time in other threads, and the caller's segments are unchanged.",
     ["schedules", "inputs", "fault_sequences"], "every interleaving of concurrent sweeps at the level of Python lines, every outcome of the coin flips, an interrupt at every point of one of them, over grids, stars, combs, lattices and random segments",
     "Results depend on coin flips and on state that sweeps may share, which a single test run cannot vary; the tests do not touch the sweep.",
     ["mmcore/numeric/algorithms/sweep_line/sweep_intersector.py", "mmcore/numeric/algorithms/sweep_line/segment.py"],
     [{"name": "event queue, status structure and the sweep point segments are ordered by", "where": "mmcore/numeric/algorithms/sweep_line SweepIntersector.findIntersections, Segment.compare"}],
     observe=["result of each concurrent sweep against exact rational arithmetic"])

prop("C09", "Geometry queries answer the same whoever else asks, and change nothing",
     "Asked about the same shapes, a geometry query gives the true answer, every time and whatever else is going on. Separation of point sets (GJK), crossings of a curve with a plane, an axis, a sphere or an implicit form, with another curve and with a surface, closest points on a curve, point inversion on curves and surfaces, the closest pair among points, line, ray, triangle and box tests and the bounds of a curve: reported answers lie where they say, well separated crossings are all found, shapes that do not meet give none, and parameters stay inside their domain. "
     "The answer is bit for bit the same when repeated, after another query failed half-way (the error of a caller's function reaches the caller), and while other threads ask about the same shapes; no query changes a shape or an array it was given.",
     ["inputs", "histories", "schedules", "fault_sequences"], "every shape in the sampled families, every call of a caller's function and every allocation as a fault point, every order and interleaving of queries over shared shapes",
     "Shared scratch, shapes split or normalised in place, and answers lost after the first hit or next to a step need particular inputs, a second question or a second thread; the tests ask a few fixed ones once.",
     ["mmcore/numeric/algorithms/_gjk.cpp", "mmcore/numeric/algorithms/gjk.py", "mmcore/numeric/intersection/ccx/ccx.py", "mmcore/numeric/intersection/csx/_ncsx.py", "mmcore/numeric/intersection/separability/spherical.py", "mmcore/numeric/algorithms/point_inversion.py", "mmcore/numeric/closest_point.py", "mmcore/numeric/algorithms/moller.pyx", "mmcore/numeric/_aabb.pyx", "mmcore/numeric/aabb.py", "mmcore/numeric/divide_and_conquer.py"],
     [{"name": "subdivision and separation of shared shapes, iteration state, root scans over steps", "where": "mmcore/numeric/intersection/csx/_ncsx.py NURBSCurveSurfaceIntersector; mmcore/numeric/algorithms/_gjk.cpp; mmcore/numeric/intersection/ccx/ccx.py curve_pix, curve_ppx; mmcore/numeric/closest_point.py"}],
     observe=["each answer against independent evaluation and against the same query made alone", "the shapes and arrays after each query", "the exception out of each failing query"])

prop("C10", "Numerical solvers answer truly, each call by itself, and pass errors on",
     "For smooth functions of the caller, finite-difference gradients, Hessians and curve derivatives agree with the exact ones; Newton, bounded Newton and line-search solvers that report success stand at the stationary point or root, bounded ones never outside their bounds; one- and two-dimensional divide-and-conquer minimisation, root scans and bisection find the minimum or the sign change within their tolerance; quadrature, arc length, the parameter at an arc length and antiderivatives agree with the integral; points moved onto an implicit curve, surface or intersection, and points traced along one, lie on it. "
     "No solver modifies the arguments it is given, an exception raised by the caller's function reaches the caller unchanged, and a call gives bit for bit the same answer when repeated, after another call failed half-way, and while other calls run at the same time.",
     ["inputs", "histories", "schedules", "fault_sequences"], "every smooth function and start value in the sampled families, every call of the caller's function and every allocation as a fault point, every order and interleaving of calls",
     "Shared scratch space, arguments overwritten in place and swallowed errors show only in the second call, in a call after a failure or beside another call; the tests call each solver once.",
     ["mmcore/numeric/fdm.py", "mmcore/numeric/newton/cnewton.pyx", "mmcore/numeric/divide_and_conquer.py", "mmcore/numeric/bisection.py", "mmcore/numeric/integrate/romberg.py", "mmcore/numeric/numeric.py", "mmcore/numeric/prime.py", "mmcore/numeric/algorithms/implicit_point.py", "mmcore/numeric/marching.py"],
     [{"name": "iteration state and work arrays, convergence tests, callbacks into the caller's code", "where": "mmcore/numeric/newton/cnewton.pyx newtons_method, newton_method2, bounded_newtons_method; mmcore/numeric/algorithms/implicit_point.py; mmcore/numeric/fdm.py"}],
     observe=["the answer of every call against closed formulas and against the same call made alone", "the arguments after each call", "the exception that comes out of each failing call"])

prop("C11", "A STEP file holds exactly what was added, however writers are used",
     "The file a STEP writer produces is complete and consistent - every entity once, every reference resolved - and holds each added point, direction, curve, edge and surface exactly: coordinates, degree, knots with multiplicities, weights, end points, boundary edges, name and colour. "
     "This holds when several writers work at the same time, when several threads add to one writer, after refused additions, after additions stopped by an interrupt or by lack of memory, and after writing to a stream that failed: the failure reaches the caller and the next write gives the whole file. The bytes depend only on what was added, and the geometry is not changed by writing it.",
     ["schedules", "fault_sequences", "histories"], "every interleaving of writers and of threads adding to one writer; a stream that fails or stops short at any write; an interrupt or a failed allocation at any point of an addition",
     "Consistency after a failure or under interleaving depends on where exactly it strikes; no test of the repository writes a STEP file.",
     ["mmcore/compat/step/step_writer.py"], [{"name": "reference numbering and entity table", "where": "mmcore/compat/step/step_writer.py StepWriter.next_ref, add_entity, add_complex_entity"}],
     observe=["written text, parsed back by an independent reader"])

prop("C12", "Implicit shapes, booleans and cell trees answer for their current state",
     "After any history of edits (origin, radius, ends) a sphere, cylinder, tube or user-written implicit shape, and every union, intersection and difference of such shapes at any depth, gives the signed value, the gradient direction, the inside test and the bounding box that its current parameters define (union: minimum, intersection: maximum, a - b: a without b), for one point or many; a parametric cylinder's points lie on its implicit form. Cell trees list every cell of the grid exactly once, as full, empty or border by the signs at its corners. "
     "Arrays handed in or out may be overwritten by the caller without changing any answer; a user shape that raises lets that exception out, and leaves no half-built tree or other trace; answers given to several threads at once are each those of a state the shape was in during the call.",
     ["histories", "schedules", "fault_sequences", "inputs"], "every history of edits and questions over trees of shapes, every call of a user's shape as a fault point, every interleaving of questions with edits",
     "Stale boxes, shared arrays and half-built trees need an edit, a failure or a second thread between two questions; the tests ask one fixed pair of pipes.",
     ["mmcore/geom/primitives.pyx", "mmcore/geom/implicit/implicit.py", "mmcore/geom/implicit/tree/tree2d.py", "mmcore/geom/implicit/tree/tree3d.py", "mmcore/geom/implicit/tree/collapse3d.py", "mmcore/geom/implicit/tree/collapse2d.py", "mmcore/geom/implicit/tree/cbuild_tree3d.pyx", "mmcore/geom/circle.py"],
     [{"name": "derived boxes, frames and directions after edits; min/max composition; classification of cells", "where": "mmcore/geom/primitives.pyx setters, cylinder_aabb, Cylinder; mmcore/geom/implicit/implicit.py Union3D, Intersection3D, Sub3D, build_tree"}],
     observe=["implicit, call, gradient, bounds, point_inside, evaluate, interval, properties and astuple, cells of the tree after each operation"])

prop("C13", "Sorted sequences keep their order under any history and coin flips",
     "After any history of insertions, replacements, deletions by key or node, positional insertions and reversals, the skip-list based sorted sequence holds exactly the keys a sorted list would, each with the value last given, linked consistently forwards and backwards, and lookup, locate, predecessor, successor and minimum answer accordingly; the event queue yields its entries in order of priority, each once. "
     "The outcome never depends on the random heights, sequences used in different threads do not affect each other, and an operation whose key comparison raises changes nothing.",
     ["histories", "schedules", "fault_sequences"], "every history of operations under every outcome of the coin flips, every comparison as a fault point, and every interleaving of histories on separate sequences",
     "Depends on the whole history and on random heights; the tests do not touch these containers.",
     ["mmcore/numeric/algorithms/sweep_line/skiplist.py", "mmcore/numeric/algorithms/sweep_line/sortseq.py", "mmcore/numeric/algorithms/sweep_line/priority_queue.py"],
     [{"name": "linking of nodes on all levels", "where": "mmcore/numeric/algorithms/sweep_line/skiplist.py SkipList._insert, _remove; sortseq.py delItem, insertAt, reverseItems"}],
     observe=["forward and backward walks, length, lookups after each operation"])

prop("C14", "The AVL tree is an ordered map under any history, with balance kept",
     "After any sequence of assignments, deletions and lookups the AVL tree holds exactly the keys a plain map would hold, each once and each with the data last assigned to it, traverses them in key order, and every lookup answers accordingly. "
     "At every node the heights of the two subtrees differ by at most one and the recorded height is the real one. "
     "An operation whose key comparison raises lets that exception out and leaves the contents as they were before it.",
     ["histories", "fault_sequences"], "every history of assign/delete/lookup over every key set; every comparison of every operation as a fault point",
     "Quantifies over histories and over points at which user code inside the container fails; the tests of the repository do not touch this container.",
     ["mmcore/ds/tree/avl.py"],
     [{"name": "rotations and rebalancing on insert and delete", "where": "mmcore/ds/tree/avl.py AVL.insert, AVL.delete, AVL.rebalance"}],
     observe=["inorder traversal, search, height after each operation"])

prop("C15", "k-d tree searches are exact after any edit history",
     "After any history of building, inserting and deleting points, the balanced k-d tree contains exactly the points (with multiplicity) a plain list would, and its nearest and k-nearest searches return points at exactly the distances a brute-force scan finds. "
     "Building a tree does not reorder or alter the caller's own point list, recorded subtree sizes are the real ones, and a point of the wrong dimension is refused with the tree unchanged.",
     ["histories", "inputs"], "every history of builds, insertions, deletions and searches, including equal coordinates and ties, with rejected operations in between",
     "Search correctness depends on the whole edit history and on ties; the existing tests do not edit a tree.",
     ["mmcore/ds/bkdtree.py"], [{"name": "splitting order, size bookkeeping, rebuilds and pruning of the far side", "where": "mmcore/ds/bkdtree.py BalancedKDTree"}],
     observe=["nearest_neighbor, k_nearest_neighbors and the stored points after each operation"])

prop("C16", "R-tree searches are complete after any insertion history",
     "After any sequence of insertions into the R-tree of boxes or rectangles, a search returns exactly the stored objects whose own extents touch the query, each once, and the caller's boxes are unchanged. "
     "An insertion whose box computation raises lets the failure out and never loses or duplicates an object inserted before.",
     ["histories", "inputs", "fault_sequences"], "every insertion order, node capacity and query; every box union computed during an insertion as a fault point",
     "Completeness depends on the order of insertions and on splits at every level, which the tests do not reach.",
     ["mmcore/ds/tree/rtree.py"], [{"name": "box enlargement along the insertion path and node splits", "where": "mmcore/ds/tree/rtree.py RStarTree"}],
     observe=["search after each insertion"])

prop("C17", "The circular doubly linked list equals a plain list under any history",
     "After any sequence of appends, insertions, removals, replacements, assignments and reads, with or without user hooks that fail in the middle, the circular list holds exactly the elements a plain list would, in that order, linked consistently in both directions and closed on itself, with a length that agrees. "
     "Positions outside the list and absent values are refused with ValueError and change nothing.",
     ["histories", "fault_sequences"], "every history of list operations; every hook invocation as a fault point",
     "Link consistency depends on the order of operations and on hooks failing in the middle; no test covers this container.",
     ["mmcore/ds/cdll/cdll.py"], [{"name": "relinking of neighbours and head, length bookkeeping", "where": "mmcore/ds/cdll/cdll.py CDLL"}],
     observe=["forward and backward walks, len, iteration after each operation"])

prop("C21", "A bounding-volume hierarchy finds what a scan of all objects finds",
     "Whatever objects a bounding-volume hierarchy is built from, in whatever order and with however many objects per leaf, it holds each of them exactly once, and the searches by box, point, second hierarchy, segment and ray report exactly the objects that a test of every object reports, each once, flat and axis-aligned objects included; hits along a ray come in order of distance and lie on the triangle reported. "
     "Building and searching modify neither the caller's list nor the objects nor the tree: searches by several threads at the same time, or after another search was interrupted, answer as if alone. Boxes made by splitting, expanding, merging and intersecting are consistent in all they report (corners, center, size, volume, array form).",
     ["histories", "schedules", "fault_sequences", "inputs"], "every set of triangles (flat, axis-aligned, duplicated, arbitrary), leaf size, sequence of builds and searches, and interleaving of concurrent or interrupted searches",
     "A missed object shows only for particular positions (flat boxes, touching boxes, clipped segments) and shared state only under concurrency; the tests use one mesh.",
     ["mmcore/geom/bvh/__init__.py", "mmcore/numeric/_aabb.pyx", "mmcore/numeric/algorithms/moller.pyx"],
     [{"name": "splitting of objects, pruning by boxes, clipping of segments", "where": "mmcore/geom/bvh/__init__.py build_bvh, traverse_bvh, intersect_bvh_objects, bvh_segment_intersection, bvh_triangle_segment_intersection_one, mesh_bvh_ray_intersection, BoundingBox"}],
     observe=["result of every search against the scan", "caller's list and arrays after each build"])

prop("C18", "Plane regions: membership, hulls and clipping follow the points",
     "For polygons, convex hulls, closed curves, implicit regions and the parameter boundary of a surface: a point off the boundary is inside exactly when it is, whatever the polygon's direction, starting vertex and place in the plane and however vertices line up with the point; a hull contains every point, uses only given points and is convex; union, intersection and difference of two simple polygons that cross in general position, and clipping by a convex polygon, cover exactly the points they should, also when the boundaries do not cross; areas and orientation agree with the vertices. "
     "No question changes the polygon, curve or array it is asked about, so answers are the same when repeated, asked in another order, after another question failed half-way and while other threads ask about the same region.",
     ["inputs", "histories", "schedules", "fault_sequences"], "every polygon, point set and closed curve in the sampled families, sequence of questions about shared regions, failing caller's function or allocation and interleaving",
     "Clipping links the operands' vertices to each other, so the second question about the same polygon differs from the first; vertices level with the point and apart or nested operands need particular inputs. No test asks any.",
     ["mmcore/geom/polygon.py", "mmcore/numeric/algorithms/point_in_curve.py", "mmcore/geom/surfaces/__init__.py"],
     [{"name": "vertex lists linked and marked by clipping, counting of crossings", "where": "mmcore/geom/polygon.py Polygon2D, Vertex, clip, convex_hull; mmcore/numeric/algorithms/point_in_curve.py; mmcore/geom/surfaces/__init__.py Surface.build_boundary"}],
     observe=["each answer against even-odd membership of sampled points and shoelace areas", "the operands after each question"])

prop("C19", "Triangulations cover their region exactly and keep what they were given",
     "Triangulating a point set, a boundary with holes (plain, refined, limited in area; loops open or closed), a whole surface or a region of a surface inside a closed parameter curve gives triangles that are all turned the same way, do not overlap and together cover exactly the region: nothing outside, nothing in a hole. Given points come first, unmoved and numbered as given, given segments appear as chains of edges, Delaunay triangles have empty circles, neighbours, edges, hulls and Voronoi corners agree with the triangles, and positions on a surface are the surface's at the vertex parameters. "
     "Input without a triangulation (fewer than three distinct points, values that are not finite) is refused with ValueError and the process lives on. Caller's arrays and curves are unchanged, an exception of the caller's surface reaches the caller, and concurrent triangulations answer as if alone.",
     ["inputs", "histories", "schedules", "fault_sequences"], "every point set, boundary with holes and surface in the sampled families, failing surface evaluation or allocation, and interleaving of triangulations",
     "Numbering of closed loops and holes, duplicated points (uninitialised memory in the wrapped C library) and trimmed regions need particular inputs, and the C library's state is shared; no test triangulates anything.",
     ["mmcore/topo/mesh/triangle/core.pyx", "mmcore/topo/mesh/triangle/tri.py", "mmcore/topo/mesh/triangle/__init__.py", "mmcore/topo/mesh/triangle-c/triangle.c", "mmcore/topo/mesh/tess.py"],
     [{"name": "numbering of loops and holes, memory handed to and from the C library, trimming of a parameter grid", "where": "mmcore/topo/mesh/triangle/core.pyx triang, mmcore/topo/mesh/triangle/tri.py prepare_args, segments_by_loop; mmcore/topo/mesh/tess.py tessellate_surface, tessellate_curve_on_surface"}],
     observe=["vertices and triangles of each mesh against the region's definition", "exit of the process on refused input"])

prop("C20", "The intersection of two implicit surfaces is traced completely",
     "For two closed implicit surfaces (spheres, cylinders, pipes, or a caller's own) that cross at a clear angle in separate smooth loops: tracing returns every loop exactly once, each as a chain of points no further apart than about the step asked for, closed on itself, each point on both surfaces within tolerance; the result does not depend on the order of the two surfaces, on earlier traces with another step, on a trace that failed half-way (whose error reaches the caller), on surfaces edited before the tree is built anew, or on other threads tracing the same or other curves. A start point nearby is brought onto the curve and followed. The surfaces are not changed.",
     ["inputs", "histories", "schedules", "fault_sequences"], "every pair of bodies in the sampled families in every pose, step, sequence of traces with interruptions, and interleaving of tracings",
     "Loops are started from cells of a tree and abandoned when already visited, so lost or doubled loops depend on pose, step and history; the tests trace one fixed pair.",
     ["mmcore/numeric/intersection/implicit_implicit.py", "mmcore/numeric/marching.py", "mmcore/numeric/algorithms/implicit_point.py"],
     [{"name": "the tree of candidate cells, visited marks, the marching state", "where": "mmcore/numeric/intersection/implicit_implicit.py ImplicitIntersectionCurve, iterate_curves; mmcore/numeric/marching.py"}],
     observe=["loops traced against the closed formulas of the scene", "the surfaces after each trace"])

prop("C22", "Composed and edited curves answer for what they are now",
     "A B-spline curve of the curves package (points, weights, knots, periodicity, splits, inserted knots), a curve trimmed, offset, reparametrised by arc length, or combined with a number, a function or another curve, and a circle or a curve a user wrote, all answer every question (points, tangents, derivatives, normals, curvature, planes, lengths, parameter at a length, closest parameter, bounding tree, domain, splits, copies, pickles) for their current definition: rational derivatives take weights into account, splitting and knot insertion keep the shape, a deep copy and what it was copied from do not affect each other. "
     "Nothing remembered from before an edit shows after it, a caller writing to an array it gave or got changes no later answer, an edit that fails leaves the curve as it was, a question that fails or is interrupted half-way (in the caller's function, in any line, for lack of memory) is answered properly when asked again, and several threads may ask at the same time.",
     ["histories", "schedules", "fault_sequences", "inputs"], "every composition, sequence of edits, questions and overwritten arrays, point of interruption, and interleaving of questions about shared curves",
     "These curves remember points, lengths, trees and tables at several levels; a stale or shared one shows only after a particular sequence of question, edit and question. The tests ask fresh curves only.",
     ["mmcore/geom/curves/bspline.py", "mmcore/geom/curves/_nurbs.pyx", "mmcore/geom/curves/curve.py", "mmcore/geom/curves/offset.py", "mmcore/geom/curves/cubic.py", "mmcore/geom/curves/knot.py", "mmcore/geom/circle.py", "mmcore/geom/parametric.pyx", "mmcore/numeric/integrate/romberg.pyx"],
     [{"name": "remembered points, lengths, trees and tables; setters and invalidation; buffers of the evaluators", "where": "mmcore/geom/curves/curve.py Curve, TrimmedCurve, ReparametrizedCurve, CurveCurveNode; mmcore/geom/curves/bspline.py NURBSpline; mmcore/geom/curves/offset.py OffsetCurve"}],
     observe=["each answer against a model of the current definition", "curves and arrays after each question, edit and fault"])

prop("C23", "Array kernels: each row gets its own answer, whatever memory held before",
     "The vectorised functions for vectors (products, norms, units, crosses, projections, coordinates, Gram-Schmidt, decomposition, inverted Jacobians), planes (points on and off them, intersections with planes, lines and rays, single and in batches), boxes (of points, overlap, union, segments and rays), curvature and finite differences give for every row the answer of the formula for that row alone: it does not depend on the other rows, on how the arrays lie in memory (contiguous, strided, reversed, parts of larger arrays), on how many rows there are, on what fresh or output memory held before, or on which axis things are parallel to. "
     "Arguments are not changed, an answer given out earlier is not overwritten by a later call, where a formula has no answer the same thing comes back every time, an exception from the caller's surface reaches the caller, and calls made inside the caller's function or by other threads do not disturb one another.",
     ["inputs", "histories", "schedules", "fault_sequences"], "every array of the sampled shapes, layouts and residues of memory, failing or re-entering caller's function, refused allocation, and interleaving of calls",
     "The kernels run without bounds checks over uninitialised buffers: the result depends on what memory held, on strides and on neighbours, which a test cannot choose; axis-parallel input hits special branches.",
     ["mmcore/numeric/vectors.pyx", "mmcore/geom/vec/__init__.py", "mmcore/numeric/plane/__init__.py", "mmcore/numeric/plane/cplane.pyx", "mmcore/numeric/_aabb.pyx", "mmcore/numeric/aabb.py", "mmcore/numeric/calgorithms.pyx", "mmcore/numeric/numeric.py", "mmcore/geom/evaluator/surface_evaluator.pyx", "mmcore/numeric/routines/__init__.py"],
     [{"name": "accumulators and result buffers, row indices, pivots, buffers shared between calls", "where": "mmcore/numeric/vectors.pyx, mmcore/numeric/plane/cplane.pyx, mmcore/numeric/_aabb.pyx, mmcore/geom/evaluator/surface_evaluator.pyx"}],
     observe=["each answer against the formula row by row", "the arguments and all earlier answers after each call"])



prop("C24", "Surfaces made of curves, corners or code answer for what they are now",
     "A ruled surface, a Coons patch, a bilinear patch, a compiled ruled or bilinear surface, a cylinder, a surface written by a user and a curve drawn on any of them answer every question (points, single or in batches; derivatives, normals, planes; isocurves and boundaries; domains; bounds and trees) for what they are made of at that moment: after any history of edits of the curves, corners, fields and arrays they were made from, of questions, copies and pickles. "
     "The edges of a ruled surface, Coons patch or bilinear patch are the curves or corners given; an isocurve, the boundary and a curve on a surface run through points of the surface at the parameters promised, over the whole domain. "
     "Copies are independent, results handed out are not the surface's own memory, an edit or question that failed (an exception of the user's code, an interruption, no memory) leaves a surface that answers as before or as after, and calls from several threads give what each would alone.",
     ["inputs", "histories", "schedules", "fault_sequences"], "every construction, history of edits and questions, failing user function or allocation, interruption point and interleaving drawn",
     "What is stale, shared or left half done depends on which question was asked before which edit, on a failure in between and on domains that do not start at 0: sequences no handful of tests covers.",
     ["mmcore/geom/surfaces/__init__.py", "mmcore/geom/parametric.pyx", "mmcore/geom/primitives.pyx", "mmcore/geom/evaluator/surface_evaluator.pyx"],
     [{"name": "remembered corners, ends, domains, trees and evaluators of surfaces built on other curves", "where": "mmcore/geom/surfaces/__init__.py, mmcore/geom/parametric.pyx, mmcore/geom/primitives.pyx"}],
     observe=["each answer against the formula of the surface's current parts", "the parts, the arguments and all earlier answers after each call"])

prop("C25", "API vectors, matrices and boxes are values: edits and answers are exact",
     "The API's vectors, points, matrices and bounding boxes (two- and three-dimensional) behave as values: arithmetic (operators, reflected and in place), comparison, indexing, lengths, products, angles, parallel and perpendicular tests, normalising, transforming by a matrix, making a matrix of an array, a translation, a rotation (given angle, axis and origin, or one direction and another), a coordinate system or two coordinate systems, multiplying, inverting, and boxes made, expanded, combined, intersected and asked what they contain, give the answer of the plain formula for the current values, whatever the history. "
     "An operation that makes something new leaves its operands alone and shares no memory with them; an edit changes that one object; arrays given and handed out stay independent; comparing with something else is False, not an exception; an edit that was refused or interrupted leaves the old or the new value, and objects used by several threads do not disturb one another.",
     ["inputs", "histories", "schedules", "fault_sequences"], "every history of constructions, edits and questions over a pool of objects, allocation refused, interruption point and interleaving drawn",
     "Sharing of memory between values, half-done edits and special values (not of unit length, opposite, parallel, degenerate, disjoint) show only in sequences of operations on related objects.",
     ["mmcore/api/_base_vectors.py", "mmcore/api/vectors.py", "mmcore/api/bbox.py"],
     [{"name": "the array behind a vector or matrix, the corners behind a box", "where": "mmcore/api/_base_vectors.py, mmcore/api/vectors.py, mmcore/api/bbox.py"}],
     observe=["each result and every object of the pool after each operation", "arrays handed in and out, after each operation"])

prop("C26", "NURBS surface intersection follows every clear crossing, and only them",
     "Intersecting two NURBS surfaces that cross at a clear angle (points, parameters and curves) finds every part of the crossing and nothing else: every point reported lies near both surfaces, its two pairs of parameters lie inside the domains and lead to that point, no answer holds a number that is not one, a crossing is followed from end to end and not left out, broken off or reported where the surfaces do not meet; surfaces that stay apart give none. "
     "The answer does not depend on what was computed before, at the same time in another thread, or on a computation that failed half way (an interruption, no memory), and the surfaces are left as they were.",
     ["inputs", "histories", "schedules", "fault_sequences"], "every pair of surfaces, history of questions, refused allocation, interruption point and interleaving drawn",
     "Which patches are discarded, where marching starts, steps and stops depends on the shape: an unfortunate flat patch, a straight crossing or a short branch makes a whole part vanish.",
     ["mmcore/numeric/intersection/ssx", "mmcore/numeric/gauss_map.py", "mmcore/numeric/intersection/csx", "mmcore/geom/curves/knot.py"],
     [{"name": "patch trees, end points found and remembered while marching", "where": "mmcore/numeric/intersection/ssx, mmcore/numeric/gauss_map.py"}],
     observe=["each answer against an independent dense intersection of the two surfaces' height fields", "the surfaces after each call"])

prop("C27", "Intervals, polynomial patches, octrees, groupings, bases: exact answers",
     "The small exact structures answer as plain arithmetic does: interval arithmetic gives the smallest interval with all results (sums, differences, products, quotients, powers, reciprocals, common part, hull, subdivision) and comparisons say less, greater or undecided; a polynomial patch in monomial form, its Bernstein and NURBS form, its products, derivatives and normals are the same polynomials; an octree's children fill their parent without overlap, leaves are no larger than asked for and a point is found in the leaf around it; groups of tuples are the connected ones; sorting, index sorting and unique give the sorted, the sorting and the distinct numbers; knot spans, basis functions and their derivatives, points and derivatives of weighted splines and surfaces, areas and Frenet frames are those of the definition; binomial coefficients are exact beyond the stored table too, and points of an ellipsoid are those of its formula; circles do not share a centre. "
     "Arguments are left alone, results handed out can be overwritten without changing later answers, errors of the caller's functions come through, and an answer does not depend on earlier, failed or simultaneous calls.",
     ["inputs", "histories", "schedules", "fault_sequences"], "every input and chain of operations, failing caller's function or allocation, interruption point and interleaving drawn",
     "Signs, zeros inside intervals, degrees above one, repeated knots and cached tables handed out decide whether these are right; a handful of examples with positive numbers and degree one shows nothing.",
     ["mmcore/numeric/interval/_interval.py", "mmcore/numeric/monomial.py", "mmcore/geom/implicit/tree/octree.py", "mmcore/geom/implicit/tree/utils.py", "mmcore/ds/union_find.py", "mmcore/numeric/algorithms/quicksort.pyx", "mmcore/geom/curves/bspline_utils.py", "mmcore/geom/curves/curve_utils.py"],
     [{"name": "interval ends edited in place, cached conversion matrices, octree nodes, sets of a union-find", "where": "mmcore/numeric/interval/_interval.py, mmcore/numeric/monomial.py, mmcore/geom/implicit/tree/octree.py, mmcore/ds/union_find.py"}],
     observe=["each answer against exact rational or NumPy arithmetic", "operands and arguments after each operation"])

prop("C28", "Boundary models hold each thing once; curve booleans keep the right parts",
     "A boundary model, through any history of additions, keeps one entry for each distinct point (to its rounding, however the caller wrote it), curve, surface, vertex, edge (curve and unordered pair of ends) and face (surface, outer and inner loops), hands the same entry back for the same thing and a new one for a new thing or when told not to check, numbers geometry by position, keeps its own points whatever the caller does with his arrays, and shares nothing with other models; the model made of a surface has its corners and sides; the parameters of an edge's ends and its points are those of its curve as it is now. "
     "Union, intersection and difference of two closed curves are made of pieces of the two curves, each part inside or outside the other kept once or dropped as the operation says, also when the curves do not meet, one holds the other, or one is small and far away; the curves are left as they were and share nothing with the result. Answers do not depend on earlier, failed or simultaneous calls.",
     ["inputs", "histories", "schedules", "fault_sequences"], "every history of additions, pair of curves, refused allocation, interruption point and interleaving drawn",
     "Whether two things are the same depends on history, on how coordinates were written and on shared ends; whether a part lies inside depends on where a ray happens to end: neither shows in one pair of squares.",
     ["mmcore/topo/brep/__init__.py", "mmcore/geom/curves/curve_bool.py"],
     [{"name": "entries of a boundary model", "where": "mmcore/topo/brep/__init__.py"}],
     observe=["each entry handed back and the sizes of all lists after each addition", "the pieces of a boolean against inside tests on densely evaluated curves"])

prop("C29", "Curves through points and the spline recipes go where they should",
     "A curve interpolated through points (2-D or 3-D, plain or centripetal) passes through every point in order, once each where neighbours coincide, at its chord-length parameter in 0..1, has the degree asked for or as much as the points left allow, and knots that are averages of those parameters; a spline circle lies in its plane about the centre asked for with the radius asked for, counterclockwise with quarters at multiples of pi/2, and answers for a number or an array of any shape alike. "
     "Uniform knots, normalised knots, spans, multiplicities and basis functions (also de Boor's, each knot counted in one span) are those of their definitions; derivative control points, points and derivatives of the plain spline curve are those of the curve. "
     "Knot insertion, both knot refinements (automatic, listed, added knots, any density), Bezier degree elevation by any number, elevation and composition of curves, and making two curves compatible keep every point of the curves, give exactly the knots and degree asked for, and leave the caller's curves and lists as they were. Answers do not depend on earlier, failed or simultaneous calls.",
     ["inputs", "histories", "schedules", "fault_sequences"], "every point set, knot vector with its multiplicities, weight, parameter, refused allocation, interruption point and interleaving drawn",
     "A recipe goes wrong at a repeated knot, in the last span, for the third curve, above degree one or for the second call only; the tests evaluate none of them.",
     ["mmcore/geom/curves/knot.py", "mmcore/geom/curves/bspline.py", "mmcore/geom/curves/bspline_first.py", "mmcore/geom/curves/deboor.pyx", "mmcore/construction/ruled.py"],
     [{"name": "knot vectors and control points of the recipes", "where": "mmcore/geom/curves/knot.py"}],
     observe=["each point, knot vector and degree against the recursive basis definition", "the caller's lists, arrays and curves before and after"])
