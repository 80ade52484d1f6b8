MON = "runtime monitoring: "
prop("C01", "Boolean operations compute the exact set operation of two closed outlines",
 "For two simple closed outlines made of lines and arcs in any orientation and placement, every point not on a boundary lies in the result of union, intersection, difference or exclusive-or exactly when the set operation on the two interiors says so, where the result region is the interior of its positive loops minus the interior of its negative loops. Total areas obey the corresponding identities.",
 ["inputs"], "all pairs of simple closed line/arc outlines whose boundaries cross in general position, all four operations, any direction of each input and any scale and placement",
 "The tests compare a few dozen fixed pairs with recorded areas and extents; the guarantee is over all pairs and all points.",
 [BOOL, INT, SEGI, TR], [("slices of both outlines kept or dropped by a point-in-polygon test", BOOL + ": process_for_boolean, prune_slices, polyline_boolean"), ("stitching of kept slices into closed loops", BOOL + ": stitch_slices_into_closed_polylines"), ("intersections that cut the outlines", INT + ": find_intersects")],
 MON + "membership oracle from independent winding numbers at sampled points of every boolean result, area identities", "Holds on the executions observed (counts in the evidence); samples points near every crossing and edge of every face, trusts the independent f64 geometry of the harness")
prop("C02", "Boolean results are well formed, classified and traceable to the inputs",
 "Every loop of a boolean result is a closed outline that runs only along the two inputs (for the parts it claims to take from each), encloses an area, does not cross itself or other loops, holes lie inside positive loops, the slices reported for a loop reproduce it when stitched in order, the reported outcome (disjoint, one inside the other, overlapping, intersected) agrees with the true relation of the inputs, and inputs that enclose no area are refused with an empty result. Supplying a precomputed spatial index never changes the result.",
 ["inputs", "configurations"], "all pairs of closed outlines: crossing, touching, nested, disjoint, identical and invalid; all operations; spatial index supplied or not",
 "Tests check classification and slices for a handful of fixed pairs only.",
 [BOOL, CORE + "polyline/pline_types.rs", VIEW], [("result info and loop construction", BOOL + ": polyline_boolean"), ("slice views recorded with each result loop", BOOL + ": stitch_slices_into_closed_polylines"), ("slice bookkeeping", VIEW)],
 MON + "structural checker of every result loop and slice against the recorded inputs", "Holds on the executions observed; slices are compared as point sets, never by representation")
prop("C03", "Boolean operations stay correct when outlines share edges, arcs or vertexes",
 "The set-operation guarantee also holds when the two outlines touch or overlap, exactly or with positions that differ by a small fraction of the position tolerance in use: shared or partly shared edges and arcs in the same or opposite direction, vertex on vertex, vertex on edge, tangent arcs, and identical outlines with other start points, directions or subdivision.",
 ["inputs"], "all pairs of closed outlines with coinciding features representable on a common grid",
 "Coincident configurations combine without limit (which edges coincide, in which direction, where overlaps start); the tests hold a few.",
 [BOOL, INT, SEGI], [("overlapping segment detection and sorting", INT + ": find_intersects, sort_and_join_overlapping_intersects"), ("coincident slices handled per operation", BOOL + ": process_for_boolean, prune_slices")],
 MON + "membership oracle over grid generated coinciding pairs", "Holds on the executions observed; coincidences are exact grid ones")
prop("C04", "Every point of a closed outline's offset lies at the requested distance and side",
 "Each point of each loop produced by offsetting a simple closed outline is at the requested distance from the outline (within tolerance), on the requested side, in loops that keep the direction of travel, are finite, and do not cross themselves or each other.",
 ["inputs"], "all simple closed line/arc outlines and all signed distances, including ones that split or annihilate the result, and exact coincidences (offset equal to an arc radius, half a channel width)",
 "Tests compare recorded area and extents for a fixed set of outlines and distances.",
 [OFF, SEG, INT], [("raw offset segments joined by arcs", OFF + ": create_raw_offset_polyline"), ("invalid slices discarded by distance test", OFF + ": slices_from_raw_offset, point_valid_for_offset"), ("valid slices stitched", OFF + ": stitch_slices_together")],
 MON + "analytic distance/side oracle on every result point", "Holds on the executions observed; exact-critical distances may deviate at a rate below the stated bound, deviations that persist when the distance is perturbed always count")
prop("C05", "A closed outline's offset covers exactly the region moved by the distance",
 "A point lies inside the offset result exactly when its signed distance to the outline says so: inward offsets keep precisely the points at least the distance away inside, outward offsets add precisely the points within the distance, so no part of the result is missing and none is invented.",
 ["inputs"], "all simple closed outlines and signed distances as in C04, all points away from the result boundary",
 "Missing or extra islands appear only for particular shape/distance combinations; tests sample few.",
 [OFF, INT, TR], [("dual raw offset and slicing at every self intersect", OFF + ": create_raw_offset_polyline, slices_from_raw_offset"), ("slice validity and stitching", OFF + ": stitch_slices_together")],
 MON + "winding number of result loops against analytic signed distance at sampled points", "Holds on the executions observed; same treatment of exact-critical distances as C04")
prop("C06", "Open polyline offsets stay at distance on one side and miss nothing",
 "Every point of the offset of an open polyline is at the requested distance from it, on the requested side of the part it comes from, and travels in the same direction; every point of the parallel curve that is farther than the distance from all other parts of the polyline is present in the result.",
 ["inputs"], "all open line/arc polylines (simple, crossing themselves, grid aligned) and signed distances",
 "Tests cover a few open polylines; gaps and stray fragments depend on the shape near the end points and on crossings.",
 [OFF, INT], [("dual offset slicing and end point circle cuts", OFF + ": slices_from_dual_raw_offsets, create_raw_offset_polyline"), ("validity distance test", OFF + ": point_valid_for_offset")],
 MON + "analytic distance, side, direction and completeness oracle", "Holds on the executions observed; exact-critical distances as C04")
prop("C07", "Offset options and units never change what the offset means",
 "Supplying a spatial index or asking for self intersection handling leaves the offset of a simple polyline unchanged; with that handling a self crossing polyline still yields only points at the distance; and scaling, rotating, mirroring, reversing or re-starting the input transforms the offset accordingly.",
 ["inputs", "configurations"], "all polylines x distances x option sets x rigid motions and scales",
 "Tests use the default option on most inputs and check no metamorphic relation over random input.",
 [OFF, CORE + "polyline/pline_types.rs"], [("option handling", OFF + ": parallel_offset"), ("options defaults", CORE + "polyline/pline_types.rs: PlineOffsetOptions")],
 MON + "differential and metamorphic monitors over option sets with the distance oracle", "Holds on the executions observed")
prop("C08", "Multi-loop shape offsets keep their distance and cover the right region",
 "Offsetting a shape made of outer loops and holes yields loops at the requested distance from the whole shape boundary whose interior is exactly the set of points the signed distance prescribes; holes and islands that grow together merge, and loops that collapse disappear.",
 ["inputs"], "all shapes of nested, non crossing loops (several outers, holes, islands in holes) and signed distances",
 "Tests cover three fixed shapes; interaction of loops depends on their number, gaps and the distance.",
 [SHAPE, OFF, INT], [("per loop offsets", SHAPE + ": parallel_offset"), ("pairwise intersects between offset loops and slice validity", SHAPE), ("stitching", SHAPE + ": stitch_slices_together")],
 MON + "distance and winding oracle for shapes", "Holds on the executions observed; two exact-critical inputs are known findings")
prop("C09", "Intersection finding between two polylines is complete, exact and duplicate free",
 "Finding the intersections of two polylines reports every crossing and touching point exactly once for the pair of segments that own it, reports overlapping runs and double crossings of one pair of segments in order along the second polyline, puts every reported point on both polylines, returns indexes of the segments that contain it, and does not depend on a supplied spatial index or on the order of the two arguments.",
 ["inputs", "configurations"], "all pairs of polylines, open or closed, in general position and with coincident features, index supplied or not",
 "Tests check a few pairs of mostly single crossings.",
 [INT, SEGI, TR], [("visit of segment pairs by spatial query and skip of shared end points", INT + ": find_intersects"), ("option handling", CORE + "polyline/pline_types.rs: FindIntersectsOptions")],
 MON + "set comparison with an independent segment intersection oracle", "Holds on the executions observed")
prop("C10", "Self intersection visiting is complete and honours its options",
 "Visiting self intersections of a polyline reports each crossing between its segments once, adjacent-segment ones only when local and others only when global are requested, stops at once when the visitor asks to stop and returns what the visitor returned, and gives the same answer with a supplied index.",
 ["inputs", "configurations"], "all polylines, include modes and early stop positions",
 "Tests check a few polylines.",
 [INT, TR, CORE + "polyline/pline_types.rs"], [("adjacent pairs", INT + ": visit_local_self_intersects"), ("non adjacent pairs by spatial query", INT + ": visit_global_self_intersects")],
 MON + "visited event log compared with an independent intersection oracle", "Holds on the executions observed")
prop("C11", "Segment, line and circle intersection primitives classify and locate correctly",
 "For any two lines, circles or polyline segments the primitive intersection routines return the right kind of answer (none, one, two, tangent, overlapping) with points and parameters that satisfy both curves within tolerance and lie on both segments, two points ordered along the second curve, the same for swapped or reversed arguments and under rigid motion, and lose no intersection.",
 ["inputs"], "all parameter values of the primitives: general, tangent, collinear, concentric, coincident, degenerate",
 "Tests fix a few dozen configurations of axis aligned values.",
 [SEGI, MATH + "line_line_intersect.rs", MATH + "line_circle_intersect.rs", MATH + "circle_circle_intersect.rs"], [("case analysis per pair of segment kinds", SEGI + ": pline_seg_intr"), ("primitives", MATH)],
 MON + "analytic oracle for each primitive call over random and degenerate parameters", "Holds on the executions observed; answers within tolerance of a class boundary may be either")
prop("C12", "Area, path length and orientation are the exact measures of the curve",
 "The signed area, the path length and the orientation reported for a polyline equal those of the line/arc curve it denotes; area is zero for open polylines, negates under reversal or mirroring, and all three are invariant under rigid motion and start point, and scale with the square or first power of the scale.",
 ["inputs"], "all polylines incl. empty, one vertex, half circles, repeated vertexes, large bulges",
 "Tests check a circle and a few polygons.",
 [TR, SEG], [("area by shoelace plus circular segment terms", TR + ": area"), ("length", TR + ": path_length; " + SEG + ": seg_length")],
 MON + "comparison with independently integrated measures, metamorphic relations", "Holds on the executions observed")
prop("C13", "Bounding boxes and spatial indexes contain the curve, tightly where promised",
 "The extents of a polyline and of each segment are the tightest axis aligned box of the curve, approximate boxes and both kinds of spatial index contain every point of the segment they stand for with item k being segment k, and queries through an index find every segment that touches the queried box.",
 ["inputs"], "all polylines and query boxes",
 "Tests check a few boxes.",
 [SEG, TR], [("exact and approximate boxes", SEG + ": arc_seg_bounding_box, seg_fast_approx_bounding_box"), ("index build", TR + ": create_approx_aabb_index, create_aabb_index, extents")],
 MON + "containment and tightness oracle on sampled curve points, brute force query comparison", "Holds on the executions observed")
prop("C14", "Winding number counts turns around a point exactly",
 "The winding number of a closed polyline around any point not on it equals the total signed number of turns of the curve, also for curves that cross themselves and for points level with vertexes or arc extremes, and is zero for open polylines.",
 ["inputs"], "all polylines (simple, self crossing, with repeated vertexes) x all points off the curve",
 "Tests check a few points on a few circles and polygons.",
 [TR, BM], [("edge crossing rules for lines and arcs", TR + ": winding_number"), ("side tests", BM + ": is_left, is_left_or_equal")],
 MON + "comparison with an independently integrated total angle at sampled and vertex aligned points", "Holds on the executions observed")
prop("C15", "Closest point queries return the nearest point of the curve",
 "The closest point query returns a point that is on the reported segment, at the reported distance, and no point of the polyline is nearer to the query by more than tolerance; an empty polyline gives no answer and a single vertex gives that vertex.",
 ["inputs"], "all polylines x all query points incl. arc centres, points on the curve and beyond end points",
 "Tests check a few points.",
 [TR, SEG], [("per segment search", TR + ": closest_point"), ("segment closest point", SEG + ": seg_closest_point")],
 MON + "analytic distance oracle", "Holds on the executions observed")
prop("C16", "Lookup by path length returns the point that far along the curve",
 "Looking up a distance along a polyline returns the segment and point reached after travelling that far, for every distance between zero and the total length, and for larger distances refuses while reporting the total length.",
 ["inputs"], "all polylines x all target lengths incl. exact vertex positions and totals",
 "Tests check a few targets.",
 [TR, SEG], [("accumulated lengths", TR + ": find_point_at_path_length"), ("point on segment", SEG)],
 MON + "comparison with independently measured arc length", "Holds on the executions observed")
prop("C17", "Scaling, translating and reversing transform exactly the denoted curve",
 "Scaling or translating a polyline, in place or as a copy, maps every point of the curve by that transformation, and reversing its direction keeps the curve as a point set while travelling it backwards; reversing twice restores the polyline, and user payload such as closedness is kept.",
 ["inputs"], "all polylines and transformation parameters incl. negative scale",
 "Tests check a few values.",
 [TR], [("in place and copying transforms", TR + ": scale, scale_mut, translate, translate_mut, invert_direction, invert_direction_mut")],
 MON + "curve comparison against transformed oracle curve", "Holds on the executions observed")
prop("C18", "Simplifications preserve the curve while removing redundancy",
 "Removing repeated positions or redundant vertexes and moving the start point of a closed polyline leave the curve unchanged as a point set and travel direction (up to the given tolerance), remove everything that is redundant, never add vertexes, are idempotent, and report no change exactly when nothing is removed.",
 ["inputs"], "all polylines with repeated, collinear and concentric runs, wrapping around the start, at any tolerance",
 "Tests check a few hand written inputs.",
 [TR], [("simplifiers", TR + ": remove_repeat_pos, remove_redundant"), ("restart", TR + ": rotate_start")],
 MON + "curve equality oracle plus an independent redundancy test", "Holds on the executions observed")
prop("C19", "Arc to line conversion stays within the requested error",
 "Converting arcs to line segments yields a polyline without arcs whose vertexes lie on the original curve, in order and including all original vertexes, whose distance from the original curve never exceeds the requested error, and that does not use grossly more segments than needed.",
 ["inputs"], "all polylines and error distances",
 "Tests check two circles.",
 [TR], [("subdivision count from error", TR + ": arcs_to_approx_lines")],
 MON + "two sided curve distance oracle", "Holds on the executions observed")
prop("C20", "Sub-path views denote exactly the selected stretch of the source",
 "A view built from a stretch of a polyline between two points (or two indexes, or the whole, in forward or inverted direction) behaves as a polyline that traces exactly that stretch: same vertex access, iteration, length and curve as an explicit copy; requests that collapse to a point give no view; splitting a segment at a point reproduces the segment in two parts.",
 ["inputs", "histories"], "all source polylines, start and end points (on vertexes, inside segments, wrapping around the start) and directions",
 "Tests check a limited grid of examples.",
 [VIEW, SEG], [("view construction", VIEW + ": PlineViewData::create, from_slice_points, from_new_start, from_entire_pline"), ("view access", VIEW + ": PlineView::get"), ("splitting", SEG + ": seg_split_at_point")],
 MON + "curve and access comparison against an explicitly constructed copy", "Holds on the executions observed")
prop("C21", "The C interface behaves exactly like the library over any call history",
 "Any sequence of C interface calls on polylines and polyline lists behaves like a simple list model: creation, cloning, adding, setting, removing, reading, clearing, ownership transfer and every documented error code; geometric calls return exactly what the library returns for the same data and options; options structs initialise to the documented defaults and failed calls leave objects and outputs unchanged.",
 ["histories", "inputs"], "all call sequences with valid and documented-invalid arguments",
 "Tests call each function a few times in isolation.",
 [FFI], [("call wrappers and error codes", FFI)],
 MON + "model based checker over recorded random call histories, differential against the core library", "Holds on the histories observed")
prop("C22", "The C interface is memory safe and leaks nothing across any call history",
 "No sequence of correctly used C interface calls reads or writes memory out of bounds, uses freed memory, frees twice, or leaks objects once everything handed out was freed with the matching call.",
 ["histories"], "all call histories that respect the documented ownership rules",
 "Tests run uninstrumented and free only in simple orders.",
 [FFI], [("raw pointer handling and ownership transfer", FFI)],
 MON + "AddressSanitizer and LeakSanitizer builds, allocation counting and Miri over random call histories", "Red zone tools miss some errors; holds on the executions observed")
prop("C23", "Failures never cross the C interface as unwinding and null handles are reported",
 "Every C interface call with a null handle where one is documented to be refused returns the documented code without touching outputs, and a failure inside the library surfaces as an error code and never unwinds or aborts the calling program.",
 ["inputs", "fault_sequences"], "all functions x null arguments x inputs that make the library fail",
 "Tests check few null cases and no internal failure.",
 [FFI], [("panic containment", FFI + ": ffi_catch_unwind"), ("null checks", FFI)],
 MON + "call outcome monitor in child processes", "Holds on the executions observed")
prop("C24", "Serialized polylines and vectors survive a round trip",
 "Serializing any polyline, vertex or vector and reading it back yields an equal value, in self describing and in compact formats, malformed input is refused with an error, and the serialized field names are stable.",
 ["inputs"], "all values and formats",
 "Tests do not exercise serialization.",
 [CORE + "polyline/pline.rs", CORE + "polyline/pline_vertex.rs", MATH + "vector2.rs"], [("derived and hand written serde implementations", CORE + "polyline, core/math/vector2.rs")],
 MON + "round trip monitor over two formats", "Holds on the executions observed")
prop("C25", "Every operation terminates without failure on every finite polyline",
 "All queries, edits, offsets and boolean operations return within work bounded by the size of their input and without failing, for every finite input including self crossing, degenerate, tiny, huge, repeated-point and near-coincident ones, except where a failure is documented.",
 ["inputs"], "all finite inputs, also ones for which the geometric result is unspecified",
 "Tests use well formed inputs.",
 [TR, OFF, BOOL, SHAPE, INT, VIEW], [("loop guards and result options", OFF + ", " + BOOL + ", " + SHAPE)],
 MON + "totality monitor: panic capture, CPU and memory budget per call over hostile inputs", "Holds on the executions observed; termination is decided as a CPU budget four orders above the usual cost")
prop("C26", "Operations are deterministic, read-only on inputs and safe concurrently",
 "The same call on equal inputs gives bit identical results every time, in any thread and next to any other calls; inputs, supplied indexes and options are never modified; shared read-only use from many threads has no data race.",
 ["schedules", "inputs"], "all inputs and thread interleavings",
 "Tests run each call once on one thread.",
 [TR, OFF, BOOL, SHAPE], [("pure functions over borrowed data", CORE + "polyline"), ("no shared mutable state", CORE)],
 MON + "replay comparison under concurrent threads, ThreadSanitizer build", "Holds on the interleavings observed")
prop("C27", "Polyline container edits and iterators behave like a list of vertexes",
 "Adding, inserting, setting, removing, extending, clearing and resizing a polyline behave like the same edits on a list of vertexes with a closed flag, iterators yield exactly the vertexes and segments of that list with the promised length and order, and comparisons are by value with tolerance only where stated.",
 ["histories"], "all edit histories and polylines",
 "Tests check single edits.",
 [CORE + "polyline/pline.rs", TR, CORE + "polyline/pline_vertex.rs", CORE + "macros.rs"], [("storage", CORE + "polyline/pline.rs"), ("iterators", TR + ": SegmentIter, VertexIter, PlineSegIndexIterator")],
 MON + "model based checker over random edit histories", "Holds on the histories observed")
prop("C28", "Single precision polylines give the same answers within their precision",
 "Every operation on polylines with 32 bit numbers gives the result of the 64 bit operation up to single precision error.",
 ["inputs", "configurations"], "all polylines of moderate size, both number types",
 "Tests use 64 bit numbers only.",
 [CORE + "core/traits/real.rs", TR], [("numeric trait with per type tolerance", CORE + "core/traits/real.rs")],
 MON + "differential monitor 32 against 64 bit with geometric oracles", "Holds on the executions observed")
prop("C29", "The optimisation feature changes nothing observable and is memory safe",
 "Building with the optional unchecked-access optimisation gives bit identical results for every operation and never accesses memory out of bounds.",
 ["inputs", "configurations"], "all inputs, both builds",
 "Tests run one build only.",
 ["cavalier_contours/Cargo.toml", TR], [("feature forwarded to the spatial index", "cavalier_contours/Cargo.toml")],
 MON + "digest comparison of two builds, AddressSanitizer build with the feature on", "Holds on the executions observed")
prop("C30", "Segment primitives agree with the arc or line they denote",
 "Radius, centre, midpoint, length, tangent, closest point, bounding box and split of a single segment agree with the exact line or circular arc given by its end points and bulge, for every sweep up to a half turn and any placement.",
 ["inputs"], "all segments",
 "Tests check a few half and quarter arcs.",
 [SEG], [("closed forms", SEG + ": seg_arc_radius_and_center, seg_midpoint, seg_length, seg_tangent_vector, seg_closest_point, seg_split_at_point")],
 MON + "analytic oracle per call with sampled curve", "Holds on the executions observed")
prop("C31", "Angle, bulge and vector helpers satisfy their contracts",
 "Angle normalisation, difference, sweep membership, bulge conversion, side tests, distances, projections, rotation and the fuzzy comparisons satisfy their documented contracts over the whole numeric range they accept.",
 ["inputs"], "all finite arguments",
 "Tests are doc examples.",
 [BM, MATH + "vector2.rs", CORE + "core/traits/fuzzy_eq.rs", CORE + "core/traits/fuzzy_ord.rs"], [("helpers", BM)],
 MON + "contract monitor with independently computed values", "Holds on the executions observed; boundary cases within tolerance may be either")
prop("C32", "The demo app's plot items paint exactly what they are given",
 "Under every view, a plot item paints the visible part of every line and arc of the polylines, shape or raw offset segments it is given and nothing away from them, fills exactly the inside of closed outlines (even-odd), sets one mark on every visible vertex, uses the colours asked for, reports bounds that enclose the drawing, and never panics.",
 ["inputs", "configurations"], "all polylines, shapes and raw offset segments, all frames, pans and zooms",
 "The demo app has no tests; what is painted depends on the view and on culling.",
 [UIS + "plotting/mod.rs", UIS + "plotting/plines.rs", UIS + "plotting/raw_pline_offset_segs.rs"],
 [("path building, culling and tessellation", UIS + "plotting/plines.rs: PlinesPlotItem"), ("culling of path events", UIS + "plotting/mod.rs: cull_path")],
 MON + "the painted triangles and marks are compared with the exact curves under the view", "Holds on the executions observed; curves below one pixel and isolated tessellator deviations are not judged")
prop("C33", "The demo app shows the results its controls and drawing promise",
 "Through any history of tab changes, mode, slider and box settings, vertex drags, pans, zooms, zoom to fit, resizes and arbitrary events the app does not panic, every control does what it says, dragging a vertex moves that vertex and nothing else, dragging the background moves only the view, and what is painted in each colour is the result of the shown operation on the shown input.",
 ["inputs", "histories"], "all histories of user input on the three scenes",
 "The demo app has no tests; its state is spread over frames and scenes.",
 [UIS + "scenes/pline_offset_scene.rs", UIS + "scenes/pline_boolean_scene.rs", UIS + "scenes/multi_pline_offset_scene.rs", UIS + "scenes/demo_scenes_pane.rs", UIS + "scenes/scene_settings.rs", UIS + "app.rs"],
 [("drag state machine", UIS + "scenes/pline_offset_scene.rs: plot_area"), ("repeated offsets", UIS + "scenes/pline_offset_scene.rs: build_offset"), ("result of the chosen operation", UIS + "scenes/pline_boolean_scene.rs: build_boolean_result")],
 MON + "headless app driven by events, painted geometry and accessibility tree compared with a model of inputs and controls", "Holds on the executions observed; the library result on the shown input is the reference")
