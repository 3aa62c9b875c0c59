import json
L="differt2d/logic.py"; G="differt2d/geometry.py"; S="differt2d/scene.py"; O="differt2d/optimize.py"; U="differt2d/utils.py"; A="differt2d/abc.py"
P=[]
def p(id,title,statement,over,text,why,files,mech,observe=None,state=None):
    d=dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=text),why_tests_cant=why,
      anchors=dict(files=files,mechanism=[dict(name=a,where=b) for a,b in mech],observe_at=observe or [],hook_needed=None))
    if state: d["anchors"]["state"]=[dict(name=a,meaning=b,where=c) for a,b,c in state]
    P.append(d)
I=["inputs"]; IC=["inputs","configurations"]
p("C01","Activation functions are calibrated truth scales",
 "For every real input and every positive slope, both activation functions return a value in [0, 1] that is non-decreasing in the input (and in the slope for positive inputs), equals 1/2 exactly at 0 and satisfies s(-x) = 1 - s(x); the hard one is 0 below -3/slope, 1 above 3/slope and linear in between, the smooth one is the logistic function 1/(1+exp(-slope*x)). The generic activation applies the selected function with the given slope, by default the hard sigmoid with slope 100.",
 I,"every real x, every slope > 0, both activation functions, scalar and batched inputs",
 "Tests compare a handful of sampled points with a reference; range, monotonicity and symmetry are statements about all reals and all slopes.",
 [L,"differt2d/defaults.py"],[("sigmoid, hard_sigmoid, activation",f"{L}"),("DEFAULT_ALPHA","differt2d/defaults.py")],["sigmoid()","hard_sigmoid()","activation()"])
p("C02","Comparisons are exact when exact, calibrated when approximate",
 "Without approximation, greater, greater_equal, less and less_equal return exactly the boolean order relation of their operands, element by element. With approximation they return the activation of the difference of the operands: a value in [0, 1] that exceeds 1/2 exactly when the strict relation holds and equals 1/2 exactly on ties, and swapping the operands of `greater` gives `less`.",
 IC,"every pair of real operands (and infinities), every common shape, both modes, every positive slope, every activation",
 "Tests sample a few values with one slope; ties, infinities, batching and every slope are quantifiers tests only sample.",
 [L],[("greater, greater_equal, less, less_equal",L)],["return values of the four comparison functions"])
p("C03","Logical connectives form one consistent soft logic",
 "With approximation, or/and/not are max/min/1-x (n-ary all/any are the min/max over their operands, along the given axis), so that on 0/1 operands they coincide with Boolean logic and De Morgan's laws hold for every truth value; without approximation they are exactly Boolean logic. true_value/false_value are the top and bottom elements in each mode, and is_true/is_false classify x as x > 1 - tol and x < tol (exactly x and not x when exact), so no value is ever both true and false for tol <= 1/2.",
 IC,"every truth value in [0,1] or boolean, every arity and axis, both modes, every tolerance",
 "Tests exercise a few random arrays per function; algebraic laws over all truth values, arities and tolerances are universally quantified.",
 [L],[("logical_or/and/not/all/any, is_true, is_false, true_value, false_value",L)],["return values"])
p("C04","Explicit mode, slope and activation govern every nested decision",
 "Whenever a geometric or scene-level predicate (segment intersection, parameter containment, wall intersection, on-objects, obstruction, validity, path enumeration, accumulation) is given an explicit mode, slope or activation function, the result depends only on those, for every setting of the global mode, and every comparison nested in it uses exactly those. When the mode is left unspecified, the result equals the one obtained by passing the global mode in force at compilation explicitly.",
 ["inputs","configurations"],"every input, every (global mode, explicit mode) combination, every slope and every user-supplied activation function",
 "Tests run in one global mode with default activation; a nested call that forgets to forward an argument is invisible unless global and explicit settings disagree.",
 [L,G,S],[("approx/**kwargs forwarding through segments_intersect, contains_parametric, intersects_cartesian, on_objects, intersects_with_objects, is_valid, all_paths, all_valid_paths, accumulate_*",f"{G}, {S}")],["return values and dtypes of the predicates"],
 [("ENABLE_APPROX","process-wide default mode",L)])
p("C05","Temporary mode switches always restore the previous mode",
 "After a scoped enable/disable of approximation ends - normally or by an exception, nested in any way with other scoped or permanent switches - the global mode is the one in force when that scope was entered, and inside the scope it is the requested one. When several threads use scoped switches concurrently, scopes of different threads never overlap and, once all have ended, the mode is the one in force before they started.",
 ["histories","schedules"],"every properly nested history of scoped switches, permanent switches and exceptions, every interleaving of threads",
 "Tests use one or two nested scopes in a single thread; exceptional exits, deep nestings and thread interleavings are never generated.",
 [L],[("enable_approx, disable_approx, set_approx, _LOCK",L)],["ENABLE_APPROX"],[("ENABLE_APPROX","global mode",L)])
p("C06","Exact segment intersection decides the geometric relation",
 "Without approximation, the segment intersection test is true exactly when the two supporting lines cross in a single point whose parameter along each of the two segments lies in [-tol, 1 + tol] (tol 0.005 by default); parallel or degenerate segments never intersect. The answer does not change when the two endpoints of a segment are swapped or when the two segments are exchanged.",
 I,"every four points of the plane and every tolerance >= 0",
 "Tests try a dozen hand-picked segment pairs; the relation is over all positions including parallel, touching and degenerate ones.",
 [G],[("segments_intersect",G)],["segments_intersect()"])
p("C07","Approximate geometric predicates agree with the exact ones",
 "For segment intersection, parameter containment, wall/ray intersection, on-objects and path validity, an approximate truth value above 1/2 implies that the exact predicate is true, and an exact predicate that is false implies an approximate value of at most 1/2; when the exact predicate is true and every compared quantity is strictly inside its bound, the approximate value is above 1/2. Approximate values always lie in [0, 1], for parallel and degenerate configurations too.",
 IC,"every geometric configuration, every positive slope, both built-in activation functions",
 "Tests compare modes on a few scenes with a single slope; agreement has to hold at every configuration, including parallel and degenerate ones where divisions by zero are masked.",
 [G,L],[("segments_intersect, contains_parametric, intersects_cartesian, on_objects, is_valid",G)],["truth values"])
p("C08","Wall and vertex parametrisations are mutually consistent",
 "A wall maps parameter s to origin + s*(dest - origin); mapping a point to its parameter and back yields the orthogonal projection of the point onto the wall's line, so points of the wall (in particular both end points, the midpoint and every uniformly drawn sample) round-trip, and a parameter is contained exactly when it lies in [0, 1]. A vertex has zero parameters, always maps to its own position, contains everything, obstructs nothing and never adds to a path's residual; a wall's vertices are its two end points.",
 I,"every non-degenerate wall, every point, every parameter, every random key",
 "Tests use fixed or random walls at a few points; the round trip is an identity over all walls and points.",
 [G,A],[("Wall.parametric_to_cartesian, cartesian_to_parametric, contains_parametric, get_vertices; Vertex; Interactable.sample",f"{G}, {A}")],["return values"])
p("C09","Mirror images and wall normals",
 "A wall's normal has unit length and is orthogonal to the wall, for every non-degenerate wall. The image of a point is its mirror reflection across the wall's line: imaging twice gives the point back, points on the line are fixed, distances to every point of the line are preserved, and the result does not depend on which end of the wall comes first.",
 I,"every non-degenerate wall and every point",
 "Tests check a handful of walls; reflection laws are algebraic identities over all walls and points.",
 [G],[("normalize, Wall.normal, Wall.image_of",G)],["normal()","image_of()"])
p("C10","Interaction residuals vanish exactly on physical interactions",
 "For three points (incident start, interaction, reflected end) with two non-zero legs, a wall's residual is non-negative and equals the squared distance between the unit reflected direction and the specular reflection of the unit incident direction, so it is zero exactly for specular reflection and does not depend on the leg lengths or the wall's orientation. A reflecting surface with a fixed angle has the residual (sin a - sin phi)^2 + (cos a - cos phi)^2 for the outgoing angle a measured from its normal, independent of the incoming leg; it is zero exactly when the outgoing angle is phi.",
 I,"every non-degenerate wall or reflecting surface, every angle, every three points with non-zero legs",
 "Tests evaluate a few exact reflections; 'zero exactly when' and leg/orientation independence quantify over all geometries.",
 [G],[("Wall.evaluate_cartesian, RIS.evaluate_cartesian",G)],["evaluate_cartesian()"])
p("C11","The image method yields the specular path",
 "Given any sequence of non-degenerate walls, the image-method path starts at the transmitter and ends at the receiver, its k-th interaction point lies on the line of the k-th wall and on the line from the k-th successive mirror image of the transmitter to the next point, whenever that line is not parallel to the wall. When each interaction point separates the image from the next point (so a physical reflection exists), the path's loss is zero and its length is the distance from the last image to the receiver.",
 I,"every transmitter, receiver and sequence of walls in general position",
 "Tests verify paths for a few scenes by comparing methods with each other; correctness for every position and every number of reflections is out of reach of samples.",
 [G],[("ImagePath.from_tx_objects_rx (forward/backward scans)",G)],["path.xys","path.loss"])
p("C12","Every path method returns a well-formed path",
 "For every path method and any sequence of interacting objects, the result has one point per object plus the two end points, in the order of the objects, begins at the transmitter and ends at the receiver, each inner point being produced by its own object; with no objects it is the direct segment with zero loss. Passing end points as point objects or as raw coordinates gives the same path, and the reported loss is the sum of the objects' residuals along the returned points (zero for the midpoint method). The optimisation-based methods minimise the path length (Fermat) or the sum of residuals (residual minimisation) over all the objects' parameters, with the given key and options.",
 IC,"every method, every number and mix of objects, every end point, every random key",
 "Tests run each method on few scenes; ordering and per-object parameter slicing only matter for mixed objects of different parameter counts, which are never sampled exhaustively.",
 [G],[("Path/ImagePath/FermatPath/MinPath.from_tx_objects_rx, parametric_to_cartesian",G)],["path.xys","path.loss"])
p("C13","Path length is the polyline length",
 "The length of a path is the sum of the Euclidean lengths of its consecutive segments (up to a perturbation of the order of machine epsilon): non-negative, zero only up to that perturbation for coincident points, at least the distance between its end points, and unchanged by reversing the path or translating it.",
 I,"every polyline with any number of points",
 "Tests compute lengths of a few random polylines.",
 [G],[("path_length, Path.length",G)],["length()"])
p("C14","A path is valid exactly when contained, unobstructed and converged",
 "Without approximation, a path is valid exactly when every interaction point lies within its object, no scene object obstructs any segment, and its loss is strictly below the tolerance (0.01 by default); with approximation validity is the minimum of the corresponding three truth values. A path whose evaluation is not a number in any of these respects is reported as not valid (zero), never as NaN.",
 IC,"every path, object list, candidate, tolerance and patch, both modes",
 "Tests check validity on a few scenes; the tolerance boundary, NaN losses and independent failure of each condition are not sampled.",
 [G],[("Path.is_valid",G)],["is_valid()"])
p("C15","Obstruction and containment examine every relevant object",
 "A path is obstructed exactly when some segment is intersected by some scene object other than the (at most two) objects at that segment's own end points, for every number of objects and segments, wherever the obstructing object stands in the list and also when an object is revisited later; the patch widens every wall by the given fraction of its length at both ends. A path is on its objects exactly when every interaction point's parameter is contained in its own object, in order.",
 I,"every number of objects and interaction points, every candidate (indices in any order, with repetition), every patch >= 0, arbitrary object behaviour",
 "Tests cover a few scenes where the usual objects matter; which (segment, object) pairs are skipped is a statement over all lists and candidates.",
 [G],[("Path.on_objects, Path.intersects_with_objects, Wall.intersects_cartesian",G)],["on_objects()","intersects_with_objects()"])
p("C16","Received power follows the documented attenuation law",
 "The received power of a path with n interactions and length L is r_coef^n / (L^2 + height^2), whatever the objects are, with reflection coefficient 1/2 and height 0.1 by default. It is positive for positive coefficient and height, strictly decreasing in the path length, bounded by the value at zero length, and each additional interaction multiplies it by r_coef.",
 I,"every path with any number of interactions, every r_coef in (0,1], every height > 0",
 "Tests check few values; the law is over all lengths and orders.",
 [U,"differt2d/defaults.py"],[("received_power",U)],["received_power()"])
p("C17","Rotation is a rigid rotation about the chosen centre",
 "Rotating a ray or wall by an angle about a centre (the coordinate origin by default, given as a point object or raw coordinates) maps each of its end points by the rotation of the plane about that centre: distances to the centre and the length are preserved, rotating by zero changes nothing and rotating back restores the original. Fields other than the end points are unchanged.",
 I,"every ray or wall, every angle, every centre",
 "Tests rotate one or two fixed rays; rigid motion is an identity over all angles and centres.",
 [G],[("Ray.rotate",G)],["rotate()"])
p("C18","Extents enclose, are tight and locate correctly",
 "The bounding box of a point, ray, path or scene is the coordinate-wise minimum and maximum over all its points (for a scene: all transmitters, receivers and objects). The centre and the nine named locations are the box's centre, corners and edge midpoints; the sampling grid covers the box with m columns and n rows, its first and last samples lie on the box edges, it is evenly spaced, and X varies along columns while Y varies along rows.",
 I,"every collection of points and objects, every location name, every grid size",
 "Tests look at a few scenes; min/max over every entity matters only when each single entity attains the extreme.",
 [G,A,S],[("bounding_box, Plottable.grid/center/get_location",f"{A}, {G}, {S}")],["bounding_box(), center(), get_location(), grid()"])
p("C19","Closest transmitter and receiver queries return a true minimum",
 "The returned name is the name of an entity whose distance to the query is minimal among all entities of that kind, and the returned distance is exactly that entity's Euclidean distance to the query point.",
 I,"every set of named transmitters/receivers and every query point",
 "Tests query a few positions.",
 [G,S],[("closest_point, Scene.get_closest_transmitter, Scene.get_closest_receiver",f"{G}, {S}")],["get_closest_transmitter(), get_closest_receiver()"])
p("C20","Minimisers return a point together with its own objective value",
 "For every objective, optimiser and number of steps, the loss returned by the minimisers is the objective's value at the returned point, with the extra arguments passed through. Random initial points are drawn uniformly in the unit cube from the given key, and of several independent runs the one with the smallest loss is returned, so more runs from the same key set never return a worse result than any individual run.",
 ["inputs","programs"],"every objective function, optimiser, key, number of unknowns, steps and runs",
 "Tests check convergence on a quadratic to a tolerance, which hides a loss that belongs to the previous iterate or a mis-selected run.",
 [O],[("minimize, minimize_random_uniform, minimize_many_random_uniform",O)],["returned (x, loss)"])
p("C21","Path candidates enumerate exactly the admissible sequences",
 "The candidates of a given order are exactly the sequences of that many object indices with no two consecutive indices equal, each exactly once (order zero: the single empty sequence), for every order between the requested minimum and maximum in increasing order, or only for the explicit order when given. A filter restricts them to exactly those sequences using only objects that satisfy it.",
 IC,"every number of objects, every order range, every subset of filtered objects",
 "Tests compare a few sizes.",
 [S],[("all_path_candidates, Scene.all_path_candidates",S)],["returned candidate list"])
p("C22","Path enumeration covers every pair and candidate exactly once",
 "Enumerating paths yields, for each transmitter-receiver pair in transmitter-major order and for each candidate in order, exactly one entry with the pair's names, the path built between that transmitter and that receiver over the candidate's objects in the candidate's order, the validity of that very path against all scene objects, and the candidate itself; options for the method and for validity reach them unchanged. Enumerating valid paths yields exactly the entries whose validity is true, in the same order.",
 ["inputs","configurations","programs"],"every scene (any number of transmitters, receivers and objects, homogeneous or mixed), every path method and option set",
 "Tests count valid paths on a few scenes; cross-talk between pairs, dropped or repeated candidates and swapped ends need scenes with several of each.",
 [S],[("all_transmitter_receiver_pairs, get_interacting_objects, all_paths, all_valid_paths",S)],["yielded tuples"])
p("C23","Accumulation is the validity-weighted sum over a pair's paths",
 "Accumulating a function over paths yields one value per transmitter-receiver pair (zero when there is no path candidate), equal to the sum over that pair's enumerated paths of validity times the function's value for that transmitter, receiver, path and the path's interacting objects, with the extra arguments passed through. Reducing all pairs yields the sum of the per-pair values.",
 ["inputs","programs"],"every scene, every user function, every option",
 "Tests use one pair and one function; grouping errors need several pairs and pair-dependent functions.",
 [S],[("accumulate_over_paths",S)],["yielded values"])
p("C24","Grid maps equal pointwise accumulation and its derivatives",
 "Each cell of a power map over a transmitter or receiver grid equals the accumulation with the corresponding end point moved to that cell's (X, Y) coordinates and every fixed end, keyed by the fixed end's name. The gradient map is the derivative of that cell's value with respect to the moved end point (x component first), the value-and-gradient map returns both, and reducing sums the maps over the fixed ends.",
 ["inputs","programs","configurations"],"every scene, grid of any shape, user function, option and combination of gradient flags",
 "Tests check shapes or compare one map; transposed axes, wrong end differentiated or wrong fixed end are only visible on non-symmetric scenes and non-square grids.",
 [S],[("accumulate_on_transmitters_grid_over_paths, accumulate_on_receivers_grid_over_paths",S)],["yielded maps"])
p("C25","Scene editing is persistent and touches only what it names",
 "Every scene-editing operation returns a new scene and leaves the original unchanged; the new scene differs only in the named collection. Setting replaces the collection, updating overrides or appends by name and keeps the others, adding appends objects in order, filtering keeps exactly the objects satisfying the predicate in order, and renaming changes only the given names and keeps every point and their order when the new names are distinct.",
 ["histories","inputs"],"every scene, every sequence of edits",
 "Tests check single edits on one scene; frame conditions over arbitrary edit histories are not sampled.",
 [S],[("with_*, update_*, add_objects, filter_objects, rename_*",S)],["fields of returned and original scene"])
p("C26","GeoJSON import yields exactly the polygons' walls",
 "Importing a GeoJSON feature collection (text, bytes or readable file alike) yields, for each polygon feature in order, one wall between each pair of cyclically consecutive vertices of its outer ring, and nothing for features without geometry or with any other geometry type. The transmitter and receiver are placed at the requested named locations of the walls' bounding box (north-west and south-east by default), or at (0, 0) and (1, 1) when there is no wall.",
 I,"every feature collection with any number, order and kind of geometries",
 "Tests import one or two files of polygons.",
 [S],[("Scene.from_geojson",S)],["scene.objects, transmitters, receivers"])
p("C27","Built-in and random scenes have their documented shape",
 "For all given coordinates and ratios, each named scene consists of exactly its documented walls (closed unit square; centred vertical wall of length ratio; centred square obstacle of side ratio) with the transmitter and receiver at the given coordinates, and selecting a scene by name is the same as calling it. A random scene has exactly the requested numbers of transmitters, walls and receivers, uniquely named, all coordinates drawn independently in the unit square with no coordinate shared between entities.",
 I,"every ratio, coordinates, counts and key",
 "Tests instantiate the defaults.",
 [S],[("basic_scene, square_scene*, from_scene_name, random_uniform_scene, from_walls_array",S)],["scene fields"])
p("C28","Containers preserve keys, order and values",
 "The scene's mapping type behaves as an immutable ordered mapping: lookup returns the value stored under exactly that key and raises KeyError for any other, iteration and length agree with the source mapping, and values survive flattening and transformations by JAX. Stacking and unstacking objects are inverse, a scene built from stacked objects or a wall array has those walls in order, and retrieving an object by index returns the object at that index for every in-range index.",
 I,"every mapping, every list of same-shaped objects, every index",
 "Tests round-trip one example.",
 [G,S],[("PyTreeDict, stack_leaves, unstack_leaves, stacked_objects, from_stacked_objects, from_walls_array, get_object",f"{G}, {S}")],["return values"])
p("C29","Values and gradients stay finite for finite scenes",
 "For finite coordinates and finite positive slopes, every path coordinate, loss, length, validity and received power of the image method is finite - including parallel, collinear, coincident and zero-length configurations - and never NaN. The derivatives of the validity-weighted power of an image-method path with respect to the transmitter and receiver coordinates are finite in the same configurations.",
 I,"every finite configuration including all degenerate ones, both modes",
 "Tests sample random positions, on which degenerate configurations have probability zero.",
 [G,L,U],[("where-guards in normalize, segments_intersect, cartesian_to_parametric, ImagePath backward step, nan_to_num in is_valid",G)],["xys, loss, is_valid, received_power and their gradients"])
p("C30","Channel reciprocity",
 "Exchanging transmitter and receiver and reversing the order of the interacting walls gives the reversed path: same length, same received power, same wall containment and the same obstruction, for every pair of positions and walls for which the image path is in general position.",
 I,"every transmitter, receiver, wall sequence and obstacle list",
 "Tests never exchange the ends.",
 [G,U],[("ImagePath, Path.length, Path.on_objects, Path.intersects_with_objects, received_power",f"{G}, {U}")],["xys, length, power"])
p("C31","Geometry is invariant under translation, rotation and scaling",
 "Moving the whole scene by any translation or rotation moves every image-method path along with it and leaves lengths, residuals, wall parameters, segment intersection, obstruction, containment and received power unchanged (lengths up to their machine-epsilon perturbation); scaling the scene by a positive factor scales path points and leaves residuals, wall parameters and intersections unchanged.",
 I,"every scene, translation, rotation and positive scale",
 "Tests use scenes in the unit square only, where absolute thresholds or axis-aligned shortcuts go unnoticed.",
 [G,U],[("image_of, normal, ImagePath, segments_intersect, cartesian_to_parametric, evaluate_cartesian",G)],["return values"])
p("C32","Optimisation-based paths converge to the physical path",
 "When a physical path exists for the given objects, the optimisation-based path methods return a path whose residual is below the validity tolerance.",
 ["inputs","programs"],"every scene in which the path exists, every key",
 "Tests check convergence on a few scenes with a few keys.",
 [G,O],[("FermatPath, MinPath, minimize",f"{G}, {O}")],["path.loss"])
ids=[x["id"] for x in P]; assert len(set(ids))==len(ids)
for x in P: assert len(x["title"])<=80,x["title"]
open("/verif/properties.jsonl","w").write("".join(json.dumps(x)+"\n" for x in P))
print(len(P))
