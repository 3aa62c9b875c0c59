U_ = " Sequence contracts (engine/seqs.py) prove this on the rewritten source of scene.py for every number of transmitters, receivers, objects and candidates; "
E_ = " Floats are reals with inf/nan; XLA, JAX tracing and the engine (/verif/engine) are trusted."
NOTES.update({
 "C01": "Range, threshold, monotonicity and symmetry of both activations for every argument and slope, and of the generic dispatcher for an uninterpreted activation; array shapes beyond scalars are bounded." + E_,
 "C02": "All four comparisons, both modes, for every pair of extended reals and every activation obeying the C01 contract." + E_,
 "C03": "Boolean and soft laws of every connective for all operands; n-ary forms are bounded in arity and shape (stated)." + E_,
 "C04": "Every public predicate traced under each explicit mode and each global mode with uninterpreted activations: identical terms. Path-level predicates bounded in objects." + E_,
 "C05": "State machine of the mode switch: all nestings of the context managers and decorators, exceptions at every yield point; the restore obligation is on the real generators." + E_,
 "C06": "segments_intersect and Wall.intersects_cartesian against the exact relation, for every coordinate and tolerance including parallel, collinear and zero-length segments." + E_,
 "C07": "Soft predicates against the exact ones for an arbitrary activation obeying the C01 contract; path-level predicates for any number of objects, segments and interactions (symbolic sizes, inductions over the loops)." + E_,
 "C08": "Round trips, ends, affinity and containment for every wall, point and parameter." + E_,
 "C09": "Normals and mirror images for every non-degenerate wall, including involution and isometry." + E_,
 "C10": "Residual of walls, surfaces and vertices zero exactly on physical interactions, in wall frame coordinates (no loss of generality)." + E_,
 "C11": "One wall for all coordinates; images and points of paths through any number of walls by induction over the two scans (symbolic sizes); direct whole-path contracts are bounded by the number of walls and cross-check." + E_,
 "C12": "End points, number of points, points on their objects for image, Fermat and MinPath with uninterpreted optimisers and objects, for any number of objects (symbolic sizes); mixed parameter counts are bounded." + E_,
 "C13": "One segment for all coordinates within the documented perturbation; polylines of any number of points (symbolic sizes, induction over the sum)." + E_,
 "C14": "is_valid over arbitrary values of its two callees (their contracts), NaN and infinite losses included; the composition with the callees is bounded in objects." + E_,
 "C15": "on_objects and intersects_with_objects over uninterpreted objects, for any number of objects and interactions (symbolic sizes); small sizes are repeated directly." + E_,
 "C16": "Exact polynomials and sums for any number of interactions and any coefficient, length and height (symbolic sizes); bounded contracts cross-check small sizes and replay failures." + E_,
 "C17": "Rotation contract for every ray, angle and centre except the open finding (transposed ray matrix), listed in known-findings.txt." + E_,
 "C18": "Enclosure, tightness and location for every coordinate and any number of points (symbolic sizes); scenes and grid sizes bounded." + E_,
 "C19": "Closest index and distance for any number of points (symbolic sizes, least-index induction); bounded contracts for the scene-level wrappers and layouts." + E_,
 "C20": "Loop body and initialisation of the real minimisers with uninterpreted objective and optimiser: the returned loss is the objective at the returned point; counts of steps and starts bounded where stated." + E_,
 "C21": "The orders, the graph that is walked and the excluded nodes are proved for any number of objects; the walks themselves come from the compiled graph library by an assumed contract, which the bounded part compares with an independent enumeration up to 150 objects." + E_,
 "C22": "Pairs, candidates, objects, path, validity and filter of every entry."+ U_ + "random keys, several classes of objects and global modes are bounded executions." + E_,
 "C23": "Sum over the pair's paths of validity times function, in order, with reduction and empty cases."+ U_ + "random keys and global modes are bounded." + E_,
 "C24": "Cell values, gradients and reductions equal the pointwise accumulation, by congruence of vmap and grad."+ U_ + "numeric derivatives and random keys are bounded." + E_,
 "C25": "Every editing operation, and the scene it was applied to, against ordered-mapping specifications."+ U_ + "sequences of edits and renames onto equal names are bounded." + E_,
 "C26": "Walls, end points and locations for every decoded collection, with any numbers of features and vertices; the JSON decoder is trusted; bounded executions on real texts." + E_,
 "C27": "The named scenes for every admissible parameter; random scenes of any size: each coordinate pair is its own row of one array of uniform draws (rows by z3 over integers)." + E_,
 "C28": "Mapping laws for any number of keys, walls arrays and retrieval by index for any size; stacking and JAX transformations bounded in size." + E_,
 "C29": "Every NaN/infinity condition of values and reverse-mode derivatives is discharged without preconditions; for any number of walls, objects and points each stage (images, points, predicates, power) keeps finite values and finite derivatives for arbitrary finite cotangents (symbolic sizes), the chain rule being the composition; overflow of the activations is a bounded execution." + E_,
 "C30": "Reciprocity of the image method for any number of walls in general position, by induction over both runs (symbolic sizes): both points of a wall lie on the one line of the two images; one-wall lemmas for every configuration; both predicates with uninterpreted direction-independent objects, for any number of objects and interactions." + E_,
 "C31": "Equivariance of every geometric function under all rotations, translations and positive scales; whole paths through any number of walls by induction over images and points of the original and the moved run (symbolic sizes)." + E_,
})
