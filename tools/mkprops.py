import json
P=[]
def prop(id,title,statement,over,text,why,files,mech,observe,state=(),hook=None):
    P.append({"id":id,"title":title,"statement":statement,"quantifier":{"over":over,"text":text},"why_tests_cant":why,
      "anchors":{"files":files,"state":[dict(name=n,meaning=m,where=w) for n,m,w in state],"mechanism":[dict(name=n,where=w) for n,w in mech],"observe_at":observe,"hook_needed":hook}})
L="differt2d/logic.py";G="differt2d/geometry.py";S="differt2d/scene.py";O="differt2d/optimize.py";A="differt2d/abc.py";U="differt2d/utils.py"

prop("C01","Approximation scopes are exclusive between threads and always restored",
"While a thread is inside an approximation scope, the process-wide default is exactly what the innermost scope (or a later set call by that same thread) asked for, and no other thread's scope or set call takes effect until it has left. Leaving a scope, normally or through any exception, restores the default that was in force when it was entered, so after any interleaving of nested scopes and set calls by any number of threads the default is the one some sequential order of those calls would leave. Nested scopes and waiting callers never deadlock: every caller proceeds once the others have left.",
["schedules","fault_sequences"],"every interleaving of any number of threads running enable/disable scopes (as context manager or decorator, nested, reusable), set calls and reads, with exceptions raised at any point of a body or while waiting",
"The tests enter one scope at a time on one thread; no test has two threads, an exception inside a scope, or nesting. The race is in the window between reading and replacing a global.",
[L],[("re-entrant lock held for the whole scope","logic.enable_approx / logic._LOCK"),("save and restore in try/finally","logic.enable_approx"),("alias","logic.disable_approx"),("locked set","logic.set_approx")],
["value of differt2d.logic.ENABLE_APPROX and of un-jitted calls without an explicit choice, inside scopes and after all threads finish"],
[("ENABLE_APPROX","process-wide default","logic.py module global")])

prop("C02","An explicit exact/approximate choice overrides the process-wide default",
"Any operation (logical operators, intersection and containment tests, path validity, path tracing, accumulation over pairs or grids) called with an explicit exact or approximate choice evaluates entirely under that choice: exact verdicts are booleans, approximate verdicts are degrees between 0 and 1, and sums weigh paths accordingly. The result does not depend on the process-wide default, on other threads or callbacks changing that default while the call runs, or on which other variants were compiled or evicted before.",
["schedules","histories","inputs"],"every operation taking an explicit choice, every schedule of concurrent scope/set calls, every cache state before the call",
"The tests set the process-wide default to the same value as the choice under test (or never set it), with compilation disabled, and on one thread; a choice lost on the way to an inner call is invisible there.",
[L,G,S],[("explicit choice is a static compilation argument and is forwarded at every level","logic.*, geometry.segments_intersect, Wall/Vertex methods, Path.on_objects/intersects_with_objects/is_valid, Scene.all_paths/all_valid_paths/accumulate_*")],
["dtype and value of the returned verdicts, sums and maps"])

prop("C03","Without an explicit choice the default in force is honoured",
"An operation called without an explicit choice and evaluated with compilation disabled, or for the first time since the compilation caches were cleared, behaves exactly as if the process-wide default in force in the calling thread's scope had been passed explicitly, at every level of the library. This stays true while other threads try to change the default, after scopes were left by exceptions, and after the default was changed and changed back.",
["schedules","histories"],"every operation with an optional choice, every history of scopes and set calls, every concurrent attempt to change the default",
"The tests call a few operations inside one scope on one thread; none interleaves other threads or a history of previous scopes.",
[L,G,S],[("late read of the default","`if approx is None` in every logic function"),("None forwarded unchanged by geometry and scene","geometry.py, scene.py")],
["dtype and value of returned verdicts, sums and maps"])

prop("C04","Path iterators deliver each candidate exactly once from their own snapshot",
"Iterating over the paths of a scene yields, pair by pair, every combination of transmitter, receiver and admissible sequence of interacting objects exactly once, each with a path that starts at that transmitter, ends at that receiver, is the path the chosen method gives for those objects, and carries the verdict computed for that path; the valid-only iterator yields exactly the entries judged valid. This holds for each iterator separately however its consumption is interleaved with other iterators, on whichever threads, however many of them are abandoned, closed or killed by a failing callback half-way, and whatever new scenes are derived meanwhile.",
["schedules","histories","fault_sequences"],"all interleavings of next/close/abandon on any number of open iterators over shared and derived scenes, failures at any callback",
"The tests drain one iterator of one single-transmitter, single-receiver scene on one thread; nothing interleaves, abandons or fails an iterator.",
[S,G],[("lazy generators over an immutable scene","Scene.all_paths, Scene.all_valid_paths"),("candidate enumeration","scene.all_path_candidates, Scene.all_path_candidates"),("object lookup","Scene.get_interacting_objects, Scene.get_object"),("pairs","Scene.all_transmitter_receiver_pairs")],
["the sequence of tuples each iterator yields"])

prop("C05","Accumulation counts every path of every pair exactly once",
"Accumulating a function over paths calls it exactly once per path of each transmitter-receiver pair, with that pair's transmitter, receiver, path, interacting objects and the caller's extra arguments, and yields for every pair, in order, the sum of the function values weighted by path validity; the reduced form is the sum over all pairs. If the function fails at any call the failure reaches the caller, nothing is counted for the failed call, and repeating the accumulation, resuming other accumulations, or consuming them interleaved on several threads still gives the full correct sums.",
["schedules","fault_sequences","histories"],"every interleaving of several accumulations, every call at which the user function fails, every point at which a consumer stops",
"The tests accumulate once over an empty two-by-two scene; no failing function, no partial or interleaved consumption, no objects with several pairs.",
[S,U],[("group by pair and sum","Scene.accumulate_over_paths"),("weights","Path.is_valid"),("received power","utils.received_power")],
["the yielded (transmitter, receiver, value) triples and the recorded calls of the user function"])

prop("C06","A coverage map is the same however it is split, ordered, retried or reduced",
"Every cell of a transmitter or receiver coverage map (values, gradients, or both) is the accumulation for a node placed at that cell, so a map computed whole equals the map assembled from arbitrary rectangular pieces, computed in any order by any number of workers, with pieces lost, duplicated or recomputed after a worker is interrupted. The per-node maps come out one per opposite node under its own name in scene order, however lazily or interleaved they are consumed, and the reduced map is their sum.",
["schedules","fault_sequences","inputs"],"every partition of a grid into pieces, every delivery order/loss/duplication, every interruption point of a worker, every consumption order of the per-node maps",
"The tests evaluate one whole grid of an empty scene; they never split a grid, interrupt a computation, or compare with the per-pair accumulation.",
[S],[("closed per-cell accumulation mapped over the grid","Scene.accumulate_on_transmitters_grid_over_paths, Scene.accumulate_on_receivers_grid_over_paths"),("lazy per-node generator","results() in both")],
["the yielded (name, map) pairs and the reduced maps"])

prop("C07","Random results are a function of the given key only",
"Every randomised operation (sampling on objects, random scenes, stochastic path methods, random-start minimisation) returns the same result for the same key and arguments, whatever ran before, is interleaved on other threads, whichever process or hash seed runs it, and whatever state other random generators are in. Within one call no randomness is used twice: within one enumeration of paths every path, within a coverage map every path candidate, and within a multi-start minimisation every trial gets its own key, distinct random points of a scene are distinct draws, and a different key gives different draws.",
["schedules","histories","configurations"],"every interleaving of keyed operations, every history before them, several processes with different hash seeds and worker counts",
"The tests use one fixed key in one process and compare no two runs; reuse of a key or dependence on history cannot show up.",
[S,G,O,A],[("explicit key threading and splitting","Scene.all_paths, Scene.accumulate_on_*_grid_over_paths, optimize.minimize_many_random_uniform"),("key consumers","Scene.random_uniform_scene, Interactable.sample, FermatPath/MinPath.from_tx_objects_rx")],
["returned coordinates, losses and paths; keys received by a caller-supplied path method"])

prop("C08","Multi-start minimisation returns the best trial that survived",
"Minimising from several random starts returns the solution of one of its trials together with the loss of exactly that solution, and no other trial that ended with a finite loss ended lower, even when some trials fail numerically (their objective or gradient becomes not-a-number or overflows at any step) as long as one survives. The same holds for each of several minimisations running interleaved on different threads.",
["fault_sequences","schedules"],"every set of trials failing at any step in any way, every interleaving of concurrent minimisations",
"The tests minimise a convex function where all trials agree, so a wrong selection, a mismatched loss or a failed trial cannot be seen.",
[O],[("independent trials and selection of the best","optimize.minimize_many_random_uniform"),("optimisation loop","optimize.minimize")],
["returned solution and loss compared with the recorded trials"])

prop("C09","Loading a map from a stream is all or nothing",
"Loading a GeoJSON document gives the same scene whether it is passed as text, bytes or a readable stream, whatever the size of the document: for each polygon, in file order, one wall per vertex of its outer ring joining it to its predecessor cyclically, nothing for features of any other kind or without geometry, and the two nodes at the requested corners of the walls' extent. If the stream fails, is cut short or delivers damaged data that is not a valid document, loading raises and returns no scene; a later load from a fresh stream, and loads by other threads, are unaffected, each stream is read only by its own loader and is never closed by it.",
["fault_sequences","schedules","inputs"],"every read failure, truncation point, corrupted byte and stream kind; every interleaving of several loaders, including two loaders racing on one stream",
"The tests load one intact 28-wall file and one empty collection; no read error, truncation, corruption, other geometry kind or concurrent load.",
[S],[("dispatch on text/bytes/stream","Scene.from_geojson and its registered overloads"),("node placement","Plottable.get_location, Scene.bounding_box")],
["the returned scene or the raised exception; position and closed state of the stream"])

prop("C10","A scene never changes once built; edits return independent new scenes",
"Every edit of a scene (replacing, updating, renaming or removing transmitters, receivers or objects, adding or filtering objects) returns a new scene with exactly the edited content, in order and under the names a plain ordered mapping or list would give, and leaves every earlier scene as it was. This holds for any history of edits made by any number of callers on shared scenes, when the containers passed in are modified afterwards, and when an edit fails or is interrupted half-way.",
["histories","schedules","fault_sequences"],"all histories of edits over a growing set of shared scene versions by several interleaved callers, with failing filters, interrupts and later mutation of the caller's containers",
"The tests apply single edits to fresh scenes and look only at lengths and name membership.",
[S],[("frozen modules and functional update","Scene.with_*/update_*/rename_*/add_objects/filter_objects"),("immutable mapping","scene.PyTreeDict")],
["names, order, coordinates and objects of every scene version after every step"])

prop("C11","A failed or interrupted call leaves nothing behind",
"If a library call fails or is interrupted at any instant (an exception raised by a user callback or a custom object, or an asynchronous interrupt inside the library, other than within the few instructions that enter or leave an approximation scope itself), no scene, path, default setting or lock is left changed. Any later call, including the same call again, returns what it would have returned had the failed call never been made.",
["crash_points","histories","fault_sequences"],"every call, every instant inside it, every kind of exception, followed by any history of further calls",
"The tests raise no exception inside a library call other than type errors and never call again afterwards.",
[L,G,S,O],[("no mutable state outside the approximation default","whole package"),("scoped save/restore","logic.enable_approx")],
["results of calls after the failure, compared with a reference model and with an undisturbed run"])

prop("C12","Concurrent callers get the results they would get alone",
"Any number of threads may call the library on shared scenes, paths and objects at the same time, including first calls that trigger compilation and calls with different options. Each call returns exactly what it would return if it ran alone.",
["schedules"],"every interleaving, down to single source lines of the library, of concurrent calls over shared objects",
"All tests are single threaded.",
[L,G,S,O,A],[("pure functions over immutable trees","whole package")],
["results of every call, compared with a reference model and with the same call run alone"])

prop("C13","Plotting touches only the given axes and returns exactly what it drew",
"Plotting a scene or an object adds artists only to the given axes and returns exactly the added artists: one marker per selected node plus its label if annotated, and one per selected object, each drawn at its place with the options given for its kind, so that removing the returned artists restores the axes. This holds for any interleaved history of plots, removals and replots on several axes, also after a plot failed in a custom object, and never alters the plotted scene or the caller's option mappings.",
["histories","fault_sequences","schedules"],"all histories of plot/remove/replot by interleaved clients on several axes and figures, with failures of a custom object's drawing at any position",
"The tests only check that plotting does not raise.",
[S,G],[("delegation and collection of artists","Scene.plot, Point.plot, Ray.plot, Path.plot, Vertex.plot, RIS.plot")],
["artists attached to each axes before and after each step, returned lists, option mappings"])

prop("C14","Compilation state never changes a result",
"A call returns the same result whether it is the first of its kind or was compiled before, whether compilation is disabled, and whether compiled code was evicted at any earlier moment or between two steps of an iterator. In particular results follow the arguments and the behaviour of the given callables (object filters, accumulated functions, path methods) as they are at the time of the call, never those of an earlier call with equal-looking arguments.",
["histories","fault_sequences","configurations"],"every history of calls with repeated shapes and callables, cache eviction at every call or iterator step, compilation on or off per call",
"The tests call most functions once per argument shape, and never compare a repeated call with different content, an evicted cache, or compilation switched off.",
[S,G,L,O],[("compilation keyed by argument structure","jax.jit / equinox.filter_jit decorators across the package"),("cached candidate enumeration","scene.all_path_candidates")],
["results of calls in different cache states, compared with each other and with a reference model"])

NA="A pure function of its inputs: no schedule, clock, fault, I/O or history can affect it, so a simulated run would only be input generation."
def na(id,title,statement,text,why,files,mech,observe):
    prop(id,title,statement,["inputs"],text,why,files,mech,observe)
na("C20","Image-method paths obey specular reflection","For any transmitter, receiver and non-degenerate sequence of walls, the path built by the image method keeps the given end points, puts its i-th point on the line of the i-th wall, and makes equal incidence and reflection angles at every wall; unfolding it gives a straight line.","all wall sequences and node positions","Only one 4-wall sequence and a loss of zero are tested.",[G],[("images forward, intersections backward","ImagePath.from_tx_objects_rx"),("mirror","Wall.image_of")],["path coordinates"])
na("C21","Approximate verdicts converge to exact verdicts","For any input not on a decision boundary, the approximate verdict tends to the exact one as the slope parameter grows, and lies between 0 and 1.","all inputs, slopes and activation functions","Tests compare against the same formula at sampled points.",[L,G],[("activation","logic.activation")],["verdict values"])
na("C22","Tracing is reciprocal","Swapping transmitter and receiver and reversing the object order gives the reversed path with the same length, validity and received power.","all scenes","No test swaps roles.",[G,S,U],[("symmetry of the path model","ImagePath, Path.is_valid")],["paths and powers"])
na("C23","Approximate results are differentiable everywhere","With approximation enabled, gradients of accumulated power with respect to node and object coordinates are finite for every non-coincident configuration.","all scenes and node positions","Tests check no gradient at special positions.",[G,L,S],[("guarded divisions and norms","geometry.segments_intersect, path_length, normalize")],["gradient values"])
na("C24","Truth-degree operators form a consistent logic","On degrees in [0, 1] and/or/not/all/any stay in [0, 1], agree with boolean logic on 0 and 1, satisfy De Morgan's laws and are monotone; comparison operators are monotone in their arguments.","all degrees","Tests repeat the defining formula on one array.",[L],[("min/max/complement","logic.*")],["operator results"])
na("C25","Segment intersection is symmetric and geometrically right","The intersection verdict does not depend on the order of the two segments or of their end points and agrees with exact geometry away from the tolerance band.","all segment pairs","A handful of segments are tested.",[G],[("parametric test","geometry.segments_intersect")],["verdict"])
na("C26","Parametric and Cartesian coordinates round-trip","Converting parameters in [0, 1] to coordinates on an object and back is the identity, sampled points lie on the object, and the object contains exactly the parameters in [0, 1].","all objects and parameters","Few walls are tested.",[G,A],[("conversions","Wall.parametric_to_cartesian, cartesian_to_parametric, Interactable.sample")],["coordinates"])
na("C27","Tracing commutes with rigid motions","Rotating or translating a whole scene moves every path accordingly and changes no length, verdict or power.","all scenes and motions","No test moves a scene.",[G,S],[("vector formulation","geometry.py")],["paths and powers"])
na("C28","Received power is bounded and decreasing","Received power is non-negative, bounded by its zero-distance value, decreases with path length and is multiplied by the reflection coefficient per interaction.","all paths and parameters","One path is tested.",[U],[("formula","utils.received_power")],["power"])
na("C29","Stacking objects and unstacking them is the identity","Unstacking stacked objects returns the same objects in order, and building a scene from stacked objects or from its array of walls gives back the same objects.","all homogeneous object lists","Two default walls are tested.",[G,S],[("leaf stacking","geometry.stack_leaves, unstack_leaves")],["objects"])
na("C30","Extents, grids and locations agree","The bounding box is the tightest box around all parts, grids span it exactly with the requested shape, and the nine named locations are its corners, edge mid-points and centre.","all plottable objects","One wall is tested.",[A,S,G],[("bounding boxes","Plottable.grid/center/get_location, Scene.bounding_box")],["coordinates"])
with open("/verif/properties.jsonl","w") as f:
    for p in P: f.write(json.dumps(p)+"\n")
