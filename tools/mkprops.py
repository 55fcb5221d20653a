"""Writes properties.jsonl (one place to edit the texts)."""

import json
import os

P = []


def prop(id, title, statement, over, text, why, files, mech, observe=()):
    P.append(
        {
            "id": id,
            "title": title,
            "statement": statement,
            "quantifier": {"over": over, "text": text},
            "why_tests_cant": why,
            "anchors": {
                "files": ["differt2d/" + f for f in files],
                "mechanism": [{"name": n, "where": "differt2d/" + w} for n, w in mech],
                "observe_at": list(observe),
                "hook_needed": None,
            },
        }
    )


prop(
    "C01",
    "Approximation mode scopes nest and always restore",
    "In one thread, whatever sequence of mode settings and mode scopes (context manager or decorator, enabling or "
    "disabling, nested, left normally or by an exception) a program runs, the mode in force inside a scope is the one "
    "it asked for and the mode after a scope is exactly the one before it. "
    "Every not-yet-compiled logic operation called without an explicit choice follows the mode in force, and the "
    "initial mode is smooth exactly when the documented environment variable is present.",
    ["histories", "programs"],
    "all programs over {set on/off, enter/leave enable/disable scopes, raise, decorated call, query} up to a depth, from every initial mode",
    "Tests run one flat enable/disable scope; nesting, exceptions, decorators and sets inside scopes are unbounded combinations.",
    ["logic.py"],
    [("set_approx / enable_approx / disable_approx", "logic.py"), ("approx=None default resolution", "logic.py")],
    ["differt2d.logic.ENABLE_APPROX", "result kind of logic operations under jax.disable_jit()"],
)
prop(
    "C02",
    "Approximation mode scopes isolate concurrent threads",
    "When several threads set the mode and open mode scopes concurrently, every read inside a scope sees the mode "
    "that scope (or a later setting of the same thread inside it) requested, under every interleaving. "
    "Once all threads are done the mode equals the outcome of some serial execution of their operations, and no "
    "interleaving deadlocks or raises.",
    ["schedules", "programs"],
    "all interleavings up to a preemption bound of all pairs and triples of small thread programs",
    "Unit tests are single-threaded; the guarantee quantifies over schedules.",
    ["logic.py"],
    [("reentrant lock held for the whole scope", "logic.py:enable_approx"), ("locked assignment", "logic.py:set_approx")],
    ["differt2d.logic.ENABLE_APPROX"],
)
prop(
    "C03",
    "An explicit approximation choice overrides every other influence",
    "Whenever an operation is given an explicit choice between exact and smooth logic, its answer depends on that choice "
    "alone: it is the same whatever default mode is in force, whatever was called or compiled before, and at every layer "
    "from scalar comparisons over geometric tests and path validity to whole-scene tracing and power maps. "
    "Exact answers are booleans (or counts of them) and smooth answers are real numbers between 0 and 1.",
    ["histories", "configurations"],
    "all entry points x explicit choice x default mode x preceding calls (compilation history)",
    "Results depend on global mode and on compilation caches; tests clear caches and try one history each.",
    ["logic.py", "geometry.py", "scene.py"],
    [("approx is a static argument of every compiled function", "logic.py"), ("approx forwarded through geometry", "geometry.py"), ("approx forwarded through scene", "scene.py")],
    ["return values of every public operation taking `approx`"],
)
prop(
    "C04",
    "Exact logic is Boolean algebra and smooth logic extends it",
    "With exact logic, comparisons and connectives agree with ordinary ordering and Boolean algebra for all inputs, "
    "shapes, broadcasts and reduction axes. "
    "With smooth logic, comparisons are the activation of the signed difference (monotone, 1/2 at equality, "
    "complementary when swapped, for both built-in and user-given activations at every slope), connectives are the "
    "fuzzy min/max/complement, and the truth tests threshold at the given tolerance. "
    "At 0 and 1, and away from equality as the slope grows, smooth results agree with exact results.",
    ["inputs", "configurations"],
    "all combinations of a value lattice, shapes, axes, slopes, activation functions, tolerances and modes",
    "Tests compare a few random arrays with the same JAX calls the implementation makes.",
    ["logic.py", "defaults.py"],
    [("connectives and comparisons", "logic.py"), ("activation / sigmoid / hard_sigmoid", "logic.py"), ("default slope", "defaults.py")],
    ["all public functions of differt2d.logic"],
)
prop(
    "C05",
    "Path candidates enumerate every interaction sequence exactly once",
    "For any number of objects, order range (or single order) and object filter, the path candidates are exactly the "
    "sequences of indices of allowed objects whose length is in the range and in which no object immediately repeats: "
    "each once, none missing, listed by increasing order, independent of the nodes in the scene and of earlier calls.",
    ["inputs", "configurations", "histories"],
    "all object counts, order ranges, filters up to a size bound",
    "Tests compare the number of candidates for a handful of sizes.",
    ["scene.py"],
    [("graph enumeration", "scene.py:all_path_candidates"), ("filter to graph nodes", "scene.py:Scene.all_path_candidates")],
    ["Scene.all_path_candidates", "all_path_candidates"],
)
prop(
    "C06",
    "The image method returns the specular reflection path",
    "For any transmitter, receiver and sequence of walls, the traced path starts at the transmitter, ends at the receiver, "
    "has one point per wall in the given order lying on that wall's line, reflects specularly at each of them, and its "
    "length equals the distance from the last image to the receiver; its reported loss is zero exactly for genuine "
    "reflections and clearly positive when a point is not reached by a true reflection. "
    "Without walls it is the straight segment with zero loss.",
    ["inputs"],
    "all transmitter, receiver and wall placements on a lattice, all wall sequences up to an order, several scales and offsets",
    "Tests check a few fixed positions in one scene; degenerate and crossing placements are a continuum.",
    ["geometry.py"],
    [("image and backward intersection recursion", "geometry.py:ImagePath.from_tx_objects_rx"), ("mirror image", "geometry.py:Wall.image_of"), ("interaction residual", "geometry.py:Wall.evaluate_cartesian")],
    ["ImagePath.from_tx_objects_rx"],
)
prop(
    "C07",
    "The exact validity verdict is geometric truth",
    "With exact logic, a path is declared valid if and only if every interaction point lies within the extent of its object, "
    "no leg crosses any other object of the scene (only the objects at the two ends of a leg are exempt), and the loss is "
    "below the tolerance. "
    "This holds for any path, candidate, tolerance and patch, each of the three conditions being reported on its own too.",
    ["inputs", "configurations"],
    "all lattice paths x candidate sequences x object sets x losses x tolerances x patches, away from decision boundaries",
    "Tests look at a few scenes; false positives need specific object/leg coincidences.",
    ["geometry.py"],
    [("three-part verdict", "geometry.py:Path.is_valid"), ("exemption of interacting objects", "geometry.py:Path.intersects_with_objects"), ("extent check", "geometry.py:Path.on_objects")],
    ["Path.is_valid", "Path.on_objects", "Path.intersects_with_objects"],
)
prop(
    "C08",
    "Smooth validity approximates the exact verdict",
    "With smooth logic, validity is a number in [0, 1], the fuzzy conjunction of the same three conditions; away from decision "
    "boundaries it exceeds one half exactly when the exact verdict is valid, for every slope and activation, and tends to the "
    "exact verdict as the slope grows. "
    "The slope and activation given by the user are the ones applied to every condition.",
    ["inputs", "configurations"],
    "all lattice paths x scenes x slopes x activations, away from decision boundaries",
    "Tests check that values are floats; agreement has to hold for all slopes, activations and scenes.",
    ["geometry.py", "logic.py"],
    [("forwarding of activation arguments", "geometry.py"), ("fuzzy conjunction", "logic.py")],
    ["Path.is_valid(approx=True)", "Path.on_objects", "Path.intersects_with_objects"],
)
prop(
    "C09",
    "Segment intersection is exact, symmetric and patchable",
    "Two segments are reported as intersecting exactly when both intersection parameters lie in [0, 1] widened by the tolerance, "
    "parallel segments never do, and the answer is unchanged by swapping the segments, reversing either, translating or uniformly scaling both. "
    "An object's ray test equals this test on the object extended at each end by the patch fraction of its length, and a vertex never obstructs.",
    ["inputs"],
    "all quadruples of lattice points, tolerances, patches, scales and offsets",
    "Tests compare a few intersecting pairs; the input space is eight-dimensional.",
    ["geometry.py"],
    [("parametric intersection test", "geometry.py:segments_intersect"), ("patch", "geometry.py:Wall.intersects_cartesian"), ("vertex", "geometry.py:Vertex.intersects_cartesian")],
    ["segments_intersect", "Wall/RIS/Vertex.intersects_cartesian"],
)
prop(
    "C10",
    "Objects convert, contain, reflect and evaluate consistently",
    "For every wall, surface and vertex: converting a parameter to a point and back is the identity, converting any point to a parameter and back is its "
    "orthogonal projection, containment holds exactly for parameters in [0, 1], sampled points lie on the object, and parameter counts match. "
    "Normals are unit and perpendicular, mirror images are involutive reflections, end points become the two vertices in order, and interaction "
    "residuals are zero exactly at specular (wall) or fixed-angle (surface) bounces and never negative.",
    ["inputs"],
    "all lattice placements of objects, points, parameters and ray triplets",
    "Tests check one or two walls; degenerate lengths and directions are not sampled.",
    ["geometry.py", "abc.py"],
    [("parametrisation", "geometry.py:Wall"), ("residuals", "geometry.py:Wall.evaluate_cartesian, RIS.evaluate_cartesian"), ("sampling", "abc.py:Interactable.sample")],
    ["Wall, RIS, Vertex methods"],
)
prop(
    "C11",
    "Scene tracing visits every pair and candidate exactly once",
    "Tracing all paths of a scene yields, transmitter by transmitter, receiver by receiver and candidate by candidate, exactly one result, "
    "labelled with its own names and candidate, whose path is the chosen method's path between these two nodes over these objects and whose "
    "validity is that path's validity under the given options; tracing valid paths yields exactly the sub-sequence that is valid. "
    "Every option (orders, filter, method, method options, key, tolerance, patch, mode, slope, activation) has its effect, results are the same for "
    "the same key (each path using a random key of its own), and differ in no way when iterations are interleaved, abandoned or repeated.",
    ["configurations", "histories"],
    "all small scenes (0-2 transmitters x 0-2 receivers x 0-3 objects) x options x iteration histories",
    "Tests count results in fixed scenes with one transmitter and receiver.",
    ["scene.py"],
    [("nested enumeration", "scene.py:Scene.all_paths"), ("validity filter", "scene.py:Scene.all_valid_paths"), ("object lookup", "scene.py:Scene.get_interacting_objects")],
    ["Scene.all_paths", "Scene.all_valid_paths", "Scene.get_interacting_objects", "Scene.all_transmitter_receiver_pairs"],
)
prop(
    "C12",
    "Accumulation over paths is the validity-weighted sum per pair",
    "Accumulating a function over paths yields, for every transmitter-receiver pair in order (also when there is no path at all), the sum over that pair's "
    "paths of validity times the function evaluated with that pair's nodes, path, interacting objects and the extra arguments; "
    "reducing returns the sum over all pairs, and every tracing option is honoured.",
    ["configurations", "inputs"],
    "all small scenes (0-3 transmitters x 0-3 receivers x 0-3 objects) x order ranges x modes x reductions, with a function that identifies its arguments",
    "Tests use one pair and a symmetric function.",
    ["scene.py"],
    [("grouping by pair", "scene.py:Scene.accumulate_over_paths")],
    ["Scene.accumulate_over_paths"],
)
prop(
    "C13",
    "Grid accumulation equals point-by-point accumulation",
    "Accumulating over a grid of transmitters or receivers gives at each cell exactly the value obtained by placing the node at that "
    "cell's coordinates and accumulating over the paths of each fixed node, with the output axes laid out like the grid, "
    "for every grid shape, scene, function (including its extra arguments, custom node types and node-dependent functions) and option. "
    "Gradients are those with respect to the moving node; value-and-gradient returns both, and reduction sums over the fixed nodes.",
    ["configurations", "inputs"],
    "all grid shapes up to 3x4, scenes, node counts, flag combinations, both grid sides",
    "Tests compare one square grid with one fixed node and a symmetric function.",
    ["scene.py"],
    [("vectorised accumulation", "scene.py:Scene.accumulate_on_transmitters_grid_over_paths / accumulate_on_receivers_grid_over_paths")],
    ["Scene.accumulate_on_*_grid_over_paths"],
)
prop(
    "C14",
    "Gradients are finite everywhere and equal the true derivative",
    "Derivatives of accumulated power with respect to node positions are finite at every position, including on walls, corners and other nodes, "
    "where paths degenerate or are invalid, in both modes and for both built-in activations. "
    "Wherever the quantity is smooth, they equal its true derivative, and the same holds for the derivatives with respect to the geometry of the walls.",
    ["inputs", "configurations"],
    "all node positions of a lattice aligned with the walls (and off it) x scenes x orders x modes x activations",
    "Tests check two or three positions for NaN; degenerate positions are a measure-zero set that grids and optimisers do hit.",
    ["geometry.py", "logic.py", "scene.py", "utils.py"],
    [("guarded divisions", "geometry.py:ImagePath, segments_intersect, normalize, path_length"), ("NaN suppression", "geometry.py:Path.is_valid"), ("grad/value_and_grad", "scene.py")],
    ["jax.grad of accumulate_over_paths", "grad=True grids"],
)
prop(
    "C15",
    "Scene edits are pure and behave like a map and a list",
    "After any sequence of replacing, updating, renaming, adding and filtering operations, a scene's transmitters and receivers equal those of an insertion-ordered "
    "dictionary and its objects those of a list subjected to the same operations, including lookups, membership, lengths, iteration order and missing names. "
    "No operation changes any earlier scene, nor the other parts of the scene.",
    ["histories"],
    "all operation sequences up to a depth over a small alphabet of names, points and objects",
    "Tests apply each operation once to one scene.",
    ["scene.py"],
    [("immutable mapping", "scene.py:PyTreeDict"), ("with_/update_/rename_/add_/filter_ methods", "scene.py:Scene")],
    ["Scene.transmitters", "Scene.receivers", "Scene.objects"],
)
prop(
    "C16",
    "GeoJSON import yields the outer polygon edges and corner nodes",
    "Reading a GeoJSON document yields, for every polygon feature in order, one wall per consecutive pair of outer-ring points (closing the ring) with the "
    "document's coordinates, ignores every other feature, and places the transmitter and the receiver at the requested "
    "locations of the walls' extent (fixed defaults without walls). "
    "The result is the same from text, bytes, byte arrays and file-like objects, and other inputs are rejected.",
    ["inputs", "configurations"],
    "all documents of a small grammar x input forms x locations",
    "Tests read one sample document and compare counts.",
    ["scene.py", "abc.py"],
    [("parsing", "scene.py:Scene.from_geojson"), ("locations", "abc.py:Plottable.get_location")],
    ["Scene.from_geojson"],
)
prop(
    "C17",
    "The minimizer follows its optimizer and reports its own loss",
    "Minimising returns the point reached by exactly the requested number of steps of the requested optimizer (the documented default otherwise) from the given or "
    "uniformly drawn start, together with the objective's value at that point, passing the extra arguments to the objective. "
    "With several trials, it returns the best of that many independent trials and the same key gives the same answer.",
    ["inputs", "configurations"],
    "all combinations of objectives, starts, step counts (including none), optimizers, extra arguments, trial counts and keys",
    "Tests check convergence of one convex function to loose tolerances.",
    ["optimize.py"],
    [("scan over optimizer updates", "optimize.py:minimize"), ("random starts", "optimize.py:minimize_random_uniform"), ("best of many", "optimize.py:minimize_many_random_uniform")],
    ["minimize", "minimize_random_uniform", "minimize_many_random_uniform"],
)
prop(
    "C18",
    "Optimisation-based tracing agrees with the laws of each object",
    "For any mix of objects with any numbers of parameters, optimisation-based paths start and end at the nodes, put each interaction point on its own object using "
    "its own parameters, and report a loss that is the sum of the interaction residuals along the returned path; without objects they are the straight segment. "
    "On convergence both the shortest-path method and the minimal-residual method return the reflection path on walls and the vertex itself on vertices, and "
    "the minimal-residual method the fixed-angle bounce on reconfigurable surfaces.",
    ["inputs", "configurations"],
    "all sequences of object kinds up to length 3 x lattice placements x fixed keys",
    "Tests check a fixed chain of walls.",
    ["geometry.py", "optimize.py"],
    [("parameter slicing", "geometry.py:parametric_to_cartesian"), ("objectives", "geometry.py:FermatPath, MinPath"), ("residuals", "geometry.py:evaluate_cartesian")],
    ["FermatPath.from_tx_objects_rx", "MinPath.from_tx_objects_rx", "Path.from_tx_objects_rx"],
)
prop(
    "C19",
    "Extents, grids, locations and nearest nodes are exact",
    "The bounding box of a point, segment, path or scene is the tightest axis-aligned box of everything it contains; its center, the nine named locations and the "
    "sampling grid (requested number of samples per axis, x along columns and y along rows, both ends included) are those of that box. "
    "The closest transmitter or receiver to a point is one at the minimal distance, reported with that distance.",
    ["inputs", "configurations"],
    "all subsets of lattice-placed nodes and objects, all grid sizes, all locations and query points",
    "Tests check one unit square.",
    ["abc.py", "geometry.py", "scene.py"],
    [("bounding boxes", "geometry.py, scene.py:bounding_box"), ("grid/center/get_location", "abc.py:Plottable"), ("closest", "geometry.py:closest_point")],
    ["bounding_box, center, get_location, grid, get_closest_*"],
)
prop(
    "C20",
    "Path length and received power follow their laws",
    "The length of any path is the sum of its segment lengths, and received power is the reflection coefficient to the number of interactions divided by the sum of the "
    "squared antenna height and squared length, for every coefficient and height. "
    "Power is therefore positive, decreasing with length, multiplied by the coefficient per interaction, independent of the other arguments, and equal to the documented constant at zero distance.",
    ["inputs"],
    "all lattice point sequences up to 5 points x coefficients x heights",
    "Tests check one length and one power value.",
    ["geometry.py", "utils.py", "defaults.py"],
    [("path_length", "geometry.py"), ("received_power", "utils.py")],
    ["path_length", "Path.length", "received_power"],
)
prop(
    "C21",
    "Tracing respects reciprocity and geometric symmetry",
    "Swapping transmitter and receiver reverses the traced paths and preserves lengths, validity and received power; reversing the end points of any wall or permuting the "
    "objects changes no result beyond relabelling. "
    "Rotating by quarter turns, mirroring, translating or uniformly scaling a whole scene transforms its paths accordingly and preserves validity.",
    ["inputs", "configurations"],
    "all lattice scenes of a family x all symmetries of the lattice x orders x modes",
    "No test relates two runs; symmetry is a relation over all pairs of inputs.",
    ["geometry.py", "scene.py"],
    [("image method", "geometry.py:ImagePath"), ("validity", "geometry.py:Path.is_valid"), ("tracing", "scene.py:Scene.all_paths")],
    ["Scene.all_paths", "accumulate_over_paths"],
)
prop(
    "C22",
    "Rotating a ray is a rigid rotation about the requested point",
    "Rotating a segment by any angle about any point (given as coordinates or as a node, the origin by default) moves each end point along the circle around that point by that angle, "
    "preserving its length, kind and other attributes and leaving the original unchanged.",
    ["inputs"],
    "all lattice segments x centres x multiples of 15 degrees x argument forms",
    "The only test rotates one horizontal unit ray by half a turn, where errors cancel.",
    ["geometry.py"],
    [("rotation", "geometry.py:Ray.rotate")],
    ["Ray.rotate"],
)
prop(
    "C23",
    "Generated scenes are what their name and seed say",
    "A named scene has the documented room, obstacle and node placement for every admissible ratio and node coordinates (defaults included), whether built directly or by name, "
    "and its walls chain into the documented closed outlines. "
    "A random scene has exactly the requested numbers of nodes and walls, inside the unit square, no coordinate being shared between them, and is the same for the same key.",
    ["inputs", "configurations"],
    "all scene names x ratios x node coordinates; all counts up to 4x4x4 and a set of keys",
    "Tests check object counts of default scenes.",
    ["scene.py"],
    [("constructors", "scene.py:Scene.square_scene*, basic_scene, random_uniform_scene, from_scene_name, from_walls_array")],
    ["Scene class methods"],
)
prop(
    "C24",
    "Plotting draws exactly the requested parts with their data",
    "Plotting a scene draws on the given axes, and returns, exactly one artist per selected node (plus one annotation with its name when asked) and per selected object, "
    "with the right coordinates, in scene order, and with the options given for that group; nothing else is drawn. "
    "Points, rays, walls, vertices, surfaces and paths draw their own coordinates and honour user style over their defaults.",
    ["configurations", "inputs"],
    "all combinations of plot flags x option groups x small scenes",
    "Tests mostly check that plotting does not raise.",
    ["scene.py", "geometry.py"],
    [("composition", "scene.py:Scene.plot"), ("artists", "geometry.py:plot methods")],
    ["artists on the axes"],
)
prop(
    "C25",
    "Results do not depend on how the program is transformed",
    "Geometry, validity, tracing and accumulation give the same results when run eagerly, with compilation disabled, compiled, vectorised over a batch, or scanned, and again when the "
    "same compiled program is called on other data of the same shape. "
    "Nothing computed for one input leaks into the result for another.",
    ["programs", "configurations", "histories"],
    "all entry points x execution modes x pairs of inputs in both orders",
    "Tests run one mode with one input.",
    ["geometry.py", "scene.py", "logic.py", "optimize.py"],
    [("jit / filter_jit decorators with static arguments", "geometry.py, scene.py, logic.py, optimize.py")],
    ["all traced entry points"],
)
prop(
    "C26",
    "Stacking, unstacking and indexing objects round-trip",
    "Stacking objects and unstacking them gives back equal objects of the same kinds in the same order, scenes rebuilt from stacked objects or wall arrays hold the same objects, and "
    "fetching an object by a concrete or traced index gives that object (indices being clamped to the valid range). "
    "Scenes survive flattening and rebuilding as containers of their arrays.",
    ["inputs", "configurations"],
    "all object counts, kinds, indices and stacking axes up to a bound",
    "Tests check one list of walls.",
    ["geometry.py", "scene.py"],
    [("stack_leaves / unstack_leaves", "geometry.py"), ("get_object / stacked_objects / from_stacked_objects / from_walls_array", "scene.py")],
    ["stack_leaves, unstack_leaves, Scene.get_object, ..."],
)
prop(
    "C27",
    "Calls leave no trace in arguments, settings or later results",
    "No call modifies what it was given (scenes, objects, paths, option mappings, lists, arrays) or the settings of the process (approximation mode, jax and plotting settings, random state, environment), "
    "and every call returns what it returns when it is made first in a fresh process, whichever calls were made before, with whatever other arguments, including calls that failed and iterations that were given up. "
    "Only the documented settings (the global approximation mode and the compiled code that captured it) are remembered.",
    ["histories", "configurations"],
    "all histories over an alphabet of calls of every module with shared arguments, up to a depth, from every first call of a fresh process",
    "Tests call each function with its own arguments, in one fixed order, and do not look at the arguments afterwards.",
    ["scene.py", "geometry.py", "logic.py", "optimize.py", "utils.py", "abc.py"],
    [("defaults, compiled functions and option mappings", "scene.py, geometry.py, optimize.py")],
    ["all public entry points"],
)

if __name__ == "__main__":
    root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
    with open(os.path.join(root, "properties.jsonl"), "w") as f:
        for p in P:
            assert len(p["title"]) <= 80, p["title"]
            f.write(json.dumps(p) + "\n")
    print(len(P), "properties")
