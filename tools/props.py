"""Per-property configuration of the checks."""
SAN = "ASan+UBSan run with "
# interposes the monitors of harness/editmon.h
EDIT_WRAP = ["-Wl,--wrap=_ZN8tinymesh4Mesh%sEPNS_8HalfedgeE" % f for f in ("6flipHE", "7splitHE", "10collapseHE")]
# where numpy and scipy for the embedded interpreter are
PYPATH = "/opt/veriftools/pyvenv/lib/python3.12/site-packages"
PROPS = {
    "C01": dict(
        cases=dict(quick=1600, thorough=20000),
        require=["indexed", "soup", "aliased", "holes_seen", "verify_probes", "genus_positive", "multi_component"],
        technique=SAN + "independent topology oracle on generated surfaces",
        note="randomly generated manifold surfaces, each checked completely against an index-level oracle; held on the executions seen",
        rule="distinct triangle connectivity (hash of the index list) of surfaces with a boundary, several components or more than 20 triangles"),
    "C02": dict(
        cases=dict(quick=2400, thorough=30000), require=["repaired", "accepted", "reported"],
        technique=SAN + "outcome classification of mutated buffers in forked children",
        note="mutated vertex/index buffers (13 kinds of damage, combined), each built in a child under the sanitizers and validated completely",
        rule="distinct pairs of base connectivity and combination of damages"),
    "C05": dict(
        cases=dict(quick=600, thorough=9000), require=["flips", "refused_boundary", "refused_inner"],
        technique=SAN + "per-operation monitor: exact triangle-set transition",
        note="every single flip attempt is compared with the exact expected transition of the triangle set",
        rule="distinct connectivity of start meshes on which at least one flip happened"),
    "C06": dict(
        cases=dict(quick=600, thorough=9000), require=["splits", "refused"],
        technique=SAN + "per-operation monitor: exact triangle-set transition",
        note="every single split attempt is compared with the exact expected transition of the triangle set",
        rule="distinct connectivity of start meshes on which at least one split happened"),
    "C07": dict(
        cases=dict(quick=800, thorough=12000), require=["regular_collapses", "planar_collapses", "collapses", "face_collapses", "refused"],
        technique=SAN + "per-operation monitor: exact triangle-set transition, topology and fold-over oracle",
        note="every single collapse attempt is compared with the exact expected transition; planar patches for fold-over, regular ones for refusals",
        rule="distinct start meshes on which at least one collapse happened"),
    "C03": dict(
        cases=dict(quick=500, thorough=8000), require=["constructed_again", "loaded_again", "clones", "edits"],
        technique=SAN + "history monitor over a pool of mesh objects",
        note="random histories of construct/load/edit/clone/destroy on four objects; after each step the object is compared with a fresh one and all others with their last state",
        rule="distinct operation histories (hash of operation and object sequence)"),
    "C04": dict(
        cases=dict(quick=500, thorough=8000), require=["boundary_fans", "edited_meshes"],
        technique=SAN + "circulator sequences compared with index-level neighbourhoods",
        note="all circulators of all vertices and faces, pre- and post-increment, before and after edits",
        rule="distinct start connectivity"),
    "C08": dict(
        cases=dict(quick=400, thorough=5000), require=["flips", "splits", "collapses", "face_collapses", "moves", "rebuilds"],
        technique=SAN + "invariant monitor after every step of random edit histories",
        note="random interleavings of six edit kinds with per-history bias; invariants after each step, complete validation every few",
        rule="distinct histories (hash of start connectivity and outcome sequence)"),
    "C15": dict(
        cases=dict(quick=800, thorough=20000), require=["corner0", "corner1", "corner2", "edge0", "edge1", "edge2", "interior"],
        technique=SAN + "extended-precision reference by plane projection and edge tests",
        note="random triangles of five shapes and query points aimed at all seven regions, compared with an independent reference",
        rule="distinct query points (bit patterns) on non-degenerate triangles"),
    "C16": dict(
        cases=dict(quick=1200, thorough=16000), require=["from_mesh", "from_buffers", "copies", "rebuilds", "kind_coincident", "kind_same-centre", "kind_geometric"],
        technique=SAN + "brute-force reference over all triangles",
        note="eight families of triangle sets incl. coincident and geometrically spread ones; every query compared with brute force",
        rule="distinct triangle sets (hash of coordinates and indices)"),
    "C17": dict(
        cases=dict(quick=400, thorough=6000), require=["forward_dominates", "backward_dominates"],
        technique=SAN + "brute-force reference in both directions",
        note="pairs of unrelated, perturbed, one-vertex-moved and relabelled meshes; each per-vertex distance compared with brute force",
        rule="distinct pairs of meshes (hash of coordinates and indices)"),
    "C18": dict(
        cases=dict(quick=400, thorough=12000), require=["zero_divisions", "float2", "double7"],
        technique=SAN + "componentwise reference evaluation",
        note="every operator in nine type/dimension instances on operands with zeros, negative zeros, infinities and aliasing",
        rule="distinct operand pairs per type"),
    "C19": dict(
        cases=dict(quick=400, thorough=12000), require=["inside", "outside_1_axes", "outside_2_axes", "outside_3_axes"],
        technique=SAN + "per-axis reference",
        note="point sets merged in several orders and groupings, queries on, inside and outside each side",
        rule="distinct point sets"),
    "C20": dict(
        cases=dict(quick=600, thorough=20000), require=["cotangents", "obtuse", "acute", "dihedrals", "rotations_opposite", "rotations_near-opposite", "rotations_equal", "decompositions"],
        technique=SAN + "extended-precision reference and group identities",
        note="random, lattice, folded, straight and needle configurations; equal, opposite and nearly opposite vector pairs",
        rule="distinct corner configurations"),
    "C37": dict(
        cases=dict(quick=300, thorough=8000), require=["long_texts", "finished", "beyond_total", "bars_drawn"],
        technique=SAN + "captured output parsed and compared with the standard formatter and the step history",
        note="texts of length 0..16386 through all levels, bars with totals 1..2e8 under random step sequences",
        rule="distinct (length, argument) pairs and (total, step history) pairs"),
    "C12": dict(
        cases=dict(quick=500, thorough=10000), require=["locked_kept", "rim_kept", "moving_runs"],
        technique=SAN + "explicit lock record and position comparison around each filter",
        note="random lock/unlock sequences on open and closed meshes, compared with a record; smoothing compared vertex by vertex",
        rule="distinct (mesh, lock set) pairs"),
    "C13": dict(
        cases=dict(quick=500, thorough=10000), require=["closed", "open", "edited", "inner_normals", "rim_normals"],
        technique=SAN + "extended-precision reference on the exported triangles",
        note="every edge, face and vertex of random meshes at scales 1e-5..1e5 compared with an independent evaluation",
        rule="distinct meshes (hash of coordinates and indices)"),
    "C14": dict(
        cases=dict(quick=500, thorough=10000), require=["mean_curvatures", "obtuse_corners", "spheres_inward", "spheres_outward", "euler_2", "euler_0"],
        technique=SAN + "extended-precision reference, Gauss-Bonnet and sphere limits",
        note="every vertex of random closed meshes of genus 0..2 compared with an independent evaluation; global identities per mesh",
        rule="distinct meshes (hash of coordinates and indices)"),
    "C21": dict(
        cases=dict(quick=500, thorough=10000), require=["cotangent", "uniform", "with_locks", "open", "identity", "repeated", "many_rounds"],
        technique=SAN + "step-by-step independent evaluation",
        note="random meshes, strengths, weights, locks and iteration counts; all positions compared",
        rule="distinct (mesh, iteration count) pairs"),
    "C22": dict(
        cases=dict(quick=500, thorough=10000), require=["defaults", "with_locks", "open", "identity", "repeated", "many_rounds"],
        technique=SAN + "step-by-step independent evaluation",
        note="random meshes, factors, locks and iteration counts; all positions compared",
        rule="distinct (mesh, iteration count) pairs"),
    "C23": dict(
        cases=dict(quick=400, thorough=8000), require=["moving", "identity", "zero", "many_rounds"],
        technique=SAN + "residual of the stated linear equation evaluated independently",
        note="well-shaped closed meshes; residual tolerance 2e-5 relative (the solver states 1e-6)",
        rule="distinct (mesh, iteration count) pairs"),
    "C24": dict(
        cases=dict(quick=500, thorough=8000), require=["gaussian", "bilateral", "kernel_tails", "refused", "many_rounds"],
        technique=SAN + "step-by-step independent evaluation; open meshes in a child process",
        note="random closed meshes and widths; all positions compared after one to three iterations",
        rule="distinct (mesh, width) pairs"),
    "C26": dict(
        cases=dict(quick=400, thorough=8000), require=["closed", "open", "flat_interior"],
        technique=SAN + "entry-by-entry comparison with independent weights",
        note="all three types on random open and closed meshes, their renumberings and flat patches",
        rule="distinct meshes (hash of coordinates and indices)"),
    "C25": dict(
        cases=dict(quick=240, thorough=4000), require=["compared", "beyond", "cubes", "kept_edges", "flattened_edges"],
        technique=SAN + "dense independent evaluation of the alternating scheme",
        note="random closed meshes and weights; all positions compared unless a threshold is decided by rounding",
        rule="distinct (mesh, number of rounds) pairs"),
    "C09": dict(
        cases=dict(quick=1600, thorough=24000), require=["planar_convex", "planar_star", "all_closed", "several_holes", "least_area", "least_angle", "triangular"],
        technique=SAN + "exact triangle-set transition and independent optimal triangulation",
        note="random open surfaces and planar holes; each fill compared with the given surface element by element and with an independent dynamic programme",
        rule="distinct (surface, hole size) pairs"),
    "C10": dict(
        cases=dict(quick=800, thorough=12000), require=["with_new_vertices", "without_new_vertices", "flat", "other_holes", "large"],
        technique=SAN + "exact transition of the given surface; planarity and topology oracles",
        note="holes cut into spheres, tori, cubes, cylinders and planes; the given part is compared element by element",
        rule="distinct (surface, hole size) pairs"),
    "C11": dict(
        cases=dict(quick=64, thorough=400), require=["iterated", "with_targets", "spheres", "scaled"], full=True, hang=240,
        technique=SAN + "topology oracle and exact comparison of the given surface",
        note="closed models of 300 to 650 vertices with one to three holes and up to four iterations",
        rule="distinct (model, iteration count) pairs"),
    "C28": dict(
        cases=dict(quick=400, thorough=6000), require=["directions", "tensors", "spheres", "tori", "reversed", "reused"], full=True,
        technique=SAN + "independent long-double evaluation of tensors; analytic surfaces",
        note="random closed meshes, spheres and tori, right way round and inside out; every tensor, frame, curvature and direction compared",
        rule="distinct meshes (hash of coordinates and indices)"),
    "C29": dict(
        cases=dict(quick=320, thorough=5000), require=["derivatives", "directions", "extended", "featureless", "featureless_parts"], full=True,
        technique=SAN + "independent long-double evaluation of derivatives, flags and harmonic extension",
        note="random closed meshes of one or two components; flags are compared unless a sign is decided by rounding",
        rule="distinct meshes (hash of coordinates and indices)"),
    "C27": dict(
        cases=dict(quick=1600, thorough=24000), require=["compared", "refused", "renumbered", "cotangent", "adjacent"], full=True,
        technique=SAN + "dense eigendecomposition as reference",
        note="Laplacians of random connected meshes of up to 160 vertices, random numbers of eigenpairs and times; every entry compared",
        rule="distinct (mesh, K, number of times) triples"),
    "C31": dict(
        cases=dict(quick=1200, thorough=10000), require=["contractions", "at_best", "at_middle", "first_judged", "untouched", "refused", "open", "reached", "spheres", "verbose", "simplified", "flips", "smoothed", "no_flips_left", "later_judged"],
        extra_ld=EDIT_WRAP,
        technique=SAN + "link-time monitor of every contraction; topology and rim oracles",
        note="random surfaces, targets and numbers of trials; on closed meshes each contraction of the first pass is compared with an independent quadric",
        rule="distinct (mesh, target) pairs for which faces were removed"),
    "C30": dict(
        cases=dict(quick=600, thorough=9000), require=["splits", "collapse_attempts", "flip_attempts", "kept_vertices", "rim_vertices", "no_iteration", "only_splits", "only_collapses", "only_flips", "with_short_edges", "evened"],
        extra_ld=EDIT_WRAP,
        technique=SAN + "link-time monitor of every edit; topology, lock and rim oracles; controlled visiting order",
        note="random surfaces, limits, keep angles, locks and iteration counts; the random order of visits is drawn from the seed",
        rule="distinct (mesh, visiting order) pairs with at least one iteration"),
    "C32": dict(
        cases=dict(quick=1600, thorough=24000), require=["edited", "filled", "overwritten", "obj_round_trips", "ply_round_trips", "foreign"],
        technique=SAN + "independent readers and writers of both formats",
        note="generated and edited meshes of all magnitudes; the bytes written are read back by parsers of the harness, and files of other styles are written by it",
        rule="distinct (mesh, magnitude, format) combinations that made the round trip"),
    "C33": dict(
        cases=dict(quick=700, thorough=14000), require=["truncated_obj", "truncated_ply", "damaged", "malformed", "unreadable", "unwritable", "short_write", "reported", "loaded", "compared"],
        technique=SAN + "outcome classification of damaged files and failing I/O in forked children",
        note="truncations, byte damage, malformed contents, unreadable and unwritable paths and disks that fill up, each in a child under the sanitizers",
        rule="distinct (mesh, case) pairs, each with up to twelve damaged files or failing paths"),
    "C34": dict(
        cases=dict(quick=1600, thorough=24000), full=True, require=["smoothLaplacian", "smoothTaubin", "denoiseNormalGaussian", "denoiseNormalBilateral"],
        runs=[dict(config="tsan", extra_src=["vgomp.cpp"], extra_cc=["-DVGOMP", "-DVGOMP_TSAN"], cases=dict(quick=600, thorough=7000), optional=True),
              dict(config="sched", extra_src=["vgomp.cpp"], extra_cc=["-DVGOMP", "-DVGOMP_FIBERS"], cases=dict(quick=2400, thorough=30000), optional=True),
              dict(config="asan", cases=dict(quick=400, thorough=4000), shards=4, env=dict(OMP_WAIT_POLICY="passive", GOMP_SPINCOUNT="0"))],
        technique="ThreadSanitizer on an instrumented OpenMP runtime; order-exploring runtime; ASan+UBSan run on the real one",
        note="all filters and operators with 1 to as many threads as iterations; races are judged by happens-before, orders are drawn at random",
        rule="distinct (mesh, operation) pairs whose results with several thread counts were compared with the single-threaded one"),
    "C35": dict(
        cases=dict(quick=6000, thorough=90000), full=True, require=["moved", "scaled", "renumbered", "combined"],
        technique=SAN + "metamorphic comparison of two executions",
        note="every filter, measure, operator and the minimum-dihedral fill on a mesh and its moved, scaled or renumbered copy",
        rule="distinct (mesh, operation, kind of change) combinations whose two executions were compared"),
    "C36": dict(
        cases=dict(quick=2500, thorough=25000), full=True, hang=120,
        technique=SAN + "structure validation and identity of held elements after each stage",
        note="chains of 3-8 (thorough 3-12) operations drawn from all of the library, on closed, open and cut surfaces",
        rule="distinct (mesh, chain of operations) histories"),
    "C38": dict(
        cases=dict(quick=1600, thorough=18000), full=True, hang=120,
        require=["elements", "lifetimes", "errors", "metrics", "files", "holes", "defaults used"],
        runs=[dict(config="py", extra_src=["@REPO@/src/pybind11.cpp"], extra_ld=["-rdynamic"])],
        env=dict(PYTHONMALLOC="malloc", PYTHONPATH=PYPATH),
        technique=SAN + "differential monitor: embedded interpreter against direct calls in the same process",
        note="constructors, elements, all functions with arguments by position, by name and left out, errors, lifetimes, files",
        rule="distinct (mesh, kind of use) pairs compared"),
    "C39": dict(
        cases=dict(quick=12, thorough=72), full=True, hang=400, shards=8,
        require=["construct", "files", "edits", "simplify"],
        technique=SAN + "oracles of linear cost on meshes of 66000 to 72000 vertices",
        note="a torus, a wavy sheet, 17000 components or a fan of 66000 triangles per case, twelve kinds of use",
        rule="distinct (mesh, kind of use) pairs"),
}
