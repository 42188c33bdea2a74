#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (the single place where the property texts live)."""
import json, os
P = []
def p(id, title, statement, over, qtext, why, files, mechanism, state=None, observe=None, hook=False):
    a = {"files": files, "mechanism": [{"name": x, "where": ", ".join(files)} for x in mechanism]}
    if state: a["state"] = [{"name": x, "where": files[0]} for x in state]
    if observe: a["observe_at"] = observe
    a["hook_needed"] = hook or None
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": qtext},
              "why_tests_cant": why, "anchors": a})

G = "src/assembly/global.rs"
PD = ["fenris-paradis/src/lib.rs", "fenris-paradis/src/adapter.rs", "fenris-paradis/src/slice.rs", "fenris-paradis/src/coloring.rs"]

p("A01", "Parallel matrix assembly is the sum of element contributions on any schedule",
  "For every element assembler whose elements have distinct nodes and every conflict-free coloring, CsrParAssembler::assemble and assemble_into_csr leave in every stored entry (i,j) the entry's previous value (zero for assemble) plus exactly the sum over all elements of their local matrix entries mapped to (i,j), and touch nothing else. The result is the one CsrAssembler computes (bit for bit when the sums are exactly representable; for inexact sums bit for bit the same across thread counts and schedules), and every call terminates.",
  ["schedules", "inputs", "configurations"],
  "Every thread count, work-stealing decision and interleaving (down to individual loads and stores), every element count, node count per element (including zero), node numbering, solution dimension and coloring.",
  "A lost or doubled update needs two workers inside the same CSR row at the same instant, or a batch/chunk boundary hit by a particular element count; tests run one uncontrolled schedule of a few meshes.",
  [G, "fenris-sparse/src/sparse.rs"] + PD,
  ["CsrParAssembler::assemble_into_csr", "CsrAssembler::assemble_into_csr", "add_element_row_to_csr_row", "ParallelCsrRowCollection", "BlockAdapter", "DisjointSubsets::subsets_par_iter"],
  ["CsrParAssembler.workspace (ThreadLocal)", "csr values"], ["CsrParAssembler::assemble", "CsrParAssembler::assemble_into_csr"])

p("A02", "Parallel sparsity pattern equals the exact node adjacency on any schedule",
  "CsrParAssembler::assemble_pattern and CsrAssembler::assemble_pattern return the same pattern: square of size solution_dim * num_nodes, where row s*I+a holds exactly the columns s*J+b of all nodes J that share at least one element with node I (including I itself if it is in any element), sorted and without duplicates; nodes in no element give empty rows. This holds for every schedule and thread count and for any number of elements and nodes, and the call terminates.",
  ["schedules", "inputs", "configurations"],
  "Every interleaving of the batch workers contending for the per-node locks, every thread count, every element/node count around the internal batch size, any node numbering and solution dimension.",
  "Concurrent insertion into per-node sets and unchecked disjoint writes of column indices only go wrong for particular interleavings or sizes not a multiple of the internal batch.",
  [G], ["CsrParAssembler::assemble_pattern", "CsrAssembler::assemble_pattern"], ["node_sets: Vec<Mutex<FxHashSet>>", "node_buffer: ThreadLocal"],
  ["CsrParAssembler::assemble_pattern", "CsrAssembler::assemble_pattern"])

p("A03", "Parallel vector assembly is the sum of element contributions on any schedule",
  "For every element vector assembler and conflict-free coloring, VectorParAssembler::assemble_vector(_into) leaves in every entry its previous value (zero for assemble_vector) plus exactly the sum of the element vector entries mapped to it, each element counted once. It agrees with VectorAssembler (bit for bit when sums are exactly representable, and bit for bit across schedules and thread counts otherwise), and every call terminates.",
  ["schedules", "inputs", "configurations"],
  "Every thread count, stealing decision and load/store interleaving; every element count, element size, numbering, solution dimension, coloring, and initial vector content.",
  "A lost update or a per-thread buffer leaking between elements needs a particular interleaving of workers or a particular order of element sizes on one thread.",
  [G] + PD[:3], ["VectorParAssembler::assemble_vector_into", "VectorAssembler::assemble_vector_into", "add_local_to_global"],
  ["VectorParAssembler.workspace (ThreadLocal)"], ["VectorParAssembler::assemble_vector", "VectorParAssembler::assemble_vector_into"])

p("A04", "Parallel scalar assembly counts every element exactly once on any schedule",
  "par_assemble_scalar and par_compute_global_potential call the element assembler exactly once for every element index in 0..num_elements when no element fails, and return the sum of the element scalars: equal to assemble_scalar exactly when the sums are exactly representable, and up to reassociation of the additions otherwise (zero for no elements). The call terminates on every schedule.",
  ["schedules", "inputs", "configurations"],
  "Every split tree, thread count and interleaving of the parallel reduction; every number of elements including zero and one.",
  "The reduction tree depends on which worker steals when, so a mishandled identity or partial sum shows only for some splits.",
  [G], ["par_assemble_scalar", "assemble_scalar", "compute_global_potential", "par_compute_global_potential"], None, ["par_assemble_scalar", "assemble_scalar"])

p("A05", "Element failures surface as errors, never as results or hangs",
  "If the element assembler fails (returns Err) for one or more elements, then every assembly routine (matrix, vector, scalar; serial and parallel; also through the aggregate, transform and node-mapping adapters) returns an Err that carries one of the injected errors, never Ok; a serial routine returns the error of the lowest-indexed failing element and evaluates no element after it. A panic in an element callback propagates to the caller as that panic, and in every case the call terminates.",
  ["fault_sequences", "schedules", "inputs"],
  "Any subset of elements failing or panicking, at any callback, on any worker, under every schedule and thread count.",
  "Error paths under concurrency depend on which worker fails while which others are in flight; tests do not inject failures into parallel assembly.",
  [G, "src/assembly/local.rs", "fenris-paradis/src/lib.rs"],
  ["collect::<eyre::Result<()>>", "try_reduce", "AggregateElementAssembler", "TransformElementScalar/Vector/Matrix", "MapElementNodes"], None,
  ["assemble*", "par_assemble_scalar"])

p("A06", "Assemblers are reusable: history, failures and concurrent callers leave no trace",
  "A matrix or vector assembler object gives, for each call in any sequence of calls (different meshes, element sizes and solution dimensions, calls that returned Err or panicked, patterns and matrices interleaved), exactly the result a fresh assembler would give. The same holds when one parallel assembler object is used by several caller threads at the same time, and for assembly into matrices and vectors that already hold values.",
  ["histories", "schedules", "fault_sequences"],
  "Every sequence of calls on one assembler including failed ones, every interleaving of concurrent callers sharing an assembler.",
  "Stale buffers show up only after a specific earlier call (larger element, failed call) ran on the same thread.",
  [G], ["CsrAssemblerWorkspace", "VectorAssemblerWorkspace", "ThreadLocal workspaces"], ["CsrParAssembler.workspace", "VectorParAssembler.workspace", "CsrAssembler.workspace", "VectorAssembler.workspace"],
  ["CsrAssembler", "CsrParAssembler", "VectorAssembler", "VectorParAssembler"])

p("A07", "Local element assemblers do not depend on thread or on earlier calls",
  "For the elliptic, mass, source, element-integral and interpolation routines, what is computed for an element or point (matrix, vector, scalar, interpolated value or gradient) is bit for bit the same on whichever thread it runs and whatever other elements, spaces, quadratures, operators, failed or panicking calls the same thread handled before, as in a fresh thread that computes only it. Consequently global matrices and vectors assembled from them in parallel are bitwise identical for every thread count and schedule.",
  ["schedules", "histories", "fault_sequences"],
  "Every assignment of elements to threads, every order of calls over heterogeneous element types, quadrature sizes and solution dimensions on one thread, including calls after a failed or panicking one.",
  "Thread-local workspaces carry buffers from one call to the next; a wrong reuse shows only for the order of calls a given schedule produces.",
  ["src/assembly/local/elliptic.rs", "src/assembly/local/mass.rs", "src/assembly/local/source.rs", "src/integrate.rs", "src/space/interpolate.rs", "src/assembly/buffers.rs"],
  ["define_thread_local_workspace!", "with_thread_local_workspace", "QuadratureBuffer", "BasisFunctionBuffer", "InterpolationBuffer"],
  ["thread-local WORKSPACE, INTERPOLATE_WORKSPACE"], ["assemble_element_matrix_into", "assemble_element_vector_into", "assemble_element_scalar", "interpolate_at_points", "interpolate_gradient_at_points"])

p("A08", "Element coloring covers every element once, without conflicts",
  "For every connectivity (in which no element lists a node twice), color_nodes returns subsets whose labels together are each element index exactly once, whose indices for an element are exactly its nodes in order, and in which no two elements of one color share a node. Hence parallel matrix and vector assembly driven by that coloring processes each element exactly once and never lets two workers touch the same node at the same time.",
  ["inputs", "schedules"],
  "All hypergraph connectivities (any element sizes including zero, any node indices, any sharing structure) and every schedule of the assembly that uses the coloring.",
  "A conflicting color is harmless on most schedules: the result is wrong only if two workers are in the shared node at once.",
  [G, "fenris-paradis/src/coloring.rs", "fenris-paradis/src/lib.rs"], ["color_nodes", "sequential_greedy_coloring", "DisjointSubsets::try_from_disjoint_subsets"], None, ["color_nodes", "sequential_greedy_coloring"])

p("B01", "Parallel subset iteration visits each subset exactly once, with exclusive access",
  "DisjointSubsets::subsets_par_iter over any ParallelIndexedCollection large enough to contain all indices yields each subset exactly once, with its own label and exactly its own global indices in order, whose get/get_mut(i) refer to element global_indices()[i] of the collection. It does so in order under indexed adaptors (zip, enumerate, collect, with_min_len, chunks, rev), for every splitting and schedule, and no element of the collection is ever accessible from two workers at the same time. Consumers that skip, take or stop early see exactly the subsets they ask for.",
  ["schedules", "inputs", "configurations"],
  "Every family of disjoint subsets (including empty subsets and no subsets), every producer split, stealing decision and interleaving, every indexed adaptor.",
  "The split arithmetic and the unsafe aliasing only matter for the particular split trees and overlaps a schedule produces.",
  PD[:3], ["DisjointSubsets::subsets_par_iter", "DisjointSubsetsParIter (Producer::split_at)", "SubsetAccessMut"], ["DisjointSubsets"], ["subsets_par_iter"])

p("B02", "Disjointness violations are rejected before any parallel access",
  "DisjointSubsets::try_from_disjoint_subsets accepts a family exactly when no index occurs in two different subsets (an index may be listed twice within one subset), panics rather than accepts when the number of labels differs from the number of subsets, subset iteration over a collection that is too short for the largest index panics before any element is accessed, and BlockAdapter maps block i of size b to exactly the elements b*i..b*(i+1). Disjointness of blocks therefore carries over to the adapted collection, also when it is stacked or used by several workers at once.",
  ["inputs", "schedules"],
  "All families of index lists, collection lengths around the required maximum, block sizes (including ones that do not divide the collection) and schedules.",
  "The boundary between accept and reject guards unsafe aliasing; a single wrong acceptance is memory-unsafe only for rare schedules.",
  PD[:3] + ["fenris-sparse/src/sparse.rs"], ["DisjointSubsets::try_from_disjoint_subsets", "BlockAdapter", "ParallelCsrRowCollection", "subsets_par_iter bounds check"], None,
  ["try_from_disjoint_subsets", "subsets_par_iter", "BlockAdapter::with_block_size"])

p("B03", "Parallel CSR row access gives each worker exactly its own rows",
  "ParallelCsrRowCollection hands out, for row i, exactly the column indices and the mutable values of row i of the underlying matrix; concurrent updates of different rows through it (directly in slices, through disjoint subsets, or through BlockAdapter) on any schedule leave the matrix exactly as the same updates applied one after another to a plain list of rows. No other row, no column index and no offset changes.",
  ["schedules", "inputs"],
  "Every CSR matrix (empty rows, first/last rows, full rows), every disjoint family of rows, every schedule and thread count.",
  "Pointer arithmetic over unsafe row views goes wrong for particular row layouts and simultaneous accesses which tests do not reach.",
  ["fenris-sparse/src/sparse.rs", "fenris-paradis/src/adapter.rs"], ["ParallelCsrRowCollection", "CsrRowMut/CsrRow access"], None, ["ParallelCsrRowCollection::create_access", "get_unchecked_mut"])

p("F01", "Parallel interpolator construction equals the serial one on any schedule",
  "FixedInterpolator::from_space_and_points_par gives an interpolator equal, bit for bit, to the one from_space_and_points gives for the same space, points and compute flags, for every thread count and schedule and every number of points (including zero). Interpolating values and gradients with it agrees with direct interpolation (interpolate_at_points and interpolate_gradient_at_points) at every point, including for several caller threads using one interpolator and one space at the same time.",
  ["schedules", "inputs", "configurations"],
  "Every split and schedule of the parallel loop over points, every point set, space and flag combination, concurrent users.",
  "The parallel path flattens per-point results collected by different workers; ordering or offset errors depend on the split and on points in different element types.",
  ["src/space/fixed_interpolator.rs", "src/space/spatially_indexed.rs", "src/space/interpolate.rs"], ["from_space_and_points_par", "from_space_and_points", "SpatiallyIndexed"], None,
  ["FixedInterpolator::interpolate", "FixedInterpolator::interpolate_gradients"])

p("I01", "Loading an MSH file yields the file's mesh or an error, under any I/O fault",
  "load_msh_from_file returns Ok only with exactly the mesh described by the bytes of the file (all nodes in file order, exactly the elements of the requested type, in order, with valid zero-based indices), however reads are split or interrupted. If opening or reading fails at any point, or the stored bytes are truncated or altered so that no valid mesh is described (bad counts, node references to tag zero or beyond the node count, sparse tags, missing sections), it returns Err; it does not panic or hang.",
  ["fault_sequences", "inputs"],
  "Every short read, EINTR and I/O error at every read, every truncation point and byte or token corruption of the file, every supported element type and multi-block layout.",
  "Tests load a handful of intact files from a healthy disk; which read fails or which token is damaged is a space they do not sample.",
  ["src/io/msh.rs"], ["load_msh_from_file", "load_msh_from_bytes", "vertices_from_node_block", "connectivity_from_element_block", "impl_msh_connectivity!"], None, ["load_msh_from_file", "load_msh_from_bytes"])

p("I02", "A successful VTK export means a complete file that describes the mesh",
  "If FiniteElementMeshDataSetBuilder::try_export returns Ok, the named file exists (missing parent directories were created), is complete, and parses back to exactly the mesh's points, cells, cell types and all attributes given, in order, for both .vtk and .vtu. If any file-system operation fails persistently (create, write, disk full), it returns Err rather than Ok with a missing or truncated file, and short or interrupted writes never change the content.",
  ["fault_sequences", "inputs"],
  "Every I/O fault (short write, EINTR, ENOSPC after any number of bytes, EIO, EACCES) at every file-system call, every mesh type, attribute set, extension and pre-existing file.",
  "Tests write to a healthy disk; a lost error on one particular write or flush needs that write to fail.",
  ["src/io/vtk.rs"], ["FiniteElementMeshDataSetBuilder::try_export", "try_build", "VtkCellConnectivity"], None, ["try_export"])

p("I03", "A successful matrix or connectivity dump means a complete, faithful file",
  "If dump_matrix_to_file, dump_csr_matrix_to_mm_file or dump_mesh_connectivity_matrices returns Ok, then each named file is complete and reads back to exactly the matrix (shape, every entry, exact values) or the adjacency structure of the mesh. If an I/O operation fails persistently at any point the call returns Err; short or interrupted writes never change the content.",
  ["fault_sequences", "inputs"],
  "Every I/O fault at every file-system call; every matrix shape, sparsity and value.",
  "Only a fault at one particular write or flush shows a swallowed error; no test injects one.",
  ["src/util.rs"], ["dump_matrix_to_file", "dump_csr_matrix_to_mm_file", "dump_mesh_connectivity_matrices"], None, ["dump_*"])

p("S01", "Conjugate gradient reports failures faithfully, never false convergence",
  "ConjugateGradient::solve_with_guess resets the stopping criterion once at the start of every solve, returns Ok only if the criterion accepted the current iterate (or b is zero and x is set to zero), returns the matching error kind carrying the original error when operator, preconditioner or stopping criterion fails at any call, and returns MaxIterationsReached rather than perform more than max_iter updates of x, but only after the criterion has been asked about the iterate reached by the last of them. A search direction or residual for which the operator or preconditioner is clearly indefinite is reported as IndefiniteOperator or IndefinitePreconditioner, not passed over. In every outcome num_iterations is the number of updates applied to x, x is the iterate after exactly that many updates of the fault-free run, and the next solve with the same workspace (any size, any history of failures) is bit for bit what a fresh solver gives, with any operators, including the library's own (CSR and dense matrices, identity), which overwrite their output whatever it held.",
  ["fault_sequences", "histories", "inputs"],
  "Failure injected at every operator, preconditioner and criterion call, every max_iter, every sequence of solves of differing sizes on one workspace.",
  "Tests exercise converging solves with fresh or same-size workspaces and no failing callback.",
  ["fenris-sparse/src/cg.rs"], ["ConjugateGradient::solve_with_guess_", "CgWorkspace::prepare_buffers", "SolveErrorKind"], ["CgWorkspace"], ["ConjugateGradient::solve_with_guess"])

p("S02", "Newton stops exactly when converged, out of iterations, or a callback fails",
  "newton and newton_line_search return Ok(k) only if the function value at the returned x has norm at most the tolerance (never if it is NaN), after exactly k steps; they return JacobianError or LineSearchError carrying the original error as soon as the corresponding callback fails, and MaximumIterationsReached(m) exactly when m = max_iterations steps did not converge. On return x is the iterate reached by the completed steps and f is the function value at x (except after a failed line search), whatever the buffers f and dx held before. A step accepted by the backtracking line search does not increase the norm of f. It gives up only after steps of all sizes were tried and none decreased it.",
  ["fault_sequences", "histories", "inputs"],
  "Failure injected at every solve_jacobian_system and line search call, every max_iterations, every tolerance, every starting point and buffer content.",
  "Tests run a few converging problems and never make a callback fail at a chosen iteration.",
  ["fenris-optimize/src/newton.rs"], ["newton", "newton_line_search", "NoLineSearch", "BacktrackingLineSearch"], None, ["newton", "newton_line_search"])

p("H01", "Mesh operations give the same mesh in every process, thread and hash seed",
  "Mesh conversions, refinements, sub-mesh extraction (keep_cells), boundary extraction and polymesh operations are functions of their input only: repeating one on an equal input in another process, on another thread, or after other maps were created gives a bit-for-bit equal result (vertex numbering, connectivity order and coordinates). In particular no output order depends on the iteration order of a randomly seeded hash map, and none depends on an earlier call that panicked. The results are also right: keep_cells keeps exactly the chosen cells in the chosen order over the same points and no unused vertex; boundary extraction gives exactly the faces that belong to one cell only, with the vertices they use; conversion to a higher order and uniform refinement keep the original vertices, put the new nodes at the edge, face and cell positions, and share each one between exactly the cells that share that edge or face; PolyMesh conversion, deduplication, splitting, concatenation and keep_cells keep exactly the faces, cells and points they state; cutting by a half space or a convex polyhedron leaves of each convex cell exactly its part inside, triangulation keeps the points and the volume and stays conforming, and converting to tetrahedra keeps the cells, right side out.",
  ["configurations", "schedules", "inputs"],
  "Every seed of the standard library's randomised hasher and every calling thread, for all input meshes.",
  "The hasher is seeded once per process from the OS; a test run sees one seed per process and cannot choose or repeat it.",
  ["src/mesh.rs", "src/mesh_convert.rs", "src/mesh/refinement.rs", "fenris-geometry/src/polymesh.rs", "src/mesh/reorder.rs"],
  ["HashMap in keep_cells", "HashMap in From<Mesh> conversions", "refinement edge maps", "PolyMesh::from / keep_cells"], None, ["keep_cells", "Tri6d2Mesh::from", "refine_uniformly", "PolyMesh"])

p("E01", "A complete analysis gives the same correct result on every schedule, or an error",
  "An analysis put together from the library's parts (load a mesh file, raise the elements to second order, renumber with reorder_mesh_par, find the boundary, color_nodes, assemble matrix, residual, source and energy in parallel with elliptic operators or the elastic materials, apply homogeneous Dirichlet conditions, solve with CG within Newton with line search, interpolate at points through SpatiallyIndexed, export the result) ends with bit-for-bit the same mesh, nodal values, interpolated values and result file for any number of threads and any schedule, with other analyses running at the same time on the same pool, and after analyses with the same assemblers and CG workspace that failed or panicked. Prescribed boundary values of an affine field (of a quadratic field with its constant source term, for the Laplace operator and second-order elements of affine geometry) give that field at every node, its energy, and its values at interpolated points, up to solver tolerance, for every element type, material, mesh and numbering; the mass matrix gives its squared norm, the error estimates give its exact distance from a known field, and applying Dirichlet conditions changes exactly the given nodes' rows, columns and right-hand side entries (with a positive diagonal, whatever it was), and the element found for a point anywhere is the closest one. An element assembler that fails, a panic in it, or a disk operation that fails ends the analysis with that error or panic: it is never reported as success, and a reported success means the complete result file is there.",
  ["schedules", "fault_sequences", "histories", "configurations", "inputs"],
  "Every schedule, number of threads and concurrent callers, history of failed analyses and I/O faults, for every mesh, element type and material.",
  "Tests run each stage by itself, on one schedule, without faults and with fresh tools; errors that arise only from stages sharing workspaces, pools and threads do not show.",
  ["src/assembly/global.rs", "src/assembly/local/elliptic.rs", "src/mesh/reorder.rs", "src/mesh.rs", "src/io/msh.rs", "src/io/vtk.rs", "fenris-sparse/src/cg.rs", "fenris-optimize/src/newton.rs", "fenris-solid/src/materials.rs", "src/space/spatially_indexed.rs"],
  ["CsrParAssembler", "VectorParAssembler", "apply_homogeneous_dirichlet_bc_csr", "apply_homogeneous_dirichlet_bc_rhs", "find_boundary_vertices", "SpatiallyIndexed", "fenris-solid materials", "reorder_mesh_par", "load_msh_from_file", "FiniteElementMeshDataSetBuilder::try_export"], None, ["assemble_into_csr", "newton_line_search", "solve_with_guess", "try_export"])

p("D01", "Stored values read back equal, and altered ones never yield an unsound value",
  "NestedVec, DisjointSubsets, quadrature tables, Mesh, PolyMesh, FixedInterpolator, geometry primitive, connectivity and material values written with serde (in a textual or a binary format) read back equal to the original. If the stored form was truncated or altered, deserialisation gives either an error (never a panic) or a value that upholds its type's invariants: every array of a NestedVec is there and within its data, the subsets of DisjointSubsets are disjoint with one label each, and subsets_par_iter refuses a collection shorter than the largest index. Using such a value through safe methods may panic at a bounds check but never gives two workers access to the same element and never reads outside the data.",
  ["fault_sequences", "inputs", "schedules"],
  "Every corruption of the stored form of every value (bit flips, truncation, torn writes, altered, dropped, duplicated or exchanged values), followed by use on any schedule.",
  "Corruption is a fault no test injects, and the damage shows only when two workers then alias an element.",
  ["fenris-paradis/src/lib.rs", "fenris-nested-vec/src/lib.rs", "src/mesh.rs", "src/assembly/local/quadrature_table.rs", "fenris-geometry/src/polymesh.rs", "src/space/fixed_interpolator.rs"],
  ["Deserialize for DisjointSubsets", "Deserialize for NestedVec", "Deserialize for Mesh", "Deserialize for quadrature tables", "Deserialize for PolyMesh"], None, ["serde_json::from_slice", "bincode::deserialize"])

p("N01", "NestedVec behaves as a vector of vectors, also after a panicking operation",
  "After any sequence of operations, a NestedVec shows through len, get, get_mut, iter, last, total_num_elements and equality exactly the contents of a Vec<Vec<T>> on which the same operations were performed. If an operation is interrupted by a panic in user code (element clone or iterator), the NestedVec remains usable and shows either the contents before the operation or those contents plus elements the interrupted operation had already completed, never inconsistent offsets.",
  ["histories", "fault_sequences"],
  "Every history of pushes, array extensions, clears and mutations, with a panic injected at any callback.",
  "A unit test checks a few fixed histories without interruptions.",
  ["fenris-nested-vec/src/lib.rs"], ["NestedVec::push", "NestedVec::begin_array / ArrayAppender", "NestedVec::clear"], ["data, offsets_begin, offsets_end"], ["NestedVec"])

p("R01", "Parallel mesh reordering is a valid permutation, the same on every schedule",
  "reorder_mesh_par returns, for every mesh (including disconnected meshes and unused vertices), valid permutations of all vertices and all cells, bit for bit the same for every schedule and thread count and equal to the reverse Cuthill-McKee permutation of the serially assembled node adjacency. Applying them gives a mesh with the same cells over the same points (only renumbered and reordered), and the call terminates.",
  ["schedules", "configurations", "inputs"],
  "Every interleaving and thread count of the parallel pattern assembly inside, every mesh topology.",
  "Tests reorder a few meshes on one schedule; a schedule-dependent adjacency or an unvisited component shows for particular meshes and interleavings only.",
  ["src/mesh/reorder.rs", G], ["reorder_mesh_par", "cuthill_mckee", "reverse_cuthill_mckee", "MeshPermutation::apply"], None, ["reorder_mesh_par"])

# ---- properties for which deterministic simulation is not applicable (pure functions of their input)
p("Q01", "Quadrature rules integrate polynomials exactly up to their stated strength",
  "Every rule returned by fenris-quadrature and fenris::quadrature for strength s integrates every polynomial of total (or per-variable) degree at most s over its reference domain exactly up to rounding, with weights summing to the domain's volume; subdivided and tensor rules preserve this.",
  ["inputs"], "All strengths, all reference domains, all polynomials up to the degree, all subdivision counts.",
  "Tests check particular monomials and strengths.",
  ["fenris-quadrature/src/lib.rs", "fenris-quadrature/src/univariate.rs", "src/quadrature/subdivide.rs", "src/quadrature/canonical.rs"], ["gauss", "tensor rules", "subdivide_univariate", "total_order"], None, ["quadrature::*"])
p("Q02", "Element bases are nodal partitions of unity with consistent gradients",
  "For each finite element, basis function i is one at node i and zero at every other node, the basis sums to one and its gradients sum to zero everywhere, gradients are the derivatives of the basis, and map_reference_coords and reference_jacobian are consistent.",
  ["inputs"], "All elements, all reference points, all vertex positions.",
  "Tests sample points.", ["src/element.rs", "src/element/"], ["FiniteElement::evaluate_basis", "gradients", "reference_jacobian"], None, ["ReferenceFiniteElement"])
p("Q03", "Mesh conversion and refinement preserve geometry and conformity",
  "Degree elevation, splitting into simplices, uniform refinement, boundary extraction and procedural generation keep the covered domain, create one vertex per shared edge/face midpoint, keep orientation, and give conforming meshes.",
  ["inputs"], "All meshes.", "Tests use a few meshes.", ["src/mesh_convert.rs", "src/mesh/refinement.rs", "src/mesh/procedural.rs", "src/mesh.rs"], ["From<Mesh>", "refine_uniformly", "find_boundary_faces"], None, ["mesh operations"])
p("Q04", "Closest-point and spatial queries return a true closest element",
  "find_closest_element_and_reference_coords on a spatially indexed space returns an element and coordinates whose physical point is no farther from the query than any other point of the mesh, the same as brute force over all elements.",
  ["inputs"], "All meshes and query points.", "Tests sample points.", ["src/space/spatially_indexed.rs", "src/element.rs"], ["SpatiallyIndexed", "ClosestPointInElement"], None, ["find_closest_element_and_reference_coords"])
p("Q05", "Material stress and stiffness are the exact derivatives of the energy",
  "For every hyperelastic material in fenris-solid the stress tensor is the gradient of the energy density and the stress contraction its second derivative, energies are frame indifferent, and stable log-det agrees with log(det F).",
  ["inputs"], "All deformation gradients and parameters.", "Tests use numerical differentiation at samples.", ["fenris-solid/src/materials.rs", "fenris-solid/src/lib.rs", "fenris-solid/src/logdet.rs"], ["HyperelasticMaterial", "MaterialEllipticOperator"], None, ["compute_energy_density"])
p("Q06", "Dirichlet conditions and local-global transfer act on exactly the given nodes",
  "apply_homogeneous_dirichlet_bc_* zero exactly the rows and columns of the constrained degrees of freedom (diagonal set to a nonzero scale) and the right-hand-side entries, keep the pattern and symmetry; gather_global_to_local and add_local_to_global are mutually transposed selections.",
  ["inputs"], "All matrices and node sets.", "Tests use few matrices.", ["src/assembly/global.rs"], ["apply_homogeneous_dirichlet_bc_csr", "gather_global_to_local", "add_local_to_global"], None, ["apply_homogeneous_dirichlet_bc_csr"])
p("Q07", "Geometric predicates, distances and polytope clipping are correct",
  "Convex polygon and polyhedron intersection, clipping, closest points, volumes, bounding boxes and signed distance functions in fenris-geometry return the mathematically correct result up to rounding for all non-degenerate inputs.",
  ["inputs"], "All geometric inputs.", "Tests sample inputs.", ["fenris-geometry/src/lib.rs", "fenris-geometry/src/polygon.rs", "fenris-geometry/src/polytope.rs", "fenris-geometry/src/sdf.rs"], ["clip", "intersect", "SignedDistanceFunction"], None, ["fenris-geometry"])
p("Q09", "Error estimators and integrals converge to the exact norm",
  "L2 and H1-seminorm error estimation and element integrals equal the quadrature sum of the exact integrand over all elements.",
  ["inputs"], "All spaces, functions and rules.", "Tests use a few functions.", ["src/integrate.rs", "src/error.rs"], ["integrate_over_element", "estimate_L2_error"], None, ["estimate_L2_error"])

with open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl"), "w") as f:
    for x in P:
        f.write(json.dumps(x) + "\n")
for x in P:
    assert len(x["title"]) <= 80, (x["id"], len(x["title"]))
print(len(P), "properties")
