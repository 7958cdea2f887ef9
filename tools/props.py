"""Source of properties.jsonl and MANIFEST.json (run: python3 tools/props.py)."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []
def prop(id, title, statement, over, qtext, why, files, mech, technique, level, note, state="", observe="", na=None):
    anchors = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if state: anchors["state"] = [{"name": state}]
    if observe: anchors["observe_at"] = [observe]
    anchors["hook_needed"] = None
    P.append(dict(p=dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=qtext), why_tests_cant=why, anchors=anchors),
                  technique=technique, level=level, note=note, na=na))

prop("C01", "Generated C kernels compute the symbolic expressions they came from",
 "For every list of symbolic expressions and every combination of code generation options (common-subexpression elimination on or off, factoring preprocessing, golden kernels, SIMD with any pattern-matching options, float/double/long double, temporaries' name prefix, symbol renaming, scalar temporaries), the emitted C compiles and assigns to each output variable the value of its own expression, to rounding error.",
 ["inputs", "programs", "configurations"], "All expression lists of the supported function set, all option combinations, all evaluation points in the domain.",
 "The tests compare text for a few expressions and never run the C; a rewrite rule that is wrong for one term shape, sign pattern or exponent stays invisible.",
 ["nrpy/c_codegen.py", "nrpy/helpers/cse_preprocess_postprocess.py", "nrpy/helpers/simd.py", "nrpy/helpers/expr_tree.py", "nrpy/helpers/custom_c_codegen_functions.py"],
 [("kernel generation", "nrpy/c_codegen.py:c_codegen"), ("CSE pre/post processing", "nrpy/helpers/cse_preprocess_postprocess.py"), ("SIMD rewriting", "nrpy/helpers/simd.py:expr_convert_to_simd_intrins")],
 "bounded-exhaustive program enumeration (all expressions of a grammar x all option sets), compiled and executed against an independent evaluator", "exploration",
 "Exhaustive over the stated grammars and option sets; evaluation at 8 fixed points per kernel (a rewrite error of a rational identity shows at a generic point).",
 observe="values of the output variables of the compiled kernel")

prop("C02", "SIMD and GPU arithmetic wrappers agree with scalar arithmetic on every ISA",
 "For every instruction set the generated code can be built for (AVX-512, AVX with and without FMA, SSE2, no SIMD, and the host fallback of the GPU wrappers), each arithmetic, load/store, absolute-value, upwind-selection and horizontal-sum wrapper returns, lane by lane, what the same scalar operation returns for the same operands.",
 ["inputs", "configurations"], "All operand tuples over a value alphabet containing zeros of both signs, tiny, huge, negative and generic values; all lane positions; all instruction sets.",
 "No test compiles or runs the wrappers; only one branch of the header is selected by any one build.",
 ["nrpy/helpers/simd_intrinsics.h", "nrpy/helpers/cuda_intrinsics.h"],
 [("SIMD wrappers", "nrpy/helpers/simd_intrinsics.h"), ("GPU wrappers, host branch", "nrpy/helpers/cuda_intrinsics.h")],
 "exhaustive enumeration of operand tuples x lanes x instruction sets on the compiled wrappers against scalar reference semantics", "exploration",
 "All tuples of a 14-value alphabet for unary/binary and a 9-value alphabet for ternary operations, each at every lane.")

prop("C03", "Finite-difference kernels are exact to their order and read the right points",
 "For every derivative operator (first, second, mixed, upwinded, downwinded, dissipation), every finite-difference order and every generation mode (inline or derivative functions, SIMD or scalar, any infrastructure's memory layout, with upwinding switched by any sign of the control vector), the generated kernel differentiates every polynomial up to the operator's order exactly, reads each gridfunction only at points inside the operator's declared stencil, and fails to be exact one degree higher (the order is not overstated).",
 ["inputs", "programs", "configurations"], "All operators x orders x modes, the full monomial basis up to the order of accuracy, all signs of the upwind control vector.",
 "Tests compare the text of a handful of stencils; they never run a kernel, and a wrong coefficient or offset in one operator/order/mode combination passes.",
 ["nrpy/finite_difference.py", "nrpy/c_codegen.py", "nrpy/grid.py"],
 [("stencil coefficients", "nrpy/finite_difference.py:compute_fdcoeffs_fdstencl"), ("memory reads", "nrpy/finite_difference.py:read_gfs_from_memory"), ("kernel assembly", "nrpy/c_codegen.py:gridfunction_management_and_FD_codegen")],
 "exhaustive enumeration of operators, orders, generation modes and monomial bases; compiled kernels executed on polynomial data with poisoned out-of-stencil points", "exploration",
 "Linearity makes the monomial basis complete for each operator; orders 2-8 (thorough: 2-10).")

prop("C04", "Generated code does not depend on history or hash seed",
 "Generating a kernel gives the same text whatever other kernels were generated earlier in the process, however often it is repeated, and whatever the interpreter's hash seed is; generating never modifies the caller's expressions, lists or registered state beyond the documented registration.",
 ["histories", "configurations"], "All sequences up to a depth over an alphabet of generation calls with different options and derivative operators; all tested hash seeds; cold and warm caches.",
 "Tests generate each kernel once, in one fixed order, in one process.",
 ["nrpy/c_codegen.py", "nrpy/finite_difference.py", "nrpy/helpers/cached_functions.py", "nrpy/grid.py"],
 [("global derivative-function table", "nrpy/finite_difference.py:FDFunctions_dict"), ("generation", "nrpy/c_codegen.py:c_codegen")],
 "explicit-state search over generation-call sequences on the real generator (state = all process-global registries), differential oracle against a fresh process", "model_checking",
 "All sequences up to the stated depth over the stated alphabet.", state="process-global registries and caches")

prop("C05", "The expression cache is transparent under crashes, concurrency and reuse",
 "A computation that goes through the on-disk expression cache returns what it would return with no cache, whatever crash interrupted an earlier writer at whatever point, and however concurrent readers and writers interleave; an interrupted or failed cache write costs time, never correctness or a permanent failure.",
 ["crash_points", "schedules", "histories"], "All crash points and torn prefixes of a cache write; all reader/writer interleavings of the file operations; all sequences of cache operations up to a depth.",
 "Tests use a single process that never crashes.",
 ["nrpy/helpers/cached_functions.py"],
 [("cache read/write", "nrpy/helpers/cached_functions.py")],
 "fault enumeration: every file operation of the real cache writer is a crash point (with torn prefixes) and a scheduling point; recovery and concurrent readers checked against the uncached value", "fault_enumeration",
 "All crash points x torn-prefix lengths of the operation log, all reader positions within a writer's operation log.", state="files in the cache directory")

prop("C06", "Parallel code generation equals serial code generation for every schedule",
 "For any set of registered code generation tasks, the C functions, gridfunctions, parameters, code parameters and header sections that exist afterwards, and every file generated from them, are the same whatever the number of workers and whatever order they complete in; when no two tasks define the same name differently they are those of a serial run; and a failing task is reported rather than silently dropped.",
 ["schedules", "inputs"], "All completion orders of up to 4 tasks, including tasks that register colliding parameters and gridfunctions.",
 "Tests run one nondeterministic schedule and only check that it finishes.",
 ["nrpy/helpers/parallel_codegen.py"],
 [("task registration and merge", "nrpy/helpers/parallel_codegen.py:do_parallel_codegen")],
 "stateless exploration of all worker completion orders of the real process pool, gated by token files, against a serial reference run", "model_checking",
 "All completion orders of pools of 1..4 workers for sets of up to 4 tasks (5 in thorough); examples with 1, 3 and 5 workers.", state="registries merged from the workers")

prop("C07", "Parameter registries behave as a reliable store under any operation sequence",
 "After any sequence of registrations, reads and assignments of NRPy parameters and C code parameters, each read (with or without a module prefix) returns the last assigned value, a registration never alters an existing NRPy parameter, a code parameter keeps exactly the type, module, default, scope, flags and description it was registered with, and a refused operation (unknown name, unsupported type or assumption, missing default, mismatched lists, invalid flag combination) registers nothing under the refused name and changes nothing else.",
 ["histories", "inputs"], "All operation sequences up to a depth over an alphabet of names, types, modules, values and refused operations.",
 "Tests exercise a few hand-written sequences.",
 ["nrpy/params.py"],
 [("NRPy parameters", "nrpy/params.py:set_parval_from_str"), ("code parameters", "nrpy/params.py:register_CodeParameter")],
 "explicit-state breadth-first search over operation sequences on the real module against a reference model", "model_checking",
 "All sequences to the stated depth, state = canonical registry contents.", state="glb_params_dict, glb_code_params_dict")

prop("C08", "Gridfunction registration yields consistent indices, tables and access macros",
 "After any sequence of gridfunction registrations (scalars, vectors, tensors of any symmetry, any group and parity), every registered gridfunction has one index that is unique and dense within its group, the generated index macros, parity, asymptotic-value and wavespeed tables list exactly the registered values at those indices, every component symbol maps to its own storage, and a conflicting registration is refused without side effects.",
 ["histories", "inputs", "configurations"], "All registration sequences up to a depth over an alphabet of ranks, symmetries, groups, dimensions and repeated or conflicting names, per infrastructure.",
 "Tests register a few gridfunctions once; nobody checks that generated tables and macros line up for every registration history.",
 ["nrpy/grid.py"],
 [("registration", "nrpy/grid.py:register_gridfunctions"), ("table output", "nrpy/grid.py:BHaHGridFunction.gridfunction_defines")],
 "explicit-state search over registration sequences; generated headers compiled and their tables read back at run time", "model_checking",
 "All sequences to the stated depth.", state="glb_gridfcs_dict")

prop("C09", "Indexed-expression symmetries, declarations and inverses are algebraically right",
 "For every rank, dimension and symmetry specification, a declared tensor has exactly the requested symmetries and otherwise independent components with correctly named symbols, symmetry-axis zeroing removes exactly the derivatives along those axes, and each matrix inverter returns the true inverse and determinant of every invertible matrix.",
 ["inputs"], "All ranks 1-4, dimensions 2-4, symmetry options and index tuples; all 0/1/-1 matrices of size 2 and 3, generic symbolic matrices of size 2-4.",
 "Doctests look at single components.",
 ["nrpy/indexedexp.py"],
 [("declaration", "nrpy/indexedexp.py:declare_indexedexp"), ("symmetrization", "nrpy/indexedexp.py:symmetrize"), ("inversion", "nrpy/indexedexp.py:symm_matrix_inverter3x3")],
 "exhaustive enumeration of ranks, dimensions, symmetry strings and index tuples (and of all small integer matrices) against a permutation-group reference", "exploration",
 "Complete for the stated ranks, dimensions and symmetry options.")

prop("C10", "Generated loops visit each grid point of their region exactly once",
 "For every loop generator option set (any index ranges and increments, cache tiling with any tile size that is a multiple of the increment, interior/all-point regions, OpenMP collapse, SIMD increments, every infrastructure), running the generated loop executes its body exactly once for each point of the requested region, at no other point, with the coordinates and precomputed quantities of that point.",
 ["inputs", "configurations"], "All small grid sizes, region choices, tile sizes, increments and infrastructures.",
 "Tests compare loop text and never execute it; tile and upper-bound errors need particular sizes.",
 ["nrpy/helpers/loop.py", "nrpy/infrastructures/BHaH/simple_loop.py", "nrpy/infrastructures/ETLegacy/simple_loop.py", "nrpy/infrastructures/CarpetX/simple_loop.py"],
 [("loop nest", "nrpy/helpers/loop.py:loop"), ("grid loops", "nrpy/infrastructures/BHaH/simple_loop.py:simple_loop")],
 "exhaustive enumeration of loop configurations and small grid sizes; generated loops executed with a visit counter per point", "exploration",
 "All sizes up to the bound for all option combinations.")

prop("C11", "Inner boundary points copy the right interior point with the right parity",
 "For every supported coordinate system and grid size (with an even number of points in a periodic angular direction, so that every point has a partner across the axis), each ghost point that represents a location inside the physical domain receives the value of the grid point at that same Cartesian location, multiplied by the parity that makes every tensor component continuous, and every ghost point is classified exactly once as inner or outer.",
 ["inputs", "configurations"], "All coordinate systems, all small grid shapes, all ghost points, all ten parity types, parallel and serial execution.",
 "Tests only compile the generated boundary code; no grid is ever filled.",
 ["nrpy/infrastructures/BHaH/CurviBoundaryConditions/CurviBoundaryConditions.py"],
 [("map construction", "CurviBoundaryConditions.py:bcstruct_set_up"), ("parity", "CurviBoundaryConditions.py: parity conditions"), ("application", "apply_bcs_inner_only")],
 "exhaustive enumeration of coordinate systems, grid shapes and ghost points on the compiled boundary code, against tensor fields evaluated from Cartesian components", "exploration",
 "All ghost points of all stated grids.", observe="gridfunction arrays after the boundary call")

prop("C12", "Outer boundary updates fill every outer ghost point with the prescribed value",
 "For every coordinate system, number of ghost zones and grid shape with at least three interior points in each outer direction, applying outer boundary conditions updates exactly the outer ghost points, in an order in which every value read is already valid: extrapolation reproduces every quadratic function exactly along the boundary normal, and radiation conditions evaluate the outgoing-wave equation with the gridfunction's own asymptotic value and wave speed.",
 ["inputs", "configurations"], "All outer points of all small grids of all coordinate systems; all gridfunctions with distinct wave speeds and asymptotic values.",
 "Never executed by tests; face, edge and corner ordering errors need particular grids.",
 ["nrpy/infrastructures/BHaH/CurviBoundaryConditions/CurviBoundaryConditions.py"],
 [("extrapolation", "apply_bcs_outerextrap_and_inner"), ("radiation", "apply_bcs_outerradiation_and_inner")],
 "exhaustive enumeration over all outer points of all stated grids with compiled boundary code, against polynomial and outgoing-wave references with poisoned unset points", "exploration",
 "All outer ghost points of all stated grids.")

prop("C13", "Time stepping performs exactly the tabulated Runge-Kutta method",
 "For every available time-integration method, one generated time step applied to any right-hand side gives the result of the method's Butcher table, calls the right-hand side and post-step hooks at the table's substep times, uses no storage that it has not allocated or that still holds a needed stage value, and every table satisfies the order conditions of its stated order.",
 ["inputs", "configurations", "programs"], "All methods, right-hand sides linear and nonlinear in state and time, all options for hooks.",
 "Tests check generated text for one or two methods; the C is never run, so wrong stage storage or coefficients for the other methods pass.",
 ["nrpy/infrastructures/BHaH/MoLtimestepping/MoL.py", "nrpy/infrastructures/BHaH/MoLtimestepping/RK_Butcher_Table_Dictionary.py"],
 [("step generation", "MoL.py:register_CFunction_MoL_step_forward_in_time"), ("tables", "RK_Butcher_Table_Dictionary.py")],
 "exhaustive enumeration of methods; compiled steps executed with poisoned scratch storage and recorded hook calls, against a direct Butcher-table evaluation; rooted-tree order conditions enumerated in exact arithmetic", "exploration",
 "All methods in the dictionary; order conditions for all rooted trees up to the stated order (bounded at order 8).")

prop("C14", "Parameter files and command lines set exactly the parameters they name",
 "A generated program fed with its own default parameter file starts with the registered (numeric, boolean or string) defaults; fed with any parameter file and command line, each parameter named takes the value given (command line over file), all others keep their defaults, comments and unknown names (which are reported) change nothing, and malformed lines or values, out-of-range numbers, wrong types, wrong array sizes, over-long lines or strings and duplicates are refused with a message and a non-zero exit instead of being silently misread; no input makes the parser leave its buffers.",
 ["inputs", "histories"], "All parameter files up to a length over an alphabet of well-formed and malformed lines, all command-line forms, all parameter types.",
 "The parser is generated C that tests compile but never run.",
 ["nrpy/infrastructures/BHaH/cmdline_input_and_parfiles.py"],
 [("parser generation", "cmdline_input_and_parfiles.py:register_CFunction_cmdline_input_and_parfile_parser"), ("default file", "generate_default_parfile")],
 "exhaustive enumeration of parameter files and command lines over a line alphabet, run through the compiled parser under sanitizers, against a reference parser", "exploration",
 "All files up to the stated number of lines over the stated alphabet.")

prop("C15", "Code parameters reach generated code with their registered values",
 "For every registered code parameter of any supported type and scope, the generated structures contain it once, the generated default-setting function gives it its registered default, and the generated accessor headers (scalar, SIMD and no-pointer variants) declare a variable of the same name with that grid's current value and expose no unregistered one.",
 ["inputs", "configurations"], "All types and array sizes, scopes and flags, multiple grids.",
 "Tests compare text for one small set; the headers are never compiled and read back for all types and scopes.",
 ["nrpy/infrastructures/BHaH/CodeParameters.py", "nrpy/infrastructures/BHaH/BHaH_defines_h.py"],
 [("accessor headers", "CodeParameters.py:write_CodeParameters_h_files"), ("defaults", "register_CFunctions_params_commondata_struct_set_to_default")],
 "exhaustive enumeration of type/scope/flag combinations; generated C compiled and every parameter read back at run time", "exploration",
 "All type x scope x flag combinations and all subsets of size <= 2.")

prop("C16", "A crash during checkpointing never loses the run",
 "If the program is killed at any point of a checkpointed run, or any file operation of writing a checkpoint fails, a restart finds either the complete previous checkpoint or the complete new one (or starts afresh when none was completed); restarting from a checkpoint continues with the same gridfunction data, step numbers and parameters as the uninterrupted run (the time to round-off), checkpoints are written at the requested interval, and an incomplete or truncated checkpoint is rejected rather than read as data.",
 ["crash_points", "fault_sequences", "histories"], "All crash points and torn writes of the checkpoint write sequence, all write-interval histories, any number of grids.",
 "Checkpoint code is generated and compiled but never run by the tests.",
 ["nrpy/infrastructures/BHaH/checkpointing.py"],
 [("write", "checkpointing.py:register_CFunction_write_checkpoint"), ("read", "checkpointing.py:register_CFunction_read_checkpoint")],
 "fault enumeration: the compiled checkpoint writer is killed after every prefix of its I/O operations (with torn writes) and the compiled reader restarts from what is on disk", "fault_enumeration",
 "All prefixes of the write log of the stated histories.", state="checkpoint files on disk")

prop("C17", "Conditional file updates are exact, minimal and recoverable",
 "Writing a file through the conditional updater leaves exactly the new content on disk when content changes, leaves the file untouched (including its modification time) when the content is the same up to surrounding whitespace, leaves the old file intact when the code producing the content raises, and, repeated after the process was killed at any point of an update, completes that update.",
 ["histories", "crash_points", "inputs"], "All sequences of writes over a small content alphabet, with exceptions and crashes at every point.",
 "Tests check two or three writes with no failures.",
 ["nrpy/helpers/conditional_file_updater.py"],
 [("updater", "conditional_file_updater.py:ConditionalFileUpdater")],
 "explicit-state search over update histories with exception and crash-point enumeration on the real class against a reference model", "fault_enumeration",
 "All histories to the stated depth; all crash points of one update.", state="file content and modification time")

prop("C18", "Generated projects are complete, and wrappers dispatch to the right function",
 "For any set of registered C functions (any subdirectories, coordinate-system specializations, include and prefunction options), the written project contains every function exactly once with a matching prototype, its build file compiles exactly those sources, and calling a wrapper for a grid invokes the specialization registered for that grid's coordinate system with the arguments unchanged and in order.",
 ["inputs", "configurations", "histories"], "All small sets of registered functions, coordinate systems and argument lists.",
 "Tests build a few example projects without running them; a wrong dispatch or argument order compiles.",
 ["nrpy/c_function.py", "nrpy/infrastructures/BHaH/Makefile_helpers.py", "nrpy/infrastructures/BHaH/rfm_wrapper_functions.py"],
 [("function registry", "nrpy/c_function.py:register_CFunction"), ("project output", "Makefile_helpers.py"), ("dispatch", "rfm_wrapper_functions.py")],
 "exhaustive enumeration of small projects; built with make and executed with call recording", "exploration",
 "All registered-function sets of the stated alphabet up to the bound.")

prop("C19", "Precomputed reference-metric quantities equal their closed forms",
 "For every coordinate system, the arrays the generated code precomputes for reference-metric quantities hold at every grid point the values of the closed-form expressions, are all allocated before use and freed once, and kernels generated with precomputation give the same results as kernels generated without it.",
 ["inputs", "configurations"], "All coordinate systems, all grid points of small grids, all precomputed quantities, SIMD and scalar reads.",
 "Tests compare text; the precompute code is never run.",
 ["nrpy/infrastructures/BHaH/rfm_precompute.py", "nrpy/reference_metric.py"],
 [("precompute", "rfm_precompute.py:ReferenceMetricPrecompute")],
 "exhaustive enumeration over coordinate systems and grid points of compiled precompute code against direct evaluation of the closed forms", "exploration",
 "All points of the stated grids for all coordinate systems.")

prop("C20", "Coordinate maps and grid setup are mutually consistent",
 "For every coordinate system and grid shape, the generated numerical grid covers the declared domain with cell-centred points and consistent spacings, mapping a grid point to Cartesian coordinates and back returns the same point (and nearest-index lookup finds it), and the generated time step is the Courant factor times the smallest proper distance between neighbouring points of the grid, ghost zones included.",
 ["inputs", "configurations"], "All coordinate systems, all small grid shapes, all grid points, several domain parameters and grid origins.",
 "Never executed by tests.",
 ["nrpy/infrastructures/BHaH/numerical_grids_and_timestep.py", "nrpy/infrastructures/BHaH/xx_tofrom_Cart.py", "nrpy/reference_metric.py"],
 [("grid setup", "numerical_grids_and_timestep.py"), ("maps", "xx_tofrom_Cart.py")],
 "exhaustive enumeration over coordinate systems, grid shapes and grid points of compiled setup and mapping code", "exploration",
 "All points of the stated grids.")

prop("C21", "Chare decomposition maps cover the global grid exactly once",
 "For every coordinate system, grid shape and division of the grid among superB chares (equal parts, with at least as many points per chare as the boundary conditions and neighbours need): every global grid point has exactly one owner and local index and the inverse maps agree; each chare's coordinates, grid bounds and spacings are those of its part of the global grid; every inner and outer boundary point of the global grid is handled exactly once, by its owner, from the same source point with the same parities and face as in the global grid; the lists of points that chares send each other and expect from each other agree; and every point of a diagnostic slice is written exactly once.",
 ["inputs", "configurations"], "All coordinate systems, grid shapes and divisions up to a bound; all points.",
 "The superB code needs a runtime that is not present in tests; its maps are never executed.",
 ["nrpy/infrastructures/superB/chare_communication_maps.py", "nrpy/infrastructures/superB/CurviBoundaryConditions.py", "nrpy/infrastructures/superB/numerical_grids.py", "nrpy/infrastructures/superB/diagnostics.py"],
 [("maps", "chare_communication_maps.py"), ("boundary structs", "CurviBoundaryConditions.py")],
 "exhaustive enumeration of coordinate systems, grid shapes and divisions; the generated constructors run on a stand-in for the Charm++ runtime and every point of every map is compared with the undivided grid", "exploration", "All shapes and divisions up to the bound.")

prop("C22", "Diagnostic slices output exactly the points on the slice",
 "For every coordinate system, axis or plane and grid shape, generated slice diagnostics output each grid point lying on (or nearest to) the requested axis or plane exactly once (along an axis in order of the coordinate), with its own coordinates and values. Not claimed: points between the foci of SymTP systems, planes that a Wedge system does not contain, and grids with an odd number of azimuthal points.",
 ["inputs", "configurations"], "All coordinate systems, axes, planes and small grid shapes.",
 "Never executed by tests.",
 ["nrpy/infrastructures/BHaH/simple_loop.py", "nrpy/infrastructures/BHaH/diagnostics/output_0d_1d_2d_nearest_gridpoint_slices.py"],
 [("slice loops", "simple_loop.py:simple_loop_1D, simple_loop_2D")],
 "exhaustive enumeration of coordinate systems, slices and grid shapes of the compiled diagnostics", "exploration", "All stated grids.")

prop("C23", "Expression validation accepts equal values and rejects different ones",
 "The zero test, which works with 30 significant digits at positive values of the symbols, reports a symbolic expression as zero exactly when it vanishes there identically, and trusted-value comparison accepts results that agree with the stored values and rejects any that differ, whatever the variable names or the order of evaluation.",
 ["inputs", "histories"], "All pairs of expressions from a grammar of algebraic identities and near-identities.",
 "The repository's other tests rest on this component; a too lenient comparison makes them all pass.",
 ["nrpy/validate_expressions/validate_expressions.py"],
 [("zero test", "validate_expressions.py:check_zero"), ("trusted comparison", "validate_expressions.py:compare_or_generate_trusted_results")],
 "exhaustive enumeration of expression pairs with an exact-arithmetic equality oracle", "exploration", "All pairs of the stated grammar.")

prop("C24", "Einstein Toolkit thorns declare, compile and compute consistently",
 "For any set of registered gridfunctions, code parameters and scheduled functions, the generated ETLegacy or CarpetX thorn declares each gridfunction group, parameter (type, default, range) and schedule entry exactly once with consistent names; every name a generated function uses is declared and every scheduled function exists; the thorn compiles; every scheduled function reads and writes only what its schedule entry says and only where it says so; and the wave-equation and BSSN thorns give every point they write the value of the equations they were generated from, for every combination of SIMD, matter, improvements, dissipation and gauge options.",
 ["inputs", "histories", "configurations"], "All small sets of parameters, gridfunctions and scheduled functions; all stated thorn options.",
 "Thorns are not compiled or run by the tests.",
 ["nrpy/infrastructures/ETLegacy", "nrpy/infrastructures/CarpetX"],
 [("ccl output", "nrpy/infrastructures/ETLegacy/*_ccl.py and CarpetX/*_ccl.py"), ("thorn functions", "ETLegacy/general_relativity/*.py, CarpetX/general_relativity/*.py"), ("symmetries and boundaries", "Symmetry_registration.py, boundary_conditions.py")],
 "exhaustive enumeration of registration sets and thorn options; the generated thorns are compiled against a stand-in flesh that records every access, run, and compared with the registry and the equations", "exploration", "All subsets of the stated alphabet and all stated options.")

prop("C25", "Metric variable conversions and their derivatives agree on every path",
 "Converting ADM variables to conformally rescaled evolution variables and back, and building the spacetime metric or its inverse from either, gives the same tensors for every coordinate system and every choice of conformal factor; and the derivatives, Christoffel symbols, conformal connection functions and basis transformations computed on the way are those of that same geometry.",
 ["inputs", "configurations"], "All coordinate systems, all conformal-factor choices, all tensor components, generic positive-definite metrics.",
 "Tests pin each expression to stored numbers at a single point but never compose conversions.",
 ["nrpy/equations/general_relativity/ADM_to_BSSN.py", "nrpy/equations/general_relativity/BSSN_to_ADM.py", "nrpy/equations/general_relativity/g4munu_conversions.py"],
 [("conversions", "nrpy/equations/general_relativity")],
 "exhaustive enumeration of coordinate systems, conformal factors and conversion paths (all walks of the conversion graph) evaluated at generic rational metrics", "exploration",
 "All conversion round trips of the stated length.")

prop("C26", "Generated programs give the same results whatever the threads do",
 "For every generated program (initial data, boundary conditions, time stepping, diagnostics, checkpointing, elliptic solvers, on any coordinate system and with any loop options), no two OpenMP threads access the same memory without ordering where one of them writes, so that every interleaving with any number of threads gives the results of the one-thread run (to the rounding of reductions); and the results do not depend on what freshly allocated memory happened to contain.",
 ["schedules", "configurations", "inputs"], "All thread interleavings within and across barrier phases, for 2 and 3 threads and every order of the threads; all coordinate systems and outer boundary types; all example programs.",
 "No test runs a generated program, let alone under several schedules; a missing barrier, a shared temporary or a wrong reduction clause compiles and mostly works.",
 ["nrpy/infrastructures/BHaH/simple_loop.py", "nrpy/helpers/loop.py", "nrpy/infrastructures/BHaH/CurviBoundaryConditions/CurviBoundaryConditions.py", "nrpy/infrastructures/BHaH/MoLtimestepping/MoL.py", "nrpy/infrastructures/BHaH/numerical_grids_and_timestep.py", "nrpy/infrastructures/BHaH/nrpyelliptic", "nrpy/infrastructures/BHaH/general_relativity"],
 [("parallel loops", "simple_loop.py:simple_loop"), ("boundary conditions", "CurviBoundaryConditions.py"), ("time stepping loops", "MoL.py:single_RK_substep_input_symbolic")],
 "stateless model checking of the real generated programs under a controlled OpenMP runtime: thread orders enumerated, every memory access monitored, exact happens-before race detection per barrier phase (a race-free phase is equivalent under all its interleavings)", "model_checking",
 "2 threads, and 3 threads (thorough: all orders of both); small grids, few time steps; races between threads holding different named locks are not distinguished.",
 state="all memory of the running program", observe="memory accesses and output files")

prop("C27", "Field equations agree in every coordinate system and set of variables",
 "The evolution equations, constraints, Ricci tensor, gauge conditions and sources of the BSSN system, and the wave and elliptic equations, evaluated for the same physical fields, describe the same tensors in every coordinate system and for every choice of conformal factor, agree with the ADM (Einstein) equations they were derived from, and are satisfied by the exact initial data and solutions the package provides.",
 ["inputs", "configurations", "histories"], "All coordinate systems, all conformal-factor choices, all gauge conditions in every order of construction, every tensor component, generic fields.",
 "Tests pin each expression to stored numbers for a few coordinate systems, one conformal factor and one gauge; a wrong term in another branch, or one that only matters where a symmetric point hides it, passes.",
 ["nrpy/equations/general_relativity/BSSN_quantities.py", "nrpy/equations/general_relativity/BSSN_RHSs.py", "nrpy/equations/general_relativity/BSSN_gauge_RHSs.py", "nrpy/equations/general_relativity/BSSN_constraints.py", "nrpy/equations/general_relativity/T4munu.py", "nrpy/equations/general_relativity/InitialData_Spherical.py", "nrpy/equations/general_relativity/InitialData_Cartesian.py", "nrpy/equations/wave_equation", "nrpy/equations/nrpyelliptic"],
 [("BSSN equations", "BSSN_RHSs.py, BSSN_quantities.py"), ("gauge", "BSSN_gauge_RHSs.py"), ("constraints", "BSSN_constraints.py"), ("initial data", "InitialData_*.py")],
 "exhaustive enumeration of coordinate systems x conformal factors x gauge choices (and orders of construction); every component of every expression evaluated to high precision on generic fields and compared with independently computed ADM tensors", "exploration",
 "All stated configurations at generic points; each identity is decided at high precision at those points, not symbolically.")

prop("C28", "superB results depend neither on grid division nor on message order",
 "For every coordinate system, Runge-Kutta method, outer boundary condition, division of the grid among chares (equal parts of at least NGHOSTS and three points, and as many as the radiation condition's order) and every order in which the runtime delivers messages: a generated superB evolution never deadlocks, its gridfunctions after each number of steps (ghost zones included) are the same as those of the same evolution on one chare and with the BHaH infrastructure, and its output files are the same. Not claimed: psi4 decomposition.",
 ["schedules", "configurations"], "All message orders (few chares) or all within a bounded number of reversals of fair and unfair schedules; all divisions of small grids.",
 "Tests never run generated superB code; a wrong message is only taken in rare orders of arrival.",
 ["nrpy/infrastructures/superB/timestepping_chare.py", "nrpy/infrastructures/superB/CurviBoundaryConditions.py", "nrpy/infrastructures/superB/MoL.py", "nrpy/infrastructures/superB/output_0d_1d_2d_nearest_gridpoint_slices.py"],
 [("communication stages", "timestepping_chare.py"), ("nonlocal boundary data", "timestepping_chare.py, CurviBoundaryConditions.py")],
 "stateless exploration with race reversal (dynamic partial-order reduction) of the message orders of the generated program, run on a stand-in for the Charm++ runtime generated from its .ci files", "exploration", "All message orders for 2-3 chares, one reversal for 4-8 chares.")

prop("C29", "superB runs restarted from a Charm++ checkpoint continue unchanged",
 "For every coordinate system, Runge-Kutta method, outer boundary condition and division of the grid (as in C28), every choice of Charm++ checkpoints of a run to restart from, and every order of messages: a generated superB evolution with Charm++ checkpointing writes a checkpoint whenever one is due, and when its chares are packed, lost and unpacked again at a checkpoint, and messages then under way are lost, it goes on without deadlock to the same gridfunctions (ghost zones included) and the same files as the uninterrupted run and as BHaH. The packing routines are registered after all code parameters. Not claimed: psi4 decomposition; several coordinate systems in one project.",
 ["crash_points", "schedules", "configurations"], "All subsets of the checkpoints of a short run, all divisions of small grids, fair and unfair schedules and bounded reversals.",
 "Tests never run generated superB code; a member missing from the packing routines only shows after a restart.",
 ["nrpy/infrastructures/superB/superB/superB_pup.py", "nrpy/infrastructures/superB/timestepping_chare.py", "nrpy/infrastructures/superB/main_chare.py"],
 [("packing", "superB_pup.py"), ("when checkpoints are taken", "timestepping_chare.py")],
 "exhaustive enumeration of the sets of checkpoints restarted from, with stateless exploration of message orders, of the generated program on a stand-in for the Charm++ runtime", "fault_enumeration", "All subsets of 3 checkpoints, divisions into up to 8 chares.")

prop("C30", "Generated BHaH kernels compute their field equations at every grid point",
 "For every coordinate system, with and without reference-metric precomputation, SIMD and shared finite-difference functions, and every dissipation, damping, lapse and shift option: the generated right-hand-side, Ricci, constraint, residual and determinant-enforcing kernels of the wave, conformally flat elliptic and BSSN solvers set at every interior point exactly the value of the equations there, with derivatives of the stated finite-difference order (upwinded along the shift), touch no other point, and the auxiliary fields, initial data, norms and stop conditions of these solvers are what they are documented to be.",
 ["inputs", "configurations"], "All coordinate systems, all combinations of code-generation options, rough data at all grid points, all points of small grids.",
 "Tests compare the symbolic right-hand sides of one coordinate system with stored numbers; no generated kernel is ever run.",
 ["nrpy/infrastructures/BHaH/general_relativity/BSSN_C_codegen_library.py", "nrpy/infrastructures/BHaH/wave_equation/wave_equation_C_codegen_library.py", "nrpy/infrastructures/BHaH/nrpyelliptic/conformally_flat_C_codegen_library.py", "nrpy/c_codegen.py", "nrpy/finite_difference.py"],
 [("BSSN kernels", "BSSN_C_codegen_library.py"), ("wave equation kernels", "wave_equation_C_codegen_library.py"), ("elliptic kernels", "conformally_flat_C_codegen_library.py")],
 "exhaustive enumeration of coordinate systems and generation options; each generated program is compiled and run on rough data and every point compared with the equations on explicit stencils", "exploration",
 "Small grids; BSSN in seven coordinate systems and option sets (thorough: all systems).")

prop("C31", "ADM initial data in any coordinates become the right evolution variables",
 "For every coordinate system with an inverse map, every basis of the initial data (Cartesian or spherical), choice of conformal factor, with or without stress-energy, and any offset of the grid's origin, the generated initial data reader sets at every grid point the conformal, rescaled variables of exactly the ADM tensors that the data function gives at that position, and the connection functions lambda^i of the resulting metric; and the generated exact data functions equal their closed forms all around the origin.",
 ["inputs", "configurations"], "All coordinate systems, both bases, all conformal factors, generic tensor fields, all octants.",
 "Tests only compare symbolic expressions with stored numbers; a wrong basis, index or sign at some points compiles and runs.",
 ["nrpy/infrastructures/BHaH/general_relativity/ADM_Initial_Data_Reader__BSSN_Converter.py", "nrpy/infrastructures/BHaH/general_relativity/BSSN_C_codegen_library.py", "nrpy/equations/basis_transforms/jacobians.py", "nrpy/infrastructures/BHaH/xx_tofrom_Cart.py"],
 [("reader", "ADM_Initial_Data_Reader__BSSN_Converter.py"), ("basis transformations", "jacobians.py")],
 "exhaustive enumeration of coordinate systems, bases, conformal factors and sources; each generated reader is compiled, run on generic data and compared at grid points with independently transformed tensors", "exploration",
 "Small grids; generic smooth data; four exact data sets.")

prop("C32", "Gravitational-wave extraction computes the Weyl scalar and its modes",
 "For every coordinate system, conformal factor and finite-difference order the generated psi4 kernels give at every interior point the Weyl scalar psi4 of the discretized metric and extrinsic curvature in the quasi-Kinnersley tetrad, and leave ghost zones alone; the spin-weight -2 harmonic function equals the harmonic for every generated (l, m) and every angle; and for every extraction radius inside the grid, number of calls and maximum l, each column of each output file is R times the corresponding mode of psi4 interpolated to that radius, integrated over the sphere, with one row per call, while radii outside the grid produce no file.",
 ["inputs", "configurations"], "All (l, m) up to a maximum, lattices of angles, generic data, several radii, coordinate systems and orders.",
 "Tests compare the symbolic psi4 with stored numbers in spherical systems and the harmonics only for m < l; nothing runs the kernels or the decomposition.",
 ["nrpy/infrastructures/BHaH/general_relativity/psi4_C_codegen_library.py", "nrpy/infrastructures/BHaH/general_relativity/BSSN_C_codegen_library.py", "nrpy/infrastructures/BHaH/special_functions/spin_weight_minus2_spherical_harmonics.py", "nrpy/equations/special_functions/spin_weighted_spherical_harmonics.py", "nrpy/equations/general_relativity/psi4.py", "nrpy/equations/general_relativity/psi4_tetrads.py"],
 [("psi4 kernels", "psi4_C_codegen_library.py"), ("harmonics", "spin_weighted_spherical_harmonics.py"), ("decomposition", "BSSN_C_codegen_library.py")],
 "exhaustive enumeration of modes, angles, radii, coordinate systems and options; generated kernels are compiled, run on rough data and compared at every interior point with an independent Gauss-Codazzi evaluation and Wigner d functions", "exploration",
 "Small grids; harmonics up to l = 4 (thorough: 8); psi4 in four coordinate systems (thorough: more).")

def main():
    checks, na = [], []
    for q in P:
        i = q["p"]["id"]
        if q["na"]:
            na.append(dict(property=i, reason=q["na"])); continue
        if not os.path.exists(f"{V}/checks/{i}.py"):
            na.append(dict(property=i, reason="check not built yet (in progress)")); continue
        checks.append(dict(property=i, quick_cmd=f"bash run.sh {i} quick", thorough_cmd=f"bash run.sh {i} thorough", technique=q["technique"], level=q["level"], level_note=q["note"]))
    with open(f"{V}/properties.jsonl", "w") as f:
        for q in P: f.write(json.dumps(q["p"]) + "\n")
    m = dict(version=1, setup_cmd="bash setup.sh", checks=checks, not_applicable=na)
    with open(f"{V}/MANIFEST.json", "w") as f: json.dump(m, f, indent=1); f.write("\n")
    for q in P:
        assert len(q["p"]["title"]) <= 80, (q["p"]["id"], len(q["p"]["title"]))
main()
