"""Writes /verif/properties.jsonl (run by hand when the list changes)."""
import json, os
P = []
def p(id, title, statement, over, qtext, why, files, mechanism, state=(), observe=(), hook=None):
    assert len(title) <= 80, (id, len(title))
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=list(over), text=qtext), why_tests_cant=why,
        anchors=dict(files=list(files),
            state=[dict(name=n, meaning=m, where=w) for n, m, w in state],
            mechanism=[dict(name=n, where=w) for n, w in mechanism],
            observe_at=list(observe), hook_needed=hook)))

p("P01", "Concurrent direct solves each answer their own system",
  "When several threads solve sparse systems at the same time through any of the CPU direct solvers (Cholesky, LU, SciPy; single or batched, same or different sparsity, sizes, precisions, transposes), every call returns the solution of exactly the system it was given. The outcome never depends on how the threads interleave, and no interleaving deadlocks.",
  ["schedules", "inputs"], "All interleavings, at every source line of the host-side solver code and every factorize/solve call of the backend, of 2-4 caller threads issuing mixed solves that share backend and cache namespace.",
  "Tests call each direct solver from one thread; the factor cache is process-wide and shared by all callers, so a wrong answer needs a preemption between another caller's factorization and its triangular solve.",
  ["feax/solvers/direct/cholmod.py", "feax/solvers/direct/umfpack.py", "feax/solvers/direct/spsolve.py", "feax/solvers/direct/_callback_utils.py"],
  [("pattern-keyed factor reuse", "_factorize_and_solve_with_cache in cholmod.py / umfpack.py")],
  [("factor cache", "last numeric/symbolic factor and the sparsity it belongs to, shared by all callers of one configuration", "_get_cholmod_host_callback / _get_umfpack_host_callback")],
  ["feax.solvers.direct.cholmod_solve / umfpack_solve / spsolve, and jax.vmap of them"])

p("P02", "A failed direct solve reports failure and never poisons later solves",
  "If a direct solve cannot be carried out (matrix singular or not positive definite, backend error, allocation failure or interruption at any point), that call raises or returns non-finite values, never a finite wrong answer. Every other solve, before or after it and with the same or another sparsity pattern, still returns the solution of its own system.",
  ["fault_sequences", "histories", "inputs"], "All sequences of valid solves, invalid systems, and failures injected at any host line or backend call (before or after the backend has done its work).",
  "Tests never make the factorization fail, so they cannot see whether the cached factor and the cached pattern still match afterwards.",
  ["feax/solvers/direct/cholmod.py", "feax/solvers/direct/umfpack.py", "feax/solvers/direct/spsolve.py"],
  [("cache replaced only by a complete factorization", "_factorize_and_solve_with_cache")],
  [("factor cache", "factor, columns, offsets and size must describe the same matrix", "cholmod.py / umfpack.py state dict")],
  ["return value / exception of the direct solves"])

p("P03", "Solver answers depend on their arguments, not on what ran before",
  "A solver, assembled matrix or gradient obtained from a problem is a function of the arguments of that call alone: whatever other solvers were created, called, differentiated, compiled, batched, or failed before or between on the same or other problems, the answer equals that of a freshly built one and solves the discrete equations of the given parameters. In particular sample parameters and boundary conditions given when a solver is created only describe shapes and places: they never freeze a value that later calls change.",
  ["histories", "fault_sequences", "configurations"], "All interleaved histories of create / solve / differentiate / compile / batch / abort operations over several problems, parameter sets, boundary conditions and linear solvers sharing one process.",
  "Each test builds its own problem and solver, uses them once or twice with the creation-time parameters, and exits.",
  ["feax/solver.py", "feax/solvers/linear.py", "feax/solvers/newton.py", "feax/assembler.py", "feax/problem.py", "feax/traced_structure.py", "feax/traced_params.py", "feax/solvers/direct"],
  [("problems are static, parameters are traced arguments", "feax/solver.py create_solver"), ("dead-load detection", "assembler.detect_zero_surface_jacobian")],
  [("per-problem caches", "slot sorts, dead-surface-load flag", "assembler.py, linear.py"), ("factor caches", "see P01", "solvers/direct")],
  ["create_solver(...)(params), get_jacobian, get_res, jax.grad / jit / vmap of them"])

p("P04", "An unconverged solve is never passed off as a solution",
  "With convergence checking enabled, whenever the linear solver used by a linear or periodic solve, or by the gradient of any solve, stalls, stops early or returns a corrupted vector, the caller receives NaN exactly when the relative residual misses the threshold, and the unmodified answer otherwise. An eager Newton solve returns a converged state (or, at the iteration limit, one with a reduced residual) or raises a line-search failure; under compilation a failed line search ends the iteration. No iteration continues from a rejected or non-finite step, and the host-side Newton loops never return a state worse than the start and log that they did not converge.",
  ["fault_sequences", "inputs"], "All inner linear solves (forward and adjoint) and Newton iterations at which the backend stalls, returns stale, scaled, zero or non-finite results.",
  "Tests use well-conditioned problems whose linear solver always converges; the failure paths need a fault in the backend at a chosen call.",
  ["feax/solvers/common.py", "feax/solvers/linear.py", "feax/solvers/newton.py", "feax/solvers/reduced.py"],
  [("residual check", "check_convergence in solvers/common.py"), ("Armijo backtracking with finiteness guard", "solvers/newton.py")],
  [], ["return value / exception of create_solver solvers and their gradients"])

p("P05", "Time integration covers the interval exactly, one step after another",
  "A time run advances from the start to the end time in consecutive, strictly positive steps: each begins at the time and with the state where the previous one ended, none is longer than the current step size, none is a rounding-noise sliver, and the run ends at the end time. With a fixed step the number of steps is the interval divided by the step, rounded up; with adaptive stepping every proposed step size is limited to the configured minimum, maximum and growth factor, whatever sequence of sizes is proposed, and the run terminates.",
  ["histories", "configurations", "fault_sequences"], "All start/end/step combinations (including ones not representable in binary), adaptive proposals of any value (zero, negative, huge, NaN), and all three built-in explicit schemes.",
  "The two existing tests use five fixed steps; error accumulation and proposal sequences need long simulated runs.",
  ["feax/solvers/time_solver.py"],
  [("time loop with end clamp", "run"), ("dt clamp and growth cap", "run, AdaptiveDtConfig"), ("euler/rk2/rk4", "ExplicitPipeline.step")],
  [("t, dt, step", "simulated clock of the run", "run")], ["calls to pipeline.step, TimeResult"])

p("P06", "Time-run outputs match the steps taken, through faults and crashes",
  "The recorded history, the history table on disk, the snapshots and the callbacks describe exactly the steps that were taken: initial state and every step in the history, one durable table row per completed step readable after a crash at any later point, snapshots at the initial, every N-th and final step, each callback every N-th step with the state of that step. If a step, monitor, snapshot, callback or disk write fails, the failure reaches the caller, nothing is recorded for work that did not happen, and a rerun into the same directory starts a clean table.",
  ["crash_points", "fault_sequences", "configurations"], "All crash points and failing operations (user code raising, disk full, failing flush) at any step, for all save/callback/print cadences.",
  "Existing tests run once, fault-free, without an output directory.",
  ["feax/solvers/time_solver.py"],
  [("row written and flushed per step", "run"), ("save cadence incl. final step", "run"), ("callback cadence", "run")],
  [("history.csv", "durable per-step record", "output_dir")], ["TimeResult.history, history.csv bytes after crash, save()/callback calls"])

p("P07", "The optimizer follows its schedule, bounds and pins on every evaluation",
  "An optimization run performs exactly its evaluation budget; every evaluated and returned design respects the bounds with passive nodes pinned, the k-th evaluation uses the continuation values scheduled for it, remeshing happens at and only at the configured cadence up to its maximum, and objective, constraints and gradients are always those of the current mesh. The reported final values are those of the returned design, however the inner optimizer stops (budget, early stop, roundoff) and however often the mesh is rebuilt.",
  ["histories", "configurations", "fault_sequences"], "All combinations of continuation schedules, remesh cadences (node count changing or not), passive sets, equality/inequality constraints, early inner stops and roundoff stops.",
  "No test runs the driver at all.",
  ["feax/gene/optimizer.py", "feax/gene/adaptive.py"],
  [("epoch splitting at parameter changes and remeshes", "optimizer.run"), ("bounds collapse for passive nodes", "optimizer._create_mma"), ("recompile after remesh", "optimizer._compile")],
  [("iter_count, params, current mesh", "driver state", "optimizer.run")], ["calls to the pipeline, OptResult, history"])

p("P08", "The optimizer's log and snapshots survive faults and crashes",
  "Every completed evaluation is one durable row of the history table with the objective, constraint and continuation values of that evaluation, equal to the in-memory history, numbered consecutively and readable after a crash at any later point; snapshots exist exactly at the configured cadence, at each remesh and at the end; they are readable, on the mesh of that moment, and hold the filtered density of that evaluation (remesh snapshots: the transferred design). A failing objective, constraint, remesh, snapshot or disk write reaches the caller and no row claims an evaluation that did not complete.",
  ["crash_points", "fault_sequences", "configurations"], "All crash points and failures of user code, file writes and the inner optimizer, in any epoch of the run.",
  "No test runs the driver or looks at its files.",
  ["feax/gene/optimizer.py", "feax/utils.py"],
  [("row flushed per evaluation", "optimizer._objective"), ("snapshot cadence", "optimizer._objective / run")],
  [("history.csv, iter_*.vtu, adapt_*.vtu, final.vtu", "durable record", "output_dir")], ["files in output_dir, OptResult.history"])

p("P09", "Every accepted result frame is readable; a failed one changes nothing",
  "After a time-series file is closed, normally or because of an exception, it lists exactly the frames whose write succeeded, in order, each with its time, the mesh and the exact field values it was given. A frame that is rejected (changed field names or shapes, wrong length, unsupported shape) or whose write fails on a disk error raises, leaves all other frames intact, and does not stop later valid frames from being written.",
  ["fault_sequences", "histories"], "All sequences of valid and invalid frames, injected storage errors at any write, exceptions raised by the caller inside the session, and reuse of the writer.",
  "No test covers the series writer.",
  ["feax/utils.py"],
  [("frame registered only after its data is written", "XDMFWriter.write_iteration"), ("index written on exit", "XDMFWriter.__exit__")],
  [("frame list, field signature, open store", "what the index will reference", "XDMFWriter")], ["the .xdmf and .h5 files on disk, exceptions of write_iteration"])

p("P10", "Mesh generation leaves nothing behind and is not affected by the past",
  "Whatever meshes were generated before and wherever a generation failed (mesher error at any call, unreadable or unwritable temporary file, invalid request, interruption), no mesher session, size callback, mesher option or temporary file is left behind and the failure reaches the caller. The next generated mesh is identical to the one a fresh process produces for the same request.",
  ["fault_sequences", "histories"], "All sequences of box, sphere, cylinder, refinement, adaptive, and surface-to-volume generations, with a failure injected at any call into the mesher or file system.",
  "Tests generate meshes successfully, one at a time.",
  ["feax/mesh.py", "feax/gene/adaptive.py", "feax/gene/mesh_extraction.py", "feax/gene/sdf.py"],
  [("session closed in finally", "mesh.py, adaptive.py"), ("temporary files removed", "mesh_extraction.extract_volume_mesh, sdf.SDF.to_volume_mesh")],
  [("gmsh session and options, temp files", "process-global mesher state", "gmsh")], ["gmsh.isInitialized, temp dir contents, returned meshes"])

p("P11", "A cluster launch gives every process its place in one and the same job",
  "Launching a script on N machines starts exactly one process per configured node plus the local coordinator; all run the same script with the same arguments, agree on coordinator address, port and process count, and have distinct ranks 0..N with the coordinator as 0, so that all of them join one job at the configured port. This holds for every configuration file and argument list, including ones with spaces and shell metacharacters, and whatever order the machines start in.",
  ["schedules", "configurations", "inputs"], "All node counts, configuration values, script arguments and start orders/delays of the simulated machines.",
  "No test touches the launcher; it needs ssh, containers and several machines.",
  ["feax/distributed/__init__.py"],
  [("environment passed to each process", "_launch"), ("join from environment", "initialize")],
  [("JAX_* environment", "a process's place in the job", "_launch / initialize")], ["command lines and environments of spawned processes, arguments of the runtime join"])

p("P12", "A cluster launch never loses a process or hides a failure",
  "When the launcher returns or is interrupted, every process it started has ended and been reaped, whatever failed on the way (ssh cannot start, script unreadable, a worker or the coordinator dies, interruption at any point). Its exit status is zero only if every process of the job succeeded.",
  ["fault_sequences", "crash_points", "schedules"], "All failure points of spawning, running and waiting, and all orders in which the processes end.",
  "No test touches the launcher.",
  ["feax/distributed/__init__.py"],
  [("wait for workers, exit with the coordinator's status", "_launch")],
  [("spawned process handles", "processes owned by the launcher", "_launch")], ["process table after launch, exit status"])

p("P13", "Distributed runs join once, gather by rank, and always leave cleanly",
  "In a multi-process run every process that joins receives, for each gather, the contributions of all processes stacked in rank order with a leading axis of the process count, identical on all processes; exactly one process is the coordinator. Without a configured coordinator joining does nothing, and leaving is always safe: before joining, twice, after a failed join, or when the shutdown itself fails.",
  ["schedules", "fault_sequences", "configurations"], "All interleavings of the simulated processes through join, gather and leave, with slow, failing or dying processes and failing runtime calls.",
  "The distributed module has no unit tests and real runs need several hosts.",
  ["feax/distributed/__init__.py"],
  [("join from environment", "initialize"), ("gather", "gather"), ("safe leave", "finalize")],
  [], ["initialize / gather / is_coordinator / finalize on every simulated process"])

p("P14", "Buckling solves report eigensolver failure and ignore earlier solves",
  "A buckling solve returns, for the matrices and sparsity given to that very call, their lowest positive buckling factors in ascending order with matching modes (infinite for requested modes that were not found), and its gradient is that of these factors, whatever solves, failures, compiled or batched calls or other threads came before or between. If the factorization or eigensolver fails, the failure is reported by an exception; infinite factors are never used to hide it, and stale or invented finite factors are never returned.",
  ["fault_sequences", "histories", "schedules"], "All histories of buckling solves with changing matrices, eager and compiled, with factorization and eigensolver failures injected at any call.",
  "Tests solve one or two well-posed problems.",
  ["feax/solvers/eigen.py"],
  [("structure captured per solver", "create_linear_buckling_solver"), ("ARPACK failure handling", "_sparse_buckling")],
  [("captured sparsity", "structure used by the host eigensolve", "create_linear_buckling_solver")], ["bf(K, Kg) results and exceptions"])

p("P15", "The narrow-band optimizer always solves the current band",
  "In every iteration of a narrow-band run the system solved is that of the current design on exactly the active band prescribed for it (full grid during exploration, afterwards the design above the threshold grown by the margin, plus the kept cells), with loads and solver of that band and compiled mode from exactly the scheduled iteration on; displacement, compliance and sensitivity are those of that band whichever other bands, options or solvers of the same object came before. Densities stay within bounds and move limits, the volume target is met whenever reachable, the history has one record per iteration, multi-resolution runs give each level its own iteration count and seed it from the previous one; superset bands and sparse designs follow every history of moves and updates; any failing collaborator reaches the caller.",
  ["histories", "configurations", "fault_sequences"], "All sequences of band growth, shrinkage and return to an earlier band, all schedules of exploration and compilation, and failures at any iteration.",
  "Tests run one small case for a few iterations and look at the end result.",
  ["feax/gene/narrowband.py", "feax/solvers/cmg.py", "feax/narrowband.py", "feax/spgrid.py", "feax/gene/filters.py"],
  [("band change detection and rebuild", "run_narrowband_oc"), ("OC update", "oc_update")],
  [("previous band, levels, solver", "driver state carried between iterations", "run_narrowband_oc")], ["calls to the multigrid object, returned density and history"])

p("P16", "Profiling reports the time that really passed, failures included",
  "Timings reported by the profiling utilities equal the clock time the profiled work really took, including asynchronously dispatched work still running when the block ends (unless waiting is switched off), run by run and iteration by iteration, for any clock behaviour, nesting and overlap. A profiled block or function that raises is still recorded and its exception reaches the caller; profiling calls the work exactly as often as asked and never changes its result.",
  ["schedules", "fault_sequences"], "All virtual-clock advances during, between and around the profiled calls, nested and failing blocks.",
  "Tests cannot control the clock, so durations are never compared with a known truth.",
  ["feax/profiler.py"],
  [("perf_counter brackets", "profile, time_fn, profile_solver_py")],
  [], ["profile records"])

p("P17", "Homogenization, filters and responses answer for the call's own arguments",
  "A homogenization solver, Helmholtz or density filter, compliance or volume function obtained from a mesh or problem is a function of the arguments of that call alone: whatever other such functions were created (for other meshes, radii, weights, periodicities, loads, solver options), called, differentiated, compiled, batched, failed or dropped before or between, and even if the caller reuses its own arrays, value and gradient equal those of a freshly built one and those of the definition: effective stiffness and displacements of the periodic cell, filter equation or weighted mean with the given radius, work of the given loads, volume fraction of the given density.",
  ["histories", "fault_sequences"], "All histories of creating, calling, failing and dropping such functions over meshes that share sizes, shapes and objects.",
  "Tests build one function per process on one mesh and call it once or twice without failures.",
  ["feax/flat/solver.py", "feax/gene/filters.py", "feax/gene/responses.py", "feax/solvers/reduced.py"],
  [("problem, solver and weights built once and captured by the returned function", "create_homogenization_solver, create_helmholtz_filter, create_density_filter, create_compliance_fn, create_volume_fn")],
  [], ["returned values and gradients"])

NA = []
def na(id, title, statement, qtext, why, files, mech, reason):
    p(id, title, statement, ["inputs"], qtext, why, files, mech)
    NA.append(dict(property=id, reason=reason))
pure = "A deterministic function of its inputs with no schedule, clock, I/O, shared state or fault for a simulator to control; deciding it is input generation against a numerical oracle, not simulation. "
na("P20", "Assembled residual and tangent are those of the weak form",
   "For every mesh, element type, quadrature order and kernel, the assembled residual is the Galerkin residual of the stated weak form and the assembled matrix is its exact derivative, in sparse, matrix-free and banded form alike.",
   "All meshes, element types, kernels and states.", "Tests check a few meshes and kernels.",
   ["feax/assembler.py", "feax/fe.py", "feax/basis.py", "feax/csr.py", "feax/asd.py"], [("element kernels and slot scatter", "assembler.py")],
   pure + "Its history-dependent part (caches, frozen flags) is claimed under P03.")
na("P21", "Gradients through solves equal the derivative of the solution map",
   "Reverse-mode gradients of any scalar of a converged solve with respect to parameters, boundary values and loads equal the derivative of the discrete solution map, for linear, nonlinear and reduced problems.",
   "All problems, parameters and objectives.", "Finite-difference spot checks.", ["feax/solver.py", "feax/solvers/linear.py", "feax/solvers/newton.py", "feax/solvers/reduced.py"], [("implicit differentiation", "custom_vjp in solvers")],
   pure + "Its history- and fault-dependent parts are claimed under P03 and P04.")
na("P22", "Prescribed boundary values are met exactly",
   "Every returned solution has the prescribed value at every constrained degree of freedom, and symmetric elimination changes neither the solution nor its gradient.",
   "All boundary condition sets.", "A few boundary condition sets.", ["feax/DCboundary.py", "feax/assembler.py"], [("row/column elimination", "assembler.py")], pure)
na("P23", "Compilation and batching do not change results",
   "A compiled or batched call returns what the plain call returns for each batch entry.",
   "All programs and batch shapes.", "Spot checks per solver.", ["feax/solver.py", "feax/solvers"], [("traced parameters", "traced_params.py")],
   pure + "Batched/compiled calls inside schedules and histories are part of P01-P03.")
na("P24", "Periodic homogenization returns the effective tensor of the cell",
   "Homogenized stiffness equals the volume average of the energy for every unit macro strain, is symmetric, and is bounded by the Voigt and Reuss averages.",
   "All unit cells and materials.", "One or two unit cells.", ["feax/flat"], [("prolongation operator", "flat/pbc.py")], pure)
na("P25", "Density filters preserve bounds, constants and their adjoints",
   "Filters map constant fields to themselves, keep bounds, and their gradients are their transposes.",
   "All meshes, radii and fields.", "One mesh per filter.", ["feax/gene/filters.py"], [("normalised weights", "gene/filters.py")], pure)
na("P26", "Composite, cohesive, shell and thermal models obey their constitutive laws",
   "Rotated stiffness and expansion tensors are frame-indifferent, layered elements reduce to the homogeneous one, cohesive damage is irreversible, orientation tensors stay normalised.",
   "All material parameters and orientations.", "Spot values.", ["feax/mechanics"], [("closed forms", "mechanics/*.py")],
   pure + "(Cohesive irreversibility is a pure state update carried by the caller.)")
na("P27", "Mesh primitives are geometrically correct",
   "Generated, structured and refined meshes fill the requested domain with positively oriented, conforming elements.",
   "All sizes and element types.", "A few sizes.", ["feax/mesh.py", "feax/spgrid.py"], [("mesh generators", "mesh.py")],
   pure + "What histories and faults can do to generation is claimed under P10.")
na("P28", "Implicit geometry operations agree with set semantics",
   "Union, intersection and difference of signed-distance shapes classify points as the set operation does, and extracted surfaces lie on the level set.",
   "All shapes and points.", "No tests.", ["feax/gene/sdf.py"], [("min/max composition", "gene/sdf.py")], pure)

here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
with open(os.path.join(here, "properties.jsonl"), "w") as f:
    for r in P:
        f.write(json.dumps(r) + "\n")
with open(os.path.join(here, "tools", "na.json"), "w") as f:
    json.dump(NA, f, indent=1)
print(len(P), "properties")
