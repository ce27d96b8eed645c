import json
P=[]
def p(id,title,statement,over,text,why,files,mech,state=(),observe=(),hook=None):
    P.append(dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=text),why_tests_cant=why,
      anchors=dict(files=files,state=[dict(name=a,meaning=b,where=c) for a,b,c in state],mechanism=[dict(name=a,where=b) for a,b in mech],observe_at=list(observe),hook_needed=hook)))
G="src/dxss/gmres.py"; S="src/dxss/space_time.py"; T="src/dxss/precomp_time_int.py"; M="src/dxss/meshes.py"; D=["src/dxss/solve_1d.py","src/dxss/solve_2d.py","src/dxss/solve_3d.py"]
p("C01","A solution GMRES returns meets the requested tolerance",
 "Whenever the GMRES entry point returns, the preconditioned residual norm of the solution it returns is at most the larger of the absolute tolerance and the relative tolerance times the preconditioned right-hand-side norm. Omitted tolerances mean 1e-12 absolute and 1e-7 relative, an explicit zero is honoured, and run-time PETSc options take precedence. If that is not reached within the iteration limit, or an operator or preconditioner application produces NaN or infinity on the way, the call raises instead of returning.",
 ["inputs","fault_sequences","histories"],"every operator, preconditioner, right-hand side, tolerance and limit; every application of either at which a value is lost to NaN/Inf or an error; every history of earlier solves and option changes in the process",
 "The eight tests solve two well-conditioned systems of dimension at most 10 with default arguments and no failing callback; nothing reaches non-convergence, NaN, other tolerances or run-time options.",
 [G],[("tolerances handed to KSP, None means default","gmres.py: setTolerances"),("negative convergence reason raises","gmres.py: ksp_reason < 0"),("run-time options","gmres.py: setFromOptions")],
 observe=["return value of get_gmres_solution","exceptions"])
p("C02","GMRES succeeds exactly when restarted GMRES can, within its budget",
 "The GMRES entry point returns exactly when left-preconditioned GMRES from a zero initial guess, restarted every `restart` steps (1000 when omitted), reaches the requested tolerance within `maxsteps` iterations, and raises otherwise. The operator and the preconditioner are applied no more than a small constant multiple of the iterations allowed, also while they misbehave, so every call ends.",
 ["inputs","configurations","fault_sequences"],"every system, restart length, iteration limit and tolerance, including systems where restarting stagnates; every transient fault in a callback",
 "No test sets restart, maxsteps, tol or reltol, none needs more than 10 iterations, and none counts operator applications.",
 [G],[("restart default 1000","gmres.py: setGMRESRestart"),("iteration limit","gmres.py: max_it"),("modified Gram-Schmidt","gmres.py: PETSc options")],
 observe=["return or raise","count of mult/apply callbacks"])
p("C03","A failing callback surfaces and leaves no trace",
 "An exception raised by the operator or the preconditioner at any application during a GMRES call reaches the caller as an exception, never as a returned solution. The right-hand side is never modified, whatever the outcome. After any history of failed, interrupted or successful calls a later call returns the solution a fresh process would return for it.",
 ["crash_points","fault_sequences","histories"],"every application of either callback as the failure point, every exception kind including interrupts and memory errors, every history of calls before and after",
 "The tests never make a callback fail and never make two dependent calls in one process.",
 [G],[("error propagation from PETSc callbacks","gmres.py: ksp.solve"),("fresh KSP and shell matrix per call","gmres.py: get_gmres_solution")],
 observe=["exceptions","contents of b before and after","solution of later calls"])
p("C04","The residual GMRES reports belongs to the solution it returns",
 "The second vector returned by a GMRES solve is the right-hand side minus the operator applied to the returned solution. This holds for every restart length, tolerance and preconditioner, and also when an application of the operator or preconditioner silently delivered wrong values earlier in the solve, so a caller can always detect a spoiled solution from it.",
 ["inputs","fault_sequences"],"every system and solver configuration; every transient silent corruption of one or more callback results during the iteration",
 "The existing test discards the returned residual.",
 [G],[("residual computed after the solve","gmres.py: buildResidual")],observe=["second return value of get_gmres_solution"])
p("C05","Nested and interleaved GMRES solves are independent",
 "A GMRES solve started inside a callback of another one, or run in another thread whose callbacks interleave with it in any order, gives the same outcome and solution as the same solve run alone. A failure in one of them does not change the outcome of the others.",
 ["schedules","fault_sequences"],"every interleaving of the operator and preconditioner callbacks of several concurrent solves, every nesting depth and position, every failure point in one of them",
 "The tests run one solve at a time.",
 [G],[("all solver objects local to the call","gmres.py: get_gmres_solution")],observe=["solutions of the concurrent solves compared with solo runs"])
p("C06","A finished GMRES solve releases what it held",
 "Once a GMRES call has ended, by returning or by raising, and the caller has dropped its own references, nothing keeps the operator, the preconditioner or the Krylov workspace alive. Repeated solves, failed or not, therefore do not accumulate memory.",
 ["histories","fault_sequences"],"every number and mix of successful, non-converging, failing and interrupted solves in one process",
 "The tests never look at resource use after a call.",
 [G],[("lifetime of KSP, shell matrix and work vectors","gmres.py: get_gmres_solution")],observe=["weak references to operator and preconditioner","live PETSc objects"])
p("C07","The matrix-free operator is the space-time discretisation",
 "Applying the space-time operator to a vector gives the product with the system of the stabilised slab-wise space-time wave discretisation (interior, boundary, data, stabilisation, slab-jump and initial-data terms), for every time and space order, slab count, mesh, stabilisation weights and problem parameters. The output does not depend on what the output vector held, on the numbering of unknowns, or on any earlier call, failed or not, and the input vector is unchanged.",
 ["inputs","configurations","histories","fault_sequences"],"every discretisation configuration and degree-of-freedom numbering, every history of solver-object calls with allocation, assembly, slab-solver and interrupt failures in between",
 "space_time.py cannot even be imported by the tests that pass here; upstream tests apply one slab matrix of one configuration once.",
 [S,T],[("slab copy / multiply / add with coupling","space_time.py: apply_spacetime_matrix"),("slab and coupling assembly","space_time.py: setup_slab_matrix, setup_coupling_matrix_between_slices"),("time element matrices","precomp_time_int.py: get_elmat_time")],
 state=[("slab work vectors","scratch reused by every application","space_time.py: vec_slab1, vec_slab2, vec_coupling1, vec_coupling2")],observe=["apply_spacetime_matrix","SpaceTimePETScMatrixWrapper.mult"])
p("C08","The preconditioner is exact forward substitution through the slabs",
 "Given exact slab solvers, applying the time-marching preconditioner solves the system in which each slab is coupled only to the slab before it; both marching variants give the same result, and the part of the result on a slab depends only on the right-hand side on that and earlier slabs. A failure of a slab solver at any slab reaches the caller. The result of an application depends on nothing but its input, whatever applications, failed or complete, came before.",
 ["inputs","configurations","crash_points","histories"],"every configuration, every right-hand side, every slab at which a slab solver fails or is interrupted, every history of applications",
 "The upstream test of time marching is skipped, and none can run here; no test makes a slab solver fail.",
 [S],[("time marching","space_time.py: pre_time_marching, pre_time_marching_improved"),("scaled mass matrix between slabs","space_time.py: setup_scaled_mass_matrix_between_slices")],
 state=[("slab right-hand side and slab solution","scratch carried from slab to slab and from call to call","space_time.py: b_rhs_pre, uh_pre, vec_0_bnd_in")],observe=["pre_time_marching","pre_time_marching_improved","SpaceTimePETScPreconditionerWrapper.apply"])
p("C09","Assembled systems do not depend on call order, caching or failures",
 "Every matrix, form and load vector a space-time solver object hands out (full system in both coupling variants, slab and first-slab systems, load vector) is the one of the stabilised space-time discretisation that was asked for. This holds whatever was requested before, in whatever order, however often, and after any request that failed part way and was repeated; and once the preparation steps have completed, operator and preconditioner are usable.",
 ["histories","fault_sequences","configurations"],"every order and repetition of set-up and accessor calls, every allocation or form-compilation failure or interrupt inside one of them followed by a retry, every configuration",
 "The tests call each accessor once, in one order, without failures.",
 [S,T],[("lazy caches","space_time.py: get_spacetime_matrix, get_slab_matrix, get_spacetime_rhs, prepare_precondition_gmres")],
 state=[("cached matrices and forms","built on first use","space_time.py: spacetime_matrix, slab_matrix, SlabMatFirstSlab, SpaceTimeRhs")],observe=["matrix entries and load vectors handed out"])
p("C10","Measured data enter on exactly the declared data domain",
 "The data-misfit part of operator and load vector has weight one on the declared data domain and zero elsewhere (cell-wise for a fitted domain) and uses the given data over the whole of each time slab. Building or using a solver never alters the data domain, parameters, stabilisation weights or solution objects the caller passed, so any number of solvers can be built from the same inputs, on the same or on different meshes, in any order and also after a failed construction, with the same result as a solver built from fresh inputs.",
 ["inputs","histories","fault_sequences","configurations"],"every indicator (fitted or not), data function and mesh; every history of constructions sharing inputs, with failures during construction",
 "The upstream tests build one solver from one data domain and never check its data terms.",
 [S],[("indicator interpolated into a cell-wise constant","space_time.py: SpaceTime.__init__"),("data term of the load vector","space_time.py: setup_rhs")],observe=["load vector","data block of the operator","DataDomain passed by the caller"])
p("C11","Drivers solve the discrete problem whatever backend is present or fails",
 "The 1D, 2D and 3D driver programs end with the solution of the discrete space-time system (to the GMRES tolerance) whichever slab solver backend is used: PyPardiso, PETSc LU, or one direct solve of the full system. A missing or broken PyPardiso installation means PETSc LU is used, and wrapping a PyPardiso solver without it gives a warning, not a crash. A run in which a backend fails raises, and the next run gives the normal result.",
 ["configurations","fault_sequences","histories"],"every backend choice, every import failure of the optional backend, every factorisation or solve of the backend that fails, every rerun after a failure",
 "Only a smoke test of the 1D driver exists upstream; it checks no result, uses whichever backend is installed, and cannot run here.",
 D+[S],[("backend selection","solve_1d.py: try import pypardiso"),("solve_problem branches","solve_1d.py, solve_2d.py, solve_3d.py")],observe=["solution handed to error measurement","warnings","exceptions"])
p("C12","Error measures are truthful and have no side effects",
 "The reported errors are the L2 error at the final time, the largest L2 errors over the sampled times of the solution and of its time derivative, and the L2-in-time-and-space error of the time derivative, all of the time-continuous reconstruction of the given vector against the given solution. Measuring, also when it fails part way, changes neither the vector nor anything the solver computes afterwards, and repeating it gives the same numbers.",
 ["inputs","histories","fault_sequences","configurations"],"every vector, exact solution, slab count and order; every history mixing measurements with set-up and solves; every quadrature, assembly or reduction failure inside a measurement",
 "No test checks any error value; the smoke test only checks that measuring does not raise.",
 [S,T],[("sampling and reconstruction","space_time.py: measured_errors"),("lifting function","precomp_time_int.py: theta_ref, d_theta_ref")],
 state=[("boundary functions","scratch that also holds initial data","space_time.py: u1_0, u2_0")],observe=["dictionary returned by measured_errors","load vector built afterwards"])
p("C13","The two-level correction is coarse solve plus marching on the rest",
 "Applying the two-level preconditioner gives the prolonged coarse-grid solution of the restricted residual plus the time-marching correction of what is left. Restriction and prolongation transfer each space-time component by interpolation between the meshes, so restricting a prolonged vector gives it back on nested meshes. A failing coarse or slab solver reaches the caller and does not influence later applications.",
 ["inputs","configurations","fault_sequences","histories"],"every fine and coarse mesh pair, order and right-hand side; every coarse or slab solve that fails; every history of applications",
 "No test touches the coarse-grid code.",
 [S],[("transfer operators","space_time.py: prolongation, restriction"),("two-level step","space_time.py: q_op, pre_twolvl")],observe=["q_op","pre_twolvl","prolongation","restriction"])
p("C14","Independent solver objects do not interfere under any interleaving",
 "Several space-time solver objects used side by side, with their set-up, operator, preconditioner and measurement calls interleaved in any order down to single statements of different threads, each give exactly the results they give when used alone. This holds for objects that differ in orders, slab count, mesh or parameters and for objects sharing the same mesh and input objects, and a failure in one does not affect the others.",
 ["schedules","configurations","fault_sequences"],"every statement-level interleaving of calls on different objects in different threads, every failure in one of them",
 "The tests use one object per process and one thread.",
 [S,T],[("all state held per object","space_time.py: SpaceTime"),("module-level tables never modified","precomp_time_int.py: basis_in_time")],observe=["results of each object against a solo run"])
p("C15","A mesh builder returns the documented geometry or raises",
 "Each mesh builder returns meshes that cover exactly its domain, resolve its internal interfaces, have the element size asked for, and, for hierarchies, contain one uniformly refined mesh per requested level. If reading, writing or meshing fails it raises, and a later call, in the same process or after a crash and restart in the same directory, gives the same mesh as in a clean process and directory, whatever stale or torn files and sessions were left behind.",
 ["inputs","crash_points","fault_sequences","histories"],"every builder and mesh-size argument, every file or meshing operation at which an error, a short write, an interrupt or a crash happens, every history of earlier calls in the directory and process",
 "Upstream tests build one mesh with one builder without failures; several builders are never called, and none can run here.",
 [M],[("gmsh session","meshes.py: gmsh.initialize/finalize"),("mesh files in the working directory","meshes.py: mesh.msh, mesh.xdmf, mt.xdmf"),("refinement loop","meshes.py: get_mesh_hierarchy*")],observe=["returned meshes","exceptions","gmsh session state"])
p("C16","Under MPI every rank gets the same mesh and no rank is left waiting",
 "Called by all ranks of a communicator, under any relative timing, a mesh builder returns on every rank with the same mesh, or raises on every rank. Only one rank writes the mesh files, no rank reads a file before it is complete, and all ranks make the same sequence of collective calls, so none is left waiting.",
 ["schedules","configurations"],"every number of ranks and every interleaving of their file, meshing and collective operations, including several builder calls in a row",
 "The tests run on one rank.",
 [M],[("rank 0 builds and writes, all ranks read collectively","meshes.py: proc == 0")],observe=["meshes per rank","collective call sequence per rank","file accesses per rank"])
p("C17","Plots and exports show the vector they are given",
 "The exported fields are the absolute nodal errors of the displacement and velocity at the final time, and the plotted arrays are the values, time derivatives and errors of the given vector at the plotted space-time points. An input/output error during export is raised, the export files are closed, a retry produces the complete export, and neither plotting nor exporting, failed or not, changes what the solver computes afterwards.",
 ["inputs","fault_sequences","histories"],"every solution vector, order and slab count; every write of an export that fails; every history mixing exports with set-up and solves",
 "No test looks at plotted or exported values.",
 [S],[("sampling for plots","space_time.py: plot, plot_error"),("XDMF export","space_time.py: plot_para_view")],observe=["arrays drawn","fields written","open export files"])
p("N01","Quadrature rules integrate to their order",
 "Each quadrature rule integrates polynomials up to its nominal degree exactly (to the accuracy of the tabulated digits) on every interval, and its weights add up to the interval length.",
 ["inputs"],"every rule, number of points and interval","No passing test uses a quadrature rule.",[T],[("tables","precomp_time_int.py: QuadRule")],observe=["current_pts","t_weights"])
p("N02","Time bases are nodal and time matrices are their exact integrals",
 "The time basis functions of each order are the Lagrange basis on equidistant nodes with matching derivatives, and the element matrices in time are their exact integrals.",
 ["inputs"],"every pair of orders in time and every time in the slab","No passing test evaluates a basis function.",[T],[("tables","precomp_time_int.py: basis_in_time, get_elmat_time")],observe=["basis_in_time","get_elmat_time"])
p("N03","The discrete solution converges to the continuous one at the expected order",
 "Under refinement in space and time the reported errors decrease at the order of the method.",
 ["inputs","configurations"],"every smooth solution satisfying the wave equation and every refinement sequence","No test compares errors on two meshes.",[S]+D,[("discretisation","space_time.py")],observe=["measured_errors"])
p("N04","Distributed solves agree with serial ones",
 "Run on several MPI ranks, assembling and solving the space-time system gives the solution of the serial run.",
 ["schedules","configurations"],"every number of ranks and partition of the mesh","The tests run on one rank.",[S,G],[("ghost updates and reductions","space_time.py: scatter_forward, allreduce")],observe=["solution vector"])
open("/verif/properties.jsonl","w").write("".join(json.dumps(x)+"\n" for x in P))
for x in P: assert len(x["title"])<=80,(x["id"],len(x["title"]))
