#!/usr/bin/env python3
# Writes /verif/properties.jsonl (kept as a script so that the long texts stay readable).
import json, os
C='code/cpp/src/'
P=[]
def p(id,title,statement,over,text,why,files,mech,state=None,observe=None):
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech]}
    if state: a["state"]=[{"name":n,"meaning":m,"where":w} for n,m,w in state]
    if observe: a["observe_at"]=observe
    a["hook_needed"]=None
    P.append({"id":id,"title":title,"statement":statement,"quantifier":{"over":over,"text":text},"why_tests_cant":why,"anchors":a})

ONE="The 26 stable tests only build initial states and compare single formulas with Python; the suite runs with OMP_NUM_THREADS=1 and never steps a grid."

p("C01","Results do not depend on how many workers share the grid",
  "Advancing the same 1D or 2D initial grid with the same parameters gives bit-for-bit the same final grid and the same recorded history for every number of parallel workers, including more workers than grid rows. This holds for both time-stepping schemes, with and without the stiff and half-step options, for every flux, boundary type and material arrangement.",
  ["schedules","configurations","inputs"],"every worker count 1..rows+k, every order in which workers run, every grid shape, scheme, flux, boundary and material mix",
  ONE+" One worker count out of all of them is exercised, and no grid is stepped at all.",
  [C+"solvers/steppers.cpp",C+"solvers/weno/weno.cpp",C+"solvers/fv/fv.cpp",C+"multi/fill.cpp"],
  [("row decomposition with N halo rows per slab","ader_stepper_para / split_stepper_para in "+C+"solvers/steppers.cpp"),("corner treatment positioned by absolute row","weno2 in "+C+"solvers/weno/weno.cpp")],
  observe=["final grid and 100-slot history of the top-level run","grid after one parallel step"])

p("C02","Parallel steppers are free of data races and schedule effects",
  "While one time step is computed in parallel, no two workers ever access the same memory without synchronisation when at least one of them writes it. Consequently every interleaving of the workers, however finely they are preempted, leaves the same grid.",
  ["schedules","inputs"],"every interleaving of the workers' memory accesses and every worker count, for both steppers, 1D and 2D",
  ONE+" A race shows only in particular interleavings of several workers.",
  [C+"solvers/steppers.cpp",C+"solvers/weno/weno.cpp",C+"solvers/dg/dg1.cpp",C+"solvers/dg/dg2.cpp",C+"solvers/fv/fv.cpp",C+"solvers/split/ode.cpp"],
  [("each worker writes only its own rows and private copies","ader_stepper_para / split_stepper_para in "+C+"solvers/steppers.cpp"),("shared tables are read-only after start-up",C+"etc/globals.cpp")],
  observe=["shadow memory of every access made inside a parallel region","grid after the step"])

p("C03","Filling cells at material interfaces is free of races and schedule effects",
  "When the cells next to a material interface are filled in parallel, no worker reads a cell that another worker may be writing. The filled grids, and any simulation with several materials or a vacuum, are therefore bit-for-bit independent of the number of workers and of how they interleave.",
  ["schedules","inputs"],"every interleaving and worker count, every 2D arrangement of two or three materials including thin layers, corners and interfaces at the domain edge",
  ONE+" The multi-material tests only build initial states.",
  [C+"multi/fill.cpp",C+"system/multi/riemann.cpp"],
  [("states are computed from an unmodified grid and applied afterwards","fill_boundary_cells in "+C+"multi/fill.cpp")],
  observe=["shadow memory during the interface fill","per-material grids and masks after the fill"])

p("C04","Mass, momentum and energy are conserved on closed grids",
  "On a grid that is periodic in every direction and holds one material without body forces, the totals of mass, each momentum component and energy (and of the reactant mass, when no reaction takes place) after every completed step equal the initial totals to round-off. This holds for every scheme, flux, worker count and interleaving, until the distortion is reset; in 2D it needs either the full treatment of the domain's corners to be compiled in, or a flow that has not reached them.",
  ["schedules","inputs","configurations","histories"],"every smooth or discontinuous periodic initial state, grid shape, scheme, flux, worker split and schedule, after every step",
  ONE+" Conservation needs whole runs and depends on both sides of every shared face, including faces between workers' rows, agreeing.",
  [C+"solvers/fv/fv.cpp",C+"solvers/fv/fluxes.cpp",C+"etc/grid.cpp",C+"solvers/steppers.cpp",C+"system/relaxation/analytic.cpp"],
  [("each face's flux is subtracted on one side and added on the other","interfs1_inner / interfs2_inner in "+C+"solvers/fv/fv.cpp"),("periodic ghost cells","boundaries1 in "+C+"etc/grid.cpp")],
  observe=["grid totals at every completed step"])

p("C05","A uniform resting or drifting state is left unchanged",
  "A grid holding the same stress-free state everywhere, at rest or in uniform motion, stays uniform and unchanged to round-off through every step with periodic or transmissive edges (and with symmetric, slip or stick edges when at rest). This holds for every scheme, flux, material, worker count and interleaving; the unsplit scheme holds fluids of low viscosity to the tolerance of its predictor.",
  ["inputs","configurations","schedules"],"every uniform admissible state, every material model, scheme, flux, admissible boundary type, grid shape, worker split and schedule",
  ONE+" A constant state is the simplest exact solution and is never stepped.",
  [C+"solvers/fv/fv.cpp",C+"solvers/weno/weno.cpp",C+"solvers/dg/dg1.cpp",C+"solvers/dg/dg2.cpp",C+"solvers/split/homogeneous.cpp",C+"etc/grid.cpp"],
  [("reconstruction weights sum to one","coeffs in "+C+"solvers/weno/weno.cpp"),("face fluxes cancel","interfs1_inner / interfs2_inner in "+C+"solvers/fv/fv.cpp")],
  observe=["every cell after every step"])

p("C06","Simulated time advances by stable steps and stops exactly at the end",
  "Every step is positive and at most the CFL number times the crossing time of the fastest wave of any cell of the grid at the start of the step, one fifth of that during the first six steps, and with one material steps use the full allowance except when shortened to land on the final time. The step sizes sum to the requested final time, never beyond it, and the run ends after the corresponding finite number of steps.",
  ["inputs","histories","fault_sequences"],"every initial state, grid, scheme, CFL number and final time, including final times shorter than one step, and after a cell is disturbed mid-run",
  ONE+" The clock of a run is a history property: no test performs even one step.",
  [C+"solvers/iterator.cpp",C+"system/eig.cpp"],
  [("time step selection and clipping","timestep in "+C+"solvers/iterator.cpp"),("wave speed bound","max_abs_eigs in "+C+"system/eig.cpp")],
  state=[("t","simulated time","iterator in "+C+"solvers/iterator.cpp"),("count","completed steps","iterator in "+C+"solvers/iterator.cpp")],
  observe=["console progress of every step","grid at the start of every step"])

p("C07","The recorded history holds the true states at the right times",
  "A run returns one hundred slots: each filled slot k, except the last, holds exactly the grid as it was after the first step that reached the (k+1)-th hundredth of the final time (one slot filled per step, in order), and the last slot holds the final grid. Recorded states never change afterwards, and progress is reported once per step as the percentage of time completed and the step size used.",
  ["histories","inputs","configurations"],"every run length from one step to several hundred, every number of steps per hundredth of the final time",
  ONE+" Whether a slot is filled at the right step depends on the whole sequence of step sizes.",
  [C+"solvers/iterator.cpp",C+"etc/debug.cpp"],
  [("snapshot rule","iterator in "+C+"solvers/iterator.cpp")],
  state=[("ret/pushCount","history and next slot","iterator in "+C+"solvers/iterator.cpp")],
  observe=["grid at every console report","returned history"])

p("C08","A run stops cleanly at the first NaN and hands back the evidence",
  "If any value of the grid becomes NaN, at whatever step, cell or component, the run ends within that or the next step without crashing or corrupting memory. The recorded history then ends with the last grid before the NaN followed by the grid containing it, earlier slots are as they would have been without it, and the caller's grid is the one containing it.",
  ["fault_sequences","histories","inputs"],"every step, cell and component at which a value may turn NaN, for every scheme, dimension, worker count and number of slots already filled",
  ONE+" A NaN mid-run, and in particular after most slots are filled, is never produced by them.",
  [C+"solvers/iterator.cpp",C+"solvers/dg/dg1.cpp",C+"solvers/dg/dg2.cpp",C+"solvers/dg/initial_guess.cpp",C+"scipy/newton_krylov.cpp"],
  [("NaN check after each step","iterator in "+C+"solvers/iterator.cpp"),("fallback of the predictor","predictor1 / predictor2")],
  observe=["returned history, caller's grid and process status after the fault"])

p("C09","Results do not depend on leftover memory or on earlier runs",
  "A simulation's result is a function of its arguments alone: it is bit-for-bit the same whatever freshly allocated memory or unwritten stack happens to contain. It is also the same whether it is the first computation in the process or follows other simulations, with other sizes and materials, completed or failed.",
  ["histories","inputs","fault_sequences"],"every content of recycled memory, every sequence of earlier runs (including aborted ones) in the same process, every scheme, solver fallback and material arrangement",
  ONE+" Uninitialised reads usually find zeros in a fresh single-run process.",
  [C+"solvers/dg/dg1.cpp",C+"solvers/dg/dg2.cpp",C+"solvers/weno/weno_matrices.cpp",C+"solvers/iterator.cpp",C+"multi/fill.cpp",C+"scipy/lgmres.cpp",C+"etc/globals.cpp","code/cpp/bindings/bindings.cpp"],
  [("every buffer is fully written before it is read","predictor1/predictor2, weno2, fill_boundary_cells"),("start-up tables","globals.cpp")],
  observe=["grids and histories under different allocator contents and call histories"])

p("C10","Running out of memory is loud and never corrupts a result",
  "If any memory allocation fails during a run, the run either raises an out-of-memory error to the caller or ends the process; it never completes with a result that differs from the undisturbed one. After a raised error, repeating the run from the initial grid in the same process gives the undisturbed result.",
  ["fault_sequences","inputs"],"every allocation of every run as the one that fails, once or from then on",
  ONE+" Allocation failure is never provoked.",
  [C+"solvers/iterator.cpp",C+"solvers/steppers.cpp",C+"multi/fill.cpp",C+"multi/pfmm.cpp","code/cpp/include/skfmm/heap.cpp"],
  [("allocation failures raise; no handler swallows them","all of code/cpp/src")],
  observe=["outcome of each run with one failed allocation","a second run in the same process"])

p("C11","An interrupted run leaves the grid at a completed step and can be resumed",
  "If reporting progress fails or the user interrupts there (broken console, keyboard interrupt), the error reaches the caller, and the caller's grid is exactly the state after some whole number of steps, never a half-updated one. Starting a new run from that grid for the remaining time completes normally and is the same as starting it in a fresh process.",
  ["fault_sequences","crash_points","histories"],"every progress report of every run as the point of failure, repeated interruptions, every scheme, dimension and material arrangement",
  ONE+" Interruption in mid-run is never exercised.",
  [C+"solvers/iterator.cpp",C+"etc/debug.cpp"],
  [("the grid is assembled completely before progress is printed","iterator in "+C+"solvers/iterator.cpp")],
  observe=["caller's grid when the error arrives","resumed run"])

p("C12","Every cell keeps belonging to exactly one material, and vacuum stays empty",
  "After every step of a multi-material run each cell belongs to exactly one of the given materials according to its level-set values, and vacuum cells hold zero in every physical field. The run does not crash, hang or access memory outside its arrays when layers become thin, vanish, meet, touch the domain edge, or when a level set never changes sign. As long as the materials start at rest and near equilibrium every other cell holds finite values with positive density.",
  ["inputs","histories","configurations"],"every arrangement of up to three materials (one possibly vacuum) on 1D and 2D grids, moving or at rest, over many steps",
  ONE+" Interface handling during a run (thin layers, edges, collisions) is never executed.",
  [C+"multi/fill.cpp",C+"multi/functions.cpp",C+"multi/pfmm.cpp",C+"solvers/iterator.cpp",C+"system/functions/vectors.cpp"],
  [("material index from level sets","get_material_index in "+C+"system/functions/vectors.cpp"),("assembly of the global grid","make_u in "+C+"solvers/iterator.cpp"),("probe clamping","boundary_inds in "+C+"multi/fill.cpp")],
  observe=["every cell after every step","process status"])

p("C13","Saved results survive crashes, full disks and clock jumps",
  "Saving a run's results never replaces or damages the results of another run, even if both finish within the same second or the clock is set back. If saving fails or the process dies at any point, everything that exists under a result name is a complete result, and once saving has returned successfully the result is readable in full and equal to what was saved. After a loss of power a result that was just being saved may be missing, but no result is torn.",
  ["crash_points","fault_sequences","schedules","histories"],"every interleaving of runs saving to the same directory, every clock value, every failed, short or missing write, every instant of a crash",
  ONE+" No test saves results; collisions and torn files need particular clocks and failures.",
  ["code/python/store.py","code/python/main.py"],
  [("reserve a name, write a temporary file, rename","save_results in code/python/store.py")],
  observe=["directory contents after each simulated crash or fault"])

p("C14","A parallel step touches only the cells it is asked to update",
  "Computing one step in parallel changes nothing but the grid it is given: its boundary-extended copy, cell mask, parameters and dimensions are left as they were, and nothing outside these arrays is written. With the unsplit scheme, cells that are neither in the mask nor next to it keep their values bit for bit, and cells surrounded by the mask get exactly the values they get when every cell is updated.",
  ["inputs","schedules","configurations"],"every mask, grid shape, worker count and interleaving for both parallel steppers",
  ONE+" Writes outside a worker's rows show only with several workers and partial masks.",
  [C+"solvers/steppers.cpp",C+"solvers/fv/fv.cpp",C+"solvers/dg/dg1.cpp",C+"solvers/dg/dg2.cpp",C+"solvers/split/homogeneous.cpp"],
  [("private copy of the extended grid for operator splitting","split_stepper_para in "+C+"solvers/steppers.cpp"),("mask tests before each update",C+"solvers/fv/fv.cpp")],
  observe=["guard regions and all argument arrays before and after the step"])

p("C15","A disturbance spreads at most N cells per step",
  "Changing one cell of the grid (to another admissible state or to NaN) before a step of given size changes, after that step, only cells whose distance from it is at most the order of the scheme in every direction, wrapping around periodic edges; all other cells are bit-for-bit as in the undisturbed step. This holds for both steppers, every flux, worker count and interleaving.",
  ["fault_sequences","inputs","schedules"],"every cell and component disturbed, every grid shape and worker split",
  ONE+" Finite reach of the numerical stencil across worker boundaries is never observed.",
  [C+"solvers/weno/weno.cpp",C+"solvers/dg/dg1.cpp",C+"solvers/dg/dg2.cpp",C+"solvers/fv/fv.cpp",C+"etc/grid.cpp"],
  [("stencils of width 2N-1 and nearest-neighbour fluxes",C+"solvers/weno/weno.cpp, "+C+"solvers/fv/fv.cpp")],
  observe=["difference between disturbed and undisturbed step"])

p("C16","Simulations running at the same time in one process do not affect each other",
  "Two or more simulations started from different caller threads, which may be switched at any progress report, each give bit-for-bit the result they give when run alone. An error or interruption in one leaves the others unaffected.",
  ["schedules","fault_sequences","histories"],"every interleaving of two or three simulations at their progress reports, with different sizes, materials and schemes, and with one of them failing",
  ONE+" They never run two simulations at once.",
  [C+"solvers/iterator.cpp",C+"etc/debug.cpp",C+"solvers/steppers.cpp",C+"multi/fill.cpp",C+"multi/pfmm.cpp"],
  [("all run state lives on the caller's stack","iterator in "+C+"solvers/iterator.cpp")],
  observe=["result of each simulation"])

p("C17","Distortion stays consistent with density, and resets only remove elastic energy",
  "After every step each non-vacuum cell's distortion has determinant equal to its density divided by the material's reference density. When distortions exceed the given tolerance they are all reset in that step to the stress-free distortion of the same density, the cell's density and momentum are unchanged, and its energy falls by exactly the elastic energy it held; below the tolerance no reset takes place.",
  ["histories","inputs","configurations"],"every run, material, scheme and tolerance; every step at which the tolerance is first exceeded",
  ONE+" Renormalisation and reset happen only inside a run.",
  [C+"solvers/utils.cpp",C+"solvers/iterator.cpp",C+"system/relaxation/analytic.cpp"],
  [("determinant renormalisation","renorm_distortion in "+C+"solvers/utils.cpp"),("reset above the tolerance","contorted / reset_distortion in "+C+"solvers/utils.cpp")],
  observe=["every cell after every step, with and without the tolerance"])

p("C18","Flows that vary in one direction stay so, and mirror images stay mirror images",
  "A 2D run whose data vary only along x stays constant along y and reproduces, to the accuracy of its solvers, the 1D run with the same step sizes; likewise along y, where the rows are shared between workers (with the domain's corners treated in full). Reflecting the initial data and boundary conditions of a run about the middle of the grid reflects its result to that accuracy when the Rusanov flux is used, and shifting a periodic problem shifts its result.",
  ["configurations","inputs","schedules"],"every planar initial state, scheme, flux, periodic or transmissive edge, grid shape and worker split",
  ONE+" 1D and 2D code paths are separate and never compared; worker rows break the x/y symmetry.",
  [C+"solvers/weno/weno.cpp",C+"solvers/dg/dg1.cpp",C+"solvers/dg/dg2.cpp",C+"solvers/fv/fv.cpp",C+"solvers/split/homogeneous.cpp",C+"etc/grid.cpp",C+"solvers/steppers.cpp"],
  [("dimension-by-dimension reconstruction and fluxes",C+"solvers/fv/fv.cpp, "+C+"solvers/weno/weno.cpp")],
  observe=["final grids of the related runs"])

p("C19","Reactive builds keep the reactant fraction bounded and consistent",
  "In builds with reactants, after every step the reactant mass of every cell lies between zero and the cell's density. Without reaction a reactant fraction that is uniform over the grid stays uniform to round-off, and with reaction the fraction of a uniform grid never increases.",
  ["configurations","inputs","histories"],"every initial fraction field, scheme, flux, worker split; with discrete-ignition, Arrhenius or no reaction",
  "The tests are built without reactants at all, and step no grid.",
  [C+"solvers/iterator.cpp",C+"system/equations.cpp",C+"system/variables/sources.cpp",C+"system/relaxation/numerical.cpp"],
  [("limiting","limit_concentration in "+C+"solvers/iterator.cpp"),("reactant flux","flux in "+C+"system/equations.cpp")],
  observe=["reactant mass of every cell after every step"])

p("C20","Uniformly strained matter relaxes as its flow rule says",
  "A uniform grid of strained material, at rest or drifting with periodic or transmissive edges, keeps its density, momentum and energy and stays uniform while its distortion relaxes: elastic solids keep their shape, and in every other material shear strain never grows and decays at the rate given by the material's relaxation law, down to its yield stress where it has one. This holds for both schemes, every step size from far below to far above the relaxation time, and every worker count and interleaving.",
  ["inputs","configurations","histories","schedules"],"every material and flow rule, strain, grid spacing (step from 1e-4 to 1e4 relaxation times), scheme, worker split and schedule",
  ONE+" The closed-form relaxation is only compared with an equal Python transcription, which shared its mistakes.",
  [C+"system/relaxation/analytic.cpp",C+"system/relaxation/numerical.cpp",C+"solvers/split/ode.cpp",C+"system/functions/vectors.cpp",C+"system/variables/sources.cpp"],
  [("closed-form decay of the stretches","ode_stepper_analytic in "+C+"system/relaxation/analytic.cpp"),("relaxation source","theta1inv in "+C+"system/variables/sources.cpp")],
  observe=["every cell after every step against an independent integration of the relaxation law"])

p("C21","Edge conditions act as the continuation of the grid they stand for",
  "A step of a single-material grid gives exactly the values that a step of the same size gives in the same cells of a wider grid whose additional cells hold what the edge conditions stand for: copies of the edge cell (transmissive), the cells of the opposite side (periodic), or the mirror image with the normal momentum reversed (slip), with all momentum reversed (stick, and moving, where the lid's momentum and kinetic energy are added), or with normal momentum and the distortion's normal row and column reversed (symmetric). A periodic grid repeated a whole number of times stays a repetition of the single grid, over any number of steps. Both hold for every mix of edges, scheme, flux, grid no narrower than the stencil, worker count and schedule.",
  ["inputs","configurations","schedules"],"every initial state, mix of edge conditions, scheme, flux, grid shape, worker split of either grid and interleaving",
  ONE+" No test compares an edge condition with anything but an equal Python transcription.",
  [C+"etc/grid.cpp",C+"solvers/steppers.cpp",C+"solvers/iterator.cpp",C+"solvers/weno/weno.cpp"],
  [("edge conditions","boundaries1 / boundaries in "+C+"etc/grid.cpp"),("edges of workers' parts",C+"solvers/steppers.cpp")],
  observe=["all cells of the grid after the steps of both runs"])

p("C22","Materials in equilibrium stay in it, and interfaces move with the matter",
  "Stress-free materials of the same pressure and velocity, each uniform, stay so: in every cell of the result the state is that material's own initial state at that pressure and velocity, to the accuracy of the scheme, after every step, whatever the arrangement of the materials (fluids, gases, solids, explosives; layers, discs, thin and ragged parts, single cells), their number, edges, scheme and worker count. A cell further than a cell or two from the interface between two materials is always of the material whose matter is there, at rest and when all matter moves at the same speed.",
  ["inputs","configurations","histories","schedules"],"every arrangement of two or three materials, pair of materials, common velocity, scheme, edge conditions, worker split and schedule",
  "The tests fill no grid of two materials, and run no multi-material step.",
  [C+"multi/fill.cpp",C+"multi/functions.cpp",C+"multi/pfmm.cpp",C+"solvers/iterator.cpp",C+"system/multi/riemann.cpp"],
  [("ghost cell filling","fill_ghost_cells in "+C+"multi/fill.cpp"),("assembling the materials","make_u in "+C+"solvers/iterator.cpp")],
  observe=["pressure, density, velocity and material of every cell after every step"])

p("C23","Bodies that meet push each other as their impedances say, and slide freely",
  "When two bodies of different pressure and normal velocity meet (or a body meets vacuum), waves run from the interface into both, and behind them both bodies have one normal stress and one normal velocity: those that follow from the two acoustic impedances, P*=(Z2 P1 + Z1 P2 + Z1 Z2 (u1-u2))/(Z1+Z2) and u*=(Z1 u1 + Z2 u2 + P1-P2)/(Z1+Z2), for jumps small enough to be linear; a body next to vacuum has a free surface. Velocities along the interface stay those of each body: bodies slide along each other freely. This holds for all pairs of fluids and solids, for interfaces facing any direction, for every scheme, worker count and schedule, and the run reaches its end.",
  ["inputs","configurations","schedules"],"every pair of materials, jump of pressure and velocity, direction of the interface, scheme, worker split and schedule",
  "The tests fill no grid of two materials, and run no multi-material step.",
  [C+"system/multi/riemann.cpp",C+"system/multi/conditions.cpp",C+"multi/fill.cpp",C+"system/eig.cpp"],
  [("star states","left_star_state and star_stepper in "+C+"system/multi/riemann.cpp"),("interface conditions","slip_bcs in "+C+"system/multi/conditions.cpp")],
  observe=["normal stress and velocity of the cells between the waves at the end of the run"])

p("C24","Smooth motions follow the equations",
  "A smooth motion of one material that is resolved by the grid (waves as long as the domain, periodic edges) evolves as the GPR equations say: after any number of steps every component of the state - density, energy, momentum, distortion - is, on average over the grid, where a highly accurate integration of the equations (conservation of mass, momentum and energy; transport of the distortion with its non-conservative terms; relaxation of shear strain; body forces) takes it, to within a small part of how much it changed. This holds for every material, scheme, Riemann solver, direction, orientation of the material, drift, body force, and whatever the workers and schedule.",
  ["inputs","configurations","histories","schedules"],"every smooth motion, material, scheme, flux, grid, worker split and schedule",
  "The tests compare single formulas with the Python version of the same formulas; none runs a step, so an error shared by both, or in how the parts are put together, goes unnoticed.",
  [C+"system/equations.cpp",C+"solvers/fv/fv.cpp",C+"solvers/fv/fluxes.cpp",C+"solvers/weno/weno.cpp",C+"solvers/dg/dg2.cpp",C+"solvers/iterator.cpp"],
  [("flux, non-conservative and source terms",C+"system/equations.cpp"),("finite volume update",C+"solvers/fv/fv.cpp"),("order of the sub-steps",C+"solvers/iterator.cpp")],
  observe=["the state of every cell at the end of the run"])

p("C25","Contacts at rest stay",
  "An ideal or stiffened gas (or a viscous, granular or power-law fluid with that equation of state) at rest at one pressure and without shear strain, whose density jumps from part to part, stays exactly as it is under the Roe and Osher fluxes: after every step every cell holds its initial state to round-off of the eigenvalue problem (1e-8), nothing is spread, nothing moves and nothing becomes NaN, whatever the densities, the shape of the parts, the orientation of the material, edges, scheme, worker count and schedule.",
  ["inputs","configurations","histories","schedules"],"every arrangement of densities, material, scheme, edge conditions, orientation, worker split and schedule",
  "The tests evaluate no flux on a contact; states with coinciding eigenvalues, which decide here, do not occur among random states.",
  [C+"solvers/fv/fluxes.cpp",C+"system/eig.cpp",C+"system/jacobians.cpp",C+"system/equations.cpp"],
  [("upwind fluxes","abs_dot, D_OSH and D_ROE in "+C+"solvers/fv/fluxes.cpp"),("system matrix","system_matrix in "+C+"system/equations.cpp")],
  observe=["the state of every cell after every step"])

# ---- pure functions: real guarantees of the system, outside this technique family
p("C30","Energy, pressure and temperature relations invert each other",
  "For every material model, converting a state from pressure to energy and back, or from density and pressure to temperature and back, returns the original values to round-off for all admissible states.",
  ["inputs"],"every admissible state of every material model","The tests compare a few random states with the Python version of the same formulas.",
  [C+"system/energy/mg.cpp",C+"system/energy/eos.cpp",C+"system/variables/state.cpp"],[("equations of state",C+"system/energy/mg.cpp")])
p("C31","The system matrix is the derivative of the flux",
  "For every admissible state the matrix used for eigenvalues and Riemann solvers equals the derivative of the flux plus the non-conservative part.",
  ["inputs"],"every admissible state and direction","The tests sample a few random states.",
  [C+"system/jacobians.cpp",C+"system/equations.cpp"],[("dFdP * dPdQ + B","system_matrix in "+C+"system/equations.cpp")])
p("C32","The reconstruction is exact for polynomials of the scheme's order",
  "Reconstructing cell averages of a polynomial of degree below the order of the scheme reproduces the polynomial.",
  ["inputs"],"every polynomial of admissible degree","The tests sample random data against the Python version.",
  [C+"solvers/weno/weno.cpp",C+"solvers/weno/weno_matrices.cpp",C+"solvers/poly/basis.cpp"],[("stencil matrices",C+"solvers/weno/weno_matrices.cpp")])
p("C33","The Krylov and Newton solvers return solutions within their tolerance",
  "When the linear or nonlinear solver reports convergence, the residual of the returned vector is within the requested tolerance.",
  ["inputs"],"every system for which they converge","The tests solve a single random system.",
  [C+"scipy/lgmres.cpp",C+"scipy/newton_krylov.cpp"],[("stopping tests",C+"scipy/lgmres.cpp")])
p("C34","Interface states satisfy the jump conditions between the two materials",
  "The states computed on both sides of a material interface have equal normal traction and normal velocity, or zero traction next to a vacuum.",
  ["inputs"],"every pair of admissible states and materials","The tests only compare with the Python version of the same algorithm.",
  [C+"system/multi/riemann.cpp",C+"system/multi/conditions.cpp"],[("star state iteration","left_star_state in "+C+"system/multi/riemann.cpp")])
p("C35","The closed-form relaxation solution matches the relaxation equations",
  "The closed-form update of the distortion over a time step agrees, within its stated approximation, with accurate numerical integration of the relaxation equation.",
  ["inputs"],"every admissible state, material and step size","The tests compare a few states with the Python version.",
  [C+"system/relaxation/analytic.cpp"],[("closed-form solution","analyticSolver_distortion in "+C+"system/relaxation/analytic.cpp")])

out=os.path.join(os.path.dirname(os.path.abspath(__file__)),'..','properties.jsonl')
with open(out,'w') as f:
    for x in P: f.write(json.dumps(x,ensure_ascii=False)+'\n')
print(len(P),[x['id'] for x in P if len(x['title'])>80])
