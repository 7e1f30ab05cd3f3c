"""Writes properties.jsonl (kept as a script so that wording stays in one place)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, observe=None):
    P.append({
        "id": id, "title": title, "statement": statement,
        "quantifier": {"over": over, "text": text},
        "why_tests_cant": why,
        "anchors": {"files": files,
                    "mechanism": [{"name": n, "where": w} for n, w in mech],
                    "observe_at": observe or ["public Python API"],
                    "hook_needed": None}})

FV = "finite_volume/numerical_flux.py"
SW = "finite_volume/shallow_water/solver/"
p("C01", "Finite volume schemes conserve mass, momentum and the scalar quantity",
  "For every finite volume scheme (scalar and shallow water, limited, energy stable, antidiffusive, coarsened or network corrected), mesh, time integrator and initial state, a run with periodic boundaries over a flat bottom leaves the total of every conserved quantity unchanged up to rounding. With an uneven bottom, and (except for network corrected schemes) between two reflecting walls, the total water volume is still unchanged. With open or inflow boundaries the total changes only by what the two outer faces let through: what leaves one cell through a face enters its neighbour.",
  ["inputs", "configurations"], "all initial states, mesh sizes, boundary conditions, bottoms, schemes, high order fluxes and time integrators",
  "The tests compare a handful of hand computed fluxes; none runs a solver and sums the cells, so a flux that differs on its two sides only for some states or at the periodic seam passes.",
  [FV, "finite_volume/solver.py", "core/boundary.py", SW + "mcl.py", "finite_volume/scalar/solver/mcl.py"],
  [("face fluxes are returned as a left and a right contribution and differenced per cell", FV), ("ghost cells of periodic and wall boundaries", "core/boundary.py, finite_volume/shallow_water/boundary.py")],
  ["solution value of a solver after solving"])
p("C02", "Continuous Galerkin schemes conserve the integral of the solution",
  "For every continuous finite element scheme (consistent mass, low order with artificial diffusion, limited), scalar problem, polynomial degree, mesh and initial nodal values, the integral of the discrete solution over the periodic domain is unchanged by solving, up to rounding. This holds with exact and with interpolated flux, with fixed and with adaptive time steps and for every time integrator.",
  ["inputs", "configurations"], "all nodal values, mesh sizes, degrees, schemes, flux treatments and integrators",
  "The tests compare right hand sides for two or three fixed vectors of four degrees of freedom; the sum over all entries is never checked for other states or degrees.",
  ["finite_element/scalar/solver/cg.py", "finite_element/scalar/solver/cg_low.py", "finite_element/scalar/solver/mcl.py", "finite_element/artificial_diffusion.py", "finite_element/lumped_mass.py"],
  [("zero row and column sums of gradient and diffusion operator", "finite_element/artificial_diffusion.py"), ("antisymmetric corrected fluxes", "finite_element/scalar/solver/mcl.py")],
  ["solution value of a solver after solving"])
p("C03", "Uniform states are steady and every two-point flux is consistent",
  "For every scheme, a spatially constant admissible state over a flat bottom stays constant for all times with periodic or outflow boundaries, and water at rest of constant depth also between walls. Whenever all states around a face are equal, the numerical flux through that face is the physical flux of that state (for corrected schemes plus their correction), with opposite signs for the two cells.",
  ["inputs", "configurations"], "all admissible constant states (any sign of velocity, nearly dry to deep), gravities, meshes, schemes and boundaries",
  "Tests evaluate fluxes at a few fixed states; consistency for arbitrary states and for all schemes is not asserted.",
  [FV, "core/riemann_solver.py", SW + "low_order.py", SW + "energy_stable.py", SW + "mcl.py"],
  [("numerical flux of each scheme", FV), ("intermediate state of the Riemann solver", "core/riemann_solver.py")])
p("C04", "Scalar diffusive and limited finite volume schemes obey the maximum principle",
  "For advection and Burgers the local Lax-Friedrichs and the limited finite volume scheme never create new extrema: whenever the time step is at most half a cell divided by the largest absolute characteristic speed, each new cell value of a forward Euler step lies between the minimum and maximum of its old value and those of its two neighbours. Consequently, with each offered strong stability preserving integrator, no value ever leaves the range of the initial data during a run, whatever the signs of the values.",
  ["inputs", "histories"], "all initial states including sign changes, plateaus and jumps; all meshes; all step sizes within the bound; any number of steps",
  "The tests check single fluxes for fixed vectors; a limiter or wave speed error only shows for particular sign patterns or after several steps.",
  ["finite_volume/scalar/core.py", "finite_volume/scalar/solver/mcl.py", "core/local_bounds.py", "core/riemann_solver.py"],
  [("absolute characteristic speeds bound the Lax-Friedrichs diffusion", "finite_volume/scalar/core.py"), ("antidiffusive fluxes are clipped to the local bounds", "finite_volume/scalar/solver/mcl.py")],
  ["solution value and history of a solver"])
p("C05", "Low order and limited finite elements obey the discrete maximum principle",
  "For linear elements and every time step not exceeding the step size reported as optimal for the current nodal values, each new nodal value of a forward Euler step of the low order and of the limited continuous Galerkin scheme lies between the smallest and largest old value of the nodes it shares a cell with. Runs with adaptive steps and an offered integrator keep all values within the range of the initial data as long as no step-size warning is issued, and a step exceeding the optimal size in some stage is reported by a warning.",
  ["inputs", "histories"], "all nodal values, meshes, scalar problems, step sizes up to the optimum and integrators",
  "Existing tests compare right hand sides for fixed vectors on a four cell mesh.",
  ["finite_element/scalar/solver/cg_low.py", "finite_element/scalar/solver/mcl.py", "finite_element/artificial_diffusion.py", "core/local_bounds.py", "core/time_stepping.py"],
  [("artificial diffusion symmetrised from the absolute gradient", "finite_element/artificial_diffusion.py"), ("optimal time step from lumped mass over diagonal diffusion", "finite_element/scalar/solver/cg_low.py"), ("step check per stage", "core/time_stepping.py")])
p("C06", "Water heights stay positive and limited states stay within their bounds",
  "For shallow water the local Lax-Friedrichs scheme over a flat bottom, and the low order and limited schemes over any bottom, never produce a negative water height from non-negative ones when the step is at most half a cell divided by the largest wave speed. Over a flat bottom the limited scheme, whichever high order flux is chosen, additionally keeps each new height of such a step within the range of the cell's old height and the intermediate heights of the Riemann problems at its two faces, and each new velocity within the range of the cell's old velocity and the intermediate velocities at its two faces.",
  ["inputs", "configurations", "histories"], "all positive water heights down to nearly dry, all velocities, bottoms, high order fluxes, boundaries and step sizes within the bound",
  "Tests evaluate the limiter for a few fixed vectors with mild heights; near-dry states, strong shears and steep bottoms are not reached.",
  [SW + "low_order.py", SW + "mcl.py", "finite_volume/shallow_water/core.py"],
  [("height positivity fix caps the bottom correction", "finite_volume/shallow_water/core.py"), ("sequential limiting of heights and velocities", SW + "mcl.py")])
p("C07", "Lake at rest is preserved exactly over any submerged bottom",
  "If the water surface is level, the bottom lies below it and the water is at rest, then the central, energy stable (with and without diffusion), low order and limited shallow water schemes leave the state unchanged up to rounding for any number of steps. This holds for every bottom shape, gravity, mesh, boundary condition, high order flux of the limited scheme and time integrator.",
  ["inputs", "configurations"], "all submerged bottoms (smooth, stepped, random), surface levels, gravities, meshes and boundaries",
  "The tests fix one bathymetry vector; balancing errors in one term of a flux are visible only for other bottoms or gravities.",
  ["finite_volume/shallow_water/numerical_flux.py", SW + "low_order.py", SW + "mcl.py", SW + "energy_stable.py", SW + "central.py"],
  [("source term built from the height average and the bottom jump", "finite_volume/shallow_water/numerical_flux.py")])
p("C08", "Schemes respect translation, reflection and unit changes",
  "With periodic boundaries, shifting the initial data (and bottom) by whole cells shifts the result of every scheme by the same cells. For Burgers and shallow water finite volume schemes, mirroring the data (with the sign change of velocities) mirrors the result, also for wall, outflow and swapped inflow boundaries. Stretching the domain and the time by a common factor (bottom and depths unchanged) does not change the cell values of a finite volume scheme, rescaling gravity together with velocities and time only rescales discharges, and rescaling depths and bottom with inverse gravity only rescales depths and discharges (network corrected schemes, whose networks have fixed units, keep only the shift and the stretching).",
  ["inputs", "configurations"], "all states, shifts, scale factors, schemes and compatible boundaries",
  "Metamorphic relations between two runs are not tested at all; an index or sign slip at one boundary or one side of a face survives fixed examples.",
  [FV, "core/boundary.py", "finite_volume/shallow_water/boundary.py", "finite_volume/index_mapping.py", SW + "mcl.py"],
  [("symmetric treatment of the two sides of a face", FV), ("ghost cells", "core/boundary.py")])
p("C09", "Every scheme computes its published update",
  "For every state, bottom, mesh and boundary, one explicit step of each scheme equals the cell by cell evaluation of its documented formula: local Lax-Friedrichs, central, Lax-Wendroff (mean flux minus squared wave speed times step over twice the cell size times the jump), energy conservative flux and its first order diffusion, the Hajduk-Kuzmin low order scheme, monolithic convex limiting of any selectable high order flux, linear antidiffusion and network correction, and the consistent, low order and limited continuous Galerkin schemes. Bottom source terms enter each scheme that supports them exactly once, as gravity times mean height times bottom jump, half to each adjacent cell.",
  ["inputs", "configurations"], "all states, bottoms, gravities, meshes, boundary conditions and scheme options",
  "The tests pin outputs for a few vectors, computed with the same formulas; wrong terms that vanish for those vectors stay unseen.",
  [FV, "finite_volume/shallow_water/numerical_flux.py", SW + "mcl.py", SW + "low_order.py", SW + "energy_stable.py", SW + "lax_wendroff.py", SW + "antidiffusion.py", "finite_volume/scalar/solver/mcl.py", "finite_element/scalar/solver/cg_low.py", "finite_element/scalar/solver/mcl.py"],
  [("numerical fluxes of the schemes", SW)])
p("C10", "Physical fluxes, wave speeds and Riemann averages are right for all states",
  "For all admissible states the shallow water flux, its Jacobian, velocities, wave speeds, entropy variables and entropy potential agree with their definitions, including nearly dry and dry cells where fluxes and velocities vanish, and negative heights are rejected with an error. The wave speed bounds every characteristic speed of both states, and the intermediate state and flux of the Riemann solver satisfy the integral conservation relation across both waves for scalar and shallow water problems. For two adjacent states with positive heights the intermediate height is non-negative.",
  ["inputs"], "all pairs of admissible states, gravities, dry thresholds",
  "Tests use fixed vectors; the relations between flux, Jacobian, speeds and intermediate state are never cross-checked.",
  ["finite_volume/shallow_water/core.py", "core/riemann_solver.py", "finite_volume/scalar/core.py"],
  [("flux, Jacobian, wave speed and entropy formulas", "finite_volume/shallow_water/core.py"), ("intermediate state", "core/riemann_solver.py")])
p("C11", "Energy stable schemes conserve or dissipate energy",
  "For all positive heights, velocities, gravities and bottoms with periodic boundaries, the semi-discrete energy (kinetic plus potential, including the bottom) is constant for the energy conservative scheme and never increases for the scheme with first order diffusion. Across each face the energy conservative flux satisfies the discrete entropy condition with the entropy variables and potential.",
  ["inputs"], "all states, bottoms, gravities and meshes",
  "No test evaluates energy at all; an inexact average in the flux is invisible on fixed examples pinned from the code.",
  [SW + "energy_stable.py", "finite_volume/shallow_water/core.py"],
  [("arithmetic averages of velocity, height and squared height", SW + "energy_stable.py"), ("diffusion matrix times entropy jump", SW + "energy_stable.py")])
p("C12", "Runge-Kutta integrators are the methods they claim to be",
  "For every right hand side, start time, state type (number or array) and step sequence, each integrator advances by its stated tableau: Euler, Heun, the optimal third order and the eighth order method have orders 1, 2, 3 and 8, stage times and stage values are those of the tableau, and the time advances by exactly the step. Data passed in by the caller is never modified, and reinitialising is equivalent to constructing anew.",
  ["inputs", "histories"], "all right hand sides, initial values, times and sequences of steps and reinitialisations",
  "Tests integrate one or two ODEs to a loose tolerance, which does not discriminate a wrong coefficient of low weight or a wrong stage time.",
  ["core/ode_solver.py", "finite_element/ode_solver.py"],
  [("tableau evaluation", "core/ode_solver.py")])
p("C13", "Time stepping covers exactly the requested interval with admissible steps",
  "For every start and end time, CFL number and step function, the emitted steps are positive, none exceeds CFL number times the current optimal step, all but the last equal it, and they sum to the interval so that the final time is the end time. Fixed stepping uses the optimum evaluated once and its announced number of steps matches up to one, adaptive stepping re-evaluates it on the current solution before each step, and a step below the resolution limit stops the run with a warning and leaves the last solution intact. A step check raises exactly when the step exceeds the optimum of some stage.",
  ["inputs", "histories"], "all intervals, CFL numbers, step functions and re-iterations",
  "Tests use a few round numbers; rounding at the end of the interval and re-iteration are not explored.",
  ["core/time_stepping.py", "core/solver.py"],
  [("clipping of the last step and end detection", "core/time_stepping.py")])
p("C14", "Solution objects keep a faithful, isolated history",
  "After any sequence of updates, resets and reads, a solution reports the time and value of the last change, and a recorded history lists exactly the accepted times and values in order, cut at the reset time. Coarsened solutions report cell averages of the fine values on the correspondingly coarsened space. Non-finite values are rejected without changing anything, and later changes by the caller to arrays passed in or read out do not alter the solution.",
  ["histories"], "all sequences of update, reset, rejected update, read and caller side mutation, for scalar and vector values",
  "Tests perform single updates; aliasing and resets inside a history are sequence properties.",
  ["core/discrete_solution.py", "core/vector_coarsener.py"],
  [("copies on update and read", "core/discrete_solution.py")])
p("C15", "Ghost cells realise the chosen boundary conditions",
  "For every vector of cell values, stencil radius and combination of boundary conditions, the values handed to each face are those of the cells around it, where cells beyond the boundary are: the wrapped cells for periodic, the outermost cell for outflow, the prescribed data at the current time for inflow, and the mirrored cell with reversed discharge for a wall. Face values are returned to the cells on their left and right, wrapping only for periodic boundaries. Unknown conditions and missing inflow data are rejected, and cell values are not modified.",
  ["inputs", "configurations"], "all cell vectors, radii, pairs of conditions, inflow functions and times",
  "Tests use one or two cell vectors with radius up to two and few combinations.",
  ["core/boundary.py", "finite_volume/shallow_water/boundary.py"],
  [("ghost cell construction", "core/boundary.py")])
p("C16", "Quadrature and interpolation are exact where they must be",
  "A Gauss rule with n nodes on any interval integrates all polynomials up to degree 2n-1 exactly, has positive weights summing to the interval length and sorted nodes inside it. Cell averages, nodal values, and linear interpolation in time and space return the defined values for every function, grid and array shape, reproducing data exactly at common points and clamping outside the old range.",
  ["inputs"], "all degrees, intervals, polynomials, grids, shapes",
  "Tests check a few degrees on fixed intervals and functions.",
  ["core/quadrature.py", "core/interpolate.py"],
  [("Golub-Welsch nodes and weights, affine map", "core/quadrature.py"), ("interpolators", "core/interpolate.py")])
p("C17", "Meshes, neighbour maps, coarsening and local bounds are consistent",
  "For every domain and mesh size the cells partition the domain into equal, ordered, adjacent intervals; refining, coarsening and point location agree with that partition, and inadmissible coarsening is rejected. Neighbour maps of finite volume and finite element spaces are symmetric, contain the index itself, and equal the cells or degrees of freedom sharing a face or cell, with periodic wrap if requested. Vector coarsening averages blocks and preserves the mean; local extrema are the extrema over the neighbours.",
  ["inputs", "configurations"], "all domains, sizes, degrees, periodic or not, vectors",
  "Tests enumerate one mesh of few cells.",
  ["core/mesh.py", "core/index_mapping.py", "finite_volume/index_mapping.py", "finite_element/index_mapping.py", "core/vector_coarsener.py", "core/local_bounds.py", "finite_volume/space.py", "core/function.py"],
  [("uniform mesh construction", "core/mesh.py"), ("index maps", "finite_element/index_mapping.py")])
p("C18", "Finite element spaces and operators match their integrals",
  "For every periodic mesh, degree and coefficient vector, finite element functions, their derivatives and their precomputed variants equal the Lagrange interpolant, and mass matrix, lumped mass, discrete gradient, load vectors, flux gradients and artificial diffusion equal the integrals and sums that define them. Structural consequences hold: the mass matrix is symmetric positive definite with total equal to the domain length, the gradient is skew symmetric with zero row sums, the diffusion symmetric with zero row sums and non-negative off-diagonal.",
  ["inputs", "configurations"], "all domains, mesh sizes from three cells, degrees 1 to 7, coefficient vectors, functions",
  "Tests compare with hand computed matrices for one mesh and degrees one or two.",
  ["finite_element/space.py", "finite_element/mass.py", "finite_element/lumped_mass.py", "finite_element/discrete_gradient.py", "finite_element/discrete_l2_product.py", "finite_element/flux_gradient.py", "finite_element/flux_approximation.py", "finite_element/artificial_diffusion.py", "finite_element/system.py"],
  [("local to global assembly", "finite_element/system.py"), ("local Lagrange basis", "finite_element/space.py")])
p("C19", "Error norms and convergence tables are correct",
  "The L1, L2 and maximum norms of any scalar or vector valued function on any mesh equal the quadrature or sample value that defines them, are absolutely homogeneous, satisfy the triangle inequality and vanish for zero; polynomial errors within the exactness of the quadrature are integrated exactly. A convergence table lists for each refinement the number of unknowns, the three error norms of the discrete solution against the exact one at the end time, and the base two logarithm of consecutive error ratios.",
  ["inputs", "configurations"], "all functions, meshes, quadrature degrees, solution sequences",
  "Tests use a constant or linear function on one mesh; the table is not tested.",
  ["core/norm.py", "command/error.py"],
  [("quadrature based norms", "core/norm.py"), ("convergence table", "command/error.py")])
p("C20", "Benchmark data and exact solutions satisfy the equations they claim",
  "Each benchmark's exact solution coincides with its initial data at the start time, respects its boundary conditions and satisfies the conservation law wherever it is smooth, with admissible jumps at shocks, for all its parameters and all times for which it is offered; after shock formation it is refused. Lake, moving water and bump benchmarks are steady states of the shallow water equations; oscillating benchmarks have the configured average, amplitude, phase and wave number; water heights are positive.",
  ["inputs", "configurations"], "all benchmarks, parameters, points and times",
  "Tests evaluate few points of few benchmarks.",
  ["benchmark/advection.py", "benchmark/burgers.py", "benchmark/shallow_water.py", "core/benchmark.py"],
  [("closed form or root finding solutions", "benchmark/")])
p("C21", "Random benchmarks are reproducible and within their ranges",
  "The same seed yields the same random benchmark and the same sequence of benchmarks, different seeds draw independent parameters, every drawn parameter lies within its documented range, and explicitly given parameters (zero included) are kept without being overridden. A recorded seed reproduces the benchmark, and the end time given is used.",
  ["inputs"], "all seeds and subsets of explicitly given parameters",
  "Tests use a single seed.",
  ["benchmark/shallow_water.py"],
  [("seeded generator per benchmark", "benchmark/shallow_water.py")])
p("C22", "Generated training data are the exact coarse states and subgrid fluxes",
  "For every admissible solver, coarsening degree, stencil radius, face index, end time and seed, each generated row holds, at one time of the fine solution, the block averages of the fine solution around the chosen coarse face and, as subgrid flux, the fine flux through that face minus the coarse flux of the averages. Rows cover the initial and all later times of each solution, the recorded benchmark parameters reproduce the runs, the same seed gives identical files, and overwriting or appending affects the files as requested so that the result can be read back.",
  ["inputs", "configurations", "histories"], "all solvers, coarsening degrees, radii, faces, seeds, numbers of solutions and overwrite or append sequences",
  "Tests check mocked pieces with fixed vectors; the command end to end is not tested.",
  ["command/generate_data.py", "core/data.py"],
  [("recording of stencils during the fine run", "command/generate_data.py"), ("csv output", "command/generate_data.py")],
  ["data.csv and benchmark.csv in the target directory"])
p("C23", "Runs are deterministic, isolated and restartable",
  "Solving is a deterministic function of benchmark and options: repeating it, recording the history, naming the solver, or having created and solved other solvers before or in between does not change the result. Reinitialising a solver with a benchmark and solving again gives the same as a fresh solver for that benchmark, for every scheme, with the history restarted. The recorded history starts with the projected initial data and each entry is reproducible by a run ending at that time.",
  ["histories", "configurations"], "all schemes, options, interleavings of construction, solving and reinitialisation",
  "State shared through class attributes, cached arrays or default objects only shows for sequences of runs; no test runs a solver.",
  ["core/solver.py", "finite_volume/solver.py", "finite_element/solver.py", SW + "coarse.py", "finite_element/flux_approximation.py", "core/discrete_solution.py"],
  [("reinitialise of solution and integrator", "finite_volume/solver.py")])
p("C24", "The command line builds exactly the requested solvers and rejects bad input",
  "For every command line made of a problem, a benchmark, an end time and a list of solvers each with its own options, the program builds those solvers in that order with exactly the given options (mesh size, CFL number, integrator, degree, flux, names, coarsening, antidiffusion) and the documented defaults for the rest. Options of one solver never leak to another or to a later command, and option values equal to solver names do not start a new solver. Unknown commands, solvers and options, and numbers outside their documented domain (non-positive sizes, times or CFL numbers, non-numbers), are refused before anything is computed.",
  ["inputs", "programs"], "all command lines of the grammar, valid and invalid",
  "The tests cover only the numeric converters at single values; the grammar is untested.",
  ["core/solver.py", "command/calculate.py", "parser.py", "core/type.py", "finite_volume/solver.py", "finite_element/solver.py", "defaults.py"],
  [("splitting of the solver list and per solver parsers", "core/solver.py")],
  ["parsed arguments and built solvers"])
p("C25", "Plot, calculate and animate show what the solvers computed",
  "For every problem, benchmark and list of solvers, the plot command stores for each solver its grid and final values under its short name (for shallow water total height, discharge and velocity), the exact solution at the end time where one exists and the initial data if requested, on the requested number of points. Animations show for each solver the solution interpolated linearly in time at every displayed time. A solver that fails leaves a warning and its last valid state, and the others are unaffected.",
  ["programs", "configurations"], "all problems, benchmarks, solver lists, plot options",
  "No test runs these commands.",
  ["command/plot.py", "command/animate.py", "command/calculate.py", "command/command.py"],
  [("plotters and stored line data", "command/plot.py")],
  ["pickled plot data", "matplotlib artists"])
p("C26", "Error evolutions compare solutions at common times correctly",
  "For any two recorded solutions on the same grid, the error evolution is evaluated at the times of the more finely stepped one, interpolating the other linearly in time, and equals the L2 norm of the difference relative to the norm of the reference. It is zero for identical solutions, scales with the difference, and mismatching grids are refused. A series of errors uses one random benchmark per entry, reproducible from the seed, and skips only runs that fail; its average and maximum are taken over all runs at common times.",
  ["inputs", "histories"], "all pairs of histories, time grids, vector dimensions, seeds",
  "One test with constant data exists.",
  ["command/error_evolution.py", "core/interpolate.py", "core/norm.py", "command/parameter_variation_test.py"],
  [("temporal alignment and relative norm", "command/error_evolution.py")])
p("C27", "Network corrections are antisymmetric, scaled and survive storage",
  "For every state the network corrected flux equals the base flux plus the network output for the surrounding states in order, with opposite signs for the two cells, scaled by the stored input and output statistics. Saving and loading a trained network reproduces its predictions exactly, training is reproducible from its seed, and the data path, thinning and scaling options are respected.",
  ["inputs", "configurations"], "all states, network weights, scalers and training sets",
  "One test trains on a fixed file.",
  [SW + "reduced_model.py", SW + "reduced_llf.py", SW + "reduced_llf_2.py", "command/train_network.py", "command/print_network.py"],
  [("scalers fitted at training, applied at prediction", SW + "reduced_model.py")])
p("C28", "Computed solutions converge to the exact ones at the design order",
  "For smooth exact solutions, errors of every convergent scheme decrease under mesh refinement at no less than their design order (first order for diffusive schemes, at least second for central, limited and linear elements on smooth monotone parts, degree plus one or better half orders for higher degree elements), for random phases, amplitudes and domains. For discontinuous data the conservative schemes converge in the mean to the entropy solution with the correct shock position.",
  ["inputs", "configurations"], "all smooth or piecewise constant initial data, schemes, mesh sequences",
  "No test runs a simulation to its end.",
  ["core/solver.py", FV, "finite_element/scalar/solver/cg.py", "core/ode_solver.py"],
  [("scheme, integrator and boundary acting together", "core/solver.py")])
p("C29", "Coarsened solvers report block averages of the fine run",
  "For every base flux, coarsening degree and mesh, the coarsened solver runs the fine scheme on the given mesh unchanged and reports at every recorded time the block averages of the fine solution on the coarse grid; reinitialising behaves the same. Meshes not divisible by the degree are rejected.",
  ["inputs", "configurations", "histories"], "all base fluxes, degrees, meshes, histories and reinitialisations",
  "Only the coarsening of a fixed vector is tested.",
  [SW + "coarse.py", "core/discrete_solution.py", "core/vector_coarsener.py"],
  [("coarse view of the fine solution", "core/discrete_solution.py")])
p("C30", "Sparse system matrices behave like the dense matrix they represent",
  "After any sequence of entry assignments, bulk assignments, refreshes and factorisations, products, sums, differences, row and column scalings and solves of a system matrix agree with those of the dense matrix of its current values. No operation changes its operands.",
  ["histories"], "all sequences of operations and all regular matrices",
  "Tests cover single operations on one matrix.",
  ["core/system.py"],
  [("cached sparse formats and inverse", "core/system.py")])
p("C31", "Data commands keep exactly the rows they promise",
  "Removing high curvature rows from a data file keeps exactly those rows, in order and unmodified, whose height and discharge curvatures lie below the given or default thresholds for the given step length, and the result can be read again by all data commands. Curvatures are invariant under mirroring and offset of the stencil and vanish for linear data; analysing data does not change the files.",
  ["inputs", "configurations"], "all data files, thresholds and step lengths",
  "No test covers these commands.",
  ["command/delete_curvature.py", "command/analyze_data.py", "core/data.py", SW + "reduced_model.py"],
  [("curvature feature", SW + "reduced_model.py"), ("row filter", "command/delete_curvature.py")],
  ["target csv file"])
with open(os.path.join(os.path.dirname(__file__), "..", "properties.jsonl"), "w") as f:
    for x in P:
        assert len(x["title"]) <= 80, (x["id"], len(x["title"]))
        f.write(json.dumps(x) + "\n")
print(len(P))
