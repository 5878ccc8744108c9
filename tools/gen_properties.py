"""Writes properties.jsonl (kept as a script so that the long texts stay readable)."""
import json, os
P = []
def prop(id, title, statement, over, text, why, files, mech, state=(), observe=(), hook=None):
    P.append(dict(id=id, title=title, statement=statement,
                  quantifier=dict(over=over, text=text), why_tests_cant=why,
                  anchors=dict(files=files,
                               state=[dict(name=a, meaning=b, where=c) for a, b, c in state],
                               mechanism=[dict(name=a, where=b) for a, b in mech],
                               observe_at=list(observe), hook_needed=hook)))

SOL='src/pyclaw/solver.py'; CL='src/pyclaw/classic/solver.py'; SH='src/pyclaw/sharpclaw/solver.py'
ST='src/pyclaw/state.py'; SN='src/pyclaw/solution.py'; GE='src/pyclaw/geometry.py'; CO='src/pyclaw/controller.py'

prop('C01','Evolving to a time lands exactly on it or fails loudly',
 "Evolving a solution to a requested time either returns with the solution's time equal to the request (never before it, never past it, time increasing by the step size at every accepted step) or raises an error. A request at or before the current time changes nothing, a single-step request advances by exactly one accepted step, and exhausting the step limit is an error; with a fixed step size the time after n steps is the starting time plus n steps (no accumulated rounding), and the request must be a whole number of steps away; none of these calls changes how later calls on the same solver behave: step limit and step-size settings chosen by the user stay in force.",
 ['histories','inputs'],'every sequence of wave speeds met along the way (hence every pattern of accepted, shortened and rejected steps), every sequence of evolve / one-step / no-op requests, fixed and adaptive steps, every solver family and time integrator',
 'The regression tests run smooth problems to a final time with one call per frame; they meet almost no rejected steps, never request a time already reached and never exhaust the step limit.',
 [SOL,CL,SH],[('time-stepping loop with clipping of the last step',SOL+':evolve_to_time, get_dt'),('step limit',SOL+':evolve_to_time')],
 [('solver.dt, solver.max_steps','current step size, step limit',SOL)],['solution.t','solver.status','exceptions'])

prop('C02','Rejected steps leave no trace',
 "A step that is rejected because its Courant number was too large has no effect on the result: solution values, time, recorded gauge values, number of completed steps and multistep history afterwards are exactly those of a run that took only the accepted step sizes. In particular source terms applied during the rejected attempt are undone.",
 ['histories','configurations'],'every placement of rejected attempts in a run, for every solver family, time integrator, source splitting and dimension',
 'The tests almost never trigger a rejection (default initial step sizes are chosen small) and none compares with a rejection-free run.',
 [SOL,CL,SH],[('backup and restore of q and t',SOL+':evolve_to_time'),('saved slope reused after a rejection',SH+':step, update_saved_values')],
 [('q_backup, told','copy taken before each attempt',SOL+':evolve_to_time')],['solution.q','solution.t','gauge files','solver.status'])

prop('C03','Step size and Courant number stay within the limits set',
 "The Courant number reported for a step is the largest value, over all cells, wave families and directions, of wave speed times step size over (effective) cell width; no step whose Courant number exceeds the maximum is accepted. With adaptive steps no step chosen by the solver exceeds the maximum step size and the next step aims at the desired Courant number (multistep integrators: this applies to their starting steps); with fixed steps every step has the given size, and a size that violates the limit or does not divide the interval is refused with an error. The solver status reports the extremes of the steps actually taken.",
 ['inputs','configurations','histories'],'every position, sign, family and direction of the fastest wave; every sequence of wave speeds; 1D-3D, both solver families, both kernels, with and without a capacity function',
 'Tests compare a final solution; an under-reported Courant number in one cell (first or last interface, one sweep direction) or an ignored limit leaves the regression data unchanged.',
 [SOL,CL,SH,'src/pyclaw/classic/step1.f90','src/pyclaw/classic/flux2.f90','src/pyclaw/classic/step2ds.f90','src/pyclaw/classic/step3ds.f90','src/pyclaw/sharpclaw/flux1.f90'],
 [('Courant number reduction in the kernels','step*.f90, flux*.f90, step_hyperbolic, dq_hyperbolic'),('accept / reject and step-size formula',SOL+':accept_reject_step, get_dt, get_dt_new')],
 [('solver.cfl','running maximum of the Courant number','src/pyclaw/cfl.py')],['solver.status','solver.dt','solver.cfl'])

prop('C04','A run produces exactly the frames asked for, at the right times',
 "A controller run produces the initial frame and then one frame per requested output, numbered consecutively from the starting frame, each containing the solution at exactly the requested time (or after the requested number of steps; a list of output times begins with the time of the initial frame); in-memory copies, frame files in every requested format, derived-quantity frames and functional records all agree with one another and with the solution at that time. Auxiliary data are written exactly when asked for (initially, always or never), and which outputs are requested does not change the computed solution beyond the step boundaries they impose.",
 ['configurations','histories'],'every combination of output style, number of outputs, formats, copies kept, aux policy, derived quantities and starting frame',
 'Tests use one style and one format with defaults and look only at the last frame.',
 [CO,SN],[('output loop',CO+':run'),('derived quantities and functionals',CO+':run, write_F')],
 [('frame counter','number of the next frame',CO+':FrameCounter')],['controller.frames','files in the output directory'])

prop('C05','Ghost cells hold what the boundary conditions prescribe',
 "Before every step the interior of the extended arrays equals the solution and every ghost cell (corners included) holds what the selected conditions prescribe: periodic copies the opposite interior cells, extrapolation repeats the boundary cell, a wall mirrors the interior and negates only the normal momentum of that side, for aux arrays a wall just mirrors, and a custom condition is called exactly for its own sides with the current time and arrays. This holds independently for each side, each dimension and for solution and aux arrays, on grids at least as wide as the ghost layer.",
 ['configurations','inputs'],'every assignment of condition types to the sides, for q and aux, 1D-3D, every ghost width and small grid size, any interior data',
 'Tests use a handful of type combinations, check no ghost values and no corners.',
 [SOL,CL,SH,ST],[('ghost filling dimension by dimension',SOL+':_apply_bcs, _bc_lower, _bc_upper'),('copy of interior',ST+':get_qbc_from_q')],
 [('solver.qbc, solver.auxbc','extended arrays',SOL)],['arrays seen by custom boundary functions and Riemann solvers','solver.qbc'])

prop('C06','Conserved quantities are conserved to rounding',
 "For a conservation law, the total of every conserved quantity (cell value times cell volume, including the capacity function) changes over a step only by what crosses the boundary: it is constant to rounding on periodic domains, and mass is constant between solid walls. This holds for every scheme, order, limiter, splitting and dimension, for any data.",
 ['inputs','configurations'],'all grid data over a small value alphabet (all unit impulses for linear schemes), all schemes and options, several steps',
 'Regression tests compare with stored arrays of a few smooth runs at loose tolerance; they never check totals and use few option combinations.',
 [CL,SH,'src/pyclaw/classic/*.f90','src/pyclaw/sharpclaw/*.f90'],[('flux-differencing form of the updates','step1.f90, step2.f90, step2ds.f90, step3.f90, step3ds.f90, flux1.f90')],[],['solution.q'])

prop('C07','Python and Fortran kernels compute the same solution',
 "For every one-dimensional problem, choice of order, limiters, reconstruction, f-wave form, capacity function, aux fields and boundary conditions that both kernel languages support, the two kernels produce the same solution and the same Courant number up to rounding.",
 ['inputs','configurations'],'all data over a small value alphabet on small grids, all options supported by both',
 'The test suite runs both kernels on a few problems with the default limiter and compares each with stored data at tolerances of 1e-4 or so.',
 [CL,SH,'src/pyclaw/classic/step1.f90','src/pyclaw/classic/limiter.f90','src/pyclaw/classic/philim.f90','src/pyclaw/limiters/tvd.py','src/pyclaw/limiters/recon.py','src/pyclaw/sharpclaw/flux1.f90','src/pyclaw/sharpclaw/weno.f90'],
 [('two implementations of one algorithm',CL+':step_hyperbolic; '+SH+':dq_hyperbolic')],[],['solution.q','solver.cfl'])

prop('C08','The classic solvers apply the documented wave-propagation scheme',
 "One step of the classic solvers equals the documented wave-propagation update in every cell: upwind (Godunov) fluctuations at order one, limited second-order corrections at order two, in 2D and 3D either direction by direction or unsplit with transverse (and double transverse) propagation of waves and corrections, with the limiter function documented for the chosen limiter. For constant-coefficient advection this means: exact shift at unit Courant number, multilinear upwind weights for first-order transport including diagonal directions, and second-order accurate moments for the unlimited second-order schemes.",
 ['inputs','configurations'],'all data (a basis of unit impulses for the linear schemes, all words over a small alphabet for limited ones), all flow directions, splittings, transverse options and limiters, all cell positions',
 'Regression data exist for a few configurations and one resolution; a wrong coefficient for one direction or sign of velocity or one transverse term changes nothing the tests compare.',
 [CL,'src/pyclaw/classic/step1.f90','src/pyclaw/classic/step2.f90','src/pyclaw/classic/flux2.f90','src/pyclaw/classic/step2ds.f90','src/pyclaw/classic/step3.f90','src/pyclaw/classic/flux3.f90','src/pyclaw/classic/flux3fw.f90','src/pyclaw/classic/step3ds.f90'],
 [('wave propagation kernels','src/pyclaw/classic/*.f90'),('kernel selection',CL+':step_hyperbolic, _set_method')],[],['solution.q'])

prop('C09','No direction or orientation of the grid is special',
 "Relabelling the coordinate axes, reversing an axis, or translating periodic data, together with the corresponding change of velocities and coefficients, changes the computed solution only by the same relabelling, reversal or translation. Data that vary along one axis only give, in 2D and 3D, the 1D solution in every row, whichever axis it is and whatever the extents of the others.",
 ['inputs','configurations'],'all axis permutations and reflections, all placements, all solvers and options, data over a small alphabet, unequal numbers of cells and unequal cell sizes per axis',
 'The tests run each problem in one orientation, mostly on square grids.',
 [CL,SH,'src/pyclaw/classic/*.f90','src/pyclaw/sharpclaw/*.f90'],[('per-direction sweeps with their own loop bounds and index arrays','step2*.f90, step3*.f90, flux2.f90, flux3.f90')],[],['solution.q','solver.cfl'])

prop('C10','TVD limiting creates no new extrema',
 "For scalar advection within the Courant limit, a classic step with any of the TVD limiters (minmod, superbee, van Leer, MC and the further TVD limiters of the Python kernels), or at order one, neither increases the total variation of periodic data nor creates values outside the range of the old data, and keeps constant states exactly constant. Each limiter chosen per wave family acts on that family only, at every interface alike.",
 ['inputs','configurations'],'all data words over a small alphabet on small periodic grids, all TVD limiters, both kernels, both signs of velocity, all Courant numbers of a set up to 1',
 'Tests use one initial condition and default minmod or MC limiters and never examine variation.',
 [CL,'src/pyclaw/classic/limiter.f90','src/pyclaw/classic/philim.f90','src/pyclaw/limiters/tvd.py'],[('wave limiters','limiter.f90, philim.f90, tvd.py'),('limiter selection per family',CL+':_set_mthlim')],[],['solution.q'])

prop('C11','A frame read back is the frame written',
 "Writing a solution and reading the frame back in the same format yields the same time, number of patches, patch numbers and levels, extents, cell counts, solution values and (when written) aux values, to the precision of the format, with each value in its own cell, component and patch. Writing a frame changes neither the solution nor the caller's options, and aux values that were not stored are not invented.",
 ['inputs','configurations'],'1D-3D, any small numbers of cells, components, aux fields and patches, all writable/readable formats and options, values of all magnitudes',
 'Tests read two stored data sets; binary aux, 1D and 3D, several patches and unequal extents are never exercised.',
 ['src/pyclaw/fileio/ascii.py','src/pyclaw/fileio/binary.py','src/pyclaw/fileio/hdf5.py',SN],[('writers and readers per format','src/pyclaw/fileio/'),('format dispatch',SN+':read, write')],[],['files','solution attributes'])

prop('C12','Stopping and restarting does not change the solution',
 "Splitting a computation at any output time - by separate evolve calls, by a second run, by restarting from a frame written to disk, or by continuing from an in-memory copy with a fresh solver - gives the solution of the uninterrupted computation, provided the same step sizes are used (exactly for one-step methods, to the file's precision when going through disk). Frame numbering continues from the restart frame when that is requested (count_from_zero=False) and starts from zero otherwise.",
 ['histories','crash_points'],'every subset of split points of a short run and every mechanism of continuing at each, all solver families and formats',
 'One IO test restarts nothing; regression runs are uninterrupted.',
 [SOL,CO,SN,ST],[('state carried in solution only',SOL+':evolve_to_time'),('start frame',SN+':start_frame; '+CO+':run')],[],['solution.q','frame numbers'])

prop('C13','Grid coordinates agree with the extents at all times',
 "Cell centres, nodes, cell widths and counts reported by a dimension, grid, patch, domain, state or solution always follow from the current bounds and number of cells (and current mapping): nodes split the interval evenly from lower to upper, centres lie midway, ghost versions extend them by whole cells, and mapped coordinates are the mapping of the computational ones. This remains true after any sequence of changes of bounds, cell counts and mapping interleaved with any queries, and a cell's centre asked for by index is that cell's centre.",
 ['histories','inputs'],'every sequence of changes and queries up to a bound, 1D-3D, with and without mapping',
 'The doctests query each object once after construction; cached arrays can only go stale after a particular order of queries and changes.',
 [GE],[('cached coordinate arrays and their invalidation',GE+':Grid._compute_*, Dimension setters')],[('cached centres/nodes','lazily computed arrays',GE)],['coordinate properties'])

prop('C14','Copies and separate simulations do not influence one another',
 "A deep copy of a solution or state equals the original in every respect that affects further computation, and changing or evolving either leaves the other untouched. Solutions of equal size evolved alternately by one solver (one-step methods), and simulations run one after another or alternately in one process with any mixture of solver types, sizes and options, each give the result they give when run alone in a fresh process.",
 ['histories','configurations'],'every sequence of up to a few simulations drawn from a set of different configurations in one process, and every interleaving of copying, changing and evolving copies',
 'Each regression test checks only its own run; leftovers in module-level Fortran storage or shared arrays show only for particular successions.',
 [ST,SN,GE,CL,SH,'src/pyclaw/sharpclaw/ClawParams.f90','src/pyclaw/sharpclaw/workspace.f90'],[('deep copy methods',ST+','+SN+','+GE+':__deepcopy__'),('Fortran module allocation and release',SH+':setup, __del__')],[('Fortran module variables','parameters and workspace shared by all solvers of a dimension','src/pyclaw/sharpclaw/*.f90')],['solution.q of each simulation'])

prop('C15','Gauges record every accepted step of their own cell',
 "Each gauge records one line for the initial state and one for every accepted step, and nothing else, giving the time and the value (or derived quantity) of the cell that contains its location; what is kept in memory equals what is in the file. Gauges outside the domain record nothing and do not disturb the others, a further run starts its files anew, and a gauge data file read back (and written again) preserves identity, location, times, levels and values.",
 ['inputs','histories','configurations'],'all gauge locations on a fine lattice incl. cell edges, 1D-3D, histories with rejected steps and repeated runs, all gauge file variants',
 'No test uses gauges.',
 [SOL,GE,'src/pyclaw/gauges.py',CO],[('location to cell',GE+':add_gauges'),('recording after acceptance',SOL+':write_gauge_values, evolve_to_time')],[],['gauge files','state.gauge_data'])

prop('C16','SharpClaw time integrators are the methods they are named after',
 "For any right-hand side, one step of each SharpClaw time integrator (Euler, SSP22, SSP33, SSP104, arbitrary Runge-Kutta coefficients, the two families of variable-step SSP multistep methods, arbitrary multistep coefficients) produces the value given by that method's formula, evaluating the right-hand side at the method's stage values and stage times. In particular each method has its stated order for constant, polynomial-in-time and linear right-hand sides, for any sequence of step sizes it admits. With adaptive steps the SSP multistep methods take the largest steps for which they preserve strong stability, given the forward Euler limits met during their last steps.",
 ['inputs','histories'],'all integrators, step-size sequences over an alphabet, right-hand sides forming a basis (powers of t, linear in q), with and without per-stage callbacks',
 'Tests run two or three integrators on one problem each and compare with stored data; stage times and variable-step coefficients are never checked.',
 [SH],[('integrator formulas',SH+':step, ssp22, ssp104, update_saved_values')],[('stage registers, saved slopes and step sizes','history needed by the integrators',SH)],['solution.q','times passed to source terms and callbacks'])

prop('C17','Source terms and callbacks act exactly once per step, in order',
 "In every accepted classic step the user's source step is applied for a total of exactly one step size - once after the homogeneous step (Godunov splitting) or half before and half after (Strang splitting) - and in SharpClaw the source contributes at every stage with that stage's state. The user's before-step callback is called exactly once before each attempted step (before each further stage as well when requested), and whatever it writes to solution or aux arrays is used by that step.",
 ['histories','configurations'],'every history of accepted, rejected and boundary (Courant number equal to the limit) steps; every splitting, solver and dimension',
 'The few tests with source terms compare a final state; a source step dropped or doubled on particular steps is invisible elsewhere.',
 [SOL,CL,SH],[('splitting',CL+':step'),('stage sources',SH+':dq'),('callback',SOL+':evolve_to_time')],[],['calls of user functions','solution.q'])

prop('C18','Reconstruction reproduces what its order promises',
 "SharpClaw's spatial reconstruction (WENO of every offered order, second-order TVD, component-wise, wave-based or characteristic-wise) reproduces constants exactly, treats both interface sides as mirror images (TVD limiters 1 to 4 and WENO), uses only the cells of its stencil, and agrees with the formulas of its stated order, hence is exact for polynomials up to the degree of its substencils and of full order on smooth data. TVD reconstruction stays within the neighbouring cell values.",
 ['inputs','configurations'],'all orders, data from a polynomial basis and all words over a small alphabet, every cell position, both directions of flow',
 'Tests run WENO5 and one higher order on a single problem; the coefficients of the other orders are never executed.',
 ['src/pyclaw/sharpclaw/weno.f90','src/pyclaw/sharpclaw/reconstruct.f90','src/pyclaw/limiters/recon.py',SH],[('reconstruction kernels','weno.f90, reconstruct.f90')],[],['dq returned by the solver, solution.q'])

prop('C19','A capacity function acts as the effective size of its own cell',
 "Solving with a capacity function is solving with each cell's width (volume) multiplied by its own capacity: a constant capacity is equivalent to rescaling the grid, the Courant number and step sizes use the effective cell sizes, and with a varying capacity every cell's update is divided by that very cell's capacity. This holds in 1D-3D for all schemes, for any position of the capacity among the aux fields.",
 ['inputs','configurations'],'all positions of a deviating capacity value, all schemes and dimensions, data over a small alphabet',
 'Capacity functions are used in two mapped-grid regression tests with smooth capacities, for classic 2D only.',
 [CL,SH,'src/pyclaw/classic/*.f90','src/pyclaw/sharpclaw/flux1.f90'],[('dt/dx divided by capacity','step1.f90, step2*.f90, step3*.f90, flux1.f90, Python kernels'),('index of the capacity field',CL+':_set_method; '+SH+':_set_fortran_parameters')],[],['solution.q','solver.cfl'])

prop('C20','Aux fields reach the Riemann solvers cell by cell and stay unchanged',
 "Riemann solvers see, for every interface, the aux values of exactly the two adjacent cells (ghost values at boundaries), in every direction and for transverse solves, so a change of one cell's coefficients changes a single step only near that cell. Running a simulation leaves aux values, problem parameters and grid as the user set them.",
 ['inputs','configurations'],'all positions of a deviating coefficient, 1D-3D, split and unsplit, both solver families',
 'Variable-coefficient tests use smooth coefficients and compare final states loosely.',
 [CL,SH,'src/pyclaw/classic/*.f90','src/pyclaw/sharpclaw/*.f90',ST],[('aux slices handed to the kernels','step2.f90, step2ds.f90, step3.f90, step3ds.f90, flux2.f90, flux3.f90')],[],['solution.q','state.aux'])

prop('C21','Invalid set-ups are refused before anything is computed or overwritten',
 "A set-up that lacks required information or contradicts itself - missing or unknown boundary condition, missing custom function, wrong number of limiters, limiter or order the kernel does not have, state with another number of equations than the solver, desired Courant number above the maximum, missing parameters declared by the Riemann solver or wave counts, capacity index outside the aux fields, unsupported kernel, reconstruction or integrator, mapped grid without capacity, output directory that must not be overwritten, unknown format or output style - is refused with an error by a controller run and leaves solution and existing output (frames and gauges) untouched. A refused set-up that is repaired then runs as if it had been right from the beginning, and every valid set-up is accepted.",
 ['configurations'],'every single and pairwise defect of the list in otherwise valid set-ups of each solver family',
 'Tests contain valid set-ups only.',
 [SOL,CL,SH,CO,ST,SN,GE],[('validity checks',SOL+':is_valid; '+CO+':check_validity; '+ST+':is_valid, set_cparam; setup methods')],[],['exceptions','solution.q','output directory'])

prop('C22','Damaged frames are refused, not misread',
 "Reading a frame whose data are incomplete - any missing suffix of the data, a missing file of the set, a header that announces more patches or values than are present - raises an error; it never yields a solution with wrong or invented values (aux values whose file is missing are marked as absent; text formats cut between values).",
 ['crash_points','fault_sequences'],'every truncation point (line for text, byte for binary formats) of every file of a frame, every missing file',
 'Tests read intact files only.',
 ['src/pyclaw/fileio/ascii.py','src/pyclaw/fileio/binary.py','src/pyclaw/fileio/hdf5.py','src/pyclaw/util.py',SN],[('end-of-file checks','ascii.py:read_array; binary.py:read; util.py:read_data_line')],[],['exceptions','solution attributes'])

prop('C23','VTK output shows every cell once, with its own value',
 "VTK output of a solution contains each patch with its own extents and, for each cell, that cell's values; cells covered by a patch of the next finer level are marked hidden and all others visible, whatever the arrangement and order of the patches (2D). Writing VTK output does not change the solution.",
 ['inputs','configurations'],'all arrangements of one or two fine patches on a small coarse grid, all orders of the patch list, 2D',
 'One test writes VTK files for a single data set and compares with stored files.',
 ['src/pyclaw/fileio/claw_vtk.py'],[('overlap marking','claw_vtk.py')],[],['files','solution.q'])

prop('C24','Parallel runs agree with serial runs',
 "A simulation distributed over several processes gives the same solution, output, gauges and functionals as the serial run.",
 ['schedules','configurations'],'every number of processes and domain decomposition',
 'Needs an MPI/PETSc installation; tests for it are skipped.',
 ['src/petclaw'],[('PETSc distributed arrays','src/petclaw/state.py, geometry.py')],[],['solution'])

prop('C25','Command-line options reach the application as given',
 "An application started through run_app_from_main is called exactly once, with exactly the key=value options of the command line as keyword arguments: each value is the JSON value it denotes (number, list, mapping, truth value, null), or True/False as Python writes them, and otherwise the text itself; the last of repeated options counts, positional words and the plotting options iplot and htmlplot are not passed on. The controller it returns is then run once and returned, and plots are made afterwards exactly when asked for, from the output directory and plot set-up of the run.",
 ['inputs'],'every command line up to the bound, in any order and mixture of options and positional words',
 'No test goes through the command line.',
 ['src/pyclaw/util.py'],[('argument parsing','src/pyclaw/util.py:_info_from_argv, run_app_from_main')],[],['arguments the application receives','calls of the controller and the plotting functions'])

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'properties.jsonl')
with open(out, 'w') as f:
    for p in P:
        assert len(p['title']) <= 80, p['title']
        f.write(json.dumps(p) + '\n')
print(len(P))
