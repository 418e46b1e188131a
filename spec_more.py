# more properties; executed by spec.py
FIO = ['src/pyclaw/fileio/ascii.py', 'src/pyclaw/solution.py']

prop('C10', 'Ghost cells hold what the boundary conditions prescribe',
     'Whenever the solver computes fluxes, the ghost cells of the solution and of the auxiliary fields hold what the boundary condition chosen for that side '
     'prescribes for the current data: extrapolation, periodic continuation, reflection at a wall (normal velocity negated), or what the user function set. '
     'This holds for each side, dimension, field and ghost layer independently, also when the choice changes between steps.',
     ['inputs', 'configurations', 'histories'], 'every combination of conditions per side and field, data, grid (also very small), dimension, solver and reconstruction order',
     'Examples use few combinations, mostly the same on all sides, and coarse norms of the interior hide a wrong ghost layer.',
     ['src/pyclaw/solver.py', 'src/pyclaw/sharpclaw/solver.py', 'src/pyclaw/classic/solver.py'],
     [('ghost cell filling', 'src/pyclaw/solver.py:_apply_bcs, _bc_lower, _bc_upper')],
     'monitor of every state the kernels hand to the Riemann solver and to user functions, against a reference fill', 'Held on the generated runs; exact comparison.',
     ['Riemann solver arguments', 'custom boundary function arguments'])
prop('C12', 'Limiters are the documented functions, interface by interface, and TVD',
     'Each wave limiter multiplies every wave by its documented function of the upwind ratio at that interface (and of the local Courant number, for those that depend on it), '
     'whatever happens at other interfaces or in other wave families. With the TVD limiters the total variation of a linearly advected scalar never '
     'grows and no new extremum appears within the stable range of Courant numbers.',
     ['inputs', 'configurations'], 'every data, speed of either sign, limiter, kernel language and reconstruction',
     'Tests run the default limiter on smooth data; the other limiter functions and non-smooth data with changing signs are never compared with anything.',
     ['src/pyclaw/limiters/tvd.py', 'src/pyclaw/classic/limiter.f90', 'src/pyclaw/sharpclaw/reconstruct.f90'],
     [('limiter functions', 'src/pyclaw/limiters/tvd.py, src/pyclaw/classic/limiter.f90 (philim)')],
     'formula, locality and total-variation monitors on the public limiter functions and on every step of real runs', 'Held on the generated data; tolerance 1e-9.')
prop('C13', 'Every method converges at its design order',
     'On smooth solutions the error of each method decreases at its design order as the grid and the step are refined: first or second order for the wave-propagation methods '
     '(split and unsplit, in one to three dimensions), the nominal order of each reconstruction for the spatial error and the order of each time integrator for the temporal error.',
     ['inputs', 'configurations'], 'every linear system, wave direction, solver, reconstruction order, integrator and boundary condition that keeps the solution smooth',
     'One test looks at convergence of one reconstruction; stored norms cannot tell an order that was lost before they were stored or outside of the default options.',
     SOLVERS + CLASSIC_F + SHARP_F, [('the schemes as a whole', 'src/pyclaw/classic, src/pyclaw/sharpclaw')],
     'convergence monitor: errors of real runs against exact solutions on three grids or with three step sizes', 'Observed order within 0.35-0.8 of the design order on the generated problems.')
prop('C14', 'The controller outputs the right states at the right times',
     'A controller run produces exactly the requested frames: equally spaced times, listed times, or every so many steps, the first one being the state at the start. Each frame (kept in memory or '
     'read back from the files, with auxiliary data where requested) holds the state a solver advanced directly to that time or by that many steps has, and earlier frames never change later. '
     'Runs continue where the last one ended, existing output is not overwritten if that is forbidden, and output that cannot be written stops the run with an exception.',
     ['histories', 'configurations', 'inputs'], 'every output style, number and spacing of frames, format, sequence of runs',
     'Tests use one run with default output and look at the last frame only.',
     ['src/pyclaw/controller.py', 'src/pyclaw/solution.py'], [('output schedule', 'src/pyclaw/controller.py:run')],
     'offline checker of the frames produced by random run histories, against a twin advanced directly', 'Held on the generated histories; bitwise in memory and HDF5, eight digits in ascii.')
prop('C15', 'Gauges record the time series of their cell',
     'A gauge inside the domain records, for the initial state and for every accepted step, the time and the solution (or the user-defined function of solution and aux) of the cell that contains it. '
     'The records are complete, in order and free of duplicates, the same in memory and in the files, in every dimension and for repeated runs; gauges outside of the domain are ignored.',
     ['inputs', 'histories', 'configurations'], 'every gauge location, grid extent and size, dimension, output schedule and sequence of runs',
     'One test compares one gauge of one 2D problem with a stored file.',
     ['src/pyclaw/geometry.py', 'src/pyclaw/solver.py', 'src/pyclaw/controller.py'], [('gauge setup and writing', 'src/pyclaw/geometry.py:add_gauges, src/pyclaw/solver.py:write_gauge_values')],
     'offline checker of gauge records against the states recorded step by step', 'Held on the generated runs.')
prop('C16', 'ASCII output read back is the solution that was written',
     'A solution written in the ascii format and read back has the same time, patches, geometry, levels, values (to the nine digits the format carries), auxiliary fields, mapping and parameters, '
     'for any number of dimensions, patches, components and magnitude of values. Files of other writers of the format with other line lengths, and frames of ForestClaw with their block numbers and ranks (also between ordinary ones), are read as well, wherever they lie; truncated files raise an error instead of yielding wrong data.',
     ['inputs', 'configurations', 'fault_sequences'], 'every solution, every number of patches and values (extreme magnitudes and signs included), every truncation at a line boundary',
     'One round-trip test uses a fixed solution with moderate values and equal patch sizes.',
     FIO + ['src/forestclaw/fileio/ascii.py', 'src/forestclaw/geometry.py'], [('ascii writer and reader', 'src/pyclaw/fileio/ascii.py, src/forestclaw/fileio/ascii.py')],
     'round-trip monitor on the real files, with damaged and foreign files as faults', 'Held on the generated solutions; relative 6e-9.')
prop('C17', 'HDF5, binary and VTK files hold exactly the solution',
     'A solution written as HDF5 and read back is bitwise the same, patch by patch (auxiliary fields that were not stored read as NaN); raw binary output of the Fortran packages is read with ghost cells stripped, in single and double precision; '
     'VTK files hold every cell value, coordinate and which cells are covered by finer patches. Writing never changes the solution in memory.',
     ['inputs', 'configurations'], 'every solution, dimension, number of patches, ghost layers, precision and storage option',
     'One fixed solution per format is tested, on one patch.',
     ['src/pyclaw/fileio/hdf5.py', 'src/pyclaw/fileio/binary.py', 'src/pyclaw/fileio/claw_vtk.py', 'src/pyclaw/fileio/netcdf.py', 'src/pyclaw/solution.py'],
     [('readers and writers', 'src/pyclaw/fileio')], 'round-trip monitor on the real files (VTK through the VTK library)', 'Held on the generated solutions, with the known finding that NetCDF output fails.')
prop('C18', 'Grid coordinates always describe the current extent',
     'Cell sizes, centers, edges and their values with ghost cells, in computational and mapped physical space, always follow from the current lower and upper bounds, number of cells and mapping of each dimension. '
     'They stay correct through any history of queries, changes of bounds, resolution or mapping, added dimensions and copies, and a copy shares nothing with the original.',
     ['histories', 'inputs'], 'every sequence of queries, changes and copies, in one to three dimensions',
     'Doctests query fresh grids; stale coordinates after a change, or copies sharing state, need a history.',
     ['src/pyclaw/geometry.py'], [('lazy coordinates', 'src/pyclaw/geometry.py:Grid, Dimension')],
     'model-based monitor: every query of a random history against coordinates computed from the current extent', 'Held on the generated histories; tolerance 1e-12.')
prop('C19', 'Independent problems and copies do not influence each other',
     'The result of advancing a problem depends only on its own data: not on other solvers and solutions advanced in between in the same process, on what memory held before, on deep copies being taken or changed, '
     'nor on output, gauges and kept frames being requested. A solver that alternates between solutions treats each as if it were alone.',
     ['histories', 'schedules', 'configurations'], 'every interleaving of several solvers and solutions, options, copies and outputs',
     'Each test runs one problem in isolation; shared module state of the compiled extensions shows only when several are alive.',
     ['src/pyclaw/solver.py', 'src/pyclaw/sharpclaw/solver.py', 'src/pyclaw/classic/solver.py', 'src/pyclaw/state.py', 'src/pyclaw/solution.py', 'src/pyclaw/geometry.py', 'src/pyclaw/sharpclaw/ClawParams.f90', 'src/pyclaw/sharpclaw/workspace.f90'],
     [('module data of the compiled kernels', 'src/pyclaw/sharpclaw/ClawParams.f90, workspace.f90, reconstruct.f90'), ('copies', 'State/Patch/Grid __deepcopy__')],
     'interleaving monitor: bitwise comparison with the same problem run in a process of its own', 'Held on the generated interleavings; bitwise.')
prop('C26', 'Derived quantities and functionals are those of the frame they belong to',
     'The derived quantities written with each frame are the user-defined function evaluated on the state of that frame, complete and readable; the functional file has one row per frame with its time and the integral '
     'of the absolute value of each density. Computing them changes neither the solution nor the frames.',
     ['histories', 'inputs', 'configurations'], 'every number of derived quantities and functionals, format, schedule and dimension',
     'One example prints a functional without comparing it; derived frames are not read back.',
     ['src/pyclaw/controller.py', 'src/pyclaw/state.py', 'src/pyclaw/fileio/ascii.py', 'src/pyclaw/fileio/hdf5.py'],
     [('derived output', 'src/pyclaw/controller.py:run, write_F; src/pyclaw/state.py:sum_F')],
     'offline checker of the derived files against a twin advanced directly', 'Held on the generated runs.')
prop('C20', 'A run in pieces is the run in one go',
     'Stopping and continuing changes nothing: a fixed-step run split over several calls, over new solver objects, through a deep copy, through files read back by frame number, or over several controllers gives '
     'the states of the uninterrupted run (to the precision of the format), and its time and (for runs read from a frame or kept in memory) frame numbers and file names continue. An adaptive run continued from a checkpoint is the one continued from memory.',
     ['histories', 'crash_points', 'configurations'], 'every point of interruption, number of pieces, format, solver, dimension and boundary condition',
     'Only one restart is tested, of one problem at one frame.',
     ['src/pyclaw/solution.py', 'src/pyclaw/solver.py', 'src/pyclaw/controller.py', 'src/pyclaw/fileio/ascii.py', 'src/pyclaw/fileio/hdf5.py'],
     [('restart', 'src/pyclaw/solution.py:read; src/pyclaw/controller.py:run; src/pyclaw/solver.py:evolve_to_time')],
     'twin monitor: states of interrupted and uninterrupted runs', 'Held on the generated histories; bitwise except for ascii files.')
prop('C21', 'The compiled kernels stay inside their arrays and use only what was set',
     'No kernel reads or writes outside of the arrays it is given or allocates, or uses a value that nothing has set, for any legal grid size (including single cells and unequal sides), number of equations, '
     'waves, aux fields and ghost cells, reconstruction, integrator, and sequence of setups, runs and teardowns.',
     ['inputs', 'configurations', 'histories'], 'every legal array extent, option and sequence of setups',
     'Overruns and stale work arrays read plausible neighbouring memory in the tests and leave the stored norms as they are.',
     CLASSIC_F + SHARP_F + ['src/pyclaw/sharpclaw/workspace.f90', 'src/pyclaw/limiters/recon.py'],
     [('work arrays', 'src/pyclaw/sharpclaw/workspace.f90, reconstruct.f90; work arrays passed by src/pyclaw/classic/solver.py')],
     'sanitizers: the kernels rebuilt with AddressSanitizer, array bounds checks and NaN-filled memory, every value reaching a Riemann solver checked', 'Held on the generated runs, which all ran in instrumented modules.')
prop('C22', 'Results do not depend on how the problem is placed or described',
     'Shifting periodic data by whole cells, mirroring an axis, exchanging axes, another unit of length and time, or another origin of time shifts, mirrors, exchanges or leaves the result in the same way. '
     'Data that do not depend on one coordinate stay so, whatever the number of cells in that direction, and evolve as the same problem in fewer dimensions does.',
     ['inputs', 'configurations'], 'every system with that symmetry, data, aux and capacity fields, solver, option and grid shape',
     'A wrong index in one direction, one side or one dimension breaks a symmetry that no stored norm shows.',
     SOLVERS + CLASSIC_F + SHARP_F, [('sweeps of each direction', 'src/pyclaw/classic/*.f90, src/pyclaw/sharpclaw/flux*.f90')],
     'metamorphic monitor: every step of the transformed twin', 'Held on the generated pairs; tolerance 1e-10, 1e-8 to 1e-6 with WENO.')
prop('C23', 'The reported Courant number is the one of the step',
     'The Courant number a solver reports after a step is the largest dt |s| / (capacity * cell size) over the waves of all interfaces that enter the update, in every direction and (for multi-stage methods) '
     'every stage, and no accepted step of an adaptive run has a larger one than cfl_max.',
     ['inputs', 'configurations'], 'every field of wave speeds of either sign, capacity function, cell shape, dimension, splitting, step size and integrator',
     'Tests only see a Courant number through the final state; one that misses a direction, a wave, a sign or a boundary interface just takes other steps.',
     SOLVERS + CLASSIC_F + SHARP_F + ['src/pyclaw/cfl.py'], [('Courant number', 'cfl of src/pyclaw/classic/step*.f90, src/pyclaw/sharpclaw/flux*.f90, src/pyclaw/cfl.py')],
     'online monitor: an independent model of the wave speeds of each step, against the Courant number reported', 'Held on every monitored step.')
prop('C24', 'Gauge records survive writing, reading and conversion',
     'A gauge record written and read back has the same id, location, type, levels, times and values, in one, two and three dimensions and for any number of samples and fields; ascii and binary records of the other '
     'Clawpack packages are read as they are; an old fort.gauge file is converted into one record per gauge with all its samples in order, and comparing records shows the differences there are.',
     ['inputs', 'histories'], 'every record (one sample included, any magnitude), header variant, precision and interleaving of gauges',
     'Tests read one fixed two-dimensional gauge.',
     ['src/pyclaw/gauges.py'], [('GaugeSolution', 'src/pyclaw/gauges.py:GaugeSolution.read, write; convert_gauges, compare_old_gauges')],
     'round-trip monitor on the real files, with an independent writer of the format', 'Held on the generated records.')
prop('C25', 'Mistakes are refused, not computed with',
     'A set-up that cannot be run (missing or unknown boundary conditions, limiter counts, kernel languages, integrators, reconstruction settings, missing parameters of the Riemann solver, mapped grids without capacity function, '
     'steps that do not divide the interval, unknown formats or attributes, damaged or missing files) raises an exception instead of ending the process or yielding a result, before the solution has been changed.',
     ['configurations', 'fault_sequences'], 'every such mistake, combined with any otherwise valid problem and solver',
     'Tests run correct set-ups only.',
     SOLVERS + ['src/pyclaw/controller.py', 'src/pyclaw/geometry.py', 'src/pyclaw/solution.py', 'src/pyclaw/state.py', 'src/pyclaw/gauges.py', 'src/pyclaw/fileio/ascii.py', 'src/pyclaw/fileio/hdf5.py'],
     [('validation', 'Solver.is_valid, setup, evolve_to_time; Controller.check_validity; Dimension setters')],
     'fault injection: one mistake per run in a process of its own, which must end in an exception with the state untouched', 'Held for the mistakes listed in mon/props/c25.py.')
prop('C27', 'Changes between calls take effect',
     'What a solver does in a call follows from the data and settings at that time: parameters, auxiliary fields, solution values, time, boundary conditions, source terms, hooks, step size, order, limiters and other options changed by the user between '
     'calls (in place or by assignment), or another solution on a grid of the same size handed to the same solver, act exactly as if the solver were new. (The Riemann solver, kernel language, time integrator and number of cells are those of the set-up.) A call that failed or was stopped leaves nothing behind in the solver.',
     ['histories', 'configurations'], 'every sequence of calls (failing ones included) and changes, of solutions and cell sizes, and every solver and system',
     'Tests set a problem up once and run it; values cached at set-up are right there.',
     SOLVERS + ['src/pyclaw/state.py', 'src/pyclaw/sharpclaw/ClawParams.f90'],
     [('cached parameters, work arrays and registers', 'SharpClawSolver.setup, _allocate_registers, _set_fortran_parameters; ClawSolver._set_method; State.set_cparam')],
     'history monitor: every piece bitwise against a new solver with copies of the current data', 'Held on the generated histories; bitwise.')
prop('C28', 'A problem is the same however it is described and addressed',
     'The documented ways to describe a problem are interchangeable: a domain given by bounds, dimensions or patches, alone or in a list; a solution made from states, from numbers of equations and auxiliary '
     'fields, or from a stored frame named by position or keyword. They give the same geometry, arrays, time and result of a run. The attributes that solutions and controllers share with the base state, its grid and '
     'their dimensions are at all times those of the current ones, assignments of the time and of the numbers of derived quantities reach every state, and frames kept or stored are found under their number and time.',
     ['inputs', 'configurations', 'histories'], 'every geometry, number of fields and patches, way of description and history of changes',
     'Tests and examples use one way of description each and read attributes before anything changed.',
     ['src/pyclaw/solution.py', 'src/pyclaw/state.py', 'src/pyclaw/geometry.py', 'src/pyclaw/controller.py'],
     [('constructors', 'src/pyclaw/solution.py:Solution.__init__, src/pyclaw/geometry.py:Domain, Patch'), ('shared attributes', '__getattr__ of Solution, State, Controller and Grid')],
     'consistency monitor: all descriptions of one problem compared, shared attributes compared after every change of random histories', 'Held on the generated problems and histories; exact comparison.')
prop('C29', 'Command-line options and verification helpers do what they are told',
     'An application started from the command line is created once with exactly the options given as key=value (numbers, lists, truth values and text as such), run once, and plotted only where asked. The verification helpers '
     'accept results within the stated tolerance and refuse all others, values that are not numbers included; every variant of an application is run once with its own options; two solutions are found the same exactly if they agree in '
     'values, time, patches and geometry. Line readers and number converters return what is on the line and report the end of the file.',
     ['inputs', 'configurations'], 'every command line, tolerance, difference, kind of variant and text file',
     'These helpers are what the tests rely on, so a helper that accepts too much makes the tests pass.',
     ['src/pyclaw/util.py'], [('helpers', 'src/pyclaw/util.py')],
     'recording applications and decision monitor: each decision compared with its definition on generated inputs', 'Held on the generated inputs.')
