"""Writes properties.jsonl (one place to edit the statements)."""
import json, os
P = []


def prop(id, title, statement, over, qtext, why, files, mechanism, observe, state=()):
    assert len(title) <= 80, (id, len(title))
    P.append(dict(id=id, title=title, statement=' '.join(statement.split()),
                  quantifier=dict(over=over, text=qtext), why_tests_cant=why,
                  anchors=dict(files=files, state=[dict(zip(('name', 'meaning', 'where'), s)) for s in state],
                               mechanism=[dict(zip(('name', 'where'), m)) for m in mechanism],
                               observe_at=observe, hook_needed=None)))


prop('P01', 'The model clock takes exactly the requested time steps and stops on time',
     '''From its starting time a run advances contiguously, one step of the configured length at a time, with every
     forcing update asked for at the times its time integrator prescribes inside the step; it performs a step whenever the
     requested end has not been reached and none after it. Simulation time always equals the start time plus the number of
     steps taken times the step length, and the iteration count grows by one per step. When start and end dates are given,
     the end is the end date measured from the start date, also for a run that starts at a non-zero simulation time.''',
     ['configurations', 'histories'],
     'every step length, end time, start time, initial/end date pair, time integrator and 2D/3D model; also when the time loop is driven from outside one step at a time',
     'The stable tests never run the time loop; the process tests sample a single configuration and look at the final fields only.',
     ['thetis/solver2d.py', 'thetis/solver.py', 'thetis/timeintegrator.py', 'thetis/rungekutta.py'],
     [('time loop and stop rule', 'thetis/solver2d.py create_iterator, thetis/solver.py iterate'),
      ('time step selection', 'set_time_step in both solvers')],
     ['solver.simulation_time and solver.iteration', 'arguments of update_forcings', 'values yielded by create_iterator'],
     [('simulation_time', 'current model time in seconds', 'solver objects'), ('iteration', 'steps taken', 'solver objects')])

prop('P02', 'Exports and callbacks happen exactly on schedule',
     '''A run exports its initial state once (unless it continues a run in the same output directory) and then once at the first time step that
     reaches each further multiple of the export interval, with consecutive export numbers and the right time stamp. Each
     export evaluates every export-interval callback once and then the user's export function once; every time step evaluates every
     timestep-interval callback once, after the step. All output formats write the same fields-in-list, with the same export numbers.''',
     ['configurations', 'histories'],
     'every combination of step length, export interval, end time, output list and callback set, including intervals that are not multiples of the step and steps longer than the interval',
     'Only single runs are tested, with intervals that divide evenly, and nothing counts exports.',
     ['thetis/solver2d.py', 'thetis/solver.py', 'thetis/callback.py', 'thetis/exporter.py'],
     [('export rule', 'create_iterator/iterate'), ('callback dispatch', 'thetis/callback.py CallbackManager'),
      ('file numbering', 'thetis/exporter.py')],
     ['files in the output directory', 'callback evaluations', 'export_func calls', 'solver.i_export'],
     [('i_export', 'number of the last export', 'solver objects')])

prop('P03', 'A run stopped at any export and continued equals the uninterrupted run',
     '''If a 2D simulation is stopped at any of its exports and a new process continues it from that export, the continued run takes the
     same remaining steps at the same times and ends with the same fields, export files, export numbers and diagnostic
     records as the run that was never interrupted. Continuing into another directory, or with explicit time, iteration or export number,
     uses exactly those values and writes the restored state as first export. Nothing written before the
     restart point is lost.''',
     ['crash_points', 'histories'],
     'every export as stopping point, repeated interruptions, same or different output directory, all combinations of counter overrides, with and without dates',
     'The restart tests use one stopping point and compare the final norm only, and are not in the stable set.',
     ['thetis/solver2d.py', 'thetis/exporter.py', 'thetis/callback.py'],
     [('load_state', 'thetis/solver2d.py'), ('HDF5 state files', 'thetis/exporter.py HDF5Exporter'),
      ('append mode of diagnostics', 'thetis/callback.py DiagnosticCallback')],
     ['field dofs', 'output directory', 'solver counters', 'diagnostic files'],
     [('next_export_t', 'time of the next export', 'solver objects')])

prop('P04', 'State files give back exactly what was exported',
     '''Every field exported to a state file is read back under its export number with exactly the values, function space, simulation time and
     initial date it was written with, whatever was exported before or after. File names carry the field's name and
     a zero-padded export number; visualization series list every export once in order, with the
     values of the field on the mesh of that moment. Writers are independent of each other: exports, numbering and
     pre-processing of one field or manager never change another's.''',
     ['histories', 'inputs'],
     'all sequences of export / export-at-number / renumber / reload / reopen operations up to a depth, for scalar and vector fields of all output spaces, one or several managers',
     'Tests export each field once with fixed numbers.',
     ['thetis/exporter.py'],
     [('HDF5Exporter', 'thetis/exporter.py'), ('VTKExporter', 'thetis/exporter.py'), ('ExportManager', 'thetis/exporter.py')],
     ['directory listing', 'values loaded back', 'metadata returned by load'],
     [('next_export_ix', 'number given to the next file', 'exporters')])

prop('P05', 'Diagnostic time series keep every record, in order, across restarts',
     '''A diagnostic evaluated n times during its active time window leaves a file with exactly n records, row i holding the simulation time and all values of
     the i-th evaluation. A file opened anew replaces old content; a file opened for appending keeps all old records, cuts nothing
     and adds after them, and the file is complete and readable after every evaluation. Evaluations outside the configured
     start/end window leave no record, and metadata attributes are stored once.''',
     ['histories', 'crash_points'],
     'all sequences of evaluate / reopen-for-append / reopen-anew / stop operations up to a depth, with any variable shapes and windows, including a stop after every operation',
     'Tests write one uninterrupted series.',
     ['thetis/callback.py'],
     [('DiagnosticHDF5', 'thetis/callback.py'), ('DiagnosticCallback', 'thetis/callback.py')],
     ['contents of diagnostic_*.hdf5 after every operation'])

prop('P06', 'Diagnostics report the true value of what they name',
     '''Conservation diagnostics report the integral of the water volume or tracer mass and its change relative to the value at their first evaluation; over/undershoot diagnostics report
     the extrema and how far they leave the initial range; detector, station, profile and transect diagnostics report the field value at each named location, in the order of
     the names; accumulated diagnostics report the time integral (trapezium rule) of their functional over the times at which they are evaluated; the vorticity, gradient,
     second derivative and kinetic energy calculators return the recovered quantity of the current field. This holds for whatever states the model goes
     through between evaluations, and evaluating a diagnostic never changes the model state.''',
     ['histories', 'inputs'],
     'all sequences of model states from a small alphabet, evaluated at any subset of steps; all detector sets and orderings, including locations outside of the domain; all fields',
     'Tests check final pass/fail on one run.',
     ['thetis/callback.py', 'thetis/diagnostics.py', 'thetis/utility.py'],
     [('callbacks', 'thetis/callback.py'), ('calculators', 'thetis/diagnostics.py'), ('volume and mass integrals', 'thetis/utility.py')],
     ['return values of callbacks', 'diagnostic files', 'recovered fields', 'field dofs before/after'])

prop('P07', 'A time query always selects the right records of a set of time-stamped files',
     '''For a series of data stored in any number of files, a query time inside the covered interval selects, forwards or backwards, the
     record pair that brackets it, from the right files and at the right positions, also exactly on records and
     across file boundaries; record times are the true times given by units, offsets, zone and the simulation's initial date. A query outside the
     covered interval, missing files or time units and, unless allowed, varying time steps in a file are rejected with an error rather than answered with wrong data.
     Files of one series do not overlap in time.''',
     ['inputs', 'histories'],
     'all splittings of small record series in files, all orders of files, time units and epochs, all query times on and between records and outside, in any order',
     'Tests use fixed file layouts and a few query times.',
     ['thetis/interpolation.py', 'thetis/timezone.py'],
     [('NetCDFTimeSearch and NetCDFTimeParser', 'thetis/interpolation.py'), ('time zones', 'thetis/timezone.py')],
     ['file, index and time returned by the search'])

prop('P08', 'Interpolation in time is the straight line between the bracketing records',
     '''The value returned for any time between two records is their linear interpolant, and on a record it is that record; the answer depends on
     the query time only, never on which queries were made earlier. All dependent fields of one data set are
     sampled consistently at the same time. Queries beyond the data fail.''',
     ['histories', 'inputs'],
     'all query sequences up to a length over a lattice of times on/between/outside records, for series of any spacing, several variables and files',
     'The cache of the last two records makes answers depend on history; tests query increasing times.',
     ['thetis/interpolation.py', 'thetis/forcing.py'],
     [('LinearTimeInterpolator', 'thetis/interpolation.py'), ('NetCDFTimeSeriesInterpolator', 'thetis/interpolation.py')],
     ['returned arrays'])

prop('P09', 'Interpolation in space reproduces linear fields and respects masks',
     '''Interpolating gridded or scattered data to model locations reproduces any linear field exactly inside the data region, values at data points exactly, and is
     linear in the data; every model location gets the value belonging to its own coordinates, in the order of the fields requested. Masked or missing
     source points never contribute; locations outside the data get fill or nearest values when that is requested and an error otherwise.''',
     ['inputs', 'configurations'],
     'all mask patterns of small grids, all placements of targets on a lattice (nodes, edges, interior, outside), 2D and 3D sources, all fill modes',
     'Tests use smooth fields on one grid without masks.',
     ['thetis/interpolation.py', 'thetis/forcing.py'],
     [('GridInterpolator', 'thetis/interpolation.py'), ('SpatialInterpolator classes', 'thetis/interpolation.py')],
     ['returned values'])

prop('P10', 'Coordinate systems round-trip and rotate vectors without changing length',
     '''Transforming points from model to geographic coordinates and back returns the same points, for every supported coordinate system and zone, scalar or
     array. Rotating vectors from geographic to model axes preserves lengths and angles, all at once or one location
     at a time, and maps east and north onto the true local directions of the coordinate system. Undefined points stay undefined and change no other.''',
     ['inputs'],
     'a lattice of locations over each supported zone and hemisphere, all axis and diagonal vectors, both directions',
     'Tests check single points.',
     ['thetis/coordsys.py'],
     [('coordinate systems', 'thetis/coordsys.py'), ('VectorCoordSysRotation', 'thetis/coordsys.py')],
     ['transformed coordinates'])

prop('P11', 'Options accept exactly what is documented and one model never affects another',
     '''Assigning an option stores exactly the given value if it is of the documented type and range, and otherwise raises
     and leaves the option unchanged; unknown names are always rejected, after construction, after any failed operation and in nested groups. Choosing a time stepper, turbulence or other paired kind always
     gives the matching option group, in whatever order options are set or loaded. Options of one model never change another model's or the defaults.''',
     ['histories', 'inputs', 'configurations'],
     'every option of every group times an alphabet of values of all types; all sequences of assignments up to a depth, over two models alive at the same time',
     'Tests check a handful of options on one object.',
     ['thetis/options.py', 'thetis/configuration.py', 'thetis/utility.py'],
     [('trait types', 'thetis/configuration.py'), ('paired enums', 'thetis/configuration.py'), ('frozen objects', 'thetis/utility.py FrozenClass')],
     ['option values', 'raised errors'])

prop('P12', 'Run logs lose nothing and duplicate nothing',
     '''Every message printed through the model's output functions appears in the log file of the output directory active at that time exactly once and in
     order, including those printed before the directory was known. Changing the output directory redirects later messages only; a directory newly taken
     into use has its old log replaced or, where keeping the log is requested, kept with the new messages after it; one already in use stays as it is.''',
     ['histories'],
     'all sequences of print / warn / set directory / new model (keep or replace log) operations up to a depth',
     'Logging is not tested at all.',
     ['thetis/log.py', 'thetis/solver2d.py', 'thetis/solver.py', 'thetis/utility.py'],
     [('output handlers', 'thetis/log.py'), ('log directory set-up', 'solver constructors')],
     ['content of the log files'])

prop('P13', 'Time integrators realise their method exactly',
     '''For a model equation each time integrator's step equals the step of the method it is named after (its Butcher tableaux, theta scheme or
     implicit-explicit pair), using the current step length, the current solution (also when it was changed from outside since the last step) and the forcing at
     the documented stage times, for every splitting of the equation in implicit and explicit terms. Results do not depend on how often the step length
     was changed or the integrator re-initialised before, and stages solved one at a time give the same result as a whole step. On a moving mesh the ALE schemes
     change integrals by the integrated tendencies only, the Picard iteration of the projection scheme converges to the theta step, and linear solver options reach the solver they are given for.''',
     ['histories', 'configurations'],
     'every integrator, all histories up to a depth of advance / change step / change state / re-initialise operations, a lattice of coefficients including zero and stiff',
     'Convergence-rate tests sample one step-size sequence and are insensitive to stage times and history.',
     ['thetis/rungekutta.py', 'thetis/timeintegrator.py', 'thetis/implicitexplicit.py'],
     [('tableaux and stage solves', 'thetis/rungekutta.py'), ('theta schemes', 'thetis/timeintegrator.py'), ('IMEX schemes', 'thetis/implicitexplicit.py')],
     ['solution dofs after each step', 'times passed to update_forcings'])

prop('P14', 'Coupled 2D components advance once per step, in order, with current fields',
     '''In each step of a coupled 2D run the flow, every tracer, the suspended sediment and the bed are each advanced exactly once, in this
     order, by the same step, each seeing the fields already updated in this step (or, with Picard iterations, the requested number of consistently lagged sweeps); slope limiters act on every
     requested tracer after its update. Components that are not requested are left untouched, and a tracer-only run leaves the flow unchanged.''',
     ['configurations', 'histories'],
     'every set of enabled components, tracers (shared or separate systems), limiter, Picard count and tracer-only flag; several steps',
     'Each regression test fixes one set of components and looks at final errors.',
     ['thetis/coupled_timeintegrator_2d.py', 'thetis/solver2d.py'],
     [('coupled time integrators', 'thetis/coupled_timeintegrator_2d.py')],
     ['sequence of component updates', 'field dofs'])

prop('P15', '3D runs keep depth-averaged and 3D fields consistent',
     '''In a 3D run, initially and after every step, the water volume of the moving 3D mesh equals that of the 2D water column (it is constant in a closed basin and grows by exactly what volume sources add), and all layers
     follow the surface in proportion to their height above the bed; on a fixed mesh they stay where they are. The depth-averaged velocity held on the 3D mesh is the 2D velocity in every water column, the deviation
     velocity has zero depth average (except for what bottom friction or wind add within the step), and the exported 3D velocity has the 2D transport as its depth average while exporting leaves the state untouched. A uniform tracer stays
     uniform in any flow, including through open boundaries with the same value, and grows by exactly its source; water at rest with a level surface, uniform density and any bathymetry stays at rest. This holds for every supported time integrator, element family,
     moving or fixed mesh, physics option and initial state.''',
     ['configurations', 'histories'],
     'all combinations of 3D time integrator, element family, ALE on/off, tracers and closures over a small alphabet of initial states, every step of short runs',
     'The 3D tests run single configurations for long times and are not in the stable set.',
     ['thetis/solver.py', 'thetis/coupled_timeintegrator.py', 'thetis/utility3d.py', 'thetis/tracer_eq.py'],
     [('mode splitting', 'thetis/coupled_timeintegrator.py'), ('ALE mesh update', 'thetis/utility3d.py')],
     ['integrals and dofs after each step'])

prop('P16', 'The 2D model conserves volume and tracer and keeps still water still',
     '''In a closed basin the water volume is constant in time up to solver tolerance, and with volume sources changes in every step by exactly what they add, however the source is given (constant, field or
     expression, constant or changing in time). The mass of tracers in conservative form changes only by sources and by what the velocity, which meets walls only weakly, carries through them; it is constant in a flow that does not
     cross the boundary. Water at rest with level surface over any bathymetry stays at rest, and a constant tracer in non-conservative form stays constant in any flow. This holds for every element family, time
     integrator and equation form option.''',
     ['configurations', 'inputs'],
     'all combinations of element family, time integrator, linear/nonlinear, options of the equations, with initial states and bathymetries enumerated over a small nodal alphabet on a minimal mesh',
     'Each test fixes one smooth state and one configuration.',
     ['thetis/shallowwater_eq.py', 'thetis/tracer_eq_2d.py', 'thetis/conservative_tracer_eq_2d.py', 'thetis/solver2d.py'],
     [('equation terms', 'thetis/shallowwater_eq.py, thetis/tracer_eq_2d.py')],
     ['integrals and dofs after steps'])

prop('P17', 'Open boundary conditions do what they state for every combination of keys',
     '''A boundary without condition is impermeable; prescribing elevation, velocity, normal velocity or flux makes the water
     flux through that boundary consistent with the prescribed values, where a flux is distributed to give exactly that total and outflow is positive; prescribing the
     interior state itself leaves the solution as if nothing was forced. Tracers leaving the domain carry the interior value and entering ones the
     prescribed value. Conditions of unknown name are rejected, whatever accompanies them.''',
     ['configurations', 'inputs'],
     'all documented combinations of boundary keys, with states and boundary values over a small alphabet of signs and magnitudes',
     'Tests use one or two combinations each.',
     ['thetis/shallowwater_eq.py', 'thetis/tracer_eq_2d.py', 'thetis/momentum_eq.py'],
     [('boundary functions and fluxes', 'get_bnd_functions in equation modules')],
     ['assembled boundary fluxes', 'volume change'])

prop('P18', 'Wetting and drying keeps total depth positive and volume conserved',
     '''With wetting and drying enabled the total water depth is strictly positive for every bathymetry and elevation, tends to the true depth where it is
     deep and to zero where it is dry, increases with elevation, and never exceeds the true depth by more than the smoothing permits. Runs over drying ground conserve the total
     volume, and without wetting and drying depth is exactly elevation plus bathymetry or bathymetry alone.''',
     ['inputs', 'configurations'],
     'lattice of bathymetry, elevation and smoothing values including zero and extreme ones, constant and spatially varying; short runs over drying states',
     'One smooth test case.',
     ['thetis/utility.py', 'thetis/shallowwater_eq.py', 'thetis/solver2d.py'],
     [('DepthExpression', 'thetis/utility.py')],
     ['depth values', 'volume'])

prop('P19', 'Slope limiting keeps means, respects neighbour bounds and is stable',
     '''Limiting a field leaves every element mean unchanged and every vertex value within the range spanned by the means of the elements (and boundary
     data) around that vertex. Fields already within bounds, such as linear ones in the interior and constant ones, are not changed; on meshes without boundary limiting twice equals limiting once. Vectors are limited
     component by component, also after the mesh has moved, and function spaces the limiter cannot handle are refused.''',
     ['inputs'],
     'all nodal patterns over a small alphabet on small triangle, quadrilateral and extruded meshes, scalar and vector fields',
     'Tests use one function per mesh type.',
     ['thetis/limiter.py'],
     [('VertexBasedP1DGLimiter', 'thetis/limiter.py')],
     ['limited dofs'])

prop('P20', 'Turbulence closures stay realizable',
     '''For any buoyancy and shear production and any prior state, the closure's turbulent kinetic energy, length scale, dissipation, viscosity and diffusivity stay finite, non-negative and
     within their configured limits, and satisfy the closure's defining relations between these quantities; the shear and buoyancy frequencies it uses are the vertical gradients of the present velocity and density, also when the mesh has moved; stability functions agree with their published
     algebraic definition, attain the stated log-layer and steady-state constants and stay positive in the admissible range.''',
     ['inputs', 'configurations'],
     'all closure and stability function choices; lattice of k, psi, N2, S2 values spanning zero, tiny, large and negative N2',
     'Two regression runs.',
     ['thetis/turbulence.py', 'thetis/stability_functions.py'],
     [('GenericLengthScaleModel', 'thetis/turbulence.py'), ('stability functions', 'thetis/stability_functions.py')],
     ['closure fields after update'])

prop('P21', 'Turbine farms report power, thrust and constraints consistent with their tables',
     '''Thrust and power of a turbine follow its constant or tabulated curve, zero outside the operating range, and continuous linear interpolation inside; the thrust felt by the flow, the power reported
     per farm and its time integral agree with those curves, the turbine density and the times of evaluation. Minimum-distance
     constraints are satisfied exactly when all turbine pairs keep the distance, and their derivative is the true derivative.''',
     ['inputs', 'histories'],
     'lattice of speeds over and between table points, turbine placements on a lattice for up to four turbines, accumulation histories up to a depth',
     'Not in the stable set; one layout tested.',
     ['thetis/turbines.py'],
     [('turbine types and farms', 'thetis/turbines.py')],
     ['farm power and functional values', 'constraint values'])

prop('P22', 'Sediment and bed exchange conserve mass',
     '''What erodes from the bed enters suspension and what deposits leaves it, so that without boundary flux the sediment in suspension plus
     the bed (with its porosity and morphological factor) is constant through any run. Erosion and deposition are non-negative, vanish below
     the critical stress and for still water, and switching options off removes exactly their effect.''',
     ['configurations', 'inputs'],
     'all combinations of sediment options (conservative form, bedload, slope effects, secondary current, exner, morphological factor, limiter) over small alphabets of flow and grain sizes',
     'Single-configuration regression tests not in the stable set.',
     ['thetis/sediment_model.py', 'thetis/sediment_eq_2d.py', 'thetis/exner_eq.py'],
     [('SedimentModel', 'thetis/sediment_model.py'), ('Exner equation', 'thetis/exner_eq.py')],
     ['integrals after every step'])

prop('P23', 'Splitting an equation by term type loses and duplicates nothing',
     '''For every equation, the residual of all terms equals the sum of the residuals of its implicit, explicit, source and nonlinear parts, each term being counted in exactly one part, for every state and every set of
     coefficient fields. Terms whose coefficient is not given contribute nothing, and adding one term never changes another. Every term has the documented sign and scaling in its coefficient.''',
     ['configurations', 'inputs'],
     'all equations, all subsets of optional coefficients up to a bound, states over a small alphabet',
     'Tests look at converged errors.',
     ['thetis/equation.py', 'thetis/shallowwater_eq.py', 'thetis/tracer_eq_2d.py', 'thetis/tracer_eq.py', 'thetis/momentum_eq.py'],
     [('Equation', 'thetis/equation.py')],
     ['assembled residuals'])

prop('P24', 'Observation misfits and inversion progress are computed from the right data',
     '''The misfit of a station manager is the scaled, weighted sum over its stations of the squared difference between the model at the station's place and the record at the model time,
     counting each station only inside its active period, for any set of stations (several at one place included), scalar or vector records, any sequence of times; observations that do not exist are refused
     rather than made up, and the gradient of the misfit is the true and finite one also where model and record agree. The inversion manager keeps the cost function, its parts, the gradient norms, controls and
     station time series of every accepted iteration in order, in memory and in its files; regularisation terms have their stated values.''',
     ['histories', 'inputs'],
     'all station sets, activity windows and time-step sequences up to a bound; all progress histories up to a depth',
     'Inversion tests take one data set.',
     ['thetis/inversion_tools.py'],
     [('StationObservationManager', 'thetis/inversion_tools.py'), ('InversionManager', 'thetis/inversion_tools.py')],
     ['cost function values', 'progress records'])

prop('P25', 'Moving fields between 2D and 3D meshes keeps values in place',
     '''Expanding a 2D field to 3D gives each column its own value at every level; extracting the surface or bottom of a 3D field gives exactly the
     value at that face (or its layer mean where requested) at each location, and expansion followed by extraction is the identity. Vertical integrals and averages equal the true
     integrals from the bottom or from the surface for every state.''',
     ['inputs', 'configurations'],
     'all pairs of supported function spaces and layers counts, boundary choices, nodal unit fields as a basis of all states plus moved meshes',
     'Tests use smooth fields on a fixed mesh with tolerances.',
     ['thetis/utility3d.py', 'thetis/utility.py'],
     [('ExpandFunctionTo3d, SubFunctionExtractor', 'thetis/utility3d.py'), ('VerticalIntegrator', 'thetis/utility3d.py')],
     ['dofs of the target field'])

prop('P26', 'Atmospheric and tidal forcings are applied at the right time, place and sign',
     '''Wind stress follows the chosen formula in the wind's direction, grows with wind speed and is zero without wind; tidal forcing is the sum of the requested constituents at the model time
     counted from the initial date. At every model time each boundary or interior location receives the value of the data at that time and location, whatever times were requested before.''',
     ['inputs', 'histories'],
     'lattice of wind vectors and formulas, constituent subsets, query-time sequences up to a depth',
     'Tests compare to one stored series.',
     ['thetis/forcing.py', 'thetis/interpolation.py'],
     [('compute_wind_stress, forcing classes', 'thetis/forcing.py')],
     ['forcing field dofs'])

prop('P27', 'Density follows the equation of state and drives the pressure it should',
     '''Water density equals the chosen equation of state at the local salinity and temperature (in the model at surface pressure) everywhere in the
     admissible range, and is the same in all its evaluation forms, also after the
     mesh has moved. The baroclinic head is the integral of the density anomaly from each depth to the moving surface
     over the current reference density, and its gradient is the internal pressure gradient, so that horizontally uniform stratification drives no flow.''',
     ['inputs'],
     'lattice of salinity, temperature and pressure; stratification profiles over a nodal alphabet',
     'One or two values compared.',
     ['thetis/utility.py', 'thetis/utility3d.py', 'thetis/momentum_eq.py'],
     [('equations of state', 'thetis/utility.py')],
     ['density values', 'pressure head'])

here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
with open(os.path.join(here, 'properties.jsonl'), 'w') as f:
    for p in P:
        f.write(json.dumps(p) + '\n')
print(len(P))
