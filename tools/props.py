"""the properties: source of properties.jsonl and of the checks in MANIFEST.json"""
SYM = 'Obligations are discharged for all array sizes and all real values by SMT from the current source; reals stand for IEEE doubles; the engine\'s numpy semantics and sum lemmas are trusted. '
PROPS = []


def P(id, title, statement, over, quant, why, mech, note, **k):
    PROPS.append(dict(id=id, title=title, statement=statement, over=over, quant=quant, why=why, mech=mech, note=note, **k))


P('B01', 'Sediment mass is conserved while the layered bed is updated',
  'For every erosion or deposition field, updating the bed changes the sediment stored per grain fraction in a cell by exactly the mass picked up or deposited plus the exchange with the base below the deepest layer, also when a deposit is larger than a whole layer. Every layer keeps its total mass, no fraction ever becomes negative, and replenishment of a layer comes only from its direct neighbour.',
  ['inputs', 'histories', 'configurations'], 'all grids, numbers of layers and fractions, positive layer masses, pickup and deposition fields bounded only by the available top-layer mass',
  'The tests never run the bed update on multi-fraction, multi-layer stacks with mixed erosion and deposition or deposits of more than a layer, and balance must hold for each of them.',
  [('bed.py:update', 'mass exchange'), ('bed.py:prevent_negative_mass', 'large deposits'), ('bed.py:arrange_layers', 'layer exchange'), ('utils.py:normalize', 'weights'), ('utils.py:prevent_tiny_negatives', 'rounding')],
  SYM + 'Layer exchange and constant layer mass are proved unbounded; the per-fraction balance and the large-deposit branch are decided for 1 cell, up to 2 layers, up to 2 fractions (bounded) plus contract runs on the real code.')
P('B02', 'Bed level follows the exchanged mass exactly',
  'After a step the bed level of each cell has changed by the net deposited mass divided by the bulk density of the sediment, the water level moves along only when the tide process is on, and nothing moves when bed updating is off. Wet cells relax towards the initial bed without overshooting it, and the yearly and running-average rates of change are those of the actual bed level change.',
  ['inputs', 'configurations'], 'all grids, pickup fields, porosities below one, densities, time steps and switches',
  'Existing tests do not check bed level against exchanged mass; the law must hold for each cell and each step of any history.',
  [('bed.py:update', 'bed level'), ('bed.py:wet_bed_reset', 'reset'), ('bed.py:average_change', 'rates')],
  SYM + 'prevent_negative_mass is used by its contract (decided under B01).')
P('B03', 'Bed mixing by waves redistributes grains without creating or losing any',
  'Mixing of the top layers by waves leaves the mass of every grain fraction in each cell unchanged, keeps every layer at its own mass and never creates negative mass. Only the layers within the disturbance depth of a wave-affected cell are touched, those are made uniform, and mixing is skipped when the process is off.',
  ['inputs', 'configurations'], 'all grids, layer stacks, wave heights and disturbance depths',
  'No test exercises mixing with several fractions; uniformity and balance are per cell and per fraction.',
  [('bed.py:mixtoplayer', 'mixing')],
  SYM + 'Frame and off-switch are proved; the averaged composition is decided on stated small stacks (bounded) and by contract runs on the real code.')
P('U01', 'Spatial masks scale and offset every field exactly, cell by cell',
  'Applying a complex-valued mask multiplies each value by the real part and adds the imaginary part of that cell, for fields with any number of trailing dimensions. Without a mask the field is returned unchanged, and the mask itself is never altered.',
  ['inputs'], 'all fields of two, three or four dimensions and all masks', 'Unit tests only sample tiny arrays with a few dimensions.',
  [('utils.py:apply_mask', 'mask')], SYM)
P('U02', 'Forcing time series are interpolated linearly and repeat periodically',
  'Inside the covered period a forcing series is interpolated linearly between its neighbouring records and reproduces its records exactly; outside it repeats in cycles, each starting one time unit after the last record of the previous one. The interpolated value never leaves the range of the series.',
  ['inputs', 'histories'], 'all increasing time axes, values and times', 'Tests sample a few times; the law covers all times and series.',
  [('utils.py:interp_circular', 'interpolation'), ('utils.py:interp_array', 'columns')], SYM + 'The range bound is decided on 2 and 3 records (bounded).')
P('U03', 'Rotation of coordinates preserves distances and can be undone',
  'Rotating coordinates about an origin keeps the distance of each point to the origin, turns by exactly the requested angle, and rotating back returns the original points.',
  ['inputs'], 'all points, angles and origins', 'Tests only rotate single points by a handful of angles.',
  [('utils.py:rotate', 'rotation')], SYM)
P('G01', 'Grain fraction weights always form a distribution',
  'Weights used to combine the grain fractions of the bed and of the moving sediment are never negative and add up to one in every cell that holds sediment, and are proportional to the mass of each fraction. The bed interaction parameter sets how the composition of the air and of the bed are blended.',
  ['inputs', 'configurations'], 'all compositions, saturation ratios and bed interaction values', 'Tests cover only normalisation of a few small arrays.',
  [('transport.py:compute_weights', 'weights'), ('transport.py:renormalize_weights', 'renormalisation'), ('utils.py:normalize', 'normalisation')], SYM + 'Preservation of already normalised weights is decided for 3 fractions (bounded).')
P('G02', 'Grain size statistics are those of the top layer composition',
  'The mean grain size of a cell is the mass-weighted mean of the fraction sizes in its top layer and lies between the smallest and the largest fraction. Percentile grain sizes are ordered and lie within the range of the fractions.',
  ['inputs'], 'all compositions and grain size sets', 'Tests do not evaluate these statistics over arbitrary compositions.',
  [('utils.py:calc_mean_grain_size', 'mean'), ('utils.py:calc_grain_size', 'percentile')], SYM + 'The percentile is checked by contract runs on the real code only (bounded).')
P('T01', 'Saturated transport follows the chosen formulation and is never negative',
  'The saturated sediment concentration of every cell and fraction equals the selected transport formulation evaluated for that cell, is zero at and below the threshold, and is never negative or carried over from an earlier step. An unknown formulation is refused with an error.',
  ['inputs', 'configurations', 'histories'], 'all shear velocity, threshold and wind fields, fraction counts and formulations', 'Tests do not compare formulations with the implemented concentrations; stale values appear only over several steps.',
  [('transport.py:equilibrium', 'formulations'), ('transport.py:constant_grainspeed', 'grain speed')], SYM)
P('T02', 'Grain velocity points with the wind and is finite everywhere',
  'Grain velocities have the direction of the wind or shear driving them, their magnitude is the length of their components, and they are finite and vanish where nothing moves. With the constant formulation the velocity is the unit direction of the shear, or of the wind where shear vanishes; with the formulation of Duran it is the balance of drag, bed friction and gravity on the slope of the bed, and slow in a separation bubble.',
  ['inputs', 'configurations'], 'all wind and shear fields, grain sizes and bed slopes', 'Tests do not check grain velocities.',
  [('transport.py:constant_grainspeed', 'constant speed'), ('transport.py:duran_grainspeed', 'slope and shear dependent speed')], SYM)
P('H01', 'Threshold shear velocity responds to grain size, moisture, salt, sheltering',
  'The threshold of each cell and fraction starts from the fluid threshold of its grain size, then follows the selected moisture formulation, grows with moisture and salt content, and follows the roughness factor of sheltering grains. Cells wetter than the wet limit have an infinite threshold and dry cells are unchanged; an unknown moisture formulation is refused with an error.',
  ['inputs', 'configurations'], 'all moisture, salt and composition fields and parameter values in their physical range', 'Tests do not cover the formulations nor their limits.',
  [('threshold.py:compute_grainsize', 'grain size'), ('threshold.py:compute_moisture', 'moisture'), ('threshold.py:compute_salt', 'salt'), ('threshold.py:compute_sheltering', 'sheltering')],
  SYM + 'exp, log10, power are uninterpreted with monotonicity and positivity axioms.')
P('H02', 'Non-erodible surfaces and threshold switches are honoured exactly',
  'A cell whose bed has come down to the non-erodible layer has an infinite threshold, and every other cell is unaffected by that layer. The threshold applies exactly the processes that are switched on, in cell-by-cell order with the user mask, and everything that is switched off leaves it untouched.',
  ['inputs', 'configurations'], 'all bed and non-erodible levels, masks and process switches', 'Tests never combine switches with a non-erodible layer.',
  [('threshold.py:non_erodible', 'non-erodible layer'), ('threshold.py:compute', 'switches')], SYM)
P('W01', 'Wind is decomposed and converted to shear stress consistently',
  'At every time the wind in each cell is the time-interpolated speed and direction, decomposed into components along the grid axes that add up to the speed; shear velocity follows the logarithmic profile with the selected roughness, and shear stress is quadratic in and parallel to the shear velocity, for all reference and flat-bed fields alike, and the reference keeps its values when the shear is changed afterwards. Converting between stress and velocity and back changes nothing, and wind directions in either convention are read as the same physical direction while an unknown convention is refused.',
  ['inputs', 'configurations', 'histories'], 'all wind series, times, grid orientations, roughness settings', 'Tests check at most single values; consistency must hold for every direction and time.',
  [('wind.py:initialize', 'convention'), ('wind.py:interpolate', 'decomposition'), ('wind.py:calculate_z0', 'roughness'), ('wind.py:velocity_stress', 'stress'), ('wind.py:stress_velocity', 'velocity')],
  SYM + 'sin, cos, log, atan2 are uninterpreted with their identities.')
P('W02', 'One-dimensional wind shear over topography stays physical',
  'Over a flat bed the topographic correction does not change the shear, elsewhere it keeps the direction of the stress and never lowers it below a tenth of the undisturbed value; the stress follows the streamwise bed slope and its Hilbert integral, so that a mirrored profile under the opposite wind gives the mirrored stress. The separation surface never lies below the bed and leaves it only behind steep lee slopes, from whichever side the wind blows; the shear vanishes deep inside a separation bubble, and magnitude and components of stress and velocity stay consistent.',
  ['inputs', 'configurations'], 'all bed profiles, stresses and wind directions on a one-dimensional grid', 'No test covers the one-dimensional shear.',
  [('wind.py:shear', 'driver'), ('wind.py:compute_shear1d', 'perturbation'), ('wind.py:separation1d', 'separation bubble')],
  SYM + 'The driver is proved for all profile lengths with the perturbation and separation by contract; its floor, direction and the flat bed are proved for all lengths with a loop contract on the summation, its formula and mirror symmetry are decided for 3, 4 and 6 cells (bounded), the separation bubble by contract runs only.')
P('T03', 'Sediment advection is solved as the stated upwind scheme with supply limit',
  'In every interior cell the computed concentration satisfies the first-order upwind advection equation with relaxation to the saturated concentration, for the implicit, explicit, Crank-Nicolson and steady-state schemes and for rows coupled laterally. At the offshore and onshore edges the boundary condition selected for that edge holds (given flux, no flux, constant, uniform or gradient), concentrations stay non-negative and finite, the sediment flux is concentration times velocity, and no cell picks up more of a fraction than its top layer holds. The weights of the fractions start from the configured grain size distribution in the first time step and from what is in the bed and the air in every later one.',
  ['inputs', 'configurations'], 'all velocity, concentration, weight and supply fields, boundary conditions and schemes',
  'Tests only check that a run finishes; whether the linear system is the scheme must hold for each velocity field.',
  [('model.py:solve', 'schemes'), ('model.py:solve_steadystate', 'steady state')],
  SYM + 'The sparse solver is used by its contract (A x = y). One-dimensional grids are proved for all lengths and one fraction, assuming non-negative solutions; two-dimensional grids are decided for 3 by 4 cells (bounded); several fractions, rescaled negative values and repeated supply-limit iterations by contract runs on the real code.')
P('T04', 'The flux-form solvers neither create nor lose airborne sediment',
  'For every cell the change of airborne sediment over a step equals what is entrained minus what is deposited plus the fluxes through its faces, and the flux leaving one cell is the flux entering its neighbour, including across circular lateral boundaries. Hence the total over the domain changes only through the bed and the open boundaries, and pickup never exceeds the available sediment.',
  ['inputs', 'configurations'], 'all velocity, concentration and supply fields, boundary conditions and implicitness',
  'Conservation concerns each cell and each boundary combination; tests do not run these solvers in two dimensions.',
  [('model.py:solve_pieter', 'transient'), ('model.py:solve_steadystatepieter', 'steady state')],
  SYM + 'The sparse solver is used by its contract (A x = y). One-dimensional grids are proved for all lengths and one fraction, assuming non-negative solutions and one supply iteration; two-dimensional grids are decided for 3 by 3 cells (bounded); several fractions by contract runs. Constant-concentration edges are not covered.')

P('A01', 'Avalanching moves sand only downhill, between cells, until slopes are stable',
  'As long as the steepest slope does not exceed the static angle of repose, or avalanching is off, the bed does not change. Otherwise sand is moved iteratively: only cells steeper than the dynamic angle and with sand above the non-erodible layer give, they give only to lower neighbouring cells, what one cell gives its neighbours receive, cells at the domain boundary stay as they are, and the iteration ends when the steepest slope is below the dynamic angle or the maximum number of iterations is reached. The recorded slope is the downslope bed gradient before avalanching.',
  ['inputs', 'histories', 'configurations'], 'all bed and non-erodible levels, cell sizes, angles of repose and iteration limits on one- and two-dimensional grids of at least three cells',
  'No test looks at the bed after avalanching; sand balance and direction concern every cell in every iteration.',
  [('avalanching.py:avalanche', 'redistribution'), ('avalanching.py:calc_gradients', 'slopes'), ('avalanching.py:angele_of_repose', 'angles')],
  SYM + 'The iteration is proved by a loop invariant for any number of iterations, with the gradients by contract; the gradients are proved for all grid sizes. tanh is uninterpreted with its monotonicity and bounds.')
P('Y01', 'Water levels and waves follow their forcing, limited by the local depth',
  'At every time the still water level is the interpolated tide with its mask applied, and zero without tide; the wave height is the interpolated offshore height limited by the breaker ratio times the local depth with its mask applied, and zero without waves. With runup the setup and runup are those of the waves at the offshore cell of each transect with the runup mask applied and are added to the still water level, without runup the total water level is the still water level; the water surface is never below the bed.',
  ['inputs', 'histories', 'configurations'], 'all forcing series, times, bed levels, masks and process switches', 'Tests run a few configurations without looking at water levels.',
  [('hydro.py:interpolate', 'water levels and waves'), ('utils.py:apply_mask', 'masks')], SYM + 'Time interpolation is used by its contract (decided under U02), meteorological records are part of Y03.')
P('Y02', 'Wave runup, setup and swash follow the Stockdon formulations',
  'For every wave height, period and beach slope the setup, swash and runup are those of the Stockdon formulation for dissipative beaches where the surf similarity is below 0.3 and those of the general formulation elsewhere, for single values and fields alike. Without waves all three are zero, and none of them is ever negative or undefined.',
  ['inputs'], 'all non-negative wave heights, periods and slopes', 'Tests do not evaluate the runup at all.',
  [('hydro.py:calc_runup_stockdon', 'runup')], SYM + 'Fields are decided with positive periods and slopes.')
P('Y03', 'Surface moisture and salt respond to flooding, drainage, rain and evaporation',
  'A flooded cell becomes saturated; elsewhere moisture decays with its half-life and, in the extended formulation, gains from rain, loses by Penman evaporation, both for the interpolated weather of that time, and is at least the capillary moisture of the wetting or drying curve at its height above the groundwater. Moisture always stays between its residual and saturated value and the salt content between zero and one; flooded cells become salty and salt decays with its half-life. With hysteresis the capillary moisture follows the main wetting or drying curve, or after a reversal a scanning curve between them, until it meets the main curve again. Nothing changes when the moisture process is off, and an unknown moisture process is refused.',
  ['inputs', 'histories', 'configurations'], 'all moisture, water level, groundwater and meteorological values and time steps', 'Tests never compare the moisture after a step with its balance.',
  [('hydro.py:update', 'moisture and salt'), ('hydro.py:evaporation', 'Penman'), ('hydro.py:SWR_curve', 'hysteresis'), ('hydro.py:interpolate', 'weather records'), ('hydro.py:hdelta', 'suction at the last reversal'), ('hydro.py:saturation_pressure', 'vapour pressure'), ('hydro.py:vaporation_pressure_slope', 'vapour pressure slope')],
  SYM + 'exp, log10 and power are uninterpreted with monotonicity and positivity axioms. The suction at a reversal on a drying scanning curve is found by search and decided by contract runs only (bounded).')
P('Y04', 'Groundwater follows the Boussinesq equation and stays below the bed',
  'Each groundwater step advances the level of every transect by a fourth-order Runge-Kutta step of the Boussinesq equation between the shoreline, where it equals the water level including setup, and the selected landward boundary (no flow or static). Wave infiltration raises it only with waves and only between shoreline and runup limit, the groundwater mask is applied, and after the step groundwater equals the setup level in submerged cells and nowhere exceeds the bed level.',
  ['inputs', 'histories', 'configurations'], 'all groundwater, bed and water levels, aquifer parameters and boundary choices', 'Tests do not look at groundwater levels.',
  [('hydro.py:update', 'time stepping'), ('hydro.py:Boussinesq', 'equation'), ('hydro.py:runup_overheight_distr', 'infiltration')],
  SYM + 'The step is proved for all grid sizes with the equation by contract; the equation is proved for transects of any length and one or two transects, on equidistant grids.')
P('C01', 'Grid geometry follows from the coordinates alone',
  'The orientation of the grid is the direction of its cross-shore axis in the world, for every quadrant. The cell size in cross-shore direction is the distance between neighbours along that axis and the cell size in alongshore direction the distance between neighbouring rows, independent of the orientation; a single transect has unit width and its own, possibly varying, cell sizes. The cell area is the product of both, its stored inverse matches, and the coordinates are those of the grid files.',
  ['inputs'], 'all coordinates of equidistant rectangular grids in any orientation and of transects with increasing distances', 'Tests use a few axis-aligned grids with square cells.',
  [('gridparams.py:initialize', 'geometry'), ('utils.py:rotate', 'rotation')], SYM + 'arctan, sin and cos are uninterpreted with their defining relations; the double pi stands for pi.')

P('M01', 'Every time step is positive, stable and within the requested limits',
  'A time step is the requested one, or the configured one when none is requested, and never more. With an explicit scheme it is reduced so that the Courant number of no cell exceeds the limit, and with a maximum bed level change so that the last rate of erosion or deposition would not exceed it; it is not reduced further than that and always stays positive. Without wind an explicit step is refused, and a negative step only moves the clock forward.',
  ['inputs', 'histories', 'configurations'], 'all wind and bed change fields, cell sizes, requested steps, schemes and limits', 'Tests run a few configurations with fixed steps only; the limits must hold for each field.',
  [('model.py:set_timestep', 'time step')], SYM)
P('M02', 'A model step runs the selected processes in order on an aligned grid',
  'Each step interpolates the forcing of the current time and runs every process that is switched on, once, in the order in which they depend on each other, on the grid aligned with its own axes; afterwards the grid and all vectors are back in their original orientation, also when no step is computed. Transport is solved once by the selected solver with the implicitness of the selected scheme, starting from the previous state, an unknown scheme is refused, and the clock advances by the accelerated step.',
  ['inputs', 'histories', 'configurations'], 'all states, orientations, process switches, schemes and solvers', 'Tests run a handful of configurations end to end and compare no intermediate state.',
  [('model.py:update', 'step'), ('model.py:grid_rotate', 'alignment'), ('model.py:euler_forward', 'scheme'), ('model.py:euler_backward', 'scheme'), ('model.py:crank_nicolson', 'scheme')],
  SYM + 'The processes are stand-ins that record their call and change the state; each has its own property.')
P('M03', 'Output holds the statistics of all steps since the last output',
  'Output is written exactly when the output interval has passed since the last output, or at time zero, and holds the current value of each requested field and the minimum, maximum, sum, average and sample variance over all steps since the last output (for the total flux q: of the magnitude of the flux of each of these steps), after which the statistics start anew. Restart files are written at their own interval. Each requested variable gets its own and the common statistics once, also when its name contains an underscore.',
  ['inputs', 'histories'], 'all fields, intervals, times and sets of output variables', 'Tests check that output files exist but not their statistics.',
  [('model.py:output_update', 'accumulation'), ('model.py:output_clear', 'reset'), ('model.py:output_write', 'interval'), ('model.py:output_init', 'variables'), ('model.py:get_statistic', 'statistics'), ('model.py:get_var', 'access')],
  SYM + 'Histories of zero to three steps between outputs; netCDF4 itself is trusted.')
P('M04', 'State and parameters are read and set by name without side effects',
  'Reading a variable by name returns the spatial field (concentrations without the acceleration factor), else the parameter of that name, also when the name contains underscores, else nothing. Setting by name or by alphabetical index changes only that field or parameter; a field that is marked immutable keeps its value whichever way it is set until it is made mutable again, and unknown names are ignored. Shapes, ranks, counts and names agree with the fields.',
  ['inputs', 'histories'], 'all fields, names and sequences of locking, releasing and setting', 'Tests cover constructing a state and the set of mutable names only.',
  [('model.py:get_var', 'read'), ('model.py:set_var', 'write'), ('model.py:set_var_index', 'write by index'), ('model.py:__setitem__', 'mutability'), ('model.py:set_immutable', 'mutability')], SYM)
P('M05', 'A model resumes from restart and hotstart files with the saved state',
  'Loading a restart file brings back time, parameters, current and previous fields, counters and which fields are immutable, exactly as they were when it was written; the file is named after the output file and the time, and a missing file is reported. Hotstart files set exactly the fields they are named after, and those fields are not overwritten by the model afterwards.',
  ['inputs', 'histories', 'crash_points'], 'all states', 'No test writes or reads a restart file.',
  [('model.py:dump_restartfile', 'dump'), ('model.py:load_restartfile', 'load'), ('model.py:load_hotstartfiles', 'hotstart')],
  SYM + 'pickle is trusted in the proof and exercised for real in the contract runs; hotstart files are decided by contract runs on the real code only (bounded).')
P('I01', 'Configuration files are read as written and invalid input is refused',
  'Every setting gets the value and type its text denotes: booleans, integers, decimal and exponent numbers, words, nothing, and lists with any spacing; comments are skipped, and a name of a matrix file becomes the matrix. Settings that are not given keep their default, the defaults themselves are never altered, and a missing file or malformed grid, wind, tide or meteo input is refused with an error.',
  ['inputs', 'configurations'], 'all configuration texts', 'Tests read one configuration file.',
  [('inout.py:parse_value', 'casting'), ('inout.py:read_configfile', 'reading'), ('inout.py:check_configuration', 'validity')],
  SYM + 'Texts are symbolic: literals and unknown words, decided with the SMT theory of strings and regular expressions; conversion of a number text is the uninterpreted reading of that text. Reading of whole files and of matrices and lists is decided by contract runs of the real code on generated texts and files (bounded, stated number of runs).')
P('I02', 'A written configuration reads back unchanged and never destroys files',
  'Writing a configuration and reading it back gives the same settings, with all numbers in full precision and matrices in their own files. An existing matrix file is backed up first under a name that was not in use, no backup is ever overwritten, and running out of backup names is reported.',
  ['inputs', 'histories'], 'all settings and sets of existing files', 'Nothing tests writing of configurations.',
  [('inout.py:write_configfile', 'writing'), ('inout.py:backup', 'backup'), ('inout.py:get_backupfilename', 'backup names'), ('utils.py:print_value', 'formatting')],
  SYM + 'Each value is proved to be read back as it was written, for all words and numbers (repr of a float is trusted to denote it exactly). Whole files and matrices are decided by contract runs of the real code on generated settings and files (bounded, stated number of runs).')
P('V01', 'Vegetation grows, dies and germinates by its rules within its limits',
  'Plant height stays between zero and its maximum and the cover stays the square of the relative height. Established plots grow by the selected growth law over the accelerated time step, reduced by burial and erosion; plots without plants, or that died, stay bare until they germinate, which happens only while not eroding and with the yearly chance, or expand from a denser neighbour. There are no plants below the minimum elevation or under water, and the bed is untouched.',
  ['inputs', 'histories', 'configurations'], 'all vegetation, bed change and elevation fields, time steps and growth parameters', 'Tests never run the vegetation processes; stale growth appears only over several steps.',
  [('vegetation.py:grow', 'growth'), ('vegetation.py:germinate', 'germination'), ('vegetation.py:initialize', 'initial cover')],
  SYM + 'The power function is uninterpreted; the chance of lateral expansion is compared by contract runs only.')
P('V02', 'Vegetation only lowers the wind shear, along its direction',
  'Vegetation reduces the shear velocity of each cell by the factor belonging to its cover, smoothed over its surroundings, or in the lee of plants on a transect by the sum of the reductions of all plants upwind within twenty plant heights; it never increases the shear (beyond a small floor), keeps its direction, and the stress stays that of the reduced shear velocity.',
  ['inputs', 'configurations'], 'all shear, cover and height fields, wind directions and parameters', 'Tests never run the vegetation processes.',
  [('vegetation.py:vegshear', 'selection'), ('vegetation.py:vegshear_raupach', 'cover'), ('vegetation.py:vegshear_okin', 'lee of plants'), ('wind.py:velocity_stress', 'stress')],
  SYM + 'The Gaussian smoothing of scipy is trusted to average with weights; the reductions on a transect are proved for any number of cells and plants: each iteration adds exactly the reduction of its plant, and the sum follows by induction.')

P('B04', 'The initial bed, layers and masks are those of the configuration',
  'After initialization the bed level is the configured one, every layer of every cell holds exactly the mass of a layer of the configured thickness, porosity and density, composed by the composition file where one is given, else by the grain size distribution (of each layer where one is given per layer), with all distributions normalised. Masks without a file leave their field unchanged, the non-erodible layer, vegetation, fences and threshold fields are those of their files, and a distribution that does not fit the number of layers is refused.',
  ['inputs', 'configurations'], 'all grids, numbers of layers and fractions, layer thicknesses, porosities, distributions, composition files and masks',
  'Tests initialise a few configurations and do not look at the composition; the mass of each layer must fit for each of them.',
  [('bed.py:initialize', 'bed, layers, masks'), ('utils.py:makeiterable', 'lists')],
  SYM + 'Distributions per layer that do not fit are decided by contract runs only.')
P('S01', 'Topographic wind shear depends on the shape of the bed, not on its level',
  'The shear over a two-dimensional bed is that of the undisturbed wind plus the perturbation by the topography: a flat bed at any level leaves it unchanged, in any direction of wind and grid, and adding a constant to the bed changes nothing. The perturbation is that of the linear theory, summed over all wave lengths of the bed; the shear is never against the wind, is reduced inside a separation bubble, and the bubble leaves the brink along the bed and is never below it. The computational grid covers the domain with its buffer in the direction of the wind. Current wind and the configured options are used in each step, and stress and shear velocity agree.',
  ['inputs', 'configurations'], 'all bed levels, wind speeds and directions, grids, roughness and separation options',
  'Tests compare neither levels, symmetry nor directions; spurious shear at some level or wind direction looks plausible.',
  [('wind.py:shear', 'call and fields'), ('shear.py:compute_shear', 'perturbation'), ('shear.py:add_shear', 'addition'), ('shear.py:separation', 'bubble'), ('shear.py:separation_shear', 'reduction'), ('shear.py:set_computational_grid', 'grid'), ('shear.py:interpolate', 'interpolation'), ('shear.py:rotate', 'rotation')],
  SYM + 'Addition, rotation, separation reduction, filter and the caller are proved for all grids. The Fourier transform, the spatial interpolation of scipy, the computational grid and the bubble polynomials are outside the solvers: their functions are decided by runtime contracts on the real code with random grids, winds and beds (bounded, stated number of runs).')
P('F01', 'Sand fences follow the bed and only reduce the shear in their lee',
  'The height of a fence is its top above the present bed, zero below 0.1 m; a buried fence works again when it is uncovered, one that stands more than 1.5 m above the bed is undermined and gone for good. Fences never raise the shear velocity (beyond a small floor) nor turn it: each cell loses the sum of the Okin reductions of all fences upwind within twenty fence heights, at most everything, and cells upwind of, beside and further behind the fences keep their shear. Without fences nothing changes, and the stress stays that of the shear velocity.',
  ['inputs', 'histories', 'configurations'], 'all beds, fence heights, winds and their history',
  'No test uses fences.',
  [('fences.py:initialize', 'fence tops'), ('fences.py:update_fence_height', 'heights'), ('fences.py:update_fences', 'shear'), ('fences.py:fence_shear1d', 'transects'), ('fences.py:fence_shear2d', 'grids')],
  SYM + 'Heights and their history, the shear on transects and the reduction on the computational grid are proved for all grids: each iteration adds exactly the reduction of its fence, and the sum follows by induction; two-dimensional fences as a whole are decided by contract runs on the real code (bounded, stated number of runs).')
P('D01', 'Dune erosion lowers only the dune, by the volume the waves demand',
  'When runup reaches the dune toe, the toe retreats along its trajectory until the eroded volume is the one closest to the demand by wave impacts since the last step: only cells landward of the toe are lowered, to the trajectory and never below it, from the toe inland without gaps, and no cell is ever raised. Nothing changes while the runup stays below the toe, without waves or without dune erosion. Each row erodes by its own bed and its own runup.',
  ['inputs', 'configurations'], 'all beds, toe levels, runup, water levels and wave records', 'No test runs dune erosion.',
  [('erosion.py:run_ph12', 'erosion')],
  SYM + 'Decided for a transect of two and of three cells (bounded), with the time interpolation and the normal distribution by contract, and by contract runs of the real code on longer transects and several rows.', technique='contract-based deductive verification, bounded (transects of two and three cells), and runtime contracts on the real code', level='exploration')
P('K01', 'Generated wind series follow the requested distribution within its range',
  'The wind generator divides the range up to the maximum speed exactly into the requested bins; every drawn speed lies within the bin of its state, the next state is drawn by the transition probabilities of the present one, whose rows are cumulative probabilities with the requested Weibull distribution as the stationary one. A generated series starts at zero, has the requested step, covers the duration, and is written as a wind file that the model reads.',
  ['inputs', 'histories'], 'all mean and maximum speeds, bin numbers, step sizes, durations and random numbers', 'No test generates wind.',
  [('model.py:WindGenerator', 'generator'), ('model.py:matmult4', 'matrices')],
  SYM + 'The drawing of a step and the matrix product are decided for two and three bins (bounded, all random numbers); the construction and whole series by contract runs of the real code (bounded, stated number of runs).', technique='contract-based deductive verification of the step function (bounded number of bins), runtime contracts for the construction of the generator', level='exploration')
P('N01', 'The netCDF output holds every requested value once, at its time',
  'Each output appends one record: its time, every requested variable and statistic with exactly the values given, at that record only, and the bounds from the previous output to this one; earlier records are never touched and the model state is left alone. The file has the coordinates, dimensions, units and attributes of the variables, and a dumped bed composition or bed level is read back as the initial state of another run.',
  ['inputs', 'histories', 'configurations'], 'all grids, sets of output variables and statistics, and histories of outputs', 'Tests check the existence of the file only.',
  [('netcdf.py:initialize', 'file'), ('netcdf.py:append', 'records'), ('netcdf.py:set_bounds', 'time bounds'), ('netcdf.py:parse_metadata', 'attributes'), ('netcdf.py:dump', 'dump')],
  SYM + 'Appending is proved for any number of earlier records with the file by contract. The creation of the file, its attributes and the dump are decided by contract runs with the real netCDF4 library in a scratch directory (bounded, stated number of runs).')
P('R01', 'A run does every step, output and callback in order and reports what is wrong',
  'A run reads the configuration, initializes, loads hotstart and restart files when given, writes the first output and then alternates callback, time step and output until the stop time is passed, and finalizes once. It works in the directory of the configuration file, keeps its log beside it, can write the configuration back after a backup of the old file, and leaves the caller in its own directory. Initialization gives every field its dimensions and a zero start, in a fixed order of the processes. A missing configuration, script or callback is reported and never ignored; the command line does the same run and writes output at the requested times.',
  ['inputs', 'histories', 'configurations'], 'all numbers of steps, stop times, grids, configurations, callbacks and combinations of restart files', 'Tests run a few complete configurations and look at the existence of files only.',
  [('model.py:run', 'run loop'), ('model.py:initialize', 'initialization'), ('model.py:parse_callback', 'callbacks'), ('model.py:write_params', 'configuration'), ('console.py:aeolis_app', 'command line')],
  SYM + 'The run loop is proved for any number of steps by a loop contract, with the steps by contract; initialization is proved with the readers and process initialisations by contract. Callback scripts, writing of the configuration and the command line are decided by contract runs in a scratch directory (bounded, stated number of runs).')
P('X01', 'Whole time steps keep the state of the model valid under all processes together',
  'Whatever combination of processes, schemes and solvers is switched on: after every step all fields keep their shape and are defined, concentrations, masses, moisture, salt and vegetation stay within their ranges, every layer keeps its mass, the bed level follows the mass exchanged with the air unless another process moves the bed, nothing moves without wind, the water surface is not below the bed, the grid is unchanged and time advances by the accelerated step. Writing output changes none of the results.',
  ['inputs', 'histories', 'configurations'], 'all small grids, beds, forcings and combinations of processes, schemes and solvers', 'Tests run a handful of fixed configurations and do not look at the state.',
  [('model.py:update', 'time step'), ('model.py:initialize', 'initialization'), ('bed.py:update', 'bed'), ('hydro.py:update', 'moisture'), ('transport.py:equilibrium', 'transport')],
  'Decided by runtime contracts on the real model only, for random small models of a few steps (bounded, stated number of runs): no function is counted as proved here. Groundwater is exercised on transects that run from the sea to dry land.', technique='runtime contracts on whole model steps of the real code (bounded)', level='exploration')

NA = {}
NOTES = 'Checks read /repo (or $VERIF_REPO) on every run; nothing is built. Contracts: specs/*.py; engine: engine/*.py. Known findings and fixes: known_findings.json.'
