prop('P08', 'State vectors, solutions and events keep their meaning',
     'Every set of equations gives each of its variables one place in the state vector. Whatever the integrator returns for '
     'that place (the trajectory and the states at each tracked event) is available under the name of the variable, and under '
     'the name of the event. Solving integrates the given equations from the given start to the given end with the given '
     'initial conditions, tolerances, integrator and events, and post-processes exactly that result.',
     ['inputs', 'configurations'], 'all sets of equations of the package and user-defined ones, all optional variables, every integrator '
     'output (trajectory of any length, any number of occurrences of each event including none)',
     'Tests look at one or two trajectories in which events occur once; swapped places or labels show only for particular '
     'sets of optional variables or events that do not occur.',
     ['primpy/equations.py', 'primpy/solver.py'],
     [('Equations.add_variable, sol', 'primpy/equations.py'), ('solve', 'primpy/solver.py')],
     'Integrator outputs are arbitrary symbolic arrays; solve_ivp is replaced by its contract and its arguments are obligations.')
prop('P09', 'Event functions vanish exactly when their quantity reaches the requested value',
     'Each event function vanishes exactly at its condition (time, e-folds, start or end of inflation, equation of state, '
     'collapse, field value, mode leaving the horizon) and has the sign of the side it is on. It carries the requested '
     'direction and terminal flag. An inflation event that starts at its own crossing does not report that start. The names '
     'of events that can be tracked together differ.',
     ['inputs', 'configurations'], 'every state, potential and curvature, both independent variables, all directions and flags, all values',
     'Tests check that events are found along a few trajectories; a wrong side, a wrong offset or a shared name shows only '
     'for other states and combinations.',
     ['primpy/events.py', 'primpy/time/inflation.py', 'primpy/efolds/inflation.py'],
     [('event classes', 'primpy/events.py'), ('V, H2, w, inflating', 'primpy/time/inflation.py, primpy/efolds/inflation.py')],
     'Proved for an arbitrary potential and state; the root search itself is scipy\'s.')
prop('P11', 'Start and end of inflation are read off the events, unknowns are announced',
     'From any integrator output, the start of inflation is the first point if it is inflating already, otherwise the first tracked '
     'crossing into inflation; the end is the first tracked crossing out of it. E-folds, field, energy, Hubble parameter and '
     'duration are those at these points. What is not tracked, did not happen or collapsed is not-a-number and, if verbose, '
     'announced by a warning which tells the reason correctly.',
     ['inputs', 'configurations', 'histories'], 'every integrator output (any length, any occurrences of each event), every '
     'potential, all curvatures, both independent variables, every set of tracked events, terminal or not, verbose or not',
     'Tests run a handful of solves in which the usual events are tracked and occur; combinations of missing, terminal and '
     'non-occurring events are not reached.',
     ['primpy/inflation.py', 'primpy/exceptionhandling.py', 'primpy/events.py'],
     [('postprocessing_inflation_start, postprocessing_inflation_end, sol', 'primpy/inflation.py'),
      ('warnings', 'primpy/exceptionhandling.py')],
     'Integrator outputs are arbitrary symbolic arrays and events; two genuine defects were repaired.')
prop('P10', 'Initial conditions start the universe that was asked for',
     'Initial conditions, in slow roll or at the start of inflation, put the requested field, e-folds or curvature, time and '
     'conformal time into the state; the velocity is the slow-roll one or that of just starting to accelerate, the Friedmann equation '
     'holds, and e-folds and curvature give each other back. Requests without a positive Hubble parameter or that contradict themselves are rejected. The searches for a '
     'requested duration of inflation or curvature treat too little, too much and failed trials as what they are and store the '
     'field they found.',
     ['inputs', 'configurations', 'histories'], 'every potential, field, e-folds or curvature, all three geometries, both independent '
     'variables, tracked or untracked times, every outcome a trial integration can have',
     'Tests start a few viable universes; failing trials, excessive curvature and trials without an end of inflation are not reached.',
     ['primpy/initialconditions.py'],
     [('InflationStartIC, SlowRollIC, ISIC_Nt, ISIC_NsOk', 'primpy/initialconditions.py')],
     'Trials of the search are arbitrary histories; root_scalar is replaced by its contract. Two genuine defects were repaired.')
prop('P12', 'Calibration puts scales, e-folds and horizon crossing on one footing',
     'After calibration, for flat and curved universes and by every method, calibrated and uncalibrated e-folds differ by one '
     'offset, the pivot scale leaves the horizon when its wavenumber equals the comoving Hubble rate, wavenumbers, comoving '
     'horizon, scale factor and curvature today agree with each other, and e-folds before and after horizon crossing add up. '
     'Requested values come back, results do not depend on earlier calibrations, impossible or contradictory requests are rejected.',
     ['inputs', 'configurations', 'histories'], 'every solution with an inflationary phase (arrays of any length), all geometries, '
     'both independent variables, all calibration methods, sequences of calibrations',
     'Tests calibrate a handful of solutions with default settings and compare single numbers.',
     ['primpy/inflation.py'],
     [('calibrate_scale_factor, set_ns', 'primpy/inflation.py')],
     'The solution is arbitrary; interp1d and splines are interpreted by their contracts.')
prop('P13', 'Reheating details agree with each other whatever was requested',
     'Whenever calibration knows the details of reheating, its energy density has diluted from the end of inflation with its '
     'equation of state, it ends its duration after inflation does, the reheating parameter is the one of that duration and '
     'equation of state, entropy is conserved from its end until today, and energies in Planck units and GeV agree. Requested '
     'values come back; instant reheating is recognised; contradictory or incomplete requests are rejected; reheating before the '
     'end of inflation or after today is announced; details that do not follow are not-a-number.',
     ['inputs', 'configurations'], 'every solution with an inflationary phase, flat and curved, every combination of reheating '
     'parameters (with or without N_star or curvature), every number of relativistic degrees of freedom',
     'Tests use a few combinations and check some of the relations; a wrong branch shows only for its combination and geometry.',
     ['primpy/inflation.py', 'primpy/reheating.py'],
     [('calibrate_scale_factor', 'primpy/inflation.py'), ('is_instant_reheating', 'primpy/reheating.py')],
     'Each branch is compared with the physical laws, not with the other branches. One genuine defect was repaired.')
prop('P14', 'Slow-roll approximations of the spectra are mutually and physically consistent',
     'The approximations of the primordial scalar and tensor spectra follow from the equation of the perturbations, and agree '
     'with each other and with the exact solution of power-law inflation, through the order they claim (0 to 3 for CGS, 1 to 3 '
     'for ARBDS, the third where the third flow parameter is constant; second for LLMS and STE), and those expanding around the '
     'pivot scale do not depend on its choice. Amplitudes, tilts, runnings and the '
     'tensor-to-scalar ratio are those of the interpolated spectrum of the chosen method and order, and a spectrum asked for '
     'belongs to the current calibration, whatever was calibrated or asked for before.',
     ['inputs', 'configurations', 'histories'], 'every history near slow roll (flow parameters as formal small quantities), all '
     'methods and orders, both independent variables, all sequences of two calibrations and methods',
     'Tests only check that the methods run and agree to a few per cent on one potential; wrong coefficients of higher order '
     'or stale spectra stay below the tolerance.',
     ['primpy/inflation.py'],
     [('derive_approx_power (CGS, LLMS, STE, ARBDS), P_s_approx, P_t_approx', 'primpy/inflation.py'),
      ('get_epsilon_*, get_delta_*', 'primpy/time/inflation.py, primpy/efolds/inflation.py')],
     'Flow parameters enter by the contract of their getters. Four genuine defects were repaired.')
prop('P15', 'Big Bang expansion history, its units and its special cases',
     'The Hubble parameter of the standard Big Bang obeys the Friedmann equation with matter, thermal radiation of the measured '
     'temperature, curvature and the remaining cosmological constant; the scale factor of a curved universe is its radius of '
     'curvature, so the curvature term is K/a^2; all units agree. Exactly those universes that never had a Big Bang are rejected, '
     'exactly those that recollapse are announced: on the dividing lines expansion stops at a double root, and between them it '
     'never did. Conformal time is the integral of dN/(aH), and the ratio before to after inflation uses one common scale factor.',
     ['inputs'], 'all density and Hubble parameters, flat and curved, all times and units',
     'Tests compare a few numbers for one or two cosmologies.',
     ['primpy/bigbang.py', 'primpy/parameters.py'],
     [('Hubble_parameter, no_Big_Bang_line, expand_recollapse_line, comoving_Hubble_horizon, conformal_time, '
       'conformal_time_ratio, get_w_delta_reh', 'primpy/bigbang.py')],
     'Numerical quadrature is interpreted by its contract. One genuine defect was repaired.')

prop('P16', 'Mukhanov-Sasaki frequency and damping follow from the Einstein equations',
     'The frequency and damping used to evolve a mode are those of the comoving curvature perturbation and of gravitational '
     'waves in a flat, closed or open universe: R built from the Newtonian potential of the perturbed Einstein equations '
     'satisfies the scalar equation, tensor modes satisfy theirs, in flat space the scalar equation is the one with z = a dphi/dN, '
     'and cosmic time and e-folds describe the same mode. A mode whose squared frequency is negative somewhere gets a complex '
     'frequency, never not-a-number.',
     ['inputs', 'configurations'], 'every potential, every background point (phi, dphi/dt, H, N), every wavenumber, all three curvatures, '
     'time and e-folds, scalar and tensor',
     'Tests compare time with e-folds for a few backgrounds; a term wrong in both, or one that matters only in curved universes at '
     'small wavenumber, goes unseen.',
     ['primpy/time/perturbations.py', 'primpy/efolds/perturbations.py'],
     [('mukhanov_sasaki_frequency_damping of ScalarModeT, TensorModeT, ScalarModeN, TensorModeN',
       'primpy/time/perturbations.py, primpy/efolds/perturbations.py')],
     'The eigenvalue of the Laplacian is the convention of the package: k^2 + k K (K + 1).')
prop('P17', 'Vacuum initial conditions are normalised positive-frequency modes',
     'For each vacuum (k, HD, RST) and each kind of mode the initial value and rate have the Wronskian of a canonically normalised '
     'quantum mode (v v\'* - v* v\' = i with v = z R, or a h / 2), the amplitude of the vacuum of its frequency, and the '
     'right phase: v\' = -i w v for k and HD, with w^2 = k^2 (k) or k^2 - z\'\'/z (HD), and a velocity of R itself of -i k R for RST. '
     'Cosmic time and e-folds give the same mode.',
     ['inputs', 'configurations'], 'every potential, every background and starting point, every wavenumber for which the vacuum exists, all '
     'three curvatures, time and e-folds, scalar and tensor',
     'Tests check that spectra of the vacua agree on small scales, where all choices coincide.',
     ['primpy/time/perturbations.py', 'primpy/efolds/perturbations.py', 'primpy/time/inflation.py', 'primpy/efolds/inflation.py'],
     [('get_vacuum_ic_k, get_vacuum_ic_HD, get_vacuum_ic_RST', 'primpy/time/perturbations.py, primpy/efolds/perturbations.py')],
     'z\'\'/z is derived from the equations of motion by differentiation along the flow, not copied.')
prop('P18', 'Spectra are those of modes that start in the vacuum and are evolved until frozen',
     'For each wavenumber and vacuum the spectrum is k^3/(2 pi^2) |u|^2 (twice that for tensors) of the solution u of the mode '
     'equation that starts in that vacuum, whatever pair of independent solutions was integrated; so is its dense output. The '
     'integrator is given the frequency and damping of that mode over the very piece of background it integrates, the options and '
     'the output points asked for. Integration starts where asked (fac_beg) and ends at the first point where the mode is outside '
     'the horizon by fac_end and ten e-folds have passed. Results stand at the place of their wavenumber and vacuum, k is converted to '
     '1/Mpc at the pivot scale, and on request scales k < 1 of closed universes are dropped from every requested scalar spectrum.',
     ['inputs', 'configurations'], 'every background table, every wavenumber or array of them, every pair of independent initial values, all '
     'vacua and options, time and e-folds',
     'Tests run a few modes with default options and compare spectra loosely.',
     ['primpy/oscode_solver.py', 'primpy/perturbations.py', 'primpy/time/perturbations.py', 'primpy/efolds/perturbations.py'],
     [('solve_oscode', 'primpy/oscode_solver.py'),
      ('PrimordialPowerSpectrum, Perturbation.oscode_postprocessing, _combine_solutions, _get_coefficients_a_b', 'primpy/perturbations.py')],
     'pyoscode.solve enters by its contract (linear in its initial values, frozen at the end). Two genuine defects were repaired.')
prop('P19', 'Units and parameters are consistent with each other',
     'In reduced Planck units hbar = c = k_B = 8 pi G = 1, so lengths, times, masses, temperatures and energy densities convert '
     'consistently between SI, Planck units and GeV; the radiation constant, the radiation density and the degrees of freedom of '
     'the entropy today are those of thermal photons and of neutrinos of the standard temperature ratio; the pivot scale is the same '
     'in all units.',
     ['inputs'], 'every value of the constants of nature (they are symbols, not numbers)',
     'No test looks at the units themselves; a wrong power of c or hbar shifts e-folds of reheating by an amount tests tolerate.',
     ['primpy/units.py', 'primpy/parameters.py'],
     [('module constants', 'primpy/units.py, primpy/parameters.py')],
     'Derived constants are proved as identities between symbols.')
prop('P20', 'Spectra handed to cobaya are those of the requested parameters',
     'The power-law theory delivers on its logarithmic grid the spectra with the given amplitude, tilt and runnings at the pivot '
     'scale; tensor parameters that are not given follow from inflationary consistency, the tensor amplitude from r; contradictory ones '
     'are rejected. Features multiply both spectra and vanish by default. Slow-roll theories deliver the approximate spectra of a '
     'flat universe with the named potential and the requested amplitude, calibrated as requested, report its derived parameters, and '
     'reject exactly unrealistic reheating, failed integrations and failed shooting.',
     ['inputs', 'configurations'], 'all parameter values, every subset of given parameters, all theories, every wavenumber of the grid',
     'The wrappers have no tests at all.',
     ['cobaya_wrapper/powerlaw_pps.py', 'cobaya_wrapper/feature_pps.py', 'cobaya_wrapper/slowroll_pps.py'],
     [('PowerLawPPS, ExternalPrimordialPowerSpectrum', 'cobaya_wrapper/powerlaw_pps.py'),
      ('LogOscillationPPS, LinOscillationPPS, CutoffPPS', 'cobaya_wrapper/feature_pps.py'),
      ('SlowRollPPS and its subclasses', 'cobaya_wrapper/slowroll_pps.py')],
     'cobaya is not installed: its base class enters by contract; solve, potentials and calibration enter by their contracts. '
     'Four genuine defects were repaired.')
