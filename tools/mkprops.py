#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (the list is kept here so that it can be edited as text)."""
import json, os
P = 'kinisi/parser.py'; D = 'kinisi/diffusion.py'; A = 'kinisi/analyzer.py'
DA, JA, CA = 'kinisi/diffusion_analyzer.py', 'kinisi/jump_diffusion_analyzer.py', 'kinisi/conductivity_analyzer.py'
AR = 'kinisi/arrhenius.py'
props = []
def p(id, title, statement, over, qtext, why, files, mech, state=(), observe=()):
    props.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=qtext), why_tests_cant=why,
        anchors=dict(files=files, state=[dict(name=a, meaning=b, where=c) for a, b, c in state],
                     mechanism=[dict(name=a, where=b) for a, b in mech],
                     observe_at=list(observe), hook_needed=None)))

p('C01', 'Periodic boundaries never corrupt displacements',
  "Whatever atoms do at the periodic boundaries, the displacement reported for an atom over any stretch of the trajectory is the sum of its real steps, as long as no atom moves more than half a cell in one step: every start position, number and direction of crossings, and cell shape (cubic, anisotropic, triclinic) gives the same answer as the same motion in an infinite box. When the cell changes during the run, each step is the change in Cartesian position taken to its nearest periodic image in the cell of the later frame, and the steps accumulate. In a constant cell, shifting all atoms by any lattice vector or writing any coordinate in another periodic image changes nothing.",
  ['inputs', 'histories'], 'all cells (constant or changing), all histories of atom steps shorter than half a cell, any number of frames and atoms',
  'Tests compare a handful of stored trajectories with stored numbers; crossings in every direction, triclinic and changing cells and long histories are not reached.',
  [P], [('nearest-image step in the later cell, accumulated', P + ':get_disp')],
  [('disp', 'accumulated displacement per atom, frame and axis', P)], ['displacements of parser and analyzer objects'])
p('C02', 'Framework drift is removed exactly',
  "Displacements of the atoms of interest are measured relative to the plain average displacement of all framework atoms at the same instant. Hence a motion common to every atom never changes any result when there is a framework, an empty framework list means no correction at all, and the choice of the framework is the only thing the correction depends on.",
  ['inputs', 'configurations'], 'all trajectories, all framework choices (default complement, given list, empty), any common motion',
  'Tests call the correction on one or two fixed arrays and look at shapes or at a trivial framework.',
  [P], [('subtract the average framework displacement', P + ':correct_drift')], (), ['displacements of parser and analyzer objects'])
p('C03', 'The selected atoms are exactly the requested ones',
  "The displacements describe exactly the requested atoms, once each: all atoms of the requested species (one name or a list of names; for pymatgen input also its element and species objects) in file order, or the given zero-based atom indices in the given order; with atom sub-sampling only every n-th atom of the system exists at all. The framework is the given list of (zero-based) atoms, or otherwise every atom that is not selected. Asking for a species that is not there, or for nothing at all, is an error rather than an empty or wrong result.",
  ['inputs', 'configurations'], 'all orderings and mixtures of species, selections by name, list of names or indices, framework lists, atom sub-sampling, for every supported trajectory type',
  'Tests use one species of a few stored files; mixtures, orderings, lists and combinations of options are not sampled.',
  [P], [('species and index selection', P + ':get_indices, _get_framework'), ('sub_sample_atoms', P + ':MDAnalysisParser')], (),
  ['displacements, indices and drift_indices of parser objects'])
p('C04', 'Molecules move with their centre of mass',
  "When groups of atoms (one-based numbers) are given as molecules, each molecule is replaced by its mass-weighted centre (plain average without masses) and the displacements are those of the centres in the given order, for any molecule smaller than half the cell, wherever it lies, also when it is split across a periodic boundary or crosses one. The framework is then every atom in no molecule, or the given (one-based) list, and masses that do not match the molecule length, or molecules of different lengths, are errors.",
  ['inputs', 'configurations'], 'all molecule sizes, masses, positions relative to the boundaries, number of molecules, framework choices',
  'Tests compute a few hand-made centres; boundary positions, masses and motions are a continuum.',
  [P], [('circular mean and pseudo-centre of mass', P + ':_get_molecules')], (), ['displacements of parser and analyzer objects'])
p('C05', 'Time intervals are the requested ones',
  "The analysed intervals are strictly increasing whole multiples of the time between used frames (time step x step skip x trajectory sub-sampling; femtoseconds become picoseconds for pymatgen input). They start at min_dt (one step by default) and end at max_dt (the whole simulation by default), with at most n_steps values which are the linearly or logarithmically spaced values rounded down to whole steps, without duplicates. A min_dt not shorter than the simulation or an unknown spacing is an error.",
  ['inputs', 'configurations'], 'all trajectory lengths, time steps, skips, sub-samplings, min_dt, max_dt, n_steps and spacings, for every trajectory type',
  'Tests try a few hand-picked values; float truncation, duplicates and option combinations are not sampled.',
  [P], [('interval construction', P + ':Parser.__init__, get_time_intervals'), ('time scale', P + ':get_disps and the parsers')], (),
  ['delta_t of parser and analyzer objects'])
p('C06', 'Every observation spans exactly its interval',
  "At an interval of k steps, multi-origin sampling yields for every atom one observation per possible start point, each the displacement between two frames exactly k steps apart, in time order and with the atoms of one observation taken over the same window; single-origin sampling yields exactly the one window that starts at the beginning of the trajectory. Intervals that offer no more than one independent observation are left out, none else, and an unknown sampling mode is an error.",
  ['inputs', 'configurations'], 'all trajectory lengths, intervals, atom numbers, both sampling modes, trajectory sub-sampling',
  'Tests check shapes of the displacement arrays; the contents at each interval and origin are not compared with the trajectory.',
  [P], [('window construction', P + ':get_disps')], (), ['disp_3d of parser and analyzer objects'])
p('C07', 'Independent observations are counted correctly',
  "The number of independent observations reported for an interval is the number of atoms times the number of times the interval fits into the whole simulation (number of atoms for single-origin sampling), whatever intervals are analysed. It never exceeds the number of observations there are by more than the overlap rule implies, decreases with the interval, adds up over replicas, and scales with the number of atoms; every reported variance of a mean is the variance of the observations divided by this number (per system rather than per atom for collective quantities).",
  ['inputs', 'configurations'], 'all trajectory lengths, intervals, atom numbers, sampling modes, replicas, sub-samplings and estimators',
  'Tests look at array sizes; the counts for restricted interval ranges, sub-sampling, single origin or replicas are not compared with anything.',
  [P, D, A], [('n_o', P + ':get_disps'), ('sum over replicas', A + ':_from_*'), ('variance of the mean', D + ':MSDBootstrap, MSTDBootstrap, MSCDBootstrap')], (),
  ['n_o in the dictionaries of analyzer and bootstrap objects', 'v'])
p('C08', 'Several trajectories combine as documented',
  "Consecutive trajectories give exactly the result of the one concatenated trajectory, however it was split. Identical (replica) trajectories give all atoms of all replicas side by side in the given order, each with its own unchanged displacements, with the common time axis and with the independent observations added up. This holds for every analysis class and input type that offers it, the order of replicas does not change any estimate, and an unknown combination mode is an error.",
  ['inputs', 'configurations'], 'all splits of a trajectory, all numbers of replicas, three analysis classes, five input types',
  'The tests of the analysis classes cover one split and two equal replicas, and cannot be collected in this environment.',
  [A, DA, JA, CA], [('consecutive/identical', A + ':_from_*'), ('stacking', A + ':_stack_trajectories')], (), ['dictionary of analyzer objects'])
p('C09', 'The result does not depend on the file format',
  "The same physical trajectory given as ASE atoms, pymatgen structures, an Xdatcar object, an XDATCAR file or an MDAnalysis universe gives the same time axis in picoseconds, displacements, observation counts, cell volume and estimates, up to the precision of the format, for all analysis classes, and for all options these inputs share.",
  ['inputs', 'configurations'], 'all trajectories representable in each format, all shared options, three analysis classes',
  'Each parser is tested on its own files only; no test compares two input routes.',
  [P, A, DA, JA, CA], [('parsers', P), ('constructors', A)], (), ['dictionary of analyzer objects', 'volume'])
p('C10', 'MSD estimates equal their definition',
  "At each interval the reported mean-squared displacement is the mean over all atoms and observations of the squared displacement along the requested axes, its variance is the sample variance divided by the number of independent observations and its standard deviation the root of that; the reported displacement distribution holds the length of every single displacement and the non-Gaussian parameter is the documented moment ratio. This holds for every axis choice (upper or lower case), and with blocking the mean and variance are those of the blocking analysis of the same squared displacements.",
  ['inputs', 'configurations'], 'all displacement data, seven axis choices, sub-sampling of intervals, blocking on or off',
  'Tests check sizes and signs, or single hand-made arrays; values are not compared with the definition.',
  [D, DA], [('estimator', D + ':MSDBootstrap'), ('ngp', D + ':ngp_calculation')], (), ['n, v, s, ngp, dr / msd, msd_std'])
p('C11', 'Collective displacement estimates equal their definition',
  "The total (MSTD) and charge (MSCD) displacement estimates are the mean over observations of the squared length of the (charge-weighted) sum over all atoms of the simultaneous displacement vectors along the requested axes, with variance the sample variance over the number of independent observations of the whole system. Scalar charge q is the same as a charge of q on every ion and scales the result with q squared, charges are matched to ions by position and keep their sign, and the estimates cover the first half of the (sub-sampled) intervals.",
  ['inputs', 'configurations'], 'all displacement data, charges (scalar, per ion, negative, zero), seven axis choices, interval sub-sampling',
  'Tests check sizes only and one charge setting; no value is compared with the definition.',
  [D, JA, CA], [('estimators', D + ':MSTDBootstrap, MSCDBootstrap')], (), ['n, v, s, ngp, dr / mstd, mscd'])
p('C12', 'All per-interval results stay aligned',
  "Every per-interval result (interval, estimate, variance, standard deviation, observation count, non-Gaussian parameter, displacement distribution, resampled distribution and its moments) has one entry per reported interval, and the i-th entries all refer to the same interval, also with interval sub-sampling, omitted intervals and after a dictionary or file round trip; sub-sampling by n keeps exactly the intervals 0, n, 2n, ....",
  ['inputs', 'configurations'], 'all interval sub-samplings, numbers of intervals, estimators, resampling on or off, omitted intervals',
  'Tests check the length of two or three arrays without sub-sampling.',
  [D, A], [('loops over intervals', D), ('ngp_max', A)], (), ['dictionaries of bootstrap and analyzer objects', 'ngp_max'])
p('C13', 'Resampling does what it says, within its limits',
  "Each resampled value is the mean of as many draws with replacement from the observations as there are independent observations (rounded down; per system for collective quantities). Resampling starts with the requested number of resamples and adds batches of 100 until the resampled means pass the normality test or the maximum number is reached, never continuing afterwards, and warns exactly if they do not pass at the end; the reported resampled mean, variance and standard deviation are those of the resampled values, and a seeded random state makes all of it reproducible.",
  ['inputs', 'configurations', 'histories'], 'all observation arrays, numbers of draws, initial and maximum numbers of resamples, significance levels, seeds',
  'Tests run a few sizes and check the number of resamples for one or two seeds.',
  [D], [('loop', D + ':sample_until_normal'), ('draws', D + ':_bootstrap'), ('moments', D + ':M*DBootstrap')], (), ['samples of the returned distributions', 'n_bootstrap, v_bootstrap, s_bootstrap', 'warnings'])
p('C14', 'The covariance matrix is usable and faithful',
  "The covariance matrix of a fit has one row per fitted interval and is real, symmetric and positive definite with a condition number of at most the requested maximum. Before conditioning its entry for two intervals is the variance at the shorter one times the ratio of the observation counts (shorter over longer), with the observed variances, or with the model option the best-fitting random-walk variances proportional to the squared interval over the observation count. Conditioning only raises the eigenvalues that are too small to the largest eigenvalue over the maximum condition number, so a matrix that is well conditioned is left as it is.",
  ['inputs', 'configurations'], 'all variances and observation counts, start of the fit, model option, maximum condition numbers',
  'Tests check shapes and the sign of a determinant, for default options.',
  [D], [('covariance', D + ':_populate_covariance_matrix, generate_covariance_matrix'), ('conditioning', D + ':minimum_eigenvalue_method')], (), ['covariance_matrix'])
p('C15', 'The fit is the generalised least-squares posterior',
  "The gradient and intercept samples follow the normal posterior of the generalised least-squares straight line through the estimates at the intervals of at least start_dt, with the reported covariance matrix and no negative gradient: their mean, spread and correlation are the closed-form ones up to sampling noise, whenever the reported covariance matrix can be inverted in double precision (condition number up to about 1e10). Only intervals of at least start_dt count and all of those do; without an intercept the line passes through the origin and no intercept is reported; the number of samples is the requested number of steps divided by the thinning, times the number of walkers.",
  ['inputs', 'configurations'], 'all data, start times, model and condition options, with and without intercept, sampler settings',
  'Tests check the number of samples and that values are positive.',
  [D], [('likelihood and sampling', D + ':bootstrap_GLS')], (), ['gradient, intercept, flatchain'])
p('C16', 'Transport coefficients carry the right units and factors',
  "Every sample of the self-diffusion coefficient is the gradient (square angstrom per picosecond) over twice the number of analysed dimensions in square centimetres per second, of the jump-diffusion coefficient the same divided by the number of mobile atoms, and of the conductivity the gradient of the charge displacement over twice the number of dimensions times e squared over volume, Boltzmann constant and temperature, in millisiemens per centimetre. This holds for all axis choices, numbers of atoms, temperatures, volumes and numbers of replicas, after each refit and each reload.",
  ['inputs', 'configurations', 'histories'], 'all axis choices, atom numbers, temperatures, volumes, replicas, refits',
  'Tests check that a coefficient exists and is positive.',
  [D, DA, JA, CA], [('conversions', D + ':diffusion, jump_diffusion, conductivity')], (), ['D, D_J, sigma'])
p('C17', 'A fit depends only on its data and arguments',
  "The outcome of a fit depends only on the data, the arguments and the random state: it is the same whatever fits, failed calls, predictions, saves or other objects came before, and equal seeded random states give equal results. A fit never changes the estimates it is based on, every result of an analysis object describes its last successful fit, and a call that fails leaves the previous results and settings in place.",
  ['histories', 'inputs'], 'all sequences of fits (any options), failed fits, predictions, conversions, saves and loads on any number of objects',
  'Tests fit a fresh object once; histories are not explored.',
  [D, DA, JA, CA], [('state replaced by each fit', D + ':bootstrap_GLS, diffusion, jump_diffusion, conductivity')], (), ['dictionaries of analyzer and bootstrap objects'])
p('C18', 'Saving and restoring loses nothing',
  "An analysis written to a file or dictionary at any point of its life (before or after fits, with any options, with any number of intervals) and restored gives an object with the same data and results, which behaves the same in further fits, predictions and saves. The file is the given name with its extension, if any, replaced by .hdf, in the given directory; an existing file is never overwritten or changed, and the attempt is an error.",
  ['histories', 'inputs', 'configurations'], 'all histories of builds, fits, saves, loads and dictionary round trips, all file names, all analysis classes and options',
  'Tests of saving need a missing fixture or cover one default object; further use of restored objects is not tested.',
  [A, D, DA, JA, CA], [('HDF5 tree', A + ':save, load, _dict_to_group, _group_to_dict'), ('dictionaries', D + ':to_dict, from_dict')], (), ['files', 'dictionaries of restored objects'])
p('C19', 'Predictions and derived samples describe the fitted line',
  "The posterior predictive samples are, for each drawn posterior sample, draws from the normal distribution with that sample's straight line as mean and the fit's covariance matrix, at exactly the fitted intervals, in the requested numbers. The credible-interval samples are each posterior line evaluated at all reported intervals, and the exposed chain pairs each transport coefficient sample with the intercept sample of the same posterior sample; all of this works with and without an intercept and on restored objects.",
  ['inputs', 'configurations', 'histories'], 'all fits and sample numbers, with and without intercept, three analysis classes, before and after reload',
  'Tests check the shape of one prediction.',
  [D, A, DA, JA, CA], [('posterior_predictive', D), ('distribution', A), ('flatchain', DA)], (), ['posterior_predictive, distribution, flatchain'])
p('C20', 'Temperature dependence follows the Arrhenius laws',
  "The Arrhenius and super-Arrhenius (VTF) models evaluate prefactor times exp(-E/(kT)) and exp(-E/(k(T-T0))) with E in electronvolt, at any temperatures; extrapolation and credible intervals evaluate exactly this for every sample of the chain; the reported parameters are the chain's columns under their names. Each object uses the bounds it was given or the documented defaults derived from its own data, whatever other objects were created before, and never changes its arguments.",
  ['inputs', 'histories'], 'all temperatures, parameters, bounds, histories of created objects',
  'Tests evaluate one or two points and one object at a time.',
  [AR], [('models', AR + ':arrhenius, super_arrhenius'), ('bounds', AR + ':SuperArrhenius.__init__')], (), ['function values, extrapolate, distribution, bounds'])
p('C21', 'Input data is never modified',
  "No operation changes what the caller passed in: trajectories, universes, coordinate and displacement arrays, index lists, masses, charges, option dictionaries, bounds and dictionaries to restore from are the same after any call, successful or not, so that using them again gives the same result. Nor does an analysis change because of another analysis of the same input.",
  ['inputs', 'histories'], 'all inputs and options of all constructors, fits, predictions and restores, repeated use of the same input',
  'No test looks at its input after a call.',
  [P, D, A, AR], [('copies and new arrays', P), ('no in-place change', D)], (), ['arguments before and after each call', 'results of repeated calls'])
p('C22', 'The memory limit is enforced before the work',
  "A job whose displacement arrays would need more memory than the given limit is refused with a memory error naming the limit, and a job whose arrays fit is never refused; the amount is that of all multi-origin displacement observations of the selected atoms (each entry in its floating-point size), independent of framework atoms. The limit changes only whether the job runs, never its results.",
  ['inputs', 'configurations'], 'all trajectory sizes, selections, interval settings and limits, in particular limits just above and below the need',
  'Tests try one limit far below the need.',
  [P], [('estimate and check', P + ':get_disps')], (), ['MemoryError', 'displacements'])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'properties.jsonl')
with open(out, 'w') as f:
    for x in props:
        assert len(x['title']) <= 80, x['title']
        f.write(json.dumps(x) + '\n')
print(len(props))
