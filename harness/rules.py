"""Per property: what the cases of a check are, and what is left open.  Used in the evidence and in MANIFEST.json."""
T = 'TLA+ specification, TLC: exhaustive small model + '
RULES = {
 'C01': (T + 'replay of its paths and trace validation of recorded parser runs (Pipeline.tla)',
   'cases: every step history of the ring model MC_Unwrap (rings of 3-5 sites, 4 frames; thorough more) packed into trajectories and replayed through the ASE, pymatgen and MDAnalysis readers, plus seeded random histories in cubic, orthorhombic, triclinic, rotated and changing cells, images and lattice shifts. Non-trivial: at least one boundary crossing or a changed cell. Every recorded displacement is compared with the exact-rational specification.'),
 'C02': (T + 'replay and trace validation of recorded parser runs (Pipeline.tla)',
   'cases: every history of MC_Drift (three particles, all small displacements, all frameworks) replayed through the base parser (a seeded sample in quick), plus random trajectories with default, listed, empty and overlapping frameworks and common motions through the readers.'),
 'C03': (T + 'replay and trace validation of recorded parser runs (Pipeline.tla)',
   'cases: selections of MC_Select (all species orders of up to 4 atoms, selections by name, names, indices, frameworks, atom sub-sampling; a seeded sample in quick) replayed through the three readers, plus larger random mixtures through the five input routes. Displacements identify the atoms: every atom moves differently.'),
 'C04': (T + 'replay and trace validation of recorded parser runs (Pipeline.tla)',
   'cases: moves of MC_Mol (all molecules of up to 3 atoms spanning up to 3 of 7 sites, masses, start and end positions) packed into trajectories and replayed, plus random molecules of 1-5 atoms anywhere in the cell, masses, frameworks, wrong arguments.'),
 'C05': (T + 'replay and trace validation of recorded time axes (Pipeline.tla)',
   'cases: option combinations of MC_Intervals (lengths, min_dt, max_dt, n_steps, both spacings; a seeded sample in quick) through the base parser with awkward time steps, plus random options through readers with step skips and sub-sampling. Exact rational ideal values; a value within 1e-7 of a whole number may be rounded either way.'),
 'C06': (T + 'replay and trace validation of every recorded window (Pipeline.tla)',
   'cases: option combinations of MC_Intervals and random ones through the base parser and the five input routes, both samplings; displacement arrays of up to 400 entries are compared completely, larger ones at corners and a random sample.'),
 'C07': (T + 'trace validation of recorded counts and variances (Pipeline.tla, Estim.tla)',
   'cases: random lengths, intervals, samplings, sub-samplings, atoms, replicas for parsers and the three analysis classes; counts against the exact definition, variances against the sample variance over the count.'),
 'C08': (T + 'trace validation of recorded runs on cut and replicated trajectories (Pipeline.tla, Estim.tla)',
   'cases: all five input routes x three classes x both modes with random cuts (2-4 parts) and 2-4 replicas, per round; unknown modes for every route and class.'),
 'C09': (T + 'trace validation: one specification state, five recorded routes (Pipeline.tla, Estim.tla)',
   'cases: random trajectories with random shared options, each given in all five formats; every route is compared with the same specification values.'),
 'C10': (T + 'replay and trace validation of recorded estimates (Estim.tla)',
   'cases: every data set of MC_Estim (two atoms, two observations of five directions) replayed through the real classes for varying axes, plus random data, sub-samplings, blocking and whole analyses from trajectories; all numbers exact to 1e-9.'),
 'C11': (T + 'replay and trace validation of recorded estimates (Estim.tla)',
   'as C10 for the total and charge displacement, with scalar, per-ion, negative and zero charges.'),
 'C12': (T + 'trace validation of all per-interval results at once (Estim.tla)',
   'cases: random data whose values differ between intervals, with sub-samplings from 1 to beyond the data, omitted intervals, resampling, blocking, dictionaries and files.'),
 'C13': (T + 'every behaviour of the resampling loop replayed with a scripted normality test, natural runs validated (Resample.tla)',
   'cases: every path of MC_Resample (4 initial, 7 maximum numbers; all outcomes of the test) forced on the real loop, natural runs with integer data (so that each resampled value times the draws must be a whole number), moments of long runs within 6 sigma, seeds repeated.'),
 'C14': (T + 'trace validation of recorded covariance matrices (Fit.tla)',
   'cases: random variances and counts (random-walk, increasing, flat, indefinite), starts at, between and one float beside intervals, conditions from 2.5 to 1e16, both variance options, refits, and matrices from trajectories; the largest eigenvalue is certified by two exact definiteness tests.'),
 'C15': (T + 'trace validation of recorded posterior samples against the exact closed form (Fit.tla)',
   'cases: random estimates and settings; full chains are compared in mean, spread and correlation with the closed form (tolerance from the effective sample size, about 6 sigma), short ones in number, sign and presence of the intercept. Matrices with condition above 1e10 are not judged in the mean and spread.'),
 'C16': (T + 'trace validation of recorded coefficients, sample by sample (Fit.tla)',
   'cases: three classes, axes, atoms, temperatures, volumes, replicas, refits, reloads, and the bootstrap classes directly.'),
 'C17': (T + 'histories from TLC -simulate replayed on the real objects and validated step by step (Session.tla)',
   'cases: random behaviours (24 operations: build, fit, failing fit including interrupts at random lines, predict, save, load, dictionaries, unrelated objects) of Session.tla over 18 inputs and 4 argument sets; after every step each object is compared with a reference object built and fitted alone in a new process.'),
 'C18': (T + 'histories from TLC -simulate replayed on the real objects and validated step by step (Session.tla)',
   'as C17, judged on restored objects, file names, refused overwrites and unchanged files.'),
 'C19': (T + 'trace validation of recorded predictions and derived samples (Fit.tla)',
   'cases: predictions with few, well separated posterior samples so that each draw shows its line; numbers and columns exact, moments within 6 sigma; chain and lines sample by sample, with and without intercept, before and after reload.'),
 'C20': (T + 'trace validation of recorded model values, chains and bounds (Arrhenius.tla)',
   'cases: histories of 2-4 objects of both models with default, given and shared bounds, observed after all exist; functions, extrapolations and credible lines against an exact-rational exponential.'),
 'C21': (T + 'trace validation of call histories on shared inputs (Inputs.tla); an aliasing variant of the model must be refuted',
   'cases: histories of 7-11 calls (parsers, analyses, bootstraps, fits, failing calls, predictions, restores, Arrhenius models) on one set of inputs in one of five formats; contents of all inputs and all live objects are compared after every call, repeated calls with the first.'),
 'C22': (T + 'trace validation of refusals and results around the limit (Pipeline.tla)',
   'cases: random sizes, selections and intervals for single and double precision with limits just above, just below and far from the exact need.'),
}
TRUST = ['TLC and the exact-rational Java override BigRat (self-tested by MC_BigRat) evaluate the specification correctly',
         'floating-point results are compared as the decimals repr() gives, within the tolerance stated in the specification',
         'ASE, pymatgen, MDAnalysis, numpy, scipy, emcee, uravu and h5py behave as documented']
