"""Per property: (technique, how it is decided, why the tests cannot)."""
D = {
'C01': ('property-based testing against an independent reference model',
 'Generated latitudes/longitudes (zone borders, equator, antimeridian, tiny offsets around them), explicit neighbouring zones, every container and mixtures of them. Oracle: a Krueger-series transverse Mercator written here (no PROJ), the 6-degree zone rule, the false northing by sign of latitude; round trip; element-wise agreement of containers; error for unequal lengths.',
 'coordinates are a continuum; the tests compare a handful of European and US points'),
'C02': ('property-based testing: reference model, round-trip, continuity',
 'Origins near zone borders, the equator and the antimeridian with targets on either side and optional explicit zones. Oracle: the same Krueger reference in one fixed zone and one fixed false northing per origin; inverse function; ellipsoid radii formula for the flat conversion, with wrapped longitude difference; zero at the reference; container agreement.',
 'straddling a border needs specific origin/target pairs'),
'C03': ('property-based testing: algebraic laws and reference formulas',
 'Vectors of every container and magnitude. Oracle: plane geometry by complex arithmetic, laws (length, inverse, additivity, scale invariance), container/index/column preservation.',
 'laws quantify over all vectors and containers'),
'C04': ('property-based testing: defining equations and row metamorphic relations',
 'Matrices of vector pairs with axis-aligned, ill-scaled and exactly parallel rows mixed. Oracle: both dot-product equations, independence of rows, symmetry under exchange, non-finite parallel rows.',
 'row independence only shows with mixed good and degenerate rows'),
'C05': ('property-based testing: direct definition and metric laws',
 'Sites x times (irregular steps, duplicates, tz, changes of the clock, fractional, negative speeds of direction); dozens of sites and thousands of times. Oracle: the distance written entry by entry; symmetry, diagonal, triangle inequality; zeros for pairs built to be connected by the drift.',
 'ordering and unit errors need irregular times and more than two sites'),
'C06': ('property-based testing: defining sum and laws',
 'Short explicit and long pseudo-random signals, equal and unequal lengths, all scalings. Oracle: O(n^2) sliding sum with the documented sign and normaliser, full lag range; bound 1, auto-correlation, invariance to gain/offset, mirror on exchange; rejected scalings; the multi-pair FFT form pair by pair.',
 'lag sign/normaliser slips hide on symmetric or equal-length samples'),
'C07': ('property-based testing against a reference Welch estimator',
 'Lengths, averages, overlaps, windows, detrending, scaling, column pairings, labels. Oracle: a segment-by-segment Welch estimate written here; coherence bounds; column pairing; rejection.',
 'parameter combinations and pairings are a large product space'),
'C08': ('property-based testing: reference interpolation, algebraic laws',
 'Irregular and unsorted frequency axes, Series/frames, phases near the wrap limit. Oracle: linear interpolation of magnitude and unwrapped phase; identity at nodes; pure-delay exactness; no extrapolation; delay laws; cleanfreq touching one index entry only.',
 'unwrapping errors need particular phase steps'),
'C09': ('property-based testing: reference fit, metamorphic masks',
 'Random spectra with limits placed on and between bins, None limits, omitted arguments (the documented defaults), NaN columns, each method. Oracle: the admitted bin set by definition, a closed-form zero-intercept fit over it, insensitivity to anything outside it, column independence.',
 'bin admission at the limits and column independence need constructed spectra'),
'C10': ('property-based testing: brute-force correlation oracle, differential modes',
 'Pairs, N-N, 1-N, odd/even lengths, both modes, tz, dead columns, transients anywhere in the record (so that the best lag lies anywhere in the full range), hundreds of columns. Oracle: argmax of the brute-force correlation where unique; values at that lag; shift recovery; loop vs fft vs single pair; column independence.',
 'agreement of two implementations over all shapes'),
'C11': ('property-based testing: compositional differential',
 'Random pairs/batches and settings, given or left to their documented defaults, hundreds of columns. Oracle: own Welch estimate + the definition of the delay; batching/permutation metamorphic relation; recovery of sub-sample shifts; deprecated wrapper equality.',
 'batching relations are not sampled by tests'),
'C12': ('property-based testing: direct definition, symmetry relations',
 'Centers, widths, shapes, reference, dx, domain; layouts in lat/lon or planar form. Oracle: union of windows; the plant-weighted mean of exp(-2 pi i f x/v) at every returned frequency; Hermitian symmetry, reversal, dependence on projected distance only.',
 'phase reference errors need centers away from the sampled defaults'),
'C13': ('property-based testing: frequency-domain definition, exact special filters',
 'Series and frames, odd/even lengths, filters on other grids. Oracle: own FFT multiplication with interpolated magnitude/phase; unity, gain, rotation filters; linearity; rejection; Marcos formula.',
 'odd/even length and grid mismatches'),
'C14': ('property-based testing: definitions and inequalities',
 'Pairs of sequences in all containers with missing samples and (mis)aligned indices. Oracle: definitions; identities and inequalities.',
 'identities over all inputs'),
'C15': ('property-based testing: definitions written from the publications',
 'Series/frames, sampling periods including fractional, taus, moving average, percent, normalisation. Oracle: brute-force definitions with binning by sample period.',
 'fractional and non-unit sampling periods are not sampled'),
'C16': ('property-based testing: brute-force window oracle and causality relation',
 'Multi-day series with gaps, whole missing days, tz and changes of the clock, sub-second and odd sampling, several windows and quantiles. Oracle: quantile of same-time samples on the n preceding days; changing the same or later days does not change the value.',
 'look-ahead needs a perturbation of future data'),
'C17': ('property-based testing: definition over containers',
 'Zeros, negatives, infinities, NaN, tiny clear-sky values, bounds; all containers. Oracle: the clipped ratio by cases.',
 'mixture of special values by container'),
'C18': ('property-based testing: optimality oracle and synthetic advecting fields',
 'Site clusters under generated advecting patterns (noise, jitter, pulses), both methods and backends. Oracle: closed-form minimal variance direction (2x2 eigenproblem) and velocity percentiles; least squares slowness; ground truth of the generated field; pair tables vs brute-force correlation; the output object lists all of its members, method statistics included.',
 'optimality of a numeric search and truth recovery over all geometries'),
'C19': ('property-based testing: reference model of the documented rules',
 'Clusters with dead, overcast, constant, NaN, duplicate sites; noise that places the correlations of many pairs between the levels; values graded around every limit; hundreds of pairs; options and references. Oracle: pair enumeration, the flag decision list evaluated independently, all-bad rule, rejections.',
 'flag precedence and option handling form a decision table over data'),
'C20': ('property-based testing: metamorphic relations',
 'One generated problem and its transformed twin: translation, rotation, scaling, renaming, reordering, extra columns, tz, start time, dead sensors, sampling period.',
 'relations between two runs are outside example tests'),
'C21': ('property-based testing: near-optimality against a fine grid, invariances',
 'Sets of vectors in quadrants, signs, lengths, labels, n. Oracle: distinct valid positions, mean alignment within 0.01 of the best over all rotations, which is found exactly as the alignment is piecewise sinusoidal in the rotation; invariance under sign, length and labels.',
 'optimality over all vector sets'),
'C22': ('property-based testing: solving the published equations independently',
 'Plants with two winds, all modes, downselections, zones, permuted columns, plans with additional or reordered columns. Oracle: tables from the averaged transfer functions, selection rule, the 2x2 solve; true location of a mislabelled reference; translation and column-order relations.',
 'selection and alignment errors need permuted columns and ties excluded'),
'C23': ('property-based testing (model-based): permutations as functions',
 'Partial and complete remaps, frames with columns, sequences of remaps cascaded left and right. Oracle: dictionary model with simultaneous semantics; composition; identity; inverse.',
 'composition laws over histories of remaps'),
'C24': ('property-based testing: brute-force optimum',
 'Small layouts with missing predictions, extra columns, ties. Oracle: exhaustive minimum over permutations (or cost equality), fixed points, consistent table.',
 'global optimality'),
'C25': ('property-based testing: metamorphic relations over random streams',
 'Layouts, times, winds, parameters, seeds and options, without a seed, and other calls (same sizes, other parameters) in between. Oracle: shape, reproducibility, isolation from global random state, relation between options, frozen-cloud delays built on grid-aligned sites, shift invariance.',
 'relations between runs of a random generator'),
'C26': ('property-based testing: deterministic formulas and statistical tests with 1e-9 limits',
 'Generated parameters (the published ones, perturbed and arbitrary) and means. Oracle: published formulas; Kolmogorov distance of samples; normal-score correlation of independent pairs against the exponential law; Kolmogorov distance in the tails, joint quadrant frequencies of site pairs, and one million samples per parameter set (precise).',
 'distributions cannot be sampled by one seeded example'),
'C27': ('property-based testing: differential multi vs single',
 'Every combination of once/per-hour arguments in each container, uneven time indices. Oracle: concatenated single-hour calls; rejection of every wrong length.',
 'the product of argument forms'),
'C28': ('property-based testing: recomputed statistics',
 'Series of several kinds, thresholds, periods. Oracle: definitions; wavelet modes as differences of centred averages; weight laws.',
 'definitions over all series'),
'C29': ('property-based testing: structural oracles for each ingredient and the whole field',
 'Sizes, scales, weights, fractions, means, both scalings, seeds. Oracle: noise reconstructed as an interpolation, linearity in weights, clear fraction, edge neighbourhoods, mean/maximum where attainable, size and reproducibility.',
 'attainability borders and shapes are continuous'),
'C30': ('property-based testing: direct indexing and advection relation',
 'Fields, positions inside pixels, speeds, durations. Oracle: the slice by definition; shift along the wind; default duration.',
 'positions/speeds are continuous'),
'C31': ('property-based testing: cell-by-cell reference model',
 'Tables with generated run lengths around the limit, flags of several types, fill values. Oracle: per-cell definition; untouched cells bitwise equal; column independence; time reversal; idempotence.',
 'run-length boundary cases; no tests exist'),
'C32': ('stateful property-based testing on scratch files',
 'Generated netCDF files in the HOPE layout; histories of conversions with added and replaced files, existing targets (junk or h5) and overwrite choices. Oracle: in-memory model of the expected tables after each step; byte equality of protected targets; open file handles of the process.',
 'histories of conversions; no tests exist'),
'C33': ('property-based testing on scratch files',
 'Generated CSV directories (several sensors, gaps, long pauses, off-grid times, extra files, up to dozens of sensors). Oracle: last-earlier-sample table on the 10 ms grid per sensor, coordinates, keys, unchanged sources; repeated runs over a directory whose files are exchanged.',
 'no tests exist'),
'C34': ('stateful property-based testing with injected transfer faults (loopback server, scratch directories)',
 'Directory contents; nested paths; histories of creating, removing and listing; scripts with existing, missing, repeated files over file:// and a loopback HTTP server that truncates, drops or refuses single transfers. Oracle: directory model after every step; no incomplete content under a final name; no second request.',
 'interruptions and repetitions are histories'),
'C35': ('stateful property-based testing: random call histories over shared inputs',
 'Histories of up to 10 calls out of 84 calls (including documented failures) on two worlds of shared inputs, some of which differ from one another only in a few values (twins), and inputs that the caller updates in place between calls. Oracle: snapshots of every input, numpy error state and print options, pandas options, warning filters, random states, environment after each call; every result equals that of the same call alone in a freshly imported package; earlier results stay as they were, also after the user overwrites other results.',
 'needs histories, tests call functions on fresh inputs'),
'C36': ('property-based testing on the drawn artists (Agg)',
 'Axes of all scale combinations with existing artists; point clouds in several containers including values on bin borders. Oracle: labels and marks at the nine frequencies, untouched artists and limits; offsets equal the data, under different default colour maps and other rcParams, which are left alone; histogram mass equals the number of points, bar by bar.',
 'no tests exist'),
'C37': ('stateful property-based testing of the program with injected transfer faults (scratch directories, stand-in archive and answers)',
 'Histories of up to four runs of the script with drawn options, campaign spelling, overwrite answers, newly published and renewed files and one broken transfer each. Oracle: model of the target directory after every run (bytes of the archive files, tables of the files the summary was made from, cell-by-cell quality rules), requests made, files that must stay equal.',
 'outcome depends on the history of runs; no tests exist'),
'C38': ('property-based testing of whole workflows against the generated truth',
 'Plants on drawn layouts below a rigid pattern under two winds, permuted labels, earlier remappings, all correlation modes; plants in metres or degrees with a camfilter of drawn velocity and length, periodic signals. Oracle: the permutation and the pattern that were generated; a second survey must be the identity; the mean of the delayed signals.',
 'sign and direction conventions of several steps must agree; each alone can look fine'),
}
