"""Writes properties.jsonl (the source of the property texts)."""
import json, os
S = 'src/solarspatialtools/'
P = []


def prop(pid, title, statement, over, qtext, why, files, mech, observe,
         state=None):
    d = {'id': pid, 'title': title, 'statement': statement,
         'quantifier': {'over': over, 'text': qtext}, 'why_tests_cant': why,
         'anchors': {'files': [S + f for f in files],
                     'mechanism': [{'name': n, 'where': S + w}
                                   for n, w in mech],
                     'observe_at': observe, 'hook_needed': None}}
    if state:
        d['anchors']['state'] = [{'name': a, 'meaning': b, 'where': S + c}
                                 for a, b, c in state]
    P.append(d)


I, H, C = 'inputs', 'histories', 'configurations'

prop('C01', 'UTM conversion is the WGS84 projection and round-trips',
     'Converting any latitude/longitude to UTM yields the WGS84 transverse Mercator easting and northing in the 6-degree zone that contains the longitude (or in the explicitly requested zone), with the 10,000 km false northing exactly for negative latitudes, and reports that zone. Converting the result back with that zone and hemisphere returns the original coordinates. Scalar, list, tuple, array and pandas inputs give the same numbers element by element, in order and under the input index, and inputs of unequal length are rejected.',
     [I, C], 'Every latitude in [-84, 84] and longitude in [-180, 180] including zone edges, equator and antimeridian, every nearby explicit zone, every container type and mixture of zones and hemispheres in one call.',
     'The tests convert a few European and US points and compare with stored numbers; zone edges, mixed hemispheres in one array, explicit neighbouring zones and containers are a continuum of inputs they sample in a handful of places.',
     ['spatial.py'], [('zone choice from longitude', 'spatial.py:_calc_zone'), ('element-wise projection', 'spatial.py:latlon2utm, utm2latlon')],
     ['spatial.latlon2utm', 'spatial.utm2latlon'])

prop('C02', 'Local coordinate systems are one consistent projection per origin',
     'The local coordinate system places every target at its UTM offset from the origin within a single projection (the zone of the origin, or the requested zone), continuously across zone borders and the equator, and the inverse function returns the target latitude and longitude. The flat-earth conversion gives the documented ellipsoidal-radius offsets (or the local transverse Mercator projection) relative to the reference, is zero at the reference and behaves the same everywhere including across the antimeridian, for scalar, array and pandas inputs alike.',
     [I, C], 'All origins and all targets within a few hundred kilometres, with and without explicit zone, both flat-earth methods, all container types.',
     'The tests use one origin and offsets of 40 m, so a target in another zone or hemisphere, an explicit zone that differs from the origin\'s own, or a curvature error is never exercised.',
     ['spatial.py'], [('shared zone for origin and target', 'spatial.py:latlon2lcs, lcs2latlon'), ('radii of curvature', 'spatial.py:lla2flat')],
     ['spatial.latlon2lcs', 'spatial.lcs2latlon', 'spatial.lla2flat'])

prop('C03', 'Planar vector operations obey Euclidean geometry',
     'Dot product, magnitude, unit vector, polar conversion, rotation, projection onto a direction and reference-to-site vectors agree with Euclidean plane geometry: unit vectors have length one and keep direction, polar conversion is invertible with angles in [-pi, pi], rotations preserve lengths and compose additively, and projection depends only on the direction (not length) of the direction vector. Results keep the documented container, order, index and column names of the input.',
     [I, C], 'All finite vectors over many orders of magnitude, all angles, any number of sites, tuple, list, array, Series and DataFrame inputs, references with extra columns.',
     'The tests evaluate a few axis-aligned or 45-degree vectors; the laws are universally quantified over vectors, angles and container types.',
     ['spatial.py'], [('vector helpers', 'spatial.py:dot, unit, magnitude, rect2pol, pol2rect, rotate_vector, project_vectors, compute_vectors')],
     ['spatial.dot', 'spatial.unit', 'spatial.magnitude', 'spatial.rect2pol', 'spatial.pol2rect', 'spatial.rotate_vector', 'spatial.project_vectors', 'spatial.compute_vectors'])

prop('C04', 'Intersection point satisfies both perpendicular constraints',
     'For every pair of non-parallel vectors A and B the computed intersection C satisfies C.A = |A|^2 and C.B = |B|^2, i.e. it lies on both perpendicular lines. Each row is computed independently of the others, swapping A and B does not change the result, and a parallel pair yields a non-finite row without affecting the rest.',
     [I], 'All batches of vector pairs of any size, magnitude and relative angle, including parallel, antiparallel and axis-aligned pairs.',
     'Tests check a couple of hand-computed pairs; the defining equations must hold for every angle and scale.',
     ['spatial.py'], [('closed-form linear solve', 'spatial.py:compute_intersection')], ['spatial.compute_intersection'])

prop('C05', 'Space-time distance is the drift-corrected site separation',
     'The entry for (site i, time s) and (site j, time t) equals the length of the separation of the sites minus the cloud displacement between the two times, ordered site-major as documented. The matrix is symmetric with zero diagonal, obeys the triangle inequality, and is zero for exactly those pairs that are connected by the moving cloud field.',
     [I], 'Any number of sites and times, regular or irregular time stamps of any timezone, any cloud speed (including zero) and direction.',
     'Tests fix two or three sites and one wind; ordering or sign errors cancel for symmetric layouts, so only asymmetric generated layouts decide the law.',
     ['spatial.py'], [('drift subtraction and flattening order', 'spatial.py:spacetime_distances')], ['spatial.spacetime_distances'])

prop('C06', 'Cross-correlation equals its defining sum for every scaling',
     'For every lag the cross-correlation equals the direct sliding sum of products of baseline and estimation under the documented sign of the lag, divided by the documented normaliser of the chosen scaling, and the returned lags are the full range of shifts. Under coefficient scaling equal-length signals give values within [-1, 1], exactly 1 at lag zero for a signal with itself, and are unaffected by offsets and positive gains; swapping the signals mirrors the lags; unknown scalings are rejected, and the multi-pair FFT form does the same pair by pair.',
     [I, C], 'All pairs of equal or unequal length real signals (arrays and Series), all five scalings in any letter case; tables of several pairs.',
     'Tests use a few sinusoids and compare only selected lags; every lag of every signal pair matters.',
     ['signalproc.py'], [('scaling branches', 'signalproc.py:correlation'), ('several pairs', 'signalproc.py:_fftcorrelate')], ['signalproc.correlation'])

prop('C07', 'Spectral estimates are the Welch averages that were requested',
     'Averaged power spectra, transfer functions and coherence equal the Welch estimates for the requested number of averages, overlap, window, detrending and scaling, on the frequency axis implied by the sampling period, with transfer function = cross spectrum from input to output over input spectrum. Column pairing (N-to-N, 1-to-N, N-to-1), labels and order follow the inputs, Series and single-column frames agree, coherence stays within [0, 1] and incompatible column counts are rejected.',
     [I, C], 'All signals, lengths, sampling periods (including sub-second), navgs, overlaps, windows, detrend modes, scalings and column layouts.',
     'The tests check tones and white noise at default settings; dropped arguments, wrong conjugation or pairing only show for particular configurations and asymmetric data.',
     ['signalproc.py'], [('PSD', 'signalproc.py:averaged_psd'), ('TF and coherence', 'signalproc.py:averaged_tf')], ['signalproc.averaged_psd', 'signalproc.averaged_tf'])

prop('C08', 'Transfer function interpolation and delay application are faithful',
     'Interpolating a transfer function interpolates magnitude and unwrapped phase linearly in frequency, returns the original values at original frequencies whatever the order of the index, keeps the input type and columns, reproduces a pure delay exactly, and refuses to extrapolate. Applying a delay multiplies by exp(-2 pi i f tau): magnitudes are unchanged, successive delays add and zero delay is the identity; frequency clean-up only blanks the wrap point of the index.',
     [I], 'All complex transfer functions on sorted or FFT-ordered frequency axes, any query frequencies within range, any delay, Series and DataFrames.',
     'Tests interpolate one synthetic filter at a few points; phase wrapping and index ordering problems depend on the data.',
     ['signalproc.py'], [('magnitude/phase interpolation', 'signalproc.py:interp_tf'), ('phase rotation', 'signalproc.py:apply_delay'), ('display cleanup', 'signalproc.py:cleanfreq')],
     ['signalproc.interp_tf', 'signalproc.apply_delay', 'signalproc.cleanfreq'])

prop('C09', 'Phase-based delay estimation uses exactly the admitted bins',
     'The delay derived from a transfer function is the zero-intercept fit of the unwrapped phase slope over precisely the frequency bins that are below the frequency limit and above the coherence limit (all bins for a limit of None), and the returned mask marks exactly those bins. A pure delay is recovered by every method, each column of a multi-column fit is independent of the others, bins outside the mask do not change the fit, columns without data give NaN, and unusable requests are rejected or reported as NaN.',
     [I, C], 'All transfer functions, coherences, limits (including None and values hit by no bin), methods and column counts.',
     'Tests recover a few fixed delays with full coherence; the interplay of masks, unwrapping and several columns is input dependent.',
     ['signalproc.py'], [('mask and fits', 'signalproc.py:tf_delay')], ['signalproc.tf_delay'])

prop('C10', 'Cross-correlation delays are the true peak lags',
     'The delay between two time series is the lag that maximises their cross-correlation, in seconds and positive when the output lags the input, and the reported peak, mean and zero-lag correlations are the values of that same correlation, one per pair. A series and its copy shifted by whole samples give exactly that shift; loop and fft modes agree with each other and with the single-pair function, and each column pair is unaffected by the contents of other columns.',
     [I, C], 'All signal pairs, shifts of either sign, sampling periods, numbers of columns, both modes and scalings, including NaN or constant columns beside valid ones.',
     'Tests use a few shifts on one signal and never compare the extras of the two modes for all columns.',
     ['signalproc.py'], [('single pair', 'signalproc.py:xcorr_delay'), ('many pairs', 'signalproc.py:compute_delays')], ['signalproc.xcorr_delay', 'signalproc.compute_delays'])

prop('C11', 'Transfer-function delays are consistent with their building blocks',
     'Pairwise transfer-function delays equal the phase delay of the averaged transfer function of each pair under the given settings, with the mean coherence below the frequency limit, the mask of used bins, and (on request) the cross-correlation sampled at that delay plus its mean and zero-lag values. Results do not depend on how pairs are batched or ordered, sub-sample shifts of a broadband signal are recovered, the deprecated wrapper returns the same numbers and incompatible shapes are rejected.',
     [I, C], 'All signal sets, single-to-many, many-to-single and pairwise layouts, both fit methods, window/overlap/limits, NaN columns.',
     'Tests cover a handful of shapes and shifts; batching, ordering and settings propagation are universally quantified.',
     ['signalproc.py', 'field.py'], [('composition of averaged_tf and tf_delay', 'signalproc.py:compute_delays_tf'), ('deprecated wrapper', 'field.py:compute_delays')], ['signalproc.compute_delays_tf', 'field.compute_delays'])

prop('C12', 'Cloud advection filter is the response of the moving plant',
     'The one-dimensional plant has the requested density exactly at the requested centers, shapes and widths relative to the reference. The cloud advection filter equals the plant-weighted average of pure travel-time delays x/v at every frequency: unit gain at zero frequency, conjugate symmetric, conjugated when the cloud reverses, and for a single site a pure delay of its distance over speed. The filter for a set of positions depends only on the projected distances to the reference along the wind direction, whether positions are given as latitude/longitude or as planar coordinates.',
     [I, C], 'All site layouts, references, widths, shapes, grid spacings and extents (symmetric or not), wind speeds of either sign and wind directions of any length.',
     'Tests compare with stored or symmetric cases, for which sign and grid-origin errors cancel.',
     ['signalproc.py'], [('plant rasterisation', 'signalproc.py:get_1d_plant'), ('filter synthesis', 'signalproc.py:plant1d_to_camfilter'), ('geometry', 'signalproc.py:get_camfilter')],
     ['signalproc.get_1d_plant', 'signalproc.plant1d_to_camfilter', 'signalproc.get_camfilter'])

prop('C13', 'Filtering a signal is multiplication by the filter response',
     'Filtering a time series multiplies each of its Fourier components by the filter\'s value at that frequency and returns a real series on the same index: a unity filter is the identity, gains scale, whole-sample delay filters rotate the series, filtering is linear, every column of a DataFrame is filtered like a Series, and a filter not covering the signal band is rejected. The Marcos filter is the first-order low-pass of the plant size at the requested frequencies.',
     [I, C], 'All signals of even or odd length, sampling periods, filters with finer, coarser or equal frequency grids, Series and DataFrames, plant sizes and frequency vectors.',
     'Tests filter a few sinusoids with the library\'s own filters; identity, linearity and delay laws are for every signal and filter.',
     ['signalproc.py'], [('frequency-domain filtering', 'signalproc.py:apply_filter'), ('low-pass model', 'signalproc.py:get_marcosfilter')], ['signalproc.apply_filter', 'signalproc.get_marcosfilter'])

prop('C14', 'Error metrics follow their definitions and identities',
     'Bias, absolute and squared error are the element-wise functions of estimation minus baseline, on the index of pandas inputs, and MBE, MAE, MSE and RMSE are their means (root for RMSE). Hence |MBE| <= MAE <= RMSE, RMSE^2 = MSE, swapping the arguments negates only the bias, and all are zero for identical series; missing samples in pandas inputs are ignored.',
     [I], 'All scalar, array, Series and DataFrame pairs, including NaN in pandas inputs.',
     'Tests evaluate one small array; identities hold for every pair of series.',
     ['stats.py'], [('metrics', 'stats.py:rmse, mse, mae, mbe, squared_error, absolute_error, bias_error')], ['stats.rmse', 'stats.mse', 'stats.mae', 'stats.mbe'])

prop('C15', 'Variability metrics equal their published definitions',
     'Variability score is the maximum over ramps of ramp magnitude times the probability of a larger ramp; daily aggregate ramp rate is the sum of absolute ramps; variability index is the ratio of measured to clear-sky path length with time in minutes. The timestep option takes differences over that many samples, or, with moving averages, first averages into bins of that many sampling periods; percent and 1-minute normalisation apply their documented factors, and DataFrame columns are treated independently.',
     [I, C], 'All series with any sampling period (including sub-second), gaps, ties, timezones, timesteps, averaging choices and column counts.',
     'Tests check stored values at 1-second sampling with default options; ties, gaps, fractional periods and option combinations are not reachable by a handful of cases.',
     ['stats.py'], [('metrics', 'stats.py:variability_score, variability_index, darr')], ['stats.variability_score', 'stats.variability_index', 'stats.darr'])

prop('C16', 'Daily quantile profile uses exactly the preceding n days',
     'Each output value is the requested quantile of the values at the same time of day on the n days before that day, ignoring missing samples, and is missing for the first n days; the value never depends on data of the same or later days. The output shares the input index (including its timezone) and is named after the input.',
     [I, C], 'All series and frames over consecutive days, any sampling, window length, quantile, missing samples, timezone, and series too short for the window.',
     'Tests use one synthetic series with a constant daily pattern, for which including a wrong day changes nothing.',
     ['stats.py'], [('rolling day window and pivot', 'stats.py:calc_quantile')], ['stats.calc_quantile'])

prop('C17', 'Clear-sky index is the bounded irradiance ratio',
     'The clear-sky index is irradiance divided by clear-sky irradiance, limited to [0, max_clearsky_index], with negative and non-finite ratios of valid samples set to zero and missing samples left missing. Scalars, arrays, Series and every column of a DataFrame give the same numbers and keep their index and columns.',
     [I, C], 'All irradiance values including zero, negative and missing, any maximum, every container.',
     'Tests use few values with the default maximum.',
     ['irradiance.py'], [('column-wise wrapper', 'irradiance.py:clearsky_index')], ['irradiance.clearsky_index'])

prop('C18', 'Cloud motion estimate is the optimum of the documented model',
     'From the accepted site pairs, the Jamaly method returns the direction minimising the variance of the pairwise velocities, their median as speed and the trend flag from their 40/60 percentiles, and the Gagne method returns the inverse of the least-squares slowness vector, both with non-negative speed and direction in [0, 2 pi]. A field of sites observing one advecting pattern yields the true speed and direction, whichever delay backend is used, and the returned per-pair lags, correlations and distances and the method\'s own statistics are those of the listed pairs. The output object reports every member, also those that are not set.',
     [I, C], 'All site layouts, winds, broadband patterns, label types, sampling periods, both methods and delay backends.',
     'The tests check stored results for a recorded data set and a few synthetic winds; the estimate must be right for every layout and wind.',
     ['cmv.py'], [('estimators', 'cmv.py:compute_cmv')], ['cmv.compute_cmv'],
     [('WindspeedData', 'detailed per-pair result', 'cmv.py:WindspeedData')])

prop('C19', 'Pairs and quality flags follow the documented rules',
     'Exactly the unordered site pairs (including self pairs) that contain a requested reference are evaluated, with vectors from first to second site. Each pair carries the flag prescribed by the documented limits (same site, no signal, no lag, low correlation, overcast, low variation, velocity limit) under the given options or their defaults, only good pairs enter the estimate, fewer than two good pairs give zero speed with the all-bad flag, and unknown methods, backends or options are rejected.',
     [I, C], 'All timeseries including constant, overcast and noisy sensors, all option values, reference selections (none, one, several; string or integer ids), methods.',
     'Tests trigger each flag once with a dedicated signal; precedence, option boundaries and combinations across many pairs are not covered.',
     ['cmv.py'], [('pair selection', 'cmv.py:_get_pairs'), ('pairwise QC', 'cmv.py:_pairwise_qc'), ('option validation', 'cmv.py:_validate_method_options')], ['cmv.compute_cmv'])

prop('C20', 'Cloud motion estimate respects the symmetries of the problem',
     'Translating all sites leaves the estimated cloud motion unchanged, rotating them rotates its direction, and scaling distances scales its speed (within the velocity limits). Renaming sites, reordering time series columns, adding unused columns, time zone or start time of the index, or adding dead (constant or missing) sensors does not change the result, and using half the sampling period doubles the speed.',
     [I, C], 'All layouts, winds, methods and backends and all such transformations.',
     'A test fixes one layout; symmetry relations between pairs of runs are never compared.',
     ['cmv.py'], [('estimator invariance', 'cmv.py:compute_cmv')], ['cmv.compute_cmv'])

prop('C21', 'Chosen motion-vector subset is maximally diverse',
     'The subset selection returns the requested number of distinct positional indices (all of them if fewer are available) whose directions, modulo sign, match a fan of equally spaced directions as well as the best achievable alignment. The choice depends only on directions modulo sign, not on vector lengths, signs or pandas index labels.',
     [I], 'All sets of non-zero vectors, subset sizes, lengths, signs and index types.',
     'Tests check one or two constructed sets.',
     ['cmv.py'], [('assignment and rotation search', 'cmv.py:optimum_subset')], ['cmv.optimum_subset'])

prop('C22', 'Predicted positions solve the two-wind triangulation',
     'The predicted position is the reference position displaced so that its projections on the two cloud directions equal the mean position errors (delay distance minus planned distance) of the points selected by the mode, and the returned tables contain those distances, delays and coherences for exactly the selected points. If delays come from an advecting field the true location is recovered even when the reference is mislabelled; the result follows translations of the plan and does not depend on the column order of the data.',
     [I, C], 'All plans, references, pairs of non-parallel winds, selection modes, subset sizes and delay methods.',
     'The existing static tests need a data file that is absent or pin stored numbers for one plant.',
     ['field.py'], [('selection and averaging', 'field.py:compute_predicted_position'), ('triangulation', 'spatial.py:compute_intersection')], ['field.compute_predicted_position'])

prop('C23', 'Remapping is a lawful relabelling and cascades compose',
     'Applying a remap gives every listed entity the original values of its partner, for all or the selected columns, and leaves everything else and the input itself unchanged, with simultaneous (not sequential) semantics. Cascading two remaps gives the single remap whose application equals applying the first and then the second, sorted by entity; identity and inverse remaps compose accordingly.',
     [I, H], 'All data tables, permutations, partial remaps, column selections, label types, and any sequence of successive remaps.',
     'Tests show three-element cycles, which do not separate composition orders or sequential from simultaneous application.',
     ['field.py'], [('remap application', 'field.py:remap_positions'), ('composition', 'field.py:cascade_remap')], ['field.remap_positions', 'field.cascade_remap'])

prop('C24', 'Position assignment is a minimum-distance permutation',
     'Assigning predicted to planned positions yields a permutation of the entities whose total distance between predicted position and assigned planned position is minimal; entities without a prediction keep their own position and the others are optimally assigned among themselves. The returned table is the original table remapped accordingly, with extra columns following along.',
     [I], 'All layouts, prediction errors, missing predictions, label types and extra columns.',
     'Tests check three points and one swap; optimality and the missing-value path must hold for every geometry.',
     ['field.py'], [('optimal assignment', 'field.py:assign_positions')], ['field.assign_positions'])

prop('C25', 'Copula downscaling gives reproducible, bounded, frozen-cloud series',
     'The synthetic clear-sky index has one row per time and one column per site, is reproducible from its seed and independent of global random state, is non-negative when requested, has exactly the requested mean when scaled, and scaling and clipping only rescale and clip the same underlying field. A downwind site sees the series of the upwind site delayed by distance over cloud speed, and only relative positions and times matter.',
     [I, C], 'All layouts, times, winds, mean values, seeds and option combinations.',
     'Tests check shape and seed equality of one case; frozen advection and the relation between options are relations between outputs for all inputs.',
     ['synthirrad/copula.py', 'spatial.py'], [('field synthesis', 'synthirrad/copula.py:downscale')], ['synthirrad.copula.downscale'])

prop('C26', 'Downscaled fields follow the published statistical model',
     'Unscaled synthetic values are distributed as the two-component Gaussian mixture whose weights, means and deviations are the published functions of the hourly mean, and the Gaussian dependence between two space-time points decays exponentially with their drift-corrected distance at the published rate. The mixture mean equals the requested hourly mean.',
     [I, C], 'All hourly means in the valid range, parameter sets, distances and winds.',
     'The tests verify helper functions at isolated values; the distribution of the public output is never examined.',
     ['synthirrad/copula.py'], [('parameter functions', 'synthirrad/copula.py:_process_params'), ('mixture', 'synthirrad/copula.py:_gmdistribution'), ('copula', 'synthirrad/copula.py:_space_time_copula')], ['synthirrad.copula.downscale', 'synthirrad.copula._process_params'])

prop('C27', 'Multi-hour downscaling is the concatenation of its hours',
     'Multi-hour downscaling returns, in order, exactly the single-hour results for each hour\'s own time index, cloud speed, cloud direction, mean and parameters, where any of these may be given once for all hours or per hour independently of the others. Lists whose length does not match the number of hours are rejected.',
     [I, C], 'Any number of hours and every combination of shared and per-hour arguments.',
     'Tests use all-scalar or all-list arguments; the mixed combinations are the ones that break.',
     ['synthirrad/copula.py'], [('per-hour dispatch', 'synthirrad/copula.py:downscale_multihour')], ['synthirrad.copula.downscale_multihour'])

prop('C28', 'Time series statistics are the statistics of the series',
     'The statistics extracted for cloud field synthesis are the mean, first percentile, maximum, fraction of samples above the clear threshold, scaled variability score, and the normalised mean-square wavelet content per timescale (excluding the steady mode) of the given series, with scales numbered from one. The weights are non-negative and sum to one; a variability score maps to normalised weights that grow with scale and negative scores are rejected.',
     [I, C], 'All clear-sky index series, lengths and thresholds.',
     'Tests check a constant and one random series.',
     ['synthirrad/cloudfield.py'], [('statistics', 'synthirrad/cloudfield.py:get_timeseries_stats'), ('weights', 'synthirrad/cloudfield.py:_calc_wavelet_weights, _calc_vs_weights')], ['synthirrad.cloudfield.get_timeseries_stats'])

prop('C29', 'Synthetic cloud fields honour the requested statistics',
     'A synthetic cloud field has the requested size, is reproducible from the global seed, marks the requested fraction of pixels clear, sets clear pixels to one, keeps cloud-edge enhancement between one and the requested maximum and hits the requested mean whenever that is attainable. Its ingredients are linear interpolations of uniform noise at each scale, weighted as requested, and edges appear exactly around clear/cloudy borders; invalid scaling methods and fractions are rejected.',
     [I, C], 'All weights, scales, field sizes (including non-square), clear fractions, means, maxima, minima and both scaling methods.',
     'Tests check shapes and ranges for one configuration each; attained mean and fraction are relations over all configurations.',
     ['synthirrad/cloudfield.py'], [('field synthesis', 'synthirrad/cloudfield.py:cloudfield_timeseries'), ('stack', 'synthirrad/cloudfield.py:_stack_random_field'), ('mask', 'synthirrad/cloudfield.py:_calc_clear_mask'), ('edges', 'synthirrad/cloudfield.py:_find_edges'), ('scaling', 'synthirrad/cloudfield.py:_scale_field_lave, _scale_field_basic')],
     ['synthirrad.cloudfield.cloudfield_timeseries'])

prop('C30', 'Positional time series are advected samples of the field',
     'The time series at a position is the row of the field at the cross-wind offset, starting at the along-wind offset, both measured in seconds of cloud travel, and has one sample more than the duration. Therefore a site further along the wind axis sees the series of the nearer site shifted by the travel time.',
     [I, C], 'All fields, positions inside them, cloud speeds and durations.',
     'Tests index one position with unit speed.',
     ['synthirrad/cloudfield.py'], [('field indexing', 'synthirrad/cloudfield.py:get_positional_ts')], ['synthirrad.cloudfield.get_positional_ts'])

prop('C31', 'Quality control changes only what it is meant to change',
     'Flag QC blanks exactly the samples whose flag (that of the same station and time) reaches the given level, null QC blanks exactly the fill values, and gap interpolation fills exactly the interior gaps not longer than the limit with linearly interpolated values. Every other sample, including valid data next to gaps and gaps at the ends or longer than the limit, is returned unchanged, per column, with the input untouched.',
     [I, C], 'All data and flag tables, levels, limits and arrangements of missing samples.',
     'There are no tests of the data readers and QC functions at all.',
     ['dataio/hope_campaign.py'], [('QC functions', 'dataio/hope_campaign.py:flag_qc, null_qc, interp_nan')], ['dataio.hope_campaign.flag_qc', 'dataio.hope_campaign.null_qc', 'dataio.hope_campaign.interp_nan'])

prop('C32', 'HOPE files are converted losslessly',
     'Parsing a HOPE file returns every irradiance, flag, timestamp (as UTC) and station coordinate under the right station id, and converting a directory stores the concatenation of all its files in name order under the documented keys, once each. An existing target is replaced only when overwriting is requested and is otherwise left intact with an error. The source files are neither altered nor kept open, and a file that is replaced is read anew.',
     [I, H], 'All file sets (any number of files, stations, samples, ids), target states and overwrite choices, over repeated conversions.',
     'There are no tests of the data readers; losslessness is over all contents and histories of conversions.',
     ['dataio/hope_campaign.py', 'dataio/iotools.py'], [('parser', 'dataio/hope_campaign.py:parse_file'), ('converter', 'dataio/hope_campaign.py:dataset_to_h5')], ['dataio.hope_campaign.parse_file', 'dataio.hope_campaign.dataset_to_h5'])

prop('C33', 'NRCAN files are converted on an even grid without mixing sensors',
     'Converting a directory of NRCAN sensor files stores, per sensor id taken from the file name, the horizontal and tilted irradiance under their documented keys on an even 10 ms grid in UTC-5, each grid time holding that sensor\'s last earlier sample. Site coordinates are stored by id, and location files or non-CSV files in the directory are not treated as sensors.',
     [I], 'All sets of sensors, sample times and values, coordinates, and other files in the directory.',
     'There are no tests of this reader.',
     ['dataio/nrcan_data.py'], [('converter', 'dataio/nrcan_data.py:process_files')], ['dataio.nrcan_data.process_files'])

prop('C34', 'File helpers list, create and fetch exactly what was asked',
     'Listing returns exactly the entries of a directory, restricted to an exact extension match if requested and sorted if requested; ensuring a path creates it with parents and leaves existing content alone. Fetching from a download script stores each listed file byte for byte under its own name, never re-downloads or alters files that already exist, and so is safe to repeat.',
     [I, H], 'All directory contents, extensions, nested paths, download scripts and repetitions or interruptions of a fetch.',
     'There are no tests of these helpers, and idempotence is a property of histories.',
     ['dataio/iotools.py'], [('helpers', 'dataio/iotools.py:getfiles, ensurepath, download, wget_fromurl')], ['dataio.iotools'])

prop('C35', 'Public functions are pure: inputs and global state survive',
     'No public analysis function modifies its arguments (signals, positions, options, parameters; cleanfreq, documented to adjust its signal, excepted) or process-wide state such as numpy error handling or, for functions that are not documented to use it, the global random state. Consequently a call returns the same result whatever calls were made before it.',
     [H, I], 'Any sequence of public calls on shared inputs.',
     'Unit tests call each function on fresh inputs and look only at the return value; in-place changes and call-order effects need histories.',
     ['cmv.py', 'field.py', 'signalproc.py', 'spatial.py', 'stats.py', 'synthirrad/copula.py', 'synthirrad/cloudfield.py', 'dataio/hope_campaign.py'],
     [('defensive copies', 'signalproc.py, stats.py, field.py, cmv.py')], ['all public functions'])

prop('C36', 'Plot helpers draw the data they are given',
     'Annotating a frequency axis adds one labelled mark for each documented timescale at the matching frequency and leaves existing artists alone. The scatter-histogram draws every point once, and its marginal histograms count every point exactly once.',
     [I], 'All finite data vectors and axes (linear or logarithmic).',
     'There are no tests of the plotting helpers.',
     ['visualization/vis_tools.py'], [('annotation', 'visualization/vis_tools.py:annotate_fig'), ('joint plot', 'visualization/vis_tools.py:scatter_hist')], ['visualization.vis_tools'])

prop('C37', 'Campaign tool fetches, converts and controls as asked',
     'Each run of the HOPE program leaves in the target exactly the archive files (each fetched once, complete, never altered), plus the metadata, summary and quality-controlled tables that its options and answers asked for, each holding the files\' content under the documented quality rule. A run that fails (unknown campaign, broken transfer, unknown control) leaves no incomplete or changed table, and a later run completes the work.',
     [H, 'fault_sequences'], 'All sequences of invocations with any options, overwrite answers, archive growth and transfer faults.',
     'The program has no tests, and its outcome depends on the history of earlier runs in the same directory.',
     ['dataio/hope_campaign.py', 'dataio/iotools.py'], [('program', 'dataio/hope_campaign.py:_main, _parse_args'), ('fetch', 'dataio/iotools.py:wget_fromurl, download')], ['python hope_campaign.py'])

prop('C38', 'Workflows recover the layout and the output of a plant',
     'If the labels of a plant are exchanged arbitrarily, predicting every position under two known winds, assigning positions and combining the reassignments names for every label the place its data come from, and a second survey of the corrected layout changes nothing. Filtering one reference signal with the cloud advection filter of a plant gives the mean of what its sites see when the same pattern passes over them at the given velocity.',
     [I, H, C], 'All layouts, label permutations, wind pairs, correlation modes, initial remappings; all site positions, cloud velocities, filter lengths and periodic signals.',
     'Unit tests treat each step alone; sign and direction conventions must agree across steps, for every geometry.',
     ['field.py', 'signalproc.py', 'spatial.py'], [('survey', 'field.py:compute_predicted_position, assign_positions, remap_positions, cascade_remap'), ('filter', 'signalproc.py:get_camfilter, apply_filter'), ('projection', 'spatial.py')], ['field.assign_positions', 'field.cascade_remap', 'signalproc.apply_filter'])

if __name__ == '__main__':
    out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'properties.jsonl')
    for d in P:
        assert len(d['title']) <= 80, d['id']
        assert d['statement'].count('. ') <= 2, (d['id'], d['statement'].count('. '))
    with open(out, 'w') as f:
        for d in P:
            f.write(json.dumps(d) + '\n')
    print(len(P))
