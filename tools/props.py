"""The properties: source of properties.jsonl and MANIFEST.json."""

SL = "rubin_sim/maf/slicers/"
ME = "rubin_sim/maf/metrics/"

PROPS = [
    dict(id="C01", title="One-dimensional slicing puts every visit in exactly the bin that contains it",
         statement="Slicing visits on one column puts a visit in a bin exactly when its value is at least the bin's lower edge and below its upper "
                   "edge (the last bin of a one-dimensional slicer also includes its upper edge), whatever the order of the visits; visits outside all "
                   "bins or with an undefined value are in none. Bins given as minimum, maximum and size start at the minimum and step by the size, "
                   "explicit edges take priority, and cumulative movie frames hold every visit below the frame's upper edge. Two one-dimensional "
                   "slicers compare equal exactly when they slice the same column with the same edges (or, before set-up, the same minimum, maximum and size).",
         text="all visit values (ties, edge values, NaN, values outside the bins), visit orders, edges and ways of giving the bins",
         files=[SL + "one_d_slicer.py", SL + "movie_slicer.py", SL + "uni_slicer.py", SL + "base_slicer.py"],
         mech=[("bin assignment", SL + "one_d_slicer.py:OneDSlicer.setup_slicer"), ("frames", SL + "movie_slicer.py:MovieSlicer.setup_slicer"),
               ("iteration", SL + "base_slicer.py:BaseSlicer.__next__")]),
    dict(id="C02", title="Grid slicing puts every visit in exactly the cell that contains it",
         statement="Slicing on several columns gives one slice for each cell of the grid of bins, in row-major order and labelled with the cell's lower "
                   "corner, and a visit lying below the last edge of every column is in a cell exactly when each of its values lies in the cell's half-open "
                   "range. Bins given as counts divide the range of the data so that each visit falls in one cell. Two grids compare equal exactly when "
                   "all of the lower corners of their cells do.",
         text="all visit values, numbers of columns, edges in either order, bin counts",
         files=[SL + "nd_slicer.py"], mech=[("cell assignment", SL + "nd_slicer.py:NDSlicer.setup_slicer"), ("equality", SL + "nd_slicer.py:NDSlicer.__eq__")]),
    dict(id="C03", title="Time slicing keeps every visit, in the interval or block it belongs to",
         statement="Slicing into equal time intervals puts each visit in the interval in which it starts, empty intervals hold no visits, and intervals "
                   "follow one another without gaps. Slicing into blocks starts a new block exactly where the note changes or the gap after the previous "
                   "visit's end exceeds the tolerance, each block spanning its first visit's start to its last exposure's end. Slicing into single visits gives one slice "
                   "per visit in time order, labelled with that visit's own time, duration and extra columns.",
         text="all visit times and orders, durations, notes and interval lengths",
         files=[SL + "time_interval_slicers.py"], mech=[("intervals", SL + "time_interval_slicers.py:TimeIntervalSlicer.setup_slicer"),
               ("blocks", SL + "time_interval_slicers.py:BlockIntervalSlicer.setup_slicer"), ("visits", SL + "time_interval_slicers.py:VisitIntervalSlicer.setup_slicer")]),
    dict(id="C04", title="Simple per-slice statistics equal their definition",
         statement="Each simple statistic of a column (maximum, minimum, mean, median, absolute variants, sum, range, rms, robust rms, counts, unique counts and ratios, "
                   "percentiles, fractions and counts beyond thresholds, co-added depth, NaN-ignoring mean, "
                   "circular mean angle, range and spread, and any function of a numpy-like mapping) returns exactly what its name and documentation define, for any values and number of visits.",
         text="all column values including ties, any thresholds and scalings, 1 to 8 visits",
         files=[ME + "simple_metrics.py"], mech=[("statistics", ME + "simple_metrics.py:*.run")]),
    dict(id="C05", title="Sky-map summary statistics equal their definition",
         statement="The summary statistics over a sky map return the value over the best given area, the area beyond thresholds, the median and minimum number of visits over "
                   "the most visited area, the area with at least a number of visits, and the covered fraction of a footprint, as documented, for any map values; pixels "
                   "without a value do not count. Too little sky or no pixel above the threshold gives the bad value; normalising, zeropoint and identity statistics act value by value.",
         text="all map values including undefined pixels, areas, thresholds and normalisations",
         files=[ME + "summary_metrics.py", ME + "area_summary_metrics.py"],
         mech=[("area", ME + "area_summary_metrics.py:AreaSummaryMetric.run"), ("fO", ME + "summary_metrics.py:FONv.run")]),
    dict(id="C06", title="Filter-change and shutter-open statistics follow the visit history",
         statement="The number of changes of a state, the shortest time between changes, the number of changes faster than a cutoff and the largest number of changes within a time span are those "
                   "of the visits taken in time order, whatever the order of the rows. The open-shutter fraction is the total exposure time over visit plus slew time, or over the time in gaps "
                   "shorter than the limit. Strings in a column are counted (or given as percentages) each under its own name.",
         over=["inputs", "histories"], text="all visit times and row orders, states, cutoffs and exposure times",
         files=[ME + "technical_metrics.py", ME + "string_count_metric.py"],
         mech=[("state changes", ME + "technical_metrics.py:MaxStateChangesWithinMetric.run"), ("open shutter", ME + "technical_metrics.py:BruteOSFMetric.run")]),
    dict(id="C07", title="Statistics as a function of time bin count exactly the visits of each bin",
         statement="Binned statistics (count, sum, mean, co-added depth) of each bin are over exactly the visits in that bin, and accumulated statistics (sum, maximum, count, co-added depth) at each bin are "
                   "over exactly the visits up to and including the bin's upper edge, with the bad value where there are none. The number of covered bins, the departure from uniform visits, the circular "
                   "uniformity statistic (which does not depend on the origin of the angles) and the interpolated cumulative count follow their definitions.",
         text="all visit positions, orders, ties, bin edges and values",
         files=[ME + "vector_metrics.py", ME + "coverage_metric.py", ME + "kuiper_metrics.py", ME + "cumulative_metric.py"],
         mech=[("binned", ME + "vector_metrics.py:HistogramMetric.run"), ("accumulated", ME + "vector_metrics.py:AccumulateMetric.run")]),
    dict(id="C08", title="Astrometric precision statistics combine visits by their information",
         statement="Signal to noise from a magnitude and depth, the astrometric error from seeing and signal to noise, and the uncertainty of a fitted slope equal their formulas; parallax, proper-motion and "
                   "DCR uncertainties combine visits by inverse variance, and their normalised forms compare with the best possible schedule. Bands with a single visit do not contribute to proper motion, and parallax coverage "
                   "is the weighted mean distance from the mean parallax factor, counted only when the two visits' directions are at least the required angle apart on the circle. Every stellar template can be used, and only sets "
                   "the colours.",
         text="all magnitudes, depths, seeing, parallax factors, times and templates, 1 to 4 visits",
         files=["rubin_sim/maf/utils/astrometry_utils.py", ME + "calibration_metrics.py", ME + "dcr_metric.py", "rubin_sim/maf/utils/stellar_mags.py"],
         mech=[("errors", "rubin_sim/maf/utils/astrometry_utils.py:sigma_slope"), ("parallax", ME + "calibration_metrics.py:ParallaxMetric.run"),
               ("proper motion", ME + "calibration_metrics.py:ProperMotionMetric.run")]),
    dict(id="C09", title="Co-added depths and the statistics built on them combine visits by flux variance",
         statement="A co-added depth is 1.25 log10 of the sum of 10^(0.8 m5) over exactly the visits it is for, and never shallower than its deepest visit; extragalactic depths subtract the extinction of the visits' band and are bad "
                   "where the sky is too dusty, too shallow or seen in too few bands. Visits collapsed by night give one row per night and band with the median time and co-added depth; surface-brightness limits take the most restrictive noise limit "
                   "and refuse mixed bands. Weak-lensing visit and exposure counts, galaxy counts, signal-to-noise-weighted averages, visits behind the meridian survey, template creation (night, visits, depth, seeing, difference depths) and the age since "
                   "the last visit follow their definitions over exactly the visits they name.",
         text="all depths, bands, nights, times, extinctions and cuts, 1 to 4 visits",
         files=["rubin_sim/maf/utils/maf_utils.py", ME + "exgal_m5.py", ME + "weak_lensing_systematics_metric.py", ME + "optimal_m5_metric.py", ME + "snr_weight.py", ME + "scaling_metrics.py",
                ME + "surfb_metric.py", ME + "sky_sat_metric.py", ME + "schedview_metrics.py", ME + "incremental_template_metric.py"],
         mech=[("co-addition", "rubin_sim/maf/utils/maf_utils.py:coadd_m5"), ("extragalactic depth", ME + "exgal_m5.py:ExgalM5.run"),
               ("template", ME + "incremental_template_metric.py:TemplateTime.run")]),
    dict(id="C10", title="Time-gap and cadence statistics are those of the visits in time order",
         statement="Histograms, percentages, maxima, medians and counts of the gaps between visits (successive or all pairs, within a night, between nights, in nights, per night) are those of the visits sorted by time, whatever "
                   "the order of the rows, each gap counted once and in the bin that contains it. Revisit, pair, time-scale, template-existence and uniformity statistics follow their definitions over the sorted visits, and with too few visits give the bad value.",
         over=["inputs", "histories"], text="all visit times, nights and row orders, limits and bin edges, 1 to 4 visits",
         files=[ME + "cadence_metrics.py", ME + "tgaps.py", ME + "pair_metric.py"],
         mech=[("gaps", ME + "tgaps.py:TgapsMetric.run"), ("night gaps", ME + "cadence_metrics.py:IntraNightGapsMetric.run"), ("revisits", ME + "cadence_metrics.py:RapidRevisitMetric.run")]),
    dict(id="C11", title="Season, pair and visit-group statistics follow the visits of each season and night",
         statement="Seasons are counted from the time a field is behind the sun, and season lengths, campaign lengths, mean campaign frequencies and time-delay-challenge summaries are those of the visits of each season, whatever the row order. "
                   "The fraction of visits in pairs counts a visit once when another visit lies within the gap limits, limits included. Groups of visits in a night count each visit that has a neighbour in the "
                   "window once, and the reduced values (median, nights with enough visits, visits and nights in a window, lunations, longest unbroken sequence of lunations) are those of the nightly counts.",
         over=["inputs", "histories"], text="all visit times, nights and row orders, seasons, gap limits and window sizes, 1 to 4 visits",
         files=[ME + "season_metrics.py", ME + "visit_groups_metric.py"],
         mech=[("seasons", ME + "season_metrics.py:SeasonLengthMetric.run"), ("pairs", ME + "visit_groups_metric.py:PairFractionMetric.run"), ("groups", ME + "visit_groups_metric.py:VisitGroupsMetric.run")]),
    dict(id="C12", title="Variability and transient statistics follow the light curve and the visits given",
         statement="Phase gaps are the largest empty arc of the folded visits, wrapping at one period, for each period; periodic quality combines phase uniformity with amplitude signal to noise. A transient counts as detected exactly when the visits during its "
                   "own light curve above the depth limit satisfy every criterion asked for (visits before the peak, visits spread over the sections of the light curve, number of bands). Colour and slope detections need both within the time limits; AGN time lags and structure-function uncertainties are those "
                   "of the sorted visits, with given weights used.",
         over=["inputs", "histories"], text="all visit times, bands, depths, periods, light-curve shapes, criteria and row orders, 1 to 4 visits",
         files=[ME + "phase_gap_metric.py", ME + "transient_metrics.py", ME + "color_slope_metrics.py", ME + "agn_time_lag_metric.py", ME + "agnstructure.py"],
         mech=[("phases", ME + "phase_gap_metric.py:PhaseGapMetric.run"), ("detection", ME + "transient_metrics.py:TransientMetric.run"), ("structure function", ME + "agnstructure.py:SFUncertMetric.run")]),
    dict(id="C13", title="Galactic-plane, crowding and multiband statistics combine exactly the visits and maps they name",
         statement="Galactic-plane interval and season-gap statistics average the decayed value of each gap weighted by the sky's priority, footprint and time-per-filter statistics compare the visits above the magnitude limit with the desired number and fractions, "
                   "linear multiband models are the fitted slopes times each band's own depth relative to its mean, and crowded-field depth, star counts and magnitude errors follow from the density map at that point. Chip-vendor codes, sensed volumes and visit-use totals "
                   "follow their definitions. None of them reorders or changes the visits given.",
         text="all visit times, bands, depths, priorities, densities and cutoffs, 1 to 4 visits",
         files=[ME + "galplane_time_sampling_metrics.py", ME + "galactic_plane_metrics.py", ME + "uniformity_metrics.py", ME + "crowding_metric.py", ME + "star_density.py", ME + "chip_vendor_metric.py",
                ME + "brown_dwarf_metric.py", ME + "use_metrics.py"],
         mech=[("intervals", ME + "galplane_time_sampling_metrics.py:GalPlaneVisitIntervalsTimescaleMetric.run"), ("multiband", ME + "uniformity_metrics.py:SingleLinearMultibandModelMetric.run"),
               ("crowding", ME + "crowding_metric.py:CrowdingM5Metric.run")]),
    dict(id="C14", title="Running a group of metric bundles gives each bundle its own statistic on exactly its visits",
         statement="After a group of bundles is run, each bundle holds, for every slice, its metric's value on exactly the visits of that slice, with the columns its own stackers add and the maps it asks for, and is masked where the metric gives the "
                   "bad value or the slice has no visits. This does not depend on which other bundles are in the group, how they are put together, or on caching of slices; each bundle runs once, and bundles with different stackers, "
                   "slicers or maps never share a run. Reduced values of every bundle are kept and come from its own full values, and summary statistics are over its unmasked values, or over all values with the masked ones replaced when the summary asks for it.",
         over=["inputs", "histories"], text="all visit values, slice memberships, cache sizes, combinations of stackers, slicers and maps, masks and fill values, up to 3 bundles",
         files=["rubin_sim/maf/metric_bundles/metric_bundle_group.py", "rubin_sim/maf/metric_bundles/metric_bundle.py"],
         mech=[("running", "rubin_sim/maf/metric_bundles/metric_bundle_group.py:MetricBundleGroup._run_compatible"), ("grouping", "rubin_sim/maf/metric_bundles/metric_bundle_group.py:MetricBundleGroup._check_compatible"),
               ("summaries", "rubin_sim/maf/metric_bundles/metric_bundle.py:MetricBundle.compute_summary_stats")]),
    dict(id="C15", title="Sky slicing gives each point exactly the visits whose field covers it",
         statement="Slicing on sky position gives each point (a healpixel, one of a subset of healpixels or a user's point) exactly the visits whose pointing lies within the search radius of the point and, with a camera, only those whose rotated "
                   "footprint holds it, whatever the order of the visits and whether positions are in degrees or radians; points outside the subset or with no visits have none. Maps describe each point with its own value. Spatial slicers compare equal exactly when they have the same points and settings.",
         text="all pointings, rotations, radii, visit orders, units and point positions, 1 to 3 visits",
         files=[SL + "base_spatial_slicer.py", SL + "healpix_slicer.py", SL + "healpix_subset_slicer.py", SL + "user_points_slicer.py"],
         mech=[("membership", SL + "base_spatial_slicer.py:BaseSpatialSlicer.setup_slicer"), ("search", SL + "base_spatial_slicer.py:BaseSpatialSlicer._build_tree")]),
    dict(id="C16", title="Saved metric results read back as they were saved",
         statement="A metric bundle written to disk and loaded again has the same metric values, mask, run name, constraint, info label, metric name and a slicer equal to the one saved with the same slice points, for every kind of slicer. The JSON output lists the values with the bins or "
                   "positions they belong to (masked positions are left out, masked bins are zero), for real and whole values.",
         over=["inputs", "histories"], text="all metric values and masks, bins, points and labels over six kinds of slicer",
         files=[SL + "base_slicer.py", "rubin_sim/maf/metric_bundles/metric_bundle.py", SL + "healpix_slicer.py", SL + "user_points_slicer.py"],
         mech=[("saving", SL + "base_slicer.py:BaseSlicer.write_data"), ("reading", SL + "base_slicer.py:BaseSlicer.read_data"), ("json", SL + "base_slicer.py:BaseSlicer.output_json")]),
    dict(id="C17", title="Derived columns are those of each visit's own conditions",
         statement="Columns added to the visits (normalised airmass, zenith distance, hour and parallactic angle, refraction and parallax amplitudes, overhead, saturation magnitude, depth, effective exposure time, meridian-equivalent depth, follow-up telescopes, observing day, footprint labels, "
                   "galactic and ecliptic coordinates, nightly coadds) are computed for each visit from its own row, in the units given and stated, and leave the columns that were there unchanged; a column already there is kept unless recalculation is asked for, and stackers compare equal exactly "
                   "when of one kind with the same settings.",
         over=["inputs"], text="all visit conditions, positions, times, bands, units and settings within the stated ranges",
         files=["rubin_sim/maf/stackers/general_stackers.py", "rubin_sim/maf/stackers/base_stacker.py", "rubin_sim/maf/stackers/coord_stackers.py", "rubin_sim/maf/stackers/label_stackers.py", "rubin_sim/maf/stackers/date_stackers.py",
                "rubin_sim/maf/stackers/m5_optimal_stacker.py", "rubin_sim/maf/stackers/n_follow_stacker.py", "rubin_sim/maf/stackers/teff_stacker.py", "rubin_sim/maf/stackers/sn_stacker.py", "rubin_sim/maf/stackers/sdss_stackers.py"],
         mech=[("column bookkeeping", "rubin_sim/maf/stackers/base_stacker.py:BaseStacker.run"), ("refraction", "rubin_sim/maf/stackers/general_stackers.py:DcrStacker._run"),
               ("saturation", "rubin_sim/maf/stackers/general_stackers.py:SaturationStacker._run"), ("overhead", "rubin_sim/maf/stackers/general_stackers.py:OverheadStacker._run")]),
    dict(id="C18", title="Moving objects: what was seen, found and characterised, and the population",
         statement="For every object at every H, the observations used are its own, with brightness, signal to noise and visibility computed for that H by the bundle's own stackers; counts of observations and nights, arcs, discovery windows (tracklets of enough observations in the allowed time, enough nights within the "
                   "window) and what they yield at discovery, activity, high velocity, colour and lightcurve requirements and known-object times follow their definitions over the visible observations in whatever order they come; objects with nothing to measure are masked; completeness, cumulative and size-weighted population summaries "
                   "are those of the unmasked values at their H.",
         over=["inputs", "histories"], text="all observation times, nights, bands, signal to noise, visibility, thresholds, H values, masks and random draws within the stated ranges, in any order",
         files=["rubin_sim/maf/metrics/mo_metrics.py", "rubin_sim/maf/metrics/mo_summary_metrics.py", "rubin_sim/maf/stackers/mo_stackers.py", "rubin_sim/maf/metric_bundles/mo_metric_bundle.py", "rubin_sim/maf/slicers/mo_slicer.py"],
         mech=[("discovery", "rubin_sim/maf/metrics/mo_metrics.py:DiscoveryMetric.run"), ("visibility", "rubin_sim/maf/metrics/mo_metrics.py:_set_vis"), ("completeness", "rubin_sim/maf/metrics/mo_summary_metrics.py:MoCompletenessMetric.run"),
               ("run over objects", "rubin_sim/maf/metric_bundles/mo_metric_bundle.py:MoMetricBundleGroup._run_compatible"), ("brightness", "rubin_sim/maf/stackers/mo_stackers.py:MoMagStacker._run")]),
    dict(id="C19", title="Synthetic photometry: spectra, bandpasses and magnitudes agree with their definitions",
         statement="Fluxes, magnitudes, counts and energies of a spectrum through a bandpass are the integrals their definitions give, on whatever wavelength grids the two are sampled; conversions between flambda, fnu, flux and magnitude invert each other; resampling, redshifting, dust, multiplying and "
                   "renormalising act point by point as documented and conserve what they should (flux per resolution element, the requested normalisation), without touching the arrays given; products of throughputs, effective wavelengths, zeropoints and the many-bandpass short cuts equal the one-at-a-time results; spectra "
                   "compare equal exactly when their contents are; files written are read back.",
         text="all fluxes, throughputs, wavelengths, redshifts, extinctions and instrument parameters within the stated ranges, spectra and bandpasses of 2 to 5 points",
         files=["rubin_sim/phot_utils/sed.py", "rubin_sim/phot_utils/bandpass.py", "rubin_sim/phot_utils/spectral_resampling.py", "rubin_sim/phot_utils/photometric_parameters.py", "rubin_sim/phot_utils/sed_utils.py"],
         mech=[("magnitudes", "rubin_sim/phot_utils/sed.py:Sed.calc_mag"), ("resampling", "rubin_sim/phot_utils/spectral_resampling.py:spectres"), ("dust", "rubin_sim/phot_utils/sed.py:Sed.add_dust"), ("throughputs", "rubin_sim/phot_utils/bandpass.py:Bandpass.multiply_throughputs")]),
    dict(id="C20", title="Signal to noise, depth and sky level are consistent solutions of one noise equation",
         statement="Effective and geometric seeing, effective number of pixels, instrument and sky noise, signal to noise of a spectrum and its magnitude error equal their formulas for any instrument; the five-sigma depth is the magnitude at which that same signal to noise is five, the sky counts for a depth give back that depth, "
                   "signal to noise and magnitude error from depth and gamma follow from the noise equation (gamma computed or given), astrometric error has its documented form and limits, and predicted zeropoints scale with exposure time and airmass as documented.",
         text="all throughputs, sky and source fluxes, seeing, gains, noise terms, exposures, magnitudes and depths within the stated ranges",
         files=["rubin_sim/phot_utils/signaltonoise.py", "rubin_sim/phot_utils/predicted_zeropoints.py"],
         mech=[("depth", "rubin_sim/phot_utils/signaltonoise.py:calc_m5"), ("signal to noise", "rubin_sim/phot_utils/signaltonoise.py:calc_snr_sed"), ("sky", "rubin_sim/phot_utils/signaltonoise.py:calc_sky_counts_per_pixel_for_m5")]),
    dict(id="C21", title="Chebyshev ephemerides reproduce the ephemerides they were fitted to",
         statement="Evaluating Chebyshev coefficients gives the polynomial and its derivative at every point of the interval (and undefined values outside when asked); a fit reproduces polynomials it has enough terms for and is the least squares fit otherwise, with its residuals as reported; segments of each object cover the requested "
                   "span without gaps or overlaps, are subdivided until residuals are within tolerance, failures are reported, and the ephemerides of any requested objects at any times are those of their own segment, in the order requested; coefficients written are read back.",
         over=["inputs", "histories"], text="all coefficients, values, slopes, motions, intervals, times and selections of objects within the stated sizes; the orbit integrator replaced by arbitrary functions of time",
         files=["rubin_sim/moving_objects/chebyshev_utils.py", "rubin_sim/moving_objects/cheby_fits.py", "rubin_sim/moving_objects/cheby_values.py"],
         mech=[("evaluation", "rubin_sim/moving_objects/chebyshev_utils.py:chebeval"), ("fit", "rubin_sim/moving_objects/chebyshev_utils.py:chebfit"), ("segments", "rubin_sim/moving_objects/cheby_fits.py:ChebyFits.calc_segments"), ("values", "rubin_sim/moving_objects/cheby_values.py:ChebyValues.get_ephemerides")]),
    dict(id="C22", title="Orbits are kept as given and moving objects are observed exactly when they are in the field",
         statement="Orbits given or read keep every element under its standard name (with the documented defaults for missing optional columns), inconsistent or incomplete ones are refused, the tables given are left alone, and two sets are equal exactly when all columns are; conversion to and from the orbit integrator's arrays loses nothing "
                   "and its errors are reported; ephemerides come back per object and time as asked. An object is in a rectangular or circular field exactly when its offset is within the tolerance, across right ascension zero too and in either angle unit; simulated observations list every visit that shows the object and no other, each with that "
                   "visit's own time, position, colour and trailing loss.",
         text="all orbital elements, ephemerides, pointings, field sizes, seeing, exposures and motions within the stated sizes; circular separations along a meridian; the orbit integrator replaced by arbitrary values",
         files=["rubin_sim/moving_objects/orbits.py", "rubin_sim/moving_objects/ooephemerides.py", "rubin_sim/moving_objects/base_obs.py", "rubin_sim/moving_objects/direct_obs.py"],
         mech=[("orbits", "rubin_sim/moving_objects/orbits.py:Orbits.set_orbits"), ("field", "rubin_sim/moving_objects/base_obs.py:BaseObs.sso_in_fov"), ("observations", "rubin_sim/moving_objects/direct_obs.py:DirectObs.run")]),
    dict(id="C23", title="Self-calibration solves for exactly the visits and stars that can be calibrated",
         statement="The self-calibration solution uses exactly the observations whose patch and star are seen often enough, hands the weighted least-squares system of those observations to the solver, and returns patch zeropoints and best star magnitudes under their own ids, in whatever order the "
                   "observations come; offsets added to magnitudes are those their parameters give (none, systematic, or with the error of the star's signal to noise); stars land in the patch of their position in the field and on the projection of their pointing and rotation; a generated catalogue "
                   "lists each visit's stars in the field and no other, with their own magnitude, patch and visit.",
         text="all observed magnitudes, errors, assignments of stars to patches and orders, star magnitudes, depths and offsets, positions in the field, within the stated sizes",
         files=["rubin_sim/selfcal/solver.py", "rubin_sim/selfcal/offsets.py", "rubin_sim/selfcal/star_tools.py", "rubin_sim/selfcal/generate_catalog.py"],
         mech=[("solver", "rubin_sim/selfcal/solver.py:LsqrSolver.solve_matrix"), ("selection", "rubin_sim/selfcal/solver.py:LsqrSolver.clean_data"), ("catalogue", "rubin_sim/selfcal/generate_catalog.py:generate_catalog"), ("patches", "rubin_sim/selfcal/star_tools.py:assign_patches")]),
    dict(id="C24", title="Sky brightness is the sum of its interpolated components at each point",
         statement="Each component of the sky (airglow, lower and upper atmosphere, moon, zodiacal light, twilight) is interpolated with weights that add up to one between the templates around the point and is undefined or zero outside them as documented; the sky at a point is the sum of the "
                   "components switched on, whatever the other points, their order or the way the point is given (by position and time, by horizontal coordinates, by hand, degrees or radians, singly or as arrays); points out of limits and only those are undefined; magnitudes through a bandpass are those of the spectrum returned; "
                   "angles relative to the moon and the sun are the angles of the positions given.",
         text="all template values, airmasses, azimuths, altitudes, fluxes, phases, coefficients and weights within the stated ranges, 1 to 3 points, small template grids",
         files=["rubin_sim/skybrightness/interp_components.py", "rubin_sim/skybrightness/sky_model.py", "rubin_sim/skybrightness/twilight_func.py", "rubin_sim/skybrightness/utils.py"],
         mech=[("components", "rubin_sim/skybrightness/interp_components.py:BaseSingleInterp._indx_and_weights"), ("total", "rubin_sim/skybrightness/sky_model.py:SkyModel._interp_sky"), ("points", "rubin_sim/skybrightness/sky_model.py:SkyModel.set_params"), ("twilight", "rubin_sim/skybrightness/twilight_func.py:twilight_func")]),
    dict(id="C25", title="Statistics of transients and variables count the events their definitions describe",
         statement="For any visits in any order: triplets, pairs of bands with given gaps, overlaps with other surveys, nights with enough bands are counted exactly when the times satisfy their limits; bursts, tidal disruptions, kilonovae, outbursts and microlensing events are detected exactly "
                   "when the visits deep enough for the event's own light curve at their own time and band meet the stated requirement (numbers of detections, bands, times before and after the peak, change of brightness); periodic stars are recovered exactly when the fit to the visits of their bands is within tolerance.",
         text="all visit times, bands, depths and orders, dust and distances or light-curve parameters from lists, within the stated sizes",
         files=["rubin_sim/maf/maf_contrib/triplet_metric.py", "rubin_sim/maf/maf_contrib/filter_pair_t_gaps_metric.py", "rubin_sim/maf/maf_contrib/grb_transient_metric.py", "rubin_sim/maf/maf_contrib/tdes_pop_metric.py", "rubin_sim/maf/maf_contrib/kne_metrics.py", "rubin_sim/maf/maf_contrib/xrb_metrics.py", "rubin_sim/maf/maf_contrib/microlensing_metric.py", "rubin_sim/maf/maf_contrib/periodic_star_metric.py", "rubin_sim/maf/maf_contrib/periodic_star_modulation_metric.py", "rubin_sim/maf/maf_contrib/periodic_metric.py", "rubin_sim/maf/maf_contrib/intervals_between_obs_metric.py", "rubin_sim/maf/maf_contrib/num_obs_in_survey_time_overlap_metric.py", "rubin_sim/maf/maf_contrib/example_new_metrics.py"],
         mech=[("triplets", "rubin_sim/maf/maf_contrib/triplet_metric.py:TripletMetric.run"), ("bursts", "rubin_sim/maf/maf_contrib/grb_transient_metric.py:GRBTransientMetric.run"), ("kilonovae", "rubin_sim/maf/maf_contrib/kne_metrics.py:KNePopMetric.run"), ("tidal disruptions", "rubin_sim/maf/maf_contrib/tdes_pop_metric.py:TdePopMetric.run"), ("microlensing", "rubin_sim/maf/maf_contrib/microlensing_metric.py:MicrolensingMetric.run")]),
    dict(id="C26", title="Comparing runs compares each metric of each run with the right reference",
         statement="Normalised summaries are each run's value relative to the baseline run (or the median of the baseline runs), as a difference for magnitudes and a ratio otherwise, turned over for inverted metrics so that larger is better, whatever the order or orientation of the table; radar values follow the same rules; "
                   "selections return exactly the runs of the families and the metrics of the subsets asked for, and the families of runs are as listed; gathered results hold each statistic of each run under its own name, with the rows of repeated runs joined; microlensing summaries reduce exactly the defined values of their events.",
         text="all metric values, baselines, inversions, orders and selections from small lists of runs and metrics",
         files=["rubin_sim/maf/run_comparison/summary_plots.py", "rubin_sim/maf/run_comparison/radar_plot.py", "rubin_sim/maf/run_comparison/archive.py", "rubin_sim/maf/run_comparison/gather_summaries.py", "rubin_sim/maf/run_comparison/microlensing_compare.py"],
         mech=[("normalisation", "rubin_sim/maf/run_comparison/summary_plots.py:normalize_metric_summaries"), ("radar", "rubin_sim/maf/run_comparison/radar_plot.py:normalize_for_radar"), ("selection", "rubin_sim/maf/run_comparison/archive.py:get_metric_summaries"), ("gathering", "rubin_sim/maf/run_comparison/gather_summaries.py:combine_result_dbs")]),
    dict(id="C27", title="Simulated nights cover the time asked for and satellites streak exactly the visits they cross",
         statement="Anomalous overheads scatter the slew and visit times by the draws they are given and never below the minimum; a simulation of some nights starts at the sunset (or the delayed time) of the first and lasts to the sunrise of the last; statistics of each night count the visits of that day of observation; "
                   "the latest simulation of a night with all the tags asked for is the one found; the visits fetched for some nights are exactly those of the nights, and the arguments and stackers given are left as they were; a visit is streaked by exactly the lit satellites above the limit that pass through its field between start and end, and satellite maps count each lit satellite above the limit once.",
         text="all slew and exposure times, draws, sunsets and sunrises, days of visits, satellite altitudes, lighting, distances and streak lengths, within the stated sizes",
         files=["rubin_sim/sim_archive/prenight.py", "rubin_sim/sim_archive/util.py", "rubin_sim/sim_archive/vseqarchive.py", "rubin_sim/sim_archive/prenightindex.py", "rubin_sim/sim_archive/sim_archive.py", "rubin_sim/satellite_constellations/sat_utils.py", "rubin_sim/satellite_constellations/model_observatory.py"],
         mech=[("overheads", "rubin_sim/sim_archive/prenight.py:AnomalousOverheadFunc"), ("span", "rubin_sim/sim_archive/prenight.py:compute_sim_start_and_end"), ("archive", "rubin_sim/sim_archive/sim_archive.py:fetch_sim_for_nights"), ("streaks", "rubin_sim/satellite_constellations/sat_utils.py:Constellation.check_pointings")]),
    dict(id="C28", title="Metrics, stackers and slicers need no more than they declare",
         statement="For any visits, a metric computes its result from the columns it declares and the slice-point values of the maps it declares (or the values its own population slicer provides) alone; a stacker computes its columns from the columns it requires, and adds every column it says it adds; a slicer is set up from the columns it needs: so a bundle run "
                   "on data holding only the declared columns gives the same result as on complete data, and never fails on a missing column.",
         text="every input of the checks of the metrics, stackers and slicers in C01 to C20 and C25, in their quick bounds",
         files=["rubin_sim/maf/metrics/base_metric.py", "rubin_sim/maf/metrics/", "rubin_sim/maf/stackers/", "rubin_sim/maf/slicers/", "rubin_sim/maf/maf_contrib/"],
         mech=[("metrics", "rubin_sim/maf/metrics/base_metric.py:BaseMetric.__init__"), ("stackers", "rubin_sim/maf/stackers/base_stacker.py:BaseStacker.run"), ("slicers", "rubin_sim/maf/slicers/base_slicer.py:BaseSlicer.setup_slicer")]),
    dict(id="C29", title="Yields of stars, brown dwarfs, quasars, lensed supernovae and dwarf galaxies follow the visits",
         statement="The number of lensed supernovae adds, over the seasons with enough usable nights and bands, the rate for the length of the season and the median gap between nights (a season of a single night adds none); quasars are those of the table between saturation and depth in the redshift range, in places that are not too dusty; "
                   "light-curve points count the visits deep enough, in bands with more than the number demanded, for each star brighter than the magnitude; a periodic star counts when the F test of its variation is significant and there are enough visits; a brown dwarf is reached at the distance where its parallax has the significance asked; "
                   "young stars are counted out to the distance at which the shallowest band, crowding and dust included, meets the signal to noise asked; the distance of a change of magnitude through a dust map is the nearest of the map or beyond it; a dwarf galaxy is found down to the magnitude at which its stars stand out of the background at the depth of the visits.",
         text="all times, depths, magnitudes, counts, extinctions, latitudes and limits, within the stated sizes; tables, templates and statistical functions are stand-ins",
         files=["rubin_sim/maf/metrics/sn_sl_metric.py", "rubin_sim/maf/metrics/qso_number_counts_metric.py", "rubin_sim/maf/metrics/scaling_metrics.py", "rubin_sim/maf/metrics/periodic_detect_metric.py", "rubin_sim/maf/metrics/brown_dwarf_metric.py", "rubin_sim/maf/maps/dust_map_3d.py", "rubin_sim/maf/maf_contrib/young_stellar_objects_metric.py", "rubin_sim/maf/maf_contrib/lv_dwarfs/lv_dwarfs_metrics.py"],
         mech=[("lensed supernovae", "rubin_sim/maf/metrics/sn_sl_metric.py:SNSLMetric.run"), ("quasars", "rubin_sim/maf/metrics/qso_number_counts_metric.py:QSONumberCountsMetric.run"), ("periodic stars", "rubin_sim/maf/metrics/periodic_detect_metric.py:PeriodicDetectMetric.run"), ("brown dwarfs", "rubin_sim/maf/metrics/brown_dwarf_metric.py:BDParallaxMetric.run"), ("young stars", "rubin_sim/maf/maf_contrib/young_stellar_objects_metric.py:NYoungStarsMetric.run"), ("dwarf galaxies", "rubin_sim/maf/maf_contrib/lv_dwarfs/lv_dwarfs_metrics.py:LVDwarfsMetric.run")]),
    dict(id="C30", title="Calculations shared by metrics and figures: bins, limits, depths, benchmarks, maps, constraints, names",
         statement="The number of histogram bins follows the interquartile range of the unmasked values inside the range, within the bounds given; colour limits are those given, else the percentiles or extremes of the unmasked values, never empty; benchmark values are scaled to the length of the survey and the coadded depth adds the visits of each band; "
                   "distances, rotations and phase angles are those of the sphere; pixels are looked up in the map asked for at the resolution asked for, and never in one kept from an earlier request; priorities, subsets and area maps hold exactly the pixels named; streaked visits are counted against the fraction allowed; SQL constraints select the bands, programs and fields named; "
                   "columns are read from the database unless a stacker makes them; names of files are unique to the run, metric, slicer and constraint, and safe.",
         text="all values, masks, limits and choices of options within the stated sizes; map files, pixel numbering and transcendental functions are stand-ins",
         files=["rubin_sim/maf/utils/maf_utils.py", "rubin_sim/maf/utils/opsim_utils.py", "rubin_sim/maf/plots/spatial_plotters.py", "rubin_sim/maf/plots/plot_handler.py", "rubin_sim/maf/maps/galactic_plane_priority_maps.py", "rubin_sim/maf/maps/ebv_hp.py", "rubin_sim/maf/slicers/healpix_subset_slicer.py", "rubin_sim/maf/stackers/mo_phase.py", "rubin_sim/maf/batches/common.py", "rubin_sim/satellite_constellations/basis_function.py"],
         mech=[("bins", "rubin_sim/maf/utils/maf_utils.py:optimal_bins"), ("limits", "rubin_sim/maf/plots/spatial_plotters.py:set_color_lims"), ("benchmarks", "rubin_sim/maf/utils/opsim_utils.py:scale_benchmarks"), ("priorities", "rubin_sim/maf/maps/galactic_plane_priority_maps.py:galplane_priority_map"), ("names", "rubin_sim/maf/utils/output_utils.py:name_sanitize")]),
    dict(id="C31", title="Cosmology and galaxy-count summaries follow their formulas over the observed pixels",
         statement="The total power sums (2l+1) C_l of the map, without its monopole or dipole as asked, over all multipoles between the limits; the stripiness compares the fractional scatter of the exposure of the observed pixels of the two galactic hemispheres; the bias of sigma8 is that of the Gaussian fit of the spurious power of every redshift bin for its own sky fraction; "
                   "the bias of mean redshifts adds the bands, from the scatter of the valid depths; the static-probe figure of merit is interpolated linearly at the area observed and its median depth in the table of the year; galaxy counts integrate the luminosity function of the band and redshift bin times the completeness of the depth of the band's visits up to the limiting magnitude, "
                   "scaled to the pixel, and are none where there is no depth or the pixel is outside the extragalactic footprint.",
         text="all map values, masks, spectra, depths, magnitudes and limits within the stated sizes; spherical transforms, integration and the error function are abstract",
         files=["rubin_sim/maf/metrics/cosmology_summary_metrics.py", "rubin_sim/maf/maf_contrib/lss_metrics.py", "rubin_sim/maf/maf_contrib/lss_obs_strategy/", "rubin_sim/maf/maf_contrib/depth_limited_num_gal_metric.py"],
         mech=[("total power", "rubin_sim/maf/metrics/cosmology_summary_metrics.py:TotalPowerMetric.run"), ("stripiness", "rubin_sim/maf/metrics/cosmology_summary_metrics.py:stripiness_test_statistic"), ("sigma8", "rubin_sim/maf/metrics/cosmology_summary_metrics.py:TomographicClusteringSigma8biasMetric.run"), ("mean redshift", "rubin_sim/maf/metrics/cosmology_summary_metrics.py:MultibandMeanzBiasMetric.run"), ("figure of merit", "rubin_sim/maf/metrics/cosmology_summary_metrics.py:StaticProbesFoMEmulatorMetricSimple.run"), ("galaxies", "rubin_sim/maf/maf_contrib/lss_obs_strategy/galaxy_counts_metric_extended.py:GalaxyCountsMetricExtended.run")]),
    dict(id="C32", title="Archived simulations are numbered, found, identified and read back unchanged",
         statement="An archived simulation gets the next number of its day and exactly the files its metadata lists, and leaves earlier ones alone; reading a window of days returns every simulation added in it once, from the archive or its compilation, with its metadata, and a compilation reads back as it was; the simulation found for a range of nights is the latest of those that cover it, "
                   "carry the tags, belong to the telescope and are young enough, or none; the visits fetched are those of the nights asked for, with the columns asked for, and the arguments are left as they were; queries apply before stackers; the nights of a plan start with the first sunset after the time given; a simulation is identified by its creation day and number, or its identity, "
                   "whichever way the day is written; metadata of a simulation directory gives its first and last day of observation, arguments, tags and the hash of every file.",
         text="which simulations exist, their days, numbers, telescopes, tags, files and the request, from the stated short lists (each combination is a path of the solver); time, almanac, databases and readers are stand-ins",
         files=["rubin_sim/sim_archive/prototype.py", "rubin_sim/sim_archive/future_vsarch.py", "rubin_sim/sim_archive/sim_archive.py", "rubin_sim/sim_archive/prenightindex.py", "rubin_sim/sim_archive/vseqarchive.py", "rubin_sim/sim_archive/vseqmetadata.py"],
         mech=[("numbering", "rubin_sim/sim_archive/prototype.py:_next_sim_date_and_index"), ("reading", "rubin_sim/sim_archive/prototype.py:read_archived_sim_metadata"), ("latest", "rubin_sim/sim_archive/prototype.py:find_latest_prenight_sim_for_nights"), ("fetch", "rubin_sim/sim_archive/future_vsarch.py:_fetch_sim_for_nights"), ("identity", "rubin_sim/sim_archive/prenightindex.py:get_sim_uuid"), ("directory", "rubin_sim/sim_archive/sim_archive.py:make_sim_data_dir")]),
    dict(id="C33", title="Result pages list every result once, in order, with its own plots, statistics and data",
         statement="The groups and subgroups shown are those of the results, and every result is listed once, in display order; ticking groups and results on the selection page gives exactly those; lists by slicer, metric name, label, kind of plot or summary statistic hold exactly the results that match, also within a subset; each statistic is shown for its own result with its own value, in the usual order; "
                   "sky maps stand in their band's place in rows of three, or by result in display order where a band has several; the tracking database lists each directory once, under the number it was first given, with the information last given; a run's page is that of the run asked for in the database as it is now; the data links give the file or the JSON of the result named; the hourglass figure splits visits where the band changes or more than two minutes pass, against the closest midnight; "
                   "a completeness bundle holds the completeness at each H and labels the one asked for; a constellation has its planes times satellites, evenly spaced.",
         text="names, groups, labels, files, requests (each combination a path of the solver) and all display orders, times, magnitudes and values within the stated sizes; the databases, almanac and rendering are stand-ins",
         files=["rubin_sim/maf/web/maf_run_results.py", "rubin_sim/maf/web/maf_tracking.py", "rubin_sim/maf/db/tracking_db.py", "rubin_sim/maf/show_maf.py", "rubin_sim/maf/metrics/hourglass_metric.py", "rubin_sim/maf/metric_bundles/mo_metric_bundle.py", "rubin_sim/satellite_constellations/sat_utils.py"],
         mech=[("listing", "rubin_sim/maf/web/maf_run_results.py:MafRunResults.sort_metrics"), ("selection", "rubin_sim/maf/web/maf_run_results.py:MafRunResults.convert_select_to_metrics"), ("grid", "rubin_sim/maf/web/maf_run_results.py:MafRunResults.order_plots"), ("statistics", "rubin_sim/maf/web/maf_run_results.py:MafRunResults.stat_dict"), ("runs", "rubin_sim/maf/web/maf_tracking.py:MafTracking.get_run"), ("tracking", "rubin_sim/maf/db/tracking_db.py:TrackingDb.add_run"), ("data", "rubin_sim/maf/show_maf.py:DataHandler.get"), ("hourglass", "rubin_sim/maf/metrics/hourglass_metric.py:HourglassMetric.run")]),
    dict(id="C34", title="Simulated populations are what was asked for, and the same for the same seed",
         statement="A population of kilonovae, tidal disruptions, microlensing events or X-ray binary outbursts has the number of events asked for (or one at each position given, or those of the region of the sky asked for), each with its own time within the period, evenly spread, a light curve there is, and distance, crossing time and impact parameter within the limits asked for and by the stated distribution; "
                   "microlensing events fall on pixels in proportion to the square of the star density of the band down to 22nd magnitude, at the position of the pixel drawn; an outburst carries the position, distance and dust of its binary and is visible as long as its own light curve is; everything random follows from the seed.",
         text="any period, limits, positions, galactic latitudes and random draws, up to 3 events; the position generator, map and catalogue files are stand-ins",
         files=["rubin_sim/maf/maf_contrib/kne_metrics.py", "rubin_sim/maf/maf_contrib/tdes_pop_metric.py", "rubin_sim/maf/maf_contrib/presto_color_kne_pop_metric.py", "rubin_sim/maf/maf_contrib/microlensing_metric.py", "rubin_sim/maf/maf_contrib/xrb_metrics.py"],
         mech=[("kilonovae", "rubin_sim/maf/maf_contrib/kne_metrics.py:generate_kn_pop_slicer"), ("tidal disruptions", "rubin_sim/maf/maf_contrib/tdes_pop_metric.py:generate_tde_pop_slicer"), ("regions", "rubin_sim/maf/maf_contrib/presto_color_kne_pop_metric.py:generate_presto_pop_slicer"), ("lenses", "rubin_sim/maf/maf_contrib/microlensing_metric.py:generate_microlensing_slicer"), ("binaries", "rubin_sim/maf/maf_contrib/xrb_metrics.py:generate_xrb_pop_slicer")]),
]

NA = [
    dict(id="N01", title="The databases of prenight and visit-sequence metadata answer with what was recorded",
         statement="What is recorded about a visit sequence (its comments, tags, files, statistics, nights) is what every later query returns, and queries by night, telescope, tag or age return exactly the matching sequences.",
         text="all sequences of records and queries", files=["rubin_sim/sim_archive/vseqarchive.py", "rubin_sim/sim_archive/vseqmetadata.py", "rubin_sim/sim_archive/prenightindex.py", "rubin_sim/sim_archive/tempdb.py"],
         mech=[("records", "rubin_sim/sim_archive/vseqmetadata.py:VisitSequenceArchiveMetadata")],
         reason="the deciding step is SQL executed by a PostgreSQL server, a separate C program whose execution cannot be encoded for the solver; the Python around it (identity, window of nights, files, hashes) is decided in C32"),
    dict(id="N02", title="Figures show the values of the metric bundle",
         statement="Every figure drawn shows exactly the unmasked values of its bundle, in the units, limits and labels asked for.",
         text="all metric values and plotting options", files=["rubin_sim/maf/plots/"],
         mech=[("figures", "rubin_sim/maf/plots/plot_handler.py:PlotHandler.plot")],
         reason="the observable is a raster or vector image made by matplotlib, healpy and skyproj (C and C++ code); the calculations in front of the drawing calls (limits, bins, labels, file names) are decided in C26, C30 and C33"),
    dict(id="N03", title="Supernova light-curve metrics agree with the light curves they simulate",
         statement="The numbers of supernovae, their redshift limits and light-curve signal to noise follow from the visits and the template light curves.",
         text="all visits and templates", files=["rubin_sim/maf/metrics/sn_n_sn_metric.py", "rubin_sim/maf/metrics/sn_snr_metric.py", "rubin_sim/maf/utils/sn_n_sn_utils.py", "rubin_sim/maf/utils/sn_utils.py"],
         mech=[("supernovae", "rubin_sim/maf/metrics/sn_n_sn_metric.py:SNNSNMetric.run")],
         reason="the behaviour is defined by template files of simulated light curves and interpolation grids over them which are not in the repository and cannot be fetched; without them the code cannot be run, so no counterexample could be confirmed against it"),
    dict(id="N04", title="The Gaussian-process emulator of the static-probe figure of merit reproduces its training points",
         statement="The emulated figure of merit is the prediction of the Gaussian process fitted to the table of simulated surveys, with the systematics asked for.",
         text="all areas, depths and systematics", files=["rubin_sim/maf/maf_contrib/static_probes_fom_summary_metric.py"],
         mech=[("emulator", "rubin_sim/maf/maf_contrib/static_probes_fom_summary_metric.py:StaticProbesFoMEmulatorMetric.run")],
         reason="the emulator is a compiled Gaussian-process library (george) which is not installed; the interpolating version is decided in C31"),
    dict(id="N05", title="Star-count model of the Galaxy",
         statement="The number of stars in a field between two distances and within the magnitude limits is the integral of the density model of the Galaxy over the field.",
         text="all fields, distances and magnitude limits", files=["rubin_sim/maf/maf_contrib/star_counts/"],
         mech=[("counts", "rubin_sim/maf/maf_contrib/star_counts/starcount.py:starcount")],
         reason="numerical quadrature of products of exponentials, hyperbolic secants and power laws with interpolated tables: the solvers here have no usable theory for them, and making each an abstract function leaves nothing but the text of the formula to compare with itself"),
]
