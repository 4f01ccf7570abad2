#!/usr/bin/env python3
"""Source of properties.jsonl: run `python3 tools/props.py > properties.jsonl`."""
import json

P = []
def prop(id, title, statement, over, text, why, files, mech, observe=None, state=None):
    assert len(title) <= 80, (id, len(title))
    d = {"id": id, "title": title, "statement": statement,
         "quantifier": {"over": over, "text": text}, "why_tests_cant": why,
         "anchors": {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech],
                     "hook_needed": None}}
    if observe: d["anchors"]["observe_at"] = observe
    if state: d["anchors"]["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    P.append(d)

prop("C01", "Unit conversion preserves the physical quantity along every path",
 "Converting a measurement to a unit system labels it with the unit that system uses for that kind of quantity and changes its number by the true physical factor (to within 0.3 %, and 0.2 degrees for temperatures), whatever sequence of systems it was taken through, so that going away and coming back returns the original number. A missing value stays missing, a unit with no counterpart in the target system keeps both unit and number, and converting twice to the same system is the same as converting once. The same holds for every length, speed, pressure and temperature field of a swell, a swell summary or a data record that is converted as a whole.",
 ["inputs", "histories"], "every unit, every value of a dense set, every sequence of target systems, on single measurements and on whole records",
 "No test converts a temperature, and none converts anything twice; errors only show on particular unit pairs and on round trips.",
 ["src/units/mod.rs", "src/dimensional_data.rs", "src/swell.rs", "src/data/*"],
 [("pairwise conversion table", "src/units/mod.rs Unit::convert"), ("system to unit table", "src/units/mod.rs Unit::convert_system"), ("in place conversion", "src/dimensional_data.rs to_units")],
 ["value and unit after to_units"])

prop("C02", "Compass points, degrees and reversals agree everywhere on the circle",
 "Every whole bearing from 0 to 360 degrees is given the compass point of the 16-wind sector nearest to it, a compass point printed and read back (in any letter case) is the same point and its bearing is the middle of its sector to within half a degree, and numeric text is read as that bearing. Reversing a direction turns it by exactly 180 degrees into 0..359 with the compass point of the new bearing, and reversing twice comes back to the same bearing modulo 360. Two directions count as opposite exactly when their bearings differ by 170 to 190 degrees around the circle, independently of their order.",
 ["inputs", "histories"], "every bearing 0..360, every ordered pair of bearings, every compass name in every letter case, every short sequence of reversals",
 "Tests touch a handful of names; sector borders, wrap-around and pairs are not sampled.",
 ["src/units/cardinal_direction.rs", "src/units/direction.rs"],
 [("sector table", "src/units/cardinal_direction.rs from_degrees"), ("flip / invert / is_opposite / FromStr", "src/units/direction.rs")])

prop("C03", "Directions of a sea state do not depend on the storage convention",
 "Whatever convention (coming-from, going-towards, mathematical) a directional spectrum is stored in, its normalised bin directions are compass bearings the waves come from, in 0 to 360 degrees, and the same sea state stored in another convention yields the same bearings modulo 360. The mean direction of every frequency and of every extracted swell equals the energy-weighted circular mean of those bearings. Turning the whole sea state by some angle turns every reported direction by the same angle.",
 ["inputs", "configurations"], "every convention, every bearing of a fine compass grid, every energy pattern over small direction grids, every rotation by whole bins",
 "No test asserts a mean direction or compares two conventions.",
 ["src/units/direction.rs", "src/spectra.rs", "src/tools/waves.rs", "src/tools/math.rs"],
 [("normalize", "src/units/direction.rs DirectionConvention::normalize"), ("per-frequency mean direction", "src/spectra.rs mean_wave_direction_f"), ("per-swell mean direction", "src/tools/waves.rs pt_mean")])

prop("C04", "Coordinates normalise consistently and bounding boxes mean what they say",
 "Longitudes given as -180..180 or 0..360 normalise to the same place in either form, latitudes likewise, and a value already in range is unchanged. A point is inside a bounding box (west, south, east, north) exactly when its latitude lies between south and north and its longitude lies on the arc that goes eastwards from west to east, edges included. That answer does not depend on whether the point or the box is written with -180..180 or 0..360 longitudes (-90..90 or 0..180 latitudes), also when the box crosses the prime meridian or the antimeridian or spans the whole globe.",
 ["inputs"], "every point and every box of a dense coordinate lattice in every notation",
 "One point and two boxes are tested, neither crossing the prime meridian nor in -180..180 notation.",
 ["src/location.rs"],
 [("normalisation helpers", "src/location.rs normalize_*/absolute_*/relative_*"), ("box test", "src/location.rs within_bbox")])

prop("C05", "Distance between two places is the great-circle distance",
 "The distance between any two places equals the great-circle distance on a sphere of 6371 km (metric) or 3956 miles (English) radius, for every pair of places on the globe. It is zero for a place and itself, the same in both directions, never more than half the circumference, finite, and the same whichever notation (longitudes -180..180 or 0..360, latitudes -90..90 or 0..180) is used. It obeys the triangle inequality.",
 ["inputs"], "every ordered pair and triple of places of a lattice covering all latitudes and longitudes",
 "No test calls it.",
 ["src/location.rs", "src/units/mod.rs"],
 [("haversine", "src/location.rs distance"), ("earth radius", "src/units/mod.rs earths_radius")])

prop("C06", "The selected model run is the latest one already available",
 "Given any instant, the selected run time is the latest whole multiple of the model's cycle (00/06/12/18Z for the global wave model, every hour for hourly models) that is at least the publication delay old: 6 hours for station output, 5 hours for gridded output, 2 hours for hourly models. Minutes and finer are zeroed, and day, month, year and leap-day boundaries are crossed correctly. Rounding to a multiple of n hours gives the latest such multiple of that day not after the instant, and the list of runs for an interval is every cycle from the one containing its start to the last not after its end, ascending and 6 hours apart.",
 ["inputs"], "every minute of complete days around every kind of calendar boundary, every n from 1 to 24, every interval of a dense lattice",
 "Tests check one instant per function.",
 ["src/tools/date.rs"],
 [("cycle rounding", "src/tools/date.rs round_to_nearest_multiple_hour"), ("availability delay", "src/tools/date.rs closest_*"), ("run list", "src/tools/date.rs gfs_model_fmrc_datetimes")])

prop("C07", "Every column of a buoy wave-summary file lands in its own field",
 "Reading a buoy wave-summary (.spec) file gives, for each data line and in file order, a record whose UTC time and whose significant height, swell height, swell period, wind-wave height, wind-wave period, swell direction, wind-wave direction, steepness, average period and mean direction are exactly the values in the columns documented in the file's header, in metres, seconds and degrees. A value marked missing (MM, or N/A for steepness) is missing in its own field only. The wave, swell and wind-wave components derived from a record carry the same numbers.",
 ["inputs"], "every combination of present, extreme and missing values over the columns",
 "The tests look at a few fields of one line; two columns were read from the wrong place without a test noticing.",
 ["src/data/wave_data_record.rs", "src/units/steepness.rs", "src/units/direction.rs", "src/dimensional_data.rs"],
 [("column indexing", "src/data/wave_data_record.rs from_data_row"), ("missing value handling", "src/dimensional_data.rs from_raw_data"), ("steepness names", "src/units/steepness.rs")])

prop("C08", "Buoy spectral files keep each value with its own frequency",
 "Reading a buoy spectral file (energy with a separation frequency, or one of the four directional files without) gives, for each data line and in file order, its UTC time, its separation frequency where the file has that column and none where it has not, and every value paired with the frequency printed in parentheses after it, in the same order. No pair is dropped, invented or shifted, for any number of frequency bins. The GRIB inventory reader likewise returns each line's index, byte offset, run time, variable, level and validity unchanged.",
 ["inputs"], "every number of bins from 0 to 70, every value text of a set covering signs, zeros and missing codes at each position, with and without separation frequency",
 "One line of each kind is tested, and only a few of its numbers.",
 ["src/data/spectral_wave_data_record.rs", "src/data/grib_index_record.rs"],
 [("pairing", "src/data/spectral_wave_data_record.rs from_data_row"), ("inventory fields", "src/data/grib_index_record.rs")])

prop("C09", "A truncated or damaged data file never crashes the reader",
 "Cutting any supported text feed (buoy wave summary, buoy spectra, GRIB inventory, wave bulletin, spectral forecast, tide and weather JSON) at any byte, or damaging any single token of it, never makes the reader panic or hang: it returns an error or fewer records. Every record that lies completely before the damage is still returned, identical to what the undamaged file gives. A cut never produces a record whose date or position differs from the one in the undamaged file.",
 ["crash_points", "fault_sequences", "inputs"], "every byte position of representative files as a truncation point, and every token replaced by each of a set of damages",
 "Tests only read intact files; the fault position is what matters.",
 ["src/data/*.rs", "src/tide_station.rs"],
 [("row parsers", "src/data/*_data_record.rs from_data_row"), ("spectral forecast iterator", "src/data/forecast_spectral_wave_data_record.rs parse_next"), ("bulletin reader", "src/data/forecast_cbulletin_wave_data_record.rs")])

prop("C10", "A bad line costs only itself",
 "In a line-oriented feed (buoy wave summary, buoy spectra, GRIB inventory, wave bulletin), the records returned are exactly those of the well-formed data lines, in file order, whatever mixture of comment lines, blank lines, extra spaces, short lines, lines with impossible dates and lines with unreadable text surrounds them. A line's record does not depend on its neighbours. Reading the same text again gives the same records.",
 ["inputs", "histories"], "every sequence of line kinds up to a bounded length",
 "Tests read well-formed files only.",
 ["src/data/wave_data_record.rs", "src/data/spectral_wave_data_record.rs", "src/data/grib_index_record.rs", "src/data/forecast_cbulletin_wave_data_record.rs"],
 [("record iteration", "records() of each collection")])

prop("C11", "Bulletin forecasts carry the right dates, heights and swells",
 "Reading a wave bulletin gives the station name and signed position and model run of its header, and for each table line the UTC time it denotes: its day and hour in the run's month, or in the following month when the day is earlier than the run day, also across the end of a year. The significant height and every swell's height, period and direction are those printed, in line order, with heights converted from feet to metres, and a line may have any number of swells including none. The swell summary of a line with at least one swell lists the same swells and takes period and direction from the first; a line without swells gives an error, not a crash.",
 ["inputs"], "every run date of several years with every lead time, every number of swells from 0 to 6, every hemisphere",
 "Tests use one run date in May; the rollover in December was never exercised.",
 ["src/data/forecast_cbulletin_wave_data_record.rs"],
 [("month rollover", "from_data_row"), ("header regexes", "FromStr for ForecastCBulletinWaveRecordMetadata"), ("swell triples", "from_data_row")])

prop("C12", "Spectral forecast files are read back number for number",
 "Reading a spectral point forecast gives the number of frequencies and directions announced in its header, the frequencies as printed, the directions as the bearing each printed angle stands for to within one degree, and one record per time step with its UTC time, the first step's time as reference, its signed position, depth, wind and current. The energies of a record are exactly the printed numbers in the printed order, frequency running fastest, so that every number sits at its own frequency and direction. This holds for any number of frequencies, directions, time steps and numbers per line, and a number that cannot be read costs its own time step only.",
 ["inputs", "configurations"], "every header shape of a grid of counts (including ones that do not fill the last line), every number of steps up to a bound",
 "One 50 by 36 file is read and its numbers are not compared with the text.",
 ["src/data/forecast_spectral_wave_data_record.rs", "src/spectra.rs"],
 [("header", "FromStr for ForecastSpectralWaveDataRecordMetadata"), ("step", "ForecastSpectralWaveRecordIterator::parse_next"), ("index arithmetic", "src/spectra.rs energy_at / energy_indices")])

prop("C13", "Grid neighbours wrap around direction only and are mutual",
 "On a frequency by direction grid every cell's neighbours are exactly the cells one step away in frequency, direction or both, where direction is circular and frequency is not. No neighbour is missing or repeated, a cell is not its own neighbour, and neighbourhood is mutual.",
 ["inputs"], "every cell of every grid up to 40 by 40 with at least 3 directions",
 "Tests only count the neighbours of four cells, and a repeated neighbour keeps the count right.",
 ["src/tools/analysis.rs"], [("neighbour list", "src/tools/analysis.rs nearest_neighbors")])

prop("C14", "Partitioning labels every bin and finds exactly the separate peaks",
 "Partitioning a spectrum gives every bin a label from 1 to the number of swell systems found, each label is used, and the reported size of the label set is one more than that number. The number of systems equals the number of separate peaks of the spectrum at the requested number of levels (plateaus count once; direction is circular), each peak lies in its own system, every system is one connected region, and a bin that only one peak slopes down to belongs to the system of that peak. Data of the wrong size is refused, turning the spectrum by whole direction bins does not change the number of systems, and a blur too narrow to reach the next bin finds the same systems as no blur.",
 ["inputs", "configurations"], "every energy pattern over small grids and a small set of levels, plus structured patterns on realistic grids, for level counts from 2 to 300",
 "The only test checks that a random grid does not fail.",
 ["src/tools/analysis.rs", "src/spectra.rs"],
 [("immersion by levels", "src/tools/analysis.rs watershed"), ("resolution of boundary bins", "src/tools/analysis.rs watershed (post pass)")])

prop("C15", "Splitting a spectrum into its systems loses and invents no energy",
 "The spectrum of one system holds the original energy at exactly the bins carrying that label and zero elsewhere, on the same frequency and direction axes and convention. Splitting into all systems therefore assigns every bin's energy to exactly one of them, bin by bin. A requested limit only shortens the list.",
 ["inputs"], "every label assignment over small grids, every limit",
 "Not tested.",
 ["src/spectra.rs"], [("masking", "src/spectra.rs from_component"), ("enumeration", "src/spectra.rs split_from_components")])

prop("C16", "Extracted swells conserve energy and describe their own bins only",
 "For any spectrum and labelling, the wave height of the summary and of each system is four times the root of the energy integrated over the bins concerned (plus the high-frequency tail), so the squared heights of all systems add up to the squared summary height when no system is left out, and heights scale with the root of the energy. A system's period is one over the frequency of its own highest one-dimensional peak, its density the top of the parabola through the three bins there, and its direction the energy-weighted mean of its own bins, whatever other systems contain. Systems under 0.1 m are left out, the rest are reported once each from most to least energetic with their label, and the summary energy is the sum of theirs; the swells of a point forecast or a buoy spectrum are those of its own spectrum, depth and wind.",
 ["inputs", "configurations"], "every labelling and energy pattern over small grids, with and without depth and wind",
 "One real file's summary numbers are compared in one test; conservation and isolation are not.",
 ["src/tools/waves.rs", "src/spectra.rs"], [("integration", "src/tools/waves.rs pt_mean")])

prop("C17", "Tracked swell systems keep one identity and never share one",
 "Tracking swell systems through a series of time steps returns the same swells in the same order with only their identity changed, and the first step keeps its identities. Within a step no identity occurs twice, a system that follows no earlier one gets an identity not used before, and an identity is carried from one step only to a swell of the next step whose direction differs by at most the allowed angle around the circle, north included. When each swell of a step has exactly one candidate within that angle in the previous step and no two share it, every identity is carried on; steps without any swell do not crash the tracking or cause identities to be reused.",
 ["histories"], "every history of up to 4 steps over small sets of swells, including empty steps, equal times and directions on both sides of north",
 "Not tested beyond a smoke run over one real file.",
 ["src/tools/waves.rs"], [("matching", "src/tools/waves.rs track_partitions"), ("identity allocation", "src/tools/waves.rs track_partitions")],
 state=[("partition map", "identity of every swell of every step", "src/tools/waves.rs track_partitions")])

prop("C18", "Mirror-image swells are filtered, and nothing else is",
 "Of the swells of a summary, the ones reported as probably false are exactly those with the same printed period as an earlier, more energetic swell that is the first with that period, and pointing the opposite way (170 to 190 degrees apart). Filtering removes exactly those and keeps the others unchanged and in order. The answer is the same every time it is asked for and in ascending order, and a swell without a direction is never a reason to crash.",
 ["inputs"], "every list of up to 5 swells over a small set of periods and directions, missing directions included",
 "Not tested.",
 ["src/swell.rs", "src/units/direction.rs"], [("grouping by period", "src/swell.rs probable_false_components"), ("filter", "src/swell.rs filtered_components")])

prop("C19", "Curve interpolation hits its knots, stays in range and keeps monotony",
 "One-dimensional interpolation through given points returns each point's own value at that point, stays between the two surrounding values in between (so it never overshoots and keeps rising or falling data rising or falling), is continuous, and beyond the ends returns the end value. Scaling or shifting the values does the same to the result. The circular version treats 0 and 360 degrees as the same direction, gives the same whether north is written as 0 or as 360, and turns with its data.",
 ["inputs"], "every sequence of values from a small set over every spacing pattern, up to 6 points, probed on a fine grid",
 "Tests use four hand-picked curves.",
 ["src/tools/interpolation.rs"], [("slopes", "src/tools/interpolation.rs PchipInterpolator::new"), ("evaluation", "interpolate / find_interval"), ("periodic extension", "circular_pchip_interpolate")])

prop("C20", "Regridding a spectrum keeps its shape, sign and directions",
 "Interpolating a spectrum to its own frequencies and directions gives the same energies, whatever order or convention its directions are stored in; the result is laid out on the requested grid in the coming-from convention. Every interpolated energy is non-negative, finite and not above the largest energy of the surrounding bins; it is zero below the lowest source frequency and keeps the last bin's energy above the highest. Directions on both sides of north are neighbours, and turning the source by whole bins turns the result.",
 ["inputs", "configurations"], "every energy pattern over small grids, every direction order and convention, targets on, between and outside the bins",
 "Tests exercise one real file with loose expectations.",
 ["src/spectra.rs", "src/tools/interpolation.rs"], [("regridding", "src/spectra.rs interpolate_to_grid")])

prop("C21", "Spectral lookups return the bins and energies around a point",
 "Looking up a frequency returns the adjacent pair of bins that encloses it, looking up a direction likewise with the last and first bins adjacent around the circle, and values outside the frequencies return the end bin twice. Interpolated energy equals a bin's energy at that bin, lies between the four surrounding energies elsewhere, and is finite everywhere. Interpolated frequency and direction at a fractional index equal the bin's value at whole indices and lie between the two bins otherwise, clamped at the ends.",
 ["inputs"], "every energy pattern over small grids, probed at, between and beyond all bins on both axes",
 "Not tested.",
 ["src/spectra.rs", "src/tools/analysis.rs"], [("bracketing", "src/spectra.rs closest_k / closest_th"), ("bilinear", "src/tools/analysis.rs bilerp / lerp"), ("index interpolation", "src/spectra.rs ik / ith")])

prop("C22", "One-dimensional spectra and moments are the integrals they claim to be",
 "Integrating a spectrum over direction gives, per frequency, the sum of its energies times the direction bandwidths, and over frequency the same with the roles exchanged, so integrating either result over the other axis gives the same total. The frequency moments per direction and the directional moments per frequency are the sums weighted with the power of the frequency, respectively of the sine and cosine of the direction. All of them are linear in the energy and each bin contributes to its own row and column only.",
 ["inputs"], "every single-bin and every small energy pattern over grids of unequal sides and uneven spacing",
 "Not tested.",
 ["src/spectra.rs", "src/tools/vector.rs"], [("integration", "src/spectra.rs oned / mom_f / mom_d"), ("bandwidths", "src/tools/vector.rs diff")])

prop("C23", "The polar picture shows at each pixel the nearest spectral bin",
 "In the polar picture of a spectrum the radius is proportional to the period (raised to the chosen exponent), with the period threshold at the rim, and north at the top turning clockwise. Each pixel shows the bin whose position is nearest to it, and bins with a period above the threshold are never shown. The precomputed mapping and the direct projection give the same picture for any data, and the picture does not depend on the order or convention in which directions are stored.",
 ["inputs", "configurations"], "every pixel of pictures of all sizes 2..24 for small grids, every threshold and exponent of a set, all conventions",
 "A test only checks the size of one picture.",
 ["src/spectra.rs"], [("mapping", "src/spectra.rs compute_cartesian_projection_map"), ("projection", "project_cartesian / project_cartesian_with_map")])

prop("C24", "Contours are closed, finite, inside the grid and labelled in order",
 "Contouring any field gives one feature per threshold in order, all rings are closed and all coordinates are finite and inside the mapped extent of the grid; the normalised level runs from 0 at the first threshold to 1 at the last. A grid cell centre lies inside the feature of a threshold exactly when its value reaches the threshold, for values away from it. Grids that go round the globe are closed with their first column so that no seam is left, and missing values lie outside every contour.",
 ["inputs", "configurations"], "every 0/1/2 field over small grids with every threshold list of a set, with and without global wrap and missing cells",
 "Tests only count features of one or two fields.",
 ["src/tools/contour.rs", "src/spectra.rs"], [("contours", "src/tools/contour.rs compute_contours"), ("geographic mapping and wrap", "compute_latlng_gridded_contours"), ("spectral contours", "src/spectra.rs contoured")])

prop("C25", "Buoy directional spectra reproduce the measured energy and moments",
 "Reconstructing a directional spectrum from energy, mean and principal direction and the two spreading coefficients puts at every frequency and direction E/pi*(1/2 + r1 cos(a - a1) + r2 cos 2(a - a2)), never below zero, so that over a uniform full circle it integrates back to E wherever nothing was clipped, and its mean direction is the measured one. A frequency with any missing measurement is zero at all directions and does not affect the others. The date and frequencies are those of the energy record.",
 ["inputs"], "every combination of measured values, missing codes per frequency and per quantity, for uniform direction grids of 3 to 72 bins",
 "Tests compare one summary number of one file.",
 ["src/data/directional_spectral_wave_data_record.rs", "src/tools/math.rs"], [("reconstruction", "DirectionalSpectralWaveDataRecord::new")])

prop("C26", "Linear wave theory holds at every period and depth",
 "Wavelength, wave number and celerity for a period and depth satisfy the linear dispersion relation w^2 = g k tanh(k h) within the accuracy of the formulas used (0.1 % for the iterative solution, 1 % for the direct approximations), tend to deep-water values (1.56 T^2) in deep water and to the root of g h in shallow water, and never decrease with period or depth; celerity is wavelength times frequency. The group velocity is between half of and the whole phase velocity. Wave energy grows with the square of height and period, shoaling and refraction coefficients tend to one in deep water, and refraction turns waves towards shore-normal following Snell's law; the moments and steepness of a frequency band follow their textbook formulas, and the peak frequency of a wind sea falls steadily with time, the faster the stronger the wind.",
 ["inputs"], "every period from 0.5 to 60 s and depth from 0.1 to 10000 m on a dense lattice",
 "One breaking height is tested; the dispersion relation is not.",
 ["src/tools/waves.rs"], [("dispersion", "src/tools/waves.rs ldis / wavenu3 / wavenuma"), ("celerity and wavelength", "celerity / wavelength"), ("coefficients", "refraction_coefficient / shoaling_coefficient")])

prop("C27", "Breaking heights depend only on the angle between swell and beach",
 "A swell coming straight at a beach, or less than 90 degrees off it on either side and also across north, gets a finite positive breaking height, and one along it none worth mentioning; one from behind the beach is refused as out of range. Turning swell and beach together by any angle changes nothing, swapping the side of the beach the swell comes from changes nothing, and the breaking height never falls when the offshore height grows and never rises when the swell becomes more oblique. The breaking depth is positive and grows with the breaking height.",
 ["inputs"], "every swell bearing against every beach bearing, over heights, periods, slopes and depths of a lattice",
 "One combination is tested.",
 ["src/tools/waves.rs"], [("incidence", "src/tools/waves.rs estimate_breaking_wave_height"), ("breaking", "break_wave")])

prop("C28", "Numeric helpers hold for every sequence and every iteration order",
 "Evenly spaced sequences have the requested length, begin and end at the given values, report their remaining length exactly, and yield every element exactly once whatever mixture of taking from the front and from the back is used. Sorting indices puts the data in ascending order, is a permutation and keeps ties in input order; differences add back up to the data; packing to bytes and back reproduces values to within one step and preserves order; minimum and maximum ignore missing values, and filling replaces exactly those. Wind speed and bearing from components recombine to the components, with the bearing a coming-from bearing in 0..360.",
 ["inputs", "histories"], "every operation sequence up to length 10 over sequences of every length up to 9, every data vector up to length 6 over a small set with missing values",
 "Tests use one vector per helper and only iterate forwards.",
 ["src/tools/linspace.rs", "src/tools/vector.rs", "src/tools/math.rs", "src/tools/analysis.rs"],
 [("double-ended iterator", "src/tools/linspace.rs"), ("vectors", "src/tools/vector.rs"), ("scalar_from_uv", "src/tools/math.rs"), ("detect_peaks", "src/tools/analysis.rs")])

prop("C29", "Whatever is written as JSON reads back as the same thing",
 "Every record, measurement, direction, swell, summary, spectrum, station and metadata value that the library can write as JSON can be read from that JSON again and gives the same value, field by field, missing values included. Writing it a second time gives the same text. Decimals of more than fifteen digits come back to within one part in 10^15. Measurements also carry the printed label of their unit.",
 ["inputs"], "every enum variant, every optional field present or absent, every record type, dates across the calendar",
 "One measurement is round-tripped; tide records could not be read back at all.",
 ["src/data/*.rs", "src/dimensional_data.rs", "src/swell.rs", "src/spectra.rs", "src/units/*.rs", "src/tide_station.rs", "src/location.rs", "src/solar.rs"],
 [("serde derives and custom (de)serialisers", "src/dimensional_data.rs, src/data/tidal_data_record.rs, src/tools/serde.rs")])

prop("C30", "Sunrise and sunset bracket the day, or are absent",
 "For every place and date nothing is reported where the sun stays up or down all day, and otherwise the reported sunrise comes before the sunset, less than 24 hours apart, and both lie within a day of the given date's local solar day; at mid and low latitudes the day length is within 20 minutes of the astronomical day length. Days are longest at the local summer solstice and mirrored between hemispheres half a year apart. The answer does not depend on the longitude notation, and an impossible coordinate yields nothing rather than a wrong answer.",
 ["inputs"], "every day of leap and common years at a lattice of latitudes and longitudes",
 "One day at one place is tested.",
 ["src/solar.rs", "src/location.rs"], [("events", "src/solar.rs calculate_solar_events")])

prop("C31", "Tide and weather feeds and their request addresses are exact",
 "Tide predictions are read with their exact UTC minute, value (text or number) and high/low kind, in order; weather periods keep their times converted to UTC, day/night flag, texts, and temperature, dew point, humidity, wind speed and direction with the unit given in the feed, also for a wind range or a wind without a unit. Station lists keep every station and finding by identifier returns the station with that identifier if and only if there is one. Request addresses contain exactly the station, dates to the minute, datum, interval, units or grid cell asked for.",
 ["inputs", "configurations"], "every combination of datum, interval and unit system, dates at every kind of calendar boundary, every optional field present or absent, every wind text shape",
 "One stored response of each kind is read.",
 ["src/tide_station.rs", "src/data/tidal_data_record.rs", "src/data/nws_weather_forecast_data_record.rs", "src/weather.rs"],
 [("tide JSON", "src/data/tidal_data_record.rs"), ("weather JSON", "src/data/nws_weather_forecast_data_record.rs"), ("addresses", "src/tide_station.rs tidal_data_url, src/weather.rs")])

prop("C32", "Station metadata and observation feeds keep every field in place",
 "Reading the active-station list gives each station its identifier, position, owner, program, type and availability flags as written, and a display name without the dashes and numbers of the written one; a station counts as active exactly when at least one of the four kinds of data is available, and finding by identifier or joining observations to stations loses and invents nothing. Meteorological and latest-observation files give each line's time and each value in its own documented column, missing where marked MM, and archived observations and spectra give each value at its own time and frequency, missing exactly at the documented missing codes; a malformed line costs only itself. Data addresses contain the station identifier, the path documented for that kind of data and the constraints asked for, and constraint texts are read back unchanged (a number written with a plus sign or leading zeros in its plain form) or refused.",
 ["inputs", "configurations", "fault_sequences"], "every combination of availability flags, every column present or missing, every station type, every sequence of good and bad lines, every cut of a file",
 "One stored list and a few lines are read, and the availability of meteorological data was always reported as false without a test noticing.",
 ["src/buoy_station.rs", "src/data/meteorological_data_record.rs", "src/data/latest_obs_data_record.rs", "src/data/swden_wave_data_record.rs", "src/tools/dap.rs"],
 [("station XML", "src/buoy_station.rs"), ("met columns", "src/data/meteorological_data_record.rs"), ("latest observation columns", "src/data/latest_obs_data_record.rs"), ("archived observations", "src/data/swden_wave_data_record.rs, MeteorologicalDataRecord from DODS"), ("constraints", "src/tools/dap.rs")])

prop("C33", "The model time axis and addresses are consistent",
 "For every model the hour of each output step increases, its steps have the documented spacing before and after the change of resolution, and converting an hour to a step and back returns the hour. Request addresses name the run's date and cycle and the forecast hour with the documented width. The hours of a requested range are exactly the output hours from the step at its start to the step at its end, neither repeated nor skipped.",
 ["inputs", "configurations"], "every output step of every model, every run hour",
 "Tests need the network or compare one address.",
 ["src/model/noaa_model.rs", "src/model/gfswave.rs", "src/model/gefswave.rs", "src/model/nwps.rs"],
 [("time resolution", "src/model/noaa_model.rs ModelTimeOutputResolution"), ("addresses", "src/model/*.rs create_url")])

prop("C34", "Grid forecasts use the cells around a place and keep each variable apart",
 "A value asked for at a place is taken from the cells within the tolerance of that place and from no other, either side of the meridians, and is missing when there is none; the nearest value is that of the nearest cell and an interpolated one lies on the surface through the cells around it. A point forecast built from a set of messages has every variable in its own field, every swell partition and the wind sea with its own height, period and direction, whatever the order of the messages, and missing where the message is missing, with directions averaged around the circle. Contours of a grid in converted units are the contours of the converted numbers, labelled in that unit.",
 ["inputs", "configurations"], "every subset and order of the variables, every small grid and place, missing cells",
 "Nothing is tested without a GRIB file from the network.",
 ["src/model/noaa_model.rs", "src/data/gfs_wave_grib_point_data_record.rs"],
 [("cells of a place", "src/model/noaa_model.rs query_location_*"), ("point record", "src/data/gfs_wave_grib_point_data_record.rs"), ("contours", "src/model/noaa_model.rs contour_data")])

prop("C35", "Unit spellings, labels and printed measurements mean what they say",
 "Every known spelling of a unit, in any letter case and with blanks around it, and every label the library prints is read as that unit, any other text as an unknown unit, and no two units share a label or a name. A measurement prints its value to one decimal with the label of its unit (a bearing with its compass point), and N/A exactly when it is missing; a swell prints its height, period and direction. Steepness classes print in a form read back as the same class, and unit systems by their lower-case name.",
 ["inputs"], "every spelling in every letter case, every short text, every value of a lattice in every unit",
 "A few conversions are tested; the spellings and labels are not.",
 ["src/units/mod.rs", "src/units/steepness.rs", "src/dimensional_data.rs", "src/swell.rs"],
 [("spellings", "src/units/mod.rs From<&str> for Unit"), ("labels", "src/units/mod.rs abbreviation"), ("printing", "src/dimensional_data.rs Display / try_string")])

prop("C36", "An answer depends on what is asked alone, not on what was asked before",
 "The same question with the same arguments is answered alike to the last bit however often it is asked, whatever was asked before it and in whatever order, on one thread or another, in one process or another. Arguments that differ in any respect, be it one value, the order or the shape of a list, are told apart whatever has been asked about the others. An object answers as if nothing else had been asked of it, and after one of its fields is changed it answers as an object made that way; only questions about the current moment are excepted.",
 ["histories", "inputs"], "every question of a catalogue of 700 over the whole interface, every order of two of them and of three of a kind, every order of questions to one object",
 "Every test asks once; results kept from one question to the next, keyed too coarsely or left stale, only show in sequences.",
 ["src/**/*.rs", "src/spectra.rs", "src/tools/*.rs", "src/data/*.rs", "src/model/*.rs"],
 [("grid and spectral analysis", "src/tools/analysis.rs, src/spectra.rs"), ("dispersion and tracking", "src/tools/waves.rs"), ("feeds", "src/data/*.rs"), ("stations and models", "src/buoy_station.rs, src/tide_station.rs, src/model/*.rs")])

if __name__ == "__main__":
    for d in P:
        print(json.dumps(d, ensure_ascii=False))
