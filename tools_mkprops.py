"""Writes properties.jsonl (kept as a script so ids, titles and statements stay in one reviewable place)."""
import json
P = []
def p(id, title, statement, over, text, why, files, mech, **kw):
    P.append(dict(id=id, title=title, statement=statement,
                  quantifier=dict(over=over, text=text), why_tests_cant=why,
                  anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech], **kw)))
SUB="emc2/simulator/subcolumn.py"; RAD="emc2/simulator/radar_moments.py"; LID="emc2/simulator/lidar_moments.py"
ATT="emc2/simulator/attenuation.py"; CLS="emc2/simulator/classification.py"; PSD="emc2/simulator/psd.py"; MAIN="emc2/simulator/main.py"
MOD="emc2/core/model.py"; INS="emc2/core/instrument.py"; INSS="emc2/core/instruments.py"; AGG="emc2/statistics_LLNL/statistical_aggregation.py"

p("C01","Convective subcolumns hold exactly the model's convective fraction",
  "For every model profile and hydrometeor class, the number of subcolumns marked convective at a level equals the model's convective fraction times the number of subcolumns, rounded to the nearest integer, and the marked subcolumns are always the lowest-numbered ones, so that convective classes overlap maximally with each other and vertically. With radiation logic the radiation-scheme fraction is used and levels whose convective mixing ratio does not exceed the truncation threshold (1e-18 kg/kg by default) get no convective subcolumns; with microphysics logic the microphysics fraction is used as is. Requesting a number of subcolumns that contradicts the one already set raises ValueError, and a single-subcolumn run marks a cell exactly where the mixing ratio exceeds the threshold.",
  ["inputs","configurations"],"all fraction/mixing-ratio fields (0, 1, ties, sub-threshold q), all numbers of subcolumns >= 1, both logics, any number of time steps and levels",
  "the tests generate subcolumns for one fixed ModelE file and compare a few aggregate values; they do not vary the fractions, the threshold or the subcolumn count",
  [SUB],[("set_convective_sub_col_frac","emc2/simulator/subcolumn.py:7")])
p("C02","Stratiform cloud subcolumns: exact fraction, maximum-random overlap",
  "At every level below the model top, each of stratiform cloud liquid and cloud ice occupies exactly round(fraction x number of subcolumns) subcolumns, capped by the subcolumns left free by convective cloud (cells where both classes fill every subcolumn fill them all), and never occupies a convective-cloud subcolumn otherwise; the topmost level is never allocated. The less abundant of the two classes lies entirely inside the more abundant one, and where the level directly above is also cloudy, as many cloudy subcolumns as possible coincide with the non-convective ones occupied above, those holding both classes above being used first (maximum overlap); otherwise placement is random. Which fraction (radiation or microphysics) and the mixing-ratio threshold follow the same rules as for convection, and one subcolumn means presence wherever mixing ratio exceeds the threshold.",
  ["inputs","configurations","schedules"],"all cl/ci fraction profiles, convective masks, subcolumn counts, random seeds, serial, parallel and chunked processing",
  "tests use one data set and check means; the four-way overlap branching depends on orderings of counts that the sample never produces, and results are random",
  [SUB],[("set_stratiform_sub_col_frac","emc2/simulator/subcolumn.py:93"),("_allocate_strat_sub_col","emc2/simulator/subcolumn.py:604")])
p("C03","Precipitation subcolumns: exact fraction, overlap preference order",
  "At every level below the top each precipitation class (convective or stratiform) occupies exactly round(fraction x number of subcolumns) subcolumns, and classes at one level are nested (maximum overlap) with the most abundant class enclosing the others; the top level is never allocated. The subcolumns filled by precipitation at a level are taken first from those with precipitation in the level directly above, then from those holding cloud of the same kind (convective or stratiform) at that level, and only then from the remaining ones. The fraction field (radiation or microphysics) and mixing-ratio threshold rules are the same as for cloud, for any list of precipitation classes. A request made before the cloud subcolumns exist is refused, naming the missing field.",
  ["inputs","configurations","schedules"],"all precipitation fraction profiles, any set of precipitation classes, cloud masks, subcolumn counts, seeds, serial, parallel and chunked processing",
  "placement is random and branches on orderings of remaining counts; tests check one sample",
  [SUB],[("set_precip_sub_col_frac","emc2/simulator/subcolumn.py:240"),("_allocate_precip_sub_col","emc2/simulator/subcolumn.py:696")])
p("C04","Water and number are distributed to subcolumns without gain or loss",
  "Hydrometeor mixing ratio is placed only in subcolumns where the class is present; with homogeneous distribution each of those receives the in-cloud mean (grid mean divided by the class's fraction; a single subcolumn likewise, and zero where the class has no fraction) and number concentration is likewise the grid mean divided by the microphysics-or-radiation fraction in use. With sub-grid cloud-water variability the values in a cell are non-negative and their sum over its occupied subcolumns equals in-cloud mean times number of occupied subcolumns, with relative variance taken from the model's field when it has one and from the argument otherwise. No NaN or negative values are produced, empty subcolumns hold exactly zero (number concentration: with more than one subcolumn), and sub-threshold mixing ratios count as zero.",
  ["inputs","configurations","schedules"],"all q, N, fraction fields, presence masks, relative variances, seeds, serial, parallel and chunked processing",
  "tests check a sample mean within a tolerance for one file",
  [SUB],[("set_q_n","emc2/simulator/subcolumn.py:426"),("_distribute_cl_q_n","emc2/simulator/subcolumn.py:763")])
p("C05","Each profile's result is independent of scheduling, batching and history",
  "The result for a model column depends only on that column: the same signals, occupancies and totals come out whether columns are processed serially, in parallel or in chunks of any size, together with others, in another time order or alone, and each is stored at its own time index. Recomputing radar or lidar moments on an already processed model gives the same values as the first computation, and processing never changes the model's input fields or settings, nor the instrument and its tables. With a fixed random seed and scheduler the simulation is reproducible.",
  ["schedules","histories","configurations"],"all chunk sizes (dividing the number of columns or not, larger than it), parallel on/off, permutations and subsets of columns, repeated calls, all radar and lidar approaches",
  "tests call each routine once with one setting; the placement of chunk results and state left in the data set are never exercised",
  [SUB,RAD,LID],[("chunk loops","emc2/simulator/subcolumn.py:540"),("parallel loops in calc_radar_micro","emc2/simulator/radar_moments.py:640"),("parallel loops in calc_lidar_micro","emc2/simulator/lidar_moments.py:648")])
p("C06","Bulk radar reflectivity follows from optical depth and bulk scattering tables",
  "With radiation logic, the reflectivity of each class in each occupied subcolumn equals A x Qback x lambda^4 / (K_w pi^5) in radar units, where A is the scattering cross section per volume from the class's layer optical depth (3 q dp/g / (2 rho r_e), halved and divided by layer depth) and Qback is interpolated from the bulk table at the class's effective radius; ice radii are corrected for fluffiness when the model sets it, and the table follows the model's radiation family (ModelE, CESM/E3SM incl. gamma mu-lambda lookup for liquid, P3 tables). Subcolumns without the class have no reflectivity, totals over classes are linear sums, and outputs are in dBZ with no infinities. The hydrometeor extinction used for attenuation is the sum of A x Qext over classes.",
  ["inputs","configurations"],"all instruments, model families, effective radii (in and out of table range), mixing ratios, fractions, convective and stratiform, subsets and orders of hydrometeor classes",
  "tests compare one instrument and file against fixed numbers of a few fields",
  [RAD],[("calc_radar_bulk","emc2/simulator/radar_moments.py:242"),("P3 bulk","emc2/simulator/radar_moments.py:370")])
p("C07","Radar moments with microphysics logic are the PSD integrals of the tables",
  "With microphysics logic, each class's reflectivity, mean Doppler velocity and spectral width in a subcolumn are the zeroth, first and second (square root of central) moments of terminal velocity over particle size distribution weighted by the table's single-particle backscatter, with fall velocity a D^b (sign: downward negative) scaled by (reference/actual air density)^0.54 where the model asks for it. The totals over classes are the reflectivity sum, the reflectivity-weighted mean velocity and the spectral width about that total mean, all independent of the order of classes. Levels or subcolumns without hydrometeors carry no signal and hydrometeor extinction sums over all classes.",
  ["inputs","configurations"],"all models, PSD parameters, air densities, class subsets and orders, instruments, spectral width on or off",
  "tests check one file and a few fields against stored numbers",
  [RAD],[("calc_radar_micro","emc2/simulator/radar_moments.py:469"),("_calc_sigma_d_tot","emc2/simulator/radar_moments.py:1085")])
p("C08","Empirical reflectivity and lidar relations",
  "With empirical calculation, reflectivity of cloud liquid is 0.031 WC^1.56, of rain (WC/3.4 in mg/m3)^1.75 and of ice follows the frequency-band fit of Hogan et al. (2006) as a function of ice water content and temperature, with WC the in-subcolumn water content from mixing ratio and air density; class totals are linear sums and outputs in dBZ. Liquid attenuation from the dielectric absorption coefficient accounts for the water content of all liquid classes accumulated from the instrument outwards. For lidar, liquid extinction is 3 WC/(2 rho r_e), ice extinction (WC/a(T))^(1/b(T)), and backscatter is extinction over the class's lidar ratio.",
  ["inputs","configurations"],"all radar bands, temperatures, mixing ratios, class subsets, ground-based and spaceborne orientation",
  "tests cover a single radar and one data set",
  [RAD,LID],[("calc_radar_empirical","emc2/simulator/radar_moments.py:154"),("calc_lidar_empirical","emc2/simulator/lidar_moments.py:203")])
p("C09","Radar path attenuation, total reflectivity and minimum detectable signal",
  "Attenuated reflectivity equals total reflectivity times the two-way hydrometeor and gaseous transmittances accumulated from the instrument (surface up, or top down) and excluding the layer itself; transmittances lie in (0, 1] and never increase away from the radar. Gaseous attenuation follows the documented oxygen and water-vapour formulas, is unaffected by the units in which temperature, pressure and height are stored, and the minimum detectable reflectivity is the 1 km value plus 20 log10(range / reference range). The stratiform plus convective total is a linear sum of available parts, and the detection mask, when requested, hides exactly cells whose attenuated reflectivity is below the minimum detectable.",
  ["inputs","configurations"],"all atmospheric profiles, height grids, instruments, viewing geometry, reference ranges, units of stored fields",
  "tests evaluate one profile with one orientation",
  [ATT,RAD],[("calc_radar_atm_attenuation","emc2/simulator/attenuation.py:34"),("calc_radar_Ze_min","emc2/simulator/attenuation.py:7"),("calc_total_reflectivity","emc2/simulator/radar_moments.py:21"),("accumulate_attenuation","emc2/simulator/radar_moments.py:73")])
p("C10","Lidar backscatter and extinction per class follow the scattering tables",
  "Per-class lidar backscatter and extinction equal, with radiation logic, layer cross section times the bulk table's efficiencies at the effective radius (fluffiness-corrected for ice, tables by radiation family) and, with microphysics logic, the integral of the single-particle table over the class's size distribution. They are zero or missing where the class is absent, scale linearly with mixing ratio at fixed effective radius, and class totals are sums over classes irrespective of order. Class optical depth is the accumulation of the class extinction along the path.",
  ["inputs","configurations"],"all lidars, model families, radii, fractions, class subsets and orders, convective and stratiform",
  "tests check a few instruments on one file",
  [LID],[("calc_lidar_bulk","emc2/simulator/lidar_moments.py:291"),("calc_lidar_micro","emc2/simulator/lidar_moments.py:523")])
p("C11","Molecular scattering and transmittance follow the documented theory",
  "For any temperature, pressure and wavelength, the molecular scattering cross section, extinction and volume backscatter equal the Rayleigh expressions (Edlen refractive index corrected to ambient conditions, depolarisation 0.035) and do not depend on the units in which the model stores temperature, pressure or height. Molecular transmission is exp(-2 x trapezoidal integral of the extinction) from the instrument (surface or top), equals one at the instrument-side boundary and never increases away from it.",
  ["inputs","configurations"],"all profiles, lidar wavelengths, orientation, units",
  "a single lidar and profile are tested",
  [ATT],[("calc_theory_beta_m","emc2/simulator/attenuation.py:99")])
p("C12","Lidar path: optical depth, attenuated backscatter, LDR and extinction mask",
  "Hydrometeor optical depth at a layer is the sum of extinction times layer depth between the instrument and that layer (excluding it), zero at the first layer and never decreasing away from the instrument, for ground-based and spaceborne geometry. Total attenuated backscatter is (molecular + hydrometeor backscatter) x molecular two-way transmission x exp(-2 eta OD); total backscatter, extinction and OD sum convective and stratiform parts, and the linear depolarisation ratio is the backscatter-weighted mean of the class values given by the caller or the model. The extinction mask marks layers whose OD exceeds the threshold as 2, the last layer before the transition as 1 and everything else 0.",
  ["inputs","configurations"],"all profiles, eta, OD thresholds, geometry, with and without convection",
  "one data set with one geometry is tested",
  [LID],[("accumulate_OD","emc2/simulator/lidar_moments.py:159"),("calc_total_alpha_beta","emc2/simulator/lidar_moments.py:14"),("calc_LDR_and_ext","emc2/simulator/lidar_moments.py:75")])
p("C13","Particle size distributions reproduce the model's mass and number",
  "For every class and subcolumn with positive mixing ratio and number, the gamma or exponential size-distribution parameters satisfy both moments: integrating N0 D^mu exp(-lambda D) gives the number concentration and weighting by particle mass (pi/6 rho D^3) gives the mixing ratio; where mixing ratio is zero there is no distribution. The shape parameter of stratiform cloud liquid is Martin et al. (1994) dispersion clipped to the given bounds, or 1/0.09 when dispersion is off, and zero for other classes; P3 ice and rain use their own lookup relations. Fall velocities for the NSSL scheme and unknown microphysics schemes (ValueError) behave as documented.",
  ["inputs","configurations"],"all q, N, class densities, dispersion bounds and flags, microphysics schemes",
  "two unit tests on fixed numbers",
  [PSD],[("calc_mu_lambda","emc2/simulator/psd.py:46"),("calc_and_set_psd_params","emc2/simulator/psd.py:154"),("calc_velocity_nssl","emc2/simulator/psd.py:8")])
p("C14","Radar-sounding phase classification follows signal and presence",
  "The radar classification gives class 3 exactly where attenuated reflectivity reaches the minimum detectable signal without cloud liquid, 2 where cloud liquid is present and the signal is detected, 1 where cloud liquid is present but not detected, and 0 elsewhere or outside the requested height range (in the model's height units). It is applied to stratiform, convective (when the model processes convection) and combined fields independently. Non-radar instruments are rejected with ValueError.",
  ["inputs","configurations"],"all combinations of presence and reflectivity (including missing), height ranges, model settings",
  "tests do not cover the classifier beyond existence",
  [CLS],[("radar_classify_phase","emc2/simulator/classification.py:98")])
p("C15","Lidar phase classification follows the threshold lines and detectability",
  "A lidar cell is given the class of the last matching threshold line whose log-interpolated backscatter at the cell's depolarisation ratio is not above the cell's backscatter, and 0 if none matches; with sub-detect removal, cells whose optical depth exceeds the instrument's extinction limit are 0. This holds for stratiform, convective and combined output and for user thresholds. Radars or instruments without thresholds raise ValueError.",
  ["inputs","configurations"],"all LDR/backscatter/OD values including boundaries and missing data, all threshold sets",
  "not tested",
  [CLS],[("lidar_classify_phase","emc2/simulator/classification.py:8")])
p("C16","COSP lidar emulation classifies phase as the published scheme does",
  "The COSP-style emulator computes total and cross-polarised attenuated backscatter from liquid, ice and molecular parts and the two-way transmissions, forms the scattering ratio to the molecular return, with all non-liquid classes counted as ice, and assigns liquid or ice (phase-discrimination polynomial with the -40 C and 0 C overrides) only where the scattering ratio exceeds 5, leaving other cells 0. Cells behind a layer of scattering ratio above 30, as seen from the instrument, other than the first reflective layer itself become undefined phase (3). Results respect ground-based or spaceborne geometry and convective, stratiform and combined fields.",
  ["inputs","configurations"],"all backscatter/extinction/temperature combinations, geometry, eta",
  "not tested beyond existence of output",
  [CLS],[("calculate_lidar_cosp / lidar_emulate_cosp_phase","emc2/simulator/classification.py:174")])
p("C17","Phase ratios are the ratios of the counts and masses behind them",
  "The frequency phase ratio is, per cell, the number of subcolumns with one of the numerator classes divided by the number with one of the denominator classes, within [0, 1] for subset numerators and missing where none is classified; the mass phase ratio is liquid mass over total mass among the selected hydrometeors (all non-liquid classes are ice; from masked subcolumns or from the model's stratiform output), missing where there is none. They work for any mask and any selection of mask classes.",
  ["inputs","configurations"],"all masks, class selections, mass fields",
  "not tested",
  [CLS],[("calculate_phase_ratio","emc2/simulator/classification.py:400")])
p("C18","Cropping and stacking of model data lose and reorder nothing",
  "Time cropping keeps exactly the times in [start, end) and leaves the data unchanged (still usable) when the range is outside the data. Stacking latitude, longitude and time for processing and unstacking afterwards returns every variable's values at their own coordinates, for any sizes of these dimensions (a field lacking a stacked dimension may come back repeated along it). Dimension order for processing is time by height, appended-string removal keeps each sub-domain's values, and bounding-box selection returns the requested region.",
  ["inputs","histories","configurations"],"all dimension sizes (including one), orders, time ranges inside, overlapping and outside the data, appended strings",
  "the tests load three fixed files and do not check the restored data",
  [MOD],[("_crop_time_range","emc2/core/model.py:252"),("check_and_stack_time_lat_lon","emc2/core/model.py:402"),("unstack_time_lat_lon","emc2/core/model.py:466"),("remove_appended_str","emc2/core/model.py:335")])
p("C19","Saved, finalised and pruned subcolumn output is faithful",
  "Writing subcolumn output to netCDF and loading it back into a model reproduces every kept variable's values, dimensions and missing cells, and only those asked for are kept; a simulation continued on the loaded model gives what it gives on the saved one, and output of another number of subcolumns than the model holds is refused, as is output that disagrees with output the model already holds (it is never quietly kept in place of the saved one). Finalising turns exactly zeros of subcolumn fields (and extra named fields) into missing values; removing one cloud class's subcolumn fields removes all of them and nothing else. Clipping to the valid range changes only values outside the range.",
  ["inputs","histories"],"all data contents incl. NaN and zeros, variable selections, model shapes",
  "one write is tested without reading back",
  [MOD],[("subcolumns_to_netcdf","emc2/core/model.py:560"),("load_subcolumns_from_netcdf","emc2/core/model.py:578"),("finalize_subcol_fields","emc2/core/model.py:326"),("remove_subcol_fields","emc2/core/model.py:313")])
p("C20","Model readers deliver physical fields in the documented units",
  "Loading a model file yields pressure in hPa, temperature in K, height in m increasing upward with all fields flipped alike, air density p/(R_d T), number concentrations in cm^-3 and effective radii in microns with missing radii as NaN, as derived from the file's contents (hybrid-coordinate pressure included). P3-specific rime fraction, rime density and normalised mass stay within their tables' ranges. Derived fields correspond column by column to the file's own columns. Each reader assigns to each of its hydrometeor classes the documented physical constants (density, lidar and depolarisation ratio, fall-speed coefficients, fluffiness, reference air density) and the names of its own fields.",
  ["inputs","configurations"],"all contents of E3SM/CESM/ModelE/DHARMA-like files, single and multiple columns, time ranges",
  "three fixed files",
  [MOD],[("E3SMv1","emc2/core/model.py:709"),("E3SMv3","emc2/core/model.py:902"),("CESM2","emc2/core/model.py:1079"),("ModelE","emc2/core/model.py:624"),("DHARMA","emc2/core/model.py:1387")])
p("C21","Instruments carry consistent constants and the scattering tables as stored",
  "Every instrument's frequency and wavelength are consistent with the speed of light, its site or variant selects the documented sensitivity (unknown ones are rejected), power, beam, gain and noise constants, and its scattering tables hold the stored values converted to the documented units (sizes in metres from microns, cross sections accordingly), each class's table coming from its own file. Table variables are monotonic in size with non-negative efficiencies. Loading twice, or for different instruments, gives independent equal data.",
  ["inputs","configurations"],"all instruments, sites, table families and options; arbitrary well-formed table files",
  "only one table loader is tested",
  [INS,INSS,"emc2/io/load_mie_file.py","emc2/io/load_scat_file.py","emc2/io/load_bulk_scat_file.py"],[("load_instrument_scat_files","emc2/core/instrument.py:131"),("loaders","emc2/io/load_scat_file.py:5")])
p("C22","Statistical aggregation conserves counts and averages",
  "Vertical regridding returns in each new level the overlap-weighted mean of the old layers (a constant field stays constant, levels outside the model or overlapping missing data missing, logarithmic quantities averaged in linear units when so requested), scattering ratio is attenuated total over molecular backscatter, and lidar cloud fraction is the share of valid subcolumns whose ratio exceeds 5. Reflectivity and scattering-ratio frequency diagrams count every valid subcolumn in exactly the bin containing its value, divided by the number of subcolumns and averaged over time. Results for a column depend only on that column.",
  ["inputs","configurations"],"all signal fields with missing data, height grids, bins, column counts",
  "one test per routine on one file",
  [AGG],[("COSP_CHANGE_VERTICAL_GRID","emc2/statistics_LLNL/statistical_aggregation.py:197"),("CFAD functions","emc2/statistics_LLNL/statistical_aggregation.py:428")])
p("C23","Plots show the stored data and leave it untouched",
  "Every display routine draws exactly the values of the requested field, subcolumn and time at their own time and height (or pressure, which runs downwards) coordinates, profile means and spreads being those of the selected subcolumns and of the times from the start of the selected range (included) to its end (excluded), honours log scaling, limits and masks, and returns the axes and colorbar it drew on. Axes, colour bars, panels and titles drawn without a text of the user's say what they show: the quantity and hydrometeor class or its unit, height or pressure, the times, the model or instrument. Plotting never modifies the model data or arrays handed to it. Unavailable fields or subcolumns are rejected.",
  ["inputs","configurations"],"all fields, subcolumns, time ranges, options of each display method",
  "tests only check that axes have expected limits or labels",
  ["emc2/plotting/subcol_display.py","emc2/statistics_LLNL/statistical_plots.py"],[("SubcolumnDisplay","emc2/plotting/subcol_display.py:21")])
p("C24","Refractive index, aspect-ratio and Mie scattering helpers",
  "The aspect-ratio function equals the Brandes polynomial for all sizes, refractive indices follow the documented formulas of frequency and temperature, and Mie scattering properties computed for any size grid equal independent Mie theory: backscatter and extinction cross sections positive, scattering no larger than extinction, Rayleigh limit at small size parameter, each stored under its own name and unit.",
  ["inputs","configurations"],"all frequencies, temperatures, size grids, refractive indices",
  "one test of one size grid that is not stable",
  ["emc2/scattering/ref_index.py","emc2/scattering/mie_scattering.py"],[("scat_properties_water","emc2/scattering/mie_scattering.py:48"),("brandes","emc2/scattering/mie_scattering.py:13")])
p("C25","The one-call simulator equals its documented stages with options routed",
  "A single simulation call gives the same result as running its documented stages in order with the same options: convective, stratiform and precipitation placement, water and number for every class, forward moments, totals, classification. Options (logic, geometry, reference range, extinction threshold, eta, number of subcolumns, classes, parallelism, skipping or only generating subcolumns, finalising, unstacking) reach the stage they are for, and outputs exist for exactly the classes and cloud types the model processes. Malformed requests are rejected rather than silently changed.",
  ["inputs","configurations"],"all instruments, models with and without convection, all option combinations",
  "tests run the driver with default options only",
  [MAIN],[("make_simulated_data","emc2/simulator/main.py:10")])
p("C26","Outputs describe themselves truthfully",
  "Every output field carries a name and a unit that match what it holds: the unit has the dimension of the quantity, the name mentions the quantity, the hydrometeor class and the cloud type (convective, stratiform, or both for totals), and for path quantities the layer edge (base from the surface, top from the top of the atmosphere) and direction actually used. The recorded processing method and ice scattering database are those that produced the values, also when the same model was processed before with other options; mask legends and flag explanations list exactly the values the mask can hold, in the order of their codes, and phase ratios record the classes they were asked for. Attributes of input fields are never altered.",
  ["inputs","configurations","histories"],"all families, instruments, methods, geometries, options, and sequences of re-processing",
  "tests look at values only, never at attributes",
  ["emc2/simulator/"],[("calc_lidar_moments labels","emc2/simulator/lidar_moments.py:773"),("calc_radar_moments labels","emc2/simulator/radar_moments.py:950"),("mask legends","emc2/simulator/classification.py:91")])
import os; open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "properties.jsonl"), "w").write("".join(json.dumps(x)+"\n" for x in P))
