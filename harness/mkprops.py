import json
P=[]
CL="geocat/comp/climatologies.py"; IN="geocat/comp/interpolation.py"; ME="geocat/comp/meteorology.py"; FO="geocat/comp/fourier_filters.py"; GR="geocat/comp/gradient.py"; SP="geocat/comp/spherical.py"; ST="geocat/comp/stats.py"; UT="geocat/comp/gc_util.py"; DE="geocat/comp/deprecated.py"
def p(id,title,statement,over,qtext,why,files,mech,observe=None,state=None):
    assert len(title)<=80,(id,len(title))
    d=dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=qtext),why_tests_cant=why,
      anchors=dict(files=files,mechanism=[dict(name=a,where=b) for a,b in mech]))
    if state: d['anchors']['state']=[dict(name=a,meaning=b,where=c) for a,b,c in state]
    d['anchors']['observe_at']=observe or ["return value of the public function","exception raised by it"]
    d['anchors']['hook_needed']=None
    P.append(d)

p("C01","calendar_average gives each calendar period its own mean",
"For every uniformly sampled (or one-sample-per-month) series in any CF calendar, calendar_average with freq hour, day or month returns, for every consecutive period from the first to the last datum, the plain mean of the non-missing data of that period (NaN when it has none); with freq season (quarters DJF, MAM, JJA, SON starting in December) or year it returns the mean of the month means weighted by the number of days of each month in the calendar of the data, over the months that have data at that point. Every datum contributes to exactly one period and no period or datum is lost or counted twice, whatever the first and last date.",
["inputs","histories"],"all start dates (leap days and centuries included), lengths, sampling steps, calendars (datetime64, standard, noleap, 360_day, julian, all_leap), NaN patterns, numbers of other dimensions, time axis positions, for the five frequencies",
"Tests use whole calendar years starting on 1 January of one or two fixed datasets without missing data; the partition of the time line into periods and the day weights must be right for every start, end, calendar and gap pattern.",
[CL],[("calendar_average",f"{CL}: calendar_average"),("days-in-month weights",f"{CL}: calendar_average (season, year branch)")],
state=[("period accumulators","sum, count and day weight of the period the clock is in",f"{CL}: calendar_average resample")])
p("C02","Time stamps of averages are the midpoints of their periods",
"The time coordinate returned by calendar_average holds, for each period, the exact midpoint between the start of the period and the start of the next one, in the calendar and time type of the data (datetime64 or cftime); the stamps returned by climatology_average for hour, day and month are cftime midpoints of the matching hours, days or months of one single reference year of the data's calendar, strictly increasing, each lying inside the group it labels. The reference year is the median year of the data (for a half-integer median either neighbouring year), or, for hours and days that include 29 February, a leap year of the data closest to it.",
["inputs"],"all start dates, lengths, sampling steps and calendars for which the averages are defined, all frequencies",
"Tests compare the stamps of a few whole-year files only; month lengths, leap days, seasons spanning a year end and series that cover only part of a year are not sampled.",
[CL],[("_calculate_center_of_time_bounds",f"{CL}: _calculate_center_of_time_bounds")])
p("C03","Hourly, daily and monthly climatologies average all years, nothing else",
"climatology_average with freq hour, day or month returns one entry per distinct (month, day, hour), (month, day) or month that occurs in the data, in calendar order, equal to the plain mean of all non-missing data of that group over all years (NaN when there are none). The result does not depend on how the data are ordered among years, and every datum contributes to exactly one group.",
["inputs","histories"],"all uniformly sampled series in any CF calendar, complete or incomplete years, with or without 29 February, NaN patterns, extra dimensions, time axis positions",
"Tests use complete non-leap years of two fixed datasets; incomplete years, leap days and gaps are only reached by exploring the space of start dates, lengths and calendars.",
[CL],[("climatology_average",f"{CL}: climatology_average")],
state=[("group accumulators","sum and count per month-day-hour, month-day or month label",f"{CL}: climatology_average groupby")])
p("C04","Seasonal climatologies weight months by their number of days",
"climatology_average with freq season returns one entry per requested season, in the requested order and labelled by a season coordinate (default DJF, JJA, MAM, SON; custom_seasons any list or single one of the twelve three-month names), equal to the sum over the months of that season in all years of (days in that month of that year) times (mean of that month), divided by the sum of those days, over the months that have data at that point. A point without data in a season is NaN and does not influence other points, and an unknown season name raises ValueError.",
["inputs"],"all uniformly sampled series, calendars, lists of custom seasons (repeats and any order included), NaN patterns, extra dimensions",
"Tests check one monthly and one daily dataset over whole years without NaN; the day weights under leap years, other calendars and gaps need every combination.",
[CL],[("climatology_average",f"{CL}: climatology_average (season branch)")])
p("C05","climate_anomaly subtracts exactly the climatology of each datum's period",
"climate_anomaly returns, on the time axis and coordinates of its input, every datum minus the mean of its own period: for day, month and season the climatology (over all years) of the datum's calendar day, month or meteorological season, for year the day-weighted mean of the datum's own year. Missing data stay missing and the attributes of the input are kept exactly when keep_attrs is not False.",
["inputs"],"all uniformly sampled series in any calendar, start dates, numbers of years, NaN patterns, the four frequencies, DataArray and Dataset",
"Tests compare a few fixed datasets; years, months and seasons pair up correctly only if grouping keys are right for every date.",
[CL],[("climate_anomaly",f"{CL}: climate_anomaly")])
p("C06","month_to_season averages three consecutive months around the centre month",
"For monthly data whose length is a multiple of twelve, month_to_season returns for each year one plain mean of the three months of the requested season that follow each other in time, stamped with the start of the centre month and kept exactly when the centre month lies within the months of the data; months missing at the ends of the series or NaN are left out of the mean. A length that is not a multiple of twelve raises ValueError, an unknown season KeyError.",
["inputs"],"all twelve seasons, start months, numbers of years, calendars, NaN patterns",
"Tests cover two files that start in January; seasons spanning a year end and series starting in other months need every start month and season.",
[CL],[("month_to_season",f"{CL}: month_to_season")])
p("C07","Climatology functions reject what they cannot average",
"calendar_average, climatology_average and climate_anomaly raise ValueError for a frequency outside their documented list, for data whose time coordinate does not hold dates, and (the averages) for data that are neither uniformly spaced nor one sample per month; climate_anomaly, too, never returns values for them. Uniformly spaced data are never rejected, whatever their start, step (minutes to months), length of at least three samples and calendar.",
["inputs"],"all frequency names, time coordinate types, irregular spacings (one sample dropped, shifted or duplicated in month), calendars",
"Tests try one bad frequency and one irregular series; acceptance must coincide with regularity for every series.",
[CL],[("infer_freq test",f"{CL}: calendar_average, climatology_average"),("_get_time_coordinate_info",f"{CL}: _get_time_coordinate_info")])
p("C08","Climatologies act point by point and on every variable alike",
"For calendar_average, climatology_average, climate_anomaly and month_to_season, the result at one point of the other dimensions depends only on the series at that point, every time-dependent variable of a Dataset gets what it would get alone, and the result is the same whether the data are in memory or chunked by dask in any way, whatever the position and name of the time dimension. Attributes of the data are kept with keep_attrs=True and dropped with keep_attrs=False, and non-time coordinates are preserved.",
["inputs","configurations"],"all arrangements of dimensions, Dataset or DataArray, chunkings, time dimension names, keep_attrs settings",
"Tests use fixed layouts with time first; independence under every layout and chunking is relational and not asserted.",
[CL],[("xarray resample/groupby use",f"{CL}: all public functions")])

p("V01","Hybrid coefficients give level pressures a*p0 + b*ps",
"pressure_at_hybrid_levels returns hya[k]*p0 + hyb[k]*ps at every level k and every point of the surface pressure, level dimension first, for numpy or DataArray input of any dimension. With 1-D numpy surface pressure the result keeps a singleton axis as documented by its shape (levels, 1, n). Inputs that are not all arrays or all DataArrays raise TypeError, coefficients of different lengths (or arrays of more than one dimension) ValueError.",
["inputs"],"all shapes and coefficient vectors, containers, p0",
"Tests check one small example; broadcasting must be right for each number of dimensions.",
[IN],[("pressure_at_hybrid_levels",f"{IN}: pressure_at_hybrid_levels")])
p("V02","Hybrid layer thicknesses are the differences of neighbouring level pressures",
"delta_pressure_hybrid returns, for N interface coefficients, N-1 layers of thickness |p[k+1] - p[k]| with p[k] = hya[k]*p0 + hyb[k]*ps, for every point, whatever coordinates or dimension names the coefficients carry and in whatever container; therefore the thicknesses of a monotone column add up to |p[N] - p[1]|. Coefficients of different lengths or of more than one dimension raise an error, and a DataArray result carries the unit Pa.",
["inputs"],"all coefficient vectors, orders (top-down, bottom-up), shapes, containers, p0",
"Tests check a few columns; label alignment between neighbouring levels depends on coordinates that tests do not vary.",
[IN],[("delta_pressure_hybrid",f"{IN}: delta_pressure_hybrid")])
p("V03","interp_hybrid_to_pressure interpolates each column between its own levels",
"With extrapolate=False, interp_hybrid_to_pressure returns at every point and every requested pressure the linear (or, with method log, logarithmic in pressure) interpolation between the two enclosing levels of that column, with pressures hya*p0 + hyb*ps, the level's own value where the pressures coincide, and NaN outside the range of the column. Values stay attached to their requested level in any order of new_levels, and the other dimensions, coordinates and data names are preserved with plev in place of the level dimension. Without new_levels the levels are the 21 standard ones from 1000 to 1 hPa.",
["inputs"],"all data with 1 to 4 dimensions, level dimension positions, coefficient vectors (level order top-down), ps fields, requested level lists, methods",
"Tests compare one CAM sample file on fixed levels; correctness for each relative position of requested and model levels needs enumeration.",
[IN],[("interp_hybrid_to_pressure",f"{IN}: interp_hybrid_to_pressure"),("_vertical_remap",f"{IN}: _vertical_remap")])
p("V04","Below-ground extrapolation follows the ECMWF formulas and leaves the rest alone",
"With extrapolate=True, requested pressures larger than the largest level pressure of the column are filled by the ECMWF formulas for temperature (with sensitivity to surface geopotential height), by the ECMWF hydrostatic formula for geopotential, or by the value of the lowest level for other variables, while all other points are the same as without extrapolation. Missing variable, t_bot or phi_sfc arguments, or an unknown variable name, raise ValueError.",
["inputs"],"all columns, surface heights below, between and above the 2000 m and 2500 m thresholds, surface temperatures below, between and above 255 K and 290.5 K, level orders, variables",
"Tests use one file; the piecewise formula has nine regions per column and is not sampled in each.",
[IN],[("_temp_extrapolate, _geo_height_extrapolate, _vertical_remap_extrap",f"{IN}: _vertical_remap_extrap")])
p("V05","Vertical interpolation is independent of chunking and scheduler",
"interp_hybrid_to_pressure, interp_sigma_to_hybrid and delta_pressure_hybrid give the same values, dimensions and coordinates for in-memory data and for dask data however data and surface pressure are chunked (the level dimension included) and whichever scheduler or number of threads runs them.",
["schedules","configurations"],"all chunkings of data and surface pressure, lazily or eagerly given, synchronous and threaded schedulers",
"Tests use one chunking; equality across chunkings and schedules is relational.",
[IN],[("map_blocks block functions",f"{IN}: interp_hybrid_to_pressure")],["values after compute()"])
p("V06","interp_sigma_to_hybrid interpolates each column in sigma",
"interp_sigma_to_hybrid returns, at every column and hybrid level, the linear (or log) interpolation in sigma of the data at sigma = hya*p0/ps + hyb, the value itself where sigmas coincide and NaN outside the range of sigma coordinates, for every number and order of hybrid levels, order of dimensions and numeric dtype, with the level dimension renamed to hlev in place and all other dimensions kept.",
["inputs"],"all data with 1 to 3 dimensions, dimension orders, sigma coordinate orders, coefficients, ps fields, methods, dtypes",
"Tests compare one file; dims order, dtype and level counts are not varied.",
[IN],[("interp_sigma_to_hybrid",f"{IN}: interp_sigma_to_hybrid")])
p("V07","interp_multidim is linear, exact on its grid, and cyclic on request",
"interp_multidim with method linear returns the (bi)linear interpolation of the enclosing grid cell at every requested (lat, lon), reproduces data exactly at grid points, and outside the grid gives NaN (or, with fill_value='extrapolate', continues the edge cell linearly); nearest returns a nearest grid value; with cyclic=True the longitude axis closes on itself so that every requested longitude from the last grid longitude minus 360 to the first one plus 360 is interpolated between its cyclic neighbours. Missing values given by missing_val are treated as NaN and restored in the result, and the other dimensions are untouched.",
["inputs"],"all grids (ascending or descending, shifted longitudes), request points, dtypes, extra leading dimensions, containers, methods",
"Tests use one grid; cyclic closure and edges depend on positions of points and grid origin.",
[IN],[("interp_multidim, _pre_interp_multidim, _post_interp_multidim",f"{IN}: interp_multidim")])

p("M01","delta_pressure layers tile the column from model top to surface",
"delta_pressure returns for each column layers bounded by the midpoints between neighbouring pressure levels, the outermost ones by pressure_top and the surface pressure; levels entirely below the surface are NaN and the other thicknesses are positive and add up exactly to surface pressure minus pressure_top. The result has the type of surface_pressure, in the order of pressure_lev whether ascending or descending, with the level as last dimension; a pressure_top above the smallest level or a surface pressure smaller than pressure_top raises ValueError.",
["inputs"],"all level vectors, surface pressure fields of any dimension, containers, orders",
"Tests check few columns; where the surface falls relative to levels must be enumerated.",
[ME],[("_delta_pressure1D, delta_pressure",f"{ME}: delta_pressure")])
p("M02","heat_index follows the NWS algorithm in every temperature/humidity regime",
"heat_index returns the NWS heat index of every (temperature, relative humidity) pair: the Steadman average below the critical value, the Rothfusz regression above it (both documented coefficient sets), the low-humidity and high-humidity adjustments exactly in their temperature and humidity ranges, and the temperature itself below 40 F. Each element depends only on its own temperature and humidity, in scalars, lists, numpy arrays and DataArrays alike; humidities outside 0..100 raise ValueError.",
["inputs"],"all temperatures and humidities, both coefficient sets, array shapes and containers",
"Tests check a dozen pairs; the regime boundaries form a grid of regions with closed and open edges.",
[ME],[("heat_index, _heat_index, _nws_eqn, _xheat_index",f"{ME}: heat_index")])
p("M03","relhum is mixing ratio over the tabulated saturation mixing ratio",
"relhum returns for each element 100 w / ws with saturation vapor pressure interpolated linearly in the table of 1 K steps, temperature clipped to 173.16..375.16 K, never below 1e-4 percent, NaN where an input is NaN; each element depends only on its own inputs, and DataArrays give a DataArray with the same dimensions and coordinates.",
["inputs"],"all temperatures (table edges included), mixing ratios, pressures, shapes, containers",
"Tests check one profile; each table interval and both clip edges must be right.",
[ME],[("_relhum, relhum",f"{ME}: relhum")])
p("M04","relhum_ice and relhum_water follow their Magnus formulas",
"relhum_ice and relhum_water return for each element 100 w / qst with qst = 0.622 e/(0.01 p - 0.378 e) and e the Magnus saturation vapor pressure over ice (22.571, 273.71) or water (17.269, 35.86), elementwise in any container.",
["inputs"],"all temperatures, mixing ratios and pressures, shapes, containers",
"Tests check single points only.",
[ME],[("relhum_ice, relhum_water",f"{ME}: relhum_ice, relhum_water")])
p("M05","dewtemp inverts saturation: at 100 percent it is the air temperature",
"dewtemp returns tk*L/(L - tk*ln(rh/100)) with the documented latent heat L per element, so that it equals the temperature at rh = 100 percent, is below it for rh < 100 and increases with rh at fixed temperature.",
["inputs"],"all temperatures and humidities in (0, 100], shapes, containers",
"Tests check a few values; order relations must hold over the domain.",
[ME],[("_dewtemp, dewtemp",f"{ME}: dewtemp")])
p("M06","Saturation vapor pressure family is consistent with Tetens' formula",
"saturation_vapor_pressure returns 0.6108 exp(17.27 Tc/(Tc+237.3)) kPa for Tc > 0 and tfill elsewhere, actual_saturation_vapor_pressure the same function of the dew point, and saturation_vapor_pressure_slope 4096 times it over (Tc+237.3)^2, with Tc the Celsius value of Fahrenheit input and the result in kPa, elementwise in any container.",
["inputs"],"all temperatures on both sides of 0 C, fill values, shapes, containers",
"Tests check short lists; the region below freezing and the relation between the three are not quantified over.",
[ME],[("saturation_vapor_pressure, actual_saturation_vapor_pressure, saturation_vapor_pressure_slope",f"{ME}: saturation_vapor_pressure")])
p("M07","max_daylight is the astronomical day length for every day and latitude",
"max_daylight returns for day j and latitude lat the value 24/pi * acos(-tan(lat) tan(0.409 sin(2 pi j/365 - 1.39))) in hours, on dimensions (day, latitude), and NaN where the arc cosine is undefined (polar day or night), so that the values at lat and -lat add to 24 hours. DataArray input gives a DataArray with the days and latitudes as coordinates; inputs of more than one dimension raise ValueError.",
["inputs"],"all days, latitudes from -90 to 90 in any order and number, containers",
"Tests check one list of days and latitudes; symmetry and the polar limits need the whole range.",
[ME],[("max_daylight",f"{ME}: max_daylight")])
p("M08","psychrometric_constant is 0.66474e-3 times pressure",
"psychrometric_constant returns 0.66474e-3 * pressure for every element, in the container of the input, with metadata describing units kPa/C for DataArray input.",
["inputs"],"all pressures, shapes, containers",
"Tests check one vector.",
[ME],[("psychrometric_constant",f"{ME}: psychrometric_constant")])
p("M09","zonal_meridional_psi integrates zonal-mean wind from the top down",
"zonal_meridional_psi returns at each time, level and latitude 2 pi a cos(latitude)/g times the sum, from the top level down to that level, of zonal-mean meridional wind times layer thickness (missing where the layer is below the surface), on dimensions (time, level, latitude), in kg/s; the latitudes default to every 10 degrees from -90 to 90. Wind, surface pressure and hybrid coefficients (from which winds are first interpolated to the standard pressure levels) are taken by the given names or found by standard name, long name or usual name; without wind or surface pressure it raises KeyError, without pressure levels and coefficients AttributeError, and for missing zonal-mean or anywhere non-positive surface pressure ValueError.",
["inputs"],"all wind fields, level vectors, surface pressures, latitude lists, variable names",
"The test compares one grid; cumulative order and scaling need varied columns and latitudes.",
[ME],[("zonal_meridional_psi",f"{ME}: zonal_meridional_psi")])
p("M10","Meteorological functions agree across containers and reject mismatched shapes",
"dewtemp, heat_index, relhum, relhum_ice and relhum_water give the same numbers for a scalar, list, numpy array (any number of dimensions) or DataArray holding the same values, DataArray input gives DataArray output with the same dims and coordinates (and, for the first three, its unit as attribute: Kelvin, F, percentage), and inputs of different shapes raise ValueError. Mixing DataArrays with other types in heat_index, dewtemp, relhum_ice or relhum_water raises TypeError, and DataArrays with their dimensions in different orders are matched by name.",
["inputs","configurations"],"all functions, shapes, containers, mismatches",
"Tests check values per container separately on few shapes.",
[ME],[("container dispatch",f"{ME}: public functions")])
p("M11","Variable lookup prefers standard names, then long names, then the given names",
"Looking up a variable in a Dataset returns the data variable that carries the requested standard_name (as attribute or as name in a case variation), else the one matching the long name, else the first present of the possible names in the given order and its case variations; a Dataset without any raises KeyError naming the variable, and the result never depends on hash seeds or on the order of attributes.",
["inputs","configurations"],"all small datasets with subsets of candidate names and attributes, orders, hash seeds",
"Tests try single matches; priority among several candidates is not tested.",
[UT,ME],[("_find_var, _find_optional_var ...",f"{UT}")])

p("F01","Fourier filters keep exactly the requested frequencies",
"For a real series of n samples, low pass keeps exactly the discrete frequencies below its cutoff, high pass those at or above it, band pass those in between and band block the others, where cutoffs fall on the grid frequency/n (a cutoff between two discrete frequencies is rounded down to an index for low and up for high), and kept components are unchanged in amplitude and phase; hence band pass plus band block returns the series and filtering twice equals filtering once.",
["inputs"],"all series, lengths (even, odd), cutoffs on, between and beyond the discrete frequencies, the four functions and fourier_filter",
"Tests compare sine sums of one length; which index a cutoff keeps matters for each length and cutoff.",
[FO],[("fourier_filter",f"{FO}: fourier_filter")])
p("F02","Fourier filters act along the chosen axis only, in either container",
"Filtering an array of any dimension along time_axis (negative allowed) gives each series along that axis what it would get alone, in the shape, dims, coordinates and attributes of the input, and never mixes series, for numpy and DataArray.",
["inputs","configurations"],"all shapes with 1 to 3 dimensions, axes, containers",
"Tests use 1-D data or one axis.",
[FO],[("fourier_filter time_axis handling",f"{FO}: fourier_filter")])
p("G01","gradient is the finite difference on the WGS84 ellipsoid",
"gradient returns first the derivative of the field along meridians and then the one along parallels: centred differences of neighbouring values (one-sided at the edges) over the WGS84 distance between them, which is the integral of the radius along meridians and radius times cos(lat) times longitude difference along parallels. This holds for every rectilinear grid (1-D or 2-D coordinates of any numeric type, regular or not, ascending or descending), wherever the latitude and longitude dimensions of a DataArray stand, each index of the other dimensions on its own.",
["inputs"],"all grids off the poles, ascending and descending, 2-D lat/lon coordinates, dimension orders, extra dimensions",
"Tests compare one stored field; edges and orders for each grid are not quantified.",
[GR],[("gradient, _arc_lat_wgs84, _arc_lon_wgs84, _rad_lat_wgs84",f"{GR}")])
p("S01","Spherical decomposition and recomposition follow their definition",
"decomposition returns for every order pair (n, m) the scaled inner product of the field with the spherical harmonic Y_nm, doubled for m > 0, n outer and m = 0..n inner, and recomposition the sum of coefficient times harmonic (real parts and imaginary parts); therefore recomposing coefficients of a band-limited field sampled on a quadrature reproduces it and both are linear.",
["inputs"],"all small maximum harmonics, grids, fields, scales, containers",
"Spherical tests cannot run here (fixture error) and upstream compare two fields.",
[SP],[("decomposition, recomposition",f"{SP}")])
p("S02","scale_voronoi areas tile the sphere",
"scale_voronoi returns for each point the area of its spherical Voronoi cell on the unit sphere, whatever the order of the points and however many of them lie on a common circle, in the container, dimensions and shape of the input. The areas are positive and add up to 4 pi.",
["inputs"],"all point sets with distinct points in general position",
"Upstream tests compare one grid.",
[SP],[("scale_voronoi",f"{SP}: scale_voronoi")])
p("E01","eofunc_eofs returns the leading orthonormal eigenvectors of the covariance",
"eofunc_eofs returns, on dimensions (eof, the dimensions other than time), orthonormal eigenvectors of the covariance over time (divisor N - ddof) of the weighted and, with center, centred data, in the order of decreasing eigenvalue and with no larger eigenvalue left out; eofscaling 1 divides and 2 multiplies each by the square root of its eigenvalue. The attributes eigenvalues, varianceFraction (eigenvalue over trace), northTest (eigenvalue times sqrt(2/N), over the trace with vfscaled) and totalAnomalyVariance (trace) match, points with missing data are NaN and have no influence on the others, and time_dim, container and number type of the data do not change the values; meta=True keeps dimension names, attributes and coordinates without time. A neofs that is not positive or a time_dim out of range raises ValueError.",
["inputs"],"all data with two or more present points, time dimension positions, numbers of modes, weights per point, centring, scalings, NaN patterns, dtypes, containers",
"Tests compare stored patterns for two datasets; being leading, orthonormal eigenvectors is a relation between output and data that has to be evaluated for each input.",
[ST],[("eofunc_eofs, _generate_eofs_solver",f"{ST}: eofunc_eofs")])
p("E02","eofunc_pcs returns the projections of the data on the EOFs",
"eofunc_pcs returns, on dimensions (pc, time), for each mode the projection of the weighted, centred data on the unscaled EOF that eofunc_eofs gives for the same arguments: components are uncorrelated, have the eigenvalue as variance (divisor N - ddof), and all modes together with their EOFs reconstruct the data. pcscaling 1 divides and 2 multiplies by the square root of the eigenvalue, meta=True keeps attributes and time coordinate of a DataArray, and an npcs that is not positive raises ValueError.",
["inputs"],"all data with two or more present points, time dimension positions, modes, weights, centring, scalings, NaN patterns, containers",
"Tests compare stored series; the relation to eofunc_eofs on the same data is not asserted.",
[ST],[("eofunc_pcs",f"{ST}: eofunc_pcs")])
p("P01","pearson_r is the weighted correlation over the requested dimensions",
"pearson_r returns, for every index of the dimensions that remain, the weighted Pearson correlation of the two arrays over dim (name, list of names or all, matching dimensions by name) for DataArrays and Datasets, or over axis (negative allowed, all elements by default) for arrays and lists. Pairs with a missing member are left out with skipna=True and make the result NaN otherwise, and attributes of the first argument are kept exactly with keep_attrs=True.",
["inputs"],"all arrays with non-constant values, dims, axes, non-negative weights, NaN patterns, number types, containers",
"Tests compare a few fixed arrays; gaps, weights, dimension orders and axes combine freely.",
[ST],[("pearson_r",f"{ST}: pearson_r")])
p("P02","nmse is the area-weighted squared error over the observed area-weighted variance",
"nmse returns, over the latitude and longitude dimensions (1-D or 2-D coordinates) and separately for each index of the other dimensions, the cos(latitude)-weighted mean of (modeled - observed)^2 divided by the equally weighted mean of (observed - weighted mean of observed)^2, leaving out the points missing in either field; it is 0 for identical fields and 1 when the model is the observed mean. Inputs of different or unsupported types raise TypeError, different coordinate names KeyError, unevenly spaced or unidentifiable latitude and longitude ValueError.",
["inputs"],"all fields, grids, NaN patterns (different ones in the two fields), extra dimensions, dimension orders",
"Tests compare a few fixed fields; gaps that differ between the fields and extra dimensions are not quantified.",
[ST],[("nmse",f"{ST}: nmse")])
p("L01","No call changes its arguments or depends on what was called before",
"No public function changes the values, dtype, coordinates, attributes or name of any object passed to it, and a result that was returned does not change when later calls are made or when the inputs of another call are modified. The same call on equal inputs gives an equal result (values, dimensions, coordinates, attributes) at any position in any sequence of calls in a process, and in any process whatever its hash seed.",
["histories","configurations"],"all sequences of public calls on shared objects (numpy, list, DataArray, Dataset, dask), including results passed on as arguments; hash seeds",
"Each unit test makes one call on fresh data and looks only at the result; aliasing, in-place attribute writes and hidden state show only in histories.",
["geocat/comp"],[("copies of inputs and attributes","geocat/comp: all public functions")],
observe=["fingerprints of every live object after every call"],
state=[("heap of live objects","fingerprint of each object passed to or returned by a call","harness"),("memo of calls","result of each call by function and argument fingerprints","harness")])
p("L02","Old names stay equivalent to the functions that replace them",
"dpres_plev, zonal_mpsi, eofunc and eofunc_ts give exactly the result of delta_pressure, zonal_meridional_psi, eofunc_eofs and eofunc_pcs on the corresponding arguments (time last by default for eofunc and eofunc_ts, the latter with one component per given pattern), eofunc and eofunc_ts warning of their deprecation; the names moved to geocat-f2py (grid_to_triple, linint1, linint2, linint2pts, moc_globe_atl, rcm2points, rcm2rgrid, rgrid2rcm, triple_to_grid) accept any arguments, warn naming their own replacement and return None. The four fourier_*_pass/block functions equal fourier_filter called with their cutoffs.",
["inputs","configurations"],"all arguments of the wrapped functions, positional or keyword",
"Tests call wrappers on one input each or not at all; argument forwarding must hold for each argument.",
[DE,ME,ST,FO],[("wrappers",f"{DE}, {ME}: dpres_plev, zonal_mpsi, {ST}: eofunc, eofunc_ts")])
with open('/verif/properties.jsonl','w') as f:
    for d in P: f.write(json.dumps(d)+"\n")
print(len(P))
