From d4a5882c523d9e9a78ec01a8e26dee21a9c8c21c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:21:19 +0000
Subject: [PATCH 01/32] fix: climate_anomaly by year must not merge years a
 century apart

The grouping key was the two-digit year, so data spanning more than 100
years had the means of e.g. 1905 and 2005 added together.
---
 geocat/comp/climatologies.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/geocat/comp/climatologies.py b/geocat/comp/climatologies.py
index 1bc805a..c7f16d9 100644
--- a/geocat/comp/climatologies.py
+++ b/geocat/comp/climatologies.py
@@ -192,7 +192,7 @@ def climate_anomaly(
         'day': ('%m-%d', 'D'),
         'month': ('%m', 'MS'),
         'season': (None, 'QS-DEC'),
-        'year': ('%y', 'Y'),
+        'year': ('%Y', 'Y'),
     }
 
     if freq not in freq_dict:
-- 
2.43.0


From 3a63f6edcf38df442d13b0c878ddd2fa9a5281ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:22:52 +0000
Subject: [PATCH 02/32] fix: seasonal climatology must not zero every point
 when one point has gaps

A missing value at any one point dropped that month for the whole field
while the remaining weights were kept, so a land mask turned the result
into zeros everywhere.  Weigh the months at each point by its own data.
---
 geocat/comp/climatologies.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/geocat/comp/climatologies.py b/geocat/comp/climatologies.py
index c7f16d9..7855ab2 100644
--- a/geocat/comp/climatologies.py
+++ b/geocat/comp/climatologies.py
@@ -631,14 +631,15 @@ def climatology_average(
             dset_filter = (
                 dset_filter.resample({time_dim: frequency})
                 .mean(keep_attrs=keep_attrs)
-                .dropna(time_dim)
+                .dropna(time_dim, how='all')
             )
 
             # Compute the weights for the months in each season so that the
-            # seasonal averages account for months being of different lengths
+            # seasonal averages account for months being of different lengths.
+            # A month carries no weight at the points where its data is missing
             month_length = dset_filter[time_dim].dt.days_in_month
-            weights = month_length / month_length.sum()
-            climatology = (dset_filter * weights).sum(dim=time_dim)
+            weights = (dset_filter.notnull() * month_length).sum(dim=time_dim)
+            climatology = (dset_filter * month_length).sum(dim=time_dim) / weights
 
             seasonal_climates.append(climatology)
         dset = xr.concat(seasonal_climates, dim='season')
-- 
2.43.0


From 60014cc02249b69897a1e703b84378326ca50995 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:26:32 +0000
Subject: [PATCH 03/32] fix: calendar_average must keep the points that have
 data when others lack it

Periods with a missing value at any one point were dropped for the whole
field: masked data raised IndexError/ValueError, a gap made the time axis
and its bounds disagree.  Keep every period, and weigh the months of a
season or year at each point by the data present there.
---
 geocat/comp/climatologies.py | 17 +++++++----------
 1 file changed, 7 insertions(+), 10 deletions(-)

diff --git a/geocat/comp/climatologies.py b/geocat/comp/climatologies.py
index 7855ab2..48d1099 100644
--- a/geocat/comp/climatologies.py
+++ b/geocat/comp/climatologies.py
@@ -430,11 +430,7 @@ def calendar_average(
     calendar = _infer_calendar_name(dset[time_dim])
 
     # Group data
-    dset = (
-        dset.resample({time_dim: frequency})
-        .mean(keep_attrs=keep_attrs)
-        .dropna(time_dim)
-    )
+    dset = dset.resample({time_dim: frequency}).mean(keep_attrs=keep_attrs)
 
     # Weight the data by the number of days in each month
     if freq in ['season', 'year']:
@@ -445,12 +441,13 @@ def calendar_average(
         key = freq
         format, frequency = freq_dict[key]
         # Compute the weights for the months in each season so that the
-        # seasonal/yearly averages account for months being of different lengths
-        month_length = dset[time_dim].dt.days_in_month.resample({time_dim: frequency})
-        weights = month_length.map(lambda group: group / group.sum())
+        # seasonal/yearly averages account for months being of different lengths.
+        # A month carries no weight at the points where its data is missing
+        month_length = dset[time_dim].dt.days_in_month
+        weights = (dset.notnull() * month_length).resample({time_dim: frequency}).sum()
 
-        dset_weighted = dset * weights
-        dset = (dset_weighted).resample({time_dim: frequency}).sum()
+        dset_weighted = dset * month_length
+        dset = (dset_weighted).resample({time_dim: frequency}).sum() / weights
 
     # Center the time coordinate by inferring and then averaging the time bounds
     dset = _calculate_center_of_time_bounds(
-- 
2.43.0


From a8f16a7e69ba5f022eba5002dd826dca0cc3d49c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:27:42 +0000
Subject: [PATCH 04/32] fix: climatology_average must label the groups it
 found, leap day included

The time labels were a contiguous range in the median year: daily data with
a February 29th and a common median year, data that does not cover the
whole year, or sub-daily data coarser than hourly all failed, as did years
before 1000 (the usual numbering of model control runs).
---
 geocat/comp/climatologies.py | 24 +++++++++++++++++++-----
 1 file changed, 19 insertions(+), 5 deletions(-)

diff --git a/geocat/comp/climatologies.py b/geocat/comp/climatologies.py
index 48d1099..9252d0b 100644
--- a/geocat/comp/climatologies.py
+++ b/geocat/comp/climatologies.py
@@ -47,6 +47,7 @@ def _calculate_center_of_time_bounds(
     start: typing.Union[str, cftime.datetime],
     end: typing.Union[str, cftime.datetime],
     keep_attrs: bool = None,
+    format: str = None,
 ) -> typing.Union[xr.Dataset, xr.DataArray]:
     """Helper function to determine the time bounds based on the given dataset
     and frequency and then calculate the averages of them.
@@ -80,6 +81,10 @@ def _calculate_center_of_time_bounds(
         If False, the new object will be returned without attributes.
         Defaults to None which means the attrs will only be kept in unambiguous circumstances.
 
+    format : str, optional
+        If given, only the bounds whose label in this format is in the time
+        coordinate of ``dset`` are used. Defaults to None, which uses them all.
+
     Returns
     -------
     computed_dset: :class:`xarray.Dataset`, :class:`xarray.DataArray`
@@ -100,9 +105,12 @@ def _calculate_center_of_time_bounds(
         )
     else:
         time_bounds = xr.date_range(start=start, end=end, freq=freq, calendar=calendar)
-    time_bounds = time_bounds.append(time_bounds[-1:].shift(1, freq=freq))
+    if format is not None:
+        labels = dset[time_dim].values
+        time_bounds = time_bounds[np.isin(time_bounds.strftime(format), labels)]
     time = xr.DataArray(
-        np.vstack((time_bounds[:-1], time_bounds[1:])).T, dims=[time_dim, 'nbd']
+        np.vstack((time_bounds, time_bounds.shift(1, freq=freq))).T,
+        dims=[time_dim, 'nbd'],
     ).mean(dim='nbd', keep_attrs=keep_attrs)
     return dset.assign_coords({time_dim: time})
 
@@ -645,7 +653,12 @@ def climatology_average(
 
     else:
         # Retrieve floor of median year
-        median_yr = np.median(dset[time_dim].dt.year.values)
+        years = dset[time_dim].dt.year
+        median_yr = np.median(years.values)
+        # February 29th needs a leap year, use the closest one in the data
+        leap_years = years[dset[time_dim].dt.strftime('%m-%d') == '02-29'].values
+        if key != 'month' and leap_years.size > 0:
+            median_yr = leap_years[np.abs(leap_years - median_yr).argmin()]
 
         # Group data by format then calculate average of groups
         dset = (
@@ -662,9 +675,10 @@ def climatology_average(
             time_dim,
             frequency,
             calendar,
-            start=f'{median_yr:.0f}-{start_time}',
-            end=f'{median_yr:.0f}-{end_time}',
+            start=f'{median_yr:04.0f}-{start_time}',
+            end=f'{median_yr:04.0f}-{end_time}',
             keep_attrs=keep_attrs,
+            format=format,
         )
 
         return dset
-- 
2.43.0


From 53c40cf6039b036dc3f3485c990c6447ec958a0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:28:43 +0000
Subject: [PATCH 05/32] fix: month_to_season must work for data that does not
 start in January

Dropping the last (DJF) or first (NDJ) sample assumed January to December
data; otherwise it discarded a month of a complete season, and means
centered outside of the data's range were returned.  Drop exactly those.
---
 geocat/comp/climatologies.py | 22 +++++++++++-----------
 1 file changed, 11 insertions(+), 11 deletions(-)

diff --git a/geocat/comp/climatologies.py b/geocat/comp/climatologies.py
index 9252d0b..7d4970e 100644
--- a/geocat/comp/climatologies.py
+++ b/geocat/comp/climatologies.py
@@ -319,15 +319,6 @@ def month_to_season(
         {time_coord_name: dset[time_coord_name].dt.month.isin(months)}
     )
 
-    if (
-        season == 'DJF'
-    ):  # For this season, the last "mean" will be the value for Dec so we drop the last month
-        data_filter = data_filter.isel({time_coord_name: slice(None, -1)})
-    elif (
-        season == 'NDJ'
-    ):  # For this season, the first "mean" will be the value for Jan so we drop the first month
-        data_filter = data_filter.isel({time_coord_name: slice(1, None)})
-
     # Group the months into three and take the mean
     means = data_filter.resample({time_coord_name: quarter}).mean(keep_attrs=keep_attrs)
     # Set offset for supported array formats
@@ -345,8 +336,17 @@ def month_to_season(
         )
 
     # The line above tries to take the mean for all quarters even if there is not data for some of them
-    # Therefore, we must filter out the NaNs
-    return means.sel({time_coord_name: means[time_coord_name].dt.month == months[1]})
+    # Therefore, we must filter out the NaNs, and the means centered outside of the range of the data
+    center = means[time_coord_name].dt
+    center_month = 12 * center.year + center.month
+    data_month = 12 * dset[time_coord_name].dt.year + dset[time_coord_name].dt.month
+    return means.sel(
+        {
+            time_coord_name: (center.month == months[1])
+            & (center_month >= data_month.min())
+            & (center_month <= data_month.max())
+        }
+    )
 
 
 def calendar_average(
-- 
2.43.0


From 8fcc1e8c9020baaeb01ba8018d779ba9ba6f740d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:31:15 +0000
Subject: [PATCH 06/32] fix: fourier_filter must use the length of time_axis,
 not of the first axis

A DataArray also lost its data orientation when time_axis was not 0: np.swapaxes
returned a DataArray with its dimensions swapped, so the result was written back
into the swapped copy.
---
 geocat/comp/fourier_filters.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/geocat/comp/fourier_filters.py b/geocat/comp/fourier_filters.py
index 9a663bf..4b0a17d 100644
--- a/geocat/comp/fourier_filters.py
+++ b/geocat/comp/fourier_filters.py
@@ -126,9 +126,8 @@ def fourier_filter(
     >>> axs[1].plot(np.imag(no_tide)[start:end])
     >>> fig.show()
     """
-    resolution = frequency / len(signal)
-    signal = np.swapaxes(signal, time_axis, 0)
-    res_fft = np.fft.fft(signal, axis=0)
+    resolution = frequency / np.shape(signal)[time_axis]
+    res_fft = np.fft.fft(np.swapaxes(np.asarray(signal), time_axis, 0), axis=0)
     cfl_index = m.floor(cutoff_frequency_low / resolution)
     cfln_index = 1 - cfl_index
     cfh_index = m.ceil(cutoff_frequency_high / resolution)
-- 
2.43.0


From be84c34f206cf8b3ad4eaef61a794fe3bc45b61f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:31:40 +0000
Subject: [PATCH 07/32] fix: a band_block cutoff beyond the Nyquist frequency
 must not remove low frequencies

---
 geocat/comp/fourier_filters.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/geocat/comp/fourier_filters.py b/geocat/comp/fourier_filters.py
index 4b0a17d..6bc825c 100644
--- a/geocat/comp/fourier_filters.py
+++ b/geocat/comp/fourier_filters.py
@@ -130,7 +130,11 @@ def fourier_filter(
     res_fft = np.fft.fft(np.swapaxes(np.asarray(signal), time_axis, 0), axis=0)
     cfl_index = m.floor(cutoff_frequency_low / resolution)
     cfln_index = 1 - cfl_index
-    cfh_index = m.ceil(cutoff_frequency_high / resolution)
+    # a cutoff beyond the Nyquist frequency must not wrap onto low frequencies
+    cfh_index = min(
+        m.ceil(cutoff_frequency_high / resolution),
+        res_fft.shape[0] // 2 + 1,
+    )
     cfhn_index = 1 - cfh_index
     if low_pass:
         if cfl_index > 1:
-- 
2.43.0


From a2322e5e603444c1034b79a0371da932e1470217 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:33:39 +0000
Subject: [PATCH 08/32] fix: eofunc_eofs and eofunc_pcs must accept time_dim=-1
 and describe transposed data

The documented time_dim=-1 raised ValueError, and meta=True named the wrong
dimensions (or raised) whenever time was not the first axis, which is the default
of the eofunc and eofunc_ts wrappers.
---
 geocat/comp/stats.py | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/geocat/comp/stats.py b/geocat/comp/stats.py
index 3b9f484..ccc1bb1 100644
--- a/geocat/comp/stats.py
+++ b/geocat/comp/stats.py
@@ -217,6 +217,7 @@ def _generate_eofs_solver(data, time_dim=0, weights=None, center=True, ddof=1):
 
         if (time_dim >= data.ndim) or (time_dim < -data.ndim):
             raise ValueError("ERROR eofunc_efs: `time_dim` out of bound.")
+        time_dim %= data.ndim
 
         # Transpose data if time_dim is not 0 (i.e. the first/left-most dimension)
         dims_to_transpose = np.arange(data.ndim).tolist()
@@ -225,7 +226,7 @@ def _generate_eofs_solver(data, time_dim=0, weights=None, center=True, ddof=1):
         )
         data = np.transpose(data, axes=dims_to_transpose)
 
-        dims = [f"dim_{i}" for i in range(data.ndim)]
+        dims = [f"dim_{i}" for i in dims_to_transpose]
         dims[0] = 'time'
 
         data = xr.DataArray(
@@ -369,6 +370,10 @@ def eofunc_eofs(
     `eofunc_n <https://www.ncl.ucar.edu/Document/Functions/Built-in/eofunc_n.shtml>`__,
     `eofunc_n_Wrap <https://www.ncl.ucar.edu/Document/Functions/Contributed/eofunc_n_Wrap.shtml>`__
     """
+    # xarray input has its time dimension leftmost, whatever time_dim says
+    if isinstance(data, xr.DataArray):
+        time_dim = 0
+
     data, solver = _generate_eofs_solver(
         data, time_dim=time_dim, weights=weights, center=center, ddof=ddof
     )
@@ -393,9 +398,11 @@ def eofunc_eofs(
     attrs['varianceFraction'] = solver.varianceFraction(neigs=neofs)
 
     if meta:
-        dims = ["eof"] + [data.dims[i] for i in range(data.ndim) if i != time_dim]
-        coords = {k: v for (k, v) in data.coords.items() if k != data.dims[time_dim]}
+        # the time dimension has been made the leftmost one
+        dims = ["eof"] + list(data.dims[1:])
+        coords = {k: v for (k, v) in data.coords.items() if data.dims[0] not in v.dims}
     else:
+        time_dim %= data.ndim
         dims = ["eof"] + [f"dim_{i}" for i in range(data.ndim) if i != time_dim]
         coords = {}
 
@@ -516,7 +523,7 @@ def eofunc_pcs(
 
     dims = ["pc", "time"]
     if meta:
-        coords = {"time": data.coords[data.dims[time_dim]]}
+        coords = {"time": data.coords[data.dims[0]]}
     else:
         coords = {}
 
-- 
2.43.0


From 571bee6ad2d5c7ed5378459c85b967f19071dead Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:33:44 +0000
Subject: [PATCH 09/32] fix: eofunc_eofs must not write its results into the
 attributes of its input

---
 geocat/comp/stats.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/geocat/comp/stats.py b/geocat/comp/stats.py
index ccc1bb1..d171797 100644
--- a/geocat/comp/stats.py
+++ b/geocat/comp/stats.py
@@ -390,7 +390,7 @@ def eofunc_eofs(
     attrs = {}
 
     if meta:
-        attrs = data.attrs
+        attrs = dict(data.attrs)
 
     attrs['eigenvalues'] = solver.eigenvalues(neigs=neofs)
     attrs['northTest'] = solver.northTest(neigs=neofs, vfscaled=vfscaled)
@@ -519,7 +519,7 @@ def eofunc_pcs(
     attrs = {}
 
     if meta:
-        attrs = data.attrs
+        attrs = dict(data.attrs)
 
     dims = ["pc", "time"]
     if meta:
-- 
2.43.0


From a48cf48b56be161b8cae5030e881e23d386e2329 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:35:01 +0000
Subject: [PATCH 10/32] fix: below-ground extrapolation must find the lowest
 model level by pressure

The lowest level was looked up through the level coordinate: a hybrid level
without coordinate labels was numbered from the first one, so a surface-first
dataset was extrapolated from the model top, and without labels on the data no
plev coordinate was created and nothing was extrapolated at all.
---
 geocat/comp/interpolation.py | 11 ++++-------
 1 file changed, 4 insertions(+), 7 deletions(-)

diff --git a/geocat/comp/interpolation.py b/geocat/comp/interpolation.py
index a840b63..401d9ad 100644
--- a/geocat/comp/interpolation.py
+++ b/geocat/comp/interpolation.py
@@ -327,10 +327,7 @@ def _vertical_remap_extrap(
         A DataArray containing the data after extrapolation.
     """
 
-    sfc_index = pressure[lev_dim].argmax(dim=lev_dim)  # index of the model surface
-    p_sfc = pressure.isel(
-        {lev_dim: sfc_index}, drop=True
-    )  # extract pressure at lowest level
+    p_sfc = pressure.max(dim=lev_dim)  # extract pressure at lowest level
 
     if variable == 'temperature':
         output = output.where(
@@ -343,8 +340,9 @@ def _vertical_remap_extrap(
             _geo_height_extrapolate(t_bot, output.plev, p_sfc, ps, phi_sfc),
         )
     else:
+        is_sfc = xr.DataArray((pressure == p_sfc).data, dims=data.dims)
         output = output.where(
-            output.plev <= p_sfc, data.isel({lev_dim: sfc_index}, drop=True)
+            output.plev <= p_sfc, data.where(is_sfc).max(dim=lev_dim)
         )
 
     return output
@@ -745,8 +743,7 @@ def interp_hybrid_to_pressure(
     for k, v in data.coords.items():
         if k != lev_dim:
             coords.update({k: v})
-        else:
-            coords.update({"plev": new_levels})
+    coords.update({"plev": new_levels})
 
     output = output.transpose(*dims).assign_coords(coords)
 
-- 
2.43.0


From 0ba442a409ab7812171b4bef4ff50dde8ad2e44e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:35:01 +0000
Subject: [PATCH 11/32] fix: delta_pressure_hybrid must not align neighbouring
 levels when hya has several coordinates

---
 geocat/comp/interpolation.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/geocat/comp/interpolation.py b/geocat/comp/interpolation.py
index 401d9ad..a5f1b2c 100644
--- a/geocat/comp/interpolation.py
+++ b/geocat/comp/interpolation.py
@@ -489,10 +489,8 @@ def delta_pressure_hybrid(
         hyb = np.expand_dims(hyb, axis=(1, 2))
     elif isinstance(hya, xr.DataArray):
         # drop lev coords for delta calculation, or xr will try to align
-        if len(hya.coords) > 0:
-            hya = hya.drop(list(hya.coords)[0])
-        if len(hyb.coords) > 0:
-            hyb = hyb.drop(list(hyb.coords)[0])
+        hya = hya.drop_vars(list(hya.coords))
+        hyb = hyb.drop_vars(list(hyb.coords))
         # make sure hya and hyb dims align, favor hya dim name
         if set(hya.dims) != set(hyb.dims):
             hyb = hyb.rename({hyb.dims[0]: hya.dims[0]})
-- 
2.43.0


From ea843fd0bb948b7ee2db756cbff28dd4d4f8690e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:35:01 +0000
Subject: [PATCH 12/32] fix: hybrid level pressures of numpy surface pressures
 with more than two dimensions

The level axis was always made the third from the right, so a (time, lat, lon)
array raised, or was silently matched time against level when their lengths agreed.
---
 geocat/comp/interpolation.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/geocat/comp/interpolation.py b/geocat/comp/interpolation.py
index a5f1b2c..d245a39 100644
--- a/geocat/comp/interpolation.py
+++ b/geocat/comp/interpolation.py
@@ -411,8 +411,9 @@ def pressure_at_hybrid_levels(psfc, hya, hyb, p0=100000.0):
 
     # broadcast if np inputs
     if isinstance(hya, np.ndarray):  # will be same type by here
-        hya = np.expand_dims(hya, axis=(1, 2))
-        hyb = np.expand_dims(hyb, axis=(1, 2))
+        axes = tuple(range(1, max(psfc.ndim, 2) + 1))
+        hya = np.expand_dims(hya, axis=axes)
+        hyb = np.expand_dims(hyb, axis=axes)
 
     # Results in Pa
     # p(k) = hya(k) * p0 + hyb(k) * psfc
@@ -485,8 +486,9 @@ def delta_pressure_hybrid(
 
     # broadcast any np inputs or drop xarray lev dims
     if isinstance(hya, np.ndarray):  # hya and hyb already validated to be same type
-        hya = np.expand_dims(hya, axis=(1, 2))
-        hyb = np.expand_dims(hyb, axis=(1, 2))
+        axes = tuple(range(1, max(ps.ndim, 2) + 1))
+        hya = np.expand_dims(hya, axis=axes)
+        hyb = np.expand_dims(hyb, axis=axes)
     elif isinstance(hya, xr.DataArray):
         # drop lev coords for delta calculation, or xr will try to align
         hya = hya.drop_vars(list(hya.coords))
-- 
2.43.0


From cf2ece9fc033040ec4878e8d033211b987a03e53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:35:37 +0000
Subject: [PATCH 13/32] fix: interp_hybrid_to_pressure must keep values with
 their level in any order of new_levels

metpy sorts the levels it is given and restores the order of descending ones
only, so other orders got values under the wrong plev label.
---
 geocat/comp/interpolation.py | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/geocat/comp/interpolation.py b/geocat/comp/interpolation.py
index d245a39..fc9e190 100644
--- a/geocat/comp/interpolation.py
+++ b/geocat/comp/interpolation.py
@@ -670,6 +670,10 @@ def interp_hybrid_to_pressure(
     # Make pressure shape same as data shape
     pressure = pressure.transpose(*data.dims)
 
+    # metpy only keeps the order of monotonic levels, so interpolate to sorted ones
+    level_order = np.argsort(new_levels)
+    sorted_levels = np.asarray(new_levels)[level_order]
+
     # choose how to call function based on input types
     output = None
     # try xr.map_blocks first if chunked input
@@ -683,7 +687,7 @@ def interp_hybrid_to_pressure(
                     output = xr.map_blocks(
                         _interpolate_mb,
                         data,
-                        args=(pressure, new_levels, interp_axis, method),
+                        args=(pressure, sorted_levels, interp_axis, method),
                     )
                 # The base Exception is included here because xarray can raise it specifically here
                 except (NotImplementedError, ValueError, Exception):
@@ -710,7 +714,7 @@ def interp_hybrid_to_pressure(
         output = map_blocks(
             _vertical_remap,
             func_interpolate,
-            new_levels,
+            sorted_levels,
             pressure.data,
             data.data,
             interp_axis,
@@ -722,7 +726,7 @@ def interp_hybrid_to_pressure(
     # if no chunked/dask inputs, just call the function directly
     else:
         output = func_interpolate(
-            new_levels, pressure.data, data.data, axis=interp_axis
+            sorted_levels, pressure.data, data.data, axis=interp_axis
         )
 
     output = xr.DataArray(output, name=data.name, attrs=data.attrs)
@@ -737,7 +741,7 @@ def interp_hybrid_to_pressure(
 
     # Rename output dims. This is only needed with above workaround block
     dims_dict = {output.dims[i]: dims[i] for i in range(len(output.dims))}
-    output = output.rename(dims_dict)
+    output = output.rename(dims_dict).isel(plev=np.argsort(level_order))
 
     coords = {}
     for k, v in data.coords.items():
-- 
2.43.0


From debc5df1a19e2b58f5a04968854583a25944e56a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:35:42 +0000
Subject: [PATCH 14/32] fix: interp_hybrid_to_pressure must accept chunked
 pressure with in-memory data

---
 geocat/comp/interpolation.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/geocat/comp/interpolation.py b/geocat/comp/interpolation.py
index fc9e190..9169cb6 100644
--- a/geocat/comp/interpolation.py
+++ b/geocat/comp/interpolation.py
@@ -703,6 +703,10 @@ def interp_hybrid_to_pressure(
     if in_dask and output is None:
         from dask.array.core import map_blocks
 
+        # In-memory data with a chunked ps, hyam or hybm
+        if data.chunks is None:
+            data = data.chunk()
+
         # Chunk pressure equal to data's chunks
         pressure = pressure.chunk(data.chunksizes)
 
-- 
2.43.0


From 9a4b63e4c2635cfc510b25b211895c0c2e03e359 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:36:30 +0000
Subject: [PATCH 15/32] fix: interp_sigma_to_hybrid must not truncate integer
 data nor limit the number of hybrid levels

---
 geocat/comp/interpolation.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/geocat/comp/interpolation.py b/geocat/comp/interpolation.py
index 9169cb6..f10885c 100644
--- a/geocat/comp/interpolation.py
+++ b/geocat/comp/interpolation.py
@@ -833,6 +833,10 @@ def interp_sigma_to_hybrid(
     # Calculate sigma levels at the hybrid levels
     sigma = _sigma_from_hybrid(ps, hyam, hybm, p0)  # Pa
 
+    # one (yet unset) level for every hybrid level, of a type that can hold fractions
+    out_levels = {lev_dim: np.zeros(len(hyam), dtype=int)}
+    out_dtype = np.result_type(data.dtype, np.float32)
+
     non_lev_dims = list(data.dims)
     if data.ndim > 1:
         non_lev_dims.remove(lev_dim)
@@ -841,7 +845,7 @@ def interp_sigma_to_hybrid(
 
         h_coords = sigma_stacked[0, :].copy()
 
-        output = data_stacked[:, : len(hyam)].copy()
+        output = data_stacked.isel(out_levels).astype(out_dtype)
 
         for idx, (d, s) in enumerate(zip(data_stacked, sigma_stacked)):
             output[idx, :] = xr.DataArray(
@@ -854,8 +858,8 @@ def interp_sigma_to_hybrid(
     else:
         h_coords = sigma
 
-        output = data[: len(hyam)].copy()
-        output[: len(hyam)] = xr.DataArray(
+        output = data.isel(out_levels).astype(out_dtype)
+        output[:] = xr.DataArray(
             _vertical_remap(func_interpolate, sigma.data, sig_coords.data, data.data),
             dims=[lev_dim],
         )
-- 
2.43.0


From 763379e6e7738751e36edb64dbf1b2b2d4fe0e5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:37:18 +0000
Subject: [PATCH 16/32] fix: cyclic interp_multidim must work for any longitude
 order and number of dimensions

The wrapped points were labelled as if longitudes ascended, so descending
longitudes were interpolated across the globe silently, and data with leading
dimensions raised.
---
 geocat/comp/interpolation.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/geocat/comp/interpolation.py b/geocat/comp/interpolation.py
index f10885c..5236ff4 100644
--- a/geocat/comp/interpolation.py
+++ b/geocat/comp/interpolation.py
@@ -106,7 +106,10 @@ def _pre_interp_multidim(
 
     # add cyclic points and create new data array
     if cyclic:
-        padded_data = np.pad(data_in.values, ((0, 0), (1, 1)), mode='wrap')
+        # the neighbours across the seam are those of the sorted longitudes
+        data_in = data_in.sortby(data_in.dims[-1])
+        padding = [(0, 0)] * (data_in.ndim - 1) + [(1, 1)]
+        padded_data = np.pad(data_in.values, padding, mode='wrap')
         padded_longitudes = np.pad(
             data_in.coords[data_in.dims[-1]], (1, 1), mode='wrap'
         )
@@ -116,7 +119,7 @@ def _pre_interp_multidim(
         data_in = xr.DataArray(
             padded_data,
             coords={
-                data_in.dims[-2]: data_in.coords[data_in.dims[-2]].values,
+                **{d: data_in[d].values for d in data_in.dims[:-1] if d in data_in.coords},
                 data_in.dims[-1]: padded_longitudes,
             },
             dims=data_in.dims,
-- 
2.43.0


From 2cc6ff57ca121704137c76108efea1356db52341 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:37:52 +0000
Subject: [PATCH 17/32] fix: scale_voronoi must return a DataArray for
 DataArray input, as documented

---
 geocat/comp/spherical.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/geocat/comp/spherical.py b/geocat/comp/spherical.py
index 35450f6..7fe2aab 100644
--- a/geocat/comp/spherical.py
+++ b/geocat/comp/spherical.py
@@ -223,7 +223,9 @@ def scale_voronoi(
         2-dimensional array containing the area of the spherical voronoi cell for each ``theta`` and ``phi`` pair.
     """
 
+    dims = None
     if type(theta) is xr.DataArray:
+        dims = theta.dims
         theta = theta.to_numpy()
         phi = phi.to_numpy()
 
@@ -243,7 +245,7 @@ def scale_voronoi(
         ).calculate_areas()
     ).reshape(theta.shape)
 
-    if type(theta) is xr.DataArray:
-        scale = xr.DataArray(scale, dims=theta.dims)
+    if dims is not None:
+        scale = xr.DataArray(scale, dims=dims)
 
     return scale
-- 
2.43.0


From fe509c7968b445d94f30f8e0eef329b685d28e4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:38:22 +0000
Subject: [PATCH 18/32] fix: gradient must differentiate along latitude and
 longitude, wherever they are

The gradient of data with leading dimensions was taken along its first two
dimensions, and that of a square (lon, lat) DataArray along the wrong ones.
---
 geocat/comp/gradient.py | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/geocat/comp/gradient.py b/geocat/comp/gradient.py
index 9bf8f1d..d662a44 100644
--- a/geocat/comp/gradient.py
+++ b/geocat/comp/gradient.py
@@ -232,6 +232,13 @@ def gradient(
             Supported types are [numpy.ndarray, xarray.DataArray, xarray.Dataset]'
             )
     # at this point we know that we have *something* in lat and lon
+
+    # the horizontal axes, latitude first, are the last two
+    if all(isinstance(a, xr.DataArray) for a in (data, lat, lon)):
+        horizontal = lat.dims if lat.ndim == 2 else lat.dims + lon.dims
+        if set(horizontal).issubset(data.dims):
+            data = data.transpose(..., *horizontal)
+
     if len(lon.shape) == 1 and len(lat.shape) == 1:  # in theroy can be split
         lon2d, lat2d = np.meshgrid(lon, lat)
     elif len(lon.shape) == 2 and len(lat.shape) == 2:
@@ -245,7 +252,7 @@ def gradient(
     axis0dist = np.gradient(axis0loc, axis=0)
     axis1dist = np.gradient(axis1loc, axis=1)
 
-    grad = np.gradient(data)
+    grad = np.gradient(data, axis=(-2, -1))
 
     axis0grad = grad[0] / axis0dist
     axis1grad = grad[1] / axis1dist
@@ -253,7 +260,7 @@ def gradient(
     if type(data) in [xr.core.dataarray.DataArray, xr.core.dataset.Dataset]:
         axis0grad = xr.DataArray(
             axis0grad,
-            dims=['x', 'y'],
+            dims=[*data.dims[:-2], 'x', 'y'],
             coords=dict(
                 lon=(['x', 'y'], lon2d.data),
                 lat=(['x', 'y'], lat2d.data),
@@ -261,7 +268,7 @@ def gradient(
         )
         axis1grad = xr.DataArray(
             axis1grad,
-            dims=['x', 'y'],
+            dims=[*data.dims[:-2], 'x', 'y'],
             coords=dict(
                 lon=(['x', 'y'], lon2d.data),
                 lat=(['x', 'y'], lat2d.data),
-- 
2.43.0


From 4605fcbb4d1937ba5584fc690363c682bc4eec1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:38:22 +0000
Subject: [PATCH 19/32] fix: variable lookup by name must follow the order of
 possible_names

Candidates were collected in a set, so which of two matching variables was used
depended on the hash seed of the process.
---
 geocat/comp/gc_util.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/geocat/comp/gc_util.py b/geocat/comp/gc_util.py
index 2b9c55f..e4fdb3d 100644
--- a/geocat/comp/gc_util.py
+++ b/geocat/comp/gc_util.py
@@ -117,16 +117,16 @@ def _find_var(
 
     # Then try direct name match
     if possible_names:
-        possible_names_expanded = set()
+        possible_names_expanded = []  # in order of preference
         for name in possible_names:
-            possible_names_expanded.update(
-                {
+            possible_names_expanded.extend(
+                [
                     name,
                     name.lower(),
                     name.upper(),
                     name.capitalize(),
                     '_'.join(word.capitalize() for word in name.split('_')),
-                }
+                ]
             )
 
         for name in possible_names_expanded:
-- 
2.43.0


From 8c104c1e522f4f4ed46b92ae919354034a993e37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:39:50 +0000
Subject: [PATCH 20/32] fix: delta_pressure of a column whose surface is above
 the first midpoint

Its single layer was measured from the midpoint between the first and the last
level, which gave a negative thickness.
---
 geocat/comp/meteorology.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/geocat/comp/meteorology.py b/geocat/comp/meteorology.py
index eea45c9..452f162 100644
--- a/geocat/comp/meteorology.py
+++ b/geocat/comp/meteorology.py
@@ -1235,6 +1235,11 @@ def _delta_pressure1D(pressure_lev, surface_pressure, pressure_top):
     start_level = min(indices)
     end_level = max(indices)
 
+    # the surface lies above the first midpoint: a single layer
+    if start_level == end_level:
+        delta_pressure[start_level] = surface_pressure - pressure_top
+        return np.flip(delta_pressure) if is_pressuredecreasing else delta_pressure
+
     delta_pressure[start_level] = (
         pressure_lev[start_level] + pressure_lev[start_level + 1]
     ) / 2 - pressure_top  # top level
-- 
2.43.0


From 31b82c7fab6070f52abd777330b35c24b1d619c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:39:50 +0000
Subject: [PATCH 21/32] fix: dewtemp and relhum must reject inputs of different
 shapes

The test was on a generator, which is always true.
---
 geocat/comp/meteorology.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/geocat/comp/meteorology.py b/geocat/comp/meteorology.py
index 452f162..c3554cb 100644
--- a/geocat/comp/meteorology.py
+++ b/geocat/comp/meteorology.py
@@ -283,7 +283,7 @@ def dewtemp(
     inputs = [temperature, relative_humidity]
 
     # ensure all inputs same size
-    if not (np.shape(x) == np.shape(inputs[0]) for x in inputs):
+    if not all(np.shape(x) == np.shape(inputs[0]) for x in inputs):
         raise ValueError("dewtemp: dimensions of inputs are not the same")
 
     # Get input types
@@ -562,7 +562,7 @@ def relhum(
     inputs = [temperature, mixing_ratio, pressure]
 
     # ensure all inputs same size
-    if not (np.shape(x) == np.shape(inputs[0]) for x in inputs):
+    if not all(np.shape(x) == np.shape(inputs[0]) for x in inputs):
         raise ValueError("relhum: dimensions of inputs are not the same")
 
     if not hasattr(temperature, 'clip'):
-- 
2.43.0


From 4207fb8d56bd73185d372d3b38564467eea8edc6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:39:50 +0000
Subject: [PATCH 22/32] fix: zonal_meridional_psi must accept a pressure
 coordinate not named plev

---
 geocat/comp/meteorology.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/geocat/comp/meteorology.py b/geocat/comp/meteorology.py
index c3554cb..ed19984 100644
--- a/geocat/comp/meteorology.py
+++ b/geocat/comp/meteorology.py
@@ -1515,9 +1515,13 @@ def zonal_meridional_psi(
             "zonal_meridional_psi: input uxds must have either a pressure level coordinate for its meridional_wind variable or hybrid coefficients."
         )
 
+    # the vertical dimension is called plev from here on
+    if plev_coordname != 'plev':
+        ux_ipress = ux_ipress.rename({plev_coordname: 'plev'})
+
     # zonal means
     da_v_zonal = ux_ipress.zonal_mean(lat=lat)
-    da_v_zonal['plev'] = ux_ipress[plev_coordname]
+    da_v_zonal['plev'] = ux_ipress['plev']
     da_PS_zonal = uxds[surface_air_pressure_varname].zonal_mean(lat=lat)
 
     # Validate surface pressure before integration
-- 
2.43.0


From 64a0f7c8d902a1097d882c431efe31d4a2ca9dc8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:39:50 +0000
Subject: [PATCH 23/32] fix: pearson_r must accept Datasets, and lists with an
 axis, as documented

---
 geocat/comp/stats.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/geocat/comp/stats.py b/geocat/comp/stats.py
index d171797..365adb4 100644
--- a/geocat/comp/stats.py
+++ b/geocat/comp/stats.py
@@ -183,7 +183,12 @@ def pearson_r(a, b, dim=None, weights=None, skipna=False, keep_attrs=False, axis
         Pearson's correlation coefficient
     """
     # if a and v are not xr.DataArrays
-    if not isinstance(a, xr.DataArray) and not isinstance(b, xr.DataArray):
+    xr_types = (xr.DataArray, xr.Dataset)
+    if not isinstance(a, xr_types) and not isinstance(b, xr_types):
+        if not hasattr(a, 'ndim'):
+            a = np.asarray(a)
+        if not hasattr(b, 'ndim'):
+            b = np.asarray(b)
         if (dim is not None) and (axis is not None):
             warnings.warn(
                 "The `dim` keyword is unused with non xarray.DataArray inputs"
-- 
2.43.0


From 524bb5c7569aea36da2acb51a249c17428057b54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:41:13 +0000
Subject: [PATCH 24/32] fix: relhum must give missing humidity for missing
 temperature, not raise IndexError

---
 geocat/comp/meteorology.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/geocat/comp/meteorology.py b/geocat/comp/meteorology.py
index ed19984..fe8dd15 100644
--- a/geocat/comp/meteorology.py
+++ b/geocat/comp/meteorology.py
@@ -574,7 +574,8 @@ def relhum(
     # replace values of t above and below max and min values for temperature
     temperature = temperature.clip(mintemp, maxtemp)
 
-    it = (temperature - mintemp).astype(int)
+    # (a missing temperature gives missing humidity, whatever table entry it uses)
+    it = np.where(np.isnan(temperature), 0, temperature - mintemp).astype(int)
     t2 = mintemp + it
 
     es = (t2 + 1 - temperature) * table[it] + (temperature - t2) * table[it + 1]
-- 
2.43.0


From 079de78dff755a28380b19c8937fe837f5da4831 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:03:47 +0000
Subject: [PATCH 25/32] fix: seasonal climatology of data without a season must
 be missing, not an error

---
 geocat/comp/climatologies.py | 24 ++++++++++--------------
 1 file changed, 10 insertions(+), 14 deletions(-)

diff --git a/geocat/comp/climatologies.py b/geocat/comp/climatologies.py
index 7d4970e..1a5c8ce 100644
--- a/geocat/comp/climatologies.py
+++ b/geocat/comp/climatologies.py
@@ -624,27 +624,23 @@ def climatology_average(
                     f"contributed: climatology_average: bad season(s): {invalid_seasons}. Valid seasons include: {list(seasons_dict.keys())}"
                 )
 
+        # Calculate monthly average before calculating seasonal climatologies
+        monthly = dset.resample({time_dim: frequency}).mean(keep_attrs=keep_attrs)
+
         seasonal_climates = []
         for season in seasons:
             # Grab the months for each season
             months = seasons_dict[season]
 
-            # Filter data to only contain the months of interest
-            dset_filter = dset.sel({time_dim: dset[time_dim].dt.month.isin(months)})
-
-            # Calculate monthly average before calculating seasonal climatologies
-            dset_filter = (
-                dset_filter.resample({time_dim: frequency})
-                .mean(keep_attrs=keep_attrs)
-                .dropna(time_dim, how='all')
-            )
-
             # Compute the weights for the months in each season so that the
             # seasonal averages account for months being of different lengths.
-            # A month carries no weight at the points where its data is missing
-            month_length = dset_filter[time_dim].dt.days_in_month
-            weights = (dset_filter.notnull() * month_length).sum(dim=time_dim)
-            climatology = (dset_filter * month_length).sum(dim=time_dim) / weights
+            # A month carries no weight outside of the season nor at the points
+            # where its data is missing
+            month_length = monthly[time_dim].dt.days_in_month.where(
+                monthly[time_dim].dt.month.isin(months), 0
+            )
+            weights = (monthly.notnull() * month_length).sum(dim=time_dim)
+            climatology = (monthly * month_length).sum(dim=time_dim) / weights
 
             seasonal_climates.append(climatology)
         dset = xr.concat(seasonal_climates, dim='season')
-- 
2.43.0


From 5ceaaa57d3fe1b6eb8bd9efb17e782b7e4eeeeeb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:56:34 +0000
Subject: [PATCH 26/32] fix: relhum_ice and relhum_water must not relabel
 transposed DataArrays

---
 geocat/comp/meteorology.py | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/geocat/comp/meteorology.py b/geocat/comp/meteorology.py
index fe8dd15..9873700 100644
--- a/geocat/comp/meteorology.py
+++ b/geocat/comp/meteorology.py
@@ -679,8 +679,12 @@ def relhum_ice(
 
     # output as xarray if input as xarray
     if x_out:
+        # (its dimensions may be in another order)
         relative_humidity = xr.DataArray(
-            data=relative_humidity, coords=save_coords, dims=save_dims, attrs=save_attrs
+            data=relative_humidity.transpose(*save_dims),
+            coords=save_coords,
+            dims=save_dims,
+            attrs=save_attrs,
         )
 
     # if elevated to np array, return to original type
@@ -777,8 +781,12 @@ def relhum_water(
 
     # output as xarray if input as xarray
     if x_out:
+        # (its dimensions may be in another order)
         relative_humidity = xr.DataArray(
-            data=relative_humidity, coords=save_coords, dims=save_dims, attrs=save_attrs
+            data=relative_humidity.transpose(*save_dims),
+            coords=save_coords,
+            dims=save_dims,
+            attrs=save_attrs,
         )
 
     return relative_humidity
-- 
2.43.0


From b88d8eb38f1b604730cbaa535a4c6e762dd51680 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:20:35 +0000
Subject: [PATCH 27/32] fix: gradient of single precision or integer
 coordinates must not overflow

---
 geocat/comp/gradient.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/geocat/comp/gradient.py b/geocat/comp/gradient.py
index d662a44..de4e6df 100644
--- a/geocat/comp/gradient.py
+++ b/geocat/comp/gradient.py
@@ -246,8 +246,10 @@ def gradient(
     else:
         raise ValueError("lat or lon must be either both 1d or 2d.")
 
-    axis0loc = _arc_lat_wgs84(lat2d)
-    axis1loc = _arc_lon_wgs84(lon2d, lat2d)
+    # the series overflow in single precision and in integers
+    lat_series = lat2d.astype('float64')
+    axis0loc = _arc_lat_wgs84(lat_series)
+    axis1loc = _arc_lon_wgs84(lon2d.astype('float64'), lat_series)
 
     axis0dist = np.gradient(axis0loc, axis=0)
     axis1dist = np.gradient(axis1loc, axis=1)
-- 
2.43.0


From 5baa4bcb24239330eb30c75d75ded81f4ea4a4f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:51:41 +0000
Subject: [PATCH 28/32] fix: EOF analysis of integer data must not truncate
 weights and patterns

---
 geocat/comp/stats.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/geocat/comp/stats.py b/geocat/comp/stats.py
index 365adb4..44a2736 100644
--- a/geocat/comp/stats.py
+++ b/geocat/comp/stats.py
@@ -239,6 +239,10 @@ def _generate_eofs_solver(data, time_dim=0, weights=None, center=True, ddof=1):
             dims=dims,
         )
 
+    # the solver casts weights and patterns to the type of the data
+    if np.issubdtype(data.dtype, np.integer):
+        data = data.astype('float64')
+
     solver = Eof(data, weights=weights, center=center, ddof=ddof)
 
     return data, solver
-- 
2.43.0


From 2993b2870eef3a1a1272fefac76f1b4f7128a40d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:46:46 +0000
Subject: [PATCH 29/32] fix: nmse notices uneven spacing of 2-D coordinates
 along their second dimension too

---
 geocat/comp/stats.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/geocat/comp/stats.py b/geocat/comp/stats.py
index 44a2736..f288b28 100644
--- a/geocat/comp/stats.py
+++ b/geocat/comp/stats.py
@@ -84,13 +84,13 @@ def nmse(
     lat_diff = (
         lat_diff
         if not all(lat_diff.ravel() == 0)
-        else np.diff(observed.cf["latitude"], axis=1)
+        else np.diff(observed.cf["latitude"], axis=1).T
     )
     lon_diff = np.diff(observed.cf["longitude"], axis=0)
     lon_diff = (
         lon_diff
         if not all(lon_diff.ravel() == 0)
-        else np.diff(observed.cf["longitude"], axis=1)
+        else np.diff(observed.cf["longitude"], axis=1).T
     )
     if not np.allclose(lat_diff, lat_diff[0]) or not np.allclose(lon_diff, lon_diff[0]):
         raise ValueError(
-- 
2.43.0


From 3bff4a0a8deabc5f964a952b0bb383def1d0ebb7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:32:44 +0000
Subject: [PATCH 30/32] fix: logarithmic interpolation to the standard levels
 must hit levels exactly

The standard levels are single precision, so their logarithms are only
compared with those of double precision pressures to seven digits, and a
level exactly at the surface came out missing.
---
 geocat/comp/interpolation.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/geocat/comp/interpolation.py b/geocat/comp/interpolation.py
index 5236ff4..a3b0e44 100644
--- a/geocat/comp/interpolation.py
+++ b/geocat/comp/interpolation.py
@@ -676,6 +676,8 @@ def interp_hybrid_to_pressure(
     # metpy only keeps the order of monotonic levels, so interpolate to sorted ones
     level_order = np.argsort(new_levels)
     sorted_levels = np.asarray(new_levels)[level_order]
+    # of the precision of the pressures, for their logarithms to be comparable
+    sorted_levels = sorted_levels.astype(np.result_type(sorted_levels, pressure.dtype))
 
     # choose how to call function based on input types
     output = None
-- 
2.43.0


From 28c404ec2733d35c7545f0bc2b5a5ae48bb26c17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:50:10 +0000
Subject: [PATCH 31/32] fix: interp_sigma_to_hybrid must keep values with their
 hybrid level in any order of levels

metpy sorts the levels it is given and restores the order of descending ones
only, so columns whose sigmas are not monotonic got values at wrong levels.
---
 geocat/comp/interpolation.py | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/geocat/comp/interpolation.py b/geocat/comp/interpolation.py
index a3b0e44..0efec82 100644
--- a/geocat/comp/interpolation.py
+++ b/geocat/comp/interpolation.py
@@ -838,6 +838,15 @@ def interp_sigma_to_hybrid(
     # Calculate sigma levels at the hybrid levels
     sigma = _sigma_from_hybrid(ps, hyam, hybm, p0)  # Pa
 
+    def remap_column(levels, column):
+        # metpy only keeps the order of monotonic levels, so interpolate to sorted ones
+        levels = np.asarray(levels)
+        level_order = np.argsort(levels)
+        remapped = _vertical_remap(
+            func_interpolate, levels[level_order], sig_coords.data, column
+        )
+        return remapped[np.argsort(level_order)]
+
     # one (yet unset) level for every hybrid level, of a type that can hold fractions
     out_levels = {lev_dim: np.zeros(len(hyam), dtype=int)}
     out_dtype = np.result_type(data.dtype, np.float32)
@@ -854,7 +863,7 @@ def interp_sigma_to_hybrid(
 
         for idx, (d, s) in enumerate(zip(data_stacked, sigma_stacked)):
             output[idx, :] = xr.DataArray(
-                _vertical_remap(func_interpolate, s.data, sig_coords.data, d.data),
+                remap_column(s.data, d.data),
                 dims=[lev_dim],
             )
 
@@ -865,7 +874,7 @@ def interp_sigma_to_hybrid(
 
         output = data.isel(out_levels).astype(out_dtype)
         output[:] = xr.DataArray(
-            _vertical_remap(func_interpolate, sigma.data, sig_coords.data, data.data),
+            remap_column(sigma.data, data.data),
             dims=[lev_dim],
         )
 
-- 
2.43.0


From 1bb828f0d71e1b580064d9fa97ad08949edf1b5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:34:36 +0000
Subject: [PATCH 32/32] fix: interp_hybrid_to_pressure must accept data with
 further coordinates along the levels

---
 geocat/comp/interpolation.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/geocat/comp/interpolation.py b/geocat/comp/interpolation.py
index 0efec82..54f20b5 100644
--- a/geocat/comp/interpolation.py
+++ b/geocat/comp/interpolation.py
@@ -754,7 +754,7 @@ def interp_hybrid_to_pressure(
 
     coords = {}
     for k, v in data.coords.items():
-        if k != lev_dim:
+        if lev_dim not in v.dims:
             coords.update({k: v})
     coords.update({"plev": new_levels})
 
-- 
2.43.0

