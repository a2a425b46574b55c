From 99c5306ed4f17c228160f73396b12947d028e8db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:18:17 +0000
Subject: [PATCH 01/52] fix: identify the first time series chunk also if the
 first write date is not a model date

---
 openamundsen/fileio/pointoutput.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/openamundsen/fileio/pointoutput.py b/openamundsen/fileio/pointoutput.py
index fcd44ca..f560261 100644
--- a/openamundsen/fileio/pointoutput.py
+++ b/openamundsen/fileio/pointoutput.py
@@ -409,7 +409,7 @@ class PointOutputManager:
             if self.format == "netcdf":
                 filename = self.model.config.results_dir / "output_timeseries.nc"
 
-                if date == self.write_dates[0]:
+                if date <= self.write_dates[0]:
                     ds.to_netcdf(filename, engine=constants.NETCDF_ENGINE)
                 else:
                     with xr.open_dataset(filename) as old_ds:
@@ -448,7 +448,7 @@ class PointOutputManager:
 
                     df = ds_out_point.to_dataframe()
 
-                    if date == self.write_dates[0]:
+                    if date <= self.write_dates[0]:
                         df.to_csv(filename)
                     else:
                         df.to_csv(filename, mode="a", header=False)
-- 
2.43.0


From e8a76748f99a9b94a045307ebf3a638217a91bde Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:18:53 +0000
Subject: [PATCH 02/52] fix: use one date format for all chunks of CSV time
 series

---
 openamundsen/fileio/pointoutput.py | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/openamundsen/fileio/pointoutput.py b/openamundsen/fileio/pointoutput.py
index f560261..10683ca 100644
--- a/openamundsen/fileio/pointoutput.py
+++ b/openamundsen/fileio/pointoutput.py
@@ -424,6 +424,13 @@ class PointOutputManager:
             elif self.format == "csv":
                 ds_out = ds.copy()
 
+                # Use the same date format for all chunks (by default pandas omits the time part if
+                # all dates of a chunk happen to be at midnight)
+                if (self.model.dates == self.model.dates.normalize()).all():
+                    date_format = "%Y-%m-%d"
+                else:
+                    date_format = "%Y-%m-%d %H:%M:%S"
+
                 # If there are 3-dimensional variables, convert them to 2-dimensional variables
                 # before writing the CSV files
                 # (e.g. a 3-dimensional variable "soil_temp" with 4 layers is converted to 4
@@ -449,8 +456,8 @@ class PointOutputManager:
                     df = ds_out_point.to_dataframe()
 
                     if date <= self.write_dates[0]:
-                        df.to_csv(filename)
+                        df.to_csv(filename, date_format=date_format)
                     else:
-                        df.to_csv(filename, mode="a", header=False)
+                        df.to_csv(filename, mode="a", header=False, date_format=date_format)
 
             self.data = None
-- 
2.43.0


From c0a42ba26ba0e5483dbe6426f65d1353f0f831ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:23:32 +0000
Subject: [PATCH 03/52] fix: put month and year end gridded outputs on the last
 time step of the period

---
 openamundsen/fileio/griddedoutput.py | 37 ++++++++++++----------------
 1 file changed, 16 insertions(+), 21 deletions(-)

diff --git a/openamundsen/fileio/griddedoutput.py b/openamundsen/fileio/griddedoutput.py
index 532fe45..c1297ef 100644
--- a/openamundsen/fileio/griddedoutput.py
+++ b/openamundsen/fileio/griddedoutput.py
@@ -713,26 +713,7 @@ def _freq_write_dates(dates, out_freq, agg):
                     "not supported for timesteps > 1d"
                 )
 
-            period_end_dates = (
-                pd.period_range(
-                    start=dates[0],
-                    end=dates[-1],
-                    freq=out_offset,
-                )
-                .asfreq(model_freq, how="end")
-                .to_timestamp()
-            )
-
-            d0 = dates[dates <= period_end_dates[0]][-1]
-            write_dates = period_end_dates + (d0 - period_end_dates[0])
-
-            if period_end_dates[0] - write_dates[0] > pd.Timedelta("24h"):
-                write_dates = write_dates.delete(0)
-
-            # Keep the last output interval only if it is fully covered (e.g., do not write half
-            # months)
-            if len(write_dates) > 0 and write_dates[-1] > dates[-1]:
-                write_dates = write_dates.delete(-1)
+            write_dates = _last_dates_of_periods(dates, out_offset)
         else:
             write_dates = pd.date_range(
                 start=dates[0] + out_freq_td - model_freq_td,
@@ -753,11 +734,25 @@ def _freq_write_dates(dates, out_freq, agg):
                 pd.tseries.offsets.MonthEnd,
             )
         ) and model_freq_td < pd.Timedelta(days=1):
-            write_dates += pd.Timedelta(days=1) - model_freq_td
+            write_dates = _last_dates_of_periods(dates, out_offset)
 
     return write_dates
 
 
+def _last_dates_of_periods(dates, offset):
+    """
+    Return those dates which are the last possible time step of a calendar month (for month
+    offsets) or year (for year offsets).
+    """
+    if isinstance(offset, (pd.tseries.offsets.YearEnd, pd.tseries.offsets.YearBegin)):
+        period_freq = "Y"
+    else:
+        period_freq = "M"
+
+    next_dates = dates + util.offset_to_timedelta(dates.freqstr)
+    return dates[dates.to_period(period_freq) != next_dates.to_period(period_freq)]
+
+
 def _is_anchored(offset: pd.offsets.BaseOffset) -> bool:
     """
     Replicates the is_anchored() method for an offset object, which is deprecated as of pandas
-- 
2.43.0


From cbd3f706776b850de42fb87dfb69f8987fa5c933 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:40:23 +0000
Subject: [PATCH 04/52] fix: do not turn the snowpack into NaN when re-layering
 completely melted layers

---
 openamundsen/modules/snow/multilayermodel.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/openamundsen/modules/snow/multilayermodel.py b/openamundsen/modules/snow/multilayermodel.py
index 9d04ccf..1aab2ea 100644
--- a/openamundsen/modules/snow/multilayermodel.py
+++ b/openamundsen/modules/snow/multilayermodel.py
@@ -613,7 +613,10 @@ def _update_layers(
             # TODO optimize this loop
             for k_old in range(num_layers_prev[i, j]):
                 while True:  # TODO replace with normal loop
-                    weight = min(new_thickness / thickness_prev[k_old, i, j], 1.0)
+                    if thickness_prev[k_old, i, j] > 0:
+                        weight = min(new_thickness / thickness_prev[k_old, i, j], 1.0)
+                    else:  # layer has completely melted or sublimated
+                        weight = 1.0
 
                     ice_content[k_new, i, j] += weight * ice_content_prev[k_old, i, j]
                     liquid_water_content[k_new, i, j] += (
-- 
2.43.0


From 5c936a90e0c042b3d3f126f84279cea0c69b298b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:52:34 +0000
Subject: [PATCH 05/52] fix: do not reject all WMO gauges other than Hellmann
 in the precipitation correction

---
 openamundsen/meteo/precipcorr.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/openamundsen/meteo/precipcorr.py b/openamundsen/meteo/precipcorr.py
index 7a83ff5..1c2a738 100644
--- a/openamundsen/meteo/precipcorr.py
+++ b/openamundsen/meteo/precipcorr.py
@@ -180,7 +180,7 @@ def correct_station_precipitation(model):
             elif gauge == "us_unsh":
                 cr[pos_snow] = np.exp(4.61 - 0.16 * wind_speeds_2m[pos_snow] ** 1.28)
                 cr[pos_mixed] = 100.77 - 8.34 * wind_speeds_2m[pos_mixed]
-            if gauge == "hellmann":
+            elif gauge == "hellmann":
                 cr[pos_snow] = (
                     100 + 1.13 * wind_speeds_2m[pos_snow] ** 2 - 19.45 * wind_speeds_2m[pos_snow]
                 )
-- 
2.43.0


From 004ffdb844456ba1294dc0283ce5b7bdf6973374 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:53:03 +0000
Subject: [PATCH 06/52] fix: limit humidity to the range of the station
 humidities if extrapolation is disabled

---
 openamundsen/meteo/interpolation.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/openamundsen/meteo/interpolation.py b/openamundsen/meteo/interpolation.py
index 6cc252e..f107ed2 100644
--- a/openamundsen/meteo/interpolation.py
+++ b/openamundsen/meteo/interpolation.py
@@ -514,6 +514,7 @@ def interpolate_param(
         vapor_press = meteo.saturation_vapor_pressure(target_dew_point_temps, "water")
         sat_vapor_press = meteo.saturation_vapor_pressure(target_temps, "water")
         data_interpol = 100 * vapor_press / sat_vapor_press
+        data = rel_hums
 
     # Restrict interpolated values to the range of the point values if extrapolation is disabled in
     # the parameter config
-- 
2.43.0


From 8e0ab3ef5149f70faec9db0ee4e8a17b248374bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:53:03 +0000
Subject: [PATCH 07/52] fix: do not fail for fixed lapse rates if a number of
 regression segments is configured

---
 openamundsen/meteo/interpolation.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/openamundsen/meteo/interpolation.py b/openamundsen/meteo/interpolation.py
index f107ed2..6f87b72 100644
--- a/openamundsen/meteo/interpolation.py
+++ b/openamundsen/meteo/interpolation.py
@@ -435,7 +435,9 @@ def interpolate_param(
     regression_params = param_config.get("regression_params", {})
     max_segments = regression_params.get("max_segments", 1)
 
-    if trend_method in ("regression", "fixed", "fractional") and max_segments == 1:
+    if trend_method in ("fixed", "fractional") or (
+        trend_method == "regression" and max_segments == 1
+    ):
         # Use simple linear regression
         if trend_method == "regression":
             # When using the regression method, the passed lapse rate is overwritten
-- 
2.43.0


From 97f17a0f05f1544186439a8ee06f47a61629f1f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:08:34 +0000
Subject: [PATCH 08/52] fix: do not shift daily precipitation by one day if the
 time step is given as 1D or 24h

---
 openamundsen/fileio/meteo.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/openamundsen/fileio/meteo.py b/openamundsen/fileio/meteo.py
index e9558ee..20cc542 100644
--- a/openamundsen/fileio/meteo.py
+++ b/openamundsen/fileio/meteo.py
@@ -330,7 +330,7 @@ def _slice_and_resample_dataset(ds, start_date, end_date, freq, aggregate=False)
 
         end_date = (end_date + td_1d).normalize()
 
-    if inferred_freq is not None and inferred_freq != freq:
+    if inferred_freq is not None and util.to_offset(inferred_freq) != util.to_offset(freq):
         # keep data from previous day for aggregation, if present
         ds = ds.sel(time=slice(start_date - td_1d, end_date))
         ds = _resample_dataset(ds, start_date, end_date, freq, aggregate=aggregate)
-- 
2.43.0


From e12fc7d317dcef515f9906c04bd821634d7acdfb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:08:34 +0000
Subject: [PATCH 09/52] fix: align daily aggregates with the model dates
 instead of the first record of the station

---
 openamundsen/fileio/meteo.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/openamundsen/fileio/meteo.py b/openamundsen/fileio/meteo.py
index 20cc542..b683d28 100644
--- a/openamundsen/fileio/meteo.py
+++ b/openamundsen/fileio/meteo.py
@@ -381,7 +381,7 @@ def _resample_dataset(ds, start_date, end_date, freq, aggregate=False):
         resample_kwargs = {
             "label": "left",
             "closed": "right",
-            "origin": "start",
+            "origin": pd.Timestamp(start_date),
         }
     else:
         raise errors.MeteoDataError("Resampling to frequencies > 1 day is not supported")
-- 
2.43.0


From 8c34759820985f11614b91125a996704d00f0036 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:08:34 +0000
Subject: [PATCH 10/52] fix: do not fail for stations ending before the run or
 within an aggregation window

---
 openamundsen/fileio/meteo.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/openamundsen/fileio/meteo.py b/openamundsen/fileio/meteo.py
index b683d28..485aa46 100644
--- a/openamundsen/fileio/meteo.py
+++ b/openamundsen/fileio/meteo.py
@@ -401,10 +401,8 @@ def _resample_dataset(ds, start_date, end_date, freq, aggregate=False):
         if "wind_dir" in df.columns:
             df_res["wind_dir"] = _aggregate_wind_dir(df, freq, resample_kwargs)
 
-        # We might end up with an extra bin after resampling; remove it here
-        df_res = df_res.loc[start_date:end_date]
-        if df_res.index[0] < df.index[0]:
-            df_res = df_res.iloc[1:]
+        # We might end up with extra bins after resampling; remove them here
+        df_res = df_res.loc[start_date:end_date].loc[df.index[0] : df.index[-1]]
     else:
         # Take the instantaneous values
         df_res = df.reindex(
-- 
2.43.0


From 1676242d595ce448dc9ca5128ad72f5bb102c40b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:08:34 +0000
Subject: [PATCH 11/52] fix: keep model dates without data from any station as
 missing values

---
 openamundsen/fileio/meteo.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/openamundsen/fileio/meteo.py b/openamundsen/fileio/meteo.py
index 485aa46..3fad5e4 100644
--- a/openamundsen/fileio/meteo.py
+++ b/openamundsen/fileio/meteo.py
@@ -161,7 +161,8 @@ def read_meteo_data(
                 + f"Available period: {dates_combined[0]}..{dates_combined[-1]}"
             )
 
-    return ds_combined
+    # Periods without data from any station are missing from the combined dates
+    return ds_combined.reindex(time=pd.date_range(start=start_date, end=end_date, freq=freq))
 
 
 def read_netcdf_meteo_file(filename):
-- 
2.43.0


From bd900e393a9a4f43d06db819be13701d550e2ede Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:09:56 +0000
Subject: [PATCH 12/52] fix: treat numeric station IDs of CSV forcing as the
 strings the configuration refers to

---
 openamundsen/fileio/meteo.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/openamundsen/fileio/meteo.py b/openamundsen/fileio/meteo.py
index 3fad5e4..bf44729 100644
--- a/openamundsen/fileio/meteo.py
+++ b/openamundsen/fileio/meteo.py
@@ -531,7 +531,7 @@ def _read_meteo_metadata(meteo_format, meteo_data_dir, meteo_crs, grid_crs):
     elif meteo_format == "csv":
         filename = f"{meteo_data_dir}/stations.csv"
         try:
-            meta = pd.read_csv(filename, index_col=0)
+            meta = pd.read_csv(filename, index_col=0, dtype={0: str})
         except FileNotFoundError as err:
             raise errors.MeteoDataError(f"Missing station metadata file ({filename})") from err
 
-- 
2.43.0


From 3da70f9bbedf10b33250eef2e5ad870bfca0879f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:17:16 +0000
Subject: [PATCH 13/52] fix: do not fail for CSV station files without records

---
 openamundsen/fileio/meteo.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/openamundsen/fileio/meteo.py b/openamundsen/fileio/meteo.py
index bf44729..3ee5c41 100644
--- a/openamundsen/fileio/meteo.py
+++ b/openamundsen/fileio/meteo.py
@@ -234,6 +234,7 @@ def read_csv_meteo_file(filename, station_id, station_name, x, y, alt, crs):
     """
     lon, lat = util.transform_coords(x, y, crs, constants.CRS_WGS84)
     df = pd.read_csv(filename, parse_dates=True, index_col=0)
+    df.index = pd.to_datetime(df.index)  # the index of an empty file is otherwise not parsed
 
     if "precip" in df.columns:
         pass
-- 
2.43.0


From f1c3e215cf4d595ebf69912f196255b1d0705201 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:43:56 +0000
Subject: [PATCH 14/52] fix: do not derive an elevation trend from stations at
 one elevation

np.polyfit is rank deficient in this case and returned an arbitrary gradient (e.g. 0.07 K m-1
for two stations at 2000 m).
---
 openamundsen/meteo/interpolation.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/openamundsen/meteo/interpolation.py b/openamundsen/meteo/interpolation.py
index 6f87b72..d7ee5f7 100644
--- a/openamundsen/meteo/interpolation.py
+++ b/openamundsen/meteo/interpolation.py
@@ -70,7 +70,7 @@ def _linear_fit(x, y):
     -------
     slope, intercept : float
     """
-    if len(x) < 2:
+    if len(np.unique(x)) < 2:  # no trend can be derived from a single x value
         slope = 0
         intercept = 0
     else:
-- 
2.43.0


From 12e12d6d9ec135e8571ac5573f0d5a25e9cb2026 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:48:54 +0000
Subject: [PATCH 15/52] fix: do not fail if forest pixels have no temperature
 data yet

The canopy fraction of all forest pixels was combined with the temperatures of the pixels with a
24 h mean temperature, raising a broadcasting error if a run started without temperature data.
---
 openamundsen/modules/canopy/canopy.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/openamundsen/modules/canopy/canopy.py b/openamundsen/modules/canopy/canopy.py
index 49fd295..fd74e93 100644
--- a/openamundsen/modules/canopy/canopy.py
+++ b/openamundsen/modules/canopy/canopy.py
@@ -91,7 +91,7 @@ class CanopyModel:
         pos_finite_temp = pos & np.isfinite(mean_24h_temp)
         delta_t = ((mean_24h_temp[pos_finite_temp] - c.T0) / 3).clip(-2, 2)  # eq. (5)
         s.meteo.temp[pos_finite_temp] -= (  # eq. (4)
-            canopy_frac
+            canopy_frac[pos_finite_temp[pos]]
             * (
                 s.meteo.temp[pos_finite_temp]
                 - (
-- 
2.43.0


From cd962d13a62baa43814f66337dbe5d6a08b97fdf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:48:54 +0000
Subject: [PATCH 16/52] fix: keep the canopy-intercepted load in time steps
 without temperature

A single time step with missing temperature turned the load, and from then on the snowfall below
the canopy, into NaN for the rest of the run.
---
 openamundsen/modules/canopy/canopy.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/openamundsen/modules/canopy/canopy.py b/openamundsen/modules/canopy/canopy.py
index fd74e93..6e68018 100644
--- a/openamundsen/modules/canopy/canopy.py
+++ b/openamundsen/modules/canopy/canopy.py
@@ -221,7 +221,7 @@ class CanopyModel:
         s.snow.canopy_melt[pos] = np.minimum(
             (
                 model.config.canopy.degree_day_factor
-                * (s.meteo.temp[pos] - c.T0).clip(min=0)
+                * np.nan_to_num(s.meteo.temp[pos] - c.T0).clip(min=0)
                 * model.timestep
                 / (c.SECONDS_PER_HOUR * c.HOURS_PER_DAY)
             ),
-- 
2.43.0


From f690d74fe84847c92ebbb9aef54ab77af35dba95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:48:54 +0000
Subject: [PATCH 17/52] fix: conserve canopy snow if the interception storage
 is zero or exceeded

With a leaf area index of zero the load turned into NaN in the first time step without snowfall;
with a load above a shrinking storage snowfall removed snow from the canopy without a trace.
---
 openamundsen/modules/canopy/canopy.py | 18 +++++++++++++++---
 1 file changed, 15 insertions(+), 3 deletions(-)

diff --git a/openamundsen/modules/canopy/canopy.py b/openamundsen/modules/canopy/canopy.py
index 6e68018..64a1cff 100644
--- a/openamundsen/modules/canopy/canopy.py
+++ b/openamundsen/modules/canopy/canopy.py
@@ -187,9 +187,21 @@ class CanopyModel:
         max_interception_storage = (
             model.config.canopy.max_interception_storage_coefficient * s.land_cover.lai_eff[pos]
         )
-        new_canopy_intercepted_load = s.snow.canopy_intercepted_load[pos] + 0.7 * (
-            max_interception_storage - s.snow.canopy_intercepted_load[pos]
-        ) * (1 - np.exp(-s.meteo.snowfall[pos] / max_interception_storage))
+        new_canopy_intercepted_load = s.snow.canopy_intercepted_load[pos].copy()
+        # (no interception without leaf area or if the load exceeds the storage, which might have
+        # become smaller since)
+        pos_free = max_interception_storage > new_canopy_intercepted_load
+        new_canopy_intercepted_load[pos_free] += (
+            0.7
+            * (max_interception_storage[pos_free] - new_canopy_intercepted_load[pos_free])
+            * (
+                1
+                - np.exp(
+                    -np.nan_to_num(s.meteo.snowfall[pos][pos_free])
+                    / max_interception_storage[pos_free]
+                )
+            )
+        )
         s.snow.canopy_intercepted_snowfall[pos] = (
             new_canopy_intercepted_load - s.snow.canopy_intercepted_load[pos]
         ).clip(min=0)
-- 
2.43.0


From 4a307b3875c3d2a02baf4db2b41577e76370cc91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:00:37 +0000
Subject: [PATCH 18/52] fix: calculate the leaf area index also for classes
 with several growing cycles

---
 openamundsen/landcover.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/openamundsen/landcover.py b/openamundsen/landcover.py
index 98c9676..30ac286 100644
--- a/openamundsen/landcover.py
+++ b/openamundsen/landcover.py
@@ -68,8 +68,8 @@ class LandCover:
 
             lcc_lai = modules.evapotranspiration.crop_coefficient(
                 growing_period_day,
-                0,  # no initial period with constant LAI
-                length_ini + length_dev,
+                np.zeros_like(length_ini),  # no initial period with constant LAI
+                np.add(length_ini, length_dev),
                 length_mid,
                 length_late,
                 min_lai,
-- 
2.43.0


From 3a3573c208556c10a882c975283f73788d513050 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:07:20 +0000
Subject: [PATCH 19/52] fix: let rain refill the evaporation layer before it
 percolates (FAO-56, eq. (79))

---
 openamundsen/modules/evapotranspiration/evapotranspiration.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/openamundsen/modules/evapotranspiration/evapotranspiration.py b/openamundsen/modules/evapotranspiration/evapotranspiration.py
index aeb9bc6..18df8ad 100644
--- a/openamundsen/modules/evapotranspiration/evapotranspiration.py
+++ b/openamundsen/modules/evapotranspiration/evapotranspiration.py
@@ -480,7 +480,7 @@ class EvapotranspirationModel:
             precip
             - precip_runoff
             + irrigation / wetted_frac
-            - s_et.deep_percolation_evaporation_layer[pos]
+            - s_et.cum_soil_surface_depletion[pos]
         ).clip(min=0)
         s_et.cum_soil_surface_depletion[pos] = (  # eq. (77)
             s_et.cum_soil_surface_depletion[pos]
-- 
2.43.0


From 448bfe2135aebfdb757ec53467a71688020cdaf1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:11:00 +0000
Subject: [PATCH 20/52] fix: keep the glacier IDs if state variables are reset
 in every time step

---
 openamundsen/modules/glacier/glaciermodel.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/openamundsen/modules/glacier/glaciermodel.py b/openamundsen/modules/glacier/glaciermodel.py
index e83ffe5..e274eae 100644
--- a/openamundsen/modules/glacier/glaciermodel.py
+++ b/openamundsen/modules/glacier/glaciermodel.py
@@ -28,7 +28,7 @@ class GlacierModel:
         self.model = model
         s = model.state
         sg = s.add_category("glaciers")
-        sg.add_variable("glacier", long_name="Glacier ID", dtype=int)
+        sg.add_variable("glacier", long_name="Glacier ID", dtype=int, retain=True)
         self.mass_balance_start_we = None
 
     def initialize(self):
-- 
2.43.0


From 3a2e346d56623114759d0d05f30d388de02ce98d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:11:00 +0000
Subject: [PATCH 21/52] fix: do not turn glacier ice into NaN if glacier pixels
 have the same elevation

---
 openamundsen/modules/glacier/glaciermodel.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/openamundsen/modules/glacier/glaciermodel.py b/openamundsen/modules/glacier/glaciermodel.py
index e274eae..1566b63 100644
--- a/openamundsen/modules/glacier/glaciermodel.py
+++ b/openamundsen/modules/glacier/glaciermodel.py
@@ -166,6 +166,11 @@ def _ice_mass_change(elevs, total_mb, glacier_area, max_allowed_change):
     if total_mb < 0:
         min_elev = elevs.min()
         max_elev = elevs.max()
+
+        if max_elev == min_elev:
+            # No elevation range to normalize, distribute the mass loss equally
+            return np.full(elevs.shape, total_mb / elevs.size)
+
         normalized_elevs = (max_elev - elevs) / (max_elev - min_elev)
         delta_h = _delta_h(normalized_elevs, glacier_area)
         fs = total_mb / delta_h.sum()
@@ -205,6 +210,9 @@ def _mass_loss_surplus_distribution(mass_loss, elevs):
     max_elev = elevs.max()
     min_mass = 0.0
 
+    if max_elev == min_elev:
+        return np.full(elevs.shape, mass_loss / elevs.size)
+
     x0 = 0.0
     x1 = mass_loss / elevs.size * 1.5
     y0 = np.sum(_scale_mass_loss_surplus(mass_loss, elevs, min_elev, max_elev, min_mass, x0))
-- 
2.43.0


From b8cba5d735f4e741881805d30b0c5db58cb881ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:20:51 +0000
Subject: [PATCH 22/52] fix: conserve the ice mass when updating the glacier
 geometry

The ice mass of all pixels was recalculated using a different ice density than that of the
layer, pixels losing more than they contain were cut off, and SWE was not updated.
---
 openamundsen/modules/glacier/glaciermodel.py | 26 +++++++++++++++-----
 1 file changed, 20 insertions(+), 6 deletions(-)

diff --git a/openamundsen/modules/glacier/glaciermodel.py b/openamundsen/modules/glacier/glaciermodel.py
index 1566b63..1eab133 100644
--- a/openamundsen/modules/glacier/glaciermodel.py
+++ b/openamundsen/modules/glacier/glaciermodel.py
@@ -65,7 +65,7 @@ class GlacierModel:
         firn_mb = mb_layers[CryoLayerID.FIRN, :]
         mb = ice_mb + firn_mb
         old_ice_thickness = self.mass_balance_start_we[CryoLayerID.ICE, :] / c.ICE_DENSITY
-        new_ice_thickness = s.snow.thickness[CryoLayerID.ICE, :].copy()
+        new_ice_content = s.snow.ice_content[CryoLayerID.ICE, :].copy()
 
         for gid in self.glacier_ids:
             gpos = (s.glaciers.glacier == gid) & (old_ice_thickness > 0.0)
@@ -121,14 +121,28 @@ class GlacierModel:
                 max_allowed_change,
             )
 
-            new_ice_thickness[update_pos] = (
-                old_ice_thickness[update_pos] + (mass_change - firn_mb[update_pos]) / c.ICE_DENSITY
-            ).clip(min=0.0)
+            ice_content = (
+                self.mass_balance_start_we[CryoLayerID.ICE, update_pos]
+                + mass_change
+                - firn_mb[update_pos]
+            )
+
+            # If more mass is removed from some pixels than they contain, take the remainder from
+            # the others
+            total_ice_content = ice_content.sum()
+            ice_content = ice_content.clip(min=0.0)
+            if ice_content.sum() > 0:
+                ice_content *= total_ice_content / ice_content.sum()
+
+            new_ice_content[update_pos] = ice_content
+            s.snow.density[CryoLayerID.ICE, update_pos] = (
+                model.config.snow.cryolayers.transition.ice
+            )
 
-        s.snow.thickness[CryoLayerID.ICE, :] = new_ice_thickness
-        s.snow.ice_content[CryoLayerID.ICE, :] = new_ice_thickness * c.ICE_DENSITY
+        s.snow.ice_content[CryoLayerID.ICE, :] = new_ice_content
 
         model.snow.update_layers()
+        model.snow.update_properties()
 
         # TODO: when glacier advance is enabled, update the previous ice mass distributions here
 
-- 
2.43.0


From 90997414716a503f885149b6c8abdde62bcb9208 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:35:49 +0000
Subject: [PATCH 23/52] fix: do not modify the configuration of the caller when
 replacing deprecated names

The coercion of the deprecated names meteo.interpolation.wind_speed and
cloudiness.day_method/night_method renamed the keys in the dictionaries
passed by the caller.
---
 openamundsen/conf.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/openamundsen/conf.py b/openamundsen/conf.py
index 96ed4c6..00000e5 100644
--- a/openamundsen/conf.py
+++ b/openamundsen/conf.py
@@ -55,6 +55,8 @@ class ConfigurationValidator(cerberus.Validator):
         return model
 
     def _normalize_coerce_meteo_interpolation(self, d: dict[str, Any]) -> dict[str, Any]:
+        d = d.copy()  # do not alter the configuration of the caller
+
         # 'wind_speed' is deprecated -> change to 'wind'
         if "wind_speed" in d:
             d["wind"] = d.pop("wind_speed")
@@ -62,6 +64,8 @@ class ConfigurationValidator(cerberus.Validator):
         return d
 
     def _normalize_coerce_cloudiness(self, d: dict[str, Any]) -> dict[str, Any]:
+        d = d.copy()  # do not alter the configuration of the caller
+
         # 'day_method' is deprecated -> change to 'method'
         if "day_method" in d:
             if "method" not in d:
-- 
2.43.0


From 4f19336c318536d1fc22d125d097b0036f1a3566 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:35:49 +0000
Subject: [PATCH 24/52] fix: reject configurations with both a deprecated name
 and its replacement

Settings given under the new names wind and clear_sky_fraction_night_method
were silently dropped if the deprecated names were given as well (for
cloudiness.day_method this was already rejected).
---
 openamundsen/conf.py | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/openamundsen/conf.py b/openamundsen/conf.py
index 00000e5..5f09ccd 100644
--- a/openamundsen/conf.py
+++ b/openamundsen/conf.py
@@ -59,7 +59,12 @@ class ConfigurationValidator(cerberus.Validator):
 
         # 'wind_speed' is deprecated -> change to 'wind'
         if "wind_speed" in d:
-            d["wind"] = d.pop("wind_speed")
+            if "wind" not in d:
+                d["wind"] = d.pop("wind_speed")
+            else:
+                raise ConfigurationError(
+                    "interpolation.wind_speed is deprecated. Please use interpolation.wind instead."
+                )
 
         return d
 
@@ -77,7 +82,13 @@ class ConfigurationValidator(cerberus.Validator):
 
         # 'night_method' is deprecated -> change to 'clear_sky_fraction_night_method'
         if "night_method" in d:
-            d["clear_sky_fraction_night_method"] = d.pop("night_method")
+            if "clear_sky_fraction_night_method" not in d:
+                d["clear_sky_fraction_night_method"] = d.pop("night_method")
+            else:
+                raise ConfigurationError(
+                    "cloudiness.night_method is deprecated. Please use "
+                    "cloudiness.clear_sky_fraction_night_method instead."
+                )
 
         return d
 
-- 
2.43.0


From fefb619020eaa41a67dffeba416b9d60a1d6cd3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:35:49 +0000
Subject: [PATCH 25/52] fix: keep the default LAI parameters not set by the
 user for a land cover class

Setting e.g. only leaf_area_index.max for one of the default classes removed
the default minimum and the additive term, i.e., the class lost its LAI.
---
 openamundsen/conf.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/openamundsen/conf.py b/openamundsen/conf.py
index 5f09ccd..4cb9a6e 100644
--- a/openamundsen/conf.py
+++ b/openamundsen/conf.py
@@ -218,7 +218,10 @@ def _merge_land_cover_params(class_params):
     for lcc, lcc_params in class_params.items():
         if lcc in merged_params:
             for k, v in lcc_params.items():
-                merged_params[lcc][k] = v
+                if isinstance(v, dict) and k in merged_params[lcc]:
+                    merged_params[lcc][k].update(v)
+                else:
+                    merged_params[lcc][k] = v
         else:
             merged_params[lcc] = lcc_params
 
-- 
2.43.0


From 0c8942ce4bd8150ab470f949bf4ec49bd194f85e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:03:00 +0000
Subject: [PATCH 26/52] fix: use the configured emissivities and rock emission
 factor

The settings meteo.radiation.snow_emissivity, cloud_emissivity and
rock_emission_factor were accepted, but constants (equal to the defaults)
were used instead.
---
 openamundsen/modules/radiation/irradiance.py | 10 +++++++---
 openamundsen/surface.py                      |  3 +--
 2 files changed, 8 insertions(+), 5 deletions(-)

diff --git a/openamundsen/modules/radiation/irradiance.py b/openamundsen/modules/radiation/irradiance.py
index edbb57a..584cadd 100644
--- a/openamundsen/modules/radiation/irradiance.py
+++ b/openamundsen/modules/radiation/irradiance.py
@@ -289,9 +289,13 @@ def longwave_irradiance(model):
     m = model.state.meteo
     clear_sky_emissivity = meteo.clear_sky_emissivity(m.precipitable_water[roi])
 
-    # TODO these should be parameters
-    cloud_emissivity = 0.976  # emissivity of totally overcast skies (Greuell et al., 1997) # noqa: E501 # fmt: skip
-    rock_emission_factor = 0.01  # (K W-1 m2) temperature of emitting rocks during daytime is assumed to be higher than the air temperature by this factor multiplied by the incoming shortwave radiation (Greuell et al., 1997) # noqa: E501
+    # Emissivity of totally overcast skies (Greuell et al., 1997)
+    cloud_emissivity = model.config.meteo.radiation.cloud_emissivity
+
+    # The temperature of emitting rocks during daytime is assumed to be higher than the air
+    # temperature by this factor (K W-1 m2) multiplied by the incoming shortwave radiation
+    # (Greuell et al., 1997)
+    rock_emission_factor = model.config.meteo.radiation.rock_emission_factor
 
     # Incoming longwave radiation from the clear sky
     lw_in_clearsky = (
diff --git a/openamundsen/surface.py b/openamundsen/surface.py
index 952212e..089a34f 100644
--- a/openamundsen/surface.py
+++ b/openamundsen/surface.py
@@ -509,8 +509,7 @@ def calc_radiation_balance(model, pos):
     """
     s = model.state
 
-    # TODO this should be a parameter
-    snow_emissivity = 0.99
+    snow_emissivity = model.config.meteo.radiation.snow_emissivity
 
     s.meteo.sw_out[pos] = s.surface.albedo[pos] * s.meteo.sw_in[pos]
     s.meteo.lw_out[pos] = snow_emissivity * constants.STEFAN_BOLTZMANN * s.surface.temp[pos] ** 4
-- 
2.43.0


From 105e95586577102b602d4d96e6f3de666dcc716b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:12:27 +0000
Subject: [PATCH 27/52] fix: fall back to humidity-based cloudiness if the
 radiation stations cannot be used

---
 openamundsen/modules/radiation/irradiance.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/openamundsen/modules/radiation/irradiance.py b/openamundsen/modules/radiation/irradiance.py
index 584cadd..0829089 100644
--- a/openamundsen/modules/radiation/irradiance.py
+++ b/openamundsen/modules/radiation/irradiance.py
@@ -187,6 +187,9 @@ def shortwave_irradiance(model):
             "station",
             subset=["sw_in"],
         )
+        # Stations for which no clear-sky radiation is available (e.g. because they are located
+        # outside the ROI) cannot be used
+        ds_rad = ds_rad.isel(station=m.sw_in_clearsky[ds_rad.row, ds_rad.col] > 0)
         num_rad_stations = len(ds_rad.station)
 
         if model.sun_params["sun_over_horizon"]:
-- 
2.43.0


From 5ed5f94db0586471dcd3c407aa695d5f761d8d2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:12:27 +0000
Subject: [PATCH 28/52] fix: assign rounding residuals to the last snow layer
 when updating the layers

---
 openamundsen/modules/snow/multilayermodel.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/openamundsen/modules/snow/multilayermodel.py b/openamundsen/modules/snow/multilayermodel.py
index 1aab2ea..eccc53a 100644
--- a/openamundsen/modules/snow/multilayermodel.py
+++ b/openamundsen/modules/snow/multilayermodel.py
@@ -613,7 +613,9 @@ def _update_layers(
             # TODO optimize this loop
             for k_old in range(num_layers_prev[i, j]):
                 while True:  # TODO replace with normal loop
-                    if thickness_prev[k_old, i, j] > 0:
+                    if k_new == ns - 1:  # last layer takes all of the remaining snow
+                        weight = 1.0
+                    elif thickness_prev[k_old, i, j] > 0:
                         weight = min(new_thickness / thickness_prev[k_old, i, j], 1.0)
                     else:  # layer has completely melted or sublimated
                         weight = 1.0
-- 
2.43.0


From 88c692e5198a22d0b9ce5fa4ad601d6192977d67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:28:17 +0000
Subject: [PATCH 29/52] fix: reject an extended SVF raster that does not match
 the extended DEM

---
 openamundsen/model.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/openamundsen/model.py b/openamundsen/model.py
index 1fe1f64..3f7fe86 100644
--- a/openamundsen/model.py
+++ b/openamundsen/model.py
@@ -737,11 +737,10 @@ class OpenAmundsen:
         if extended_svf_file.exists():
             ext_svf = fileio.read_raster_file(
                 extended_svf_file,
+                check_meta=ext_meta,
                 fill_value=np.nan,
                 dtype=float,
             )
-            if ext_svf.shape != ext_dem.shape:
-                raise errors.RasterFileError("Extended DEM and SVF have differing dimensions")
         else:
             logger.info("Calculating extended sky view factor")
             ext_svf = terrain.sky_view_factor(
-- 
2.43.0


From f8bcc087ae60c8a5c1e2240c6f2acd478c6e5c4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:37:29 +0000
Subject: [PATCH 30/52] fix: restore the number of numba threads also if a time
 step fails

---
 openamundsen/model.py | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/openamundsen/model.py b/openamundsen/model.py
index 3f7fe86..38772c1 100644
--- a/openamundsen/model.py
+++ b/openamundsen/model.py
@@ -252,6 +252,16 @@ class OpenAmundsen:
             prev_num_threads = numba.get_num_threads()
             numba.set_num_threads(self._numba_threads)
 
+        try:
+            self._process_next_time_step()
+        finally:
+            if self._numba_threads is not None:
+                numba.set_num_threads(prev_num_threads)
+
+    def _process_next_time_step(self):
+        """
+        Increment the date counter and perform the calculations for the next time step.
+        """
         if self.date_idx is None:
             self.date_idx = 0
         elif self.date_idx == len(self.dates) - 1:
@@ -281,9 +291,6 @@ class OpenAmundsen:
             logger.debug("Updating live view window")
             self.liveview.update(self.date)
 
-        if self._numba_threads is not None:
-            numba.set_num_threads(prev_num_threads)
-
     def global_mask(self, mask, global_mask=None, global_idxs=None):
         if global_idxs is None:
             if global_mask is None:
-- 
2.43.0


From b1faffdbe6f86d23bdba34575fee5ea9f6c1ba02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:53:27 +0000
Subject: [PATCH 31/52] fix: make topographic openness independent of the
 number of threads

---
 openamundsen/terrain.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/openamundsen/terrain.py b/openamundsen/terrain.py
index 0a215b1..0d44fb1 100644
--- a/openamundsen/terrain.py
+++ b/openamundsen/terrain.py
@@ -1,7 +1,7 @@
 import logging
 
 import numpy as np
-from numba import njit, prange
+from numba import njit
 
 from openamundsen.modules.radiation import shadows
 
@@ -333,7 +333,7 @@ def openness(dem, res, L, negative=False, mean=True):
     return opn
 
 
-@njit(cache=True, parallel=True)
+@njit(cache=True)
 def _openness_dir(dem, res, L, dir):  # noqa: A002
     """
     Calculate topographic openness for a DEM and a single compass direction.
@@ -360,7 +360,7 @@ def _openness_dir(dem, res, L, dir):  # noqa: A002
     """
     opn_dir = np.full(dem.shape, np.inf)
 
-    for i in prange(int(np.ceil(L / res))):
+    for i in range(int(np.ceil(L / res))):
         dist = res * (i + 1) * [1, np.sqrt(2)][dir % 2]
         Z_shift = _shift_arr_retain(dem, dir, i)
         angle = np.pi / 2 - np.arctan2(Z_shift - dem, dist)
-- 
2.43.0


From 4fbf05b364a7da748f8f1db1d1a24beca766862e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:56:34 +0000
Subject: [PATCH 32/52] fix: use the same sky view factor in the first and in
 later runs

---
 openamundsen/model.py | 37 +++++++++++++++++++------------------
 1 file changed, 19 insertions(+), 18 deletions(-)

diff --git a/openamundsen/model.py b/openamundsen/model.py
index 38772c1..84c180e 100644
--- a/openamundsen/model.py
+++ b/openamundsen/model.py
@@ -594,25 +594,26 @@ class OpenAmundsen:
             else:
                 raise FileNotFoundError(f"DEM file not found: {dem_file}")
 
-            if svf_file.exists():
-                logger.info(f"Reading sky view factor ({svf_file})")
-                self.state.base.svf[:] = fileio.read_raster_file(
-                    svf_file,
-                    check_meta=self.grid,
-                    fill_value=np.nan,
-                    dtype=float,
-                )
-            else:
+            if not svf_file.exists():
                 logger.info("Calculating sky view factor")
                 svf = terrain.sky_view_factor(
                     self.state.base.dem,
                     self.grid.resolution,
                     num_sweeps=self.config.meteo.radiation.num_shadow_sweeps,
                 )
-                self.state.base.svf[:] = svf
                 logger.debug(f"Writing sky view factor file ({svf_file})")
                 fileio.write_raster_file(svf_file, svf, self.grid.transform, decimal_precision=3)
 
+            # Always use the values from the file so that the results are the same regardless of
+            # whether the file already existed
+            logger.info(f"Reading sky view factor ({svf_file})")
+            self.state.base.svf[:] = fileio.read_raster_file(
+                svf_file,
+                check_meta=self.grid,
+                fill_value=np.nan,
+                dtype=float,
+            )
+
         if roi_file.exists():
             logger.info(f"Reading ROI ({roi_file})")
             self.grid.roi[:] = fileio.read_raster_file(
@@ -741,14 +742,7 @@ class OpenAmundsen:
         ):
             raise errors.RasterFileError("Extended DEM does not fully cover the model grid")
 
-        if extended_svf_file.exists():
-            ext_svf = fileio.read_raster_file(
-                extended_svf_file,
-                check_meta=ext_meta,
-                fill_value=np.nan,
-                dtype=float,
-            )
-        else:
+        if not extended_svf_file.exists():
             logger.info("Calculating extended sky view factor")
             ext_svf = terrain.sky_view_factor(
                 ext_dem,
@@ -758,6 +752,13 @@ class OpenAmundsen:
             logger.debug(f"Writing extended sky view factor file ({extended_svf_file})")
             fileio.write_raster_file(extended_svf_file, ext_svf, ext_transform, decimal_precision=3)
 
+        ext_svf = fileio.read_raster_file(
+            extended_svf_file,
+            check_meta=ext_meta,
+            fill_value=np.nan,
+            dtype=float,
+        )
+
         row_offset = int(ext_offset_ul[0])
         col_offset = int(ext_offset_ul[1])
         self.grid.extended_grid.available = True
-- 
2.43.0


From b28fee86ddd28f214fd6f2b754612db955185800 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Wed, 18 Nov 2026 16:51:27 +0000
Subject: [PATCH 33/52] fix: divide by the gas constant and the temperature in
 dry_air_density

---
 openamundsen/meteo/atmosphere.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/openamundsen/meteo/atmosphere.py b/openamundsen/meteo/atmosphere.py
index 2d76a1a..972570b 100644
--- a/openamundsen/meteo/atmosphere.py
+++ b/openamundsen/meteo/atmosphere.py
@@ -71,7 +71,7 @@ def dry_air_density(temp, pressure):
     density : numeric
         Dry air density (kg m-3).
     """
-    return pressure * (c.GAS_CONSTANT_DRY_AIR * temp)
+    return np.asarray(pressure) / (c.GAS_CONSTANT_DRY_AIR * np.asarray(temp))
 
 
 def latent_heat_of_vaporization(temp):
-- 
2.43.0


From e878e1656d11ee3b489b4dc60bf91efb8423368f Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Wed, 18 Nov 2026 16:51:27 +0000
Subject: [PATCH 34/52] fix: correct the air density for evaporation from
 sealed surfaces

---
 openamundsen/modules/evapotranspiration/evapotranspiration.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/openamundsen/modules/evapotranspiration/evapotranspiration.py b/openamundsen/modules/evapotranspiration/evapotranspiration.py
index 18df8ad..935e70d 100644
--- a/openamundsen/modules/evapotranspiration/evapotranspiration.py
+++ b/openamundsen/modules/evapotranspiration/evapotranspiration.py
@@ -579,7 +579,7 @@ class EvapotranspirationModel:
         ea = s.meteo.vap_press[pos_dry]  # actual vapor pressure (Pa)
 
         Tv = 1.01 * s.meteo.top_canopy_temp[pos_dry]  # virtual temperature (K)
-        rhoa = s.meteo.atmos_press[pos_dry] / c.GAS_CONSTANT_DRY_AIR * Tv  # air density at constant pressure (kg m-3) # fmt: skip # noqa: E501
+        rhoa = s.meteo.atmos_press[pos_dry] / (c.GAS_CONSTANT_DRY_AIR * Tv)  # air density at constant pressure (kg m-3) # fmt: skip # noqa: E501
         cp = (  # specific heat at constant pressure (J kg-1 K-1) (p. 26)
             gamma * 0.622 * c.LATENT_HEAT_OF_VAPORIZATION / s.meteo.atmos_press[pos_dry]
         )
-- 
2.43.0


From c9eb551852097c67c6aa529113aecee1d2ee7d00 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Wed, 18 Nov 2026 16:51:27 +0000
Subject: [PATCH 35/52] fix: convert the wind direction diverting factor to
 degrees

---
 openamundsen/meteo/interpolation.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/openamundsen/meteo/interpolation.py b/openamundsen/meteo/interpolation.py
index d7ee5f7..272df93 100644
--- a/openamundsen/meteo/interpolation.py
+++ b/openamundsen/meteo/interpolation.py
@@ -589,6 +589,6 @@ def _liston_wind_correction(
         -0.5 * wind_slope_scaled * np.sin(-2 * wind_dir_minus_aspect)
     )
     wind_speed_corr = wind_speed_roi * wind_weighting_factor
-    wind_dir_corr = (wind_dir_roi + wind_dir_diverting_factor) % 360
+    wind_dir_corr = (wind_dir_roi + np.rad2deg(wind_dir_diverting_factor)) % 360
 
     return wind_speed_corr, wind_dir_corr
-- 
2.43.0


From b6dddc41030c757372862566b5f3956cc257cf5b Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Wed, 18 Nov 2026 16:51:27 +0000
Subject: [PATCH 36/52] fix: normalize constant arrays to the center of the
 range instead of nan

---
 openamundsen/util.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/openamundsen/util.py b/openamundsen/util.py
index 0a40726..73c3066 100644
--- a/openamundsen/util.py
+++ b/openamundsen/util.py
@@ -380,5 +380,10 @@ def normalize_array(data, min, max):  # noqa: A002
     data = np.asarray(data)
     data_min = np.nanmin(data)
     data_max = np.nanmax(data)
+
+    if data_max == data_min:
+        # No range to be scaled, take the center
+        return np.where(np.isnan(data), np.nan, (min + max) / 2)
+
     scale_factor = (max - min) / (data_max - data_min)
     return min + scale_factor * (data - data_min)
-- 
2.43.0


From c6db0aa845ffb95528d02a2385101633adf0b2d2 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Wed, 18 Nov 2026 16:51:27 +0000
Subject: [PATCH 37/52] fix: set the month and day flags of steps longer than a
 month

---
 openamundsen/model.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/openamundsen/model.py b/openamundsen/model.py
index 84c180e..85dd76b 100644
--- a/openamundsen/model.py
+++ b/openamundsen/model.py
@@ -951,16 +951,16 @@ class OpenAmundsen:
 
         first_of_run = self.date_idx == 0
         strict_first_of_year = pot_prev_date.year != self.date.year
-        strict_first_of_month = pot_prev_date.month != self.date.month
-        strict_first_of_day = pot_prev_date.day != self.date.day
+        strict_first_of_month = strict_first_of_year or pot_prev_date.month != self.date.month
+        strict_first_of_day = strict_first_of_month or pot_prev_date.day != self.date.day
         first_of_year = strict_first_of_year or first_of_run
         first_of_month = strict_first_of_month or first_of_run
         first_of_day = strict_first_of_day or first_of_run
 
         last_of_run = self.date_idx == len(self.dates) - 1
         strict_last_of_year = pot_next_date.year != self.date.year
-        strict_last_of_month = pot_next_date.month != self.date.month
-        strict_last_of_day = pot_next_date.day != self.date.day
+        strict_last_of_month = strict_last_of_year or pot_next_date.month != self.date.month
+        strict_last_of_day = strict_last_of_month or pot_next_date.day != self.date.day
         last_of_year = strict_last_of_year or last_of_run
         last_of_month = strict_last_of_month or last_of_run
         last_of_day = strict_last_of_day or last_of_run
-- 
2.43.0


From ddb76df3c24ad9adcdb8266b3993b89891563e6b Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Wed, 18 Nov 2026 16:51:27 +0000
Subject: [PATCH 38/52] fix: update the turbulent fluxes consistently with the
 surface temperature change

---
 openamundsen/surface.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/openamundsen/surface.py b/openamundsen/surface.py
index 089a34f..5f009c4 100644
--- a/openamundsen/surface.py
+++ b/openamundsen/surface.py
@@ -199,7 +199,7 @@ def multilayer_energy_balance(model):
     s.surface.sens_heat_flux[roi] += sens_heat_flux_change
     calc_radiation_balance(model, roi)
     calc_latent_heat(model, roi)
-    calc_turbulent_fluxes(model, roi, sensible=False)
+    s.surface.lat_heat_flux[roi] = s.surface.lat_heat[roi] * s.surface.moisture_flux[roi]
 
 
 def cryo_layer_energy_balance(model):
@@ -762,7 +762,11 @@ def solve_energy_balance(model, pos):
     )
 
     surf_moisture_flux_change = (  # eq. (33) (kg m-2 s-1)
-        s.surface.moisture_availability[pos] * rhoa_CH_Ua * dQsat_by_dTs * surf_temp_change
+        -1
+        * s.surface.moisture_availability[pos]
+        * rhoa_CH_Ua
+        * dQsat_by_dTs
+        * surf_temp_change
     )
 
     surf_heat_flux_change = (  # eq. (34) (W m-2)
@@ -770,7 +774,7 @@ def solve_energy_balance(model, pos):
     )
 
     sens_heat_flux_change = (  # eq. (35) (W m-2)
-        constants.SPEC_HEAT_CAP_DRY_AIR * rhoa_CH_Ua * surf_temp_change
+        -1 * constants.SPEC_HEAT_CAP_DRY_AIR * rhoa_CH_Ua * surf_temp_change
     )
 
     surf_temp_change[np.isnan(surf_temp_change)] = 0.0
-- 
2.43.0


From 25f3718a9d957957ddb6b7fd8d91c6c5256a85fd Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Wed, 18 Nov 2026 16:51:27 +0000
Subject: [PATCH 39/52] fix: use the humidity at the limited snow surface
 temperature

---
 openamundsen/surface.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/openamundsen/surface.py b/openamundsen/surface.py
index 5f009c4..7e42134 100644
--- a/openamundsen/surface.py
+++ b/openamundsen/surface.py
@@ -904,3 +904,4 @@ def iterate_surface_temperature(model, frosties):
 
         # TODO calculate melt when surface temperature is positive after iteration?
         s.surface.temp[frosties] = s.surface.temp[frosties].clip(max=constants.T0)
+        calc_saturation_specific_humidity(model, frosties)
-- 
2.43.0


From 6455f95e88d84f6184c053484575677764d88d07 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Wed, 18 Nov 2026 16:51:27 +0000
Subject: [PATCH 40/52] fix: use the latent heat of sublimation for surfaces of
 old snow, firn and ice

---
 openamundsen/surface.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/openamundsen/surface.py b/openamundsen/surface.py
index 7e42134..d670011 100644
--- a/openamundsen/surface.py
+++ b/openamundsen/surface.py
@@ -588,7 +588,7 @@ def calc_latent_heat(model, pos):
     s = model.state
     lat_heat_vap = meteo.latent_heat_of_vaporization(s.meteo.temp[pos])
     s.surface.lat_heat[pos] = np.where(
-        (s.snow.ice_content[0, pos] > 0) | (s.surface.temp[pos] < constants.T0),
+        (s.snow.ice_content[:, pos].sum(axis=0) > 0) | (s.surface.temp[pos] < constants.T0),
         lat_heat_vap + constants.LATENT_HEAT_OF_FUSION,
         lat_heat_vap,
     )
-- 
2.43.0


From a230488d6c08515741e8a812cb27e1fc33d322bd Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Wed, 18 Nov 2026 16:51:27 +0000
Subject: [PATCH 41/52] fix: take the temperature below the snowpack from the
 soil

---
 openamundsen/modules/snow/multilayermodel.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/openamundsen/modules/snow/multilayermodel.py b/openamundsen/modules/snow/multilayermodel.py
index eccc53a..0c3db25 100644
--- a/openamundsen/modules/snow/multilayermodel.py
+++ b/openamundsen/modules/snow/multilayermodel.py
@@ -84,6 +84,7 @@ class MultilayerSnowModel(SnowModel):
             s.soil.thickness,
             model.timestep,
             s.snow.temp,
+            s.soil.temp,
             s.snow.therm_cond,
             s.soil.therm_cond,
             s.surface.heat_flux,
@@ -447,6 +448,7 @@ def _heat_conduction(
     soil_thickness,
     timestep,
     temp,
+    soil_temp,
     therm_cond_snow,
     therm_cond_soil,
     heat_flux,
@@ -476,6 +478,9 @@ def _heat_conduction(
     temp : ndarray(float, ndim=3)
         Snow temperature (K).
 
+    soil_temp : ndarray(float, ndim=3)
+        Soil temperature (K).
+
     therm_cond_snow : ndarray(float, ndim=3)
         Snow thermal conductivity (W m-1 K-1).
 
@@ -506,7 +511,7 @@ def _heat_conduction(
                 timestep,
                 temp[:ns, i, j],
                 therm_cond_snow[:ns, i, j],
-                temp[-1, i, j],
+                soil_temp[0, i, j],
                 soil_thickness[0, i, j],
                 therm_cond_soil[0, i, j],
                 heat_flux[i, j],
-- 
2.43.0


From 89718462be3bbc8edc9fd65753d01136deea4fe8 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Wed, 18 Nov 2026 16:51:27 +0000
Subject: [PATCH 42/52] fix: pass the heat that leaves the snowpack to the soil

---
 openamundsen/model.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/openamundsen/model.py b/openamundsen/model.py
index 85dd76b..7860300 100644
--- a/openamundsen/model.py
+++ b/openamundsen/model.py
@@ -377,6 +377,10 @@ class OpenAmundsen:
             self.snow.temperature_index()
 
         self.snow.heat_conduction()
+
+        if self._require_soil:
+            modules.soil.soil_heat_flux(self)
+
         self.snow.melt()
         self.snow.sublimation()
         self.snow.runoff()
@@ -384,7 +388,6 @@ class OpenAmundsen:
         self.snow.update_layers()
 
         if self._require_soil:
-            modules.soil.soil_heat_flux(self)
             modules.soil.soil_temperature(self)
 
         if self._require_evapotranspiration:
-- 
2.43.0


From 80561d23ded5d12e4a9a65c49637695b19258566 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Wed, 18 Nov 2026 17:05:34 +0000
Subject: [PATCH 43/52] fix: sublimate also where the uppermost snow layer has
 melted in the same step

The latent heat flux is part of the surface energy balance of these pixels, but
the corresponding mass was neither removed from nor added to the remaining snow
layers.
---
 openamundsen/modules/snow/multilayermodel.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/openamundsen/modules/snow/multilayermodel.py b/openamundsen/modules/snow/multilayermodel.py
index 0c3db25..e6cb008 100644
--- a/openamundsen/modules/snow/multilayermodel.py
+++ b/openamundsen/modules/snow/multilayermodel.py
@@ -112,7 +112,10 @@ class MultilayerSnowModel(SnowModel):
         roi = model.grid.roi
 
         s.snow.sublimation[roi] = 0.0
-        pos_roi = (s.snow.ice_content[0, roi] > 0) | (s.surface.temp[roi] < constants.T0)
+        # (the uppermost layer might have melted completely in this time step)
+        pos_roi = (s.snow.ice_content[:, roi].sum(axis=0) > 0) | (
+            s.surface.temp[roi] < constants.T0
+        )
         pos = model.roi_mask_to_global(pos_roi)
         pot_sublim = -1 * s.surface.moisture_flux[pos] * model.timestep
         pot_sublim[np.isnan(pot_sublim)] = 0.0
-- 
2.43.0


From 908dc5c3c3fe61394aa2fead5ba6882eedf620c2 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Wed, 18 Nov 2026 18:19:36 +0000
Subject: [PATCH 44/52] fix: wet_bulb_temperature accepts scalars and integers
 like the other meteorological functions

---
 openamundsen/meteo/atmosphere.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/openamundsen/meteo/atmosphere.py b/openamundsen/meteo/atmosphere.py
index 972570b..93d28f2 100644
--- a/openamundsen/meteo/atmosphere.py
+++ b/openamundsen/meteo/atmosphere.py
@@ -314,17 +314,17 @@ def wet_bulb_temperature(temp, rel_hum, vap_press, psych_const):
     wet_bulb_temp : numeric
         Wet-bulb temperature (K).
     """
-    temp = np.asarray(temp)
-    vap_press = np.asarray(vap_press)
-    psych_const = np.asarray(psych_const)
+    temp, vap_press, psych_const = (
+        np.array(a, dtype=float) for a in np.broadcast_arrays(temp, vap_press, psych_const)
+    )
 
     tol = 1e-2  # stopping criterion (iteration continues until abs(x0 - x1) < tol)
 
-    x0 = temp - 10  # first start value (x_(k-1))
+    x0 = np.asarray(temp - 10)  # first start value (x_(k-1))
     x1 = temp.copy()  # second start value (x_k)
     x1[np.isnan(vap_press)] = np.nan  # where RH (-> vapor pressure) is nan WBT should also be nan
-    y0 = _water_vapor_pressure_difference(temp, x0, vap_press, psych_const)
-    y1 = _water_vapor_pressure_difference(temp, x1, vap_press, psych_const)
+    y0 = np.asarray(_water_vapor_pressure_difference(temp, x0, vap_press, psych_const))
+    y1 = np.asarray(_water_vapor_pressure_difference(temp, x1, vap_press, psych_const))
 
     while True:
         d = (x1 - x0) / (y1 - y0) * y1  # secant method
-- 
2.43.0


From 3956e6df173f04883d9a2ea419367f7f278e46f6 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Wed, 18 Nov 2026 18:37:22 +0000
Subject: [PATCH 45/52] fix: forward scattering ratio of aerosols is a
 quadratic function of the zenith angle

---
 openamundsen/modules/radiation/clearsky.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/openamundsen/modules/radiation/clearsky.py b/openamundsen/modules/radiation/clearsky.py
index a34a852..8f6ce26 100644
--- a/openamundsen/modules/radiation/clearsky.py
+++ b/openamundsen/modules/radiation/clearsky.py
@@ -153,7 +153,7 @@ def _clear_sky_shortwave_irradiance(
     )
 
     # Aerosol-scattered diffuse irradiance
-    scattering_ratio = -0.2562 * zenith_angle**2 * 0.1409 * zenith_angle + 0.9067
+    scattering_ratio = -0.2562 * zenith_angle**2 + 0.1409 * zenith_angle + 0.9067
     trans_aerosol_ratio = ts["trans_aerosols"] / ts["trans_aerosol_abs"]
     diff_irr_aerosols = (
         0.79
-- 
2.43.0


From af560c1291b132e0906772b258807bf104eac1cc Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Wed, 18 Nov 2026 18:37:22 +0000
Subject: [PATCH 46/52] fix: Rayleigh transmittance: the last factor belongs to
 the exponent

---
 openamundsen/modules/radiation/clearsky.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/openamundsen/modules/radiation/clearsky.py b/openamundsen/modules/radiation/clearsky.py
index 8f6ce26..4ba4b3f 100644
--- a/openamundsen/modules/radiation/clearsky.py
+++ b/openamundsen/modules/radiation/clearsky.py
@@ -258,8 +258,10 @@ def _transmittances(
     rel_opt_air_mass_press_corr = rel_opt_air_mass * atmos_press / c.STANDARD_ATMOSPHERE
 
     # Rayleigh scattering
-    trans_rayleigh = np.exp(-0.0903 * rel_opt_air_mass_press_corr**0.84) * (
-        1 + rel_opt_air_mass_press_corr - rel_opt_air_mass_press_corr**1.01
+    trans_rayleigh = np.exp(
+        -0.0903
+        * rel_opt_air_mass_press_corr**0.84
+        * (1 + rel_opt_air_mass_press_corr - rel_opt_air_mass_press_corr**1.01)
     )
 
     # Transmittance by ozone (constant for the entire area) (eq. (3.13))
-- 
2.43.0


From d97a09830503775ee346862f6e5d53904af2f889 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Wed, 18 Nov 2026 18:37:22 +0000
Subject: [PATCH 47/52] fix: limit the relative optical air mass instead of its
 reciprocal

---
 openamundsen/modules/radiation/clearsky.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/openamundsen/modules/radiation/clearsky.py b/openamundsen/modules/radiation/clearsky.py
index 4ba4b3f..5be2d24 100644
--- a/openamundsen/modules/radiation/clearsky.py
+++ b/openamundsen/modules/radiation/clearsky.py
@@ -106,8 +106,8 @@ def _clear_sky_shortwave_irradiance(
     aoi = aoi.clip(min=0)  # shadows due to steepness of the slope (sun "behind")
 
     # Relative optical air mass for standard pressure (Iqbal 1983)
-    rel_opt_air_mass = 1.0 / (
-        np.cos(zenith_angle) + 0.15 * (93.885 - np.rad2deg(zenith_angle)) ** (-1.253)
+    rel_opt_air_mass = (
+        1.0 / (np.cos(zenith_angle) + 0.15 * (93.885 - np.rad2deg(zenith_angle)) ** (-1.253))
     ).clip(max=14.1952)  # function is only valid for zenith angles up to 87°
 
     # Relative optical air mass pressure corrected
-- 
2.43.0


From f679217452e84feb2f60e67a781ca455057e8a3b Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Wed, 18 Nov 2026 18:51:22 +0000
Subject: [PATCH 48/52] fix: Liston wind interpolation on grids too small for
 an aspect

---
 openamundsen/meteo/interpolation.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/openamundsen/meteo/interpolation.py b/openamundsen/meteo/interpolation.py
index 272df93..5ad4cce 100644
--- a/openamundsen/meteo/interpolation.py
+++ b/openamundsen/meteo/interpolation.py
@@ -575,7 +575,8 @@ def _liston_wind_correction(
         target_zs,
     )
     wind_speed_roi, wind_dir_roi = meteo.wind_from_uv(wind_u_roi, wind_v_roi)
-    wind_dir_minus_aspect = np.deg2rad(wind_dir_roi - target_aspects)
+    # For small DEMs (assumed to be flat) aspect is not defined
+    wind_dir_minus_aspect = np.deg2rad(wind_dir_roi - np.nan_to_num(target_aspects))
     wind_slope = (  # slope in the direction of the wind (eq. (15))
         np.deg2rad(target_slopes) * np.cos(wind_dir_minus_aspect)
     )
-- 
2.43.0


From 1cdc05a3d68546130e578979605f0d89a8203074 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Wed, 18 Nov 2026 19:40:10 +0000
Subject: [PATCH 49/52] fix: canopy: saturation density of water vapor counted
 the ratio of the gas constants twice

---
 openamundsen/modules/canopy/canopy.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/openamundsen/modules/canopy/canopy.py b/openamundsen/modules/canopy/canopy.py
index 64a1cff..3aa1b89 100644
--- a/openamundsen/modules/canopy/canopy.py
+++ b/openamundsen/modules/canopy/canopy.py
@@ -143,7 +143,7 @@ class CanopyModel:
         sherwood = nusselt  # Sherwood number
 
         # Saturation density of water vapor (kg m-3) (eq. (15))
-        wat_vap_sat_dens = 0.622 * meteo.absolute_humidity(
+        wat_vap_sat_dens = meteo.absolute_humidity(
             s.meteo.temp[pos],
             s.meteo.sat_vap_press[pos],
         )
-- 
2.43.0


From e9ffaa583a8c1d44ecb81889920e7348b681076c Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Wed, 18 Nov 2026 20:02:45 +0000
Subject: [PATCH 50/52] fix: evapotranspiration: soil depletion became NaN
 below a closed sparse vegetation cover

---
 openamundsen/modules/evapotranspiration/evapotranspiration.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/openamundsen/modules/evapotranspiration/evapotranspiration.py b/openamundsen/modules/evapotranspiration/evapotranspiration.py
index 935e70d..d38d984 100644
--- a/openamundsen/modules/evapotranspiration/evapotranspiration.py
+++ b/openamundsen/modules/evapotranspiration/evapotranspiration.py
@@ -447,8 +447,8 @@ class EvapotranspirationModel:
         # precipitation (= 1.0) from Table 20)
         wetted_frac = 1.0
 
-        # Exposed and wetted soil fraction (eq. (75))
-        exposed_wetted_frac = np.minimum(1 - veg_frac, wetted_frac)
+        # Exposed and wetted soil fraction (eq. (75)); the exposed fraction is at least 0.01
+        exposed_wetted_frac = np.minimum(np.maximum(1 - veg_frac, 0.01), wetted_frac)
 
         # Calculate evaporation reduction coefficient (eq. (74))
         pos2 = s_et.cum_soil_surface_depletion[pos] > s_et.readily_evaporable_water[pos]
-- 
2.43.0


From a64ce053a50b843ca604b4c4c5a79bfd4533b080 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Wed, 18 Nov 2026 21:26:40 +0000
Subject: [PATCH 51/52] fix: soil: apparent heat capacity of freezing soil took
 the temperature in K instead of degrees C

---
 openamundsen/modules/soil/soil.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/openamundsen/modules/soil/soil.py b/openamundsen/modules/soil/soil.py
index f45aeef..0ca0f9a 100644
--- a/openamundsen/modules/soil/soil.py
+++ b/openamundsen/modules/soil/soil.py
@@ -171,7 +171,7 @@ def _soil_properties(
                     + c.ICE_DENSITY * c.SPEC_HEAT_CAP_ICE * vol_frozen_moisture_content
                     + c.WATER_DENSITY
                     * (
-                        (c.SPEC_HEAT_CAP_WATER - c.SPEC_HEAT_CAP_ICE) * temp[k, i, j]
+                        (c.SPEC_HEAT_CAP_WATER - c.SPEC_HEAT_CAP_ICE) * (temp[k, i, j] - c.T0)
                         + c.LATENT_HEAT_OF_FUSION
                     )
                     * dTheta_u_by_dT
-- 
2.43.0


From 247f39eeb328a324140470cb262111ae0ecea394 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Wed, 18 Nov 2026 21:26:40 +0000
Subject: [PATCH 52/52] fix: soil: surface conductance and energy balance
 became NaN for soil without moisture

---
 openamundsen/modules/soil/soil.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/openamundsen/modules/soil/soil.py b/openamundsen/modules/soil/soil.py
index 0ca0f9a..43b676d 100644
--- a/openamundsen/modules/soil/soil.py
+++ b/openamundsen/modules/soil/soil.py
@@ -205,6 +205,8 @@ def _soil_properties(
                     i, j
                 ]
             else:  # vol_moisture_content[k, i, j] == 0
+                frac_unfrozen_moisture_content[k, i, j] = 0.0
+                frac_frozen_moisture_content[k, i, j] = 0.0
                 heat_cap[k, i, j] = vol_heat_cap_dry[i, j] * thickness[k, i, j]
                 therm_cond[k, i, j] = therm_cond_dry[i, j]
 
-- 
2.43.0

