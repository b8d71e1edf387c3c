From 1447972db84e14fc8cc248cdaeed9f5a41adc5ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:06:16 +0000
Subject: [PATCH 01/31] fix: hourly_index failed for daily data with gaps

Index.to_datetime and pd.datetime no longer exist in pandas, so any daily index
with missing days raised AttributeError. Seasonal cascade disaggregation and
polar night handling both need such indexes.

Select the hours whose day is part of the daily index instead.
---
 melodist/util/util.py | 12 +-----------
 1 file changed, 1 insertion(+), 11 deletions(-)

diff --git a/melodist/util/util.py b/melodist/util/util.py
index 7550078..2cbf4af 100644
--- a/melodist/util/util.py
+++ b/melodist/util/util.py
@@ -28,17 +28,7 @@ def hourly_index(daily_index, fill_gaps=False):
 
     # remove days that are not in the daily index:
     if not fill_gaps and len(index) > len(daily_index) * 24:
-        df = pd.DataFrame(index=index.date, data=dict(hour=index.hour, keep=True))
-        df.index = df.index.to_datetime()
-        dropdates = list(set(index.date) - set(daily_index.date))
-        df.loc[dropdates, 'keep'] = False
-        df = df[df.keep]
-        index = pd.DatetimeIndex(
-            [
-                pd.datetime(y, m, d, h)
-                for y, m, d, h in zip(df.index.year, df.index.month, df.index.day, df.hour)
-            ]
-        )
+        index = index[index.normalize().isin(daily_index.normalize())]
 
     return index
 
-- 
2.43.0


From 902347e070beb8a7dd06abf05baa196316b3b8ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:06:42 +0000
Subject: [PATCH 02/31] fix: sub-hourly index helpers failed for gaps and
 current pandas

pd.datetime and the 'L' frequency alias were removed from pandas, so
sub_level_index raised for daily data with gaps and fmin_index always raised.
---
 melodist/precipitation.py | 45 +++++----------------------------------
 1 file changed, 5 insertions(+), 40 deletions(-)

diff --git a/melodist/precipitation.py b/melodist/precipitation.py
index fb8295f..846e978 100644
--- a/melodist/precipitation.py
+++ b/melodist/precipitation.py
@@ -712,27 +712,9 @@ def sub_level_index(daily_index, level=9, fill_gaps=False):
     # remove days that are not in the daily index:
     time_steps = 2**level
     if not fill_gaps and len(sublevel_index) > len(daily_index) * time_steps:
-        df = pd.DataFrame(
-            index=sublevel_index.date,
-            data=dict(
-                hour=sublevel_index.hour,
-                minute=sublevel_index.minute,
-                second=sublevel_index.second,
-                keep=True,
-            ),
-        )
-        df.index = pd.to_datetime(df.index)
-        dropdates = list(set(sublevel_index.date) - set(daily_index.date))
-        df.loc[dropdates, 'keep'] = False
-        df = df[df.keep]
-        sublevel_index = pd.DatetimeIndex(
-            [
-                pd.datetime(y, m, d, h, minute, second)
-                for y, m, d, h, minute, second in zip(
-                    df.index.year, df.index.month, df.index.day, df.hour, df.minute, df.second
-                )
-            ]
-        )
+        sublevel_index = sublevel_index[
+            sublevel_index.normalize().isin(daily_index.normalize())
+        ]
 
     return sublevel_index
 
@@ -741,27 +723,10 @@ def fmin_index(daily_index, fill_gaps=False):
     fminindex = pd.date_range(
         start=daily_index.min(),
         end=daily_index.max().replace(hour=23, minute=59, second=59),
-        freq='300000L',
+        freq='5min',
     )
     # remove days that are not in the daily index:
     if not fill_gaps and len(fminindex) > len(daily_index) * 288:
-        df = pd.DataFrame(
-            index=fminindex.date,
-            data=dict(
-                hour=fminindex.hour, minute=fminindex.minute, second=fminindex.second, keep=True
-            ),
-        )
-        df.index = pd.to_datetime(df.index)  # got a warning at firsr: "to_datetime"is depreciated
-        dropdates = list(set(fminindex.date) - set(daily_index.date))
-        df.loc[dropdates, 'keep'] = False
-        df = df[df.keep]
-        fminindex = pd.DatetimeIndex(
-            [
-                pd.datetime(y, m, d, h, minute, second)
-                for y, m, d, h, minute, second in zip(
-                    df.index.year, df.index.month, df.index.day, df.hour, df.minute, df.second
-                )
-            ]
-        )
+        fminindex = fminindex[fminindex.normalize().isin(daily_index.normalize())]
 
     return fminindex
-- 
2.43.0


From 62699fa1c348f6039f94b86cbafa6341d2e0f776 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:06:43 +0000
Subject: [PATCH 03/31] fix: sub-hourly cascade reported zero rainfall for days
 without data

Resampling to 5 minutes filled every day missing from the daily index with
zeros. Such days are now left out, as in the hourly variant.
---
 melodist/precipitation.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/melodist/precipitation.py b/melodist/precipitation.py
index 846e978..7f29fdf 100644
--- a/melodist/precipitation.py
+++ b/melodist/precipitation.py
@@ -309,6 +309,8 @@ def disagg_prec_cascade(precip_daily, cascade_options, hourly=True, level=9, shi
             index=sub_level_index(precip_daily.index, level=level, fill_gaps=False), data=vdn_out
         )
         disagg_precip = precip_sn.resample('5min').sum()
+        # resampling fills gaps in the daily index with zeros - remove them again
+        disagg_precip = disagg_precip.reindex(fmin_index(precip_daily.index))
 
     # set missing days to nan again:
     for date in missing_days:
-- 
2.43.0


From e39b77e450fe7aa269e15773ca365fd012324395 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:06:43 +0000
Subject: [PATCH 04/31] fix: cascade failed for draws above the rounded sum of
 the weights

The seven class probabilities may add up to slightly less than one. A random
number above that sum matched no class, which raised UnboundLocalError or
silently reused the weight of the previous box.
---
 melodist/precipitation.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/melodist/precipitation.py b/melodist/precipitation.py
index 7f29fdf..aa04a60 100644
--- a/melodist/precipitation.py
+++ b/melodist/precipitation.py
@@ -260,7 +260,8 @@ def disagg_prec_cascade(precip_daily, cascade_options, hourly=True, level=9, shi
 
                     # guess w1:
                     for k in range(0, 7):
-                        if rndw <= wxxcum[k, belowabove, vbtype - 1]:
+                        # the last class also covers cumulative sums slightly below one
+                        if k == 6 or rndw <= wxxcum[k, belowabove, vbtype - 1]:
                             w1 = wclassbounds[k + 1] - 1.0 / 14.0  # class center
                             break
 
-- 
2.43.0


From 092067a82a936adcc591a2d54113ac20bff642b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:06:43 +0000
Subject: [PATCH 05/31] fix: random wind speed was infinite for a random number
 of zero

numpy draws from the half-open interval [0, 1), so zero can occur.
---
 melodist/wind.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/melodist/wind.py b/melodist/wind.py
index d56e0f4..f706e78 100644
--- a/melodist/wind.py
+++ b/melodist/wind.py
@@ -67,7 +67,9 @@ def disaggregate_wind(wind_daily, method='equal', a=None, b=None, t_shift=None):
             np.array([wind_eq.values, wind_eq.index.hour]), a, b, t_shift
         )
     elif method == 'random':
-        wind_disagg = wind_eq * (-np.log(np.random.rand(len(wind_eq)))) ** 0.3
+        # zero is a valid random number but its logarithm is not finite
+        rnd = np.maximum(np.random.rand(len(wind_eq)), np.finfo(float).epsneg)
+        wind_disagg = wind_eq * (-np.log(rnd)) ** 0.3
 
     return wind_disagg
 
-- 
2.43.0


From 8dc6719476f60121116bef7ad0e707de41518ad6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:06:43 +0000
Subject: [PATCH 06/31] fix: cascade calibration modified the observations it
 was given

build_casc replaced missing precipitation in the caller's data frame, and did so
only after the first season had been selected. Missing values entered the
statistics of the first season, and a second calibration gave other results.

Fill missing values in the seasonal subset only.
---
 melodist/precipitation.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/melodist/precipitation.py b/melodist/precipitation.py
index aa04a60..0a057cf 100644
--- a/melodist/precipitation.py
+++ b/melodist/precipitation.py
@@ -663,7 +663,7 @@ def build_casc(ObsData, hourly=True, level=9, months=None, avg_stats=True, perce
     # Parameter estimation for each season
     for cur_months in months:
         vdn = seasonal_subset(ObsData, cur_months)
-        ObsData['precip'] = ObsData['precip'].fillna(0)
+        vdn = vdn.assign(precip=vdn['precip'].fillna(0))
 
         casc_opt = melodist.cascade.CascadeStatistics()
         casc_opt.percentile = percentile
-- 
2.43.0


From e33463fde54adb87e849c0887b9dcfad5d7331bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:06:58 +0000
Subject: [PATCH 07/31] fix: master station disaggregation failed with current
 pandas

Series.iteritems was removed in pandas 2, so method='masterstation' always
raised AttributeError.
---
 melodist/precipitation.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/melodist/precipitation.py b/melodist/precipitation.py
index 0a057cf..043db6a 100644
--- a/melodist/precipitation.py
+++ b/melodist/precipitation.py
@@ -389,10 +389,10 @@ def precip_master_station(precip_daily, master_precip_hourly, zerodiv):
         distribution
     """
 
-    precip_hourly = pd.Series(index=melodist.util.hourly_index(precip_daily.index))
+    precip_hourly = pd.Series(index=melodist.util.hourly_index(precip_daily.index), dtype=float)
 
     # set some parameters for cosine function
-    for index_d, precip in precip_daily.iteritems():
+    for index_d, precip in precip_daily.items():
         # get hourly data of the day
         index = index_d.date().isoformat()
         precip_h = master_precip_hourly[index]
-- 
2.43.0


From 811a48e744976559cf6389599c365485e8abdc08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:07:41 +0000
Subject: [PATCH 08/31] fix: temperature disaggregation failed during polar
 nights

Masking with the difference of a boolean series and Series.append no longer work
in pandas, so any period entering or leaving a polar night raised an exception.
---
 melodist/temperature.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/melodist/temperature.py b/melodist/temperature.py
index a5ad2b8..cf3d23b 100644
--- a/melodist/temperature.py
+++ b/melodist/temperature.py
@@ -206,7 +206,7 @@ def disaggregate_temperature(
             temp_disagg[getting_colders_max_loc] = locdf_day.min_val_cur[getting_colders].values
 
             temp_polars = temp_disagg.loc[polars_index_hourly].copy()
-            transition_days = polars[polars.diff()].astype(
+            transition_days = polars[polars != polars.shift(fill_value=polars.iloc[0])].astype(
                 int
             )
             # (0 where transition from polar to "normal" mode, 1 where transition from normal to
@@ -219,8 +219,8 @@ def disaggregate_temperature(
                 )
                 add_days = polar_to_normal_days.union(normal_to_polar_days)
 
-                temp_polars = temp_polars.append(
-                    temp_disagg[melodist.util.hourly_index(add_days)]
+                temp_polars = pd.concat(
+                    [temp_polars, temp_disagg[melodist.util.hourly_index(add_days)]]
                 ).sort_index()
 
                 for day in polar_to_normal_days:
-- 
2.43.0


From 7c819db47794b7e28bc051b55f0e4e84424de4c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:07:41 +0000
Subject: [PATCH 09/31] fix: cascade dropped seasons that consist of a single
 day

Station.disaggregate_precipitation silently left the hours of such a day empty
although its daily total is known. The cascade only needs a neighbouring day to
classify the first box, so a single day is now treated as isolated.
---
 melodist/precipitation.py | 6 +++---
 melodist/station.py       | 2 +-
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/melodist/precipitation.py b/melodist/precipitation.py
index 043db6a..1f7e9fc 100644
--- a/melodist/precipitation.py
+++ b/melodist/precipitation.py
@@ -90,8 +90,8 @@ def disagg_prec_cascade(precip_daily, cascade_options, hourly=True, level=9, shi
         test mode, returns time series of each cascade level
     """
 
-    if len(precip_daily) < 2:
-        raise ValueError('Input data must have at least two elements.')
+    if len(precip_daily) < 1:
+        raise ValueError('Input data must have at least one element.')
 
     # set missing values to zero:
     precip_daily = precip_daily.copy()
@@ -204,7 +204,7 @@ def disagg_prec_cascade(precip_daily, cascade_options, hourly=True, level=9, shi
             if vdn_in[i] > 0:
                 # determine type of box
                 if i == 0:  # only starting or isolated
-                    if vdn_in[i + 1] > 0:
+                    if len(vdn_in) > 1 and vdn_in[i + 1] > 0:
                         vbtype = cascade.BoxTypes.starting
                     else:
                         vbtype = cascade.BoxTypes.isolated
diff --git a/melodist/station.py b/melodist/station.py
index 297bb9a..837dfad 100644
--- a/melodist/station.py
+++ b/melodist/station.py
@@ -337,7 +337,7 @@ class Station(object):
 
             for months, stats in zip(self.statistics.precip.months, self.statistics.precip.stats):
                 precip_daily = melodist.seasonal_subset(self.data_daily.precip, months=months)
-                if len(precip_daily) > 1:
+                if len(precip_daily) > 0:
                     data = melodist.disagg_prec(
                         precip_daily,
                         method=method,
-- 
2.43.0


From 6da82204e439a9fbb3df2d457f691311227c478a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:07:41 +0000
Subject: [PATCH 10/31] fix: failed calibrations left a mix of old and new
 parameters

The calc_*_stats methods stored results one by one. If a later step failed, for
example because a fit did not converge, parameters from two calibrations were
combined. Precipitation months could refer to statistics of other seasons.

Store the parameters of a variable together once all of them were computed.
---
 melodist/stationstatistics.py | 24 ++++++++++++++----------
 1 file changed, 14 insertions(+), 10 deletions(-)

diff --git a/melodist/stationstatistics.py b/melodist/stationstatistics.py
index 9e426c0..c16d83e 100644
--- a/melodist/stationstatistics.py
+++ b/melodist/stationstatistics.py
@@ -88,10 +88,10 @@ class StationStatistics(object):
         if months is None:
             months = [np.arange(12) + 1]
 
-        self.precip.months = months
-        self.precip.stats = melodist.build_casc(
+        stats = melodist.build_casc(
             self.data, months=months, avg_stats=avg_stats, percentile=percentile
         )
+        self.precip.update(months=months, stats=stats)
 
     def calc_wind_stats(self):
         """
@@ -105,21 +105,21 @@ class StationStatistics(object):
         Calculates statistics in order to derive diurnal patterns of relative humidity.
         """
         a1, a0 = melodist.calculate_dewpoint_regression(self.data, return_stats=False)
-        self.hum.update(a0=a0, a1=a1)
-        self.hum.kr = 12
+        month_hour_precip_mean = melodist.calculate_month_hour_precip_mean(self.data)
 
-        self.hum.month_hour_precip_mean = melodist.calculate_month_hour_precip_mean(self.data)
+        self.hum.update(a0=a0, a1=a1, kr=12, month_hour_precip_mean=month_hour_precip_mean)
 
     def calc_temperature_stats(self):
         """
         Calculates statistics in order to derive diurnal patterns of temperature
         """
-        self.temp.max_delta = melodist.get_shift_by_data(
+        max_delta = melodist.get_shift_by_data(
             self.data.temp, self._lon, self._lat, self._timezone
         )
-        self.temp.mean_course = melodist.util.calculate_mean_daily_course_by_month(
+        mean_course = melodist.util.calculate_mean_daily_course_by_month(
             self.data.temp, normalize=True
         )
+        self.temp.update(max_delta=max_delta, mean_course=mean_course)
 
     def calc_radiation_stats(self, data_daily=None, day_length=None, how='all'):
         """
@@ -136,7 +136,9 @@ class StationStatistics(object):
         """
         assert how in ('all', 'seasonal', 'monthly')
 
-        self.glob.mean_course = melodist.util.calculate_mean_daily_course_by_month(self.data.glob)
+        mean_course = melodist.util.calculate_mean_daily_course_by_month(self.data.glob)
+        angstroem = self.glob.angstroem.copy()
+        bristcamp = self.glob.bristcamp.copy()
 
         if data_daily is not None:
             pot_rad = melodist.potential_radiation(
@@ -168,7 +170,7 @@ class StationStatistics(object):
                     )
 
                     for month in months:
-                        self.glob.angstroem.loc[month] = a, b
+                        angstroem.loc[month] = a, b
 
             if 'tmin' in data_daily and 'tmax' in data_daily:
                 df = pd.DataFrame(
@@ -189,7 +191,9 @@ class StationStatistics(object):
                     )
 
                     for month in months:
-                        self.glob.bristcamp.loc[month] = a, c
+                        bristcamp.loc[month] = a, c
+
+        self.glob.update(angstroem=angstroem, bristcamp=bristcamp, mean_course=mean_course)
 
     def to_json(self, filename=None):
         """
-- 
2.43.0


From 100ef1fec9c38cd10437aacec3504199e346864e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:07:41 +0000
Subject: [PATCH 11/31] fix: monthly Bristow-Campbell parameters were never
 fitted

The iterator of months was already consumed by the Angstroem fit, so with
how='monthly' the Bristow-Campbell parameters silently kept their old values.
---
 melodist/stationstatistics.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/melodist/stationstatistics.py b/melodist/stationstatistics.py
index c16d83e..2bfc0de 100644
--- a/melodist/stationstatistics.py
+++ b/melodist/stationstatistics.py
@@ -152,7 +152,7 @@ class StationStatistics(object):
             elif how == 'seasonal':
                 month_ranges = [[3, 4, 5], [6, 7, 8], [9, 10, 11], [12, 1, 2]]
             elif how == 'monthly':
-                month_ranges = zip(np.arange(12) + 1)
+                month_ranges = list(zip(np.arange(12) + 1))
 
             def myisin(s, v):
                 return pd.Series(s).isin(v).values
-- 
2.43.0


From 9ccc85e7f9976990268a85e65ed8a37355791cc8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:08:20 +0000
Subject: [PATCH 12/31] fix: failed assignment of daily data left the station
 inconsistent

If creating the hourly frame or the sun times failed, the new daily data was
already in place next to the hourly data and sun times of the old series.

Prepare everything first and assign it afterwards.
---
 melodist/station.py | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/melodist/station.py b/melodist/station.py
index 837dfad..715e283 100644
--- a/melodist/station.py
+++ b/melodist/station.py
@@ -95,15 +95,19 @@ class Station(object):
                     df[var] < 200
                 ), 'Implausible temperature values detected - temperatures must be in K'
 
-        self._data_daily = df.copy()
+        data_daily = df.copy()
 
         # create data frame for disaggregated data:
         index = melodist.util.hourly_index(df.index)
-        df = pd.DataFrame(index=index, columns=Station._columns_hourly, dtype=float)
-        self._data_disagg = df
+        data_disagg = pd.DataFrame(index=index, columns=Station._columns_hourly, dtype=float)
 
+        sun_times = None
         if self.timezone is not None:
-            self.calc_sun_times()
+            sun_times = melodist.util.get_sun_times(df.index, self.lon, self.lat, self.timezone)
+
+        self._data_daily = data_daily
+        self._data_disagg = data_disagg
+        self.sun_times = sun_times
 
     @property
     def lon(self):
-- 
2.43.0


From 585aca1e376780542385c041de7bc38b5b7c87a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:08:20 +0000
Subject: [PATCH 13/31] fix: sun times were not updated when the station
 location changed

Setting lon, lat or timezone after the daily data kept the sun times of the
previous location, or none at all if the time zone was set last. Temperature and
radiation disaggregation then used the wrong sun times or raised an exception.
---
 melodist/station.py | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/melodist/station.py b/melodist/station.py
index 715e283..3a16820 100644
--- a/melodist/station.py
+++ b/melodist/station.py
@@ -120,6 +120,7 @@ class Station(object):
     def lon(self, lon):
         self._lon = lon
         self.statistics._lon = lon
+        self._update_sun_times()
 
     @property
     def lat(self):
@@ -132,6 +133,7 @@ class Station(object):
     def lat(self, lat):
         self._lat = lat
         self.statistics._lat = lat
+        self._update_sun_times()
 
     @property
     def timezone(self):
@@ -147,6 +149,7 @@ class Station(object):
     def timezone(self, timezone):
         self._timezone = timezone
         self.statistics._timezone = timezone
+        self._update_sun_times()
 
     @property
     def statistics(self):
@@ -182,6 +185,15 @@ class Station(object):
             self.data_daily.index, self.lon, self.lat, self.timezone
         )
 
+    def _update_sun_times(self):
+        """
+        Recomputes the sun times after the location of the station has changed.
+        """
+        self.sun_times = None
+
+        if self.data_daily is not None and None not in (self.lon, self.lat, self.timezone):
+            self.calc_sun_times()
+
     def disaggregate_wind(self, method='equal'):
         """
         Disaggregate wind speed.
-- 
2.43.0


From e398b86dcdd160ca302e056b59cadaaea174677e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:08:20 +0000
Subject: [PATCH 14/31] fix: statistics that do not cover all months could not
 be read back

from_json expected mean courses for twelve months, so files saved after
calibrating with less than a year of observations raised KeyError.
---
 melodist/stationstatistics.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/melodist/stationstatistics.py b/melodist/stationstatistics.py
index 2bfc0de..c105f7f 100644
--- a/melodist/stationstatistics.py
+++ b/melodist/stationstatistics.py
@@ -261,14 +261,14 @@ class StationStatistics(object):
             ).sort_index()
 
         if stats.temp.mean_course is not None:
-            mc = (
+            stats.temp.mean_course = (
                 pd.read_json(
                     io.StringIO(json.dumps(stats.temp.mean_course)),
                     typ='frame',
                 )
                 .sort_index()
-            )[np.arange(1, 12 + 1)]
-            stats.temp.mean_course = mc.sort_index()[np.arange(1, 12 + 1)]
+                .sort_index(axis=1)
+            )
 
         if stats.hum.month_hour_precip_mean is not None:
             mhpm = pd.read_json(
@@ -287,6 +287,6 @@ class StationStatistics(object):
                 ).sort_index()
 
         if stats.glob.mean_course is not None:
-            stats.glob.mean_course = stats.glob.mean_course[np.arange(1, 12 + 1)]
+            stats.glob.mean_course = stats.glob.mean_course.sort_index(axis=1)
 
         return stats
-- 
2.43.0


From 8bae02cf370bef5fb5458e110b5568f26e261929 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:10:35 +0000
Subject: [PATCH 15/31] fix: read_smet failed with current pandas

The name of an index can no longer be deleted, so reading any SMET file raised
AttributeError.
---
 melodist/data_io.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/melodist/data_io.py b/melodist/data_io.py
index 0fe8ba3..70d53ae 100644
--- a/melodist/data_io.py
+++ b/melodist/data_io.py
@@ -93,7 +93,7 @@ def read_smet(filename, mode):
 
     data = data * multiplier
 
-    del data.index.name
+    data.index.name = None
 
     # rename columns
     if mode == "d":
-- 
2.43.0


From 03e156793a2d99ad44dc0977d999ebd31063cdf9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:10:35 +0000
Subject: [PATCH 16/31] fix: write_smet swapped daily minimum and maximum
 temperature

---
 melodist/data_io.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/melodist/data_io.py b/melodist/data_io.py
index 70d53ae..41e72c4 100644
--- a/melodist/data_io.py
+++ b/melodist/data_io.py
@@ -244,8 +244,8 @@ def write_smet(filename, data, metadata, nodata_value=-999, mode='h', check_nan=
     # daily data
     dict_d = {
         'tmean': 'TA',
-        'tmin': 'TMAX',  # no spec
-        'tmax': 'TMIN',  # no spec
+        'tmin': 'TMIN',  # no spec
+        'tmax': 'TMAX',  # no spec
         'precip': 'PSUM',
         'glob': 'ISWR',  # no spec
         'hum': 'RH',
-- 
2.43.0


From 26e2312c187267d8f8d454d33061381ece32cf6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:10:35 +0000
Subject: [PATCH 17/31] fix: write_smet did not skip columns without data

Since pandas 0.22 the sum of missing values is zero, so check_nan never detected
an empty column.
---
 melodist/data_io.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/melodist/data_io.py b/melodist/data_io.py
index 41e72c4..995f357 100644
--- a/melodist/data_io.py
+++ b/melodist/data_io.py
@@ -263,7 +263,7 @@ def write_smet(filename, data, metadata, nodata_value=-999, mode='h', check_nan=
 
     if check_nan:
         # get all columns with data
-        datas_in = data.sum().dropna().to_frame().T
+        datas_in = data.sum(min_count=1).dropna().to_frame().T
         # get colums with no datas
         drop = [data_nan for data_nan in data.columns if data_nan not in datas_in]
         # delete columns
-- 
2.43.0


From 7707138327ba3f861748bb3643eb57b9a3ba80db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:10:35 +0000
Subject: [PATCH 18/31] fix: write_smet modified the metadata passed by the
 caller

The fields of the last file remained in the dictionary. Exports sharing one
dictionary could write each other's list of fields.
---
 melodist/data_io.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/melodist/data_io.py b/melodist/data_io.py
index 995f357..9e6e4a1 100644
--- a/melodist/data_io.py
+++ b/melodist/data_io.py
@@ -284,6 +284,7 @@ def write_smet(filename, data, metadata, nodata_value=-999, mode='h', check_nan=
         data = data[cols]
 
         # metadatas update
+        metadata = collections.OrderedDict(metadata)
         metadata['fields'] = ' '.join(data.columns)
         metadata["units_multiplier"] = len(metadata['fields'].split()) * "1 "
 
-- 
2.43.0


From e78c977b1fe2e9e2f7557bc7d5655c33f606576e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:11:14 +0000
Subject: [PATCH 19/31] fix: read_dwd failed for hourly data with current
 pandas

The date_parser argument of read_csv was removed in pandas 3.
---
 melodist/data_io.py | 12 +-----------
 1 file changed, 1 insertion(+), 11 deletions(-)

diff --git a/melodist/data_io.py b/melodist/data_io.py
index 9e6e4a1..d586a2b 100644
--- a/melodist/data_io.py
+++ b/melodist/data_io.py
@@ -167,24 +167,14 @@ def read_dwd(filename, metadata, mode="d", skip_last=True):
 
         # hourly data must be parsed by custom definition
         if mode == "h":
-
-            def date_parser(date_time):
-                hour = date_time[8:10]
-                day = date_time[6:8]
-                month = date_time[4:6]
-                year = date_time[0:4]
-                minute = '00'
-                sec = '00'
-                return pd.Timestamp('%s-%s-%s %s:%s:%s' % (year, month, day, hour, minute, sec))
-
             data = pd.read_csv(
                 filename,
                 sep=';',
                 na_values='-999',
                 index_col=' MESS_DATUM',
-                date_parser=date_parser,
                 skiprows=skip_last,
             )
+            data.index = pd.to_datetime(data.index.astype(str).str[:10], format='%Y%m%d%H')
 
         # remove whitespace from header columns
         data.rename(columns=lambda x: x.strip(), inplace=True)
-- 
2.43.0


From d2c687b3c904e4212cf7137e3a2f431cff232199 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:11:14 +0000
Subject: [PATCH 20/31] fix: read_dwd ignored skip_last=False and dropped the
 last record

---
 melodist/data_io.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/melodist/data_io.py b/melodist/data_io.py
index d586a2b..5bd9afc 100644
--- a/melodist/data_io.py
+++ b/melodist/data_io.py
@@ -150,9 +150,11 @@ def read_dwd(filename, metadata, mode="d", skip_last=True):
         }
 
         # ---read data------------------
-        if skip_last is not None:
+        if skip_last:
             num_lines = sum(1 for line in open(filename))
             skip_last = [num_lines - 1]
+        else:
+            skip_last = None
 
         # hourly data must be parsed by custom definition
         if mode == "d":
-- 
2.43.0


From 64d2221444f9eb2ee8b9013460974ca55ba26add Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:11:15 +0000
Subject: [PATCH 21/31] fix: read_dwd returned -999 for missing values of
 integer columns

DWD files pad values with blanks. pandas does not recognise padded integers as
missing values, so missing humidity was returned as -999 percent.
---
 melodist/data_io.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/melodist/data_io.py b/melodist/data_io.py
index 5bd9afc..591f17e 100644
--- a/melodist/data_io.py
+++ b/melodist/data_io.py
@@ -178,6 +178,9 @@ def read_dwd(filename, metadata, mode="d", skip_last=True):
             )
             data.index = pd.to_datetime(data.index.astype(str).str[:10], format='%Y%m%d%H')
 
+        # integer columns padded with blanks are not covered by na_values
+        data = data.replace(-999, float('nan'))
+
         # remove whitespace from header columns
         data.rename(columns=lambda x: x.strip(), inplace=True)
 
-- 
2.43.0


From 2857da073aad9d821b9b3e4885eb427ac72bf583 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:11:15 +0000
Subject: [PATCH 22/31] fix: KNMI files could not be read with current pandas

pd.datetime, date_parser and nested parse_dates were removed from pandas.
---
 melodist/data_io.py | 12 +++++-------
 1 file changed, 5 insertions(+), 7 deletions(-)

diff --git a/melodist/data_io.py b/melodist/data_io.py
index 591f17e..0344cb4 100644
--- a/melodist/data_io.py
+++ b/melodist/data_io.py
@@ -316,18 +316,16 @@ def read_single_knmi_file(filename):
     """
     hourly_data_obs_raw = pd.read_csv(
         filename,
-        parse_dates=[['YYYYMMDD', 'HH']],
-        date_parser=lambda yyyymmdd, hh: pd.datetime(
-            int(str(yyyymmdd)[0:4]), int(str(yyyymmdd)[4:6]), int(str(yyyymmdd)[6:8]), int(hh) - 1
-        ),
         skiprows=31,
         skipinitialspace=True,
         na_values='',
-        keep_date_col=True,
     )
 
-    hourly_data_obs_raw.index = hourly_data_obs_raw['YYYYMMDD_HH']
-    hourly_data_obs_raw.index = hourly_data_obs_raw.index + pd.Timedelta(hours=1)
+    # hour 1 denotes the interval from 00:00 to 01:00
+    hourly_data_obs_raw.index = pd.DatetimeIndex(
+        pd.to_datetime(hourly_data_obs_raw['YYYYMMDD'].astype(str), format='%Y%m%d')
+        + pd.to_timedelta(hourly_data_obs_raw['HH'], unit='h')
+    )
 
     columns_hourly = ['temp', 'precip', 'glob', 'hum', 'wind', 'ssd']
 
-- 
2.43.0


From 24f0c304aed00f83a232714020e32af2557cb481 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:11:51 +0000
Subject: [PATCH 23/31] fix: read_knmi_dataset returned series in directory
 listing order

glob.glob lists files in arbitrary order, so the merged time series could be out
of chronological order and differ between machines.
---
 melodist/data_io.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/melodist/data_io.py b/melodist/data_io.py
index 0344cb4..04dce0c 100644
--- a/melodist/data_io.py
+++ b/melodist/data_io.py
@@ -360,7 +360,7 @@ def read_knmi_dataset(directory):
         pandas data frame including time series
     """
     filemask = '%s*.txt' % directory
-    filelist = glob.glob(filemask)
+    filelist = sorted(glob.glob(filemask))
 
     columns_hourly = ['temp', 'precip', 'glob', 'hum', 'wind', 'ssd']
     ts = pd.DataFrame(columns=columns_hourly)
@@ -374,4 +374,4 @@ def read_knmi_dataset(directory):
             first_call = False
         else:
             ts = pd.concat([ts, current])
-    return ts
+    return ts.sort_index()
-- 
2.43.0


From 566dbe90700f77f3d10c32b1c3f9d88a8079aa48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:11:51 +0000
Subject: [PATCH 24/31] fix: detect_gaps failed with current pandas

Timedelta.delta was removed in pandas 2.
---
 melodist/util/util.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/melodist/util/util.py b/melodist/util/util.py
index 2cbf4af..fb6ca07 100644
--- a/melodist/util/util.py
+++ b/melodist/util/util.py
@@ -266,7 +266,7 @@ def detect_gaps(dataframe, timestep, print_all=False, print_max=5, verbose=True)
     for i in range(0, n):
         if i > 0:
             time_diff = dataframe.index[i] - dataframe.index[i - 1]
-            if time_diff.delta / 1e9 != timestep:
+            if time_diff.total_seconds() != timestep:
                 gcount += 1
                 if print_all or (msg_counter <= print_max - 1):
                     if verbose:
-- 
2.43.0


From 44c8e773b20fca24829d8b0be7486350d5589453 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:11:51 +0000
Subject: [PATCH 25/31] fix: Station.interpolate failed with current pandas

Series.append was removed in pandas 2.
---
 melodist/util/util.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/melodist/util/util.py b/melodist/util/util.py
index fb6ca07..78d1e9c 100644
--- a/melodist/util/util.py
+++ b/melodist/util/util.py
@@ -346,16 +346,16 @@ def prepare_interpolation_data(data_daily, column_hours):
     start_date = data_daily.index[0]
     end_date = data_daily.index[-1]
 
-    data = pd.Series()
+    data = []
 
     for column, hour in column_hours.items():
         index = pd.date_range(
             start=start_date.replace(hour=hour), end=end_date.replace(hour=hour), freq='D'
         )
         s = pd.Series(index=index, data=data_daily[column].values)
-        data = data.append(s)
+        data.append(s)
 
-    data = data.sort_index()
+    data = pd.concat(data).sort_index()
     data = data.reindex(hourly_index(data_daily.index))
 
     return data
-- 
2.43.0


From b88b3c7afcda297e2467c9d5ae6570ab8f200df2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:59:26 +0000
Subject: [PATCH 26/31] fix: a parameter file read while it is being saved
 could be a mixture of two sets

Saving truncated and rewrote the file in place. A concurrent reader, or
a second concurrent save, could combine parts of the old and the new
content into a valid file. The new content is now written to a separate
file that replaces the old one when it is complete.
---
 melodist/stationstatistics.py | 27 +++++++++++++++++++++++++--
 1 file changed, 25 insertions(+), 2 deletions(-)

diff --git a/melodist/stationstatistics.py b/melodist/stationstatistics.py
index c105f7f..8da66cf 100644
--- a/melodist/stationstatistics.py
+++ b/melodist/stationstatistics.py
@@ -20,6 +20,8 @@
 ################################################################################
 import io
 import json
+import os
+import threading
 
 import numpy as np
 import pandas as pd
@@ -28,6 +30,28 @@ import melodist
 from melodist.util.bunch import Bunch
 
 
+def _write_file(filename, text):
+    """
+    Writes a text file such that readers see either the previous or the new content.
+    """
+    if os.path.exists(filename) and not os.path.isfile(filename):  # pipe, terminal, ...
+        with open(filename, 'w') as f:
+            f.write(text)
+        return
+
+    target = os.path.realpath(filename)
+    tmp = '%s.%d-%d.tmp' % (target, os.getpid(), threading.get_ident())
+
+    try:
+        with open(tmp, 'w') as f:
+            f.write(text)
+        os.replace(tmp, target)
+    except BaseException:
+        if os.path.exists(tmp):
+            os.remove(tmp)
+        raise
+
+
 class StationStatistics(object):
     """
     Class representing objects that include statistical information about
@@ -224,8 +248,7 @@ class StationStatistics(object):
         if filename is None:
             return j
         else:
-            with open(filename, 'w') as f:
-                f.write(j)
+            _write_file(filename, j)
 
     @classmethod
     def from_json(cls, filename):
-- 
2.43.0


From 773f2009fb3aea80870cf690bef912a13e5371a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:32:03 +0000
Subject: [PATCH 27/31] fix: read_smet cut metadata values containing an equals
 sign

---
 melodist/data_io.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/melodist/data_io.py b/melodist/data_io.py
index 04dce0c..4fc6091 100644
--- a/melodist/data_io.py
+++ b/melodist/data_io.py
@@ -72,7 +72,7 @@ def read_smet(filename, mode):
                 break
 
             if in_header:
-                line_split = line.split('=')
+                line_split = line.split('=', 1)
                 k = line_split[0].strip()
                 v = line_split[1].strip()
                 header[k] = v
-- 
2.43.0


From cbb73896b6f639f349b699b35f4351ee09b9408a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:35:36 +0000
Subject: [PATCH 28/31] fix: read_knmi_dataset skipped files when listing the
 directory failed

glob swallows errors that occur while a directory is being read, so part
of the series was missing without notice.
---
 melodist/data_io.py | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/melodist/data_io.py b/melodist/data_io.py
index 4fc6091..c77672d 100644
--- a/melodist/data_io.py
+++ b/melodist/data_io.py
@@ -19,7 +19,7 @@
 # this program.  If not, see <http://www.gnu.org/licenses/>.                   #
 ################################################################################
 import collections
-import glob
+import os
 
 import pandas as pd
 
@@ -359,8 +359,15 @@ def read_knmi_dataset(directory):
     Returns:
         pandas data frame including time series
     """
-    filemask = '%s*.txt' % directory
-    filelist = sorted(glob.glob(filemask))
+    # not using glob, which silently ignores errors while listing the directory
+    dirname, prefix = os.path.split(directory)
+    filelist = sorted(
+        os.path.join(dirname, name)
+        for name in os.listdir(dirname or os.curdir)
+        if name.startswith(prefix)
+        and name[len(prefix):].endswith('.txt')
+        and (prefix or not name.startswith('.'))
+    )
 
     columns_hourly = ['temp', 'precip', 'glob', 'hum', 'wind', 'ssd']
     ts = pd.DataFrame(columns=columns_hourly)
-- 
2.43.0


From 739b22a3fd325ab30c38f937145cf0c348cdd29c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:47:04 +0000
Subject: [PATCH 29/31] fix: cascade could take a branch or weight of
 probability zero

A random number of exactly zero selected the first branch or weight class
even if its probability is zero.
---
 melodist/precipitation.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/melodist/precipitation.py b/melodist/precipitation.py
index 1f7e9fc..712ffea 100644
--- a/melodist/precipitation.py
+++ b/melodist/precipitation.py
@@ -241,13 +241,13 @@ def disagg_prec_cascade(precip_daily, cascade_options, hourly=True, level=9, shi
                 # draw a random number to determine the braching type
                 rndp = np.random.random()
 
-                if rndp <= p[0]:
+                if rndp < p[0]:
                     # first box 0, second box: 1 P(0/1)
                     vdn_out[j] = 0.0
                     j = j + 1
                     vdn_out[j] = vdn_in[i]
                     j = j + 1
-                elif rndp > p[0] and rndp <= p[0] + p[1]:
+                elif rndp >= p[0] and rndp < p[0] + p[1]:
                     # first box 1, second box: 0 P(1/0)
                     vdn_out[j] = vdn_in[i]
                     j = j + 1
@@ -261,7 +261,7 @@ def disagg_prec_cascade(precip_daily, cascade_options, hourly=True, level=9, shi
                     # guess w1:
                     for k in range(0, 7):
                         # the last class also covers cumulative sums slightly below one
-                        if k == 6 or rndw <= wxxcum[k, belowabove, vbtype - 1]:
+                        if k == 6 or rndw < wxxcum[k, belowabove, vbtype - 1]:
                             w1 = wclassbounds[k + 1] - 1.0 / 14.0  # class center
                             break
 
-- 
2.43.0


From 2c681d14ecfabbcf751bdcafea3c637a8cfb69da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:45:08 +0000
Subject: [PATCH 30/31] fix: interrupted assignment of daily data could leave a
 mix of old and new data

---
 melodist/station.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/melodist/station.py b/melodist/station.py
index 3a16820..c7ff8da 100644
--- a/melodist/station.py
+++ b/melodist/station.py
@@ -105,9 +105,10 @@ class Station(object):
         if self.timezone is not None:
             sun_times = melodist.util.get_sun_times(df.index, self.lon, self.lat, self.timezone)
 
-        self._data_daily = data_daily
-        self._data_disagg = data_disagg
-        self.sun_times = sun_times
+        # in one step, so that an interrupt cannot leave a mix of old and new data
+        self.__dict__.update(
+            _data_daily=data_daily, _data_disagg=data_disagg, sun_times=sun_times
+        )
 
     @property
     def lon(self):
-- 
2.43.0


From bda9d8db11960f73fa29ca5ebccc0b046bbadee0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 10:12:30 +0000
Subject: [PATCH 31/31] fix: missing values were read back as data when
 exported with another nodata value

---
 melodist/data_io.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/melodist/data_io.py b/melodist/data_io.py
index c77672d..a92a106 100644
--- a/melodist/data_io.py
+++ b/melodist/data_io.py
@@ -84,7 +84,7 @@ def read_smet(filename, mode):
     data = pd.read_table(
         filename,
         sep=r'\s+',
-        na_values=[-999],
+        na_values=[float(header.get('nodata', -999))],
         skiprows=data_start,
         names=columns,
         index_col='timestamp',
@@ -280,6 +280,7 @@ def write_smet(filename, data, metadata, nodata_value=-999, mode='h', check_nan=
 
         # metadatas update
         metadata = collections.OrderedDict(metadata)
+        metadata['nodata'] = nodata_value
         metadata['fields'] = ' '.join(data.columns)
         metadata["units_multiplier"] = len(metadata['fields'].split()) * "1 "
 
-- 
2.43.0

