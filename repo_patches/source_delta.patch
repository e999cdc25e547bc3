From 2b9ffe0dbd1dfea32100f7022f5cc5e2ce7131a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:32:03 +0000
Subject: [PATCH 01/37] fix: averaged_psd honors scaling for Series input

---
 src/solarspatialtools/signalproc.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/solarspatialtools/signalproc.py b/src/solarspatialtools/signalproc.py
index 942ece5..04edd04 100644
--- a/src/solarspatialtools/signalproc.py
+++ b/src/solarspatialtools/signalproc.py
@@ -200,7 +200,7 @@ def averaged_psd(input_tsig, navgs, overlap=0.5,
 
     if isinstance(input_tsig, pd.Series):
         return averaged_psd(pd.DataFrame(input_tsig), navgs, overlap, window,
-                            detrend)
+                            detrend, scaling)
 
     cols = input_tsig.columns
     input_tsig = input_tsig.values.T
-- 
2.43.0


From bdb136006416795d2cd476bf88a4080555e06bc4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:32:03 +0000
Subject: [PATCH 02/37] fix: compute_delays fft mode returns one zero_corr
 value per pair

---
 src/solarspatialtools/signalproc.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/solarspatialtools/signalproc.py b/src/solarspatialtools/signalproc.py
index 04edd04..62a2c73 100644
--- a/src/solarspatialtools/signalproc.py
+++ b/src/solarspatialtools/signalproc.py
@@ -700,7 +700,7 @@ def compute_delays(ts_in, ts_out, mode='loop', scaling='coeff'):
         extras['peak_corr'] = (corrxy[range(ts_inm.shape[0]), peak_lag_indices]
                                * corr_scale)
         extras['mean_corr'] = np.mean(corrxy, axis=1) * corr_scale
-        extras['zero_corr'] = corrxy[:, zero_lag_ind] * corr_scale
+        extras['zero_corr'] = corrxy[:, zero_lag_ind].flatten() * corr_scale
     else:
         raise ValueError(f'Invalid mode: {mode}')
 
-- 
2.43.0


From 2382584b148aae9cdaf20d1c1463edc2fb99ca10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:32:03 +0000
Subject: [PATCH 03/37] fix: get_1d_plant accepts integer centers with
 fractional ref_center

---
 src/solarspatialtools/signalproc.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/solarspatialtools/signalproc.py b/src/solarspatialtools/signalproc.py
index 62a2c73..0b15c5d 100644
--- a/src/solarspatialtools/signalproc.py
+++ b/src/solarspatialtools/signalproc.py
@@ -927,7 +927,7 @@ def get_1d_plant(centers, ref_center=0,
         w = width
 
     centers = np.array(centers).flatten()
-    centers -= ref_center
+    centers = centers - ref_center
 
     # Initialize the empty plant
     x_vec = np.arange(-xmax//2, xmax//2, dx)
-- 
2.43.0


From 6612c842b66c6d515b52472e72be2b0e3653a732 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:32:03 +0000
Subject: [PATCH 04/37] fix: plant1d_to_camfilter phase reference for x grids
 not centered on zero

---
 src/solarspatialtools/signalproc.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/solarspatialtools/signalproc.py b/src/solarspatialtools/signalproc.py
index 0b15c5d..16f5ae9 100644
--- a/src/solarspatialtools/signalproc.py
+++ b/src/solarspatialtools/signalproc.py
@@ -993,7 +993,7 @@ def plant1d_to_camfilter(plant, x_plant, cloud_speed):
     camfreq = np.fft.fftfreq(plant.shape[-1], spatialdt)
 
     # Shift the phase
-    t_delay = np.min(x_plant) / cloud_speed
+    t_delay = -np.min(x_plant) / cloud_speed
     if cloud_speed > 0:
         camfilt = camfilt * np.exp(
             1j * camfreq * (2 * np.pi) * t_delay)
-- 
2.43.0


From 2b22568fab3784153868f7d5aa270c01e548eeaa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:32:03 +0000
Subject: [PATCH 05/37] fix: cleanfreq returns the signal as documented

---
 src/solarspatialtools/signalproc.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/solarspatialtools/signalproc.py b/src/solarspatialtools/signalproc.py
index 16f5ae9..8597ba5 100644
--- a/src/solarspatialtools/signalproc.py
+++ b/src/solarspatialtools/signalproc.py
@@ -1148,3 +1148,4 @@ def cleanfreq(sig):
     idxlist = sig.index.to_list()
     idxlist[len(sig.index) // 2] = None
     sig.index = idxlist
+    return sig
-- 
2.43.0


From 6de4a3ed4419750942f95e9cc91ee2b1d2d38359 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:32:03 +0000
Subject: [PATCH 06/37] fix: apply_filter supports DataFrame signals and
 filters as documented

---
 src/solarspatialtools/signalproc.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/solarspatialtools/signalproc.py b/src/solarspatialtools/signalproc.py
index 8597ba5..62e75c3 100644
--- a/src/solarspatialtools/signalproc.py
+++ b/src/solarspatialtools/signalproc.py
@@ -1022,6 +1022,12 @@ def apply_filter(input_tsig, comp_filt):
     filtered_sig : numeric
         The filtered time series.
     """
+    if isinstance(input_tsig, pd.DataFrame):
+        # Each column is an individual time signal
+        return input_tsig.apply(lambda col: apply_filter(col, comp_filt))
+    if isinstance(comp_filt, pd.DataFrame):
+        comp_filt = comp_filt.squeeze(axis=1)
+
     # Get the fft of the input signal, including its frequency axis
     dt = (input_tsig.index[1] - input_tsig.index[0]).total_seconds()
     input_fft = np.fft.fft(input_tsig) * 2 / len(input_tsig)
-- 
2.43.0


From abcfc471ef4725f30687848585b6f3f59b876409 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:32:03 +0000
Subject: [PATCH 07/37] fix: latlon2lcs uses the origin's projection for every
 target point

---
 src/solarspatialtools/spatial.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/solarspatialtools/spatial.py b/src/solarspatialtools/spatial.py
index f50e111..6f00b9f 100644
--- a/src/solarspatialtools/spatial.py
+++ b/src/solarspatialtools/spatial.py
@@ -148,6 +148,10 @@ def latlon2lcs(lat, lon, origin_lat, origin_lon, zone=None):
     (east, north) : numeric
         The Easting and Northing of the target point in the LCS coordinates
     """
+    # Both points must share a single projection, defined by the origin
+    if zone is None and np.ndim(origin_lon) == 0:
+        zone = _calc_zone(origin_lon)
+
     # Convert both coordinates to UTM
     utm_i = latlon2utm(origin_lat, origin_lon, zone=zone)
     utm_t = latlon2utm(lat, lon, zone=zone)
@@ -174,6 +178,10 @@ def latlon2lcs(lat, lon, origin_lat, origin_lon, zone=None):
     e_t -= e_i
     n_t -= n_o
 
+    # Southern hemisphere UTM has a false northing of 10,000 km. Account for it
+    # when the target and the origin are on opposite sides of the equator.
+    n_t += 1e7 * (np.less(origin_lat, 0) * 1 - np.less(lat, 0) * 1)
+
     return e_t, n_t
 
 
-- 
2.43.0


From 61fe7747420266f5af50a0111f67eee73e8915f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:32:03 +0000
Subject: [PATCH 08/37] fix: lcs2latlon projects the origin into the requested
 zone

---
 src/solarspatialtools/spatial.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/solarspatialtools/spatial.py b/src/solarspatialtools/spatial.py
index 6f00b9f..b7f7273 100644
--- a/src/solarspatialtools/spatial.py
+++ b/src/solarspatialtools/spatial.py
@@ -218,7 +218,7 @@ def lcs2latlon(east, north, origin_lat, origin_lon, zone=None):
     south = origin_lat < 0
 
     # Get the origin in UTM
-    e_o, n_o, _ = latlon2utm(origin_lat, origin_lon)
+    e_o, n_o, _ = latlon2utm(origin_lat, origin_lon, zone=zone)
 
     # Shift the target
     e_t = e_o + east
-- 
2.43.0


From 5359f753a01b07e1106fe47d1e5ff28b44fb5536 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:32:03 +0000
Subject: [PATCH 09/37] fix: lla2flat handles points across the antimeridian

---
 src/solarspatialtools/spatial.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/solarspatialtools/spatial.py b/src/solarspatialtools/spatial.py
index b7f7273..2fcfe53 100644
--- a/src/solarspatialtools/spatial.py
+++ b/src/solarspatialtools/spatial.py
@@ -263,6 +263,7 @@ def lla2flat(lat, lon, latref, lonref, method="matlab"):
 
         dmu = np.deg2rad(lat) - mu0
         dlam = np.deg2rad(lon) - lam0
+        dlam = (dlam + np.pi) % (2 * np.pi) - np.pi  # stay within +/-180 deg
 
         r_earth = 6378137.0  # WGS84 Earth radius in meters, via wikipedia
         f = 1/298.257223563  # WGS84 flattening factor
-- 
2.43.0


From ba56be2f134c5ac5267f2286b7a2c7bd12c9d9ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:32:03 +0000
Subject: [PATCH 10/37] fix: clearsky_index honors max_clearsky_index for
 DataFrames

---
 src/solarspatialtools/irradiance.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/solarspatialtools/irradiance.py b/src/solarspatialtools/irradiance.py
index 8456680..007c46a 100644
--- a/src/solarspatialtools/irradiance.py
+++ b/src/solarspatialtools/irradiance.py
@@ -31,7 +31,8 @@ def clearsky_index(ghi, clearsky_ghi, max_clearsky_index=2.0):
 
     if isinstance(ghi, pd.DataFrame):  # apply column by column
         return ghi.apply(lambda x:
-                         pvlib.irradiance.clearsky_index(x, clearsky_ghi, 2),
+                         pvlib.irradiance.clearsky_index(x, clearsky_ghi,
+                                                         max_clearsky_index),
                          axis=0)
     else:
         return pvlib.irradiance.clearsky_index(ghi, clearsky_ghi,
-- 
2.43.0


From 3c4da09f8043cc09a5f7593794fc2144e737e497 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:32:03 +0000
Subject: [PATCH 11/37] fix: downscale_multihour checks cloud_spd independently
 of cloud_dir

---
 src/solarspatialtools/synthirrad/copula.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/solarspatialtools/synthirrad/copula.py b/src/solarspatialtools/synthirrad/copula.py
index ffff08d..8e98f78 100644
--- a/src/solarspatialtools/synthirrad/copula.py
+++ b/src/solarspatialtools/synthirrad/copula.py
@@ -568,7 +568,7 @@ def downscale_multihour(times, e_pos, n_pos, cloud_spd, cloud_dir, mean_csi,
                                  ' list matching the length of mean_csi.')
             multi_cloud_dir_mode = True
 
-    if not isinstance(cloud_dir, (int, float)):
+    if not isinstance(cloud_spd, (int, float)):
         if len(cloud_spd) != 1:
             if len(cloud_spd) != n_hours:
                 raise ValueError('cloud_spd must be either a single value or a'
-- 
2.43.0


From 8e4e3953b602aec9ea6816e384f1a088a3edaa91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:32:03 +0000
Subject: [PATCH 12/37] fix: moving averages in stats keep fractional second
 periods

---
 src/solarspatialtools/stats.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/solarspatialtools/stats.py b/src/solarspatialtools/stats.py
index 269ccd4..b89c8f2 100644
--- a/src/solarspatialtools/stats.py
+++ b/src/solarspatialtools/stats.py
@@ -189,7 +189,7 @@ def variability_score(series, tau=1, moving_avg=True, pct=False):
     """
     if moving_avg and tau > 1:
         dt = np.nanmedian(series.index.diff().total_seconds())
-        rs = series.resample(str(int(tau * dt)) + 's').mean()
+        rs = series.resample(pd.Timedelta(seconds=tau * dt)).mean()
         return variability_score(rs, tau=1, moving_avg=False, pct=pct)
     if pct:  # Scale to a percentage of STC and multiply by 100 (Lave et al)
         return 100./1000 * variability_score(series, tau=tau,
@@ -239,7 +239,7 @@ def variability_index(ghi, clearsky, moving_avg_tau=1, norm=False):
 
     if moving_avg_tau > 1:
         dti = np.nanmedian(ghi.index.diff().total_seconds())
-        sample_pd = str(int(moving_avg_tau*dti))+'s'
+        sample_pd = pd.Timedelta(seconds=moving_avg_tau*dti)
         rs = ghi.resample(sample_pd).mean()
         cs = clearsky.resample(sample_pd).mean()
         return variability_index(rs, cs, moving_avg_tau=1, norm=norm)
@@ -295,7 +295,7 @@ def darr(series, tau=1, moving_avg=True, pct=False):
 
     if moving_avg and tau > 1:
         dt = np.nanmedian(series.index.diff().total_seconds())
-        rs = series.resample(str(int(tau * dt)) + 's').mean()
+        rs = series.resample(pd.Timedelta(seconds=tau * dt)).mean()
         # Rerun it without MA
         return darr(rs, tau=1, moving_avg=False, pct=pct)
     if pct:
-- 
2.43.0


From 8aa1e461ff22cc774e1db2f992bebde9b45897aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:32:03 +0000
Subject: [PATCH 13/37] fix: calc_quantile window, timezone and sub-second
 handling

---
 src/solarspatialtools/stats.py | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/src/solarspatialtools/stats.py b/src/solarspatialtools/stats.py
index b89c8f2..6ad07e9 100644
--- a/src/solarspatialtools/stats.py
+++ b/src/solarspatialtools/stats.py
@@ -345,8 +345,10 @@ def calc_quantile(timeseries, n_days="30d", quantile=0.9):
     """
 
     ts = timeseries.copy()  # copy the data
+    ts.index = ts.index.tz_localize(None)  # work in local time
 
-    out_df = pd.Series()  # Create an empty holder
+    # Create an empty holder
+    out_df = pd.Series(dtype=float, index=pd.DatetimeIndex([]))
 
     end_day = ts.index.date[-1]  # the final day of the dataset
 
@@ -361,7 +363,9 @@ def calc_quantile(timeseries, n_days="30d", quantile=0.9):
 
         # Copy the subset of data representing the window
         # and separate the date and time stamps
-        statdata = ts[date_start:date_end]
+        # (the midnight that ends the window belongs to the following day)
+        statdata = ts[(ts.index >= pd.Timestamp(date_start))
+                      & (ts.index < pd.Timestamp(date_end))]
         dates = statdata.index.date
         times = statdata.index.time
 
@@ -378,9 +382,8 @@ def calc_quantile(timeseries, n_days="30d", quantile=0.9):
         p90.name = date_end  # Assign a name based on the end date
 
         # p90's index is only time, so modify it to include the full date
-        p90.index = pd.to_datetime(np.repeat(str(date_end) + " ",
-                                             len(p90.index)) +
-                                   p90.index.astype(str))
+        p90.index = pd.DatetimeIndex([pd.Timestamp.combine(date_end, t)
+                                      for t in p90.index])
 
         # Concat this day onto the output object
         if len(out_df) == 0:
@@ -389,7 +392,8 @@ def calc_quantile(timeseries, n_days="30d", quantile=0.9):
             out_df = pd.concat((out_df, p90), axis=0)
 
     # localize the timeseries and the column names back to the input
-    out_df = out_df.tz_localize(ts.index.tz).reindex(ts.index)
+    out_df = out_df.reindex(ts.index)
+    out_df.index = timeseries.index
     out_df = pd.DataFrame(out_df)
     try:
         out_df.columns = [name+'_quant' for name in ts.columns]
-- 
2.43.0


From 933f5ff80f0d059521daa0328b9b24644f3c175f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:32:03 +0000
Subject: [PATCH 14/37] fix: interp_nan leaves long nan periods and valid data
 untouched

---
 src/solarspatialtools/dataio/hope_campaign.py | 19 +++++++------------
 1 file changed, 7 insertions(+), 12 deletions(-)

diff --git a/src/solarspatialtools/dataio/hope_campaign.py b/src/solarspatialtools/dataio/hope_campaign.py
index db902bb..07ace04 100644
--- a/src/solarspatialtools/dataio/hope_campaign.py
+++ b/src/solarspatialtools/dataio/hope_campaign.py
@@ -180,18 +180,13 @@ def interp_nan(data, limit=5):
 
     for col in datanew.columns:
         datanew_i = datanew[col]
-        # interpolate limiting things to 5s or shorter nan windows
-        datanew_i = datanew_i.interpolate(limit=limit, limit_area='inside')
-
-        # Find the cases where things were nan for more than limit, and add
-        # some padding to ensure we don't interp there
-        blanks = np.isnan(datanew_i).rolling(f'{limit}s').mean() > \
-                 (limit-1)/limit
-        blanks_front = blanks.iloc[:-2*limit]
-        blanks_back = blanks.iloc[2*limit:]
-        blanks_union = blanks_front.values | blanks_back.values
-        blanks = pd.Series(np.pad(blanks_union, limit), index=blanks.index)
-        datanew_i[blanks] = np.nan
+        # Find the length of the nan period that each timestep belongs to
+        blanks = datanew_i.isna()
+        blank_len = blanks.groupby((~blanks).cumsum().values).transform('sum')
+
+        # interpolate, and restore the nan periods that exceed the limit
+        datanew_i = datanew_i.interpolate(limit_area='inside')
+        datanew_i[blanks & (blank_len > limit)] = np.nan
 
         datanew[col] = datanew_i
 
-- 
2.43.0


From 72a2690c7fa2ef6c48767ce1ae840cccbc736888 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:32:03 +0000
Subject: [PATCH 15/37] fix: compute_cmv does not modify the caller's options

---
 src/solarspatialtools/cmv.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/solarspatialtools/cmv.py b/src/solarspatialtools/cmv.py
index 69e06c4..21cff21 100644
--- a/src/solarspatialtools/cmv.py
+++ b/src/solarspatialtools/cmv.py
@@ -613,6 +613,7 @@ def _validate_method_options(method, options):
     # Validate options
     if options is None:
         options = {}
+    options = dict(options)  # leave the caller's dictionary unmodified
     # Specify default options by method
     if method == 'jamaly':
         defaults = {'minvelocity': 0,  # m/s
-- 
2.43.0


From 07ae33f84dc393f6c20ca6e877b30fd831158048 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:32:03 +0000
Subject: [PATCH 16/37] fix: compute_cmv does not alter numpy's global error
 handling

---
 src/solarspatialtools/cmv.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/src/solarspatialtools/cmv.py b/src/solarspatialtools/cmv.py
index 21cff21..aa6c580 100644
--- a/src/solarspatialtools/cmv.py
+++ b/src/solarspatialtools/cmv.py
@@ -130,6 +130,8 @@ def _get_pairs(all_points, must_contain=None, replacement=True):
         return np.array(pairs_all)
 
 
+# Ignore some numpy printouts, we'll deal with them manually
+@np.errstate(divide='ignore', invalid='ignore')
 def compute_cmv(timeseries, positions, reference_id=None, method="jamaly",
                 options=None, delay_backend='xcorr'):
     """
@@ -221,10 +223,6 @@ def compute_cmv(timeseries, positions, reference_id=None, method="jamaly",
     if delay_backend not in ['xcorr', 'tf']:
         raise ValueError("delay_backend must be one of: ['xcorr', 'tf'].")
 
-    # Ignore some numpy printouts, we'll deal with them manually
-    np.seterr(divide='ignore')
-    np.seterr(invalid='ignore')
-
     # Find all the needed info
     nsamples, _ = timeseries.shape
     point_ids = positions.index.to_list()
-- 
2.43.0


From b91d14f6e3f310c258d7d662dba6d357ba151500 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:32:03 +0000
Subject: [PATCH 17/37] fix: compute_predicted_position aligns time series with
 positions

---
 src/solarspatialtools/field.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/solarspatialtools/field.py b/src/solarspatialtools/field.py
index 8c15260..94cb601 100644
--- a/src/solarspatialtools/field.py
+++ b/src/solarspatialtools/field.py
@@ -92,6 +92,7 @@ def compute_predicted_position(dfs, pos_utm, ref, cld_vecs=None,
             cld_vecs.append(spatial.pol2rect(cld_spd, cld_dir))
 
     for df, cld_vec in zip(dfs, cld_vecs):
+        df = df[pos_utm.index]  # Align the time series to the positions
 
         # Get the pairwise delays
         delay, extras = signalproc.compute_delays_tf(df[ref], df, navgs=navgs,
-- 
2.43.0


From 1d5523691cadda855e3e6fbd2c525291f9f44fe4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:08:08 +0000
Subject: [PATCH 18/37] fix: cascade_remap treats entities absent from one
 remap as unmoved

---
 src/solarspatialtools/field.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/solarspatialtools/field.py b/src/solarspatialtools/field.py
index 94cb601..edea5f8 100644
--- a/src/solarspatialtools/field.py
+++ b/src/solarspatialtools/field.py
@@ -309,8 +309,10 @@ def cascade_remap(remap1, remap2):
 
     # Create an empty dictionary to hold the outputs
     G = {}
-    for key in A:
-        G[key] = A[B[key]]
+    for key in {**A, **B}:
+        # An entity not listed in one of the remaps stays in place there
+        mid = B.get(key, key)
+        G[key] = A.get(mid, mid)
 
     out = [(k, v) for k, v in G.items()]
     out.sort(key=lambda tup: tup[0])  # sorts by 1st element in tuple
-- 
2.43.0


From 95bdedc057e9692e26b8c9bb63e7db8336a6b19b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:08:08 +0000
Subject: [PATCH 19/37] fix: assign_positions ignores additional columns of the
 predictions

---
 src/solarspatialtools/field.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/solarspatialtools/field.py b/src/solarspatialtools/field.py
index edea5f8..675594c 100644
--- a/src/solarspatialtools/field.py
+++ b/src/solarspatialtools/field.py
@@ -376,6 +376,9 @@ def assign_positions(original_pos, predicted_pos):
         A copy of the original data, but with the rows remapped to the optimal
         solution.
     """
+    # Only the positions matter, additional columns are ignored.
+    predicted_pos = predicted_pos.iloc[:, :2]
+
     # If we have NaN in the data, calculations will fail. Assume that the NaN
     # values stay in place and remap the rest. This would only ever happen in
     # the predictions, because the original should come from the site plan.
-- 
2.43.0


From 87e0a3d71cdb3eab4c8bec9b27daa70d428de85a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:41:13 +0000
Subject: [PATCH 20/37] fix: downscale_multihour accepts any numeric scalar as
 cloud speed and direction

---
 src/solarspatialtools/synthirrad/copula.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/solarspatialtools/synthirrad/copula.py b/src/solarspatialtools/synthirrad/copula.py
index 8e98f78..62dff64 100644
--- a/src/solarspatialtools/synthirrad/copula.py
+++ b/src/solarspatialtools/synthirrad/copula.py
@@ -561,14 +561,14 @@ def downscale_multihour(times, e_pos, n_pos, cloud_spd, cloud_dir, mean_csi,
             raise ValueError('Each entry in params must be a dict.')
         multi_params_mode = True
 
-    if not isinstance(cloud_dir, (int, float)):
+    if np.ndim(cloud_dir) > 0:
         if len(cloud_dir) != 1:
             if len(cloud_dir) != n_hours:
                 raise ValueError('cloud_dir must be either a single value or a'
                                  ' list matching the length of mean_csi.')
             multi_cloud_dir_mode = True
 
-    if not isinstance(cloud_spd, (int, float)):
+    if np.ndim(cloud_spd) > 0:
         if len(cloud_spd) != 1:
             if len(cloud_spd) != n_hours:
                 raise ValueError('cloud_spd must be either a single value or a'
-- 
2.43.0


From dac3ace361ae0ea7b82d16da367f94f457711b83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:46:09 +0000
Subject: [PATCH 21/37] fix: basic cloud field scaling meets every attainable
 mean

---
 src/solarspatialtools/synthirrad/cloudfield.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/solarspatialtools/synthirrad/cloudfield.py b/src/solarspatialtools/synthirrad/cloudfield.py
index 980aa4b..d573e1d 100644
--- a/src/solarspatialtools/synthirrad/cloudfield.py
+++ b/src/solarspatialtools/synthirrad/cloudfield.py
@@ -451,7 +451,7 @@ def _scale_field_basic(field, clear_mask, edge_mask, ktmean, ktmax=1.4, kt1pct=0
     # exceed kt = 1.
     current_cloud_sum = np.sum(clouds_fr[cloud_mask])
 
-    if 0 < tgt_cloud_sum < current_cloud_sum and current_cloud_sum > baseline_sum:
+    if 0 < tgt_cloud_sum < current_cloud_sum:
         clouds5[cloud_mask] = clouds_fr[cloud_mask] * tgt_cloud_sum / current_cloud_sum + kt1pct
     else:
         print("Warning! Can't match desired statistics.")
-- 
2.43.0


From 798c99dedc8755638852805d03bfae25cd9a5cd8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:46:09 +0000
Subject: [PATCH 22/37] fix: cloud fields can be completely clear

---
 src/solarspatialtools/synthirrad/cloudfield.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/solarspatialtools/synthirrad/cloudfield.py b/src/solarspatialtools/synthirrad/cloudfield.py
index d573e1d..73ef278 100644
--- a/src/solarspatialtools/synthirrad/cloudfield.py
+++ b/src/solarspatialtools/synthirrad/cloudfield.py
@@ -293,6 +293,10 @@ def _scale_field_lave(field, clear_mask, edge_mask, ktmean, ktmax=1.4, kt1pct=0.
         The scaled field of clouds
     """
 
+    # There is nothing to scale in a completely clear field
+    if np.all(clear_mask > 0):
+        return np.ones_like(field)
+
     # ##### Shift values of kt to range from 0.2 - 1
 
     # Calc the "max" and "min", excluding clear values
@@ -408,6 +412,10 @@ def _scale_field_basic(field, clear_mask, edge_mask, ktmean, ktmax=1.4, kt1pct=0
     # flipdistr = True
     # cs_smoothing = 0.6
 
+    # There is nothing to scale in a completely clear field
+    if np.all(clear_mask > 0):
+        return np.ones_like(field)
+
     field_max = np.quantile(field[clear_mask == 0], quant)
     field_min = np.quantile(field[clear_mask == 0], 1-quant)
 
-- 
2.43.0


From 219cf087efdae8a35ea4fa5bdb24cc45269b48e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:57:51 +0000
Subject: [PATCH 23/37] fix: interrupted downloads leave no incomplete file at
 the target

---
 src/solarspatialtools/dataio/iotools.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/solarspatialtools/dataio/iotools.py b/src/solarspatialtools/dataio/iotools.py
index 8f54b8e..9838be1 100644
--- a/src/solarspatialtools/dataio/iotools.py
+++ b/src/solarspatialtools/dataio/iotools.py
@@ -20,7 +20,14 @@ def download(url, filename):
     void
     """
 
-    urllib.request.urlretrieve(url, filename)
+    # An interrupted transfer must not leave an incomplete file at the target
+    partial = f"{filename}.part"
+    try:
+        urllib.request.urlretrieve(url, partial)
+        os.replace(partial, filename)
+    finally:
+        if os.path.exists(partial):
+            os.remove(partial)
 
 
 def wget_fromurl(wgeturl, targetdir, verbose=True):
-- 
2.43.0


From 888f14eb21f4aa135827a9af825c3d7a2ce374a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:58:01 +0000
Subject: [PATCH 24/37] fix: project lat/lon sites relative to the reference in
 get_camfilter

---
 src/solarspatialtools/signalproc.py | 17 ++++++++++++-----
 1 file changed, 12 insertions(+), 5 deletions(-)

diff --git a/src/solarspatialtools/signalproc.py b/src/solarspatialtools/signalproc.py
index 62e75c3..40513be 100644
--- a/src/solarspatialtools/signalproc.py
+++ b/src/solarspatialtools/signalproc.py
@@ -1092,14 +1092,21 @@ def get_camfilter(positions, cloud_speed, cloud_dir, ref_position, dx=1,
         frequency vector along the index.
     """
     try:
-        pos_utm = spatial.latlon2utm(positions['lat'], positions['lon'])
+        # Project relative to the reference, as the sites could otherwise fall
+        # in different UTM zones or hemispheres
+        east, north = spatial.latlon2lcs(positions['lat'], positions['lon'],
+                                         ref_position['lat'],
+                                         ref_position['lon'])
+        pos_utm = pd.DataFrame({'E': east, 'N': north})
+        ref_utm = pd.Series({'E': 0.0, 'N': 0.0})
     except KeyError:
         pos_utm = positions
-    try:
-        ref_utm = spatial.latlon2utm(ref_position['lat'], ref_position['lon'])
-        ref_utm = pd.Series(ref_utm, index=['E', 'N', 'zone'])
-    except KeyError:
         ref_utm = ref_position
+        if 'lat' in pos_utm and 'lon' in pos_utm:
+            pos_utm = spatial.latlon2utm(pos_utm['lat'], pos_utm['lon'])
+        if 'lat' in ref_utm and 'lon' in ref_utm:
+            ref_utm = spatial.latlon2utm(ref_utm['lat'], ref_utm['lon'])
+            ref_utm = pd.Series(ref_utm, index=['E', 'N', 'zone'])
 
     pos_vecs = spatial.compute_vectors(pos_utm['E'], pos_utm['N'],
                                        ref_utm[['E', 'N']])
-- 
2.43.0


From d440a61aa2a0ccdf963444e44f0ca195700be00e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:58:21 +0000
Subject: [PATCH 25/37] fix: error metrics overflow for narrow integer types

---
 src/solarspatialtools/stats.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/solarspatialtools/stats.py b/src/solarspatialtools/stats.py
index 6ad07e9..99ac22f 100644
--- a/src/solarspatialtools/stats.py
+++ b/src/solarspatialtools/stats.py
@@ -145,7 +145,8 @@ def bias_error(baseline, estimation):
     result : numeric or pandas.Series
         a time series of bias error values
     """
-    result = estimation - baseline
+    # Floating point avoids overflow of narrow or unsigned integer types
+    result = np.multiply(estimation, 1.0) - baseline
     return result
 
 
-- 
2.43.0


From 58bdbc2fe38bb48e069cb474fb1c79a4c6f33a38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:58:43 +0000
Subject: [PATCH 26/37] fix: darr percentage overflows for narrow integer types

---
 src/solarspatialtools/stats.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/solarspatialtools/stats.py b/src/solarspatialtools/stats.py
index 99ac22f..50748df 100644
--- a/src/solarspatialtools/stats.py
+++ b/src/solarspatialtools/stats.py
@@ -300,7 +300,7 @@ def darr(series, tau=1, moving_avg=True, pct=False):
         # Rerun it without MA
         return darr(rs, tau=1, moving_avg=False, pct=pct)
     if pct:
-        return darr(series * 100 / 1000, tau=tau, moving_avg=False, pct=False)
+        return darr(series / 10, tau=tau, moving_avg=False, pct=False)
 
     darr_val = np.abs(series.diff(tau)).sum(axis=0)
 
-- 
2.43.0


From bcd0663a2bdc1a77ff87ed3877f2571e3c34fdf0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:59:24 +0000
Subject: [PATCH 27/37] fix: cross correlation overflows for narrow integer
 types

---
 src/solarspatialtools/signalproc.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/solarspatialtools/signalproc.py b/src/solarspatialtools/signalproc.py
index 40513be..954534e 100644
--- a/src/solarspatialtools/signalproc.py
+++ b/src/solarspatialtools/signalproc.py
@@ -57,6 +57,10 @@ def correlation(baseline, estimation, scaling='coeff'):
     # The time lags
     lags = scipy.signal.correlation_lags(len(baseline), len(estimation))
 
+    # Sums of products would overflow narrow integer types
+    baseline = np.multiply(baseline, 1.0)
+    estimation = np.multiply(estimation, 1.0)
+
     if scaling.lower() == 'energy':
         autocorr = scipy.signal.correlate(baseline, baseline)
         energy = np.max(autocorr)
@@ -632,6 +636,10 @@ def compute_delays(ts_in, ts_out, mode='loop', scaling='coeff'):
     if isinstance(ts_out, pd.DataFrame):
         ts_outm = np.array(ts_outm).T
 
+    # Sums of products would overflow narrow integer types
+    ts_inm = np.multiply(ts_inm, 1.0)
+    ts_outm = np.multiply(ts_outm, 1.0)
+
     extras = {'peak_corr': np.zeros(ts_inm.shape[0]),
               'mean_corr': np.zeros(ts_inm.shape[0]),
               'zero_corr': np.zeros(ts_inm.shape[0])
-- 
2.43.0


From b3c8df473b60858ab07ba7df53a854e15e20ed3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:34:32 +0000
Subject: [PATCH 28/37] fix: HOPE time stamps have one resolution whatever
 their values

pandas chooses the resolution from the values: a file with sub-second times
could not be appended to one without.
---
 src/solarspatialtools/dataio/hope_campaign.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/solarspatialtools/dataio/hope_campaign.py b/src/solarspatialtools/dataio/hope_campaign.py
index 07ace04..8c494ed 100644
--- a/src/solarspatialtools/dataio/hope_campaign.py
+++ b/src/solarspatialtools/dataio/hope_campaign.py
@@ -247,6 +247,8 @@ def parse_file(filename):
     time = data['time']
     timeindex = pd.to_datetime(time[:], unit="s")
     timeindex = timeindex.tz_localize('UTC')
+    # The resolution must not depend on the values, files are joined later
+    timeindex = timeindex.as_unit('ns')
 
     # Get Irradiance
     irrad = data['rsds'][:]
-- 
2.43.0


From 70ee1e8e3a8d1090ae9c9801ea0ea26b6dde9bb4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:51:52 +0000
Subject: [PATCH 29/37] fix: _fftcorrelate scales each of several pairs by its
 own deviations

---
 src/solarspatialtools/signalproc.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/solarspatialtools/signalproc.py b/src/solarspatialtools/signalproc.py
index 954534e..700fa26 100644
--- a/src/solarspatialtools/signalproc.py
+++ b/src/solarspatialtools/signalproc.py
@@ -144,6 +144,7 @@ def _fftcorrelate(baseline, estimation, scaling='coeff'):
         corr_scale = (np.size(ts_inm, axis=1)
                       * np.std(ts_inm, axis=1)
                       * np.std(ts_outm, axis=1)) ** -1
+        corr_scale = np.expand_dims(corr_scale, axis=1)
     elif scaling == 'none':
         corr_scale = 1
     else:
-- 
2.43.0


From 9954f0bb69cd8e68a53c4e9f3920f4c336c95f94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:17:17 +0000
Subject: [PATCH 30/37] fix: calc_quantile keeps windows that start on a day
 without data

---
 src/solarspatialtools/stats.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/solarspatialtools/stats.py b/src/solarspatialtools/stats.py
index 50748df..cc519aa 100644
--- a/src/solarspatialtools/stats.py
+++ b/src/solarspatialtools/stats.py
@@ -353,8 +353,8 @@ def calc_quantile(timeseries, n_days="30d", quantile=0.9):
 
     end_day = ts.index.date[-1]  # the final day of the dataset
 
-    # Loop over all unique days in the timeseries
-    for date_start in pd.unique(ts.index.date):
+    # Loop over all days spanned by the timeseries (some may have no data)
+    for date_start in pd.date_range(ts.index.date[0], end_day).date:
         # Window starts on date_start. Window ends on date_end
         date_end = date_start + pd.to_timedelta(n_days)
 
@@ -367,6 +367,8 @@ def calc_quantile(timeseries, n_days="30d", quantile=0.9):
         # (the midnight that ends the window belongs to the following day)
         statdata = ts[(ts.index >= pd.Timestamp(date_start))
                       & (ts.index < pd.Timestamp(date_end))]
+        if len(statdata) == 0:
+            continue
         dates = statdata.index.date
         times = statdata.index.time
 
-- 
2.43.0


From d300523f5bfd3240670964e036109d7a286c3d75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:23:28 +0000
Subject: [PATCH 31/37] fix: judge negligible correlations relative to the
 signals in compute_delays

Without scaling, the correlation of small signals fell below an absolute
threshold and every delay came out as zero.
---
 src/solarspatialtools/signalproc.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/solarspatialtools/signalproc.py b/src/solarspatialtools/signalproc.py
index 700fa26..e919d51 100644
--- a/src/solarspatialtools/signalproc.py
+++ b/src/solarspatialtools/signalproc.py
@@ -713,8 +713,13 @@ def compute_delays(ts_in, ts_out, mode='loop', scaling='coeff'):
     else:
         raise ValueError(f'Invalid mode: {mode}')
 
-    # Sometimes produce erroneous delay for uncorrelated values
-    delay[extras['peak_corr'] < 1e-10] = 0
+    # Sometimes produce erroneous delay for uncorrelated values. Without
+    # scaling, what is negligible depends on the size of the signals.
+    limit = 1e-10
+    if scaling == 'none':
+        limit *= np.sqrt(np.sum(ts_inm ** 2, axis=1)
+                         * np.sum(ts_outm ** 2, axis=1))
+    delay[extras['peak_corr'] <= limit] = 0
 
     return delay, extras
 
-- 
2.43.0


From 910585414cb2daff1cdd0d6826decd83ea650cf1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:26:55 +0000
Subject: [PATCH 32/37] fix: use the E and N columns of the plan by name
 throughout compute_predicted_position

The position of the reference was added by column position: a plan with
its columns in another order gave wrong coordinates, the output of
latlon2utm with its zone column raised an error.
---
 src/solarspatialtools/field.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/solarspatialtools/field.py b/src/solarspatialtools/field.py
index 675594c..b8937c5 100644
--- a/src/solarspatialtools/field.py
+++ b/src/solarspatialtools/field.py
@@ -84,6 +84,9 @@ def compute_predicted_position(dfs, pos_utm, ref, cld_vecs=None,
 
     combined_data = []
 
+    # Only the coordinates matter, in a fixed order
+    pos_utm = pos_utm[['E', 'N']]
+
     if cld_vecs is None:
         cld_vecs = []
         for df in dfs:
-- 
2.43.0


From d365e7eb6030add95e13fa064a98686b556f25cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:45:52 +0000
Subject: [PATCH 33/37] fix: search all rotations in optimum_subset

The cost has many local minima, the few default samples of the optimizer
missed the best fan: subset of directions 70, 160, 15 and 85 degrees.
---
 src/solarspatialtools/cmv.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/solarspatialtools/cmv.py b/src/solarspatialtools/cmv.py
index aa6c580..1c0db78 100644
--- a/src/solarspatialtools/cmv.py
+++ b/src/solarspatialtools/cmv.py
@@ -475,7 +475,8 @@ def optimum_subset(cmvx, cmvy, n=10):
     bounds = [(0, np.pi / n)]
 
     #  What we're optimizing here is a rotation angle for the set of ideal vecs
-    y = shgo(cost_wrapper, bounds)
+    # The cost has many local minima, so search from many angles.
+    y = shgo(cost_wrapper, bounds, n=64)
 
     # Use the optimized angle to figure out which CMVs to use
     final_cost, indices = calc_cost(y.x[0])
-- 
2.43.0


From 8980fb42809f028808a709344710801e0067de66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:29:05 +0000
Subject: [PATCH 34/37] fix: compute_cmv stored leastsq's status code in place
 of the covariance matrix (method gagne)

---
 src/solarspatialtools/cmv.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/solarspatialtools/cmv.py b/src/solarspatialtools/cmv.py
index 1c0db78..7b41a60 100644
--- a/src/solarspatialtools/cmv.py
+++ b/src/solarspatialtools/cmv.py
@@ -355,8 +355,10 @@ def compute_cmv(timeseries, positions, reference_id=None, method="jamaly",
             # Residual as defined in Gagne 2018 equation 3
             return lag - (dx * ax + dy * ay)
 
-        [ax_opt, ay_opt], pcov = leastsq(resid, np.array([1, 1]),
-                                         args=(delay_good, vectors_good))
+        [ax_opt, ay_opt], pcov, _, _, _ = leastsq(resid, np.array([1, 1]),
+                                                  args=(delay_good,
+                                                        vectors_good),
+                                                  full_output=True)
         method_out['pcov'] = pcov
 
         # Gagne 2018 equation 4
-- 
2.43.0


From b3f157615ea91308d1ce7326b118abf0f4fd4f10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:06:59 +0000
Subject: [PATCH 35/37] fix: close the netCDF file once it has been parsed

---
 src/solarspatialtools/dataio/hope_campaign.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/solarspatialtools/dataio/hope_campaign.py b/src/solarspatialtools/dataio/hope_campaign.py
index 8c494ed..37392fa 100644
--- a/src/solarspatialtools/dataio/hope_campaign.py
+++ b/src/solarspatialtools/dataio/hope_campaign.py
@@ -253,6 +253,7 @@ def parse_file(filename):
     # Get Irradiance
     irrad = data['rsds'][:]
     irrad_flag = data['rsds_flag'][:]
+    data.close()
 
     # Build Data and Flag Frames
     data = pd.DataFrame(irrad, columns=ids, index=timeindex)
-- 
2.43.0


From 7b53c0c10bf38e1fc7510a2f07be6d257b7043e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:44:29 +0000
Subject: [PATCH 36/37] fix: mean coherence without a frequency limit in
 compute_delays_tf

---
 src/solarspatialtools/signalproc.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/solarspatialtools/signalproc.py b/src/solarspatialtools/signalproc.py
index e919d51..5396d9f 100644
--- a/src/solarspatialtools/signalproc.py
+++ b/src/solarspatialtools/signalproc.py
@@ -824,7 +824,10 @@ def compute_delays_tf(ts_in, ts_out, navgs=5, coh_limit=0.6, freq_limit=0.02,
     else:
         raise ValueError(f'Invalid method: {method}')
 
-    freq_ix = tf.index < freq_limit
+    if freq_limit is None:
+        freq_ix = np.ones(len(tf.index), dtype=bool)
+    else:
+        freq_ix = tf.index < freq_limit
     mean_coh = (np.nansum(tfcoh.values[freq_ix, :], axis=0)
                 / np.nansum(freq_ix))
 
-- 
2.43.0


From 5fc9c25935f92fa62141e15693168a7207a474d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:20:36 +0000
Subject: [PATCH 37/37] fix: delays of pairs with equal labels in
 compute_delays_tf (method fit)

---
 src/solarspatialtools/signalproc.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/solarspatialtools/signalproc.py b/src/solarspatialtools/signalproc.py
index 5396d9f..ca5edfb 100644
--- a/src/solarspatialtools/signalproc.py
+++ b/src/solarspatialtools/signalproc.py
@@ -811,8 +811,9 @@ def compute_delays_tf(ts_in, ts_out, navgs=5, coh_limit=0.6, freq_limit=0.02,
     if method == 'fit':
         delay = np.zeros(len(tf.columns))
         ix_all = np.zeros_like(tfcoh.values, dtype=bool)
-        for i, col in enumerate(tf.columns):
-            delay[i], ix = tf_delay(tf[col], tfcoh[col],
+        # by position: the labels of two pairs may be equal
+        for i in range(len(tf.columns)):
+            delay[i], ix = tf_delay(tf.iloc[:, i], tfcoh.iloc[:, i],
                                     coh_limit=coh_limit,
                                     freq_limit=freq_limit,
                                     method='fit')
-- 
2.43.0

