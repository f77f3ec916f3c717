From a8eea82ba0ead96ed41944f2e39b9e08ad4a18fa Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:49 +0000
Subject: [PATCH 01/52] fix: cache reference delay times per phase and
 reference slowness

---
 rf/simple_model.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/rf/simple_model.py b/rf/simple_model.py
index 4b8cc66..5718cd0 100644
--- a/rf/simple_model.py
+++ b/rf/simple_model.py
@@ -134,9 +134,10 @@ class SimpleModel(object):
             raise ValueError(msg % phase)
         phase = phase.upper()
         try:
-            t_ref = self.t_ref[phase]
+            t_ref = self.t_ref[(phase, ref)]
         except KeyError:
-            self.t_ref[phase] = t_ref = self.calculate_delay_times(ref, phase)
+            t_ref = self.calculate_delay_times(ref, phase)
+            self.t_ref[(phase, ref)] = t_ref
         t = self.calculate_delay_times(slowness, phase)
         if phase[0] == 'S':
             t_ref = -t_ref
-- 
2.43.0


From d493adda22856b1464923c86d7b1e7851c854255 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:25 +0000
Subject: [PATCH 02/52] fix: stack header is taken from a trace with the same
 id

---
 rf/rfstream.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/rf/rfstream.py b/rf/rfstream.py
index 9e113d0..7e56be2 100644
--- a/rf/rfstream.py
+++ b/rf/rfstream.py
@@ -410,11 +410,12 @@ class RFStream(Stream):
         id.
         """
         ids = set(tr.id for tr in self)
-        tr = self[0]
         traces = []
         for id in ids:
             net, sta, loc, cha = id.split('.')
-            data = np.mean([tr.data for tr in self if tr.id == id], axis=0)
+            traces_id = [tr for tr in self if tr.id == id]
+            tr = traces_id[0]
+            data = np.mean([tr_.data for tr_ in traces_id], axis=0)
             header = {'network': net, 'station': sta, 'location': loc,
                       'channel': cha, 'sampling_rate': tr.stats.sampling_rate}
             for entry in ('phase', 'moveout', 'station_latitude',
-- 
2.43.0


From 8e10ec1d73ed27108c49641816c84bd59cd3f987 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:25 +0000
Subject: [PATCH 03/52] fix: stack and profile do not share the processing list
 with their input

---
 rf/profile.py  | 4 +++-
 rf/rfstream.py | 3 ++-
 2 files changed, 5 insertions(+), 2 deletions(-)

diff --git a/rf/profile.py b/rf/profile.py
index 07893a3..b4e5abf 100644
--- a/rf/profile.py
+++ b/rf/profile.py
@@ -3,6 +3,8 @@
 """
 Functions for receiver function profile calculation.
 """
+from copy import deepcopy
+
 import numpy as np
 from rf.util import _add_processing_info, direct_geodetic
 
@@ -105,7 +107,7 @@ def profile(stream, boxes, crs=None):
                       'channel': '??' + comp}
             for entry in ('slowness', 'phase', 'moveout', 'processing'):
                 if entry in tr.stats:
-                    header[entry] = tr.stats[entry]
+                    header[entry] = deepcopy(tr.stats[entry])
             stack[key] = tr2 = tr.__class__(data=tr.data, header=header)
             if 'onset' in tr.stats:
                 onset = tr.stats.onset - tr.stats.starttime
diff --git a/rf/rfstream.py b/rf/rfstream.py
index 7e56be2..fbae6b2 100644
--- a/rf/rfstream.py
+++ b/rf/rfstream.py
@@ -3,6 +3,7 @@
 """
 Classes and functions for receiver function calculation.
 """
+from copy import deepcopy
 import json
 from operator import itemgetter
 from pkg_resources import resource_filename
@@ -422,7 +423,7 @@ class RFStream(Stream):
                           'station_longitude', 'station_elevation',
                           'processing'):
                 if entry in tr.stats:
-                    header[entry] = tr.stats[entry]
+                    header[entry] = deepcopy(tr.stats[entry])
             tr2 = RFTrace(data=data, header=header)
             if 'onset' in tr.stats:
                 onset = tr.stats.onset - tr.stats.starttime
-- 
2.43.0


From ff661d91feafd5f821b273f6b829aabafb991b3a Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:25 +0000
Subject: [PATCH 04/52] fix: set components header for all unmodeled harmonics

---
 rf/harmonics.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rf/harmonics.py b/rf/harmonics.py
index 0e121dc..03b79b6 100644
--- a/rf/harmonics.py
+++ b/rf/harmonics.py
@@ -129,7 +129,7 @@ def harmonics(stream, components='R', azim=0, method='time', **kwargs):
             out[i].stats['channel'] = str(i-5)
             out[i].stats['term'] = terms[i-5]
             out[i].stats['location'] = 'unmod'
-        out[i].stats['components'] = components
+            out[i].stats['components'] = components
     return out
 
 
-- 
2.43.0


From e79eecc05ecfaea5b5711fd461d369a9a38b5093 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:25 +0000
Subject: [PATCH 05/52] fix: streams of type harmonic can be written to H5

---
 rf/rfstream.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/rf/rfstream.py b/rf/rfstream.py
index fbae6b2..82e9629 100644
--- a/rf/rfstream.py
+++ b/rf/rfstream.py
@@ -203,10 +203,12 @@ class RFStream(Stream):
             index = self.type
             if index is None and 'event_time' in self[0].stats:
                 index = 'rf'
+            # other stream types (e.g. harmonic) use the current index
+            index = _H5INDEX.get(index)
             if index:
                 import obspyh5
                 old_index = obspyh5._INDEX
-                obspyh5.set_index(_H5INDEX[index])
+                obspyh5.set_index(index)
         super(RFStream, self).write(filename, format, **kwargs)
         if format.upper() == 'H5' and index:
             obspyh5.set_index(old_index)
-- 
2.43.0


From e39330e0c084bb663c53b6d8e2a7beaf8562bc9e Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:25 +0000
Subject: [PATCH 06/52] fix: restore station header and H5 index if writing
 fails

---
 rf/rfstream.py | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/rf/rfstream.py b/rf/rfstream.py
index 82e9629..570c62a 100644
--- a/rf/rfstream.py
+++ b/rf/rfstream.py
@@ -209,12 +209,14 @@ class RFStream(Stream):
                 import obspyh5
                 old_index = obspyh5._INDEX
                 obspyh5.set_index(index)
-        super(RFStream, self).write(filename, format, **kwargs)
-        if format.upper() == 'H5' and index:
-            obspyh5.set_index(old_index)
-        if format.upper() == 'Q':
-            for tr in self:
-                tr.stats.station = tr.stats.station.split('.')[1]
+        try:
+            super(RFStream, self).write(filename, format, **kwargs)
+        finally:
+            if format.upper() == 'H5' and index:
+                obspyh5.set_index(old_index)
+            if format.upper() == 'Q':
+                for tr in self:
+                    tr.stats.station = tr.stats.station.split('.')[1]
 
     def trim2(self, starttime=None, endtime=None, reftime=None, **kwargs):
         """
-- 
2.43.0


From aaf90092967498533f06f1d422be055e2e8b13c8 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:25 +0000
Subject: [PATCH 07/52] fix: events without origin do not stop iter_event_data

---
 rf/util.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/rf/util.py b/rf/util.py
index 77a4d41..d145562 100644
--- a/rf/util.py
+++ b/rf/util.py
@@ -60,11 +60,11 @@ def iter_event_data(events, inventory, get_waveforms, phase='P',
     for event, seedid in itertools.product(events, stations):
         if pbar is not None:
             pbar.update(1)
-        origin_time = (event.preferred_origin() or event.origins[0])['time']
         try:
-            args = (seedid[:-1] + stations[seedid], origin_time)
+            origin = event.preferred_origin() or event.origins[0]
+            args = (seedid[:-1] + stations[seedid], origin['time'])
             coords = inventory.get_coordinates(*args)
-        except Exception:  # station not available at that time
+        except Exception:  # no origin or station not available at that time
             continue
         try:
             stats = rfstats(station=coords, event=event, phase=phase, **kwargs)
-- 
2.43.0


From 0807b7adad4f3964f0f27d5b5af179709b4912bd Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:25 +0000
Subject: [PATCH 08/52] fix: missing data does not stop iter_event_data

---
 rf/util.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/rf/util.py b/rf/util.py
index d145562..8d1ccf5 100644
--- a/rf/util.py
+++ b/rf/util.py
@@ -85,6 +85,8 @@ def iter_event_data(events, inventory, get_waveforms, phase='P',
             stream = get_waveforms(**kws)
         except Exception:  # no data available
             continue
+        if stream is None:  # no data available
+            continue
         stream.trim(starttime, endtime)
         stream.merge()
         if len(stream) != 3:
-- 
2.43.0


From 51556a03748910617fb13b3ccf27381eca817f8f Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:03 +0000
Subject: [PATCH 09/52] fix: restore station header if preparing the headers
 for Q fails

---
 rf/rfstream.py | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/rf/rfstream.py b/rf/rfstream.py
index 570c62a..9ee9350 100644
--- a/rf/rfstream.py
+++ b/rf/rfstream.py
@@ -195,10 +195,6 @@ class RFStream(Stream):
         """
         if len(self) == 0:
             return
-        for tr in self:
-            tr._write_format_specific_header(format, sh_compat=sh_compat)
-            if format.upper() == 'Q':
-                tr.stats.station = tr.id
         if format.upper() == 'H5':
             index = self.type
             if index is None and 'event_time' in self[0].stats:
@@ -209,14 +205,19 @@ class RFStream(Stream):
                 import obspyh5
                 old_index = obspyh5._INDEX
                 obspyh5.set_index(index)
+        stations = [tr.stats.station for tr in self]
         try:
+            for tr in self:
+                tr._write_format_specific_header(format, sh_compat=sh_compat)
+                if format.upper() == 'Q':
+                    tr.stats.station = tr.id
             super(RFStream, self).write(filename, format, **kwargs)
         finally:
             if format.upper() == 'H5' and index:
                 obspyh5.set_index(old_index)
             if format.upper() == 'Q':
-                for tr in self:
-                    tr.stats.station = tr.stats.station.split('.')[1]
+                for tr, station in zip(self, stations):
+                    tr.stats.station = station
 
     def trim2(self, starttime=None, endtime=None, reftime=None, **kwargs):
         """
-- 
2.43.0


From d34504d952bae344160469ae205e4b18575acf49 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:03 +0000
Subject: [PATCH 10/52] fix: rfstats uses event or station if the other is part
 of stats

---
 rf/rfstream.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rf/rfstream.py b/rf/rfstream.py
index 9ee9350..8ae5176 100644
--- a/rf/rfstream.py
+++ b/rf/rfstream.py
@@ -707,7 +707,7 @@ def rfstats(obj=None, event=None, station=None,
     elif dist_range == 'default':
         raise ValueError('Please specify dist_range parameter')
     stats = AttribDict({}) if obj is None else obj
-    if event is not None and station is not None:
+    if event is not None or station is not None:
         stats.update(obj2stats(event=event, station=station))
     dist, baz, _ = gps2dist_azimuth(stats.station_latitude,
                                     stats.station_longitude,
-- 
2.43.0


From 74f4163e434cddb3ebac23258fdc682a0e4b93fe Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:03 +0000
Subject: [PATCH 11/52] fix: data which cannot be merged does not stop
 iter_event_data

---
 rf/util.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/rf/util.py b/rf/util.py
index 8d1ccf5..a5f38b7 100644
--- a/rf/util.py
+++ b/rf/util.py
@@ -88,7 +88,13 @@ def iter_event_data(events, inventory, get_waveforms, phase='P',
         if stream is None:  # no data available
             continue
         stream.trim(starttime, endtime)
-        stream.merge()
+        try:
+            stream.merge()
+        except Exception as ex:
+            from warnings import warn
+            warn('Error "%s" while merging data for event %s, station %s.'
+                 % (ex, event.resource_id, seedid))
+            continue
         if len(stream) != 3:
             from warnings import warn
             warn('Need 3 component seismograms. %d components '
-- 
2.43.0


From dcfcb9b6324b4ddd2502415ad8712c3a5b454698 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:03 +0000
Subject: [PATCH 12/52] fix: events without origin do not stop
 iter_event_metadata

---
 rf/util.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/rf/util.py b/rf/util.py
index a5f38b7..45b58e8 100644
--- a/rf/util.py
+++ b/rf/util.py
@@ -132,8 +132,11 @@ def iter_event_metadata(events, inventory, pbar=None):
         meta = {'network': net, 'station': sta, 'location': loc,
                 'channel': cha}
         if event is not None:
-            ot = (event.preferred_origin() or event.origins[0])['time']
-            meta['event_time'] = ot
+            try:
+                origin = event.preferred_origin() or event.origins[0]
+            except IndexError:  # no origin
+                continue
+            meta['event_time'] = origin['time']
         yield meta
 
 
-- 
2.43.0


From 63fcecd04a7ad65cb29b65a9e3c9b6c11c4f90da Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:25 +0000
Subject: [PATCH 13/52] fix: refuse repeated calc or moveout steps

---
 rf/batch.py | 13 ++++---------
 1 file changed, 4 insertions(+), 9 deletions(-)

diff --git a/rf/batch.py b/rf/batch.py
index 05a8129..279cc2d 100644
--- a/rf/batch.py
+++ b/rf/batch.py
@@ -254,15 +254,10 @@ def run_commands(command, commands=(), events=None, inventory=None,
     if kw['boxbins'] is not None:
         kw['boxes']['bins'] = np.linspace(*kw['boxbins'])
 
-    try:
-        if command == 'calc':
-            assert len(commands) < 3
-            if len(commands) == 2:
-                assert commands[0] != commands[1]
-        elif command == 'calc':
-            assert len(commands) < 2
-    except Exception:
-        raise ParseError('calc or moveout command given more than once')
+    if command in ('data', 'calc', 'moveout'):
+        steps = [command] + list(commands)
+        if len(set(steps)) != len(steps):
+            raise ParseError('calc or moveout command given more than once')
 
     # Read events and inventory
     try:
-- 
2.43.0


From 49f6902d2f657134be0612398d47c0eedef94081 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:25 +0000
Subject: [PATCH 14/52] fix: batch accepts Catalog objects and lists of events

---
 rf/batch.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/rf/batch.py b/rf/batch.py
index 279cc2d..5e3a3cd 100644
--- a/rf/batch.py
+++ b/rf/batch.py
@@ -264,9 +264,9 @@ def run_commands(command, commands=(), events=None, inventory=None,
         if command in ('stack', 'plot'):
             events = None
         elif command != 'print' or objects[0] == 'events':
-            if (not isinstance(events, obspy.Catalog) or
-                    not isinstance(events, list) or
-                    (len(events) == 2 and isinstance(events[0], basestring))):
+            if not isinstance(events, (obspy.Catalog, list)) or (
+                    isinstance(events, list) and
+                    len(events) == 2 and isinstance(events[0], basestring)):
                 if isinstance(events, basestring):
                     format_ = None
                 else:
-- 
2.43.0


From 1fb8d1f7cc535b58adc1ea01707daf4334fe32ce Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:25 +0000
Subject: [PATCH 15/52] fix: deconv_waterlevel without normalization for single
 array or with info

---
 rf/deconvolve.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/rf/deconvolve.py b/rf/deconvolve.py
index ebc0f7d..05017a8 100644
--- a/rf/deconvolve.py
+++ b/rf/deconvolve.py
@@ -229,7 +229,7 @@ def deconv_waterlevel(rsp_list, src, sampling_rate, waterlevel=0.05, gauss=0.5,
         for rf in rf_list:
             rf *= norm
     if return_info:
-        if normalize not in (None, 'src'):
+        if normalize != 'src':
             spec_src = ffilt * spec_src * spec_src_conj / spec_src_water
             rf_src = ifft(spec_src, nfft)[:N]
             norm = 1 / max(rf_src)
@@ -240,7 +240,7 @@ def deconv_waterlevel(rsp_list, src, sampling_rate, waterlevel=0.05, gauss=0.5,
                 'gauss': ffilt, 'norm': norm, 'N': N, 'nfft': nfft}
         return rf_list, info
     elif flag:
-        return rf
+        return rf_list[0]
     else:
         return rf_list
 
-- 
2.43.0


From 180d992a7783ae3b7cdea337670b6a6eb5f89978 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:25 +0000
Subject: [PATCH 16/52] fix: deconv_iterative for a single array

---
 rf/deconvolve.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/rf/deconvolve.py b/rf/deconvolve.py
index 05017a8..8a41d38 100644
--- a/rf/deconvolve.py
+++ b/rf/deconvolve.py
@@ -466,6 +466,10 @@ def deconv_iterative(rsp, src, sampling_rate, tshift=10, gauss=0.5, itmax=400,
     :return: (list of) array(s) with deconvolution(s)
     """
 
+    flag = False
+    if not isinstance(rsp, (list, tuple)):
+        flag = True
+        rsp = [rsp]
     ncomp = len(rsp)    # number of components we're looping over here
     dt = 1 / sampling_rate
     RF_out = []
@@ -518,6 +522,8 @@ def deconv_iterative(rsp, src, sampling_rate, tshift=10, gauss=0.5, itmax=400,
         for RF in RF_out:
             RF *= norm
 
+    if flag:
+        return RF_out[0], it_out[0], rms_out[0]
     return RF_out, it_out, rms_out
 
 
-- 
2.43.0


From ba13fdee6f1a864bcb673b8150d0c175effce2d1 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:25 +0000
Subject: [PATCH 17/52] fix: deconvolve does not cut and taper the source trace
 of the stream

---
 rf/deconvolve.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/rf/deconvolve.py b/rf/deconvolve.py
index 8a41d38..08484ed 100644
--- a/rf/deconvolve.py
+++ b/rf/deconvolve.py
@@ -118,8 +118,7 @@ def deconvolve(stream, method='time', func=None,
 #    if winsrc[1] > lenrsp_sec - onset_sec:
 #        winsrc[1] = lenrsp_sec - onset_sec
     # prepare source and response list
-    if src in rsp:
-        src = src.copy()
+    src = src.copy()
     src.trim(onset + winsrc[0], onset + winsrc[1], pad=True, fill_value=0.)
     src.taper(max_percentage=None, max_length=winsrc[2])
     tshift = -winsrc[0]
-- 
2.43.0


From 59e7b487bc9c961dd806cd68e4445a0775fdde44 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:05 +0000
Subject: [PATCH 18/52] fix: deconv_iterative tells a single array from a list
 of arrays by dimension

---
 rf/deconvolve.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/rf/deconvolve.py b/rf/deconvolve.py
index 08484ed..9788c65 100644
--- a/rf/deconvolve.py
+++ b/rf/deconvolve.py
@@ -465,9 +465,8 @@ def deconv_iterative(rsp, src, sampling_rate, tshift=10, gauss=0.5, itmax=400,
     :return: (list of) array(s) with deconvolution(s)
     """
 
-    flag = False
-    if not isinstance(rsp, (list, tuple)):
-        flag = True
+    flag = np.ndim(rsp[0]) == 0
+    if flag:
         rsp = [rsp]
     ncomp = len(rsp)    # number of components we're looping over here
     dt = 1 / sampling_rate
-- 
2.43.0


From f8fab2154d1a586dc88192b4bea104cd4393d76c Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:05 +0000
Subject: [PATCH 19/52] fix: results of a custom deconvolution function are
 written to the stream

---
 rf/deconvolve.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/rf/deconvolve.py b/rf/deconvolve.py
index 9788c65..3c064f2 100644
--- a/rf/deconvolve.py
+++ b/rf/deconvolve.py
@@ -156,7 +156,14 @@ def deconvolve(stream, method='time', func=None,
         for i, tr in enumerate(rsp):
             tr.data = rf_data[i].real
     else:
-        rsp = func(stream.__class__(rsp), src, tshift=tshift, **kwargs)
+        rf_stream = func(stream.__class__(rsp), src, tshift=tshift, **kwargs)
+        if [tr.id for tr in rf_stream] == [tr.id for tr in rsp]:
+            # write the results to the traces of the stream
+            for tr, rf_tr in zip(rsp, rf_stream):
+                tr.stats = rf_tr.stats
+                tr.data = rf_tr.data
+        else:
+            rsp = rf_stream
     return stream.__class__(rsp)
 
 
-- 
2.43.0


From 1dadab7fbf3924a77401c43285ac4105a8c2e57a Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:05 +0000
Subject: [PATCH 20/52] fix: scale second panel of plot_harmonics by its own
 maximum

---
 rf/imaging.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rf/imaging.py b/rf/imaging.py
index 532454f..64c627f 100644
--- a/rf/imaging.py
+++ b/rf/imaging.py
@@ -418,7 +418,7 @@ def plot_harmonics(hd, hd2=None, fillcolors=('b', 'r'), trim=None):
     if hd2:
         ref1 = max(abs(hd2.select(channel='0', location='mod')[0].data))
         for tr in hd2.select(location='mod'):
-            if max(abs(tr.data)) > ref0:
+            if max(abs(tr.data)) > ref1:
                 ref1 = max(abs(tr.data))
         unmod = hd2.select(location='mod')
     else:
-- 
2.43.0


From 148ab482a1db099693d6076ee27925f6dac140bd Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:47 +0000
Subject: [PATCH 21/52] fix: depth axis of plot_profile was off by one model
 layer

---
 rf/imaging.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/rf/imaging.py b/rf/imaging.py
index 64c627f..3e45b8e 100644
--- a/rf/imaging.py
+++ b/rf/imaging.py
@@ -347,8 +347,11 @@ def plot_profile(profile, fname=None, figsize=None, dpi=None,
             dkm = 200
         d1 = np.arange(20) * dkm
         d2 = np.arange(100) * dkm / 5
-        t1 = np.interp(d1, model.z, pd)
-        t2 = np.interp(d2, model.z, pd)
+        # delay times correspond to the bottom of the layers
+        z = np.hstack((model.z[0], model.z + model.dz))
+        pd = np.hstack((0, pd))
+        t1 = np.interp(d1, z, pd)
+        t2 = np.interp(d2, z, pd)
         myLocator = FixedLocator(t1)
         myMinorLocator = FixedLocator(t2)
         myFormatter = FixedFormatter([str(i) for i in d1])
-- 
2.43.0


From 74b11cbbd8712c7972badb854f40bcae8bd45311 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:49 +0000
Subject: [PATCH 22/52] fix: times of samples in moveout correction of S
 multiples

---
 rf/simple_model.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/rf/simple_model.py b/rf/simple_model.py
index 5718cd0..60510bf 100644
--- a/rf/simple_model.py
+++ b/rf/simple_model.py
@@ -169,9 +169,10 @@ class SimpleModel(object):
                                               ref=ref)
             S_multiple = phase[0].upper() == 'S' and len(phase) > 3
             if S_multiple:
-                time0 = st.starttime - st.onset + index0 * st.delta
+                # the last sample in data[:index0] is the one before index0
+                time0 = st.starttime - st.onset + (index0 - 1) * st.delta
                 old_data = tr.data[:index0][::-1]
-                t = -time0 - np.arange(index0) * st.delta
+                t = time0 - np.arange(index0) * st.delta
                 new_t = -np.interp(-t, -t0, -t1, left=0, right=0)
                 data = np.interp(-t, -new_t, old_data, left=0., right=0.)
                 tr.data[:index0] = data[::-1]
-- 
2.43.0


From 528e8a73fc41dd45a00a1c2aac05f703ecada755 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:11 +0000
Subject: [PATCH 23/52] fix: moveout correction of S multiples with samples
 beyond the model

---
 rf/simple_model.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rf/simple_model.py b/rf/simple_model.py
index 60510bf..3309517 100644
--- a/rf/simple_model.py
+++ b/rf/simple_model.py
@@ -173,7 +173,7 @@ class SimpleModel(object):
                 time0 = st.starttime - st.onset + (index0 - 1) * st.delta
                 old_data = tr.data[:index0][::-1]
                 t = time0 - np.arange(index0) * st.delta
-                new_t = -np.interp(-t, -t0, -t1, left=0, right=0)
+                new_t = -np.interp(-t, -t0, -t1, left=0, right=None)
                 data = np.interp(-t, -new_t, old_data, left=0., right=0.)
                 tr.data[:index0] = data[::-1]
             else:
-- 
2.43.0


From e2280bf4a4c282ef7e7dcc0147a2ecaa9afddd7e Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:48 +0000
Subject: [PATCH 24/52] fix: no NaNs in moveout correction if reference wave
 turns within the model

---
 rf/simple_model.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rf/simple_model.py b/rf/simple_model.py
index 3309517..04e0b03 100644
--- a/rf/simple_model.py
+++ b/rf/simple_model.py
@@ -143,7 +143,7 @@ class SimpleModel(object):
             t_ref = -t_ref
             t = -t
         try:
-            index = np.nonzero(np.isnan(t))[0][0] - 1
+            index = np.nonzero(np.isnan(t + t_ref))[0][0] - 1
         except IndexError:
             index = len(t)
         t = t[:index]
-- 
2.43.0


From fce202ce56c536e8e264fe4eb467bb8eec5e7bc1 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:37 +0000
Subject: [PATCH 25/52] fix: SimpleModel accepts lists and integers

---
 rf/simple_model.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/rf/simple_model.py b/rf/simple_model.py
index 04e0b03..2eaa478 100644
--- a/rf/simple_model.py
+++ b/rf/simple_model.py
@@ -71,6 +71,7 @@ class SimpleModel(object):
             z = _interpolate_n(z, n)
             vp = _interpolate_n(vp, n)
             vs = _interpolate_n(vs, n)
+        z, vp, vs = [np.array(val, dtype=float) for val in (z, vp, vs)]
         self.z = z[:-1]
         self.dz = np.diff(z)
         self.vp = vp[:-1]
-- 
2.43.0


From b8b78dced44da36f7d7a07bab3b92f45024a6f3b Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:25 +0000
Subject: [PATCH 26/52] fix: moveout correction within the first layer of the
 model

---
 rf/simple_model.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/rf/simple_model.py b/rf/simple_model.py
index 2eaa478..e001c1c 100644
--- a/rf/simple_model.py
+++ b/rf/simple_model.py
@@ -149,8 +149,9 @@ class SimpleModel(object):
             index = len(t)
         t = t[:index]
         t_ref = t_ref[:index]
-        return (np.hstack((-t[1:10][::-1], t)),
-                np.hstack((-t_ref[1:10][::-1], t_ref)))
+        # delay time is 0 at the surface, mirror delay times near the surface
+        return (np.hstack((-t[:10][::-1], 0, t)),
+                np.hstack((-t_ref[:10][::-1], 0, t_ref)))
 
     def moveout(self, stream, phase='Ps', ref=6.4):
         """
-- 
2.43.0


From 4b85bb553f0f0bb8522e4a5f16bd7d86636cfffd Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:15 +0000
Subject: [PATCH 27/52] fix: moveout correction to the slowness of the trace
 does not change data

---
 rf/simple_model.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/rf/simple_model.py b/rf/simple_model.py
index e001c1c..72ade5c 100644
--- a/rf/simple_model.py
+++ b/rf/simple_model.py
@@ -175,7 +175,8 @@ class SimpleModel(object):
                 time0 = st.starttime - st.onset + (index0 - 1) * st.delta
                 old_data = tr.data[:index0][::-1]
                 t = time0 - np.arange(index0) * st.delta
-                new_t = -np.interp(-t, -t0, -t1, left=0, right=None)
+                # exactly t if slowness equals reference slowness
+                new_t = np.maximum(t + np.interp(-t, -t0, t1 - t0), t1[-1])
                 data = np.interp(-t, -new_t, old_data, left=0., right=0.)
                 tr.data[:index0] = data[::-1]
             else:
@@ -185,7 +186,8 @@ class SimpleModel(object):
                 old_data = tr.data[index0:]
                 t = time0 + np.arange(len(tr) - index0) * st.delta
                 # stretch old times to new times
-                new_t = np.interp(t, t0, t1, left=0, right=None)
+                # (exactly t if slowness equals reference slowness)
+                new_t = np.minimum(t + np.interp(t, t0, t1 - t0), t1[-1])
                 # interpolate data at new times to data samples
                 data = np.interp(t, new_t, old_data, left=None, right=0.)
                 tr.data[index0:] = data
-- 
2.43.0


From 8b146edd842bb8d5a5bd1182e07faf599e252b19 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:33 +0000
Subject: [PATCH 28/52] fix: moveout correction if no data to correct is
 present

---
 rf/simple_model.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/rf/simple_model.py b/rf/simple_model.py
index 72ade5c..35a43a8 100644
--- a/rf/simple_model.py
+++ b/rf/simple_model.py
@@ -171,6 +171,8 @@ class SimpleModel(object):
                                               ref=ref)
             S_multiple = phase[0].upper() == 'S' and len(phase) > 3
             if S_multiple:
+                if index0 == 0:  # no data before onset
+                    continue
                 # the last sample in data[:index0] is the one before index0
                 time0 = st.starttime - st.onset + (index0 - 1) * st.delta
                 old_data = tr.data[:index0][::-1]
@@ -182,6 +184,8 @@ class SimpleModel(object):
             else:
                 if t0[-1] > t1[-1]:
                     index0 += 1
+                if index0 == len(tr):  # no data after onset
+                    continue
                 time0 = st.starttime - st.onset + index0 * st.delta
                 old_data = tr.data[index0:]
                 t = time0 + np.arange(len(tr) - index0) * st.delta
-- 
2.43.0


From 87ca2e309b51930b01e472f07133c1c31ed97f84 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:16 +0000
Subject: [PATCH 29/52] fix: profile boxes crossing the date line

---
 rf/profile.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/rf/profile.py b/rf/profile.py
index b4e5abf..30cea0e 100644
--- a/rf/profile.py
+++ b/rf/profile.py
@@ -23,7 +23,9 @@ def _get_box(latlon0, azimuth, length, width=_LARGE_BOX_WIDTH, offset=0):
     corners = []
     for a, d in zip(azis, dists):
         latlon = direct_geodetic(latlon, a, d)
-        corners.append(latlon[::-1])
+        # longitudes do not jump between 180 and -180 degrees within a box
+        lon = latlon[1] + 360 * round((start[1] - latlon[1]) / 360)
+        corners.append((lon, latlon[0]))
     box = {'poly': Polygon(corners),
            'length': length,
            'pos': offset + length/2,
-- 
2.43.0


From 736018e0afbc2a636ad3bd4287a2929549d38185 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:30:39 +0000
Subject: [PATCH 30/52] fix: moveout correction does not change the data of
 other streams

---
 rf/simple_model.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/rf/simple_model.py b/rf/simple_model.py
index 35a43a8..8ba4155 100644
--- a/rf/simple_model.py
+++ b/rf/simple_model.py
@@ -163,6 +163,8 @@ class SimpleModel(object):
         """
         for tr in stream:
             st = tr.stats
+            # the data array might be shared with other streams (slices)
+            tr.data = tr.data.copy()
             if not (st.starttime <= st.onset <= st.endtime):
                 msg = 'onset time is not between starttime and endtime of data'
                 raise ValueError(msg)
-- 
2.43.0


From 2239242f4aaf91bd69adb592657ab657f3816990 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:53:53 +0000
Subject: [PATCH 31/52] fix: deconvolution of integer data with a source window
 exceeding the data

---
 rf/deconvolve.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rf/deconvolve.py b/rf/deconvolve.py
index 3c064f2..538a18e 100644
--- a/rf/deconvolve.py
+++ b/rf/deconvolve.py
@@ -119,7 +119,7 @@ def deconvolve(stream, method='time', func=None,
 #        winsrc[1] = lenrsp_sec - onset_sec
     # prepare source and response list
     src = src.copy()
-    src.trim(onset + winsrc[0], onset + winsrc[1], pad=True, fill_value=0.)
+    src.trim(onset + winsrc[0], onset + winsrc[1], pad=True, fill_value=0)
     src.taper(max_percentage=None, max_length=winsrc[2])
     tshift = -winsrc[0]
     if method == 'time':
-- 
2.43.0


From 4721a70e7705fc00f1e57eef5f1a07985ae87edd Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:54:45 +0000
Subject: [PATCH 32/52] fix: receiver functions shifted by a fraction of a
 sample for source windows not starting at a sample

---
 rf/deconvolve.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/rf/deconvolve.py b/rf/deconvolve.py
index 538a18e..913b68c 100644
--- a/rf/deconvolve.py
+++ b/rf/deconvolve.py
@@ -121,7 +121,8 @@ def deconvolve(stream, method='time', func=None,
     src = src.copy()
     src.trim(onset + winsrc[0], onset + winsrc[1], pad=True, fill_value=0)
     src.taper(max_percentage=None, max_length=winsrc[2])
-    tshift = -winsrc[0]
+    # the source window starts at a sample, not exactly at onset + winsrc[0]
+    tshift = onset - src.stats.starttime
     if method == 'time':
         shift = int(round(tshift * sr - len(src) // 2))
         rsp_data = [tr.data for tr in rsp]
-- 
2.43.0


From 02516b1d5510064436288eb39ddae6b5db68e75e Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:20:18 +0000
Subject: [PATCH 33/52] fix: downsampling with frequencies or sampling rates
 which are no integers

---
 rf/rfstream.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/rf/rfstream.py b/rf/rfstream.py
index 8ae5176..ec87ed4 100644
--- a/rf/rfstream.py
+++ b/rf/rfstream.py
@@ -327,7 +327,8 @@ class RFStream(Stream):
         if downsample:
             for tr in self:
                 if downsample <= tr.stats.sampling_rate:
-                    tr.decimate(int(tr.stats.sampling_rate) // downsample)
+                    factor = tr.stats.sampling_rate / downsample
+                    tr.decimate(int(factor + 1e-6))
         if rotate:
             for stream3c in iter3c(self):
                 stream3c.rotate(rotate)
-- 
2.43.0


From 54b7f81d0beaa1a38564b8bcf2bbe365615d9fea Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:21:34 +0000
Subject: [PATCH 34/52] fix: multitaper deconvolution with a source window
 almost as long as the response

---
 rf/deconvolve.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/rf/deconvolve.py b/rf/deconvolve.py
index 913b68c..833974a 100644
--- a/rf/deconvolve.py
+++ b/rf/deconvolve.py
@@ -610,7 +610,8 @@ def deconv_multitaper(rsp, src, nse, sampling_rate, tshift, gauss=0.5,
         je = int(js + ntap)
         for k in range(K):
             bit = np.zeros(nft)
-            bit[js:je] = tap[k] # insert window taper into full-length zeros
+            # insert window taper into full-length zeros, it may exceed these
+            bit[js:je] = tap[k][:nft-js]
             bit = bit*src_pad   # window/taper the padded source trace
             bit = fft(bit)      # transform tapered bit to frequency domain
             sfft[k] = sfft[k] + bit  # sum to total freq-domain source estimate
-- 
2.43.0


From 6bc12d7af04582775c0b64136e4e8cfb83ea85d5 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:56 +0000
Subject: [PATCH 35/52] fix: phase of a record renamed by rf() if another
 record has a different phase

---
 rf/rfstream.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/rf/rfstream.py b/rf/rfstream.py
index ec87ed4..4413cdc 100644
--- a/rf/rfstream.py
+++ b/rf/rfstream.py
@@ -357,8 +357,9 @@ class RFStream(Stream):
                 tr.stats.onset = tr.stats.starttime + (tr.stats.endtime -
                                                        tr.stats.onset)
         self.type = 'rf'
-        if self.method != method:
-            self.method = method
+        for tr in self:
+            if tr.stats.get('phase', '')[-1:].upper() != method:
+                tr.stats.phase = method
         return self
 
     @_add_processing_info
-- 
2.43.0


From 36fdbac58e29c02c8a0d10fd73c1d3946e058775 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:02 +0000
Subject: [PATCH 36/52] fix: headers deleted since reading a SAC or Q file were
 written again

---
 rf/rfstream.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/rf/rfstream.py b/rf/rfstream.py
index 4413cdc..f1898e2 100644
--- a/rf/rfstream.py
+++ b/rf/rfstream.py
@@ -602,6 +602,8 @@ class RFTrace(Trace):
             try:
                 val = st[head]
             except KeyError:
+                # header might have been deleted since reading the trace
+                st[format].pop(head_format, None)
                 continue
             try:
                 convert = _HEADER_CONVERSIONS[format][head][1]
@@ -617,6 +619,9 @@ class RFTrace(Trace):
                     return np.asarray(obj).item()
                 st[format]['COMMENT'] = json.dumps(
                     comment, separators=(',', ':'), default=default)
+            elif st[format].get('COMMENT', '').startswith('{'):
+                # all headers of the comment have been deleted
+                st[format].pop('COMMENT')
 
     def _seconds2utc(self, seconds, reftime=None):
         """Return UTCDateTime given as seconds relative to reftime"""
-- 
2.43.0


From 1c26f184ad2c2af6f71c21cef935ecfb0f2d5668 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:49 +0000
Subject: [PATCH 37/52] fix: writing receiver functions without event time or
 profiles without box position to H5

---
 rf/rfstream.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/rf/rfstream.py b/rf/rfstream.py
index f1898e2..fdfd014 100644
--- a/rf/rfstream.py
+++ b/rf/rfstream.py
@@ -199,7 +199,11 @@ class RFStream(Stream):
             index = self.type
             if index is None and 'event_time' in self[0].stats:
                 index = 'rf'
-            # other stream types (e.g. harmonic) use the current index
+            # other stream types (e.g. harmonic) and streams missing a header
+            # needed for the index use the current index
+            header = {'rf': 'event_time', 'profile': 'box_pos'}.get(index)
+            if not all(header in tr.stats for tr in self):
+                index = None
             index = _H5INDEX.get(index)
             if index:
                 import obspyh5
-- 
2.43.0


From 3e54c74f97b9a4e5da5acf11eca2ad9493105b39 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:15 +0000
Subject: [PATCH 38/52] fix: channel groups whose last component has no epoch
 at origin time were skipped

---
 rf/util.py | 18 +++++++++++++++---
 1 file changed, 15 insertions(+), 3 deletions(-)

diff --git a/rf/util.py b/rf/util.py
index 45b58e8..14bc203 100644
--- a/rf/util.py
+++ b/rf/util.py
@@ -16,10 +16,22 @@ DEG2KM = 111.2  #: Conversion factor from degrees epicentral distance to km
 
 def _get_stations(inventory):
     channels = inventory.get_contents()['channels']
-    stations = {ch[:-1] + '?': ch[-1] for ch in channels}
+    stations = {}
+    for ch in channels:
+        stations.setdefault(ch[:-1] + '?', []).append(ch[-1])
     return stations
 
 
+def _get_coordinates(inventory, seedid, components, time):
+    # the components of a channel group may be in operation at different times
+    for comp in components[:-1]:
+        try:
+            return inventory.get_coordinates(seedid[:-1] + comp, time)
+        except Exception:
+            pass
+    return inventory.get_coordinates(seedid[:-1] + components[-1], time)
+
+
 def iter_event_data(events, inventory, get_waveforms, phase='P',
                     request_window=None, pad=10, pbar=None, **kwargs):
     """
@@ -62,8 +74,8 @@ def iter_event_data(events, inventory, get_waveforms, phase='P',
             pbar.update(1)
         try:
             origin = event.preferred_origin() or event.origins[0]
-            args = (seedid[:-1] + stations[seedid], origin['time'])
-            coords = inventory.get_coordinates(*args)
+            coords = _get_coordinates(inventory, seedid, stations[seedid],
+                                      origin['time'])
         except Exception:  # no origin or station not available at that time
             continue
         try:
-- 
2.43.0


From d42eb69674c0c8a8808389d6d8d41ac082109bd9 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:15 +0000
Subject: [PATCH 39/52] fix: moveout changed traces before it raised for a
 trace with onset outside of the data

---
 rf/simple_model.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/rf/simple_model.py b/rf/simple_model.py
index 8ba4155..1cf4d41 100644
--- a/rf/simple_model.py
+++ b/rf/simple_model.py
@@ -163,11 +163,13 @@ class SimpleModel(object):
         """
         for tr in stream:
             st = tr.stats
-            # the data array might be shared with other streams (slices)
-            tr.data = tr.data.copy()
             if not (st.starttime <= st.onset <= st.endtime):
                 msg = 'onset time is not between starttime and endtime of data'
                 raise ValueError(msg)
+        for tr in stream:
+            st = tr.stats
+            # the data array might be shared with other streams (slices)
+            tr.data = tr.data.copy()
             index0 = int(floor((st.onset - st.starttime) * st.sampling_rate))
             t0, t1 = self.stretch_delay_times(st.slowness, phase=phase,
                                               ref=ref)
-- 
2.43.0


From 3b7883037c40e3eb38192bd65a8377045ea70c7b Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:15 +0000
Subject: [PATCH 40/52] fix: rf() accepted the methods '' and 'PS'

---
 rf/rfstream.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rf/rfstream.py b/rf/rfstream.py
index fdfd014..9e67048 100644
--- a/rf/rfstream.py
+++ b/rf/rfstream.py
@@ -319,7 +319,7 @@ class RFStream(Stream):
 
         if method is None:
             method = self.method
-        if method is None or method not in 'PS':
+        if method not in ('P', 'S'):
             msg = "method must be one of 'P', 'S', but is '%s'"
             raise ValueError(msg % method)
         if source_components is None:
-- 
2.43.0


From 76628d495c702e74aab9c14bc5264d57be6a768b Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:13 +0000
Subject: [PATCH 41/52] fix: rf() changed the stream before it raised for an
 unknown deconvolution method

---
 rf/deconvolve.py | 5 ++++-
 rf/rfstream.py   | 4 +++-
 2 files changed, 7 insertions(+), 2 deletions(-)

diff --git a/rf/deconvolve.py b/rf/deconvolve.py
index 833974a..d18ac88 100644
--- a/rf/deconvolve.py
+++ b/rf/deconvolve.py
@@ -9,6 +9,9 @@ from scipy.fftpack import fft, ifft, next_fast_len
 from scipy.signal import correlate, detrend
 from rf.util import _add_processing_info
 
+# 'freq' is an alias for 'waterlevel'
+METHODS = ('time', 'waterlevel', 'freq', 'iterative', 'multitaper', 'func')
+
 
 def __find_nearest(array, value):
     """http://stackoverflow.com/a/26026189"""
@@ -74,7 +77,7 @@ def deconvolve(stream, method='time', func=None,
     """
     if method == 'freq':
         method = 'waterlevel'
-    if method not in ('time', 'waterlevel', 'iterative', 'multitaper', 'func'):
+    if method not in METHODS:
         raise NotImplementedError()
     # identify source and response components
     src = [tr for tr in stream if tr.stats.channel[-1] in source_components]
diff --git a/rf/rfstream.py b/rf/rfstream.py
index 9e67048..35d42a2 100644
--- a/rf/rfstream.py
+++ b/rf/rfstream.py
@@ -14,7 +14,7 @@ from obspy import read, Stream, Trace
 from obspy.core import AttribDict
 from obspy.geodetics import gps2dist_azimuth
 from obspy.taup import TauPyModel
-from rf.deconvolve import deconvolve
+from rf.deconvolve import METHODS as DECONV_METHODS, deconvolve
 from rf.harmonics import harmonics
 from rf.simple_model import load_model
 from rf.util import DEG2KM, IterMultipleComponents, _add_processing_info
@@ -322,6 +322,8 @@ class RFStream(Stream):
         if method not in ('P', 'S'):
             msg = "method must be one of 'P', 'S', but is '%s'"
             raise ValueError(msg % method)
+        if deconvolve and deconvolve not in DECONV_METHODS:
+            raise NotImplementedError('Unknown deconvolution %s' % deconvolve)
         if source_components is None:
             source_components = 'LZ' if method == 'P' else 'QR'
         if filter:
-- 
2.43.0


From 344f87fb7186969bdf595da5e12b000349eb9e49 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:13 +0000
Subject: [PATCH 42/52] fix: rfstats accepted the phases '' and 'PS' with the
 default distance range

---
 rf/rfstream.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rf/rfstream.py b/rf/rfstream.py
index 35d42a2..7db391a 100644
--- a/rf/rfstream.py
+++ b/rf/rfstream.py
@@ -715,7 +715,7 @@ def rfstats(obj=None, event=None, station=None,
                 traces.append(tr)
         stream.traces = traces
         return stream
-    if dist_range == 'default' and phase.upper() in 'PS':
+    if dist_range == 'default' and phase.upper() in ('P', 'S'):
         dist_range = (30, 90) if phase.upper() == 'P' else (50, 85)
     elif dist_range == 'default':
         raise ValueError('Please specify dist_range parameter')
-- 
2.43.0


From ec20dd0e99a434cdf0b6480eb0e90b3ed271d8f7 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:21:24 +0000
Subject: [PATCH 43/52] fix: batch commands lost records with an event time
 rounded by the SAC or Q format

---
 rf/batch.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/rf/batch.py b/rf/batch.py
index 5e3a3cd..5e7fb03 100644
--- a/rf/batch.py
+++ b/rf/batch.py
@@ -98,6 +98,7 @@ def iter_event_processed_data(events, inventory, pin, format,
                               yield_traces=False, pbar=None):
     """Iterator yielding streams or traces which are read from disc."""
     for meta in iter_event_metadata(events, inventory, pbar=pbar):
+        event_time = meta.get('event_time')
         meta['channel'] = '???'
         if 'event_time' not in meta and format != 'H5':
             meta['event_time'] = _DummyUTC()
@@ -111,6 +112,11 @@ def iter_event_processed_data(events, inventory, pin, format,
         except Exception:
             pass
         else:
+            # Q and SAC store times with limited precision, but the event time
+            # is part of the file names
+            if event_time is not None and format != 'H5':
+                for tr in stream:
+                    tr.stats.event_time = event_time
             if yield_traces:
                 for tr in stream:
                     yield tr
-- 
2.43.0


From 12cc59681560c975236009057884e9607a2af704 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:21:49 +0000
Subject: [PATCH 44/52] fix: batch commands read and used channel groups of the
 same location more than once

---
 rf/batch.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/rf/batch.py b/rf/batch.py
index 5e7fb03..a0c54b9 100644
--- a/rf/batch.py
+++ b/rf/batch.py
@@ -97,8 +97,15 @@ def write(stream, root, format, type=None):
 def iter_event_processed_data(events, inventory, pin, format,
                               yield_traces=False, pbar=None):
     """Iterator yielding streams or traces which are read from disc."""
+    records = set()
     for meta in iter_event_metadata(events, inventory, pbar=pbar):
         event_time = meta.get('event_time')
+        # channel groups of the same location are read together
+        record = (meta['network'], meta['station'], meta['location'],
+                  str(event_time))
+        if record in records:
+            continue
+        records.add(record)
         meta['channel'] = '???'
         if 'event_time' not in meta and format != 'H5':
             meta['event_time'] = _DummyUTC()
-- 
2.43.0


From 284d659a21b6e1d0aa28156423fab7e3690703ba Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:21:59 +0000
Subject: [PATCH 45/52] fix: repeating the batch stack command duplicated the
 stacks in a H5 file

---
 rf/batch.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/rf/batch.py b/rf/batch.py
index a0c54b9..81b02b8 100644
--- a/rf/batch.py
+++ b/rf/batch.py
@@ -47,6 +47,7 @@ PROFILE_FNAMES = {
     'Q': '{root}.QHD',
     'SAC': join('{root}', 'profile_{channel[2]}_{box_pos}.SAC'),
     'H5': '{root}.h5'}
+STACK_H5INDEX = 'waveforms/{network}.{station}.{location}/{channel}'
 PLOT_FNAMES = join('{root}', '{network}.{station}.{location}.{channel}.pdf')
 PLOT_PROFILE_FNAMES = join('{root}', 'profile_{channel[2]}.pdf')
 
@@ -85,6 +86,11 @@ def write(stream, root, format, type=None):
     fname = fname_pattern.format(root=root, **stream[0].stats)
     _create_dir(fname)
     if format == 'H5':
+        if type == 'stack' and not os.path.exists(fname):
+            # file can be read by station and can be updated
+            import h5py
+            with h5py.File(fname, 'w') as f:
+                f.attrs['index'] = STACK_H5INDEX
         stream.write(fname, format, mode='a', ignore=('mseed',))
     elif format == 'Q':
         stream.write(fname, format)
-- 
2.43.0


From 60e04d4c574ffabf3a3dc4c25d6d5955d916fff2 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:53:06 +0000
Subject: [PATCH 46/52] fix: # within strings of the batch configuration file
 was taken for a comment

---
 rf/batch.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/rf/batch.py b/rf/batch.py
index 81b02b8..2ddecac 100644
--- a/rf/batch.py
+++ b/rf/batch.py
@@ -10,6 +10,7 @@ import json
 import os
 from os.path import join
 from pkg_resources import resource_filename
+import re
 import shutil
 import sys
 
@@ -199,7 +200,10 @@ class ConfigJSONDecoder(json.JSONDecoder):
     """Strip lines from comments."""
 
     def decode(self, s):
-        s = '\n'.join(l.split('#', 1)[0] for l in s.split('\n'))
+        # strings (first alternative) might contain the comment character
+        s = '\n'.join(re.sub(r'("(?:\\.|[^"\\])*")|#.*',
+                             lambda m: m.group(1) or '', l)
+                      for l in s.split('\n'))
         return super(ConfigJSONDecoder, self).decode(s)
 
 
-- 
2.43.0


From 9a73b27b3bedd1a6b92eb2c8483cf824775e5aae Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:53:06 +0000
Subject: [PATCH 47/52] fix: run_commands changed the option dictionaries of
 the caller

---
 rf/batch.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/rf/batch.py b/rf/batch.py
index 2ddecac..348d3cc 100644
--- a/rf/batch.py
+++ b/rf/batch.py
@@ -270,6 +270,9 @@ def run_commands(command, commands=(), events=None, inventory=None,
         d = kw.setdefault(opt, default)
         if isinstance(d, basestring):
             kw[opt] = json.loads(d)
+        elif isinstance(d, dict):
+            # do not change the objects of the caller
+            kw[opt] = d.copy()
     if phase is not None:
         kw['options']['phase'] = phase
     if moveout_phase is not None:
-- 
2.43.0


From a1fe69f064b3b818592c26c2d5d6bb08c5bba891 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:18:19 +0000
Subject: [PATCH 48/52] fix: histogram above the profile was displaced by half
 a box

---
 rf/imaging.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rf/imaging.py b/rf/imaging.py
index 3e45b8e..ece0c54 100644
--- a/rf/imaging.py
+++ b/rf/imaging.py
@@ -365,7 +365,7 @@ def plot_profile(profile, fname=None, figsize=None, dpi=None,
     if top == 'hist':
         left = [tr.stats.box_pos - tr.stats.box_length / 2 for tr in profile]
         height = [tr.stats.num for tr in profile]
-        ax3.bar(left, height, widths, color='cadetblue')
+        ax3.bar(left, height, widths, align='edge', color='cadetblue')
         plt.setp(ax3.get_xticklabels(), visible=False)
         ax3.spines['top'].set_color('none')
         ax3.spines['right'].set_color('none')
-- 
2.43.0


From 9b9571c9925a2ef881240438a4082f6e2c65f8e1 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:18:19 +0000
Subject: [PATCH 49/52] fix: plot_rf raised for show_vlines without show_traces

---
 rf/imaging.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rf/imaging.py b/rf/imaging.py
index ece0c54..d404785 100644
--- a/rf/imaging.py
+++ b/rf/imaging.py
@@ -136,6 +136,7 @@ def plot_rf(stream, fname=None, fig_width=7., trace_height=0.5,
                 for l in ax.get_xticklabels():
                     l.set_fontsize('small')
             ax.xaxis.set_minor_locator(AutoMinorLocator())
+    aligner_color = "#a0a0a080"
     if show_traces:
         # set x and y limits
         ax1.set_xlim(*xlim)
@@ -143,7 +144,6 @@ def plot_rf(stream, fname=None, fig_width=7., trace_height=0.5,
         ax1.set_yticklabels('')
         ax1.set_xlabel('time (s)')
         ax1.xaxis.set_minor_locator(AutoMinorLocator())
-        aligner_color = "#a0a0a080"
         if show_vlines:
             ax1.xaxis.grid(True, color=aligner_color, linestyle=':')
 
-- 
2.43.0


From 3eb17695f55906c06ce99d6468424ee3e50c1e2d Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:18:27 +0000
Subject: [PATCH 50/52] fix: traces without signal were not drawn

---
 rf/imaging.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/rf/imaging.py b/rf/imaging.py
index d404785..62b6037 100644
--- a/rf/imaging.py
+++ b/rf/imaging.py
@@ -113,14 +113,14 @@ def plot_rf(stream, fname=None, fig_width=7., trace_height=0.5,
         ax.plot(t, d + i, 'k')
     xlim = (0, 0)
     max_ = max(np.max(np.abs(tr.data))
-               for tr in stream)  # for scaling, if not trace_scale
+               for tr in stream) or 1  # for scaling, if not trace_scale
     for i, tr in enumerate(stream):
         times = tr.times(reftime=tr.stats.onset)
         xlim = (min(xlim[0], times[0]), max(xlim[1], times[-1]))
         if show_traces:
             # scale trace by trace (otherwise, we scale by global trace max)
             if trace_scale:
-                max_ = max(np.abs(tr.data))
+                max_ = max(np.abs(tr.data)) or 1
             _plot(ax1, times, tr.data / max_ * scale_factor, i + 1)
     # plot right axes with header information
     if info:
@@ -318,7 +318,7 @@ def plot_profile(profile, fname=None, figsize=None, dpi=None,
     pad = max(1, scale) * min(widths)
     xlim = (min(tr.stats.box_pos for tr in profile) - pad,
             max(tr.stats.box_pos for tr in profile) + pad)
-    max_ = max(np.max(np.abs(tr.data)) for tr in profile)
+    max_ = max(np.max(np.abs(tr.data)) for tr in profile) or 1
     for tr in profile:
         x = tr.stats.box_pos + scale * tr.data / max_ * min(widths)
         y = tr.times() - (tr.stats.onset - tr.stats.starttime)
@@ -445,13 +445,13 @@ def plot_harmonics(hd, hd2=None, fillcolors=('b', 'r'), trim=None):
         tr = mod[i]
         t = tr.times(reftime=tr.stats.onset)
         j = 4 - int(tr.stats['channel'])
-        wiggle = tr.data/ref0
+        wiggle = tr.data/(ref0 or 1)
         _plot(ax_mod, t, wiggle, j)
         if len(unmod) > 0:
             tr = unmod[i]
             t = tr.times(reftime=tr.stats.onset)
             j = 4 - int(tr.stats['channel'])
-            wiggle = tr.data/ref1
+            wiggle = tr.data/(ref1 or 1)
             _plot(ax_unmod, t, wiggle, j)
 
     ax_mod.set_title('anisotropy/dip %s' % mod[0].stats.components)
-- 
2.43.0


From f70949e61f9a7de4a8b4873cc2e4f08029d72960 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:37:06 +0000
Subject: [PATCH 51/52] fix: profile plot cut off traces with a larger time
 range than the last one

---
 rf/imaging.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/rf/imaging.py b/rf/imaging.py
index 62b6037..deeb38a 100644
--- a/rf/imaging.py
+++ b/rf/imaging.py
@@ -319,9 +319,11 @@ def plot_profile(profile, fname=None, figsize=None, dpi=None,
     xlim = (min(tr.stats.box_pos for tr in profile) - pad,
             max(tr.stats.box_pos for tr in profile) + pad)
     max_ = max(np.max(np.abs(tr.data)) for tr in profile) or 1
+    times = []
     for tr in profile:
         x = tr.stats.box_pos + scale * tr.data / max_ * min(widths)
         y = tr.times() - (tr.stats.onset - tr.stats.starttime)
+        times.extend((y[0], y[-1]))
         ax.plot(x, y, 'k')
         c1, c2 = fillcolors
         if c1:
@@ -331,7 +333,7 @@ def plot_profile(profile, fname=None, figsize=None, dpi=None,
             ax.fill_betweenx(y, x, tr.stats.box_pos,
                              where=x < tr.stats.box_pos, facecolor=c2)
     ax.set_xlabel('distance (km)')
-    ax.set_ylim(max(y), min(y))
+    ax.set_ylim(max(times), min(times))
     ax.set_ylabel('time (s)')
     if moveout_model:
         from rf.simple_model import load_model
-- 
2.43.0


From 19e602fd7f75200eca75cdd8c445ff5b03bcf68c Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:05:32 +0000
Subject: [PATCH 52/52] fix: batch print command raised for a list of events

---
 rf/batch.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rf/batch.py b/rf/batch.py
index 348d3cc..215ac0b 100644
--- a/rf/batch.py
+++ b/rf/batch.py
@@ -321,7 +321,7 @@ def run_commands(command, commands=(), events=None, inventory=None,
     # Print command
     if command == 'print':
         if objects[0] == 'events':
-            print(events.__str__(True))
+            print(obspy.Catalog(list(events)).__str__(True))
         elif objects[0] == 'stations':
             print(inventory)
         else:
-- 
2.43.0

