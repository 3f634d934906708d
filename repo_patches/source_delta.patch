From 7a305cd5bc7b15856c8d21a3b427d66a157e5086 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:59 +0000
Subject: [PATCH 01/59] fix: count time-addressed segments from the configured
 start number

---
 dashlivesim/dashlib/dash_proxy.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/dashlivesim/dashlib/dash_proxy.py b/dashlivesim/dashlib/dash_proxy.py
index 4b354a0..1b1e695 100644
--- a/dashlivesim/dashlib/dash_proxy.py
+++ b/dashlivesim/dashlib/dash_proxy.py
@@ -230,7 +230,8 @@ def process_media_segment(dashProv, now_float, chunk):
     timescale = get_timescale(cfg)
     if seg_base[0] == 't':
         # TODO. Make a more accurate test here that the timestamp is a correct one
-        seg_nr = int(round(float(seg_base[1:]) / seg_dur / timescale))
+        first_nr = 1 if cfg.start_nr == -1 else cfg.start_nr  # The number at media time 0
+        seg_nr = first_nr + int(round(float(seg_base[1:]) / seg_dur / timescale))
     else:
         seg_nr = int(seg_base)
     seg_start_nr = cfg.start_nr == -1 and 1 or cfg.adjusted_start_number
-- 
2.43.0


From 9ee8bc171092c55fff0447ce832b7ca3bb4f7eb0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:01 +0000
Subject: [PATCH 02/59] fix: no trailing T in a duration of whole days

---
 dashlivesim/dashlib/timeformatconversions.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/dashlivesim/dashlib/timeformatconversions.py b/dashlivesim/dashlib/timeformatconversions.py
index e63815c..a362faa 100644
--- a/dashlivesim/dashlib/timeformatconversions.py
+++ b/dashlivesim/dashlib/timeformatconversions.py
@@ -62,6 +62,8 @@ def seconds_to_iso_duration(nr_secs):
     period = "P"
     if days > 0:
         period += "%dD" % days
+    if days > 0 and rest == 0 and hours == 0:
+        return period  # Only days. A trailing T is not allowed in an xs:duration
     period += "T"
     if hours > 0:
         period += "%dH" % hours
-- 
2.43.0


From 17187d4501e0c2877d9709fba333c06c29daa216 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:28 +0000
Subject: [PATCH 03/59] fix: pace chunks relative to the wall-clock start of
 the segment

---
 dashlivesim/dashlib/dash_proxy.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/dashlivesim/dashlib/dash_proxy.py b/dashlivesim/dashlib/dash_proxy.py
index 1b1e695..9b63acc 100644
--- a/dashlivesim/dashlib/dash_proxy.py
+++ b/dashlivesim/dashlib/dash_proxy.py
@@ -273,11 +273,11 @@ def process_media_segment(dashProv, now_float, chunk):
             trex_data = get_trex_data(dashProv, rel_path)
             seg_content = filter_media_segment(dashProv, cfg.reps[0], rel_path, vod_nr, seg_nr, seg_ext,
                                                offset_at_loop_start, lmsg, trex_data)
-            # Here we shall return seg_time (when the segment start to be produced)
-            # and then each chunk should be delivered at seg_time + (i+1) * chunk_dur
+            # Here we shall return the wall-clock time when the segment starts to be produced
+            # and then each chunk should be delivered at that time + (i+1) * chunk_dur
             dur = int(cfg.chunk_duration_in_s * cfg.reps[0]['timescale'])
             chunks = [chk for chk in chunker.chunk(seg_content, dur, trex_data)]
-            return ChunkedSegment(seg_time, chunks)
+            return ChunkedSegment(seg_ast - seg_dur, chunks)
         else:
             seg_content = filter_media_segment(dashProv, cfg.reps[0], rel_path, vod_nr, seg_nr, seg_ext,
                                                offset_at_loop_start, lmsg)
-- 
2.43.0


From dfaed49f7953f1a69062d711bf12e4ef9c093db0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:45 +0000
Subject: [PATCH 04/59] fix: thumbnails follow the timing rules of media
 segments and report errors as such

---
 dashlivesim/dashlib/dash_proxy.py | 23 ++++++++++++++---------
 1 file changed, 14 insertions(+), 9 deletions(-)

diff --git a/dashlivesim/dashlib/dash_proxy.py b/dashlivesim/dashlib/dash_proxy.py
index 9b63acc..94b48e7 100644
--- a/dashlivesim/dashlib/dash_proxy.py
+++ b/dashlivesim/dashlib/dash_proxy.py
@@ -348,16 +348,20 @@ def process_thumbnail(dashProv, now_float):
     timescale = get_timescale(cfg)
     if seg_base[0] == 't':
         # TODO. Make a more accurate test here that the timestamp is a correct one
-        seg_nr = int(round(float(seg_base[1:]) / seg_dur / timescale))
+        first_nr = 1 if cfg.start_nr == -1 else cfg.start_nr  # The number at media time 0
+        seg_nr = first_nr + int(round(float(seg_base[1:]) / seg_dur / timescale))
     else:
         seg_nr = int(seg_base)
-    seg_start_nr = cfg.start_nr == -1 and 1 or cfg.start_nr
+    seg_start_nr = cfg.start_nr == -1 and 1 or cfg.adjusted_start_number
     if seg_nr < seg_start_nr:
-        return error_response("Request for segment %d before first %d" % (seg_nr, seg_start_nr))
+        return error_response(dashProv, "Request for segment %d before first %d" % (seg_nr, seg_start_nr))
+    stop_number = cfg.stop_number
+    if stop_number and seg_nr >= stop_number:
+        return error_response(dashProv, "Beyond last segment %d" % stop_number)
     if len(cfg.last_segment_numbers) > 0:
         very_last_segment = cfg.last_segment_numbers[-1]
         if seg_nr > very_last_segment:
-            return error_response("Request for segment %d beyond last (%d)" % (seg_nr, very_last_segment))
+            return error_response(dashProv, "Request for segment %d beyond last (%d)" % (seg_nr, very_last_segment))
     # lmsg = seg_nr in cfg.last_segment_numbers
     # print cfg.last_segment_numbers
     seg_time = (seg_nr - seg_start_nr) * seg_dur + cfg.availability_start_time_in_s
@@ -365,14 +369,15 @@ def process_thumbnail(dashProv, now_float):
 
     if cfg.availability_time_offset_in_s != -1:  # -1 is infinity
         if now_float < seg_ast - cfg.availability_time_offset_in_s:
-            return error_response("Request for %s was %.1fs too early" % (seg_name, seg_ast - now_float))
-        if (now_float > seg_ast + seg_dur + cfg.timeshift_buffer_depth_in_s):
+            return error_response(dashProv, "Request for %s was %.1fs too early" % (seg_name, seg_ast - now_float))
+        # If stop_number is not None, the manifest will become static
+        if ((now_float > seg_ast + seg_dur + cfg.timeshift_buffer_depth_in_s) and not stop_number):
             diff = now_float - (seg_ast + seg_dur + cfg.timeshift_buffer_depth_in_s)
-            return error_response("Request for %s was %.1fs too late" % (seg_name, diff))
+            return error_response(dashProv, "Request for %s was %.1fs too late" % (seg_name, diff))
 
-    time_since_ast = seg_time - cfg.availability_start_time_in_s
+    media_time = seg_time - cfg.availability_start_time_in_s + cfg.adjusted_pto(0, 1)
     loop_duration = cfg.seg_duration * cfg.vod_nr_segments_in_loop
-    nr_loops_done, time_in_loop = divmod(time_since_ast, loop_duration)
+    nr_loops_done, time_in_loop = divmod(media_time, loop_duration)
     seg_nr_in_loop = time_in_loop // seg_dur
     vod_nr = seg_nr_in_loop + cfg.vod_first_segment_in_loop
     assert 0 <= vod_nr - cfg.vod_first_segment_in_loop < cfg.vod_nr_segments_in_loop
-- 
2.43.0


From ccb7727343995e75a3eb9964971d87ea1f381f42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:55 +0000
Subject: [PATCH 05/59] fix: byte ranges that are malformed, multiple or longer
 than the payload

---
 dashlivesim/mod_wsgi/mod_dashlivesim.py | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/dashlivesim/mod_wsgi/mod_dashlivesim.py b/dashlivesim/mod_wsgi/mod_dashlivesim.py
index de91a39..b54a812 100644
--- a/dashlivesim/mod_wsgi/mod_dashlivesim.py
+++ b/dashlivesim/mod_wsgi/mod_dashlivesim.py
@@ -32,6 +32,7 @@
 # Note that VOD_CONF_DIR and CONTENT_ROOT directories must be set in environment
 # For Apache mod_wsgi, this is done using setEnv
 
+import re
 import traceback
 from os.path import splitext
 from urllib.parse import urlparse, parse_qs
@@ -245,14 +246,16 @@ def handle_byte_range(payload, range_line):
     range_parts = range_line.split("=")[-1]
     ranges = range_parts.split(",")
     if len(ranges) > 1:
-        return (payload, None)
+        return (payload, "")
     length = len(payload)
-    range_interval = ranges[0]
-    range_start, range_end = range_interval.split("-")
+    match = re.match(r"^\s*(\d*)\s*-\s*(\d*)\s*$", ranges[0])
+    if match is None:
+        return (payload, "")
+    range_start, range_end = match.groups()
     bad_range = False
     if range_start == "" and range_end != "":
         # This is the rangeStart lasts bytes
-        range_start = length - int(range_end)
+        range_start = max(length - int(range_end), 0)
         range_end = length - 1
     elif range_start != "":
         range_start = int(range_start)
@@ -261,7 +264,7 @@ def handle_byte_range(payload, range_line):
         else:
             range_end = length-1
     else:
-        bad_range = True
+        return (payload, "")
     if range_end < range_start:
         bad_range = True
     if bad_range:
-- 
2.43.0


From 43b2b03b890705f286d2955da451ac37199b520e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:17:30 +0000
Subject: [PATCH 06/59] fix: SegmentTimeline of a window that spans the end of
 the content loop

---
 dashlivesim/dashlib/segtimeline.py | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/dashlivesim/dashlib/segtimeline.py b/dashlivesim/dashlib/segtimeline.py
index cf7640b..12ef078 100644
--- a/dashlivesim/dashlib/segtimeline.py
+++ b/dashlivesim/dashlib/segtimeline.py
@@ -119,7 +119,7 @@ class SegmentTimeLineGenerator(object):
         while repeat_index != start_index or nr_wraps != start_wraps:
             seg_data = self.segtimedata[repeat_index]
             # print(repeat_index, start_index, nr_wraps, start_wraps)
-            if repeat_index == end_index:
+            if repeat_index == end_index and nr_wraps == end_wraps:
                 s_elem = self.generate_s_elem(None, seg_data.duration, end_repeats)
             else:
                 s_elem = self.generate_s_elem(None, seg_data.duration, seg_data.repeats)
@@ -131,11 +131,8 @@ class SegmentTimeLineGenerator(object):
         # Now at first entry corresponding to start_index and start_wraps
         seg_data = self.segtimedata[start_index]
         seg_start_time = self.get_seg_starttime(nr_wraps, start_index, start_repeats)
-        if start_index != end_index:
+        if start_index != end_index or start_wraps != end_wraps:
             nr_repeats = seg_data.repeats - start_repeats
-        elif len(self.segtimedata) == 1 and end_repeats < start_repeats:
-            nr_repeats = (self.segtimedata[0].repeats + end_repeats -
-                          start_repeats)
         else:  # There was only one entry which was repeated
             nr_repeats = end_repeats - start_repeats
         s_elem = self.generate_s_elem(seg_start_time, seg_data.duration, nr_repeats)
-- 
2.43.0


From 3c145055d8ceb60023999f5dfde4a64ff82b9765 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:17:32 +0000
Subject: [PATCH 07/59] fix: empty SegmentTimeline before the first segment is
 complete

---
 dashlivesim/dashlib/segtimeline.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dashlivesim/dashlib/segtimeline.py b/dashlivesim/dashlib/segtimeline.py
index 12ef078..d493258 100644
--- a/dashlivesim/dashlib/segtimeline.py
+++ b/dashlivesim/dashlib/segtimeline.py
@@ -96,7 +96,7 @@ class SegmentTimeLineGenerator(object):
                 end_index = len(self.segtimedata) - 1
                 end_repeats = self.segtimedata[end_index].repeats
                 if (end_wraps < 0):
-                    return (None, None, None)
+                    return seg_timeline  # No segment is complete yet
             end_tics = self.get_seg_endtime(end_wraps, end_index, end_repeats)
 
         # print "end_time2 %d %d %d" % (end, end_tics, (end-end_tics)/(self.timescale*1.0))
-- 
2.43.0


From 92a492f70be3bc030fb3dbbeb1fadc71807293b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:17:35 +0000
Subject: [PATCH 08/59] fix: SegmentTimeline window starts with the segment
 that starts at its start

---
 dashlivesim/dashlib/segtimeline.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dashlivesim/dashlib/segtimeline.py b/dashlivesim/dashlib/segtimeline.py
index d493258..c35ac2f 100644
--- a/dashlivesim/dashlib/segtimeline.py
+++ b/dashlivesim/dashlib/segtimeline.py
@@ -166,7 +166,7 @@ class SegmentTimeLineGenerator(object):
         seg_data = self.segtimedata[index]
         repeats = 0
         accumulated_end_time = seg_data.start_time + seg_data.duration
-        while accumulated_end_time < rel_time:
+        while accumulated_end_time <= rel_time:
             accumulated_end_time += seg_data.duration
             repeats += 1
         return index, repeats, nr_wraps
-- 
2.43.0


From 1d6e79e3ecf947a61d177b3a7acc7aa5792b9984 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:17:37 +0000
Subject: [PATCH 09/59] fix: the closest start after the last repeat is the
 first segment of the next entry

---
 dashlivesim/dashlib/segtimeline.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dashlivesim/dashlib/segtimeline.py b/dashlivesim/dashlib/segtimeline.py
index c35ac2f..159d36a 100644
--- a/dashlivesim/dashlib/segtimeline.py
+++ b/dashlivesim/dashlib/segtimeline.py
@@ -193,7 +193,7 @@ class SegmentTimeLineGenerator(object):
         if index >= len(self.interval_starts):
             index = 0
             nr_wraps += 1
-        return index, self.segtimedata[index].repeats, nr_wraps
+        return index, 0, nr_wraps
 
     def find_closest_end(self, act_time):
         "Find "
-- 
2.43.0


From 440a82ddd8c4d5fcd23b4daab99af1a50b500193 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:17:55 +0000
Subject: [PATCH 10/59] fix: no invalid startNumber for an empty numbered
 SegmentTimeline

---
 dashlivesim/dashlib/mpdprocessor.py | 2 +-
 dashlivesim/dashlib/segtimeline.py  | 1 +
 2 files changed, 2 insertions(+), 1 deletion(-)

diff --git a/dashlivesim/dashlib/mpdprocessor.py b/dashlivesim/dashlib/mpdprocessor.py
index a6bfa36..e995b35 100644
--- a/dashlivesim/dashlib/mpdprocessor.py
+++ b/dashlivesim/dashlib/mpdprocessor.py
@@ -396,7 +396,7 @@ class MpdProcessor(object):
                         if self.segtimeline:
                             media_template = media_template.replace('$Number$', 't$Time$')
                             remove_attribs(seg_template, ['startNumber'])
-                        elif self.segtimeline_nr:
+                        elif self.segtimeline_nr and segtime_gen.start_number is not None:
                             # Set number to the first number listed
                             set_attribs(seg_template,
                                         ('startNumber',),
diff --git a/dashlivesim/dashlib/segtimeline.py b/dashlivesim/dashlib/segtimeline.py
index 159d36a..86b9089 100644
--- a/dashlivesim/dashlib/segtimeline.py
+++ b/dashlivesim/dashlib/segtimeline.py
@@ -72,6 +72,7 @@ class SegmentTimeLineGenerator(object):
         seg_timeline = ElementTree.Element(add_ns('SegmentTimeline'))
         seg_timeline.text = "\n"
         seg_timeline.tail = "\n"
+        self.start_number = None  # No number for an empty timeline
 
         start = start_time * self.timescale
         end = end_time * self.timescale
-- 
2.43.0


From efc0f01c0b6d6e368d5f5bb1d1c77fa816e77794 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:17:58 +0000
Subject: [PATCH 11/59] fix: numbered SegmentTimeline starts from the
 configured start number

---
 dashlivesim/dashlib/segtimeline.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/dashlivesim/dashlib/segtimeline.py b/dashlivesim/dashlib/segtimeline.py
index 86b9089..a2ddae8 100644
--- a/dashlivesim/dashlib/segtimeline.py
+++ b/dashlivesim/dashlib/segtimeline.py
@@ -150,8 +150,9 @@ class SegmentTimeLineGenerator(object):
     def get_seg_number(self, nr_wraps, index, repeats):
         "Get the segment number given repeats."
         seg_data = self.segtimedata[index]
+        first_nr = 1 if self.cfg.start_nr == -1 else self.cfg.start_nr  # The number at media time 0
         return (nr_wraps*self.nr_segments_per_wrap + seg_data.start_nr +
-                repeats - self.first_segment_number)
+                repeats - self.first_segment_number + first_nr)
 
     def get_seg_endtime(self, nr_wraps, index, repeats):
         "Get the end of a segment."
-- 
2.43.0


From c914d43595134775d81cf6883325b542bd9a60b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:18:00 +0000
Subject: [PATCH 12/59] fix: SegmentTimeline lists the media times that are
 served, for any stop and timeoffset

---
 dashlivesim/dashlib/mpdprocessor.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/dashlivesim/dashlib/mpdprocessor.py b/dashlivesim/dashlib/mpdprocessor.py
index e995b35..ade220a 100644
--- a/dashlivesim/dashlib/mpdprocessor.py
+++ b/dashlivesim/dashlib/mpdprocessor.py
@@ -380,10 +380,13 @@ class MpdProcessor(object):
                         start_time -= self.cfg.availability_start_time_in_s
                         end_time -= self.cfg.availability_start_time_in_s
                         use_closest = False
-                        if self.cfg.stop_time and self.cfg.timeoffset == 0:
-                            start_time = self.cfg.start_time
-                            end_time = min(now, self.cfg.stop_time)
+                        if self.cfg.stop_time:  # All segments of the session are listed, but none after the stop
+                            start_time = pdata['start_s']
+                            end_time = min(end_time, self.cfg.stop_time - ast)
                             use_closest = True
+                        # From time since start of the session to media time
+                        start_time += self.cfg.adjusted_pto(0, 1)
+                        end_time += self.cfg.adjusted_pto(0, 1)
                         seg_timeline = segtime_gen.create_segtimeline(
                             start_time, end_time, use_closest)
                         remove_attribs(seg_template, ['duration'])
-- 
2.43.0


From 20cfb8f21e7efe4069726e6c317f61ade631569e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:18:49 +0000
Subject: [PATCH 13/59] fix: multiple periods relative to the availability
 start, start number and time offset of the session

---
 dashlivesim/dashlib/mpd_proxy.py | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/dashlivesim/dashlib/mpd_proxy.py b/dashlivesim/dashlib/mpd_proxy.py
index 4d9c43e..64b5f21 100644
--- a/dashlivesim/dashlib/mpd_proxy.py
+++ b/dashlivesim/dashlib/mpd_proxy.py
@@ -208,6 +208,8 @@ def generate_period_data(mpd_data, now, cfg):
 
     seg_dur = mpd_data['segDuration']
     period_data = []
+    now -= cfg.availability_start_time_in_s  # Period@start is relative to AST
+    first_number = 1 if cfg.start_nr == -1 else mpd_data['startNumber']  # The number at AST
     ad_frequency = -1
     if mpd_data['insertAd'] > 0:
         ad_frequency = nr_periods_per_hour // mpd_data['xlinkPeriodsPerHour']
@@ -221,8 +223,9 @@ def generate_period_data(mpd_data, now, cfg):
         period_data.append(data)
     elif nr_periods_per_hour == 0:  # nrPeriodsPerHour == 0, make one old period but starting 1000h after AST
         start = 3600 * 1000
-        data = {'id': "p0", 'start': 'PT%dS' % start, 'startNumber': "%d" % (start // seg_dur),
-                'duration': seg_dur, 'presentationTimeOffset': "%d" % start, 'start_s': start}
+        data = {'id': "p0", 'start': 'PT%dS' % start, 'startNumber': "%d" % (first_number + start // seg_dur),
+                'duration': seg_dur, 'presentationTimeOffset': "%d" % (mpd_data['presentationTimeOffset'] + start),
+                'start_s': start}
         period_data.append(data)
     else:  # nr_periods_per_hour > 0
         period_duration = 3600 // nr_periods_per_hour
@@ -233,15 +236,15 @@ def generate_period_data(mpd_data, now, cfg):
         minimum_update_period = "PT%dS" % minimum_update_period_s
         mpd_data['minimumUpdatePeriod'] = minimum_update_period
         # this_period_nr = now // period_duration
-        last_period_nr = (now + half_period_duration) // period_duration
+        last_period_nr = max(0, (now + half_period_duration) // period_duration)
         # this_period_start = this_period_nr * period_duration
-        first_period_nr = (now - mpd_data['timeShiftBufferDepthInS'] - seg_dur) // period_duration
+        first_period_nr = max(0, (now - mpd_data['timeShiftBufferDepthInS'] - seg_dur) // period_duration)
         counter = 0
         for period_nr in range(first_period_nr, last_period_nr+1):
             start_time = period_nr * period_duration
             data = {'id': "p%d" % period_nr, 'start': 'PT%dS' % start_time,
-                    'startNumber': "%d" % (start_time//seg_dur), 'duration': seg_dur,
-                    'presentationTimeOffset': period_nr*period_duration,
+                    'startNumber': "%d" % (first_number + start_time//seg_dur), 'duration': seg_dur,
+                    'presentationTimeOffset': mpd_data['presentationTimeOffset'] + period_nr*period_duration,
                     'start_s': start_time}
             if mpd_data['etpPeriodsPerHour'] > 0:
                 # Check whether the early terminated feature is enabled or not.
-- 
2.43.0


From 85d6e48cec05de2c3e208a7236644a1017e83dc3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:18:53 +0000
Subject: [PATCH 14/59] fix: SegmentTimeline for every kind of media the
 content has

---
 dashlivesim/dashlib/mpdprocessor.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/dashlivesim/dashlib/mpdprocessor.py b/dashlivesim/dashlib/mpdprocessor.py
index ade220a..8c0be95 100644
--- a/dashlivesim/dashlib/mpdprocessor.py
+++ b/dashlivesim/dashlib/mpdprocessor.py
@@ -310,9 +310,9 @@ class MpdProcessor(object):
                                                elem_id=None, messageData=BaseURLSegmented)
         if self.segtimeline or self.segtimeline_nr:
             segtimeline_generators = {}
-            for content_type in ('video', 'audio'):
-                segtimeline_generators[content_type] = SegmentTimeLineGenerator(self.cfg.media_data[content_type],
-                                                                                self.cfg)
+            for content_type, media_data in self.cfg.media_data.items():
+                if 'dat_file' in media_data:
+                    segtimeline_generators[content_type] = SegmentTimeLineGenerator(media_data, self.cfg)
         periods = mpd.findall(add_ns('Period'))
         BaseURL = mpd.findall(add_ns('BaseURL'))
         if len(BaseURL) > 0:
-- 
2.43.0


From db6eb70bff10ea4010db53dc167324d6f937605d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:19:27 +0000
Subject: [PATCH 15/59] fix: count the last segment of a modulo session from
 its availability start

---
 dashlivesim/dashlib/moduloperiod.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/dashlivesim/dashlib/moduloperiod.py b/dashlivesim/dashlib/moduloperiod.py
index eb8eb6b..b7e7342 100644
--- a/dashlivesim/dashlib/moduloperiod.py
+++ b/dashlivesim/dashlib/moduloperiod.py
@@ -119,7 +119,5 @@ class ModuloPeriod(object):
         return (segment_end_time - presentation_end_time)/segment_duration
 
     def calc_last_segment_number(self, segment_duration):
-        "Calculate the last segmentNumber given segmentDuration and mediaPresentationDuration."
-        presentation_end_time = self.availability_start_time + self._media_presentation_duration
-        last_segment_number = presentation_end_time/segment_duration - 1
-        return last_segment_number
+        "Calculate the last segmentNumber (counted from 0 at AST) given segmentDuration and mediaPresentationDuration."
+        return int(self._media_presentation_duration // segment_duration) - 1
-- 
2.43.0


From 4409aeb5f36eea33af6e3bfffe9146b1cd871aac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:19:31 +0000
Subject: [PATCH 16/59] fix: the last segment of a time-limited session depends
 on the start number

---
 dashlivesim/dashlib/dash_proxy.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/dashlivesim/dashlib/dash_proxy.py b/dashlivesim/dashlib/dash_proxy.py
index 94b48e7..811fb22 100644
--- a/dashlivesim/dashlib/dash_proxy.py
+++ b/dashlivesim/dashlib/dash_proxy.py
@@ -241,10 +241,10 @@ def process_media_segment(dashProv, now_float, chunk):
     if stop_number and seg_nr >= stop_number:
         return error_response(dashProv, "Beyond last segment %d" % stop_number)
     if len(cfg.last_segment_numbers) > 0:
-        very_last_segment = cfg.last_segment_numbers[-1]
+        very_last_segment = seg_start_nr + cfg.last_segment_numbers[-1]
         if seg_nr > very_last_segment:
             return error_response(dashProv, "Request for segment %d beyond last (%d)" % (seg_nr, very_last_segment))
-    lmsg = seg_nr in cfg.last_segment_numbers
+    lmsg = seg_nr - seg_start_nr in cfg.last_segment_numbers
     # print cfg.last_segment_numbers
     timescale = 1
     media_time_at_ast = cfg.adjusted_pto(0, timescale)
@@ -359,7 +359,7 @@ def process_thumbnail(dashProv, now_float):
     if stop_number and seg_nr >= stop_number:
         return error_response(dashProv, "Beyond last segment %d" % stop_number)
     if len(cfg.last_segment_numbers) > 0:
-        very_last_segment = cfg.last_segment_numbers[-1]
+        very_last_segment = seg_start_nr + cfg.last_segment_numbers[-1]
         if seg_nr > very_last_segment:
             return error_response(dashProv, "Request for segment %d beyond last (%d)" % (seg_nr, very_last_segment))
     # lmsg = seg_nr in cfg.last_segment_numbers
-- 
2.43.0


From ab6bf568e8457df153b76ac3d1d9ee8b661ed5e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:19:52 +0000
Subject: [PATCH 17/59] fix: stop and timeoffset of a session with the implicit
 start number

---
 dashlivesim/dashlib/configprocessor.py | 2 +-
 dashlivesim/dashlib/dash_proxy.py      | 4 ++--
 dashlivesim/dashlib/mpd_proxy.py       | 4 +++-
 3 files changed, 6 insertions(+), 4 deletions(-)

diff --git a/dashlivesim/dashlib/configprocessor.py b/dashlivesim/dashlib/configprocessor.py
index 10353bc..e4e3482 100644
--- a/dashlivesim/dashlib/configprocessor.py
+++ b/dashlivesim/dashlib/configprocessor.py
@@ -229,7 +229,7 @@ class Config(object):
 
     @property
     def adjusted_start_number(self):
-        start_nr = self.start_nr
+        start_nr = 1 if self.start_nr == -1 else self.start_nr
         if self.timeoffset is not None:
             start_nr += ((self.availability_start_time_in_s - self.timeoffset)
                          // self.seg_duration)
diff --git a/dashlivesim/dashlib/dash_proxy.py b/dashlivesim/dashlib/dash_proxy.py
index 811fb22..40d1d2b 100644
--- a/dashlivesim/dashlib/dash_proxy.py
+++ b/dashlivesim/dashlib/dash_proxy.py
@@ -234,7 +234,7 @@ def process_media_segment(dashProv, now_float, chunk):
         seg_nr = first_nr + int(round(float(seg_base[1:]) / seg_dur / timescale))
     else:
         seg_nr = int(seg_base)
-    seg_start_nr = cfg.start_nr == -1 and 1 or cfg.adjusted_start_number
+    seg_start_nr = cfg.adjusted_start_number
     if seg_nr < seg_start_nr:
         return error_response(dashProv, "Request for segment %d before first %d" % (seg_nr, seg_start_nr))
     stop_number = cfg.stop_number
@@ -352,7 +352,7 @@ def process_thumbnail(dashProv, now_float):
         seg_nr = first_nr + int(round(float(seg_base[1:]) / seg_dur / timescale))
     else:
         seg_nr = int(seg_base)
-    seg_start_nr = cfg.start_nr == -1 and 1 or cfg.adjusted_start_number
+    seg_start_nr = cfg.adjusted_start_number
     if seg_nr < seg_start_nr:
         return error_response(dashProv, "Request for segment %d before first %d" % (seg_nr, seg_start_nr))
     stop_number = cfg.stop_number
diff --git a/dashlivesim/dashlib/mpd_proxy.py b/dashlivesim/dashlib/mpd_proxy.py
index 64b5f21..f8cb163 100644
--- a/dashlivesim/dashlib/mpd_proxy.py
+++ b/dashlivesim/dashlib/mpd_proxy.py
@@ -209,7 +209,7 @@ def generate_period_data(mpd_data, now, cfg):
     seg_dur = mpd_data['segDuration']
     period_data = []
     now -= cfg.availability_start_time_in_s  # Period@start is relative to AST
-    first_number = 1 if cfg.start_nr == -1 else mpd_data['startNumber']  # The number at AST
+    first_number = mpd_data['startNumber']  # The number at AST
     ad_frequency = -1
     if mpd_data['insertAd'] > 0:
         ad_frequency = nr_periods_per_hour // mpd_data['xlinkPeriodsPerHour']
@@ -217,6 +217,8 @@ def generate_period_data(mpd_data, now, cfg):
     if nr_periods_per_hour == -1:  # Just one period starting at at time start relative AST
         start = 0
         start_number = mpd_data['startNumber'] + start // seg_dur
+        if cfg.start_nr == -1 and start_number == 1:
+            start_number = -1  # The default value, which shall be absent in the MPD
         data = {'id': "p0", 'start': 'PT%dS' % start, 'startNumber': str(start_number),
                 'duration': seg_dur, 'presentationTimeOffset': "%d" % mpd_data['presentationTimeOffset'],
                 'start_s': start}
-- 
2.43.0


From 76556c4a92a142dba20b91fecd254c42fa77e822 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:21:01 +0000
Subject: [PATCH 18/59] fix: mediaPresentationDuration stays in the MPD until
 the end of the session

---
 dashlivesim/dashlib/configprocessor.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/dashlivesim/dashlib/configprocessor.py b/dashlivesim/dashlib/configprocessor.py
index e4e3482..a88c9ed 100644
--- a/dashlivesim/dashlib/configprocessor.py
+++ b/dashlivesim/dashlib/configprocessor.py
@@ -178,6 +178,7 @@ class Config(object):
         media_presentation_duration = None
         if len(availability_end_times) > 0:
             end_time = availability_end_times[-1]
+            media_presentation_duration = media_presentation_durations[-1]
             for aet, media_pre_dur in zip(availability_end_times[::-1], media_presentation_durations[::-1]):
                 if now_int > aet - 2*self.minimum_update_period_in_s:
                     break
-- 
2.43.0


From e8d9f2860c65222de010c32f809d066cefad388b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:23:09 +0000
Subject: [PATCH 19/59] fix: a session that stops at its start has no segments,
 also with start number 0

---
 dashlivesim/dashlib/dash_proxy.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/dashlivesim/dashlib/dash_proxy.py b/dashlivesim/dashlib/dash_proxy.py
index 40d1d2b..fc1768b 100644
--- a/dashlivesim/dashlib/dash_proxy.py
+++ b/dashlivesim/dashlib/dash_proxy.py
@@ -238,7 +238,7 @@ def process_media_segment(dashProv, now_float, chunk):
     if seg_nr < seg_start_nr:
         return error_response(dashProv, "Request for segment %d before first %d" % (seg_nr, seg_start_nr))
     stop_number = cfg.stop_number
-    if stop_number and seg_nr >= stop_number:
+    if stop_number is not None and seg_nr >= stop_number:
         return error_response(dashProv, "Beyond last segment %d" % stop_number)
     if len(cfg.last_segment_numbers) > 0:
         very_last_segment = seg_start_nr + cfg.last_segment_numbers[-1]
@@ -256,7 +256,7 @@ def process_media_segment(dashProv, now_float, chunk):
             return error_response(dashProv, "Request for %s was %.1fs too early" % (seg_name, seg_ast - now_float))
         # If stop_number is not None, the manifest will become static
         if ((now_float > seg_ast + seg_dur +
-                cfg.timeshift_buffer_depth_in_s) and not stop_number):
+                cfg.timeshift_buffer_depth_in_s) and stop_number is None):
             diff = now_float - (seg_ast + seg_dur + cfg.timeshift_buffer_depth_in_s)
             return error_response(dashProv, "Request for %s was %.1fs too late" % (seg_name, diff))
 
@@ -356,7 +356,7 @@ def process_thumbnail(dashProv, now_float):
     if seg_nr < seg_start_nr:
         return error_response(dashProv, "Request for segment %d before first %d" % (seg_nr, seg_start_nr))
     stop_number = cfg.stop_number
-    if stop_number and seg_nr >= stop_number:
+    if stop_number is not None and seg_nr >= stop_number:
         return error_response(dashProv, "Beyond last segment %d" % stop_number)
     if len(cfg.last_segment_numbers) > 0:
         very_last_segment = seg_start_nr + cfg.last_segment_numbers[-1]
@@ -371,7 +371,7 @@ def process_thumbnail(dashProv, now_float):
         if now_float < seg_ast - cfg.availability_time_offset_in_s:
             return error_response(dashProv, "Request for %s was %.1fs too early" % (seg_name, seg_ast - now_float))
         # If stop_number is not None, the manifest will become static
-        if ((now_float > seg_ast + seg_dur + cfg.timeshift_buffer_depth_in_s) and not stop_number):
+        if ((now_float > seg_ast + seg_dur + cfg.timeshift_buffer_depth_in_s) and stop_number is None):
             diff = now_float - (seg_ast + seg_dur + cfg.timeshift_buffer_depth_in_s)
             return error_response(dashProv, "Request for %s was %.1fs too late" % (seg_name, diff))
 
-- 
2.43.0


From a1699829c51622cae027c55497441cfc69c05d26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:29:00 +0000
Subject: [PATCH 20/59] fix: a minimum update period of 0 in a session with a
 start time

---
 dashlivesim/dashlib/configprocessor.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dashlivesim/dashlib/configprocessor.py b/dashlivesim/dashlib/configprocessor.py
index a88c9ed..d75fdee 100644
--- a/dashlivesim/dashlib/configprocessor.py
+++ b/dashlivesim/dashlib/configprocessor.py
@@ -220,7 +220,7 @@ class Config(object):
         """The publishTime to be written in the MPD. Changed according to the rules:
             if availabilityStartTimeInS == DEFAULT_AVAILABILITY_STARTTIME_IN_S."""
         if self.availability_start_time_in_s != DEFAULT_AVAILABILITY_STARTTIME_IN_S:
-            publish_time = quantize(now_int, self.minimum_update_period_in_s)
+            publish_time = quantize(now_int, max(1, self.minimum_update_period_in_s))
         else:
             publish_time = DEFAULT_AVAILABILITY_STARTTIME_IN_S
         self.publish_time = publish_time
-- 
2.43.0


From f15a9aed2d6e0078a12c8d52f9f8fa5a0dbddc4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:36:21 +0000
Subject: [PATCH 21/59] fix: multiplexing of media segments without styp

---
 dashlivesim/dashlib/segmentmuxer.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dashlivesim/dashlib/segmentmuxer.py b/dashlivesim/dashlib/segmentmuxer.py
index c4bca6d..8b6818b 100644
--- a/dashlivesim/dashlib/segmentmuxer.py
+++ b/dashlivesim/dashlib/segmentmuxer.py
@@ -130,7 +130,7 @@ class MediaSegmentStructure(MP4Filter):
         self.trun_data_offset = None
         self.trun_data_offset_in_traf = None
         self.traf_start = None
-        self.styp = None
+        self.styp = b""  # Optional
         self.mfhd = None
         self.traf = None
         self.moof = None
-- 
2.43.0


From e89a840a4461ef255478d3e1213dbf8e7a720123 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:38:44 +0000
Subject: [PATCH 22/59] fix: media type of thumbnails

---
 dashlivesim/mod_wsgi/mod_dashlivesim.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/dashlivesim/mod_wsgi/mod_dashlivesim.py b/dashlivesim/mod_wsgi/mod_dashlivesim.py
index b54a812..8ec53fa 100644
--- a/dashlivesim/mod_wsgi/mod_dashlivesim.py
+++ b/dashlivesim/mod_wsgi/mod_dashlivesim.py
@@ -236,6 +236,8 @@ def get_mime_type(ext):
         return "video/iso.segment"
     elif ext == ".mp4":
         return "video/mp4"
+    elif ext == ".jpg":
+        return "image/jpeg"
 
     return "text/plain"
 
-- 
2.43.0


From f36b9cce1386896ab13c98ebe82f926b59cc00af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:49:13 +0000
Subject: [PATCH 23/59] fix: read durations with days or fractions of a second

---
 dashlivesim/dashlib/timeformatconversions.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/dashlivesim/dashlib/timeformatconversions.py b/dashlivesim/dashlib/timeformatconversions.py
index a362faa..59cb0ab 100644
--- a/dashlivesim/dashlib/timeformatconversions.py
+++ b/dashlivesim/dashlib/timeformatconversions.py
@@ -32,7 +32,8 @@
 import time
 import re
 
-RE_DURATION = re.compile(r"PT((?P<hours>\d+)H)?((?P<minutes>\d+)M)?((?P<seconds>\d+)S)?")
+RE_DURATION = re.compile(r"P((?P<days>\d+)D)?(T((?P<hours>\d+)H)?((?P<minutes>\d+)M)?"
+                         r"((?P<seconds>\d+)(\.\d*)?S)?)?$")
 
 
 class TimeFormatConversionError(Exception):
@@ -45,6 +46,8 @@ def iso_duration_to_seconds(duration):
     if not match_obj:
         raise TimeFormatConversionError("%s does not match a duration" % duration)
     secs = 0
+    if match_obj.group("days"):
+        secs += int(match_obj.group("days"))*86400
     if match_obj.group("hours"):
         secs += int(match_obj.group("hours"))*3600
     if match_obj.group("minutes"):
-- 
2.43.0


From 4bf891f3d03be6dd7654fa711eb96f9a27b9b79b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:28:49 +0000
Subject: [PATCH 24/59] fix: sessions with a relative start and no stop, or the
 reverse

---
 dashlivesim/dashlib/mpdprocessor.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/dashlivesim/dashlib/mpdprocessor.py b/dashlivesim/dashlib/mpdprocessor.py
index 8c0be95..f77dcfa 100644
--- a/dashlivesim/dashlib/mpdprocessor.py
+++ b/dashlivesim/dashlib/mpdprocessor.py
@@ -183,10 +183,13 @@ class MpdProcessor(object):
                 self.insert_baseurl(mpd, pos, data['BaseURL'], ato, atc)
                 pos += 1
         if self.cfg and self.cfg.add_location and self.full_url is not None:
-            loc_url = re.sub(r"/startrel_[-\d]+", "/start_%d" %
-                             self.cfg.start_time, self.full_url)
-            loc_url = re.sub(r"/stoprel_[-\d]+", "/stop_%d" %
-                             self.cfg.stop_time, loc_url)
+            loc_url = self.full_url
+            if self.cfg.start_time is not None:
+                loc_url = re.sub(r"/startrel_[-\d]+", "/start_%d" %
+                                 self.cfg.start_time, loc_url)
+            if self.cfg.stop_time is not None:
+                loc_url = re.sub(r"/stoprel_[-\d]+", "/stop_%d" %
+                                 self.cfg.stop_time, loc_url)
             self.insert_location(mpd, pos, loc_url)
             pos += 1
 
-- 
2.43.0


From 30c60142c58a15f1f7def7aaef4c6bd813265edb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:53 +0000
Subject: [PATCH 25/59] fix: sample offsets of multiplexed segments whose moof
 holds more than mfhd and traf

---
 dashlivesim/dashlib/segmentmuxer.py | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/dashlivesim/dashlib/segmentmuxer.py b/dashlivesim/dashlib/segmentmuxer.py
index 8b6818b..a3ac3ec 100644
--- a/dashlivesim/dashlib/segmentmuxer.py
+++ b/dashlivesim/dashlib/segmentmuxer.py
@@ -133,6 +133,7 @@ class MediaSegmentStructure(MP4Filter):
         self.styp = b""  # Optional
         self.mfhd = None
         self.traf = None
+        self.moof_other = b""  # Other boxes in moof, like pssh
         self.moof = None
         self.mdat = None
 
@@ -157,6 +158,8 @@ class MediaSegmentStructure(MP4Filter):
         elif boxtype == b"traf":
             self.traf = data
             self.traf_start = file_pos
+        elif path == b"moof":
+            self.moof_other += data
         elif boxtype == b"trun":
             self.parse_trun(data, file_pos)
         if path == b"":
@@ -209,12 +212,13 @@ class MultiplexMediaSegments(object):
             offset = mstruct.trun_data_offset_in_traf
             return traf[:offset] + uint32_to_str(new_data_offset) + traf[offset+4:]
 
-        delta_offset1 = len(self.mstruct2.traf)
-        delta_offset2 = len(self.mstruct1.traf) + len(self.mstruct1.mdat) - 8
+        moof_size = (8 + len(self.mstruct1.mfhd) + len(self.mstruct1.moof_other) + len(self.mstruct2.moof_other) +
+                     len(self.mstruct1.traf) + len(self.mstruct2.traf))
+        delta_offset1 = moof_size - len(self.mstruct1.moof)
+        delta_offset2 = moof_size - len(self.mstruct2.moof) + len(self.mstruct1.mdat) - 8
         traf1 = get_traf_with_mod_offset(self.mstruct1, delta_offset1)
         traf2 = get_traf_with_mod_offset(self.mstruct2, delta_offset2)
 
-        moof_size = 8 + len(self.mstruct1.mfhd) + len(self.mstruct1.traf) + len(self.mstruct2.traf)
         mdat_size = len(self.mstruct1.mdat) + len(self.mstruct2.mdat) - 8
 
         data = []
@@ -222,6 +226,8 @@ class MultiplexMediaSegments(object):
         data.append(uint32_to_str(moof_size))
         data.append(b'moof')
         data.append(self.mstruct1.mfhd)
+        data.append(self.mstruct1.moof_other)
+        data.append(self.mstruct2.moof_other)
         data.append(traf1)
         data.append(traf2)
         data.append(uint32_to_str(mdat_size))
-- 
2.43.0


From 59d8ca78f9e42c9ff1595a955886ae259109f117 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:43 +0000
Subject: [PATCH 26/59] fix: multi-period MPD when elements stand between the
 base URL and the period of the stored MPD

---
 dashlivesim/dashlib/mpdprocessor.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dashlivesim/dashlib/mpdprocessor.py b/dashlivesim/dashlib/mpdprocessor.py
index f77dcfa..87ba5f7 100644
--- a/dashlivesim/dashlib/mpdprocessor.py
+++ b/dashlivesim/dashlib/mpdprocessor.py
@@ -200,7 +200,7 @@ class MpdProcessor(object):
         children = list(mpd)
         for ch_nr in range(pos, len(children)):
             if children[ch_nr].tag == add_ns("Period"):
-                period = list(mpd)[pos]
+                period = children[ch_nr]
                 pos = ch_nr
                 break
         else:
-- 
2.43.0


From 11377c684671e2a475cdcf2c4217403c2a3deb45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:55 +0000
Subject: [PATCH 27/59] fix: SCTE-35 splice times follow media time also when
 the start number is not 0

---
 dashlivesim/dashlib/dash_proxy.py         | 3 ++-
 dashlivesim/dashlib/mediasegmentfilter.py | 6 ++++--
 2 files changed, 6 insertions(+), 3 deletions(-)

diff --git a/dashlivesim/dashlib/dash_proxy.py b/dashlivesim/dashlib/dash_proxy.py
index fc1768b..92893e2 100644
--- a/dashlivesim/dashlib/dash_proxy.py
+++ b/dashlivesim/dashlib/dash_proxy.py
@@ -318,7 +318,8 @@ def filter_media_segment(dashProv, rep, rel_path, vod_nr, seg_nr, seg_ext, offse
                                     is_ttml,
                                     default_sample_duration,
                                     insert_sidx=cfg.insert_sidx, emsg_last_seg=cfg.emsg_last_seg,
-                                    now=dashProv.now)
+                                    now=dashProv.now,
+                                    first_seg_nr=1 if cfg.start_nr == -1 else cfg.start_nr)
     seg_content = seg_filter.filter()
     dashProv.new_tfdt_value = seg_filter.get_tfdt_value()  # Why set this in dashProv?? TODO
     return seg_content
diff --git a/dashlivesim/dashlib/mediasegmentfilter.py b/dashlivesim/dashlib/mediasegmentfilter.py
index cb13265..1c1956a 100644
--- a/dashlivesim/dashlib/mediasegmentfilter.py
+++ b/dashlivesim/dashlib/mediasegmentfilter.py
@@ -52,11 +52,13 @@ class MediaSegmentFilter(MP4Filter):
     # pylint: disable=too-many-instance-attributes, too-many-arguments
     def __init__(self, file_name, seg_nr=None, seg_duration=1, offset=0, lmsg=False, track_timescale=None,
                  scte35_per_minute=0, rel_path=None, is_ttml=False,
-                 default_sample_duration=None, insert_sidx=False, emsg_last_seg=False, now=False):
+                 default_sample_duration=None, insert_sidx=False, emsg_last_seg=False, now=False,
+                 first_seg_nr=0):
         MP4Filter.__init__(self, file_name)
         self.top_level_boxes_to_parse = [b'styp', b'sidx', b'moof', b'mdat']
         self.composite_boxes_to_parse = [b'moof', b'traf']
         self.seg_nr = seg_nr
+        self.first_seg_nr = first_seg_nr  # The number at media time 0
         self.seg_duration = seg_duration
         self.offset = offset
         self.track_timescale = track_timescale
@@ -351,7 +353,7 @@ class MediaSegmentFilter(MP4Filter):
         ad_duration = 10
         if self.scte35_per_minute < 1 or self.scte35_per_minute > 8:
             return b""
-        seg_starttime = self.seg_nr*self.seg_duration  # StartTime in seconds
+        seg_starttime = (self.seg_nr - self.first_seg_nr)*self.seg_duration  # Media time in seconds
         sec_modulo_minute = seg_starttime % 60
         minute_start = seg_starttime - sec_modulo_minute
         splice_insert_times = [minute_start + 10]
-- 
2.43.0


From 597ac3521c01c95f9776810bd02beb5514eb18a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:57 +0000
Subject: [PATCH 28/59] fix: SCTE-35 break at the start of a minute announced
 also by a segment that starts in the minute before

---
 dashlivesim/dashlib/mediasegmentfilter.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/dashlivesim/dashlib/mediasegmentfilter.py b/dashlivesim/dashlib/mediasegmentfilter.py
index 1c1956a..97b0c9a 100644
--- a/dashlivesim/dashlib/mediasegmentfilter.py
+++ b/dashlivesim/dashlib/mediasegmentfilter.py
@@ -365,6 +365,7 @@ class MediaSegmentFilter(MP4Filter):
         elif self.scte35_per_minute == 8:
             splice_insert_times.append(minute_start+30)
             ad_duration = 20
+        splice_insert_times.append(minute_start+70)  # The first of the next minute, if the segment reaches into it
         found_splice_time = -1
         splice_time = None
         seg_endtime = seg_starttime + self.seg_duration
-- 
2.43.0


From 037b38100e984a29e2475ebebe6a8b51d169f6e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:42 +0000
Subject: [PATCH 29/59] fix: presentationTimeOffset of the stored MPD was kept
 where the live one is 0

---
 dashlivesim/dashlib/mpdprocessor.py | 12 +++++-------
 1 file changed, 5 insertions(+), 7 deletions(-)

diff --git a/dashlivesim/dashlib/mpdprocessor.py b/dashlivesim/dashlib/mpdprocessor.py
index 87ba5f7..1429ea1 100644
--- a/dashlivesim/dashlib/mpdprocessor.py
+++ b/dashlivesim/dashlib/mpdprocessor.py
@@ -279,8 +279,7 @@ class MpdProcessor(object):
             for key in keys:
                 if key in data:
                     if key == "presentationTimeOffset" and str(data[key]) == "0":  # Remove default value
-                        if key in elem:
-                            del elem[key]
+                        remove_attribs(elem, (key,))
                         continue
                     elem.set(key, str(data[key]))
 
@@ -332,11 +331,10 @@ class MpdProcessor(object):
                 period.set('duration', pdata['periodDuration'])
             segmenttemplate_attribs = ['startNumber']
             pto = pdata['presentationTimeOffset']
-            if pto:
-                if offset_at_period_level:
-                    insert_segmentbase(period, pto)
-                else:
-                    segmenttemplate_attribs.append('presentationTimeOffset')
+            if not offset_at_period_level:
+                segmenttemplate_attribs.append('presentationTimeOffset')
+            elif pto:
+                insert_segmentbase(period, pto)
             if 'mpdCallback' in pdata:
                 # Add the mpdCallback element only if the flag is raised.
                 mpdcallback_elem = create_inline_mpdcallback_elem(BaseURLSegmented)
-- 
2.43.0


From a11f7b9bb56dbc4f215226222ef46c03691a7e90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:44:27 +0000
Subject: [PATCH 30/59] fix: the base URLs of several baseurl_ options had the
 option after the content and empty parts

---
 dashlivesim/dashlib/mpdprocessor.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dashlivesim/dashlib/mpdprocessor.py b/dashlivesim/dashlib/mpdprocessor.py
index 1429ea1..7049eaa 100644
--- a/dashlivesim/dashlib/mpdprocessor.py
+++ b/dashlivesim/dashlib/mpdprocessor.py
@@ -173,7 +173,7 @@ class MpdProcessor(object):
                     key, _ = cfg_parts
                     if key == "baseurl":
                         url_parts[i] = ""  # Remove all the baseurl elements
-                url_parts = [p for p in url_parts if p is not None]
+                url_parts = [p for p in url_parts if p]  # Also without the part after the final slash
                 for url in data['urls']:
                     url_parts.insert(-1, "baseurl_" + url)
                     self.insert_baseurl(mpd, pos, url_header + "//" + "/".join(url_parts) + "/", ato, atc)
-- 
2.43.0


From a0395c20cf011e43fe9142a2b73b7acc2ca769a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:49:25 +0000
Subject: [PATCH 31/59] fix: sidx_1 with several fragments or runs (place, time
 and duration of the index)

---
 dashlivesim/dashlib/mediasegmentfilter.py | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/dashlivesim/dashlib/mediasegmentfilter.py b/dashlivesim/dashlib/mediasegmentfilter.py
index 97b0c9a..44f788f 100644
--- a/dashlivesim/dashlib/mediasegmentfilter.py
+++ b/dashlivesim/dashlib/mediasegmentfilter.py
@@ -82,10 +82,11 @@ class MediaSegmentFilter(MP4Filter):
         if self.insert_sidx:
             seg_size = 0
             pos = 0
-            moof_start = 0
+            moof_start = None
             for size, box in self.output_top_level_boxes:
                 if box == b'moof':
-                    moof_start = pos
+                    if moof_start is None:
+                        moof_start = pos
                     seg_size += size
                 elif box == b'mdat':
                     seg_size += size
@@ -192,7 +193,7 @@ class MediaSegmentFilter(MP4Filter):
                 pos += 4
             if sample_comp_time_present:
                 pos += 4
-        self.duration = duration
+        self.duration = (self.duration or 0) + duration
 
         # Modify data_offset
         output = data[:16]
@@ -298,7 +299,8 @@ class MediaSegmentFilter(MP4Filter):
             base_media_decode_time = str_to_uint64(data[12:20])
         new_base_media_decode_time = base_media_decode_time + tfdt_offset
         output += uint64_to_str(new_base_media_decode_time)
-        self.tfdt_value = new_base_media_decode_time
+        if self.tfdt_value is None:  # The segment starts with its first fragment
+            self.tfdt_value = new_base_media_decode_time
         return output
 
     def process_tfdt(self, data):
@@ -330,7 +332,8 @@ class MediaSegmentFilter(MP4Filter):
             base_media_decode_time = str_to_uint64(data[12:20])
             new_base_media_decode_time = base_media_decode_time + tfdt_offset
             output += uint64_to_str(new_base_media_decode_time)
-        self.tfdt_value = new_base_media_decode_time
+        if self.tfdt_value is None:  # The segment starts with its first fragment
+            self.tfdt_value = new_base_media_decode_time
         return output
 
     def get_tfdt_value(self):
-- 
2.43.0


From a9de9e04cd13a70b32f39f0ef745c00ce7ca1082 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:49:27 +0000
Subject: [PATCH 32/59] fix: duration 0 in the index of sidx_1 when the samples
 have the default duration of the track

---
 dashlivesim/dashlib/dash_proxy.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/dashlivesim/dashlib/dash_proxy.py b/dashlivesim/dashlib/dash_proxy.py
index 92893e2..382c988 100644
--- a/dashlivesim/dashlib/dash_proxy.py
+++ b/dashlivesim/dashlib/dash_proxy.py
@@ -312,6 +312,8 @@ def filter_media_segment(dashProv, rep, rel_path, vod_nr, seg_nr, seg_ext, offse
     timescale = rep['timescale']
     scte35_per_minute = (rep['content_type'] == 'video') and cfg.scte35_per_minute or 0
     is_ttml = rep['content_type'] == 'subtitles'
+    if cfg.insert_sidx and trex_data is None:  # The samples may have the default duration of the track
+        trex_data = get_trex_data(dashProv, rel_path)
     default_sample_duration = trex_data.default_sample_duration if trex_data is not None else None
     seg_filter = MediaSegmentFilter(media_seg_file, seg_nr, cfg.seg_duration, offset_at_loop_start, lmsg, timescale,
                                     scte35_per_minute, rel_path,
-- 
2.43.0


From b54fa4edfb668f59a5209dbe4544400cdb3f0a00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:08:37 +0000
Subject: [PATCH 33/59] fix: sidx_1 for content whose initialization segment
 has no trex box

---
 dashlivesim/dashlib/dash_proxy.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dashlivesim/dashlib/dash_proxy.py b/dashlivesim/dashlib/dash_proxy.py
index 382c988..2ae5ab5 100644
--- a/dashlivesim/dashlib/dash_proxy.py
+++ b/dashlivesim/dashlib/dash_proxy.py
@@ -314,7 +314,7 @@ def filter_media_segment(dashProv, rep, rel_path, vod_nr, seg_nr, seg_ext, offse
     is_ttml = rep['content_type'] == 'subtitles'
     if cfg.insert_sidx and trex_data is None:  # The samples may have the default duration of the track
         trex_data = get_trex_data(dashProv, rel_path)
-    default_sample_duration = trex_data.default_sample_duration if trex_data is not None else None
+    default_sample_duration = getattr(trex_data, "default_sample_duration", None)  # None also without trex
     seg_filter = MediaSegmentFilter(media_seg_file, seg_nr, cfg.seg_duration, offset_at_loop_start, lmsg, timescale,
                                     scte35_per_minute, rel_path,
                                     is_ttml,
-- 
2.43.0


From 77a3850ad1d41cf08e15679dc24c8e8bf0e8a2d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:22:49 +0000
Subject: [PATCH 34/59] fix: sample flags in chunked segments (every sample was
 marked as sync sample)

---
 dashlivesim/dashlib/boxes.py   | 14 ++++++++------
 dashlivesim/dashlib/chunker.py |  6 ++++--
 dashlivesim/dashlib/mp4.py     |  2 +-
 3 files changed, 13 insertions(+), 9 deletions(-)

diff --git a/dashlivesim/dashlib/boxes.py b/dashlivesim/dashlib/boxes.py
index 9b30936..0370e18 100644
--- a/dashlivesim/dashlib/boxes.py
+++ b/dashlivesim/dashlib/boxes.py
@@ -61,7 +61,7 @@ def serialize_bytes(x, n):
     return serialize_u8(x) * n
 
 
-TRUNSample = namedtuple('TRUNSample', 'duration size sync offset')
+TRUNSample = namedtuple('TRUNSample', 'duration size sync offset flags')
 
 
 SAIZSample = namedtuple('SAIZSample', 'sample_info_size')
@@ -88,12 +88,13 @@ SIDXReference = namedtuple('SIDXReference', 'reference_type '
 
 class Sample:
 
-    def __init__(self, data, time=0, duration=0, sync=True, time_offset=0):
+    def __init__(self, data, time=0, duration=0, sync=True, time_offset=0, flags=None):
         self.data = data
         self.time = time
         self.duration = duration
         self.sync = sync
         self.time_offset = time_offset
+        self.flags = flags  # All sample flags, when known
 
     @property
     def size(self):
@@ -949,8 +950,8 @@ class TRUNBox(Box):
         self.data_offset = data_offset
         self.use_comp_off = False  # Needs to be true for dash.js
 
-    def add_sample(self, duration, size, sync, offset):
-        self.samples.append(TRUNSample(duration, size, sync, offset))
+    def add_sample(self, duration, size, sync, offset, flags=None):
+        self.samples.append(TRUNSample(duration, size, sync, offset, flags))
         if offset != 0:
             self.use_comp_off = True
 
@@ -989,7 +990,7 @@ class TRUNBox(Box):
             # 1bit sample_is_non_sync_sample (0 or 1, match sync samples)
             # 16bits sample_degradation_priority (0)
             sync_flag = 0x02000000 if sample.sync else 0x01010000
-            yield serialize_u32(sync_flag)
+            yield serialize_u32(sync_flag if sample.flags is None else sample.flags)
 
             if self.use_comp_off:
                 yield serialize_u32(sample.offset)
@@ -1795,7 +1796,8 @@ def create_moof(segment_no, track_id, samples, encryptor=None):
         trun.add_sample(sample.duration,
                         sample.size,
                         sample.sync,
-                        sample.time_offset)
+                        sample.time_offset,
+                        sample.flags)
     traf.add_box(trun)
 
     # set data_offset in trun
diff --git a/dashlivesim/dashlib/chunker.py b/dashlivesim/dashlib/chunker.py
index 3aa6293..321106d 100644
--- a/dashlivesim/dashlib/chunker.py
+++ b/dashlivesim/dashlib/chunker.py
@@ -55,15 +55,17 @@ def decode_fragment(data, trex):
                            trex.default_sample_size)
     default_sample_flags = (tfhd.default_sample_flags if tfhd.has_default_sample_flags else
                             trex.default_sample_flags)
-    for entry in map(trun.sample_entry, range(trun.sample_count)):
+    for i, entry in enumerate(map(trun.sample_entry, range(trun.sample_count))):
         duration = entry['duration'] if trun.has_sample_duration else default_sample_duration
         size = entry['size'] if trun.has_sample_size else default_sample_size
         flags = entry['flags'] if trun.has_sample_flags else default_sample_flags
+        if i == 0 and trun.has_first_sample_flags:
+            flags = trun.first_sample_flags
         time_offset = entry['time_offset'] if trun.has_sample_composition_time_offset else 0
         begin, end = end, end + size
         data = root.fmap[base_data_offset+data_offset:][begin:end]
         t0, t1 = t1, t1 + duration
-        yield Sample(data, t0, duration, flags, time_offset)
+        yield Sample(data, t0, duration, flags & 0x10000 == 0, time_offset, flags)
 
 
 def partition(samples, duration):
diff --git a/dashlivesim/dashlib/mp4.py b/dashlivesim/dashlib/mp4.py
index 8670996..5d88e9a 100755
--- a/dashlivesim/dashlib/mp4.py
+++ b/dashlivesim/dashlib/mp4.py
@@ -1378,7 +1378,7 @@ class trun_box(full_box):
             offset += 4
         if self.has_sample_flags:
             flags = struct.unpack('>I', self.fmap[offset:offset + 4])[0]
-            row['flags'] = f"0x{flags:x}"
+            row['flags'] = flags
             offset += 4
         if self.has_sample_composition_time_offset:
             # Using >i to support v0 & v1 assuming small enough numbers
-- 
2.43.0


From 6b5f78b7ea6eafd458d7af3ac3aa3e02d5381475 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:22:49 +0000
Subject: [PATCH 35/59] fix: negative composition time offsets in chunked
 segments

---
 dashlivesim/dashlib/boxes.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/dashlivesim/dashlib/boxes.py b/dashlivesim/dashlib/boxes.py
index 0370e18..816e805 100644
--- a/dashlivesim/dashlib/boxes.py
+++ b/dashlivesim/dashlib/boxes.py
@@ -969,6 +969,8 @@ class TRUNBox(Box):
         flags = 0x000001 | 0x000100 | 0x000200 | 0x000400
         if self.use_comp_off:
             flags |= 0x000800
+        if any(sample.offset < 0 for sample in self.samples):
+            flags |= 0x01000000  # Version 1 has signed offsets
 
         yield serialize_u32(self.size())
         yield serialize_name(b'trun')
-- 
2.43.0


From 9798cebd19e9f26c74d2208d3d1c047458b25091 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:22:49 +0000
Subject: [PATCH 36/59] fix: chunked segments lost all fragments and runs but
 the first

---
 dashlivesim/dashlib/chunker.py | 37 ++++++++++++++++++++--------------
 1 file changed, 22 insertions(+), 15 deletions(-)

diff --git a/dashlivesim/dashlib/chunker.py b/dashlivesim/dashlib/chunker.py
index 321106d..0f25496 100644
--- a/dashlivesim/dashlib/chunker.py
+++ b/dashlivesim/dashlib/chunker.py
@@ -38,34 +38,41 @@ from dashlivesim.dashlib.boxes import create_moof, create_mdat, Sample
 def decode_fragment(data, trex):
     "Extract samples from a segment."
     root = mp4(data)
-    moof = root.find(b'moof')
+    for moof in root.find_all(b'moof'):
+        for sample in decode_moof(root, moof, trex):
+            yield sample
+
+
+def decode_moof(root, moof, trex):
+    "Extract samples from all runs of one fragment of a segment."
     tfhd = moof.find(b'traf.tfhd')
     tfdt = moof.find(b'traf.tfdt')
-    trun = moof.find(b'traf.trun')
 
     base_data_offset = tfhd.base_data_offset if tfhd.has_base_data_offset else moof.offset
-    data_offset = trun.data_offset if trun.has_data_offset else 0
     base_media_decode_time = tfdt.decode_time
 
     t0, t1 = base_media_decode_time, base_media_decode_time
-    begin, end = 0, 0
+    begin, end = base_data_offset, base_data_offset
     default_sample_duration = (tfhd.default_sample_duration if tfhd.has_default_sample_duration else
                                trex.default_sample_duration)
     default_sample_size = (tfhd.default_sample_size if tfhd.has_default_sample_size else
                            trex.default_sample_size)
     default_sample_flags = (tfhd.default_sample_flags if tfhd.has_default_sample_flags else
                             trex.default_sample_flags)
-    for i, entry in enumerate(map(trun.sample_entry, range(trun.sample_count))):
-        duration = entry['duration'] if trun.has_sample_duration else default_sample_duration
-        size = entry['size'] if trun.has_sample_size else default_sample_size
-        flags = entry['flags'] if trun.has_sample_flags else default_sample_flags
-        if i == 0 and trun.has_first_sample_flags:
-            flags = trun.first_sample_flags
-        time_offset = entry['time_offset'] if trun.has_sample_composition_time_offset else 0
-        begin, end = end, end + size
-        data = root.fmap[base_data_offset+data_offset:][begin:end]
-        t0, t1 = t1, t1 + duration
-        yield Sample(data, t0, duration, flags & 0x10000 == 0, time_offset, flags)
+    for trun in moof.find_all(b'traf.trun'):
+        if trun.has_data_offset:
+            begin, end = base_data_offset + trun.data_offset, base_data_offset + trun.data_offset
+        for i, entry in enumerate(map(trun.sample_entry, range(trun.sample_count))):
+            duration = entry['duration'] if trun.has_sample_duration else default_sample_duration
+            size = entry['size'] if trun.has_sample_size else default_sample_size
+            flags = entry['flags'] if trun.has_sample_flags else default_sample_flags
+            if i == 0 and trun.has_first_sample_flags:
+                flags = trun.first_sample_flags
+            time_offset = entry['time_offset'] if trun.has_sample_composition_time_offset else 0
+            begin, end = end, end + size
+            data = root.fmap[begin:end]
+            t0, t1 = t1, t1 + duration
+            yield Sample(data, t0, duration, flags & 0x10000 == 0, time_offset, flags)
 
 
 def partition(samples, duration):
-- 
2.43.0


From 543615712f53654469c0562ea89f6bcbecea5760 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:22:49 +0000
Subject: [PATCH 37/59] fix: chunked segments lost their segment type (with
 lmsg) and events

---
 dashlivesim/dashlib/chunker.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/dashlivesim/dashlib/chunker.py b/dashlivesim/dashlib/chunker.py
index 0f25496..04e7130 100644
--- a/dashlivesim/dashlib/chunker.py
+++ b/dashlivesim/dashlib/chunker.py
@@ -110,6 +110,11 @@ def chunk(data, duration, trex_box):
     chunks = []
     for moof, mdat in fragments:
         chunks.append(moof.serialize() + mdat.serialize())
+    if chunks:
+        # Segment type and events come with the first chunk. An index would not fit the chunks.
+        last_moof = root.find_all(b'moof')[-1].offset
+        chunks[0] = b"".join([box.raw_data for box in root.children if box.offset < last_moof and
+                              box.type not in (b'moof', b'mdat', b'sidx')] + [chunks[0]])
     return chunks
 
 
-- 
2.43.0


From df4d1b250832088541b1952d4d073fa21a59a8d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:25:18 +0000
Subject: [PATCH 38/59] fix: infinite availabilityTimeOffset in low-latency
 MPDs

---
 dashlivesim/dashlib/mpd_proxy.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/dashlivesim/dashlib/mpd_proxy.py b/dashlivesim/dashlib/mpd_proxy.py
index f8cb163..ddc9836 100644
--- a/dashlivesim/dashlib/mpd_proxy.py
+++ b/dashlivesim/dashlib/mpd_proxy.py
@@ -100,7 +100,8 @@ def generate_dynamic_mpd(dashProv, mpd_filename, in_data, now):
         if not cfg.availability_time_complete:
             mpd_data['availabilityTimeComplete'] = 'false'
     else:  # Set these values in the ll_data
-        ll_data['availabilityTimeOffset'] = '%f' % in_data['availability_time_offset_in_s']
+        ato = in_data['availability_time_offset_in_s']
+        ll_data['availabilityTimeOffset'] = 'INF' if ato == -1 else '%f' % ato
         ll_data['availabilityTimeComplete'] = 'false'
 
     if cfg.chunk_duration_in_s is not None and cfg.chunk_duration_in_s > 0:
-- 
2.43.0


From da8e4f54b0a4465cc05e33e6ae58f12414eeec46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:25:18 +0000
Subject: [PATCH 39/59] fix: producer reference time of low-latency sessions
 that do not start at the epoch

---
 dashlivesim/dashlib/mpd_proxy.py    | 1 +
 dashlivesim/dashlib/mpdprocessor.py | 6 +++---
 2 files changed, 4 insertions(+), 3 deletions(-)

diff --git a/dashlivesim/dashlib/mpd_proxy.py b/dashlivesim/dashlib/mpd_proxy.py
index ddc9836..9753e0b 100644
--- a/dashlivesim/dashlib/mpd_proxy.py
+++ b/dashlivesim/dashlib/mpd_proxy.py
@@ -103,6 +103,7 @@ def generate_dynamic_mpd(dashProv, mpd_filename, in_data, now):
         ato = in_data['availability_time_offset_in_s']
         ll_data['availabilityTimeOffset'] = 'INF' if ato == -1 else '%f' % ato
         ll_data['availabilityTimeComplete'] = 'false'
+        ll_data['mediaTimeZero'] = make_timestamp(cfg.availability_start_time_in_s - cfg.adjusted_pto(0, 1))
 
     if cfg.chunk_duration_in_s is not None and cfg.chunk_duration_in_s > 0:
         if len(mpd_proc_cfg['utc_timing_methods']) == 0:
diff --git a/dashlivesim/dashlib/mpdprocessor.py b/dashlivesim/dashlib/mpdprocessor.py
index 7049eaa..8269001 100644
--- a/dashlivesim/dashlib/mpdprocessor.py
+++ b/dashlivesim/dashlib/mpdprocessor.py
@@ -257,11 +257,11 @@ class MpdProcessor(object):
         sd_elem.tail = "\n"
         mpd.insert(pos, sd_elem)
 
-    def insert_producer_reference(self, ad_set, pos):
+    def insert_producer_reference(self, ad_set, pos, wall_clock_time):
         prt_elem = ElementTree.Element(add_ns('ProducerReferenceTime'))
         prt_elem.set("id", "0")
         prt_elem.set("type", "encoder")
-        prt_elem.set("wallClockTime", "1970-01-01T00:00:00")
+        prt_elem.set("wallClockTime", wall_clock_time)
         prt_elem.set("presentationTime", "0")
         utc_elem = self.create_descriptor_elem('UTCTiming', 'urn:mpeg:dash:utc:http-iso:2014',
                                                UTC_TIMING_HTTP_SERVER)
@@ -356,7 +356,7 @@ class MpdProcessor(object):
                                                                         last_period_id)
                     ad_set.insert(ad_pos, supplementalprop_elem)
                 if ll_data:
-                    self.insert_producer_reference(ad_set, ad_pos)
+                    self.insert_producer_reference(ad_set, ad_pos, ll_data['mediaTimeZero'])
                 seg_templates = ad_set.findall(add_ns('SegmentTemplate'))
                 for seg_template in seg_templates:
                     set_attribs(seg_template, segmenttemplate_attribs, pdata)
-- 
2.43.0


From d8821a46c9653ce82a9ed808b5ee4dd3dcfb426a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:51:49 +0000
Subject: [PATCH 40/59] fix: update the sample size of a retimed TTML segment
 also when the trun box carries it

---
 dashlivesim/dashlib/mediasegmentfilter.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/dashlivesim/dashlib/mediasegmentfilter.py b/dashlivesim/dashlib/mediasegmentfilter.py
index 44f788f..a1ca1c7 100644
--- a/dashlivesim/dashlib/mediasegmentfilter.py
+++ b/dashlivesim/dashlib/mediasegmentfilter.py
@@ -188,6 +188,8 @@ class MediaSegmentFilter(MP4Filter):
             elif self.default_sample_duration is not None:
                 duration += self.default_sample_duration
             if sample_size_present:
+                if self.ttml_size is not None:  # The one sample of a ttml segment has changed
+                    data = data[:pos] + uint32_to_str(self.ttml_size) + data[pos+4:]
                 pos += 4
             if sample_flags_present:
                 pos += 4
-- 
2.43.0


From c37525f414ecd9ad1ea49562e0e9565f2e92afed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:52:03 +0000
Subject: [PATCH 41/59] fix: find a period of an xlink MPD by its position
 instead of the first text that looks like its id

---
 dashlivesim/dashlib/mpd_proxy.py | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/dashlivesim/dashlib/mpd_proxy.py b/dashlivesim/dashlib/mpd_proxy.py
index 9753e0b..f663d80 100644
--- a/dashlivesim/dashlib/mpd_proxy.py
+++ b/dashlivesim/dashlib/mpd_proxy.py
@@ -117,6 +117,16 @@ def generate_dynamic_mpd(dashProv, mpd_filename, in_data, now):
     return mpmod.get_full_xml()
 
 
+def find_period(response, period_id):
+    "Find the position of the period with this id in the MPD."
+    start_pos_period = -1
+    for period in ET.fromstring(response).findall('{urn:mpeg:dash:schema:mpd:2011}Period'):
+        start_pos_period = response.find("<Period", start_pos_period + 1)
+        if period.get('id') == period_id:
+            return start_pos_period
+    raise Exception("There is no period %s now." % period_id)
+
+
 def generate_response_with_xlink(response, cfg, filename, nr_periods_per_hour, nr_xlink_periods_per_hour, insert_ad):
     "Convert the normally created response into a response which has xlinks"
     # This functions has two functionality : 1.For MPD and 2.For PERIOD.
@@ -139,7 +149,7 @@ def generate_response_with_xlink(response, cfg, filename, nr_periods_per_hour, n
         counter = 0
         for period_id in period_id_all:
             # Start replacing only if this condition is met.
-            start_pos_period = response.find(period_id) - 12
+            start_pos_period = find_period(response, period_id)
             # Find the position in the string file of the period that has be replaced
             end_pos_period = response.find("</Period>", start_pos_period) + 9
             # End position of the corresponding period.
@@ -186,7 +196,7 @@ def generate_response_with_xlink(response, cfg, filename, nr_periods_per_hour, n
         # Second part of string has the period id.
         start_pos_xmlns = response.find("xmlns=")
         end_pos_xmlns = response.find('"', start_pos_xmlns + 7) + 1
-        start_pos_period = response.find(filename[:-7]) - 12
+        start_pos_period = find_period(response, filename[:-7])
         # Find the position in the string file of the period that has be replaced.
         end_pos_period = response.find("</Period>", start_pos_period) + 9
         # End position of the corresponding period.
-- 
2.43.0


From c106d4a37282fae14f0c463330b8c4e78c7bfb44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:52:03 +0000
Subject: [PATCH 42/59] fix: take the first BaseURL for xlink periods also when
 it has attributes or is one of several

---
 dashlivesim/dashlib/mpd_proxy.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dashlivesim/dashlib/mpd_proxy.py b/dashlivesim/dashlib/mpd_proxy.py
index f663d80..4d31625 100644
--- a/dashlivesim/dashlib/mpd_proxy.py
+++ b/dashlivesim/dashlib/mpd_proxy.py
@@ -145,7 +145,7 @@ def generate_response_with_xlink(response, cfg, filename, nr_periods_per_hour, n
         one_xlinks_for_how_many_periods = nr_periods_per_hour // nr_xlink_periods_per_hour
         period_id_xlinks = [x for x in period_id_all if int(x[1:]) % one_xlinks_for_how_many_periods == 0]
         # Periods that will be replaced with links.
-        base_url = findall('<BaseURL>([^"]*)</BaseURL>', response)
+        base_url = findall('<BaseURL[^>]*>([^<]*)</BaseURL>', response)
         counter = 0
         for period_id in period_id_all:
             # Start replacing only if this condition is met.
-- 
2.43.0


From 5237bbae6e1603fbd136df3ea0689d58fd460da9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:52:10 +0000
Subject: [PATCH 43/59] fix: declare all namespaces of the MPD in the answer to
 an xlink period request

---
 dashlivesim/dashlib/mpd_proxy.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/dashlivesim/dashlib/mpd_proxy.py b/dashlivesim/dashlib/mpd_proxy.py
index 4d31625..89544fc 100644
--- a/dashlivesim/dashlib/mpd_proxy.py
+++ b/dashlivesim/dashlib/mpd_proxy.py
@@ -194,14 +194,15 @@ def generate_response_with_xlink(response, cfg, filename, nr_periods_per_hour, n
         # Start manipulating the original period so that it looks like .period in the static xlink file.
         filename = filename.split('+')[1]
         # Second part of string has the period id.
-        start_pos_xmlns = response.find("xmlns=")
-        end_pos_xmlns = response.find('"', start_pos_xmlns + 7) + 1
+        start_pos_mpd = response.find("<MPD")
+        xmlns = findall('xmlns[^ =]*="[^"]*"', response[start_pos_mpd:response.find(">", start_pos_mpd)])
+        # All namespaces, since any may be used in the period.
         start_pos_period = find_period(response, filename[:-7])
         # Find the position in the string file of the period that has be replaced.
         end_pos_period = response.find("</Period>", start_pos_period) + 9
         # End position of the corresponding period.
         original_period = response[start_pos_period:end_pos_period]
-        original_period = original_period.replace('">', '" ' + response[start_pos_xmlns:end_pos_xmlns] + '>', 1)
+        original_period = original_period.replace('">', '" ' + ' '.join(xmlns) + '>', 1)
         # xml_intro = '<?xml version="1.0" encoding="utf-8"?>\n'
         # response = xml_intro + original_period
         response = original_period
-- 
2.43.0


From 8f9385db229136a7293847c5d3f0a0d08b1b863c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:00:31 +0000
Subject: [PATCH 44/59] fix: vodanalyzer: start a new run of equal durations
 when a segment does not follow the previous one

---
 dashlivesim/vodanalyzer/dashanalyzer.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dashlivesim/vodanalyzer/dashanalyzer.py b/dashlivesim/vodanalyzer/dashanalyzer.py
index 299821b..006c4c4 100644
--- a/dashlivesim/vodanalyzer/dashanalyzer.py
+++ b/dashlivesim/vodanalyzer/dashanalyzer.py
@@ -204,7 +204,7 @@ class DashAnalyzer(object):
                         tfdt = msf.get_tfdt_value()
                         duration = msf.get_duration()
                         print("{0} {1:8d} {2}  {3}".format(content_type, segNr, tfdt, duration))
-                        if duration == lastDuration:
+                        if duration == lastDuration and tfdt == rep_data['endTick']:
                             repeatCount += 1
                         else:
                             if lastDuration != 0 and rep_nr == 0:
-- 
2.43.0


From 28c2c5d66928bca21a77d18e6d7358aeebcdd29b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:00:32 +0000
Subject: [PATCH 45/59] fix: initsegmentfilter: read the timescale of a version
 1 mdhd box

---
 dashlivesim/dashlib/initsegmentfilter.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/dashlivesim/dashlib/initsegmentfilter.py b/dashlivesim/dashlib/initsegmentfilter.py
index cad01e3..7ad8c54 100644
--- a/dashlivesim/dashlib/initsegmentfilter.py
+++ b/dashlivesim/dashlib/initsegmentfilter.py
@@ -61,7 +61,10 @@ class InitFilter(MP4Filter):
 
     def process_mdhd(self, data):
         "Process mdhd to get track_timscale."
-        self._track_timescale = str_to_uint32(data[20:24])
+        if data[8] == 1:  # 64-bit creation and modification times
+            self._track_timescale = str_to_uint32(data[28:32])
+        else:
+            self._track_timescale = str_to_uint32(data[20:24])
         return data
 
     def process_trex(self, data):
-- 
2.43.0


From 3b84a36de08757b6a5feca4a02feaf100dedb4b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:00:32 +0000
Subject: [PATCH 46/59] fix: vodanalyzer: loop the segments which all
 representations have

---
 dashlivesim/vodanalyzer/dashanalyzer.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/dashlivesim/vodanalyzer/dashanalyzer.py b/dashlivesim/vodanalyzer/dashanalyzer.py
index 006c4c4..7586ab6 100644
--- a/dashlivesim/vodanalyzer/dashanalyzer.py
+++ b/dashlivesim/vodanalyzer/dashanalyzer.py
@@ -148,6 +148,8 @@ class DashAnalyzer(object):
     def checkAndUpdateMediaData(self):
         """Check all segments for good values and return startTimes and total duration."""
         lastGoodSegments = []
+        # Segments which are not available in all representations are not part of the loop.
+        lastCommonNr = min(rep_data['lastNumber'] for as_data in self.as_data.values() for rep_data in as_data['reps'])
 
         print("Checking all the media segment durations for deviations.")
 
@@ -191,7 +193,7 @@ class DashAnalyzer(object):
                     lastDuration = 0
                     while (True):
                         segmentPath = rep_data['absMediaPath'] % segNr
-                        if not os.path.exists(segmentPath):
+                        if segNr > lastCommonNr or not os.path.exists(segmentPath):
                             if self.verbose:
                                 print("\nLast good %s segment is %d, endTime=%.3fs, totalTime=%.3fs" % (
                                       rep_id, rep_data['endNr'], rep_data['endTime'],
-- 
2.43.0


From 515d6149faeba0c187938e5789f7dca91b20f39d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:26:44 +0000
Subject: [PATCH 47/59] fix: do not share the header dictionary of error
 replies between requests

---
 dashlivesim/mod_wsgi/mod_dashlivesim.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/dashlivesim/mod_wsgi/mod_dashlivesim.py b/dashlivesim/mod_wsgi/mod_dashlivesim.py
index 8ec53fa..0457ff3 100644
--- a/dashlivesim/mod_wsgi/mod_dashlivesim.py
+++ b/dashlivesim/mod_wsgi/mod_dashlivesim.py
@@ -59,6 +59,7 @@ status_string = {
 def start_reply(status_code, response, length=-1, headers={}):
     "Start reply by writing headers reply."
     status = "%d %s" % (status_code, status_string[status_code])
+    headers = dict(headers)  # Not shared with other requests
 
     # Add default headers to all requests
     headers['Accept-Ranges'] = 'bytes'
-- 
2.43.0


From 0e7bcfb80f8a2ea03e8bcdb75cdf511c9bcc7bdc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:23:01 +0000
Subject: [PATCH 48/59] fix: mediasegmentfilter: move the offsets of a fragment
 only if that fragment grew

After a tfdt box had been widened to 64 bits, the sample data offsets (trun)
and the auxiliary offsets (saio) of all later fragments of the same segment
were moved by four bytes, even where their own tfdt had not been widened.
---
 dashlivesim/dashlib/mediasegmentfilter.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/dashlivesim/dashlib/mediasegmentfilter.py b/dashlivesim/dashlib/mediasegmentfilter.py
index a1ca1c7..1ac6bed 100644
--- a/dashlivesim/dashlib/mediasegmentfilter.py
+++ b/dashlivesim/dashlib/mediasegmentfilter.py
@@ -160,6 +160,7 @@ class MediaSegmentFilter(MP4Filter):
 
     def process_mfhd(self, data):
         "Process mfhd box and set segmentNumber if requested."
+        self.size_change = 0  # Nothing in this fragment has grown so far
         if self.seg_nr is None:
             return data
         else:
-- 
2.43.0


From cbbe97c4d3b1c0b523e4d4431d8f652176b8c732 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:24:43 +0000
Subject: [PATCH 49/59] fix: segmentmuxer: adjust the data offsets of all runs
 of a track

With several trun boxes in a track fragment, only the last data offset was
adjusted when two segments were multiplexed.
---
 dashlivesim/dashlib/segmentmuxer.py | 17 +++++++----------
 1 file changed, 7 insertions(+), 10 deletions(-)

diff --git a/dashlivesim/dashlib/segmentmuxer.py b/dashlivesim/dashlib/segmentmuxer.py
index a3ac3ec..40c0396 100644
--- a/dashlivesim/dashlib/segmentmuxer.py
+++ b/dashlivesim/dashlib/segmentmuxer.py
@@ -127,8 +127,7 @@ class MediaSegmentStructure(MP4Filter):
     def __init__(self, filename=None, data=None):
         MP4Filter.__init__(self, filename, data)
         self.top_level_boxes_to_parse = [b'styp', b'moof', b'mdat']
-        self.trun_data_offset = None
-        self.trun_data_offset_in_traf = None
+        self.trun_data_offsets = []  # (position in traf, data_offset) of every trun box that has one
         self.traf_start = None
         self.styp = b""  # Optional
         self.mfhd = None
@@ -142,8 +141,7 @@ class MediaSegmentStructure(MP4Filter):
         flags = str_to_uint32(data[8:12]) & 0xffffff
         data_offset_present = flags & 1
         if data_offset_present:
-            self.trun_data_offset = str_to_uint32(data[16:20])
-            self.trun_data_offset_in_traf = pos + 16 - self.traf_start
+            self.trun_data_offsets.append((pos + 16 - self.traf_start, str_to_uint32(data[16:20])))
 
     def filter_box(self, boxtype, data, file_pos, path=b""):
         "Filter box or tree of boxes recursively."
@@ -204,13 +202,12 @@ class MultiplexMediaSegments(object):
         "Mux media samples into one mdata. This is done by simple concatenation."
 
         def get_traf_with_mod_offset(mstruct, delta_offset):
-            "Get a traf box but with modified offset."
-            if mstruct.trun_data_offset is None:
-                return mstruct.traf
-            new_data_offset = mstruct.trun_data_offset + delta_offset
+            "Get a traf box but with modified offsets."
             traf = mstruct.traf
-            offset = mstruct.trun_data_offset_in_traf
-            return traf[:offset] + uint32_to_str(new_data_offset) + traf[offset+4:]
+            for position, data_offset in mstruct.trun_data_offsets:
+                new_data_offset = data_offset + delta_offset
+                traf = traf[:position] + uint32_to_str(new_data_offset) + traf[position+4:]
+            return traf
 
         moof_size = (8 + len(self.mstruct1.mfhd) + len(self.mstruct1.moof_other) + len(self.mstruct2.moof_other) +
                      len(self.mstruct1.traf) + len(self.mstruct2.traf))
-- 
2.43.0


From 6cb8637178aa7ea9e5a86752c9ed3f1f90dee680 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:26:03 +0000
Subject: [PATCH 50/59] fix: segmentmuxer: keep the event messages of the
 multiplexed segments

emsg boxes, including the SCTE-35 events inserted into video segments, were
dropped when two segments were multiplexed.
---
 dashlivesim/dashlib/segmentmuxer.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/dashlivesim/dashlib/segmentmuxer.py b/dashlivesim/dashlib/segmentmuxer.py
index 40c0396..948a53f 100644
--- a/dashlivesim/dashlib/segmentmuxer.py
+++ b/dashlivesim/dashlib/segmentmuxer.py
@@ -126,10 +126,11 @@ class MediaSegmentStructure(MP4Filter):
 
     def __init__(self, filename=None, data=None):
         MP4Filter.__init__(self, filename, data)
-        self.top_level_boxes_to_parse = [b'styp', b'moof', b'mdat']
+        self.top_level_boxes_to_parse = [b'styp', b'emsg', b'moof', b'mdat']
         self.trun_data_offsets = []  # (position in traf, data_offset) of every trun box that has one
         self.traf_start = None
         self.styp = b""  # Optional
+        self.events = b""  # Optional emsg boxes
         self.mfhd = None
         self.traf = None
         self.moof_other = b""  # Other boxes in moof, like pssh
@@ -147,6 +148,8 @@ class MediaSegmentStructure(MP4Filter):
         "Filter box or tree of boxes recursively."
         if boxtype == b"styp":
             self.styp = data
+        elif boxtype == b"emsg":
+            self.events += data
         elif boxtype == b"moof":
             self.moof = data
         elif boxtype == b"mdat":
@@ -220,6 +223,8 @@ class MultiplexMediaSegments(object):
 
         data = []
         data.append(self.mstruct1.styp)
+        data.append(self.mstruct1.events)
+        data.append(self.mstruct2.events)
         data.append(uint32_to_str(moof_size))
         data.append(b'moof')
         data.append(self.mstruct1.mfhd)
-- 
2.43.0


From ebb774556769766228c7c6279fc2b590709358ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:29:03 +0000
Subject: [PATCH 51/59] fix: time-addressed segments of multiplexed
 representations and of subdirectories

The timescale was only found if the path between content and file was exactly
the identifier of the representation, so $Time$ requests for rep1__rep2 and for
representations stored in a subdirectory gave an error.
---
 dashlivesim/dashlib/dash_proxy.py | 18 +++---------------
 1 file changed, 3 insertions(+), 15 deletions(-)

diff --git a/dashlivesim/dashlib/dash_proxy.py b/dashlivesim/dashlib/dash_proxy.py
index 2ae5ab5..743539d 100644
--- a/dashlivesim/dashlib/dash_proxy.py
+++ b/dashlivesim/dashlib/dash_proxy.py
@@ -215,14 +215,8 @@ def process_media_segment(dashProv, now_float, chunk):
     # pylint: disable=too-many-locals
 
     def get_timescale(cfg):
-        "Get timescale for the current representation."
-        timescale = None
-        curr_rep_id = cfg.rel_path
-        for rep in cfg.reps:
-            if rep['id'] == curr_rep_id:
-                timescale = rep['timescale']
-                break
-        return timescale
+        "Get timescale for the current representation, the first one if several are multiplexed."
+        return cfg.reps[0]['timescale']
     cfg = dashProv.cfg
     seg_dur = cfg.seg_duration
     seg_name = cfg.filename
@@ -336,13 +330,7 @@ def process_thumbnail(dashProv, now_float):
 
     def get_timescale(cfg):
         "Get timescale for the current representation."
-        timescale = None
-        curr_rep_id = cfg.rel_path
-        for rep in cfg.reps:
-            if rep['id'] == curr_rep_id:
-                timescale = rep['timescale']
-                break
-        return timescale
+        return cfg.reps[0]['timescale']
 
     cfg = dashProv.cfg
     seg_dur = cfg.seg_duration
-- 
2.43.0


From 6fbb9647f52a3b0ba7f702e7b5e6e2fa3e4dcd41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:45:01 +0000
Subject: [PATCH 52/59] fix: sidx_1 with boxes between the fragments of the
 segment (size of the index)

---
 dashlivesim/dashlib/mediasegmentfilter.py | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/dashlivesim/dashlib/mediasegmentfilter.py b/dashlivesim/dashlib/mediasegmentfilter.py
index 1ac6bed..d431130 100644
--- a/dashlivesim/dashlib/mediasegmentfilter.py
+++ b/dashlivesim/dashlib/mediasegmentfilter.py
@@ -84,13 +84,11 @@ class MediaSegmentFilter(MP4Filter):
             pos = 0
             moof_start = None
             for size, box in self.output_top_level_boxes:
-                if box == b'moof':
-                    if moof_start is None:
-                        moof_start = pos
-                    seg_size += size
-                elif box == b'mdat':
-                    seg_size += size
+                if box == b'moof' and moof_start is None:
+                    moof_start = pos
                 pos += size
+                if box in (b'moof', b'mdat') and moof_start is not None:
+                    seg_size = pos - moof_start  # Includes what stands between the fragments
             sidx = self.create_sidx(seg_size)
             self.output = (self.output[:moof_start] + sidx +
                            self.output[moof_start:])
-- 
2.43.0


From ab85cd5b62d4c84974fc4a30150d0dfdf2583b4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:45:14 +0000
Subject: [PATCH 53/59] fix: event of a simulated loss in a segment of several
 fragments with sidx_1 was written inside a box

---
 dashlivesim/dashlib/mediasegmentfilter.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/dashlivesim/dashlib/mediasegmentfilter.py b/dashlivesim/dashlib/mediasegmentfilter.py
index d431130..50fde58 100644
--- a/dashlivesim/dashlib/mediasegmentfilter.py
+++ b/dashlivesim/dashlib/mediasegmentfilter.py
@@ -96,8 +96,9 @@ class MediaSegmentFilter(MP4Filter):
             pos = 0
             moof_start = 0
             for size, box in self.output_top_level_boxes:
-                if box == b'moof':
+                if box == b'moof':  # The event stands before the first fragment, and its index if there is one
                     moof_start = pos
+                    break
                 pos += size
             emsg_box = self.create_emsg()
             self.output = (self.output[:moof_start] + emsg_box +
-- 
2.43.0


From 5cb5fc82da8c7e4321ce9d315b783b446acbc09a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:12:44 +0000
Subject: [PATCH 54/59] fix: time-shift buffer in the MPD of sessions of
 limited duration that do not keep all segments

---
 dashlivesim/dashlib/mpdprocessor.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/dashlivesim/dashlib/mpdprocessor.py b/dashlivesim/dashlib/mpdprocessor.py
index 8269001..7c8b313 100644
--- a/dashlivesim/dashlib/mpdprocessor.py
+++ b/dashlivesim/dashlib/mpdprocessor.py
@@ -119,7 +119,8 @@ class MpdProcessor(object):
                     'mediaPresentationDuration', 'suggestedPresentationDelay']
         if mpd_data.get('type', 'dynamic') == 'static':
             key_list.remove('minimumUpdatePeriod')
-        if (mpd_data.get('type', 'dynamic') == 'static' or mpd_data.get('mediaPresentationDuration')):
+        stops = self.cfg is not None and self.cfg.stop_time is not None  # All segments since the start stay available
+        if mpd_data.get('type', 'dynamic') == 'static' or stops:
             key_list.remove('timeShiftBufferDepth')
         set_values_from_dict(mpd, key_list, mpd_data)
         if 'mediaPresentationDuration' in mpd.attrib and 'mediaPresentationDuration' not in mpd_data:
-- 
2.43.0


From c8344d2749b92d2ff7048c2ebcf59c3f4be769ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:15:25 +0000
Subject: [PATCH 55/59] fix: periods of a multi-period presentation with an end
 (none starts after the end, and all stay after a stop)

---
 dashlivesim/dashlib/mpd_proxy.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/dashlivesim/dashlib/mpd_proxy.py b/dashlivesim/dashlib/mpd_proxy.py
index 89544fc..f10e57b 100644
--- a/dashlivesim/dashlib/mpd_proxy.py
+++ b/dashlivesim/dashlib/mpd_proxy.py
@@ -253,7 +253,13 @@ def generate_period_data(mpd_data, now, cfg):
         # this_period_nr = now // period_duration
         last_period_nr = max(0, (now + half_period_duration) // period_duration)
         # this_period_start = this_period_nr * period_duration
+        if cfg.media_presentation_duration is not None:  # No period starts at the end of the session or later
+            end = int(cfg.media_presentation_duration)
+            last_period_nr = min(last_period_nr, max(0, (end - 1) // period_duration))
+            if cfg.stop_time is not None:  # Nothing changes after the stop
+                now = min(now, end)
         first_period_nr = max(0, (now - mpd_data['timeShiftBufferDepthInS'] - seg_dur) // period_duration)
+        first_period_nr = min(first_period_nr, last_period_nr)
         counter = 0
         for period_nr in range(first_period_nr, last_period_nr+1):
             start_time = period_nr * period_duration
-- 
2.43.0


From 6d4f6ac8ec963117f18d9159bf9d4fdfd2303ba1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:16:33 +0000
Subject: [PATCH 56/59] fix: durations of multiplexed initialization segments
 (zero, as in the separate ones)

---
 dashlivesim/dashlib/dash_proxy.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dashlivesim/dashlib/dash_proxy.py b/dashlivesim/dashlib/dash_proxy.py
index 743539d..f11c029 100644
--- a/dashlivesim/dashlib/dash_proxy.py
+++ b/dashlivesim/dashlib/dash_proxy.py
@@ -200,7 +200,7 @@ def process_init_segment(dashProv):
         com_path = "/".join(cfg.rel_path.split("/")[:-1])
         init1 = "%s/%s/%s/%s/%s" % (dashProv.content_dir, cfg.content_name, com_path, cfg.reps[0]['id'], cfg.filename)
         init2 = "%s/%s/%s/%s/%s" % (dashProv.content_dir, cfg.content_name, com_path, cfg.reps[1]['id'], cfg.filename)
-        muxed_inits = segmentmuxer.MultiplexInits(init1, init2)
+        muxed_inits = segmentmuxer.MultiplexInits(data1=InitLiveFilter(init1).filter(), data2=InitLiveFilter(init2).filter())
         data = muxed_inits.construct_muxed()
     else:
         data = error_response(dashProv, "Bad nr of representations: %d" % nr_reps)
-- 
2.43.0


From 0a36532d4348740aa9ee9414e9d6c3c2a1353101 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:19:06 +0000
Subject: [PATCH 57/59] fix: multiplexing of segments with several fragments
 (all are kept)

With the multiplexing on sample level only the last fragment of every
segment was kept. Segments of one fragment are multiplexed as before.
---
 dashlivesim/dashlib/segmentmuxer.py | 16 +++++++++++++++-
 1 file changed, 15 insertions(+), 1 deletion(-)

diff --git a/dashlivesim/dashlib/segmentmuxer.py b/dashlivesim/dashlib/segmentmuxer.py
index 948a53f..15ac485 100644
--- a/dashlivesim/dashlib/segmentmuxer.py
+++ b/dashlivesim/dashlib/segmentmuxer.py
@@ -30,6 +30,8 @@
 #  ARISING IN ANY WAY OUT OF THE USE OF THIS SOFTWARE, EVEN IF ADVISED OF THE
 #  POSSIBILITY OF SUCH DAMAGE.
 
+from itertools import zip_longest
+
 from dashlivesim.dashlib.mp4filter import MP4Filter
 from dashlivesim.dashlib.structops import uint32_to_str, str_to_uint32
 
@@ -136,6 +138,7 @@ class MediaSegmentStructure(MP4Filter):
         self.moof_other = b""  # Other boxes in moof, like pssh
         self.moof = None
         self.mdat = None
+        self.fragments = []  # Each with its media
 
     def parse_trun(self, data, pos):
         "Parse trun box and find position of data_offset."
@@ -152,8 +155,11 @@ class MediaSegmentStructure(MP4Filter):
             self.events += data
         elif boxtype == b"moof":
             self.moof = data
+            self.fragments.append(data)
         elif boxtype == b"mdat":
             self.mdat = data
+            if self.fragments:
+                self.fragments[-1] += data
         elif boxtype == b"mfhd":
             self.mfhd = data
         elif boxtype == b"traf":
@@ -202,7 +208,15 @@ class MultiplexMediaSegments(object):
         return b"".join(data)
 
     def mux_on_sample_level(self):
-        "Mux media samples into one mdata. This is done by simple concatenation."
+        """Mux media samples into one mdata. This is done by simple concatenation.
+
+        If there are several fragments, they are interleaved instead."""
+
+        if len(self.mstruct1.fragments) > 1 or len(self.mstruct2.fragments) > 1:
+            data = [self.mstruct1.styp, self.mstruct1.events, self.mstruct2.events]
+            for fragments in zip_longest(self.mstruct1.fragments, self.mstruct2.fragments, fillvalue=b""):
+                data.extend(fragments)
+            return b"".join(data)
 
         def get_traf_with_mod_offset(mstruct, delta_offset):
             "Get a traf box but with modified offsets."
-- 
2.43.0


From 6724304a6e6046829561245ef7d01e67626675f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:42:43 +0000
Subject: [PATCH 58/59] fix: segtimelineloss for servers whose schedule begins
 with an outage

Only a schedule of the kind u<x>_d<y> stopped the timeline during the outage;
with d<x>_u<y> it went on to list segments that were refused.
---
 dashlivesim/dashlib/mpd_proxy.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/dashlivesim/dashlib/mpd_proxy.py b/dashlivesim/dashlib/mpd_proxy.py
index f10e57b..fdafc95 100644
--- a/dashlivesim/dashlib/mpd_proxy.py
+++ b/dashlivesim/dashlib/mpd_proxy.py
@@ -52,6 +52,12 @@ def get_mpd(dashProv):
                     cfg.emsg_last_seg = True
                     response = generate_dynamic_mpd(dashProv, mpd_filename, mpd_input_data, dashProv.now)
                     cfg.emsg_last_seg = False
+        elif a_var[0] == 'd' and b_var[0] == 'u':
+            for i in range(num_loop):
+                if i * total_dur < now_mod_60 <= i * total_dur + dur1:
+                    latestUptime = dashProv.now - now_mod_60 + i * total_dur
+                    response = generate_dynamic_mpd(dashProv, mpd_filename, mpd_input_data, latestUptime)
+                    break
 
     if nr_xlink_periods_per_hour > 0:
         response = generate_response_with_xlink(response, cfg.ext, cfg.filename, nr_periods_per_hour,
-- 
2.43.0


From 64d6300c9ecb6a02d5d0973b3e8fb3431e40a2cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:42:43 +0000
Subject: [PATCH 59/59] fix: base URLs with their options also replace one that
 the stored MPD has

A stored BaseURL element got the new text, but neither the availability time
offset nor, for several servers, its own URL.
---
 dashlivesim/dashlib/mpdprocessor.py | 15 +++------------
 1 file changed, 3 insertions(+), 12 deletions(-)

diff --git a/dashlivesim/dashlib/mpdprocessor.py b/dashlivesim/dashlib/mpdprocessor.py
index 7c8b313..2e45801 100644
--- a/dashlivesim/dashlib/mpdprocessor.py
+++ b/dashlivesim/dashlib/mpdprocessor.py
@@ -151,17 +151,12 @@ class MpdProcessor(object):
             if child.tag != add_ns('ProgramInformation'):
                 break
             pos += 1
-        next_child = list(mpd)[pos]
+        for base_url in mpd.findall(add_ns('BaseURL')):  # To be replaced
+            mpd.remove(base_url)
         set_baseurl = SET_BASEURL
         if self.cfg and self.cfg.add_location:
             set_baseurl = False  # Cannot have both BASEURL and Location
-        if next_child.tag == add_ns('BaseURL'):
-            if 'BaseURL' not in data or not set_baseurl:
-                self.root.remove(next_child)
-            else:
-                self.modify_baseurl(next_child, data['BaseURL'])
-                pos += 1
-        elif ('BaseURL' in data) and set_baseurl:
+        if ('BaseURL' in data) and set_baseurl:
             if 'urls' in data and data['urls']:  # check if we have to set multiple URLs
                 url_header, url_body = data['BaseURL'].split('//')
                 url_parts = url_body.split('/')
@@ -225,10 +220,6 @@ class MpdProcessor(object):
             baseurl_elem.set('availabilityTimeComplete', new_atc)
         mpd.insert(pos, baseurl_elem)
 
-    def modify_baseurl(self, baseurl_elem, new_baseurl):
-        "Modify the text of an existing BaseURL"
-        baseurl_elem.text = new_baseurl
-
     def insert_ato(self, baseurl_elem, new_ato):
         "Add availabilityTimeOffset to BaseURL element"
         baseurl_elem.set('availabilityTimeOffset', new_ato)
-- 
2.43.0

