From 66073e330a670d07a5d74f0e4edcdbc873dfaef4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:41 +0000
Subject: [PATCH 001/102] fix: check new items against the data of the current
 first item of the series

After removing the first item or renaming labels the reference could be the data
of an item no longer in the series, so valid items were refused.
---
 timeseria/datastructures.py | 38 ++++++++++++++++++++++---------------
 timeseria/operations.py     | 12 ------------
 2 files changed, 23 insertions(+), 27 deletions(-)

diff --git a/timeseria/datastructures.py b/timeseria/datastructures.py
index 3b21f9d..f82081c 100644
--- a/timeseria/datastructures.py
+++ b/timeseria/datastructures.py
@@ -639,6 +639,27 @@ class Series(list):
         else:
             return self[0].__class__
 
+    @property
+    def _item_data_reference(self):
+        # The reference is always the data of the (current) first item
+        try:
+            return super(Series, self).__getitem__(0).data
+        except (IndexError, AttributeError):
+            return None
+
+    def _check_item_data(self, item):
+        """Check that the item data has the same type and the same length or labels of the data of the series items"""
+        item_data_reference = self._item_data_reference
+        if item_data_reference:
+            if not type(item_data_reference) == type(item.data):
+                raise TypeError('Got different data: {} vs {}'.format(item_data_reference.__class__.__name__, item.data.__class__.__name__))
+            if isinstance(item_data_reference, list):
+                if len(item_data_reference) != len(item.data):
+                    raise ValueError('Got different data lengths: {} vs {}'.format(len(item_data_reference), len(item.data)))
+            if isinstance(item_data_reference, dict):
+                if set(item_data_reference.keys()) != set(item.data.keys()):
+                    raise ValueError('Got different data labels: {} vs {}'.format(item_data_reference.keys(), item.data.keys()))
+
     def append(self, item):
         """Append an item to the series. Accepts only items of the same
         type of the items already present in the series (unless empty)"""
@@ -679,21 +700,8 @@ class Series(list):
                 except TypeError:
                     raise TypeError('Object of class "{}" does not implement a "__gt__" or a "__succedes__" method, cannot append it to a Series (which is ordered)'.format(item.__class__.__name__)) from None
 
-        # Check data type and set if not done already
-        if self and self._item_data_reference:
-            if not type(self._item_data_reference) == type(item.data):
-                raise TypeError('Got different data: {} vs {}'.format(self._item_data_reference.__class__.__name__, item.data.__class__.__name__))
-            if isinstance(self._item_data_reference, list):
-                if len(self._item_data_reference) != len(item.data):
-                    raise ValueError('Got different data lengths: {} vs {}'.format(len(self._item_data_reference), len(item.data)))
-            if isinstance(self._item_data_reference, dict):
-                if set(self._item_data_reference.keys()) != set(item.data.keys()):
-                    raise ValueError('Got different data labels: {} vs {}'.format(self._item_data_reference.keys(), item.data.keys()))
-        else:
-            try:
-                self._item_data_reference = item.data
-            except AttributeError:
-                self._item_data_reference = None
+        # Check data type, length and labels
+        self._check_item_data(item)
 
         # Append
         super(Series, self).append(item)
diff --git a/timeseria/operations.py b/timeseria/operations.py
index 70906f5..b112a8d 100644
--- a/timeseria/operations.py
+++ b/timeseria/operations.py
@@ -869,12 +869,6 @@ class Filter(Operation):
             filtered_item._data = {data_label: item._data_by_label(data_label) for data_label in data_labels}
             filtered_series.append(filtered_item)
 
-        # Re-set reference data as well
-        try:
-            filtered_series._item_data_reference = filtered_series[0].data
-        except (AttributeError, IndexError):
-            pass
-
         return filtered_series
 
 
@@ -990,12 +984,6 @@ class Slice(Operation):
             for item in series:
                 sliced_series.append(item)
 
-        # Re-set reference data as well
-        try:
-            sliced_series._item_data_reference = sliced_series[0].data
-        except (IndexError, AttributeError):
-            pass
-
         return sliced_series
 
 
-- 
2.43.0


From b7d18888fd2f43af2ee7132ed30cb1aefb06e50b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:41 +0000
Subject: [PATCH 002/102] fix: enforce order with the following item, and data
 type and labels, on insert

---
 timeseria/datastructures.py | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/timeseria/datastructures.py b/timeseria/datastructures.py
index f82081c..9a2b1db 100644
--- a/timeseria/datastructures.py
+++ b/timeseria/datastructures.py
@@ -750,6 +750,12 @@ class Series(list):
 
         if len(self) > 0:
 
+            # Handle negative positions as in the lists
+            if i < 0:
+                i = len(self) + i
+            if i < 0 or i > len(self):
+                raise IndexError('Cannot insert an item out of the series boundaries')
+
             # Check valid type
             if not isinstance(x, self.item_type):
                 raise TypeError('Got incompatible type "{}", can only accept "{}"'.format(x.__class__.__name__, self.item_type.__name__))
@@ -775,11 +781,14 @@ class Series(list):
                 try:
                     self[0].__succedes__
                 except AttributeError:
-                    if not x > self[i-1]:
+                    if not x > self[i-1] or not self[i] > x:
                         raise ValueError('Cannot insert element "{}" in position "{}" with element "{}" as not in order'.format(x,i, self[i])) from None
                 else:
                     raise IndexError('Cannot insert an item in the middle of a series whose items follow a succession'.format(i))
 
+            # Check data type, length and labels
+            self._check_item_data(x)
+
             super(Series, self).insert(i,x)
 
         else:
-- 
2.43.0


From bbec408ed5d878978c2b24ebf7619ea552055c11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:54 +0000
Subject: [PATCH 003/102] fix: a refused append must leave the time series as
 it was (order check and resolution included)

---
 timeseria/datastructures.py | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/timeseria/datastructures.py b/timeseria/datastructures.py
index 9a2b1db..92a9296 100644
--- a/timeseria/datastructures.py
+++ b/timeseria/datastructures.py
@@ -1241,6 +1241,17 @@ class TimeSeries(Series):
         (or :obj:`TimePoint` and :obj:`TimeSlot`, which are useful in some particular circumstances) and in any case
         of the same type of the items already present in the time series, unless empty."""
 
+        # If the item is refused, nothing must change
+        bookkeeping = self.__dict__.copy()
+        try:
+            self._append(item)
+        except Exception:
+            self.__dict__.clear()
+            self.__dict__.update(bookkeeping)
+            raise
+
+    def _append(self, item):
+
         if isinstance(item, TimePoint):
 
             try:
-- 
2.43.0


From e6608059a217f8bdc2d384fc4e76eb492e739d7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:54 +0000
Subject: [PATCH 004/102] fix: reset the cached sampling interval and guessed
 resolution when the series changes

---
 timeseria/datastructures.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/timeseria/datastructures.py b/timeseria/datastructures.py
index 92a9296..e046eeb 100644
--- a/timeseria/datastructures.py
+++ b/timeseria/datastructures.py
@@ -1294,11 +1294,7 @@ class TimeSeries(Series):
                                 self._resolution = 'variable'
             finally:
                 # Delete the autodetected sampling interval cache if present
-                try:
-                    del self._autodetected_sampling_interval
-                    del self._autodetected_sampling_interval_confidence
-                except:
-                    pass
+                self._reset_sampling_interval_cache()
                 # And set the prev
                 self.prev_t = item.t
 
@@ -1337,6 +1333,10 @@ class TimeSeries(Series):
         # Lastly, call the series append
         super(TimeSeries, self).append(item)
 
+    def _reset_sampling_interval_cache(self):
+        for attribute in ['_TimeSeries__autodetected_sampling_interval', '_TimeSeries__autodetected_sampling_interval_confidence', '_guessed_resolution']:
+            self.__dict__.pop(attribute, None)
+
     def _item_by_t(self, t):
         # TODO: improve performance, bisection first, then use an index?
         for item in self:
-- 
2.43.0


From faa39f0cb39430b937f141133e325f2ac3f2600b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:26 +0000
Subject: [PATCH 005/102] fix: keep the resolution in step with the items on
 insert, pop, remove and clear

---
 timeseria/datastructures.py | 47 +++++++++++++++++++++++++++++++++++++
 1 file changed, 47 insertions(+)

diff --git a/timeseria/datastructures.py b/timeseria/datastructures.py
index e046eeb..1c81318 100644
--- a/timeseria/datastructures.py
+++ b/timeseria/datastructures.py
@@ -1333,6 +1333,53 @@ class TimeSeries(Series):
         # Lastly, call the series append
         super(TimeSeries, self).append(item)
 
+    #=========================
+    #  Other changes
+    #=========================
+
+    def insert(self, i, x):
+        """Insert an item at a given position. See :func:`Series.insert`. For slots, the time zone and the unit are enforced as well."""
+        if len(self) > 0 and isinstance(x, TimeSlot) and isinstance(x, self.item_type):
+            if x.tz != self.tz or x.unit != self.resolution:
+                raise ValueError('Cannot insert slots on different timezones or with a different unit')
+        super(TimeSeries, self).insert(i, x)
+        self._refresh_resolution()
+
+    def remove(self, x):
+        """Remove an item. See :func:`Series.remove`."""
+        super(TimeSeries, self).remove(x)
+        self._refresh_resolution()
+
+    def pop(self, i=None):
+        """Remove and return an item. See :func:`Series.pop`."""
+        item = super(TimeSeries, self).pop(i)
+        self._refresh_resolution()
+        return item
+
+    def clear(self):
+        """Remove all items from the time series."""
+        super(TimeSeries, self).clear()
+        self._refresh_resolution()
+
+    def _refresh_resolution(self):
+        """Re-compute the resolution from the items, after changes other than an append."""
+        for attribute in ['_resolution', '_resolution_as_seconds', 'prev_t']:
+            self.__dict__.pop(attribute, None)
+        self._reset_sampling_interval_cache()
+        items = self.contents()
+        if items and isinstance(items[0], TimeSlot):
+            self._resolution = items[0].unit
+        elif items:
+            self.prev_t = items[-1].t
+            if len(items) > 1:
+                time_diff = items[1].t - items[0].t
+                if any(items[i].t - items[i-1].t != time_diff for i in range(2, len(items))):
+                    self._resolution = 'variable'
+                else:
+                    self._resolution_as_seconds = time_diff
+                    time_diff = int(time_diff*10000000)/10000000
+                    self._resolution = TimeUnit(_to_time_unit_string(time_diff, friendlier=True))
+
     def _reset_sampling_interval_cache(self):
         for attribute in ['_TimeSeries__autodetected_sampling_interval', '_TimeSeries__autodetected_sampling_interval_confidence', '_guessed_resolution']:
             self.__dict__.pop(attribute, None)
-- 
2.43.0


From 570820c97c7c8c432a7a8ea8532347a05a4ec75d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:26 +0000
Subject: [PATCH 006/102] fix: allow to pop the last item of a series in a
 succession by its position

---
 timeseria/datastructures.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/timeseria/datastructures.py b/timeseria/datastructures.py
index 1c81318..4d4599a 100644
--- a/timeseria/datastructures.py
+++ b/timeseria/datastructures.py
@@ -817,7 +817,7 @@ class Series(list):
         if len(self) == 0:
             raise IndexError('Cannot pop from an empty series')
         if i is not None:
-            if i not in [0, len(self)]:
+            if i not in [0, -1, len(self)-1, -len(self)]:
                 try:
                     self[0].__succedes__
                 except AttributeError:
-- 
2.43.0


From 48c0430dcd8e1e1d27af25b5386b8064ad188e33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:26 +0000
Subject: [PATCH 007/102] fix: Series.index() must return the index, and accept
 no boundaries

---
 timeseria/datastructures.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/timeseria/datastructures.py b/timeseria/datastructures.py
index 4d4599a..7192b9f 100644
--- a/timeseria/datastructures.py
+++ b/timeseria/datastructures.py
@@ -841,7 +841,7 @@ class Series(list):
         used to limit the search to a particular subsequence of the list. The returned index is
         computed relative to the beginning of the full sequence rather than the start argument.
         """
-        super(Series, self).index(x, start, end)
+        return super(Series, self).index(x, start if start is not None else 0, end if end is not None else len(self))
 
     def copy(self):
         """Return a shallow copy of the series."""
-- 
2.43.0


From 8a7320b82be83cf1207f265d3a7df6a60325b18c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:26 +0000
Subject: [PATCH 008/102] fix: detecting the sampling interval must terminate
 when almost all intervals are different

---
 timeseria/utilities.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/timeseria/utilities.py b/timeseria/utilities.py
index 40bb075..d73dd17 100644
--- a/timeseria/utilities.py
+++ b/timeseria/utilities.py
@@ -109,6 +109,7 @@ def detect_sampling_interval(timeseries, confidence=False):
             else:
                 diffs[diff] +=1
 
+        i += 1
         if i > 10:
             raise Exception('Cannot automatically detect the sampling interval')
 
-- 
2.43.0


From 0c86a02cc7d422e380ddaa50b9ac6f90e0474916 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:26 +0000
Subject: [PATCH 009/102] fix: sub-second intervals as 0.0625 must not lose
 their decimal point when converted to time units

---
 timeseria/utilities.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/timeseria/utilities.py b/timeseria/utilities.py
index d73dd17..d56e497 100644
--- a/timeseria/utilities.py
+++ b/timeseria/utilities.py
@@ -957,7 +957,9 @@ def _to_float(string,no_data_placeholders=[],label=None):
 def _to_time_unit_string(seconds, friendlier=True):
     """Converts seconds to a (friendlier) time unit string, as 1s, 1h, 10m etc.)"""
 
-    seconds_str = str(seconds).replace('.0', '')
+    seconds_str = str(seconds)
+    if seconds_str.endswith('.0'):
+        seconds_str = seconds_str[:-2]
     if friendlier:
         if seconds_str == '60':
             seconds_str = '1m'
-- 
2.43.0


From 2fa06b49cc572d2f5c5b39a7f4f70594fb437689 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:53 +0000
Subject: [PATCH 010/102] fix: slots one second apart are not in succession
 (the tolerance was relative to the epoch)

---
 timeseria/datastructures.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/timeseria/datastructures.py b/timeseria/datastructures.py
index 7192b9f..55fe483 100644
--- a/timeseria/datastructures.py
+++ b/timeseria/datastructures.py
@@ -436,8 +436,8 @@ class TimeSlot(Slot):
     # Overwrite parent succedes, this has better performance as it checks for only one dimension
     def __succedes__(self, other):
         if other.end.t != self.start.t:
-            # Take into account floating point rounding errors
-            if _is_close(other.end.t, self.start.t):
+            # Take into account floating point rounding errors (up to the microsecond)
+            if _is_close(other.end.t, self.start.t, rel_tol=0, abs_tol=1e-06):
                 return True
             return False
         else:
-- 
2.43.0


From 1d0d88dacbc6112ded0a1a6278f3791b775f2def Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:38 +0000
Subject: [PATCH 011/102] fix: views must check positions, clip slices, support
 nested or repeated iteration, time-based and full slicing

---
 timeseria/datastructures.py | 80 +++++++++++++++----------------------
 1 file changed, 33 insertions(+), 47 deletions(-)

diff --git a/timeseria/datastructures.py b/timeseria/datastructures.py
index 55fe483..f4c4c32 100644
--- a/timeseria/datastructures.py
+++ b/timeseria/datastructures.py
@@ -1408,6 +1408,8 @@ class TimeSeries(Series):
                 return self.slice(from_t=arg.start, to_t=arg.stop)
             elif isinstance(arg.start, datetime) or isinstance(arg.stop, datetime):
                 return self.slice(from_dt=arg.start, to_dt=arg.stop)
+            elif arg.start is None and arg.stop is None:
+                return self.slice()
             else:
                 raise ValueError('Don\'t know how to slice for data type "{}"'.format(arg.start.__class__.__name__))
         elif isinstance(arg, str):
@@ -1874,81 +1876,65 @@ class TimeSeriesView(TimeSeries):
 
     def __init__(self, *items, series=None, from_i=None, to_i=None, **kwargs):
         self.series = series
+        if series is not None:
+            # Missing, negative and out of range positions follow the slicing semantics
+            from_i, to_i, _ = slice(from_i, to_i).indices(len(series))
+            to_i = max(from_i, to_i)
         self.from_i = from_i
         self.to_i = to_i
         self.len = None
         # Call parent init in case we are using the series view as a normal series
         super().__init__(*items, **kwargs)
 
+    def _item_by_i(self, i):
+        if self.series is not None:
+            # Note: negative positions on an empty view are still looked up in the series,
+            # as evaluating window-less models (e.g. Prophet) relies on them.
+            if i >= len(self) or (i < -len(self) and len(self) > 0):
+                raise IndexError('Series view index out of range')
+            return self.series[self.from_i + i] if i >= 0 else self.series[self.to_i + i]
+        else:
+            return super()._item_by_i(i)
+
     def __getitem__(self, arg):
 
-        if self.series:
+        if self.series is not None:
 
             if isinstance(arg, slice):
 
-                if isinstance(arg.start, int):
-                    if arg.start>=0:
-                        slice_start =  self.from_i + arg.start
-                    else:
-                        slice_start =  self.to_i - abs(arg.start)
-                elif arg.start is None:
-                    slice_start = self.from_i
-                else:
-                    slice_start = arg.start
+                if arg.start is None and arg.stop is None:
+                    return self.slice()
 
-                if isinstance(arg.stop, int):
-                    if arg.stop>=0:
-                        slice_stop =  self.from_i + arg.stop
-                    else:
-                        slice_stop =  self.to_i - abs(arg.stop)
-                elif arg.stop is None:
-                    slice_stop = self.to_i
-                else:
-                    slice_stop = arg.stop
+                elif isinstance(arg.start, int) or isinstance(arg.stop, int):
+                    slice_start, slice_stop, _ = slice(arg.start, arg.stop).indices(len(self))
+                    return self.series[self.from_i + slice_start : self.from_i + max(slice_start, slice_stop)]
 
-                return self.series[slice_start:slice_stop]
+                else:
+                    # Time-based slicing: must not go outside the view
+                    return super().__getitem__(arg)
 
             else:
                 if isinstance(arg, int):
-                    if arg>=0:
-                        return self.series[self.from_i + arg]
-                    else:
-                        return self.series[self.to_i - abs(arg)]
+                    return self._item_by_i(arg)
                 else:
                     return super().__getitem__(arg)
         else:
             return super().__getitem__(arg)
 
     def __iter__(self):
-        if self.series:
-            self.count = 0
-            return self
+        if self.series is not None:
+            return (self.series[i] for i in range(self.from_i, self.to_i))
         else:
             return super().__iter__()
 
-    def __next__(self):
-        if self.series:
-            this_i = self.count + self.from_i
-
-            if this_i >= self.to_i:
-                # If reached the end stop
-                raise StopIteration
-
-            else:
-                # Otherwise return the corresponding item
-                self.count += 1
-                return self.series[this_i]
-        else:
-            return super().__next__()
-
     def __len__(self):
-        if self.series:
+        if self.series is not None:
             return self.to_i-self.from_i
         else:
             return super().__len__()
 
     def __repr__(self):
-        if self.series:
+        if self.series is not None:
             return 'View from element #{} to element #{} of: {}'.format(self.from_i, self.to_i, self.series)
         else:
             return super().__repr__()
@@ -1961,20 +1947,20 @@ class TimeSeriesView(TimeSeries):
 
     @property
     def item_type(self):
-        if self.series:
+        if self.series is not None:
             return self.series.item_type
         else:
             return super().item_type
 
     @property
     def resolution(self):
-        if self.series:
+        if self.series is not None:
             return self.series.resolution
         else:
             return super().resolution
 
     def data_labels(self):
-        if self.series:
+        if self.series is not None:
             return self.series.data_labels()
         else:
             return super().data_labels()
-- 
2.43.0


From 1a61b44fb4479f2edf9de564c9be6d988dbe220c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:46 +0000
Subject: [PATCH 012/102] fix: getting an item by a position before the
 beginning of the series must fail

---
 timeseria/operations.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/timeseria/operations.py b/timeseria/operations.py
index b112a8d..f3b91e0 100644
--- a/timeseria/operations.py
+++ b/timeseria/operations.py
@@ -836,6 +836,8 @@ class Get(Operation):
 
         # Handle negative index
         if at_i is not None and at_i < 0:
+            if abs(at_i) > len(series):
+                raise IndexError('Series index out of range')
             at_i = len(series) - abs(at_i)
 
         if at_i is not None:
-- 
2.43.0


From aee23292fe99c9bd64d857ccdf402d1ca388c4d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:06 +0000
Subject: [PATCH 013/102] fix: transformations must not leave weights and
 validity regions on the original items

---
 timeseria/transformations.py | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/timeseria/transformations.py b/timeseria/transformations.py
index 44b9c9c..a0217c0 100644
--- a/timeseria/transformations.py
+++ b/timeseria/transformations.py
@@ -382,14 +382,24 @@ class Transformation(object):
     def __str__(cls):
         return '{} transformation'.format(cls.__name__.replace('Transformation',''))
 
-    def process(self, series, target, start=None, end=None, validity=None, include_extremes=False,
-                fill_with=None,  force_data_loss=None, fill_gaps=True, **kwargs):
+    def process(self, series, *args, **kwargs):
         """Start the transformation process. If start and/or end are not set, they are set automatically
         based on first and last points of the series"""
 
         if not isinstance(series, TimeSeries):
             raise NotImplementedError('Transformations work only with TimeSeries data for now (got "{}")'.format(series.__class__.__name__))
 
+        try:
+            return self._process(series, *args, **kwargs)
+        finally:
+            # The support attributes attached while processing must not be left on the original items
+            for item in series:
+                for attribute in ['valid_from', 'valid_to', 'weight']:
+                    item.__dict__.pop(attribute, None)
+
+    def _process(self, series, target, start=None, end=None, validity=None, include_extremes=False,
+                 fill_with=None,  force_data_loss=None, fill_gaps=True, **kwargs):
+
         if not (issubclass(series.item_type, Point) or issubclass(series.item_type, Slot)):
                 raise TypeError('Series items are not Points nor Slots, cannot compute any transformation')
 
-- 
2.43.0


From ccae3a394ee43e85ec87503da5a9d5d371314644 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:36 +0000
Subject: [PATCH 014/102] fix: previous data losses must count for the part of
 the validity region in the interval (losses could exceed one)

---
 timeseria/utilities.py | 19 +++++--------------
 1 file changed, 5 insertions(+), 14 deletions(-)

diff --git a/timeseria/utilities.py b/timeseria/utilities.py
index d56e497..234e790 100644
--- a/timeseria/utilities.py
+++ b/timeseria/utilities.py
@@ -758,24 +758,15 @@ def _compute_data_loss(series, from_t, to_t, force=False, sampling_interval=None
 
             if point.data_loss:
 
-                # Set validity
-                point_valid_from_t = point.t - (sampling_interval/2)
-                point_valid_to_t = point.t + (sampling_interval/2)
-
                 # Skip points which have not to be taken into account
-                if point_valid_to_t < from_t:
+                if point.valid_to < from_t:
                     continue
-                if point_valid_from_t >= to_t:
+                if point.valid_from >= to_t:
                     continue
 
-                # Compute the contribution of this point data loss: overlapping
-                # first point, overlapping last point, or all included?
-                if point_valid_from_t < from_t:
-                    point_contribution = abs(from_t - point_valid_to_t)
-                elif point_valid_to_t >= to_t:
-                    point_contribution = abs(to_t - point_valid_from_t)
-                else:
-                    point_contribution = sampling_interval
+                # Compute the contribution of this point data loss: the
+                # part of its validity region falling in the interval
+                point_contribution = min(point.valid_to, to_t) - max(point.valid_from, from_t)
 
                 #logger.debug('----------------')
                 #count+=1
-- 
2.43.0


From 31f1d914eb20784eabcf549f78e641bd00d5a390 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:12 +0000
Subject: [PATCH 015/102] fix: slots without own points must be computed from
 the neighbours' validity without altering them

---
 timeseria/transformations.py | 29 ++++++++---------------------
 1 file changed, 8 insertions(+), 21 deletions(-)

diff --git a/timeseria/transformations.py b/timeseria/transformations.py
index a0217c0..0a78448 100644
--- a/timeseria/transformations.py
+++ b/timeseria/transformations.py
@@ -7,7 +7,6 @@ from .datastructures import Point, Slot, DataTimeSlot, TimePoint, DataTimePoint,
 from .utilities import _compute_data_loss, _compute_validity_regions
 from .operations import avg
 from .units import TimeUnit
-from .exceptions import ConsistencyException
 from . import operations as operations_module
 from .interpolators import LinearInterpolator
 
@@ -229,26 +228,14 @@ def _compute_new(target, series, from_t, to_t, slot_first_point_i, slot_last_poi
             # middle point from the series_dense_view_extended. Otherwise, we must compute it from
             # scratch as we are upsamping with no data loss but still no points belonging to the slot.
 
-            if data_loss==1:
-                series_dense_view = None
-                for point in series_dense_view_extended:
-                    try:
-                        if point._interpolated:
-                            if series_dense_view:
-                                raise ConsistencyException('Found more than one reconstructed point in a fully missing slot')
-                            series_dense_view = series.__class__(point)
-                    except AttributeError:
-                        pass
-                if not series_dense_view:
-                    raise ConsistencyException('Could not find any reconstructed point in a fully missing slot')
-            else:
-                # Just create a point based on the series_dense_view_extended weights (TODO: are we including the interpolated?):
-                new_point_data = {data_label:0 for data_label in data_labels}
-                for point in series_dense_view_extended:
-                    for data_label in data_labels:
-                        point.data[data_label] += point.data[data_label] * point.weight
-                new_point_t = (to_t - from_t) /2
-                series_dense_view = TimeSeries(DataTimePoint(t=new_point_t, data=new_point_data, tz=series.tz))
+            # In both cases, its data is the weighted sum over the series_dense_view_extended.
+
+            new_point_data = {data_label:0 for data_label in data_labels}
+            for point in series_dense_view_extended:
+                for data_label in data_labels:
+                    new_point_data[data_label] += point.data[data_label] * point.weight
+            new_point_t = from_t + (to_t - from_t)/2
+            series_dense_view = TimeSeries(DataTimePoint(t=new_point_t, data=new_point_data, tz=series.tz))
 
         else:
             # Create a view of the original series to provide only the datapoints belonging to the slot
-- 
2.43.0


From 15ffffe807488d846c38c7806558e2aef9fae551 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:38 +0000
Subject: [PATCH 016/102] fix: the fill value must be applied when resampling,
 and also when it is zero

---
 timeseria/transformations.py | 18 +++++++++++-------
 1 file changed, 11 insertions(+), 7 deletions(-)

diff --git a/timeseria/transformations.py b/timeseria/transformations.py
index 0a78448..e445aff 100644
--- a/timeseria/transformations.py
+++ b/timeseria/transformations.py
@@ -248,19 +248,23 @@ def _compute_new(target, series, from_t, to_t, slot_first_point_i, slot_last_poi
     # Compute point data
     if target=='point':
 
-        # Compute the (weighted) average of all point contributions
-        avgs = avg(series_dense_view_extended)
+        if data_loss == 1 and fill_with is not None:
+            data = {data_label:fill_with for data_label in data_labels}
 
-        # ...and assign them to the data value
-        if isinstance(avgs, dict):
-            data = {data_label:avgs[data_label] for data_label in data_labels}
         else:
-            data = {data_labels[0]: avgs}
+            # Compute the (weighted) average of all point contributions
+            avgs = avg(series_dense_view_extended)
+
+            # ...and assign them to the data value
+            if isinstance(avgs, dict):
+                data = {data_label:avgs[data_label] for data_label in data_labels}
+            else:
+                data = {data_labels[0]: avgs}
 
     #  Compute slot data
     elif target=='slot':
 
-        if data_loss == 1 and fill_with:
+        if data_loss == 1 and fill_with is not None:
             for data_label in data_labels:
                 for operation in operations:
                     data['{}_{}'.format(data_label, operation.__name__)] = fill_with
-- 
2.43.0


From 520a07a2ed7e1e3c5cb75b73011e83da62704847 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:00 +0000
Subject: [PATCH 017/102] fix: aggregating must not fail when a unit after the
 first item is an ambiguous or missing local time

---
 timeseria/transformations.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/timeseria/transformations.py b/timeseria/transformations.py
index e445aff..ac9aade 100644
--- a/timeseria/transformations.py
+++ b/timeseria/transformations.py
@@ -500,7 +500,7 @@ class Transformation(object):
             logger.info('Using auto-detected sampling interval: %ss', validity)
 
         # Check if upsamplimg (with some tolearance):
-        if validity > (self.time_unit.as_seconds(series[0].dt) * 1.10):
+        if validity > (self.time_unit.as_seconds(dt_from_s(from_t, tz=series.tz)) * 1.10):
             logger.warning('You are upsampling, which is not well tested yet. Expect potential issues.')
 
         # Compute validity regions
-- 
2.43.0


From af4953e51f92eec5ac91ab6fee92fecdff11d651 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:16 +0000
Subject: [PATCH 018/102] fix: in-place derivatives, integrals and cumulative
 sums must be computed on the original values and labels

---
 timeseria/operations.py | 28 ++++++++++++++++++----------
 1 file changed, 18 insertions(+), 10 deletions(-)

diff --git a/timeseria/operations.py b/timeseria/operations.py
index f3b91e0..7e44786 100644
--- a/timeseria/operations.py
+++ b/timeseria/operations.py
@@ -264,6 +264,10 @@ class Derivative(Operation):
         except TypeError:
             data_is_keyvalue = False
 
+        # Take the values as they are now, as the in-place mode alters them (and adds labels) while they are still required
+        data_labels = series.data_labels()
+        values = [{data_label: item._data_by_label(data_label) for data_label in data_labels} for item in series]
+
         for i, item in enumerate(series):
 
             # Skip the first element if computing diffs
@@ -273,7 +277,7 @@ class Derivative(Operation):
             if not inplace:
                 der_data = series[0].data.__class__()
 
-            for data_label in series.data_labels():
+            for data_label in data_labels:
                 diff_left = None
                 diff_right = None
                 diff = None
@@ -282,19 +286,19 @@ class Derivative(Operation):
                     if i == 0:
                         raise ConsistencyException('We should never get here')
                     else:
-                        diff = series[i]._data_by_label(data_label) - series[i-1]._data_by_label(data_label)
+                        diff = values[i][data_label] - values[i-1][data_label]
                 else:
                     # Compute the derivative
                     if i == 0:
                         # Right increment for the first item
-                        diff_right = series[i+1]._data_by_label(data_label) - series[i]._data_by_label(data_label)
+                        diff_right = values[i+1][data_label] - values[i][data_label]
                     elif i == len(series)-1:
                         # Left increment for the last item. Divide by two if not normalizing by time resolution
-                        diff_left = series[i]._data_by_label(data_label) - series[i-1]._data_by_label(data_label)
+                        diff_left = values[i][data_label] - values[i-1][data_label]
                     else:
                         # Both left and right increment for the items in the middle
-                        diff_left = series[i]._data_by_label(data_label) - series[i-1]._data_by_label(data_label)
-                        diff_right = series[i+1]._data_by_label(data_label) - series[i]._data_by_label(data_label)
+                        diff_left = values[i][data_label] - values[i-1][data_label]
+                        diff_right = values[i+1][data_label] - values[i][data_label]
 
                 # Combine and normalize (if required) the increments to get the actual derivative
                 if normalize:
@@ -399,6 +403,10 @@ class Integral(Operation):
 
         last_values={}
 
+        # Take the values as they are now, as the in-place mode alters them (and adds labels) while they are still required
+        data_labels = series.data_labels()
+        values = [{data_label: item._data_by_label(data_label) for data_label in data_labels} for item in series]
+
         for i, item in enumerate(series):
 
             # Do we have to create the previous point based on an offset?
@@ -440,18 +448,18 @@ class Integral(Operation):
             if not inplace:
                 data = series[0].data.__class__()
 
-            for data_label in series.data_labels():
+            for data_label in data_labels:
 
                 # Get the value
                 if not normalize:
-                    value = series[i]._data_by_label(data_label)
+                    value = values[i][data_label]
                 else:
                     # Compute the integral
                     if i == 0:
                         value=0
-                        prev_right_component = series[i]._data_by_label(data_label)
+                        prev_right_component = values[i][data_label]
                     else:
-                        left_component = (series[i-1]._data_by_label(data_label)*2) - prev_right_component
+                        left_component = (values[i-1][data_label]*2) - prev_right_component
                         # The "value" below is actually an increment, see below at  value = last_values[data_label] + value
                         value = left_component
                         prev_right_component = left_component
-- 
2.43.0


From 9232184b35162fb148914bdd2e83ecaddae155de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:39 +0000
Subject: [PATCH 019/102] fix: the integral of each label must be independent
 of the other ones

---
 timeseria/operations.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/timeseria/operations.py b/timeseria/operations.py
index 7e44786..71d99ac 100644
--- a/timeseria/operations.py
+++ b/timeseria/operations.py
@@ -402,6 +402,7 @@ class Integral(Operation):
             data_is_keyvalue = False
 
         last_values={}
+        prev_right_components={}
 
         # Take the values as they are now, as the in-place mode alters them (and adds labels) while they are still required
         data_labels = series.data_labels()
@@ -457,12 +458,12 @@ class Integral(Operation):
                     # Compute the integral
                     if i == 0:
                         value=0
-                        prev_right_component = values[i][data_label]
+                        prev_right_components[data_label] = values[i][data_label]
                     else:
-                        left_component = (values[i-1][data_label]*2) - prev_right_component
+                        left_component = (values[i-1][data_label]*2) - prev_right_components[data_label]
                         # The "value" below is actually an increment, see below at  value = last_values[data_label] + value
                         value = left_component
-                        prev_right_component = left_component
+                        prev_right_components[data_label] = left_component
 
                 # Normalize the cumulative to get the actual integral
                 if normalize:
-- 
2.43.0


From 0bbd3c462f35136dbe167407d67f0b2e36bf7de8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:26 +0000
Subject: [PATCH 020/102] fix: derivatives of variable resolution series must
 use the actual spacing at the edges too

---
 timeseria/operations.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/timeseria/operations.py b/timeseria/operations.py
index 71d99ac..0a50cc7 100644
--- a/timeseria/operations.py
+++ b/timeseria/operations.py
@@ -303,11 +303,11 @@ class Derivative(Operation):
                 # Combine and normalize (if required) the increments to get the actual derivative
                 if normalize:
                     if diff is not None:
-                        diff = diff / sampling_interval
+                        diff = diff / (series[i].t - series[i-1].t if variable_resolution else sampling_interval)
                     elif diff_right is None:
-                        diff = diff_left / sampling_interval
+                        diff = diff_left / (series[i].t - series[i-1].t if variable_resolution else sampling_interval)
                     elif diff_left is None:
-                        diff = diff_right / sampling_interval
+                        diff = diff_right / (series[i+1].t - series[i].t if variable_resolution else sampling_interval)
                     else:
                         if variable_resolution:
                             diff = ((diff_left / (series[i].t - series[i-1].t)) + (diff_right / (series[i+1].t - series[i].t))) /2
-- 
2.43.0


From 939cf0ec402fc0b708a7d2a77fc5f9990a97af5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:01 +0000
Subject: [PATCH 021/102] fix: an offset of zero, or for list data, must be
 honoured by cumulative sums and integrals

---
 timeseria/datastructures.py | 6 +++---
 timeseria/operations.py     | 6 +++---
 2 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/timeseria/datastructures.py b/timeseria/datastructures.py
index f4c4c32..b665a33 100644
--- a/timeseria/datastructures.py
+++ b/timeseria/datastructures.py
@@ -978,10 +978,10 @@ class Series(list):
         from .operations import derivative as derivative_operation
         return derivative_operation(self, inplace=inplace, normalize=normalize, diffs=diffs)
 
-    def integral(self, inplace=False, normalize=True, c=0, offset=0):
+    def integral(self, inplace=False, normalize=True, c=0, offset=None):
         """Compute the integral of the series. Extra parameters: ``inplace`` (defaulted to false),
         ``normalize`` (defaulted to true), ``c`` (defaulted to zero) for the integration constant
-        and ``offset`` (defaulted to zero) to start the integration from an offset.
+        and ``offset`` (defaulted to none) to start the integration from an offset.
         A series of DataTimePoints or DataTimeSlots is required."""
         from .operations import integral as integral_operation
         return integral_operation(self, inplace=inplace, normalize=normalize, c=c, offset=offset)
@@ -994,7 +994,7 @@ class Series(list):
 
     def csum(self, inplace=False, offset=None):
         """Compute the incremental sum. Extra parameters: ``inplace`` (defaulted to false),
-        ``offset`` (defaulted to zero) to set the starting value where to apply the sums on.
+        ``offset`` (defaulted to none) to set the starting value where to apply the sums on.
         A series of DataPoints or DataSlots is required."""
         from .operations import csum as csum_operation
         return csum_operation(self, inplace=inplace, offset=offset)
diff --git a/timeseria/operations.py b/timeseria/operations.py
index 0a50cc7..c9793dc 100644
--- a/timeseria/operations.py
+++ b/timeseria/operations.py
@@ -359,7 +359,7 @@ class Derivative(Operation):
 class Integral(Operation):
     """Integral operation (callable object)."""
 
-    def _call(self, series, inplace=False, normalize=True, c=0, offset=0):
+    def _call(self, series, inplace=False, normalize=True, c=0, offset=None):
 
         _check_series_of_points_or_slots(series)
         _check_indexed_data(series)
@@ -411,7 +411,7 @@ class Integral(Operation):
         for i, item in enumerate(series):
 
             # Do we have to create the previous point based on an offset?
-            if i==0 and offset:
+            if i==0 and offset is not None:
                 if inplace:
                     raise ValueError('Cannot use prev_data in in-place mode, would require to add a point to the series')
 
@@ -430,7 +430,7 @@ class Integral(Operation):
                             prev_data['{}_{}'.format(data_label,postfix)] = offset
                     else:
                         for data_label in series.data_labels():
-                            prev_data.append(offset[data_label])
+                            prev_data.append(offset)
 
                 if isinstance(item, Point):
                     int_series.append(item.__class__(t = item.t - series.resolution,
-- 
2.43.0


From f104a7bb08fa75e5ba62bb61a0212f43df60f554 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:37 +0000
Subject: [PATCH 022/102] fix: items must not share their indexes with the
 items they are computed from

---
 timeseria/datastructures.py | 2 ++
 timeseria/operations.py     | 1 +
 2 files changed, 3 insertions(+)

diff --git a/timeseria/datastructures.py b/timeseria/datastructures.py
index b665a33..07896ef 100644
--- a/timeseria/datastructures.py
+++ b/timeseria/datastructures.py
@@ -200,6 +200,7 @@ class DataPoint(Point):
             else:
                 if not isinstance(data_indexes, dict):
                     raise ValueError('Got type "{}" for data_indexes, was expecitng a dict'.format(data_indexes.__class__.__name__))
+                data_indexes = dict(data_indexes)
         except KeyError:
             data_indexes = {}
         #else:
@@ -502,6 +503,7 @@ class DataSlot(Slot):
             else:
                 if not isinstance(data_indexes, dict):
                     raise ValueError('Got type "{}" for data_indexes, was expecitng a dict'.format(data_indexes.__class__.__name__))
+                data_indexes = dict(data_indexes)
         except KeyError:
             data_indexes = {}
         #else:
diff --git a/timeseria/operations.py b/timeseria/operations.py
index c9793dc..bec59e5 100644
--- a/timeseria/operations.py
+++ b/timeseria/operations.py
@@ -878,6 +878,7 @@ class Filter(Operation):
         for item in series:
             filtered_item = copy(item)
             filtered_item._data = {data_label: item._data_by_label(data_label) for data_label in data_labels}
+            filtered_item._data_indexes = dict(item._data_indexes)
             filtered_series.append(filtered_item)
 
         return filtered_series
-- 
2.43.0


From ea8531a8063f962a3f18fa67d09bd43eb79ae9e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:41:44 +0000
Subject: [PATCH 023/102] fix: slots of the same time zone must be accepted
 also across a change of its offset (the time zones were compared as
 offset-specific objects)

---
 timeseria/datastructures.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/timeseria/datastructures.py b/timeseria/datastructures.py
index 07896ef..ad6fb8d 100644
--- a/timeseria/datastructures.py
+++ b/timeseria/datastructures.py
@@ -420,7 +420,7 @@ class TimeSlot(Slot):
 
         # Extra time zone checks
         if start and end:
-            if start.tz != end.tz:
+            if str(start.tz) != str(end.tz):
                 raise ValueError('{} start and end must have the same timezone (got start.tz="{}", end.tz="{}")'.format(self.__class__.__name__, start.tz, end.tz))
 
         # Call parent init
@@ -1312,7 +1312,7 @@ class TimeSeries(Series):
 
             else:
                 # Else, check for the same timezone
-                if self._tz != item.tz:
+                if str(self._tz) != str(item.tz):
                     raise ValueError('Cannot append slots on different timezones (I have "{}" and you tried to add "{}")'.format(self.tz, item.start.tz))
 
             try:
@@ -1342,7 +1342,7 @@ class TimeSeries(Series):
     def insert(self, i, x):
         """Insert an item at a given position. See :func:`Series.insert`. For slots, the time zone and the unit are enforced as well."""
         if len(self) > 0 and isinstance(x, TimeSlot) and isinstance(x, self.item_type):
-            if x.tz != self.tz or x.unit != self.resolution:
+            if str(x.tz) != str(self.tz) or x.unit != self.resolution:
                 raise ValueError('Cannot insert slots on different timezones or with a different unit')
         super(TimeSeries, self).insert(i, x)
         self._refresh_resolution()
-- 
2.43.0


From 31d0022c3d79453bbf701ab56e18ad22c509a7c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:32 +0000
Subject: [PATCH 024/102] fix: merging must support list data

---
 timeseria/operations.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/timeseria/operations.py b/timeseria/operations.py
index bec59e5..9739093 100644
--- a/timeseria/operations.py
+++ b/timeseria/operations.py
@@ -1099,15 +1099,15 @@ class Merge(Operation):
                 item = series[i + offsets[series]]
 
                 # Data
-                for data_label in item.data:
+                for data_label in item.data_labels():
                     if data_label not in data_count:
                         data_count[data_label] = 1
                     else:
                         data_count[data_label] += 1
                     if data_label not in data_sum:
-                        data_sum[data_label] = item.data[data_label]
+                        data_sum[data_label] = item._data_by_label(data_label)
                     else:
-                        data_sum[data_label] += item.data[data_label]
+                        data_sum[data_label] += item._data_by_label(data_label)
 
                 # Data indexes
                 for data_index in item.data_indexes:
@@ -1124,6 +1124,8 @@ class Merge(Operation):
             # Finalize data
             for data_label in data_sum:
                 data[data_label]  = data_sum[data_label]  / data_count[data_label]
+            if all(not isinstance(series[0].data, dict) for series in seriess):
+                data = [data[data_label] for data_label in data]
 
             # Finalize data indexes
             for data_index in data_indexes_sum:
-- 
2.43.0


From 04dee023d5b016247c225f2685d0d3bab51b700c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:05 +0000
Subject: [PATCH 025/102] fix: merging must not combine items of different
 times when the series get misaligned

---
 timeseria/operations.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/timeseria/operations.py b/timeseria/operations.py
index 9739093..b661e5a 100644
--- a/timeseria/operations.py
+++ b/timeseria/operations.py
@@ -1098,6 +1098,10 @@ class Merge(Operation):
                 # Set the item according to the offset
                 item = series[i + offsets[series]]
 
+                # Items of the different series must be aligned (up to the microsecond)
+                if abs(item.t - reference_series[i].t) > 1e-06:
+                    raise ValueError('Series are not aligned (got "{}" vs "{}"), cannot merge'.format(item, reference_series[i]))
+
                 # Data
                 for data_label in item.data_labels():
                     if data_label not in data_count:
-- 
2.43.0


From 6fdbc1a13620304ad3ba6cf9449f6e5a660095b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:40:10 +0000
Subject: [PATCH 026/102] fix: series converted to and from dictionaries share
 their data with them

---
 timeseria/datastructures.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/timeseria/datastructures.py b/timeseria/datastructures.py
index ad6fb8d..c1d8502 100644
--- a/timeseria/datastructures.py
+++ b/timeseria/datastructures.py
@@ -1626,7 +1626,10 @@ class TimeSeries(Series):
             else:
                 raise ValueError('Cannot handle keys other than int, float or datetime (got "{}"'.format(key.__class__.__name__))
             data = dictionary[key]
-            if not (isinstance(data, list) or isinstance(data, dict)):
+            if isinstance(data, list) or isinstance(data, dict):
+                # Copy, or the items would share their data with the dictionary
+                data = data.copy()
+            else:
                 data = {'value': data}
 
             # Create the item
@@ -1647,7 +1650,7 @@ class TimeSeries(Series):
         """Convert a time series to a dictionary."""
         timeseries_as_dict = {}
         for item in self:
-            timeseries_as_dict[item.dt] = item.data
+            timeseries_as_dict[item.dt] = item.data.copy()
         return timeseries_as_dict
 
 
-- 
2.43.0


From 911817d3de536d5a31409e262195f057871eeab1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:40:20 +0000
Subject: [PATCH 027/102] fix: changing the time zone of a slot also changed
 the slots sharing its start or end

---
 timeseria/datastructures.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/timeseria/datastructures.py b/timeseria/datastructures.py
index c1d8502..098eb7c 100644
--- a/timeseria/datastructures.py
+++ b/timeseria/datastructures.py
@@ -2,7 +2,7 @@
 """Base data structures as Points, Slots and Series."""
 
 import json
-from copy import deepcopy
+from copy import copy, deepcopy
 from pandas import DataFrame
 from datetime import datetime
 from pytz import UTC
@@ -446,7 +446,10 @@ class TimeSlot(Slot):
 
     def change_tz(self, tz):
         """Change the time zone of the slot, in-place."""
+        # Do not change the points in-place, as they might be shared with other slots
+        self.start = copy(self.start)
         self.start.change_tz(tz)
+        self.end = copy(self.end)
         self.end.change_tz(tz)
         self.tz = self.start.tz
 
-- 
2.43.0


From 03368dd510d578135c399fefa212a91f8783081e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:40:35 +0000
Subject: [PATCH 028/102] fix: in-place operations failing half-way left the
 series partially changed

---
 timeseria/operations.py | 16 +++++++++++++++-
 1 file changed, 15 insertions(+), 1 deletion(-)

diff --git a/timeseria/operations.py b/timeseria/operations.py
index b661e5a..d0434c6 100644
--- a/timeseria/operations.py
+++ b/timeseria/operations.py
@@ -59,7 +59,21 @@ class Operation():
                     raise TypeError('Operations can only work on series or lists of series')
 
             # Call compute logic
-            return self._call(series, *args, **kwargs)
+            if not isinstance(series, Series) or 'inplace' not in kwargs or not kwargs['inplace']:
+                return self._call(series, *args, **kwargs)
+
+            # If in-place, do not leave the series half-way changed on errors
+            original_data = [copy(getattr(item, 'data', None)) for item in series]
+            try:
+                return self._call(series, *args, **kwargs)
+            except Exception:
+                for item, item_original_data in zip(series, original_data):
+                    if isinstance(item_original_data, dict):
+                        item.data.clear()
+                        item.data.update(item_original_data)
+                    elif isinstance(item_original_data, list):
+                        item.data[:] = item_original_data
+                raise
 
     @property
     def __name__(self):
-- 
2.43.0


From bf72e84d59835e99985daf084b0c8aa7106edc2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:40:35 +0000
Subject: [PATCH 029/102] fix: applying a forecaster in-place and failing left
 the series partially changed

---
 timeseria/models/forecasters.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/timeseria/models/forecasters.py b/timeseria/models/forecasters.py
index e15e6bb..599f0ba 100644
--- a/timeseria/models/forecasters.py
+++ b/timeseria/models/forecasters.py
@@ -142,8 +142,9 @@ class Forecaster(Model):
             if not context_data:
                 raise ValueError('Applying a forecaster fit to target specific data labels requires to give context data (target_data_labels={})'.format(self.data['target_data_labels']))
 
-        if not inplace:
-            series = series.duplicate()
+        # Always work on a duplicate, not to leave the series half-way changed on errors in in-place mode
+        input_series = series
+        series = series.duplicate()
 
         input_series_len = len(series)
 
@@ -190,6 +191,10 @@ class Forecaster(Model):
         if not inplace:
             return series
         else:
+            for item in input_series:
+                item.data_indexes['forecast'] = 0
+            for item in series[input_series_len:]:
+                input_series.append(item)
             return None
 
     @Model.evaluate_function
-- 
2.43.0


From aa755e35cca05f286e90fa4a3ad313693c1a3c1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:40:35 +0000
Subject: [PATCH 030/102] fix: forecasting points with a non-parametric
 forecaster failed

---
 timeseria/models/forecasters.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/timeseria/models/forecasters.py b/timeseria/models/forecasters.py
index 599f0ba..217612e 100644
--- a/timeseria/models/forecasters.py
+++ b/timeseria/models/forecasters.py
@@ -128,7 +128,7 @@ class Forecaster(Model):
                                         #tz = series.tz,
                                         data  = predicted_data)
             else:
-                forecast = DataTimePoint(t = forecast_start_item.t + self.data['resolution'],
+                forecast = DataTimePoint(t = forecast_start_item.t + (self.data['resolution'] if 'resolution' in self.data else series.resolution),
                                          tz = series.tz,
                                          data  = predicted_data)
 
-- 
2.43.0


From ae5fdbae4a9e2c8d2f98c77fe2c191fc78b5ccc6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:40:46 +0000
Subject: [PATCH 031/102] fix: applying a reconstructor in-place and failing
 left the series partially changed

---
 timeseria/models/reconstructors.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/timeseria/models/reconstructors.py b/timeseria/models/reconstructors.py
index fb324e6..f66b571 100644
--- a/timeseria/models/reconstructors.py
+++ b/timeseria/models/reconstructors.py
@@ -46,8 +46,9 @@ class Reconstructor(Model):
 
         logger.debug('Using data_loss_threshold="%s"', data_loss_threshold)
 
-        if not inplace:
-            series = series.duplicate()
+        # Always work on a duplicate, not to leave the series half-way changed on errors in in-place mode
+        input_series = series
+        series = series.duplicate()
 
         gap_start_i = None
 
@@ -79,6 +80,10 @@ class Reconstructor(Model):
         if not inplace:
             return series
         else:
+            for input_item, item in zip(input_series, series):
+                if item.data_indexes['data_reconstructed']:
+                    input_item._data = item.data
+                input_item.data_indexes['data_reconstructed'] = item.data_indexes['data_reconstructed']
             return None
 
     def _reconstruct(self, series, from_i, to_i, inplace=False):
-- 
2.43.0


From 15e229fd6cd04a95d1b5743675c1bf9fb6615524 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:41:01 +0000
Subject: [PATCH 032/102] fix: anomaly detectors sharing skipped items with the
 input, and stopping at the first one if based on reconstructors

---
 timeseria/models/anomaly_detectors.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/timeseria/models/anomaly_detectors.py b/timeseria/models/anomaly_detectors.py
index 1eb623d..97708ae 100644
--- a/timeseria/models/anomaly_detectors.py
+++ b/timeseria/models/anomaly_detectors.py
@@ -653,14 +653,14 @@ class ModelBasedAnomalyDetector(AnomalyDetector):
                     if series[i-j-1].data_loss is not None and series[i-j-1].data_loss >= data_loss_threshold:
                         abort=True
                         break
-                if not abort:
-                    if issubclass(self.model_class, Reconstructor):
-                        if series[i-j-1].data_loss is not None and series[i+j+1].data_loss >= data_loss_threshold:
+                if not abort and issubclass(self.model_class, Reconstructor):
+                    for j in range(self.data['model_window']):
+                        if series[i+j+1].data_loss is not None and series[i+j+1].data_loss >= data_loss_threshold:
                             abort=True
                             break
             if abort:
-                # Just append the item as-is and continue
-                result_series.append(item)
+                # Just append the item as-is (as a copy, not to share it with the original series) and continue
+                result_series.append(deepcopy(item))
                 continue
 
             # Start computing the anomaly index
-- 
2.43.0


From 0ca0b2e451734f8a84f39ddc31bb8d648fc65817 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:41:41 +0000
Subject: [PATCH 033/102] fix: a failed fit left the model half-way changed

---
 timeseria/models/base.py | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/timeseria/models/base.py b/timeseria/models/base.py
index f7ef855..af7e11c 100644
--- a/timeseria/models/base.py
+++ b/timeseria/models/base.py
@@ -179,6 +179,9 @@ class Model():
             if isinstance(series, TimeSeries):
                 _check_timeseries(series)
 
+                # Keep the current state, to be restored if the fit fails
+                previous_state = {**self.__dict__, 'data': dict(self.data)}
+
                 # Set resolution
                 try:
                     self.data['resolution'] = series.resolution
@@ -192,7 +195,12 @@ class Model():
                     pass
 
             # Call fit logic
-            fit_output = fit_function(self, series, *args, **kwargs)
+            try:
+                fit_output = fit_function(self, series, *args, **kwargs)
+            except Exception:
+                self.__dict__.clear()
+                self.__dict__.update(previous_state)
+                raise
 
             self.data['fitted_at'] = now_s()
             self.fitted = True
-- 
2.43.0


From 1b14379d5f1bc85050bbf2c4d81489d2a81a57a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:41:41 +0000
Subject: [PATCH 034/102] fix: a failed cross validation left the model as
 fitted

---
 timeseria/models/base.py | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/timeseria/models/base.py b/timeseria/models/base.py
index af7e11c..c915612 100644
--- a/timeseria/models/base.py
+++ b/timeseria/models/base.py
@@ -31,6 +31,18 @@ except (ImportError,AttributeError):
 class TooMuchDataLoss(Exception):
     pass
 
+
+def _restore_fitted_on_errors(function):
+    @functools.wraps(function)
+    def do_restore_fitted_on_errors(self, *args, **kwargs):
+        fitted = self.fitted
+        try:
+            return function(self, *args, **kwargs)
+        except Exception:
+            self.fitted = fitted
+            raise
+    return do_restore_fitted_on_errors
+
 #======================
 #  Base Model
 #======================
@@ -321,6 +333,7 @@ class Model():
         """Call the model evaluate logic on a series."""
         raise NotImplementedError('Evaluating this model is not implemented')
 
+    @_restore_fitted_on_errors
     def cross_validate(self, series, rounds=10, **kwargs):
         """Cross validate the model on a series, by default with 10 fit/evaluate rounds.
 
-- 
2.43.0


From 1c0ec1ccc8fd2cd73298d1892f734f71c30923cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:41:41 +0000
Subject: [PATCH 035/102] fix: models refused time series of a single point as
 of a wrong resolution

---
 timeseria/models/base.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/timeseria/models/base.py b/timeseria/models/base.py
index c915612..3ce699d 100644
--- a/timeseria/models/base.py
+++ b/timeseria/models/base.py
@@ -243,7 +243,7 @@ class Model():
             if isinstance(series, TimeSeries):
                 _check_timeseries(series)
                 if self._is_parametric():
-                    if isinstance(series.item_type, Point) and len(series) == 1:
+                    if issubclass(series.item_type, Point) and len(series) == 1:
                         # Do not check if the data is a point time series and has only one item
                         pass
                     else:
@@ -283,7 +283,7 @@ class Model():
             if isinstance(series, TimeSeries):
                 _check_timeseries(series)
                 if self._is_parametric():
-                    if isinstance(series.item_type, Point) and len(series) == 1:
+                    if issubclass(series.item_type, Point) and len(series) == 1:
                         # Do not check if the data is a point time series and has only one item
                         pass
                     else:
@@ -317,7 +317,7 @@ class Model():
             if isinstance(series, TimeSeries):
                 _check_timeseries(series)
                 if self._is_parametric():
-                    if isinstance(series.item_type, Point) and len(series) == 1:
+                    if issubclass(series.item_type, Point) and len(series) == 1:
                         # Do not check if the data is a point time series and has only one item
                         pass
                     else:
-- 
2.43.0


From 9e17b99b90c25a2ca32fa38e4d7393af24acd16b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:41:41 +0000
Subject: [PATCH 036/102] fix: a failed save left a half-way saved model

---
 timeseria/models/anomaly_detectors.py | 16 +++++++++++-----
 timeseria/models/base.py              |  4 ++++
 2 files changed, 15 insertions(+), 5 deletions(-)

diff --git a/timeseria/models/anomaly_detectors.py b/timeseria/models/anomaly_detectors.py
index 97708ae..03e26e2 100644
--- a/timeseria/models/anomaly_detectors.py
+++ b/timeseria/models/anomaly_detectors.py
@@ -1,6 +1,7 @@
 # -*- coding: utf-8 -*-
 """Anomaly detection models."""
 
+import shutil
 from copy import deepcopy
 from ..utilities import _Gaussian, rescale
 from .forecasters import Forecaster, PeriodicAverageForecaster, LSTMForecaster
@@ -210,11 +211,16 @@ class ModelBasedAnomalyDetector(AnomalyDetector):
         super(ModelBasedAnomalyDetector, self).save(path)
 
         # ..and save the inner model(s) as nested model
-        if self.data['with_context']:
-            for data_label in self.models:
-                self.models[data_label].save('{}/{}_model'.format(path, data_label))
-        else:
-            self.model.save('{}/model'.format(path))
+        try:
+            if self.data['with_context']:
+                for data_label in self.models:
+                    self.models[data_label].save('{}/{}_model'.format(path, data_label))
+            else:
+                self.model.save('{}/model'.format(path))
+        except Exception:
+            # Do not leave half-way saved models around
+            shutil.rmtree(path)
+            raise
 
     def _get_actual_value(self, series, i, data_label):
         actual = series[i].data[data_label]
diff --git a/timeseria/models/base.py b/timeseria/models/base.py
index 3ce699d..c437568 100644
--- a/timeseria/models/base.py
+++ b/timeseria/models/base.py
@@ -151,6 +151,10 @@ class Model():
         try:
             with open(model_data_file, 'w') as f:
                 f.write(json.dumps(self.data))
+        except Exception:
+            # Do not leave half-way saved models around
+            shutil.rmtree(path)
+            raise
         finally:
             # In any case revert resolution back to object (if any)
             if 'resolution' in self.data:
-- 
2.43.0


From 36b99a4d63397ca094b577d7fd34ef9df437dfb2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:41:41 +0000
Subject: [PATCH 037/102] fix: loaded periodic average reconstructors failed to
 predict

---
 timeseria/models/reconstructors.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/timeseria/models/reconstructors.py b/timeseria/models/reconstructors.py
index f66b571..95e4168 100644
--- a/timeseria/models/reconstructors.py
+++ b/timeseria/models/reconstructors.py
@@ -373,6 +373,13 @@ class PeriodicAverageReconstructor(Reconstructor):
 
     window = 1
 
+    @classmethod
+    def load(cls, path):
+        model = super().load(path)
+        # Convert the average dict keys back to integers
+        model.data['averages'] = {int(key):value for key, value in model.data['averages'].items()}
+        return model
+
     @Reconstructor.fit_function
     def fit(self, series, periodicity='auto', dst_affected=False, offset_method='average', data_loss_limit=1.0, verbose=False):
         # TODO: periodicity, dst_affected, offset_method -> move them in the init?
-- 
2.43.0


From bbf0c613c72cb6da0e1ab4f48660b6790056223b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:48:31 +0000
Subject: [PATCH 038/102] fix: models fitted on a single point could be saved
 but not loaded

---
 timeseria/models/base.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/timeseria/models/base.py b/timeseria/models/base.py
index c437568..542f1bb 100644
--- a/timeseria/models/base.py
+++ b/timeseria/models/base.py
@@ -115,7 +115,7 @@ class Model():
 
         # Convert resolution to TimeUnit if any. TODO: right now only TimeSeries have the resolution,
         # but might change in case of adding the resolution attribute also to generic series.
-        if 'resolution' in model.data:
+        if 'resolution' in model.data and model.data['resolution'] is not None:
             model.data['resolution'] = TimeUnit(model.data['resolution'])
 
         return model
@@ -145,7 +145,7 @@ class Model():
         # Temporary change the resolution to its string representation (if any)
         if 'resolution' in self.data:
             resolution_obj = self.data['resolution']
-            self.data['resolution'] = str(resolution_obj)
+            self.data['resolution'] = str(resolution_obj) if resolution_obj is not None else None
 
         # Write the data
         try:
-- 
2.43.0


From c1cc756868d6b84ece87b51842478beb691eedee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:11:38 +0000
Subject: [PATCH 039/102] fix: anomaly events still open at the end of the
 series were mismeasured

---
 timeseria/models/anomaly_detectors.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/timeseria/models/anomaly_detectors.py b/timeseria/models/anomaly_detectors.py
index 03e26e2..dd4458b 100644
--- a/timeseria/models/anomaly_detectors.py
+++ b/timeseria/models/anomaly_detectors.py
@@ -109,12 +109,12 @@ class AnomalyDetector(Model):
 
             # When was the last event over?
             event_end = len(event_timeseries)
-            for i in range(len(event_timeseries)-1, event_start, -1):
+            for i in range(len(event_timeseries)-1, event_start-1, -1):
                 if  event_timeseries[i].data_indexes['anomaly'] >= index_treshold:
                     event_end = i
                     break
             logger.debug('  event was ended @ element #%s', event_end)
-            event_persistence =  event_end - event_start
+            event_persistence =  event_end + 1 - event_start
             if event_persistence < min_persistence:
                 logger.debug('  discarding as below minimum persistence')
             else:
-- 
2.43.0


From f2c1990a62dabbc1dfdb17b5a4d99d1916bd7c8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:11:38 +0000
Subject: [PATCH 040/102] fix: cross validation stripped the fit_ and evaluate_
 prefixes also from inside the argument names

---
 timeseria/models/base.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/timeseria/models/base.py b/timeseria/models/base.py
index 542f1bb..75b869b 100644
--- a/timeseria/models/base.py
+++ b/timeseria/models/base.py
@@ -366,10 +366,10 @@ class Model():
         for kwarg in kwargs:
             if kwarg.startswith('fit_'):
                 consumed_kwargs.append(kwarg)
-                fit_kwargs[kwarg.replace('fit_', '')] = kwargs[kwarg]
+                fit_kwargs[kwarg[len('fit_'):]] = kwargs[kwarg]
             if kwarg.startswith('evaluate_'):
                 consumed_kwargs.append(kwarg)
-                evaluate_kwargs[kwarg.replace('evaluate_', '')] = kwargs[kwarg]
+                evaluate_kwargs[kwarg[len('evaluate_'):]] = kwargs[kwarg]
         for consumed_kwarg in consumed_kwargs:
             kwargs.pop(consumed_kwarg)
 
-- 
2.43.0


From 5a7f7295287e611c68aa6e7e7dd722c3639c8187 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:11:38 +0000
Subject: [PATCH 041/102] fix: the offset of the periodic average forecaster
 was not the average over the window

---
 timeseria/models/forecasters.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/timeseria/models/forecasters.py b/timeseria/models/forecasters.py
index 217612e..07d4530 100644
--- a/timeseria/models/forecasters.py
+++ b/timeseria/models/forecasters.py
@@ -576,7 +576,7 @@ class PeriodicAverageForecaster(Forecaster):
                     diffs += (real_value - predict_value)
 
                 # Sum the avg diff between the real and the forecast on the window to the forecast (the offset)
-                offset = diffs/j
+                offset = diffs/self.data['windows'][data_label]
 
                 # Compute the forecast data
                 periodicity_index = _get_periodicity_index(predict_timestamp,
-- 
2.43.0


From dcffc87a7718ec46eca957d6efef724b9deb8cce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:11:38 +0000
Subject: [PATCH 042/102] fix: the periodic average forecaster could not be
 fitted with an explicit window

---
 timeseria/models/forecasters.py | 28 ++++++++++++++--------------
 1 file changed, 14 insertions(+), 14 deletions(-)

diff --git a/timeseria/models/forecasters.py b/timeseria/models/forecasters.py
index 07d4530..646c680 100644
--- a/timeseria/models/forecasters.py
+++ b/timeseria/models/forecasters.py
@@ -504,20 +504,20 @@ class PeriodicAverageForecaster(Forecaster):
                 logger.info('Using a window of "{}" for "{}"'.format(periodicity, data_label))
                 self.data['windows'][data_label]= periodicity
 
-                sums   = {}
-                totals = {}
-                processed = 0
-                for item in series:
-                    if data_loss_limit is not None and 'data_loss' in item.data_indexes and item.data_indexes['data_loss'] >= data_loss_limit:
-                        continue
-                    periodicity_index = _get_periodicity_index(item, series.resolution, periodicity, dst_affected)
-                    if not periodicity_index in sums:
-                        sums[periodicity_index] = item.data[data_label]
-                        totals[periodicity_index] = 1
-                    else:
-                        sums[periodicity_index] += item.data[data_label]
-                        totals[periodicity_index] +=1
-                    processed += 1
+            sums   = {}
+            totals = {}
+            processed = 0
+            for item in series:
+                if data_loss_limit is not None and 'data_loss' in item.data_indexes and item.data_indexes['data_loss'] >= data_loss_limit:
+                    continue
+                periodicity_index = _get_periodicity_index(item, series.resolution, periodicity, dst_affected)
+                if not periodicity_index in sums:
+                    sums[periodicity_index] = item.data[data_label]
+                    totals[periodicity_index] = 1
+                else:
+                    sums[periodicity_index] += item.data[data_label]
+                    totals[periodicity_index] +=1
+                processed += 1
 
             if not processed:
                 raise ValueError('Too much data loss (not a single element below the limit), cannot fit!')
-- 
2.43.0


From 6678420bb6246be8ab9a04ccb3734f6a3675f960 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:11:38 +0000
Subject: [PATCH 043/102] fix: the periodicity detected for the first data
 label was used for all of them

---
 timeseria/models/forecasters.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/timeseria/models/forecasters.py b/timeseria/models/forecasters.py
index 646c680..3ac34b7 100644
--- a/timeseria/models/forecasters.py
+++ b/timeseria/models/forecasters.py
@@ -489,8 +489,11 @@ class PeriodicAverageForecaster(Forecaster):
         self.data['averages'] = {}
         self.data['dst_affected'] = dst_affected
 
+        requested_periodicity = periodicity
+
         for data_label in series.data_labels():
             # Set or detect periodicity
+            periodicity = requested_periodicity
             if periodicity == 'auto':
                 periodicity =  detect_periodicity(series[data_label])
                 logger.info('Detected periodicity for "%s": %sx %s', data_label, periodicity, series.resolution)
-- 
2.43.0


From fe021458bee5f9701de12a44ff874fe3d49e454a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:11:38 +0000
Subject: [PATCH 044/102] fix: periodic average models could not be fitted on
 items without a known data loss

---
 timeseria/models/forecasters.py    | 2 +-
 timeseria/models/reconstructors.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/timeseria/models/forecasters.py b/timeseria/models/forecasters.py
index 3ac34b7..89480e5 100644
--- a/timeseria/models/forecasters.py
+++ b/timeseria/models/forecasters.py
@@ -511,7 +511,7 @@ class PeriodicAverageForecaster(Forecaster):
             totals = {}
             processed = 0
             for item in series:
-                if data_loss_limit is not None and 'data_loss' in item.data_indexes and item.data_indexes['data_loss'] >= data_loss_limit:
+                if data_loss_limit is not None and item.data_loss is not None and item.data_loss >= data_loss_limit:
                     continue
                 periodicity_index = _get_periodicity_index(item, series.resolution, periodicity, dst_affected)
                 if not periodicity_index in sums:
diff --git a/timeseria/models/reconstructors.py b/timeseria/models/reconstructors.py
index 95e4168..e63d431 100644
--- a/timeseria/models/reconstructors.py
+++ b/timeseria/models/reconstructors.py
@@ -423,7 +423,7 @@ class PeriodicAverageReconstructor(Reconstructor):
             totals = {}
             processed = 0
             for item in series:
-                if data_loss_limit is not None and 'data_loss' in item.data_indexes and item.data_indexes['data_loss'] >= data_loss_limit:
+                if data_loss_limit is not None and item.data_loss is not None and item.data_loss >= data_loss_limit:
                     continue
                 periodicity_index = _get_periodicity_index(item, series.resolution, periodicity, dst_affected=dst_affected)
                 if not periodicity_index in sums:
-- 
2.43.0


From f03424230d3bb0675b70c2e2a68457fac2e788df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:12:41 +0000
Subject: [PATCH 045/102] fix: periodic averages mixed up the items in calendar
 units across DST changes and months

---
 timeseria/utilities.py | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/timeseria/utilities.py b/timeseria/utilities.py
index 234e790..3de9908 100644
--- a/timeseria/utilities.py
+++ b/timeseria/utilities.py
@@ -859,6 +859,16 @@ def _get_periodicity_index(item, resolution, periodicity, dst_affected=False):
     """Get the periodicty index."""
 
     from .units import Unit, TimeUnit
+    # Calendar units have a variable length, so they are counted on the calendar and not on the timestamp
+    if isinstance(resolution, TimeUnit) and (resolution.years or resolution.months or resolution.weeks or resolution.days):
+        if resolution.years:
+            elapsed_units = item.dt.year // resolution.years
+        elif resolution.months:
+            elapsed_units = (item.dt.year*12 + item.dt.month - 1) // resolution.months
+        else:
+            elapsed_units = (item.dt.toordinal() - datetime(1970,1,1).toordinal()) // (resolution.weeks*7 + resolution.days)
+        return elapsed_units % periodicity
+
     # Handle specific cases
     if isinstance(resolution, TimeUnit):
         resolution_s = resolution.as_seconds(item.dt)
-- 
2.43.0


From 240c5d30162658f33904b4b63d4bc1e750683ee0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:12:41 +0000
Subject: [PATCH 046/102] fix: forecasters returning lists could not be applied
 step by step

---
 timeseria/models/forecasters.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/timeseria/models/forecasters.py b/timeseria/models/forecasters.py
index 89480e5..0c4ef94 100644
--- a/timeseria/models/forecasters.py
+++ b/timeseria/models/forecasters.py
@@ -178,6 +178,10 @@ class Forecaster(Model):
                 else:
                     forecast_model_results = self.forecast(series, steps=1)
 
+                # Models might return a list also for a single step
+                if isinstance(forecast_model_results, list):
+                    forecast_model_results = forecast_model_results[0]
+
                 # Add forecasted index
                 forecast_model_results.data_indexes['forecast'] = 1
 
-- 
2.43.0


From c11dd2105f87b03ccc74a8985e5ca453b40c4853 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:12:41 +0000
Subject: [PATCH 047/102] fix: reconstructors were not evaluated on the last
 gap, and not at all if predicting lists

---
 timeseria/models/reconstructors.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/timeseria/models/reconstructors.py b/timeseria/models/reconstructors.py
index e63d431..7ea3ec6 100644
--- a/timeseria/models/reconstructors.py
+++ b/timeseria/models/reconstructors.py
@@ -217,7 +217,7 @@ class Reconstructor(Model):
                         #  len=6:  i=0 -> 0+1+1 = 2-th element is the last required
                         #  len=6:  i=3 -> 3+1+1 = 5-th element is the last required
                         #  len=6:  i=4 -> 4+1+1 = 6-th element is the last required (not existent)
-                        if (i + steps_round + self.window) >= len(series):
+                        if (i + steps_round + self.window) > len(series):
                             stop = True
                         else:
                             for j in range(i + steps_round, i + steps_round + self.window):
@@ -246,6 +246,10 @@ class Reconstructor(Model):
                     for j in range(i, i + steps_round):
                         real_values.append(series[j].data[data_label])
 
+                    # Handle list of dicts as well
+                    if isinstance(predicted_values, list):
+                        predicted_values = {data_label: [item_data[data_label] for item_data in predicted_values]}
+
                     # Add predicted and real values to the overall data to be later used for the RMS etc.
                     overall_predicted_values += predicted_values[data_label]
                     overall_actual_values += real_values
-- 
2.43.0


From a38ce841d3aa8d95ece1b8473f2f7338474af784 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:12:41 +0000
Subject: [PATCH 048/102] fix: the MAPE of the reconstructors was relative to
 the predicted values

---
 timeseria/models/reconstructors.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/timeseria/models/reconstructors.py b/timeseria/models/reconstructors.py
index 7ea3ec6..ff0e472 100644
--- a/timeseria/models/reconstructors.py
+++ b/timeseria/models/reconstructors.py
@@ -267,7 +267,7 @@ class Reconstructor(Model):
                 if 'MAE' in metrics:
                     evaluation_score['MAE_{}_steps'.format(steps_round)] = mean_absolute_error(overall_predicted_values, overall_actual_values)
                 if 'MAPE' in metrics:
-                    evaluation_score['MAPE_{}_steps'.format(steps_round)] = mean_absolute_percentage_error(overall_predicted_values, overall_actual_values)
+                    evaluation_score['MAPE_{}_steps'.format(steps_round)] = mean_absolute_percentage_error(overall_actual_values, overall_predicted_values)
 
         # Compute overall RMSE
         if 'RMSE' in metrics:
-- 
2.43.0


From 3aaac02946b94b480663a6570ea6ae0e762ccee5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:27:29 +0000
Subject: [PATCH 049/102] fix: series with a data label named timestamp were
 loaded with its values as timestamps

---
 timeseria/datastructures.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/timeseria/datastructures.py b/timeseria/datastructures.py
index 098eb7c..e968c7e 100644
--- a/timeseria/datastructures.py
+++ b/timeseria/datastructures.py
@@ -1581,7 +1581,7 @@ class TimeSeries(Series):
             force_slot_unit = None
 
         from .storages import CSVFileStorage
-        storage = CSVFileStorage(file_name)
+        storage = CSVFileStorage(file_name, timestamp_column='epoch', timestamp_format='epoch')
         loaded_series = storage.get(force_points=force_points, force_slots=force_slots, force_tz=force_tz, force_slot_unit=force_slot_unit)
 
         if loaded_series.__class__ == cls:
-- 
2.43.0


From 8add4e44a0bcc66dc59c34e6969f8fd63452c2d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:27:29 +0000
Subject: [PATCH 050/102] fix: a failed overwrite left an empty or broken file
 in place of the existing one

---
 timeseria/storages.py | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/timeseria/storages.py b/timeseria/storages.py
index 6e8f4fa..f217b81 100644
--- a/timeseria/storages.py
+++ b/timeseria/storages.py
@@ -1,6 +1,7 @@
 # -*- coding: utf-8 -*-
 """Data storages, as the CSV file storage."""
 
+import io
 import os
 import pytz
 import datetime
@@ -751,10 +752,14 @@ class CSVFileStorage(Storage):
         # Set data_indexes here once for all or there will be a slowdown afterwards
         data_indexes = series._all_data_indexes()
 
-        with open(self.filename, 'w') as csv_file:
+        # Prepare the content first, not to leave a broken file if something goes wrong
+        with io.StringIO() as csv_file:
 
             # 0) Dump CSV-storage specific metadata & chck type
-            if issubclass(series.item_type, DataTimePoint):
+            if series.item_type is None:
+                raise ValueError('Cannot store an empty time series')
+
+            elif issubclass(series.item_type, DataTimePoint):
                 csv_file.write('# Generated by Timeseria CSVFileStorage at {}\n'.format(now_dt()))
                 csv_file.write('# {}\n'.format(series))
                 csv_file.write('# Extra parameters: {{"type": "points", "tz": "{}", "resolution": "{}"}}\n'.format(series.tz, series.resolution))
@@ -787,6 +792,11 @@ class CSVFileStorage(Storage):
                 else:
                     csv_file.write('{},{}\n'.format(item.t, data_part))
 
+            content = csv_file.getvalue()
+
+        with open(self.filename, 'w') as csv_file:
+            csv_file.write(content)
+
 
 
 
-- 
2.43.0


From ad55717941099facbbab51912f8829a391626460 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:27:29 +0000
Subject: [PATCH 051/102] fix: saved series were loaded guessing their
 encoding, with wrong labels

---
 timeseria/datastructures.py |  4 ++--
 timeseria/storages.py       | 10 ++++++----
 2 files changed, 8 insertions(+), 6 deletions(-)

diff --git a/timeseria/datastructures.py b/timeseria/datastructures.py
index e968c7e..0ea3bfb 100644
--- a/timeseria/datastructures.py
+++ b/timeseria/datastructures.py
@@ -1562,7 +1562,7 @@ class TimeSeries(Series):
         """Load a series from a (CSV) file, in Timeseria format."""
 
         metadata = None
-        with open(file_name) as f:
+        with open(file_name, encoding='utf-8') as f:
             for line in f:
                 if line.startswith('#'):
                     if line.startswith('# Extra parameters:'):
@@ -1581,7 +1581,7 @@ class TimeSeries(Series):
             force_slot_unit = None
 
         from .storages import CSVFileStorage
-        storage = CSVFileStorage(file_name, timestamp_column='epoch', timestamp_format='epoch')
+        storage = CSVFileStorage(file_name, timestamp_column='epoch', timestamp_format='epoch', encoding='utf-8')
         loaded_series = storage.get(force_points=force_points, force_slots=force_slots, force_tz=force_tz, force_slot_unit=force_slot_unit)
 
         if loaded_series.__class__ == cls:
diff --git a/timeseria/storages.py b/timeseria/storages.py
index f217b81..7b2cedd 100644
--- a/timeseria/storages.py
+++ b/timeseria/storages.py
@@ -206,8 +206,9 @@ class CSVFileStorage(Storage):
         data_type = None
 
         # Detect encoding if not set
-        if not self.encoding:
-            self.encoding = detect_encoding(self.filename, streaming=False)
+        encoding = self.encoding
+        if not encoding:
+            encoding = detect_encoding(self.filename, streaming=False)
 
         # Set and timezonize the timezone. Using this in the points or slots will be just a pointer
         if force_tz:
@@ -218,7 +219,7 @@ class CSVFileStorage(Storage):
         # Loop over all CSV rows
         # TODO: evaluate rU vs newline='\n'
         items = []
-        with open(self.filename, 'r', encoding=self.encoding) as csv_file:
+        with open(self.filename, 'r', encoding=encoding) as csv_file:
 
             while True:
 
@@ -794,7 +795,8 @@ class CSVFileStorage(Storage):
 
             content = csv_file.getvalue()
 
-        with open(self.filename, 'w') as csv_file:
+        content = content.encode(self.encoding or 'utf-8')
+        with open(self.filename, 'wb') as csv_file:
             csv_file.write(content)
 
 
-- 
2.43.0


From 63fc8d2c6d0546566f8c44504bba704805989757 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:27:29 +0000
Subject: [PATCH 052/102] fix: series with indexes set only on some items could
 not be stored

---
 timeseria/storages.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/timeseria/storages.py b/timeseria/storages.py
index 7b2cedd..fa3819c 100644
--- a/timeseria/storages.py
+++ b/timeseria/storages.py
@@ -787,7 +787,7 @@ class CSVFileStorage(Storage):
                     data_part = ','.join([str(item.data[int(data_label)]) for data_label in series.data_labels()])
                 else:
                     data_part = ','.join([str(item.data[data_label]) for data_label in series.data_labels()])
-                data_indexes_part = ','.join([str(item.data_indexes[index]) for index in data_indexes])
+                data_indexes_part = ','.join([str(item.data_indexes.get(index)) for index in data_indexes])
                 if data_indexes_part:
                     csv_file.write('{},{},{}\n'.format(item.t, data_part, data_indexes_part))
                 else:
-- 
2.43.0


From 3364ea05e7cc4be9e7ae896ab1744257d5f8ec9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:27:29 +0000
Subject: [PATCH 053/102] fix: columns after one with an empty or
 placeholder-like label were read under the wrong labels

---
 timeseria/storages.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/timeseria/storages.py b/timeseria/storages.py
index fa3819c..1c8e7e1 100644
--- a/timeseria/storages.py
+++ b/timeseria/storages.py
@@ -264,8 +264,8 @@ class CSVFileStorage(Storage):
 
                     # If it is, use it as labels (and continue with the next line)
                     if not_converted: # == len(line_items):
-                        column_indexes = [i for i in range(len(line_items)) if _sanitize_string(line_items[i],NO_DATA_PLACEHOLDERS)]
-                        column_labels = [_sanitize_string(label,NO_DATA_PLACEHOLDERS) for label in line_items if _sanitize_string(label,NO_DATA_PLACEHOLDERS)]
+                        column_indexes = [i for i in range(len(line_items)) if _sanitize_string(line_items[i])]
+                        column_labels = [_sanitize_string(label) for label in line_items]
                         logger.debug('Set column indexes = "%s"  and column labels = "%s"', column_indexes, column_labels)
                         continue
 
-- 
2.43.0


From 06986be002701066cd318056fbc7ce810cfc23c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:27:29 +0000
Subject: [PATCH 054/102] fix: series of a single slot could be saved but not
 loaded

---
 timeseria/storages.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/timeseria/storages.py b/timeseria/storages.py
index 1c8e7e1..d8baf19 100644
--- a/timeseria/storages.py
+++ b/timeseria/storages.py
@@ -626,6 +626,8 @@ class CSVFileStorage(Storage):
                         auto_slot_unit = TimeUnit('5m')
                     elif detected_sampling_interval == 60:
                         auto_slot_unit = TimeUnit('1m')
+                    elif force_slot_unit:
+                        auto_slot_unit = force_slot_unit
                     else:
                         auto_slot_unit = TimeUnit('{}s'.format(detected_sampling_interval))
 
-- 
2.43.0


From 7ed87a60b909400da12681c689a3cff2b0d01e6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:27:29 +0000
Subject: [PATCH 055/102] fix: loading subclasses of the time series from files
 returned nothing

---
 timeseria/datastructures.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/timeseria/datastructures.py b/timeseria/datastructures.py
index 0ea3bfb..bba5381 100644
--- a/timeseria/datastructures.py
+++ b/timeseria/datastructures.py
@@ -1589,7 +1589,7 @@ class TimeSeries(Series):
         else:
             # TODO: the following is a huge performance hit...
             series_items = loaded_series.contents()
-            cls(*series_items)
+            return cls(*series_items)
 
 
     def save(self, file_name, overwrite=False, **kwargs):
@@ -1684,7 +1684,7 @@ class TimeSeries(Series):
         else:
             # TODO: the following is a huge performance hit...
             series_items = loaded_series.contents()
-            cls(*series_items)
+            return cls(*series_items)
 
     def to_csv(self, file_name, overwrite=False, **kwargs):
         """Store the time series as a CSV file."""
-- 
2.43.0


From 8d913d97807286f9e904ba3414677534a3c7cb83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:30:57 +0000
Subject: [PATCH 056/102] fix: series of lists were loaded as series of
 dictionaries

---
 timeseria/datastructures.py | 5 +++++
 timeseria/storages.py       | 7 +++++--
 2 files changed, 10 insertions(+), 2 deletions(-)

diff --git a/timeseria/datastructures.py b/timeseria/datastructures.py
index bba5381..283ef95 100644
--- a/timeseria/datastructures.py
+++ b/timeseria/datastructures.py
@@ -1584,6 +1584,11 @@ class TimeSeries(Series):
         storage = CSVFileStorage(file_name, timestamp_column='epoch', timestamp_format='epoch', encoding='utf-8')
         loaded_series = storage.get(force_points=force_points, force_slots=force_slots, force_tz=force_tz, force_slot_unit=force_slot_unit)
 
+        # Lists are stored with their positions as labels
+        if metadata.get('data') == 'list':
+            for item in loaded_series:
+                item._data = [item.data[str(i)] for i in range(len(item.data))]
+
         if loaded_series.__class__ == cls:
             return loaded_series
         else:
diff --git a/timeseria/storages.py b/timeseria/storages.py
index d8baf19..cb99ae5 100644
--- a/timeseria/storages.py
+++ b/timeseria/storages.py
@@ -755,6 +755,9 @@ class CSVFileStorage(Storage):
         # Set data_indexes here once for all or there will be a slowdown afterwards
         data_indexes = series._all_data_indexes()
 
+        # Lists have to be told from dictionaries when loading
+        data_type = ', "data": "list"' if series and isinstance(getattr(series[0], 'data', None), (list, tuple)) else ''
+
         # Prepare the content first, not to leave a broken file if something goes wrong
         with io.StringIO() as csv_file:
 
@@ -765,12 +768,12 @@ class CSVFileStorage(Storage):
             elif issubclass(series.item_type, DataTimePoint):
                 csv_file.write('# Generated by Timeseria CSVFileStorage at {}\n'.format(now_dt()))
                 csv_file.write('# {}\n'.format(series))
-                csv_file.write('# Extra parameters: {{"type": "points", "tz": "{}", "resolution": "{}"}}\n'.format(series.tz, series.resolution))
+                csv_file.write('# Extra parameters: {{"type": "points", "tz": "{}", "resolution": "{}"{}}}\n'.format(series.tz, series.resolution, data_type))
 
             elif issubclass(series.item_type, DataTimeSlot):
                 csv_file.write('# Generated by Timeseria CSVFileStorage at {}\n'.format(now_dt()))
                 csv_file.write('# {}\n'.format(series))
-                csv_file.write('# Extra parameters: {{"type": "slots", "tz": "{}", "resolution": "{}"}}\n'.format(series.tz, series.resolution))
+                csv_file.write('# Extra parameters: {{"type": "slots", "tz": "{}", "resolution": "{}"{}}}\n'.format(series.tz, series.resolution, data_type))
 
             else:
                 raise TypeError('Can store only time series of DataTimePoints or DataTimeSlots')
-- 
2.43.0


From a21a2e4fd9d4865619f554a7cef8f4a3215c5e87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:30:57 +0000
Subject: [PATCH 057/102] fix: reading slots from CSV files with missing,
 duplicate or misplaced rows or with indexes

---
 timeseria/storages.py | 17 ++++++++++++++---
 1 file changed, 14 insertions(+), 3 deletions(-)

diff --git a/timeseria/storages.py b/timeseria/storages.py
index cb99ae5..83b149d 100644
--- a/timeseria/storages.py
+++ b/timeseria/storages.py
@@ -695,6 +695,7 @@ class CSVFileStorage(Storage):
         else:
 
             for i, item in enumerate(items):
+                datatimeslot = None
                 try:
                     # Handle data_indexes (including the data_loss)
                     data_indexes = None
@@ -719,17 +720,27 @@ class CSVFileStorage(Storage):
                 except ValueError as e:
                     # The only ValueError that could (should) arise here is a "Not in succession" error.
                     missing_timestamps = []
-                    prev_dt = dt_from_s(items[i-1][0], tz=tz)
+                    prev_slot = series[-1] if len(series) else None
+                    prev_dt = dt_from_s(prev_slot.start.t, tz=tz) if prev_slot is not None else None
                     while True:
+                        # There is no place for items which are not after the others or not on the slots boundaries
+                        if datatimeslot is None or prev_dt is None or s_from_dt(prev_dt + slot_unit) > item[0]:
+                            if not self.skip_errors:
+                                raise e from None
+                            if not self.silence_errors:
+                                logger.error(e)
+                            break
                         dt = prev_dt + slot_unit
                         # Note: the equal here is just to prevent endless loops, the check shoudl actally be just an equal
                         if s_from_dt(dt) >= item[0]:
                             # We are arrived, append all the missing items and then the item we originally tried to and break
                             for j, missing_timestamp in enumerate(missing_timestamps):
                                 # Set data by interpolation
-                                interpolated_data = {data_label: (((items[i][1][data_label]-items[i-1][1][data_label])/(len(missing_timestamps)+1)) * (j+1)) + items[i-1][1][data_label]  for data_label in  items[-1][1] }
+                                interpolated_data = {data_label: (((datatimeslot._data_by_label(data_label)-prev_slot._data_by_label(data_label))/(len(missing_timestamps)+1)) * (j+1)) + prev_slot._data_by_label(data_label)  for data_label in prev_slot.data_labels() }
+                                if isinstance(prev_slot.data, list):
+                                    interpolated_data = [interpolated_data[str(k)] for k in range(len(interpolated_data))]
                                 series.append(DataTimeSlot(t=missing_timestamp, unit=slot_unit, data=interpolated_data, data_loss=1, tz=tz))
-                            series.append(DataTimeSlot(t=item[0], unit=slot_unit, data=item[1], data_loss=DEFAULT_SLOT_DATA_LOSS, tz=tz))
+                            series.append(datatimeslot)
                             break
 
                         else:
-- 
2.43.0


From fc17453ddd0920b8355f9db9c3510991952b6e47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:30:57 +0000
Subject: [PATCH 058/102] fix: leap years and February of leap years were not
 recognised when reading CSV files

---
 timeseria/storages.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/timeseria/storages.py b/timeseria/storages.py
index 83b149d..5b25f70 100644
--- a/timeseria/storages.py
+++ b/timeseria/storages.py
@@ -584,12 +584,12 @@ class CSVFileStorage(Storage):
             detected_sampling_interval = detect_sampling_interval(sample_timepointseries)
 
             # Years
-            if detected_sampling_interval in [86400*365, 886400*366]:
+            if detected_sampling_interval in [86400*365, 86400*366]:
                 detected_series_type = DataTimeSlot
                 auto_slot_unit = TimeUnit('1Y')
 
             # Months
-            elif detected_sampling_interval in [86400*31, 86400*30, 86400*28]:
+            elif detected_sampling_interval in [86400*31, 86400*30, 86400*29, 86400*28]:
                 detected_series_type = DataTimeSlot
                 auto_slot_unit = TimeUnit('1M')
 
-- 
2.43.0


From c72e7ff52e34c9a08f7f4bf88c7bbdc59fc7d6d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:30:57 +0000
Subject: [PATCH 059/102] fix: lines without the timestamp stopped reading CSV
 files even if skipping errors

---
 timeseria/storages.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/timeseria/storages.py b/timeseria/storages.py
index 5b25f70..42c4178 100644
--- a/timeseria/storages.py
+++ b/timeseria/storages.py
@@ -340,6 +340,14 @@ class CSVFileStorage(Storage):
                 if timestamp_column_index is None and time_column_index is None and date_column_index is None:
                     raise ConsistencyException('Could not set timestamp_column_index nor time_column_index nor date_column_index, somehting wrong happened.')
 
+                # Lines too short to have the timestamp cannot be parsed
+                if max(index for index in [timestamp_column_index, time_column_index, date_column_index] if index is not None) >= len(line_items):
+                    if self.skip_errors:
+                        logger.debug('Cannot parse in line #%s as the timestamp is missing, skipping the line.', line_number)
+                        continue
+                    else:
+                        raise Exception('Cannot parse line #{} as the timestamp is missing, aborting. Set "skip_errors=True" to drop them instead.'.format(line_number))
+
                 # Ok,now get the timestamp as string
                 if timestamp_column_index is not None:
                     # Just use the Timestamp column
-- 
2.43.0


From f85c7278c9f8686ecf1a051107a81ec66e7e7a87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:30:57 +0000
Subject: [PATCH 060/102] fix: asking for columns by number once changed the
 data type of all the following reads

---
 timeseria/storages.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/timeseria/storages.py b/timeseria/storages.py
index 42c4178..cf905b5 100644
--- a/timeseria/storages.py
+++ b/timeseria/storages.py
@@ -459,7 +459,7 @@ class CSVFileStorage(Storage):
                         if _is_list_of_integers(data_labels):
                             # Case where we have been given a list of integers
                             data_label_indexes = data_labels
-                            self.data_type = list
+                            data_type = list
 
                         else:
                             # Case where we have been given a list of labels
-- 
2.43.0


From 27897bb2d00116ff1f7b30a6be7205fbb8f4488d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:33:51 +0000
Subject: [PATCH 061/102] fix: CSV files with the timestamps under an empty
 label could not be read

---
 timeseria/storages.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/timeseria/storages.py b/timeseria/storages.py
index cf905b5..3a1e018 100644
--- a/timeseria/storages.py
+++ b/timeseria/storages.py
@@ -479,13 +479,13 @@ class CSVFileStorage(Storage):
                         data_label_indexes = column_indexes
 
                         # Remove timestamp, time and date indexes from the data_label_indexes
-                        if timestamp_column_index is not None:
+                        if timestamp_column_index in data_label_indexes:
                             data_label_indexes.remove(timestamp_column_index)
 
-                        if time_column_index is not None:
+                        if time_column_index in data_label_indexes:
                             data_label_indexes.remove(time_column_index)
 
-                        if date_column_index is not None:
+                        if date_column_index in data_label_indexes:
                             data_label_indexes.remove(date_column_index)
 
                     # Ok, now based on the data_label_indexes fill the data_label_names if we have column labels
-- 
2.43.0


From a97b6b5a01c7a400c5f01207c5c0996a626686f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:40:47 +0000
Subject: [PATCH 062/102] fix: series of lists could not be converted to data
 frames

---
 timeseria/datastructures.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/timeseria/datastructures.py b/timeseria/datastructures.py
index 283ef95..a34ca9b 100644
--- a/timeseria/datastructures.py
+++ b/timeseria/datastructures.py
@@ -1832,7 +1832,7 @@ class TimeSeries(Series):
 
         df = DataFrame(columns=columns)
         for item in self:
-            values = [item.data[data_label] for data_label in data_labels]
+            values = [item._data_by_label(data_label) for data_label in data_labels]
             if dump_data_loss:
                 df = df.append(DataFrame([[item.dt]+values+[item.data_loss]], columns=columns))
             else:
-- 
2.43.0


From f4a972df1dcf2bf75dc2b64cfa7a8b80042974d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:40:47 +0000
Subject: [PATCH 063/102] fix: data frames mixing time zones could not be
 converted to series

---
 timeseria/datastructures.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/timeseria/datastructures.py b/timeseria/datastructures.py
index a34ca9b..377d8d8 100644
--- a/timeseria/datastructures.py
+++ b/timeseria/datastructures.py
@@ -1706,7 +1706,8 @@ class TimeSeries(Series):
             item_type = None
 
         # Infer if we have to create points or slots and their unit
-        unit_str_pd=df.index.inferred_freq
+        # Note: an index mixing time zones is not a date time one, and has no frequency
+        unit_str_pd=getattr(df.index, "inferred_freq", None)
 
         if not unit_str_pd:
             if not item_type:
-- 
2.43.0


From 7c1a087224f37dc74ef209e169218b5ebd2182d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:40:47 +0000
Subject: [PATCH 064/102] fix: yearly data frames were not converted to slots

---
 timeseria/datastructures.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/timeseria/datastructures.py b/timeseria/datastructures.py
index 377d8d8..01c340a 100644
--- a/timeseria/datastructures.py
+++ b/timeseria/datastructures.py
@@ -1716,6 +1716,9 @@ class TimeSeries(Series):
 
         else:
 
+            # Remove the anchor, if any (i.e. "AS-JAN")
+            unit_str_pd=unit_str_pd.split('-')[0]
+
             # Calendar
             unit_str_pd=unit_str_pd.replace('A', 'Y')    # Year (end) ?
             unit_str_pd=unit_str_pd.replace('Y', 'Y')    # Year (end) )
-- 
2.43.0


From 91a917068edea10b5601a86b144cae12ec31fe0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:40:47 +0000
Subject: [PATCH 065/102] fix: the data loss of data frames was converted as
 data

---
 timeseria/datastructures.py | 17 +++++++++++++++--
 1 file changed, 15 insertions(+), 2 deletions(-)

diff --git a/timeseria/datastructures.py b/timeseria/datastructures.py
index 01c340a..d828f63 100644
--- a/timeseria/datastructures.py
+++ b/timeseria/datastructures.py
@@ -2,6 +2,7 @@
 """Base data structures as Points, Slots and Series."""
 
 import json
+from math import isnan
 from copy import copy, deepcopy
 from pandas import DataFrame
 from datetime import datetime
@@ -1783,7 +1784,13 @@ class TimeSeries(Series):
                         naive_warned = True
                     dt = UTC.localize(dt)
 
-                datatimeslots.append(DataTimeSlot(dt=dt, unit=unit, data=data))
+                # The data loss is an index, not data
+                data_indexes = None
+                if 'data_loss' in data:
+                    data_loss = data.pop('data_loss')
+                    data_indexes = {'data_loss': None if data_loss is None or isnan(data_loss) else data_loss}
+
+                datatimeslots.append(DataTimeSlot(dt=dt, unit=unit, data=data, data_indexes=data_indexes))
 
             # Set the list of data time points
             return cls(*datatimeslots)
@@ -1814,7 +1821,13 @@ class TimeSeries(Series):
                         naive_warned = True
                     dt = UTC.localize(dt)
 
-                datatimepoints.append(DataTimePoint(dt=dt, data=data))
+                # The data loss is an index, not data
+                data_indexes = None
+                if 'data_loss' in data:
+                    data_loss = data.pop('data_loss')
+                    data_indexes = {'data_loss': None if data_loss is None or isnan(data_loss) else data_loss}
+
+                datatimepoints.append(DataTimePoint(dt=dt, data=data, data_indexes=data_indexes))
 
             # Set the list of data time points
             return cls(*datatimepoints)
-- 
2.43.0


From 11db3145737159861d10bf6dc98205060c4eb433 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:55:55 +0000
Subject: [PATCH 066/102] fix: series from data frames of integers could not be
 converted to JSON

---
 timeseria/datastructures.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/timeseria/datastructures.py b/timeseria/datastructures.py
index d828f63..b45e8b6 100644
--- a/timeseria/datastructures.py
+++ b/timeseria/datastructures.py
@@ -1675,7 +1675,8 @@ class TimeSeries(Series):
         timeseries_as_dict = {}
         for item in self:
             timeseries_as_dict[str_from_dt(item.dt)] = item.data
-        return json.dumps(timeseries_as_dict)
+        # Note: NumPy values (i.e. from a data frame of integers) are not JSON serializable as they are
+        return json.dumps(timeseries_as_dict, default=lambda value: value.item())
 
 
     @classmethod
-- 
2.43.0


From 4246d7da88dcbfb24e3537bc6f0754e0d94d06b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:09:51 +0000
Subject: [PATCH 067/102] fix: small absolute errors were scored as anomalous
 by the anomaly detectors

---
 timeseria/models/anomaly_detectors.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/timeseria/models/anomaly_detectors.py b/timeseria/models/anomaly_detectors.py
index dd4458b..5f72f51 100644
--- a/timeseria/models/anomaly_detectors.py
+++ b/timeseria/models/anomaly_detectors.py
@@ -708,7 +708,8 @@ class ModelBasedAnomalyDetector(AnomalyDetector):
                     raise ValueError('Unknown error type "{}"'.format(self.data['error_metric']))
 
                 # Reverse values on the left side of the error distribution
-                if prediction_error < self.data['error_distributions_params'][data_label]['loc']:
+                # (the absolute errors have no left side, where they would be just the smallest ones)
+                if self.data['error_metric'] not in ['AE', 'APE'] and prediction_error < self.data['error_distributions_params'][data_label]['loc']:
                     prediction_error =  abs(prediction_error) + self.data['error_distributions_params'][data_label]['loc']
 
                 # Compute the anomaly index in the given range (which defaults to 0, max_err)
-- 
2.43.0


From 2f25f543368ed4f296a5d12a76dfb1711d7edbfd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:09:51 +0000
Subject: [PATCH 068/102] fix: the anomaly index could be negative or greater
 than one with bounds on the left of the peak of the error distribution

---
 timeseria/models/anomaly_detectors.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/timeseria/models/anomaly_detectors.py b/timeseria/models/anomaly_detectors.py
index 5f72f51..17fec32 100644
--- a/timeseria/models/anomaly_detectors.py
+++ b/timeseria/models/anomaly_detectors.py
@@ -734,6 +734,10 @@ class ModelBasedAnomalyDetector(AnomalyDetector):
                         else:
                             raise ValueError('Unknown index type "{}"'.format(index_type))
 
+                    # Where the error distribution is not decreasing between the bounds, do not exceed the index range
+                    if not callable(index_type):
+                        anomaly_index = min(max(anomaly_index, 0), 1)
+
                 if threshold is not None:
                     if anomaly_index < threshold:
                         anomaly_index = 0
-- 
2.43.0


From fe3bbdca1a8db70d021a10c174dab37a790775b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:09:51 +0000
Subject: [PATCH 069/102] fix: the adherence detail was added with a wrong
 label if requested in a list

---
 timeseria/models/anomaly_detectors.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/timeseria/models/anomaly_detectors.py b/timeseria/models/anomaly_detectors.py
index 17fec32..5ad022a 100644
--- a/timeseria/models/anomaly_detectors.py
+++ b/timeseria/models/anomaly_detectors.py
@@ -755,7 +755,7 @@ class ModelBasedAnomalyDetector(AnomalyDetector):
                         if 'err' in details:
                             item.data['{}_err'.format(data_label)] = prediction_error
                         if 'adh' in details:
-                            item.data['{}_adh)'.format(data_label)] = y/y_max
+                            item.data['{}_adh'.format(data_label)] = y/y_max
                     elif isinstance(details, bool):
                         item.data['{}_pred'.format(data_label)] = predicted
                         item.data['{}_err'.format(data_label)] = prediction_error
-- 
2.43.0


From bc098e7a7dcb8ba9615d62bac574ecf15e90e3b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:09:51 +0000
Subject: [PATCH 070/102] fix: anomaly detectors could not add details to
 series with items above the data loss threshold

---
 timeseria/models/anomaly_detectors.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/timeseria/models/anomaly_detectors.py b/timeseria/models/anomaly_detectors.py
index 5ad022a..6999c65 100644
--- a/timeseria/models/anomaly_detectors.py
+++ b/timeseria/models/anomaly_detectors.py
@@ -666,7 +666,14 @@ class ModelBasedAnomalyDetector(AnomalyDetector):
                             break
             if abort:
                 # Just append the item as-is (as a copy, not to share it with the original series) and continue
-                result_series.append(deepcopy(item))
+                item = deepcopy(item)
+                if details:
+                    # The details cannot be computed, but all of the items must have the same data labels
+                    for data_label in series.data_labels():
+                        for detail in ['pred', 'err', 'adh']:
+                            if not isinstance(details, list) or detail in details:
+                                item.data['{}_{}'.format(data_label, detail)] = None
+                result_series.append(item)
                 continue
 
             # Start computing the anomaly index
-- 
2.43.0


From 26af140aa03c520c12a89cdce19d6207975e34b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:09:51 +0000
Subject: [PATCH 071/102] fix: anomaly detectors fitted without storing the
 errors could not be applied

---
 timeseria/models/anomaly_detectors.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/timeseria/models/anomaly_detectors.py b/timeseria/models/anomaly_detectors.py
index 6999c65..8b73a03 100644
--- a/timeseria/models/anomaly_detectors.py
+++ b/timeseria/models/anomaly_detectors.py
@@ -582,7 +582,10 @@ class ModelBasedAnomalyDetector(AnomalyDetector):
         y_maxes = {}
 
         for data_label in series.data_labels():
-            abs_prediction_errors = [abs(prediction_error) for prediction_error in self.data['prediction_errors'][data_label]]
+            if 'prediction_errors' in self.data:
+                abs_prediction_errors = [abs(prediction_error) for prediction_error in self.data['prediction_errors'][data_label]]
+            elif 'max_err' in index_bounds or 'avg_err' in index_bounds:
+                raise ValueError('The "max_err" and "avg_err" index bounds require a model fitted storing the errors')
             y_maxes[data_label] = error_distribution_functions[data_label](self.data['error_distributions_params'][data_label]['loc'])
             this_index_bounds = index_bounds[:]
 
-- 
2.43.0


From ece39b4e71f8b64288330a0753f6bf5465cffd18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:09:51 +0000
Subject: [PATCH 072/102] fix: series pre-processed before fitting again an
 anomaly detector were scored with the old predictions

---
 timeseria/models/anomaly_detectors.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/timeseria/models/anomaly_detectors.py b/timeseria/models/anomaly_detectors.py
index 8b73a03..7f64171 100644
--- a/timeseria/models/anomaly_detectors.py
+++ b/timeseria/models/anomaly_detectors.py
@@ -486,6 +486,11 @@ class ModelBasedAnomalyDetector(AnomalyDetector):
                     fit_series.append(DataTimePoint(t=i, data=data))
                 fit_series.plot()
 
+    @property
+    def _preprocessing_id(self):
+        # The inner models ids change at every fit, while the id of the anomaly detector does not
+        return (self.id, self.data.get('model_id'), self.data.get('model_ids'))
+
     def preprocess(self, series, inplace=False, verbose=False):
         """Pre-process a time series for this anomaly detector so that multiple apply() calls are much faster"""
         if not inplace:
@@ -517,7 +522,7 @@ class ModelBasedAnomalyDetector(AnomalyDetector):
 
             series.predictions[i] = ith_predictions
 
-        series.preprocessed_by = self.id
+        series.preprocessed_by = self._preprocessing_id
         return series
 
     @Model.apply_function
@@ -630,7 +635,7 @@ class ModelBasedAnomalyDetector(AnomalyDetector):
 
         # Is this series pre-processed?
         try:
-            preprocessed = True if series.preprocessed_by == self.id else False
+            preprocessed = True if series.preprocessed_by == self._preprocessing_id else False
         except AttributeError:
             preprocessed = False
 
-- 
2.43.0


From dbbb0e97dfd102b747fd3954e8b545fddfd442c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:38:42 +0000
Subject: [PATCH 073/102] fix: plots could not be marked with datetimes behind
 UTC

---
 timeseria/plots.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/timeseria/plots.py b/timeseria/plots.py
index 24e70b4..59ce28f 100644
--- a/timeseria/plots.py
+++ b/timeseria/plots.py
@@ -105,7 +105,7 @@ def _utc_fake_s_from_dt(dt):
     if '+' in dt_str:
         return s_from_dt(dt_from_str(dt_str.split('+')[0]+'+00:00'))
     elif '-' in dt_str:
-        return s_from_dt(dt_from_str(dt_str.split('-')[0]+'+00:00'))
+        return s_from_dt(dt_from_str(dt_str.rsplit('-', 1)[0]+'+00:00'))
     else:
         raise ValueError('Cannot convert to fake UTC epoch a datetime without a timezone')
 
-- 
2.43.0


From 7b398311b66fabbfc4f2f1fcaf9011c2d86c052c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:38:42 +0000
Subject: [PATCH 074/102] fix: plot marks on another time zone than the one of
 the series were misplaced

---
 timeseria/plots.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/timeseria/plots.py b/timeseria/plots.py
index 59ce28f..af61ea4 100644
--- a/timeseria/plots.py
+++ b/timeseria/plots.py
@@ -900,8 +900,9 @@ animatedZooms: true,"""
             raise TypeError('Mark start/end marks be datetime objects')
 
         # Convert the mark to fake epoch milliseconds
-        mark_start = _utc_fake_s_from_dt(mark[0])*1000
-        mark_end   = _utc_fake_s_from_dt(mark[1])*1000
+        # (on the time zone of the series, as for the items)
+        mark_start = _utc_fake_s_from_dt(dt_from_s(s_from_dt(mark[0]), tz=series.tz))*1000
+        mark_end   = _utc_fake_s_from_dt(dt_from_s(s_from_dt(mark[1]), tz=series.tz))*1000
 
         # Add js code
         dygraphs_javascript += 'underlayCallback: function(canvas, area, g) {'
-- 
2.43.0


From 5892c677c326589db0777160a961bbaab902e3f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:38:42 +0000
Subject: [PATCH 075/102] fix: items on different time zones were plotted each
 on its own time axis

---
 timeseria/plots.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/timeseria/plots.py b/timeseria/plots.py
index af61ea4..d66e7e4 100644
--- a/timeseria/plots.py
+++ b/timeseria/plots.py
@@ -273,7 +273,7 @@ def _to_dg_data(serie, data_labels_to_plot, data_indexes_to_plot, full_precision
                 data_part = data_part[0:-1]
 
                 # Add to dg_data
-                dg_data += '[{},{}],'.format(_to_dg_time(dt_from_s(aggregation_t, tz=item.tz)), data_part)
+                dg_data += '[{},{}],'.format(_to_dg_time(dt_from_s(aggregation_t, tz=serie.tz)), data_part)
 
                 # Reset averages
                 data_sums = [0 for label in labels]
@@ -341,7 +341,7 @@ def _to_dg_data(serie, data_labels_to_plot, data_indexes_to_plot, full_precision
             data_part = data_part[0:-1]
 
             # Add to dg_data
-            dg_data += '[{},{}],'.format(_to_dg_time(dt_from_s(item.t, tz=item.tz)), data_part)
+            dg_data += '[{},{}],'.format(_to_dg_time(dt_from_s(item.t, tz=serie.tz)), data_part)
 
     if dg_data.endswith(','):
         dg_data = dg_data[0:-1]
-- 
2.43.0


From 4680b8cb7c739c04cc1d4c73f7d89d1f669bfb7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:38:42 +0000
Subject: [PATCH 076/102] fix: the range of plots of negative constant series
 was inverted

---
 timeseria/plots.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/timeseria/plots.py b/timeseria/plots.py
index d66e7e4..099b0f6 100644
--- a/timeseria/plots.py
+++ b/timeseria/plots.py
@@ -722,8 +722,8 @@ function legendFormatter(data) {
         plot_max = str(global_max+((global_max-global_min)*0.1))
     else:
         # Case where there is a straight line
-        plot_min = str(global_min*0.99)
-        plot_max = str(global_max*1.01)
+        plot_min = str(global_min-abs(global_min)*0.01)
+        plot_max = str(global_max+abs(global_max)*0.01)
 
     # Overwrite plot min and max?
     if value_range != 'auto':
-- 
2.43.0


From 3dd7ac0bef8ef38a0aae73ca73006841b3300fe5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:38:42 +0000
Subject: [PATCH 077/102] fix: data labels with commas were plotted as several
 columns

---
 timeseria/plots.py | 19 +++++++------------
 1 file changed, 7 insertions(+), 12 deletions(-)

diff --git a/timeseria/plots.py b/timeseria/plots.py
index 099b0f6..4588c57 100644
--- a/timeseria/plots.py
+++ b/timeseria/plots.py
@@ -687,31 +687,26 @@ function legendFormatter(data) {
     _check_data_for_plot(series[0].data)
 
     # Loop over all the data labels
-    labels=''
+    labels_list = ['Timestamp']
     if data_labels_to_plot:
         for data_label_to_plot in data_labels_to_plot:
             if isinstance(series[0].data, list) or isinstance(series[0].data, tuple):
                 if len(data_labels_to_plot) == 1:
-                    labels='value,'
+                    labels_list.append('value')
                 else:
-                    labels += 'value {},'.format(data_label_to_plot)
+                    labels_list.append('value {}'.format(data_label_to_plot))
             else:
-                labels += '{},'.format(data_label_to_plot)
-        # Remove last comma
-        labels = labels[0:-1]
+                labels_list.append('{}'.format(data_label_to_plot))
     else:
-        labels='value'
+        labels_list.append('value')
 
     # Set index labels
     for index in data_indexes_to_plot:
-        labels+=',{}'.format(index)
+        labels_list.append('{}'.format(index))
 
     # Handle series mark (as index)
     if mark and RENDER_MARK_AS_INDEX:
-        labels+=',data_mark'
-
-    # Prepare labels string list for Dygraphs
-    labels_list = ['Timestamp'] + labels.split(',')
+        labels_list.append('data_mark')
 
     # Get series data in Dygraphs format (and aggregate if too much data and find global min and max)
     global_min, global_max, dg_data = _to_dg_data(series, data_labels_to_plot, data_indexes_to_plot, full_precision, aggregate_by, mark)
-- 
2.43.0


From 1445231efe42d6558f3d299a1466e582a1011283 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:40:05 +0000
Subject: [PATCH 078/102] fix: series with an undetectable sampling interval
 could not be plotted nor printed

---
 timeseria/datastructures.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/timeseria/datastructures.py b/timeseria/datastructures.py
index b45e8b6..10e1cd3 100644
--- a/timeseria/datastructures.py
+++ b/timeseria/datastructures.py
@@ -1547,8 +1547,12 @@ class TimeSeries(Series):
             resolution_string = 'undefined resolution'
         else:
             if self.resolution == 'variable':
-                autodetected_sampling_interval_as_str = TimeUnit(_to_time_unit_string(self._autodetected_sampling_interval, friendlier=True))
-                resolution_string = 'variable resolution (~{})'.format(autodetected_sampling_interval_as_str)
+                try:
+                    autodetected_sampling_interval_as_str = TimeUnit(_to_time_unit_string(self._autodetected_sampling_interval, friendlier=True))
+                    resolution_string = 'variable resolution (~{})'.format(autodetected_sampling_interval_as_str)
+                except Exception:
+                    # Not detectable, as for a single item or if the items are too irregularly spaced
+                    resolution_string = 'variable resolution'
             else:
                 resolution_string = '{} resolution'.format(self.resolution)
         return resolution_string
-- 
2.43.0


From d72a33ff1392730bb9fa04a44b090efdad85af29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:16:09 +0000
Subject: [PATCH 079/102] fix: the start and end of transformations were not on
 the time zone of the series

---
 timeseria/transformations.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/timeseria/transformations.py b/timeseria/transformations.py
index ac9aade..6d55ddb 100644
--- a/timeseria/transformations.py
+++ b/timeseria/transformations.py
@@ -431,12 +431,13 @@ class Transformation(object):
                     raise ValueError('Cannot use "{}" as end value, not a datetime nor an epoch timestamp'.format(end))
 
         # Set "from". TODO: check against shifted rounding if points?
-        if from_t:
-            from_dt = dt_from_s(from_t)
+        if from_t is not None:
+            from_dt = dt_from_s(from_t, tz=series.tz)
             if from_dt != self.time_unit.round(from_dt):
                 raise ValueError('The provided from_t is not consistent with the self.time_unit of "{}" (Got "{}")'.format(self.time_unit, from_t))
         elif from_dt:
             from_t = s_from_dt(from_dt)
+            from_dt = as_tz(from_dt, series.tz)
             if from_dt != self.time_unit.round(from_dt):
                 raise ValueError('The provided from_dt is not consistent with the self.time_unit of "{}" (Got "{}")'.format(self.time_unit, from_dt))
         else:
@@ -462,12 +463,13 @@ class Transformation(object):
                 raise ValueError('Don\'t know how to target "{}"'.format(target))
 
         # Set "to". TODO: check against shifted rounding if points?
-        if to_t:
-            to_dt = dt_from_s(to_t)
+        if to_t is not None:
+            to_dt = dt_from_s(to_t, tz=series.tz)
             if to_dt != self.time_unit.round(to_dt):
                 raise ValueError('The provided to_t is not consistent with the self.time_unit of "{}" (Got "{}")'.format(self.time_unit, to_t))
         elif to_dt:
             to_t = s_from_dt(to_dt)
+            to_dt = as_tz(to_dt, series.tz)
             if to_dt != self.time_unit.round(to_dt):
                 raise ValueError('The provided to_dt is not consistent with the self.time_unit of "{}" (Got "{}")'.format(self.time_unit, to_dt))
         else:
-- 
2.43.0


From 78d4e56afc6e45888a124523b8768e4a59b83966 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:16:09 +0000
Subject: [PATCH 080/102] fix: aggregations ending inside a gap went on after
 the end

---
 timeseria/transformations.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/timeseria/transformations.py b/timeseria/transformations.py
index 6d55ddb..edb0986 100644
--- a/timeseria/transformations.py
+++ b/timeseria/transformations.py
@@ -668,6 +668,11 @@ class Transformation(object):
                             logger.debug('Computed new item: %s',new_item )
                             new_series.append(new_item)
 
+                    # Do not spin slots after the end
+                    if slot_end_t >= to_t:
+                        process_ended = True
+                        break
+
                     # Create a new slot. This is where all the "conventional" time logic kicks-in, and where the timezone is required.
                     slot_start_t = slot_end_t
                     slot_start_dt = dt_from_s(slot_start_t, tz=timezone)
-- 
2.43.0


From 28123570153723fd0317f4bfddb09cd617088820 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:38:53 +0000
Subject: [PATCH 081/102] fix: comparing a slot with anything else than a slot
 raised an error

---
 timeseria/datastructures.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/timeseria/datastructures.py b/timeseria/datastructures.py
index 10e1cd3..5ee8135 100644
--- a/timeseria/datastructures.py
+++ b/timeseria/datastructures.py
@@ -349,6 +349,8 @@ class Slot():
         return self.__repr__()
 
     def __eq__(self, other):
+        if not isinstance(other, Slot):
+            return False
         if not self.start == other.start:
             return False
         if not self.end == other.end:
@@ -535,8 +537,11 @@ class DataSlot(Slot):
             return 'Slot @ [{},{}] with data "{}"'.format(self.start.__coordinates_repr__, self.end.__coordinates_repr__, self.data)
 
     def __eq__(self, other):
-        if self._data != other._data:
-            return False
+        try:
+            if self._data != other._data:
+                return False
+        except AttributeError:
+            pass
         return super(DataSlot, self).__eq__(other)
 
     @property
-- 
2.43.0


From 8e9f7627135fa050d3f836ac73d0de63c7725c01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:38:53 +0000
Subject: [PATCH 082/102] fix: the time zone given when casting a time point
 was ignored

---
 timeseria/datastructures.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/timeseria/datastructures.py b/timeseria/datastructures.py
index 5ee8135..ba82844 100644
--- a/timeseria/datastructures.py
+++ b/timeseria/datastructures.py
@@ -136,7 +136,8 @@ class TimePoint(Point):
 
             if isinstance(args[0], TimePoint):
                 t   = args[0].t
-                self._tz = args[0].tz
+                if not tz:
+                    self._tz = args[0].tz
             else:
                 t = args[0]
 
-- 
2.43.0


From f43f498fdd90d6ad0d0f98fa0bc953170e078908 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:38:53 +0000
Subject: [PATCH 083/102] fix: adding a generic unit to a time point lost its
 time zone

---
 timeseria/units.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/timeseria/units.py b/timeseria/units.py
index b175157..fac30ff 100644
--- a/timeseria/units.py
+++ b/timeseria/units.py
@@ -40,7 +40,10 @@ class Unit(object):
         try:
             if len(other.coordinates) > 1:
                 raise NotImplementedError('Cannot sum multidimensional objects')
-            return other.__class__(self.value + other.coordinates[0])
+            new_point = other.__class__(self.value + other.coordinates[0])
+            if hasattr(other, 'tz'):
+                new_point.change_tz(other.tz)
+            return new_point
         except:
             raise NotImplementedError('Don\'t know how to add Units with {}'.format(other.__class__.__name__))
 
-- 
2.43.0


From 4bea6dfb8e0a5085fb4bd711901fc3476209455a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:38:53 +0000
Subject: [PATCH 084/102] fix: generic units could not be subtracted from
 points

---
 timeseria/units.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/timeseria/units.py b/timeseria/units.py
index fac30ff..63d1fc6 100644
--- a/timeseria/units.py
+++ b/timeseria/units.py
@@ -69,6 +69,9 @@ class Unit(object):
             raise NotImplementedError('Don\'t know how to subtract Units with {}'.format(other.__class__.__name__))
 
     def __rsub__(self, other):
+        if hasattr(other, 'coordinates'):
+            # Subtract this unit from an object with coordinates
+            return Unit(-self.value).__add__(other)
         return -self.__sub__(other)
 
     def __truediv__(self, other):
-- 
2.43.0


From 19af1f5f9c8f0aa7430e3e528f418dad75b7c96a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:38:53 +0000
Subject: [PATCH 085/102] fix: time units could not be initialized with the
 value argument

---
 timeseria/units.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/timeseria/units.py b/timeseria/units.py
index 63d1fc6..d5cddbd 100644
--- a/timeseria/units.py
+++ b/timeseria/units.py
@@ -156,8 +156,8 @@ class TimeUnit(TimeSpan, Unit):
         if args and (isinstance(args[0], int) or isinstance(args[0], float)):
             args = list(args)
             args[0] = '{}s'.format(args[0])
-        if kwargs and 'value' in kwargs and (isinstance(kwargs['seconds'], int) or isinstance(kwargs['seconds'], float)) :
-            kwargs['seconds'] = kwargs.pop('value')
+        if kwargs and 'value' in kwargs and (isinstance(kwargs['value'], int) or isinstance(kwargs['value'], float)) :
+            kwargs['value'] = '{}s'.format(kwargs['value'])
         super(TimeUnit, self).__init__(*args, **kwargs)
 
     # Support for TimePoints and this TimeUnit class
-- 
2.43.0


From fdf0cbbc656437168370d2e9da2514c06f9eca0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:47:36 +0000
Subject: [PATCH 086/102] fix: the multiplicities of spacings were lost when
 rounding them for detecting the sampling interval

---
 timeseria/utilities.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/timeseria/utilities.py b/timeseria/utilities.py
index 3de9908..153b776 100644
--- a/timeseria/utilities.py
+++ b/timeseria/utilities.py
@@ -102,12 +102,12 @@ def detect_sampling_interval(timeseries, confidence=False):
     while _is_almost_equal(len(diffs), len(timeseries)):
         or_diffs=diffs
         diffs={}
-        for diff in or_diffs:
-            diff=round(diff)
+        for or_diff in or_diffs:
+            diff=round(or_diff)
             if diff not in diffs:
-                diffs[diff] = 1
+                diffs[diff] = or_diffs[or_diff]
             else:
-                diffs[diff] +=1
+                diffs[diff] += or_diffs[or_diff]
 
         i += 1
         if i > 10:
-- 
2.43.0


From 328d0b995125487b55ab52e6eb5874f768f627f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:37:31 +0000
Subject: [PATCH 087/102] fix: LSTM forecasters could not be fitted on a list
 of target data labels

---
 timeseria/models/forecasters.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/timeseria/models/forecasters.py b/timeseria/models/forecasters.py
index 0c4ef94..3654c61 100644
--- a/timeseria/models/forecasters.py
+++ b/timeseria/models/forecasters.py
@@ -897,10 +897,10 @@ class LSTMForecaster(Forecaster, _KerasModel):
         else:
             if isinstance(target, str):
                 target_data_labels = [target]
-            elif isinstance(target_data_labels, list):
+            elif isinstance(target, list):
                 target_data_labels = target
             else:
-                raise TypeError('Don\'t know how to target for data labels as type "{}"'.format(target_data_labels.__class__.__name__))
+                raise TypeError('Don\'t know how to target for data labels as type "{}"'.format(target.__class__.__name__))
             for target_data_label in target_data_labels:
                 if target_data_label not in series.data_labels():
                     raise ValueError('Cannot target data label "{}" as not found in the series labels ({})'.format(target_data_label, series.data_labels()))
-- 
2.43.0


From b7186fdcfc980ce5178e2d207de775fe8b398a92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:37:31 +0000
Subject: [PATCH 088/102] fix: LSTM forecasters fitted again without
 normalization used the previous normalization factors

---
 timeseria/models/forecasters.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/timeseria/models/forecasters.py b/timeseria/models/forecasters.py
index 3654c61..b53011e 100644
--- a/timeseria/models/forecasters.py
+++ b/timeseria/models/forecasters.py
@@ -925,6 +925,10 @@ class LSTMForecaster(Forecaster, _KerasModel):
         # Data labels shortcut
         data_labels = series.data_labels()
 
+        # Forget the normalization factors of previous fits, if any
+        self.data.pop('min_values', None)
+        self.data.pop('max_values', None)
+
         if normalize:
 
             # We need this to in order not to modify original data
-- 
2.43.0


From fd186b5312888fc20bfdde58ddbee35ad64afff0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:37:31 +0000
Subject: [PATCH 089/102] fix: items with an undefined data loss could not be
 moved to the matrix representation

---
 timeseria/models/base.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/timeseria/models/base.py b/timeseria/models/base.py
index 75b869b..e016285 100644
--- a/timeseria/models/base.py
+++ b/timeseria/models/base.py
@@ -604,13 +604,13 @@ class _KerasModel(Model):
                 # Add window elements
                 window_elements_vector = []
                 for j in range(window):
-                    if data_loss_limit is not None and 'data_loss' in series[i-window+j].data_indexes and series[i-window+j].data_indexes['data_loss'] >= data_loss_limit:
+                    if data_loss_limit is not None and series[i-window+j].data_loss is not None and series[i-window+j].data_loss >= data_loss_limit:
                         raise TooMuchDataLoss()
                     window_elements_vector.append(series[i-window+j])
 
                 # Add target values
                 target_values_sub_vector = []
-                if data_loss_limit is not None and 'data_loss' in series[i].data_indexes and series[i].data_indexes['data_loss'] >= data_loss_limit:
+                if data_loss_limit is not None and series[i].data_loss is not None and series[i].data_loss >= data_loss_limit:
                     raise TooMuchDataLoss()
                 for target_data_label in target_data_labels:
                     target_values_sub_vector.append(series[i].data[target_data_label])
-- 
2.43.0


From 1f980b06bedb137a4c5ce6bb2b249b736f531656 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:37:31 +0000
Subject: [PATCH 090/102] fix: context data could not be used with series of
 slots

---
 timeseria/models/base.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/timeseria/models/base.py b/timeseria/models/base.py
index e016285..f9dd4dd 100644
--- a/timeseria/models/base.py
+++ b/timeseria/models/base.py
@@ -14,7 +14,7 @@ import shutil
 from ..exceptions import NotFittedError
 from ..utilities import _check_timeseries, _check_resolution, _check_data_labels, _item_is_in_range
 from ..units import TimeUnit
-from ..datastructures import Point, Series, TimeSeries, TimeSeriesView
+from ..datastructures import Point, Slot, Series, TimeSeries, TimeSeriesView
 
 # Setup logging
 import logging
@@ -651,7 +651,10 @@ class _KerasModel(Model):
         # Handle context data if any (as "fake", context datapoint).
         if context_data:
             context_datapoint_dt = window_datapoints[-1].dt + time_unit
-            context_datapoint = window_datapoints[-1].__class__(dt = context_datapoint_dt, data = context_data)
+            if isinstance(window_datapoints[-1], Slot):
+                context_datapoint = window_datapoints[-1].__class__(dt = context_datapoint_dt, unit = time_unit, data = context_data)
+            else:
+                context_datapoint = window_datapoints[-1].__class__(dt = context_datapoint_dt, data = context_data)
             window_datapoints.append(context_datapoint)
 
         # Compute the features
-- 
2.43.0


From dbc0f91bc20c9313fb15496a0b257f6fad7621c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:37:31 +0000
Subject: [PATCH 091/102] fix: context data including the target replaced what
 was forecasted

---
 timeseria/models/forecasters.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/timeseria/models/forecasters.py b/timeseria/models/forecasters.py
index b53011e..32b0c93 100644
--- a/timeseria/models/forecasters.py
+++ b/timeseria/models/forecasters.py
@@ -120,7 +120,8 @@ class Forecaster(Model):
                 last_item = forecast[-1]
         else:
             if context_data:
-                predicted_data.update(context_data)
+                # The context must not replace what was predicted
+                predicted_data = {**context_data, **predicted_data}
             if isinstance(series[0], Slot):
                 forecast = DataTimeSlot(start = forecast_start_item.end,
                                         unit  = series.resolution,
-- 
2.43.0


From 038fa533e0ca02a1d07cc423b5811539f9af1995 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:37:39 +0000
Subject: [PATCH 092/102] fix: forecasters fitted minimizing a metric not
 supported in the evaluation could not be evaluated

---
 timeseria/models/forecasters.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/timeseria/models/forecasters.py b/timeseria/models/forecasters.py
index 32b0c93..66abfcc 100644
--- a/timeseria/models/forecasters.py
+++ b/timeseria/models/forecasters.py
@@ -244,7 +244,7 @@ class Forecaster(Model):
             fit_minimized_error_metric = None
 
         if error_metrics == 'auto':
-            if fit_minimized_error_metric:
+            if fit_minimized_error_metric in ['MSE', 'RMSE', 'MAE', 'HAE', 'MAPE', 'HAPE', 'MALE', 'HALE']:
                 error_metrics = [fit_minimized_error_metric]
                 logger.info('Using the same aggregate error metric minimized in the fit phase to evaluate: {}'.format(fit_minimized_error_metric))
             else:
-- 
2.43.0


From 59062ba5c47654061bc4cd511df0e7185b043aaa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:59:51 +0000
Subject: [PATCH 093/102] fix: operations on series of calendar slots moved to
 another time zone failed or misplaced them

Items of the results were created from the start and the unit only, thus computing their end again in the new time zone.
---
 timeseria/operations.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/timeseria/operations.py b/timeseria/operations.py
index d0434c6..6465c94 100644
--- a/timeseria/operations.py
+++ b/timeseria/operations.py
@@ -360,6 +360,7 @@ class Derivative(Operation):
                                                           data_indexes = item.data_indexes))
                 elif isinstance(series[0], Slot):
                     der_series.append(series[0].__class__(start = item.start,
+                                                          end = item.end,
                                                           unit = item.unit,
                                                           data = der_data,
                                                           data_indexes = item.data_indexes))
@@ -524,6 +525,7 @@ class Integral(Operation):
                                                           data_indexes = item.data_indexes))
                 elif isinstance(series[0], Slot):
                     int_series.append(series[0].__class__(start = item.start,
+                                                          end = item.end,
                                                           unit = item.unit,
                                                           data = data,
                                                           data_indexes = item.data_indexes))
@@ -626,6 +628,7 @@ class Normalize(Operation):
                                                                  data_indexes = item.data_indexes))
                 elif isinstance(series[0], Slot):
                     normalized_series.append(series[0].__class__(start = item.start,
+                                                                 end = item.end,
                                                                  unit = item.unit,
                                                                  data = normalized_data,
                                                                  data_indexes = item.data_indexes))
@@ -690,6 +693,7 @@ class Rescale(Operation):
                                                                data_indexes = item.data_indexes))
                 elif isinstance(series[0], Slot):
                     rescaled_series.append(series[0].__class__(start = item.start,
+                                                               end = item.end,
                                                                unit = item.unit,
                                                                data = rescaled_data,
                                                                data_indexes = item.data_indexes))
@@ -755,6 +759,7 @@ class Offset(Operation):
                                                                data_indexes = item.data_indexes))
                 elif isinstance(series[0], Slot):
                     rescaled_series.append(series[0].__class__(start = item.start,
+                                                               end = item.end,
                                                                unit = item.unit,
                                                                data = offsetted_data,
                                                                data_indexes = item.data_indexes))
@@ -818,6 +823,7 @@ class MAvg(Operation):
                                                        data = mavg_data))
             elif isinstance(series[0], Slot):
                 mavg_series.append(series[0].__class__(start = item.start,
+                                                       end = item.end,
                                                        unit = item.unit,
                                                        data = mavg_data))
             else:
@@ -1159,6 +1165,7 @@ class Merge(Operation):
                                                              data_indexes = data_indexes))
             elif isinstance(reference_series[0], Slot):
                 result_series.append(seriess[0][0].__class__(start = reference_series[i].start,
+                                                             end   = reference_series[i].end,
                                                              unit  = unit,
                                                              data  = data,
                                                              data_indexes = data_indexes))
-- 
2.43.0


From 276766bb325007f9d8edcc30f1144aa2f38e4a0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:11:10 +0000
Subject: [PATCH 094/102] fix: derivatives and integrals of calendar slots
 moved to another time zone used the length of other slots

The length of the unit was computed from the start of the first slot in the new time zone, where it can be different (or not defined).
---
 timeseria/operations.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/timeseria/operations.py b/timeseria/operations.py
index 6465c94..b7d3442 100644
--- a/timeseria/operations.py
+++ b/timeseria/operations.py
@@ -257,7 +257,10 @@ class Derivative(Operation):
                 sampling_interval = series._autodetected_sampling_interval
             else:
                 variable_resolution = False
-                if isinstance(series.resolution, TimeUnit):
+                if isinstance(series.resolution, TimeUnit) and isinstance(series[0], Slot):
+                    # The length of the slot, as its unit might have another one in its time zone (if changed)
+                    sampling_interval = round(series[0].length, 6)
+                elif isinstance(series.resolution, TimeUnit):
                     sampling_interval = series.resolution.as_seconds(series[0].dt)
                 elif isinstance(series.resolution, Unit):
                     sampling_interval = series.resolution
@@ -395,7 +398,10 @@ class Integral(Operation):
                 sampling_interval = series._autodetected_sampling_interval
             else:
                 variable_resolution = False
-                if isinstance(series.resolution, TimeUnit):
+                if isinstance(series.resolution, TimeUnit) and isinstance(series[0], Slot):
+                    # The length of the slot, as its unit might have another one in its time zone (if changed)
+                    sampling_interval = round(series[0].length, 6)
+                elif isinstance(series.resolution, TimeUnit):
                     sampling_interval = series.resolution.as_seconds(series[0].dt)
                 elif isinstance(series.resolution, Unit):
                     sampling_interval = series.resolution
-- 
2.43.0


From 80038ad3d44ee0611fa16ea4d83e77a35d48d242 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:59:53 +0000
Subject: [PATCH 095/102] fix: error bounds by adherence were looked for on the
 wrong side of distributions centred far from zero

---
 timeseria/utilities.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/timeseria/utilities.py b/timeseria/utilities.py
index 153b776..3415a4a 100644
--- a/timeseria/utilities.py
+++ b/timeseria/utilities.py
@@ -436,9 +436,9 @@ class DistributionFunction():
 
         start = self.params['loc']
         if side == 'right':
-            end = self.params['scale']*wideness
+            end = start + self.params['scale']*wideness
         elif side == 'left':
-            end = -(self.params['scale']*wideness)
+            end = start - self.params['scale']*wideness
         else:
             raise ValueError('unknown side "{}"'.format(side))
 
-- 
2.43.0


From 99599ca04067d6aee4728532eb6237de2ac3829b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:24:33 +0000
Subject: [PATCH 096/102] fix: the Prophet reconstructor was asked about UTC
 times having been fitted on local ones

---
 timeseria/models/reconstructors.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/timeseria/models/reconstructors.py b/timeseria/models/reconstructors.py
index ff0e472..eda0dad 100644
--- a/timeseria/models/reconstructors.py
+++ b/timeseria/models/reconstructors.py
@@ -5,7 +5,6 @@ import copy
 from sklearn.metrics import mean_absolute_error, mean_squared_error
 from pandas import DataFrame
 from math import sqrt
-from propertime.utils import dt_from_s
 
 from ..utilities import detect_periodicity, _get_periodicity_index, mean_absolute_percentage_error
 from ..units import TimeUnit
@@ -541,7 +540,7 @@ class ProphetReconstructor(Reconstructor, _ProphetModel):
         items_to_reconstruct = []
         for j in range(from_i, to_i+1):
             items_to_reconstruct.append(series[j])
-        data_to_reconstruct = [self._remove_timezone(dt_from_s(item.t)) for item in items_to_reconstruct]
+        data_to_reconstruct = [self._remove_timezone(item.dt) for item in items_to_reconstruct]
         dataframe_to_reconstruct = DataFrame(data_to_reconstruct, columns = ['ds'])
 
         # Apply Prophet fit
-- 
2.43.0


From a8c5b0c9e66414af945b16e2edc47690e7f690b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:24:33 +0000
Subject: [PATCH 097/102] fix: the ARIMA models checked series against the one
 used for the fit as changed since

---
 timeseria/models/forecasters.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/timeseria/models/forecasters.py b/timeseria/models/forecasters.py
index 66abfcc..d01cbb1 100644
--- a/timeseria/models/forecasters.py
+++ b/timeseria/models/forecasters.py
@@ -722,8 +722,8 @@ class ARIMAForecaster(Forecaster, _ARIMAModel):
         self.model = sm.tsa.ARIMA(data, (self.p,self.d,self.q))
         self.model_res = self.model.fit(disp=verbose)
 
-        # Save the series we used for the fit.
-        self.fit_series = series
+        # Save the series we used for the fit (a copy, as it might be changed afterwards).
+        self.fit_series = series.duplicate()
 
         # The ARIMA models, as Prophet, have no window
         self.data['window'] = 0
@@ -781,8 +781,8 @@ class AARIMAForecaster(Forecaster, _ARIMAModel):
 
         self.model = autoarima_model
 
-        # Save the series we used for the fit.
-        self.fit_series = series
+        # Save the series we used for the fit (a copy, as it might be changed afterwards).
+        self.fit_series = series.duplicate()
 
         # The ARIMA models, as Prophet, have no window
         self.data['window'] = 0
-- 
2.43.0


From eb545ec385868387ac4162ff07ca1d0d23c7a346 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:33:10 +0000
Subject: [PATCH 098/102] fix: interpolators asked for a value outside the
 series or without its ends gave wrong values or refused

---
 timeseria/interpolators.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/timeseria/interpolators.py b/timeseria/interpolators.py
index 6e147f8..998c6de 100644
--- a/timeseria/interpolators.py
+++ b/timeseria/interpolators.py
@@ -37,7 +37,7 @@ class LinearInterpolator(Interpolator):
                     next_i = i
                     break
 
-            if next_i is None:
+            if prev_i is None or prev_i < 0:
                 raise ValueError('Trying to interpolate a point outside the series: prev_i="{}", next_i="{}", at="{}", series="{}"'.format(prev_i, next_i, at, self.series))
 
         else:
@@ -89,12 +89,12 @@ class UniformInterpolator(Interpolator):
 
     def evaluate(self, at, prev_i=None, next_i=None):
 
-        if prev_i and next_i is None:
+        if prev_i is not None and next_i is None:
             raise ValueError('If you provide the prev_i you also need to provide the next_i')
-        if next_i and prev_i is None:
+        if next_i is not None and prev_i is None:
             raise ValueError('If you provide the next_i you also need to provide the prev_i')
 
-        if not prev_i:
+        if prev_i is None:
             logger.warning('You are not providing the prev_i and next_i, this will cause the interpolator to look for them and likely introduce a slow down')
 
             # Search for the prev_i:
@@ -102,9 +102,9 @@ class UniformInterpolator(Interpolator):
                 if item.t > at:
                     prev_i = i-1
                     next_i = i
-                break
+                    break
 
-            if next_i is None:
+            if prev_i is None or prev_i < 0:
                 raise ValueError('Trying to interpolate a point outside the series')
 
         else:
-- 
2.43.0


From 4c7ebb9bf33fbe7edfad208e40b96d5fc09f2b2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:33:24 +0000
Subject: [PATCH 099/102] fix: resampling with a start or an end gave points
 half unit off the grid of the unit

---
 timeseria/transformations.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/timeseria/transformations.py b/timeseria/transformations.py
index edb0986..a5b355f 100644
--- a/timeseria/transformations.py
+++ b/timeseria/transformations.py
@@ -488,6 +488,14 @@ class Transformation(object):
             else:
                 raise ValueError('Don\'t know how to target "{}"'.format(target))
 
+        # The points are in the center of their intervals, which for the given start and end begin half unit before and end half unit after
+        if target == 'points' and start is not None:
+            from_t = from_t - (self.time_unit.as_seconds() /2)
+            from_dt = dt_from_s(from_t, tz=series.tz)
+        if target == 'points' and end is not None:
+            to_t = to_t + (self.time_unit.as_seconds() /2)
+            to_dt = dt_from_s(to_t, tz=series.tz)
+
         # Set/fix timezone
         from_dt = as_tz(from_dt, series.tz)
         to_dt = as_tz(to_dt, series.tz)
-- 
2.43.0


From 0b93d8d785f113fe32882d94b034b2f2d7935252 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:11:32 +0000
Subject: [PATCH 100/102] fix: a CSV storage used again kept the timestamp
 column and format detected on what was in the file before

---
 timeseria/storages.py | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/timeseria/storages.py b/timeseria/storages.py
index 3a1e018..88be7da 100644
--- a/timeseria/storages.py
+++ b/timeseria/storages.py
@@ -135,6 +135,10 @@ class CSVFileStorage(Storage):
         self.timestamp_column = timestamp_column
         self.timestamp_format = timestamp_format
 
+        # What is to be detected, for each file content
+        self._detect_timestamp_column = timestamp_column == 'auto'
+        self._detect_timestamp_format = timestamp_format == 'auto'
+
         self.date_column = date_column
         self.date_format = date_format
 
@@ -195,6 +199,12 @@ class CSVFileStorage(Storage):
         column_indexes = None
         column_labels = None
 
+        # Forget what was detected on a previous content of the file
+        if self._detect_timestamp_column:
+            self.timestamp_column = 'auto'
+        if self._detect_timestamp_format:
+            self.timestamp_format = 'auto'
+
         timestamp_column_index = None
         time_column_index = None
         date_column_index = None
-- 
2.43.0


From dede2ebb36cd5879c71c3cce8dfa3e64f9fc048d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:10:07 +0000
Subject: [PATCH 101/102] fix: zero divided by a unit is zero, not a division
 by zero

---
 timeseria/units.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/timeseria/units.py b/timeseria/units.py
index d5cddbd..4fd01f2 100644
--- a/timeseria/units.py
+++ b/timeseria/units.py
@@ -86,6 +86,11 @@ class Unit(object):
                 raise NotImplementedError('Cannot divide multidimensional objects')
 
     def __rtruediv__(self, other):
+
+        # Divide a numerical
+        if is_numerical(self.value) and is_numerical(other):
+            return other / self.value
+
         return ( 1 / self.__truediv__(other))
 
     def __mul__(self, other):
-- 
2.43.0


From f27bd57bea81008f161b193f3e1cd8852bf88809 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:10:07 +0000
Subject: [PATCH 102/102] fix: plot with Matplotlib series whose first items
 have no data loss defined

---
 timeseria/plots.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/timeseria/plots.py b/timeseria/plots.py
index 4588c57..36ad0d1 100644
--- a/timeseria/plots.py
+++ b/timeseria/plots.py
@@ -1164,7 +1164,8 @@ define('"""+graph_id+"""', ['dgenv'], function (Dygraph) {
 def matplotlib_plot(series):
     """Plot a time series using Matplotlib."""
     from matplotlib import pyplot
-    pyplot.plot(series.to_df())
+    # Not defined data losses are plotted as missing values
+    pyplot.plot(series.to_df().fillna(float('nan')))
     pyplot.show()
 
 
-- 
2.43.0

