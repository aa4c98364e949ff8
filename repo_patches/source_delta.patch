From e825f7fcdb7516e301750db3b8288a2c1fa63698 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:32 +0000
Subject: [PATCH 01/84] fix: accept string date_time in SurfaceFile.add_station

The row key was built from the argument instead of the parsed datetime,
so the documented YYYYmmddHHMM form raised AttributeError.
---
 src/gempakio/encode/gempak.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/gempakio/encode/gempak.py b/src/gempakio/encode/gempak.py
index 5a054a7..d8e2819 100644
--- a/src/gempakio/encode/gempak.py
+++ b/src/gempakio/encode/gempak.py
@@ -1506,7 +1506,7 @@ class SurfaceFile(DataManagementFile):
                 std2 = stid[4:8]
                 stid = stid[:4]
 
-        new_row = (date_time.date(), date_time.time())
+        new_row = (self._datetime.date(), self._datetime.time())
         self._row_set.add(self.make_row_header(*new_row))
 
         new_column = (stid, stnm, slat, slon, selv, stat, coun, std2, spri)
-- 
2.43.0


From b6590aa094aea142c3061d354484f55890b4d5e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:32 +0000
Subject: [PATCH 02/84] fix: round station coordinates to hundredths instead of
 truncating

0.29 * 100 is 28.999..., which was stored as 28.
---
 src/gempakio/encode/gempak.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/gempakio/encode/gempak.py b/src/gempakio/encode/gempak.py
index d8e2819..89445a6 100644
--- a/src/gempakio/encode/gempak.py
+++ b/src/gempakio/encode/gempak.py
@@ -1299,7 +1299,7 @@ class SoundingFile(DataManagementFile):
                     stream.write_string(getattr(ch, key))
                 elif 'i' in dtype:
                     if key in ['SLAT', 'SLON']:
-                        coord = int(getattr(ch, key) * 100)
+                        coord = round(getattr(ch, key) * 100)
                         stream.write_int(coord)
                     else:
                         stream.write_int(getattr(ch, key))
@@ -1565,7 +1565,7 @@ class SurfaceFile(DataManagementFile):
                     stream.write_string(getattr(ch, key))
                 elif 'i' in dtype:
                     if key in ['SLAT', 'SLON']:
-                        coord = int(getattr(ch, key) * 100)
+                        coord = round(getattr(ch, key) * 100)
                         stream.write_int(coord)
                     else:
                         stream.write_int(getattr(ch, key))
-- 
2.43.0


From 679cdbb0a4de1ae1a4af7b216c966acfcbb5c96a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:32 +0000
Subject: [PATCH 03/84] fix: allow grids with and without a secondary time in
 one file

Sorting the column headers compared 0 with a tuple and raised TypeError.
---
 src/gempakio/encode/gempak.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/gempakio/encode/gempak.py b/src/gempakio/encode/gempak.py
index 89445a6..1a75671 100644
--- a/src/gempakio/encode/gempak.py
+++ b/src/gempakio/encode/gempak.py
@@ -919,7 +919,7 @@ class GridFile(DataManagementFile):
         new_column = (
             (grid_type, init_date),
             (grid_type, forecast_hour, forecast_minute),
-            (grid_type2, init_date2) if date_time2 is not None else 0,
+            (grid_type2, init_date2) if date_time2 is not None else (),
             (grid_type2, forecast_hour2, forecast_minute2),
             level,
             level2 if level2 is not None else -1,
@@ -973,7 +973,7 @@ class GridFile(DataManagementFile):
                 elif 'i' in dtype:
                     if key in ['GDT1', 'GDT2']:
                         value = getattr(ch, key)
-                        if value != 0:
+                        if value:
                             itype, dattim = value
                             if itype == 0:
                                 idate = int(dattim.strftime('%y%m%d'))
-- 
2.43.0


From 2acd337ccd61bf1aa8195fb7825b84b0f79f9053 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:32 +0000
Subject: [PATCH 04/84] fix: check the length of date_time2 rather than
 date_time

A datetime date_time with a string date_time2 raised TypeError.
---
 src/gempakio/encode/gempak.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/gempakio/encode/gempak.py b/src/gempakio/encode/gempak.py
index 1a75671..60b2d56 100644
--- a/src/gempakio/encode/gempak.py
+++ b/src/gempakio/encode/gempak.py
@@ -881,7 +881,7 @@ class GridFile(DataManagementFile):
         grid_type2 = 0
         if date_time2 is not None:
             if isinstance(date_time2, str):
-                if len(date_time) < 12:
+                if len(date_time2) < 12:
                     raise ValueError(
                         f'{date_time2} does not match minimum format of YYYYmmddHHMM.'
                     )
-- 
2.43.0


From db63dfa59868c1ef3c3f3c05afa50b00a38d7cbb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:11 +0000
Subject: [PATCH 05/84] fix: keep the hour and minute of explicit analysis
 times

YYYYmmddHHMMA lost HHMM because the analysis time key was taken from the
forecast part alone.
---
 src/gempakio/encode/gempak.py | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/src/gempakio/encode/gempak.py b/src/gempakio/encode/gempak.py
index 60b2d56..89df162 100644
--- a/src/gempakio/encode/gempak.py
+++ b/src/gempakio/encode/gempak.py
@@ -857,6 +857,11 @@ class GridFile(DataManagementFile):
                 else:
                     forecast_hour = 0 if fhr == '' else int(fhr)
                 grid_type = {'A': 0, 'F': 1, 'V': 1, 'G': 2, 'I': 3}.get(gtype)
+                if grid_type == 0:
+                    # Analyses are stored with their valid time
+                    init_date += timedelta(hours=forecast_hour, minutes=forecast_minute)
+                    forecast_hour = init_date.hour
+                    forecast_minute = init_date.minute
             elif len(split_time) > 3:
                 raise ValueError(f'Cannot parse malformed date_time input {date_time}.')
             else:
@@ -900,6 +905,12 @@ class GridFile(DataManagementFile):
                     grid_type2 = {'A': 0, 'F': 1, 'V': 1, 'G': 2, 'I': 3}.get(gtype)
                     if grid_type != grid_type2:
                         raise ValueError('Grid type mismatch in date_time and date_time2.')
+                    if grid_type2 == 0:
+                        init_date2 += timedelta(
+                            hours=forecast_hour2, minutes=forecast_minute2
+                        )
+                        forecast_hour2 = init_date2.hour
+                        forecast_minute2 = init_date2.minute
                 elif len(split_time) > 3:
                     raise ValueError(f'Cannot parse malformed date_time2 input {date_time2}.')
                 else:
-- 
2.43.0


From 2c2cc8fe582d4c74e9b0f9e47686c4fe52e434ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:11 +0000
Subject: [PATCH 06/84] fix: do not modify or alias the grid passed to add_grid

NaN replacement was done in place on the caller's array, which was then
kept by reference.
---
 src/gempakio/encode/gempak.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/gempakio/encode/gempak.py b/src/gempakio/encode/gempak.py
index 89df162..fc32456 100644
--- a/src/gempakio/encode/gempak.py
+++ b/src/gempakio/encode/gempak.py
@@ -316,8 +316,8 @@ class DataManagementFile:
 
     def _replace_nan(self, array):
         """Replace nan values from an array with missing value."""
-        nan_loc = np.isnan(array)
-        array[nan_loc] = self._missing_float
+        array = np.array(array)
+        array[np.isnan(array)] = self._missing_float
         return array
 
     def _set_pointers(self):
@@ -1206,7 +1206,7 @@ class SoundingFile(DataManagementFile):
         if not isinstance(data, dict):
             raise TypeError('data must be a dict.')
 
-        data = {k.upper(): self._replace_nan(np.asarray(v.copy())) for k, v in data.items()}
+        data = {k.upper(): self._replace_nan(v) for k, v in data.items()}
         params = self._param_args(**data)
 
         if not self._validate_length(data):
-- 
2.43.0


From bb6aa4e6e3d848036922c7bd1664d31ad061fd3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:11 +0000
Subject: [PATCH 07/84] fix: leave the file object unchanged when an add is
 rejected

Exceeding the entry limit (or unsortable keys) raised after the new keys
and data had already been recorded, so the rejected entry was written.
---
 src/gempakio/encode/gempak.py | 66 ++++++++++++++++++++---------------
 1 file changed, 38 insertions(+), 28 deletions(-)

diff --git a/src/gempakio/encode/gempak.py b/src/gempakio/encode/gempak.py
index fc32456..bee0865 100644
--- a/src/gempakio/encode/gempak.py
+++ b/src/gempakio/encode/gempak.py
@@ -943,17 +943,19 @@ class GridFile(DataManagementFile):
             gpm2,
             gpm3,
         )
-        self._column_set.add(self.make_column_header(*new_column))
+        grid = self._replace_nan(grid)
+        column_set = OrderedSet([*self._column_set, self.make_column_header(*new_column)])
 
-        self.data[new_column] = self._replace_nan(grid)
-
-        self.columns = len(self._column_set)
-
-        if self.rows + self.columns > MMHDRS:
+        if self.rows + len(column_set) > MMHDRS:
             raise ValueError('Exceeded maximum number data entries.')
 
-        self.column_headers = sorted(self._column_set)
-        self.row_headers = sorted(self._row_set)
+        column_headers = sorted(column_set)
+
+        # Nothing can be rejected anymore
+        self._column_set = column_set
+        self.column_headers = column_headers
+        self.columns = len(column_set)
+        self.data[new_column] = grid
 
     def _pack_grib(self, grid, nbits=16):
         """Pack a grid of floats into integers."""
@@ -1252,21 +1254,25 @@ class SoundingFile(DataManagementFile):
                 stid = stid[:4]
 
         new_row = (self._datetime.date(), self._datetime.time())
-        self._row_set.add(self.make_row_header(*new_row))
+        row_set = OrderedSet([*self._row_set, self.make_row_header(*new_row)])
 
         new_column = (stid, stnm, slat, slon, selv, stat, coun, std2)
-        self._column_set.add(self.make_column_header(*new_column))
+        column_set = OrderedSet([*self._column_set, self.make_column_header(*new_column)])
 
-        self.data[(new_row, new_column)] = params._asdict()
-
-        self.rows = len(self._row_set)
-        self.columns = len(self._column_set)
-
-        if self.rows + self.columns > MMHDRS:
+        if len(row_set) + len(column_set) > MMHDRS:
             raise ValueError('Exceeded maximum number data entries.')
 
-        self.column_headers = sorted(self._column_set)
-        self.row_headers = sorted(self._row_set)
+        row_headers = sorted(row_set)
+        column_headers = sorted(column_set)
+
+        # Nothing can be rejected anymore
+        self._row_set = row_set
+        self._column_set = column_set
+        self.row_headers = row_headers
+        self.column_headers = column_headers
+        self.rows = len(row_set)
+        self.columns = len(column_set)
+        self.data[(new_row, new_column)] = params._asdict()
 
     def _write_row_headers(self, stream):
         """Write row headers to a SoundingFile stream."""
@@ -1518,21 +1524,25 @@ class SurfaceFile(DataManagementFile):
                 stid = stid[:4]
 
         new_row = (self._datetime.date(), self._datetime.time())
-        self._row_set.add(self.make_row_header(*new_row))
+        row_set = OrderedSet([*self._row_set, self.make_row_header(*new_row)])
 
         new_column = (stid, stnm, slat, slon, selv, stat, coun, std2, spri)
-        self._column_set.add(self.make_column_header(*new_column))
-
-        self.data[(new_row, new_column)] = params._asdict()
+        column_set = OrderedSet([*self._column_set, self.make_column_header(*new_column)])
 
-        self.rows = len(self._row_set)
-        self.columns = len(self._column_set)
-
-        if self.rows + self.columns > MMHDRS:
+        if len(row_set) + len(column_set) > MMHDRS:
             raise ValueError('Exceeded maximum number data entries.')
 
-        self.column_headers = sorted(self._column_set)
-        self.row_headers = sorted(self._row_set)
+        row_headers = sorted(row_set)
+        column_headers = sorted(column_set)
+
+        # Nothing can be rejected anymore
+        self._row_set = row_set
+        self._column_set = column_set
+        self.row_headers = row_headers
+        self.column_headers = column_headers
+        self.rows = len(row_set)
+        self.columns = len(column_set)
+        self.data[(new_row, new_column)] = params._asdict()
 
     def _write_row_headers(self, stream):
         """Write row headers to a SurfaceFile stream."""
-- 
2.43.0


From d91467ba217ae8e7171710574c48e686e0e06f8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:42 +0000
Subject: [PATCH 08/84] fix: pad sounding and surface files to a whole block

When the last station/time cell was empty the padding was computed from the
end of the pointer table and the file ended inside a block.
---
 src/gempakio/encode/gempak.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/gempakio/encode/gempak.py b/src/gempakio/encode/gempak.py
index bee0865..6f18b6b 100644
--- a/src/gempakio/encode/gempak.py
+++ b/src/gempakio/encode/gempak.py
@@ -1354,6 +1354,8 @@ class SoundingFile(DataManagementFile):
                 else:
                     stream.write_int(0)
 
+        # The last cell may be empty, so continue from the last data written
+        stream.jump_to(self.next_free_word)
         _rec, word = self._dmword(stream.word())
         # Fill out the remainder of the block, if needed
         if word != 1:
@@ -1619,6 +1621,8 @@ class SurfaceFile(DataManagementFile):
                 else:
                     stream.write_int(0)
 
+        # The last cell may be empty, so continue from the last data written
+        stream.jump_to(self.next_free_word)
         _rec, word = self._dmword(stream.word())
         # Fill out the remainder of the block, if needed
         if word != 1:
-- 
2.43.0


From ee65bb90d007432c4c165dbd2bdd8ab9d1f1e054 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:42 +0000
Subject: [PATCH 09/84] fix: write grids with two rows or columns

The grid spacing indices were one too large (they are one-based in GEMPAK),
which raised IndexError for the smallest grids.
---
 src/gempakio/encode/gempak.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/gempakio/encode/gempak.py b/src/gempakio/encode/gempak.py
index 6f18b6b..5933226 100644
--- a/src/gempakio/encode/gempak.py
+++ b/src/gempakio/encode/gempak.py
@@ -1027,10 +1027,10 @@ class GridFile(DataManagementFile):
         )
 
         # Write a basic analysis block (type 2)
-        rx1 = self.nx // 2
-        rx2 = rx1 + 1
-        ry1 = self.ny // 2
-        ry2 = ry1 + 1
+        rx2 = self.nx // 2
+        rx1 = rx2 - 1
+        ry2 = self.ny // 2
+        ry1 = ry2 - 1
         dellon = self.lon[ry2, rx2] - self.lon[ry1, rx1]
         dellat = self.lat[ry2, rx2] - self.lat[ry1, rx1]
         deltan = np.sqrt(0.5 * (dellon**2 + dellat**2)) * 2
-- 
2.43.0


From 2831108a32cf7e7fd141669470089c6a5fe74e8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:42 +0000
Subject: [PATCH 10/84] fix: exclude missing values from the range of packed
 grids

A single missing point made the packed range start at -9999, which destroyed
the precision of all other points.
---
 src/gempakio/encode/gempak.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/gempakio/encode/gempak.py b/src/gempakio/encode/gempak.py
index 5933226..81cd5b3 100644
--- a/src/gempakio/encode/gempak.py
+++ b/src/gempakio/encode/gempak.py
@@ -56,8 +56,9 @@ def pack_grib(grid, missing_float, nbits=16):
         qmin = missing_float
         qmax = missing_float
     else:
-        qmin = grid.min()
-        qmax = grid.max()
+        valid = grid[grid != missing_float]
+        qmin = valid.min()
+        qmax = valid.max()
 
     qdiff = qmax - qmin
     idat = round(qdiff)
@@ -82,9 +83,10 @@ def pack_grib(grid, missing_float, nbits=16):
         scale = 2**nnnn
 
         rgrid = grid.ravel()
+        present = rgrid != missing_float
         rgrid_round = np.where(
-            rgrid != missing_float,
-            np.round(np.maximum(rgrid - qmin, 0) * scale).astype('int32'),
+            present,
+            np.round(np.where(present, rgrid - qmin, 0) * scale).astype('int32'),
             imax,
         )
 
-- 
2.43.0


From 130f81a34708db78a698d0d93b2629b04ce965c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:42 +0000
Subject: [PATCH 11/84] fix: never pack the grid maximum as the missing code

The scale was chosen from the unrounded range, so the maximum could round
up to the all-ones code, which is read back as missing.
---
 src/gempakio/encode/gempak.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/gempakio/encode/gempak.py b/src/gempakio/encode/gempak.py
index 81cd5b3..765c920 100644
--- a/src/gempakio/encode/gempak.py
+++ b/src/gempakio/encode/gempak.py
@@ -75,7 +75,7 @@ def pack_grib(grid, missing_float, nbits=16):
             if idat >= imax:
                 while idat >= imax:
                     nnnn -= 1
-                    idat = qdiff * 2**nnnn
+                    idat = round(qdiff * 2**nnnn)
             else:
                 while round(qdiff * 2 ** (nnnn + 1)) < imax:
                     nnnn += 1
-- 
2.43.0


From d672060b9e954b4bad9f22da460594bca41690c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:42 +0000
Subject: [PATCH 12/84] fix: pack and unpack grids that fit in a single word

Packing raised ValueError and reading returned no grid at all.
---
 src/gempakio/decode/gempak.py | 6 +++---
 src/gempakio/encode/gempak.py | 4 +++-
 2 files changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/gempakio/decode/gempak.py b/src/gempakio/decode/gempak.py
index 4667a3e..7ad04cc 100644
--- a/src/gempakio/decode/gempak.py
+++ b/src/gempakio/decode/gempak.py
@@ -808,7 +808,7 @@ class GempakGrid(GempakFile):
         if packing_type == PackingType.none:
             lendat = self.data_header_length - part.header_length - 1
 
-            if lendat > 1:
+            if lendat > 0:
                 buffer_fmt = f'{self.prefmt}{lendat}f'
                 buffer = self._buffer.read_struct(struct.Struct(buffer_fmt))
                 grid = np.zeros(self.ky * self.kx, dtype=np.float32)
@@ -851,7 +851,7 @@ class GempakGrid(GempakFile):
             packed_buffer = self._buffer.read_struct(struct.Struct(packed_buffer_fmt))
             grid = np.zeros((self.ky, self.kx), dtype=np.float32)
 
-            if lendat > 1:
+            if lendat > 0:
                 iword = 0
                 ibit = 1
                 first = True
@@ -919,7 +919,7 @@ class GempakGrid(GempakFile):
             packed_buffer = np.array(
                 self._buffer.read_struct(struct.Struct(packed_buffer_fmt)), dtype=np.int32
             )
-            if lendat > 1:
+            if lendat > 0:
                 missing_value = (
                     self.dm_label.missing_float if self.grid_meta_int.missing_flag else None
                 )
diff --git a/src/gempakio/encode/gempak.py b/src/gempakio/encode/gempak.py
index 765c920..69db664 100644
--- a/src/gempakio/encode/gempak.py
+++ b/src/gempakio/encode/gempak.py
@@ -99,7 +99,9 @@ def pack_grib(grid, missing_float, nbits=16):
         # The maximum number of input words covered by each output word (maybe tack on one for
         # the other part of any split words)
         any_split_words = (32 / nbits) != (32 // nbits)
-        n_input_words = np.diff(word_start_idxs).max() + (1 if any_split_words else 0)
+        n_input_words = np.diff(word_start_idxs, append=kxky).max() + (
+            1 if any_split_words else 0
+        )
 
         # Now construct 2d arrays of shifts and input indexes, where each array is the output
         # length by number of input words per output word
-- 
2.43.0


From 661405a33f3b0fc6920cc2dcd03075f45e2a3ccc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:14 +0000
Subject: [PATCH 13/84] fix: read files with unused header slots

Only the flag of an unused row or column header was skipped, and the index
among used headers was taken for the physical slot, so deleted entries
shifted all data after them.
---
 src/gempakio/decode/gempak.py | 82 ++++++++++++++++++++++++-----------
 1 file changed, 57 insertions(+), 25 deletions(-)

diff --git a/src/gempakio/decode/gempak.py b/src/gempakio/decode/gempak.py
index 7ad04cc..bc4fe7d 100644
--- a/src/gempakio/decode/gempak.py
+++ b/src/gempakio/decode/gempak.py
@@ -629,16 +629,21 @@ class GempakGrid(GempakFile):
         # no real need to keep track of that in Python.
         self._buffer.jump_to(self._start, _word_to_position(self.dm_label.row_headers_ptr))
         self.row_headers = []
+        self._row_slots = []
         row_headers_info = [(key, 'i') for key in self.row_keys]
         row_headers_info.extend([(None, None)])
         row_headers_fmt = NamedStruct(row_headers_info, self.prefmt, 'RowHeaders')
-        for _ in range(1, self.dm_label.rows + 1):
+        for n in range(self.dm_label.rows):
             if self._buffer.read_int(4, self.endian, False) == USED_FLAG:
                 self.row_headers.append(self._buffer.read_struct(row_headers_fmt))
+                self._row_slots.append(n)
+            else:
+                self._buffer.skip(row_headers_fmt.size)
 
         # Column Headers
         self._buffer.jump_to(self._start, _word_to_position(self.dm_label.column_headers_ptr))
         self.column_headers = []
+        self._column_slots = []
         column_headers_info = [
             (key, 'i', self._convert_level)
             if key in level_names
@@ -655,9 +660,12 @@ class GempakGrid(GempakFile):
         ]
         column_headers_info.extend([(None, None)])
         column_headers_fmt = NamedStruct(column_headers_info, self.prefmt, 'ColumnHeaders')
-        for _ in range(1, self.dm_label.columns + 1):
+        for n in range(self.dm_label.columns):
             if self._buffer.read_int(4, self.endian, False) == USED_FLAG:
                 self.column_headers.append(self._buffer.read_struct(column_headers_fmt))
+                self._column_slots.append(n)
+            else:
+                self._buffer.skip(column_headers_fmt.size)
 
         self._gdinfo = set()
         for n, head in enumerate(self.column_headers):
@@ -1094,7 +1102,7 @@ class GempakGrid(GempakFile):
                 pointer = (
                     self.dm_label.data_block_ptr
                     + (irow * self.dm_label.columns * self.dm_label.parts)
-                    + (icol * self.dm_label.parts + iprt)
+                    + (self._column_slots[icol] * self.dm_label.parts + iprt)
                 )
                 self._buffer.jump_to(self._start, _word_to_position(pointer))
                 self.data_ptr = self._buffer.read_int(4, self.endian, False)
@@ -1160,6 +1168,7 @@ class GempakSounding(GempakFile):
         # Row Headers
         self._buffer.jump_to(self._start, _word_to_position(self.dm_label.row_headers_ptr))
         self.row_headers = []
+        self._row_slots = []
         row_headers_info = [
             (key, 'i', self._make_date)
             if key == 'DATE'
@@ -1170,13 +1179,17 @@ class GempakSounding(GempakFile):
         ]
         row_headers_info.extend([(None, None)])
         row_headers_fmt = NamedStruct(row_headers_info, self.prefmt, 'RowHeaders')
-        for _ in range(1, self.dm_label.rows + 1):
+        for n in range(self.dm_label.rows):
             if self._buffer.read_int(4, self.endian, False) == USED_FLAG:
                 self.row_headers.append(self._buffer.read_struct(row_headers_fmt))
+                self._row_slots.append(n)
+            else:
+                self._buffer.skip(row_headers_fmt.size)
 
         # Column Headers
         self._buffer.jump_to(self._start, _word_to_position(self.dm_label.column_headers_ptr))
         self.column_headers = []
+        self._column_slots = []
         column_headers_info = [
             (key, '4s', self._decode_strip)
             if key == 'STID'
@@ -1199,9 +1212,12 @@ class GempakSounding(GempakFile):
         ]
         column_headers_info.extend([(None, None)])
         column_headers_fmt = NamedStruct(column_headers_info, self.prefmt, 'ColumnHeaders')
-        for _ in range(1, self.dm_label.columns + 1):
+        for n in range(self.dm_label.columns):
             if self._buffer.read_int(4, self.endian, False) == USED_FLAG:
                 self.column_headers.append(self._buffer.read_struct(column_headers_fmt))
+                self._column_slots.append(n)
+            else:
+                self._buffer.skip(column_headers_fmt.size)
 
         self.merged = 'SNDT' in (part.name for part in self.parts)
 
@@ -1210,8 +1226,8 @@ class GempakSounding(GempakFile):
             for icol, col_head in enumerate(self.column_headers):
                 pointer = (
                     self.dm_label.data_block_ptr
-                    + (irow * self.dm_label.columns * self.dm_label.parts)
-                    + (icol * self.dm_label.parts)
+                    + (self._row_slots[irow] * self.dm_label.columns * self.dm_label.parts)
+                    + (self._column_slots[icol] * self.dm_label.parts)
                 )
 
                 self._buffer.jump_to(self._start, _word_to_position(pointer))
@@ -1257,8 +1273,8 @@ class GempakSounding(GempakFile):
             for iprt, part in enumerate(self.parts):
                 pointer = (
                     self.dm_label.data_block_ptr
-                    + (irow * self.dm_label.columns * self.dm_label.parts)
-                    + (icol * self.dm_label.parts + iprt)
+                    + (self._row_slots[irow] * self.dm_label.columns * self.dm_label.parts)
+                    + (self._column_slots[icol] * self.dm_label.parts + iprt)
                 )
                 self._buffer.jump_to(self._start, _word_to_position(pointer))
                 self.data_ptr = self._buffer.read_int(4, self.endian, False)
@@ -1318,8 +1334,8 @@ class GempakSounding(GempakFile):
             for iprt, part in enumerate(self.parts):
                 pointer = (
                     self.dm_label.data_block_ptr
-                    + (irow * self.dm_label.columns * self.dm_label.parts)
-                    + (icol * self.dm_label.parts + iprt)
+                    + (self._row_slots[irow] * self.dm_label.columns * self.dm_label.parts)
+                    + (self._column_slots[icol] * self.dm_label.parts + iprt)
                 )
                 self._buffer.jump_to(self._start, _word_to_position(pointer))
                 self.data_ptr = self._buffer.read_int(4, self.endian, False)
@@ -2190,22 +2206,30 @@ class GempakSurface(GempakFile):
         # Row Headers
         self._buffer.jump_to(self._start, _word_to_position(self.dm_label.row_headers_ptr))
         self.row_headers = []
+        self._row_slots = []
         row_headers_info = self._key_types(self.row_keys)
         row_headers_info.extend([(None, None)])
         row_headers_fmt = NamedStruct(row_headers_info, self.prefmt, 'RowHeaders')
-        for _ in range(1, self.dm_label.rows + 1):
+        for n in range(self.dm_label.rows):
             if self._buffer.read_int(4, self.endian, False) == USED_FLAG:
                 self.row_headers.append(self._buffer.read_struct(row_headers_fmt))
+                self._row_slots.append(n)
+            else:
+                self._buffer.skip(row_headers_fmt.size)
 
         # Column Headers
         self._buffer.jump_to(self._start, _word_to_position(self.dm_label.column_headers_ptr))
         self.column_headers = []
+        self._column_slots = []
         column_headers_info = self._key_types(self.column_keys)
         column_headers_info.extend([(None, None)])
         column_headers_fmt = NamedStruct(column_headers_info, self.prefmt, 'ColumnHeaders')
-        for _ in range(1, self.dm_label.columns + 1):
+        for n in range(self.dm_label.columns):
             if self._buffer.read_int(4, self.endian, False) == USED_FLAG:
                 self.column_headers.append(self._buffer.read_struct(column_headers_fmt))
+                self._column_slots.append(n)
+            else:
+                self._buffer.skip(column_headers_fmt.size)
 
         self._get_surface_type()
 
@@ -2216,8 +2240,12 @@ class GempakSurface(GempakFile):
                     for iprt in range(len(self.parts)):
                         pointer = (
                             self.dm_label.data_block_ptr
-                            + (irow * self.dm_label.columns * self.dm_label.parts)
-                            + (icol * self.dm_label.parts + iprt)
+                            + (
+                                self._row_slots[irow]
+                                * self.dm_label.columns
+                                * self.dm_label.parts
+                            )
+                            + (self._column_slots[icol] * self.dm_label.parts + iprt)
                         )
 
                         self._buffer.jump_to(self._start, _word_to_position(pointer))
@@ -2244,8 +2272,8 @@ class GempakSurface(GempakFile):
                 for iprt in range(len(self.parts)):
                     pointer = (
                         self.dm_label.data_block_ptr
-                        + (irow * self.dm_label.columns * self.dm_label.parts)
-                        + (icol * self.dm_label.parts + iprt)
+                        + (self._row_slots[irow] * self.dm_label.columns * self.dm_label.parts)
+                        + (self._column_slots[icol] * self.dm_label.parts + iprt)
                     )
 
                     self._buffer.jump_to(self._start, _word_to_position(pointer))
@@ -2272,8 +2300,12 @@ class GempakSurface(GempakFile):
                     for iprt in range(len(self.parts)):
                         pointer = (
                             self.dm_label.data_block_ptr
-                            + (irow * self.dm_label.columns * self.dm_label.parts)
-                            + (icol * self.dm_label.parts + iprt)
+                            + (
+                                self._row_slots[irow]
+                                * self.dm_label.columns
+                                * self.dm_label.parts
+                            )
+                            + (self._column_slots[icol] * self.dm_label.parts + iprt)
                         )
 
                         self._buffer.jump_to(self._start, _word_to_position(pointer))
@@ -2370,8 +2402,8 @@ class GempakSurface(GempakFile):
             for iprt, part in enumerate(self.parts):
                 pointer = (
                     self.dm_label.data_block_ptr
-                    + (irow * self.dm_label.columns * self.dm_label.parts)
-                    + (icol * self.dm_label.parts + iprt)
+                    + (self._row_slots[irow] * self.dm_label.columns * self.dm_label.parts)
+                    + (self._column_slots[icol] * self.dm_label.parts + iprt)
                 )
                 self._buffer.jump_to(self._start, _word_to_position(pointer))
                 self.data_ptr = self._buffer.read_int(4, self.endian, False)
@@ -2435,8 +2467,8 @@ class GempakSurface(GempakFile):
             for iprt, part in enumerate(self.parts):
                 pointer = (
                     self.dm_label.data_block_ptr
-                    + (irow * self.dm_label.columns * self.dm_label.parts)
-                    + (icol * self.dm_label.parts + iprt)
+                    + (self._row_slots[irow] * self.dm_label.columns * self.dm_label.parts)
+                    + (self._column_slots[icol] * self.dm_label.parts + iprt)
                 )
                 self._buffer.jump_to(self._start, _word_to_position(pointer))
                 self.data_ptr = self._buffer.read_int(4, self.endian, False)
@@ -2502,8 +2534,8 @@ class GempakSurface(GempakFile):
             for iprt, part in enumerate(self.parts):
                 pointer = (
                     self.dm_label.data_block_ptr
-                    + (irow * self.dm_label.columns * self.dm_label.parts)
-                    + (icol * self.dm_label.parts + iprt)
+                    + (self._row_slots[irow] * self.dm_label.columns * self.dm_label.parts)
+                    + (self._column_slots[icol] * self.dm_label.parts + iprt)
                 )
                 self._buffer.jump_to(self._start, _word_to_position(pointer))
                 self.data_ptr = self._buffer.read_int(4, self.endian, False)
-- 
2.43.0


From 822e7dc8a3c58aa40e9a60d73ae5ecbcb5fde9ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:14 +0000
Subject: [PATCH 14/84] fix: skip grid headers without data

A zero data pointer was followed to before the start of the file.
---
 src/gempakio/decode/gempak.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/gempakio/decode/gempak.py b/src/gempakio/decode/gempak.py
index bc4fe7d..8801542 100644
--- a/src/gempakio/decode/gempak.py
+++ b/src/gempakio/decode/gempak.py
@@ -1106,6 +1106,8 @@ class GempakGrid(GempakFile):
                 )
                 self._buffer.jump_to(self._start, _word_to_position(pointer))
                 self.data_ptr = self._buffer.read_int(4, self.endian, False)
+                if not self.data_ptr:
+                    continue
                 self._buffer.jump_to(self._start, _word_to_position(self.data_ptr))
                 self.data_header_length = self._buffer.read_int(4, self.endian, False)
                 data_header = self._buffer.set_mark()
-- 
2.43.0


From 7e9db69b358c5eba311cae4984141d35ddb56e32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:47 +0000
Subject: [PATCH 15/84] fix: do not modify date_time lists passed to queries

Strings were replaced in the caller's list, and tuples of strings raised
TypeError.
---
 src/gempakio/decode/gempak.py | 36 +++++++++++++++++++----------------
 1 file changed, 20 insertions(+), 16 deletions(-)

diff --git a/src/gempakio/decode/gempak.py b/src/gempakio/decode/gempak.py
index 8801542..42b4ab2 100644
--- a/src/gempakio/decode/gempak.py
+++ b/src/gempakio/decode/gempak.py
@@ -1027,10 +1027,11 @@ class GempakGrid(GempakFile):
                 and date_time not in ['first', 'FIRST', 'last', 'LAST']
             ):
                 date_time = [date_time]
-            if date_time not in ['first', 'FIRST', 'last', 'LAST']:
-                for i, dt in enumerate(date_time):
-                    if isinstance(dt, str):
-                        date_time[i] = datetime.strptime(dt, '%Y%m%d%H%M')
+            if not isinstance(date_time, str):
+                date_time = [
+                    datetime.strptime(dt, '%Y%m%d%H%M') if isinstance(dt, str) else dt
+                    for dt in date_time
+                ]
 
         if coordinate is not None:
             if not isinstance(coordinate, Iterable) or isinstance(coordinate, str):
@@ -1046,10 +1047,11 @@ class GempakGrid(GempakFile):
                 and date_time2 not in ['first', 'FIRST', 'last', 'LAST']
             ):
                 date_time2 = [date_time2]
-            if date_time2 not in ['first', 'FIRST', 'last', 'LAST']:
-                for i, dt in enumerate(date_time2):
-                    if isinstance(dt, str):
-                        date_time2[i] = datetime.strptime(dt, '%Y%m%d%H%M')
+            if not isinstance(date_time2, str):
+                date_time2 = [
+                    datetime.strptime(dt, '%Y%m%d%H%M') if isinstance(dt, str) else dt
+                    for dt in date_time2
+                ]
 
         if level2 is not None and not isinstance(level2, Iterable):
             level2 = [level2]
@@ -2084,10 +2086,11 @@ class GempakSounding(GempakFile):
                 and date_time not in ['first', 'FIRST', 'last', 'LAST']
             ):
                 date_time = [date_time]
-            if date_time not in ['first', 'FIRST', 'last', 'LAST']:
-                for i, dt in enumerate(date_time):
-                    if isinstance(dt, str):
-                        date_time[i] = datetime.strptime(dt, '%Y%m%d%H%M')
+            if not isinstance(date_time, str):
+                date_time = [
+                    datetime.strptime(dt, '%Y%m%d%H%M') if isinstance(dt, str) else dt
+                    for dt in date_time
+                ]
 
         if state is not None and (not isinstance(state, Iterable) or isinstance(state, str)):
             state = [state]
@@ -2845,10 +2848,11 @@ class GempakSurface(GempakFile):
                 and date_time not in ['first', 'FIRST', 'last', 'LAST']
             ):
                 date_time = [date_time]
-            if date_time not in ['first', 'FIRST', 'last', 'LAST']:
-                for i, dt in enumerate(date_time):
-                    if isinstance(dt, str):
-                        date_time[i] = datetime.strptime(dt, '%Y%m%d%H%M')
+            if not isinstance(date_time, str):
+                date_time = [
+                    datetime.strptime(dt, '%Y%m%d%H%M') if isinstance(dt, str) else dt
+                    for dt in date_time
+                ]
 
         if state is not None:
             if not isinstance(state, Iterable) or isinstance(state, str):
-- 
2.43.0


From e8c9f2f5e5661cfcbbf9f7d6b93604877058d4d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:47 +0000
Subject: [PATCH 16/84] fix: ignore grids without a secondary time for
 first/last date_time2

Comparing None with datetime raised TypeError.
---
 src/gempakio/decode/gempak.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/gempakio/decode/gempak.py b/src/gempakio/decode/gempak.py
index 42b4ab2..944ec65 100644
--- a/src/gempakio/decode/gempak.py
+++ b/src/gempakio/decode/gempak.py
@@ -1066,10 +1066,11 @@ class GempakGrid(GempakFile):
         elif date_time in ['first', 'FIRST']:
             date_time = [min(d.DATTIM1 for d in matched)]
 
+        times2 = [d.DATTIM2 for d in matched if d.DATTIM2 is not None]
         if date_time2 in ['last', 'LAST']:
-            date_time2 = [max(d.DATTIM2 for d in matched)]
+            date_time2 = [max(times2)] if times2 else []
         elif date_time2 in ['first', 'FIRST']:
-            date_time2 = [min(d.DATTIM2 for d in matched)]
+            date_time2 = [min(times2)] if times2 else []
 
         if parameter is not None:
             matched = filter(lambda grid: grid.PARM in parameter, matched)
-- 
2.43.0


From d115d3d51b23ae2d5afcbaa7c155a1d0e89ab836 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:47 +0000
Subject: [PATCH 17/84] fix: ignore case of state and country lists in snxarray

Only scalar arguments were upper-cased.
---
 src/gempakio/decode/gempak.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/gempakio/decode/gempak.py b/src/gempakio/decode/gempak.py
index 944ec65..e22749a 100644
--- a/src/gempakio/decode/gempak.py
+++ b/src/gempakio/decode/gempak.py
@@ -2093,14 +2093,14 @@ class GempakSounding(GempakFile):
                     for dt in date_time
                 ]
 
-        if state is not None and (not isinstance(state, Iterable) or isinstance(state, str)):
-            state = [state]
+        if state is not None:
+            if not isinstance(state, Iterable) or isinstance(state, str):
+                state = [state]
             state = [s.upper() for s in state]
 
-        if country is not None and (
-            not isinstance(country, Iterable) or isinstance(country, str)
-        ):
-            country = [country]
+        if country is not None:
+            if not isinstance(country, Iterable) or isinstance(country, str):
+                country = [country]
             country = [c.upper() for c in country]
 
         # Figure out which columns to extract from the file
-- 
2.43.0


From 8093e0ae67209693b0528f109c029425475120be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:47 +0000
Subject: [PATCH 18/84] fix: read the second half of sounding station ids

Ids of up to 8 characters are written in STID and STD2, but only STID was
read back, so such stations could not be selected and ids were cut.
---
 src/gempakio/decode/gempak.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/gempakio/decode/gempak.py b/src/gempakio/decode/gempak.py
index e22749a..5601b05 100644
--- a/src/gempakio/decode/gempak.py
+++ b/src/gempakio/decode/gempak.py
@@ -1244,7 +1244,7 @@ class GempakSounding(GempakFile):
                             irow,
                             icol,
                             datetime.combine(row_head.DATE, row_head.TIME),
-                            col_head.STID,
+                            col_head.STID + getattr(col_head, 'STD2', ''),
                             col_head.STNM,
                             col_head.SLAT,
                             col_head.SLON,
@@ -1265,7 +1265,7 @@ class GempakSounding(GempakFile):
             row_head = self.row_headers[irow]
             col_head = self.column_headers[icol]
             sounding = {
-                'STID': col_head.STID,
+                'STID': col_head.STID + getattr(col_head, 'STD2', ''),
                 'STNM': col_head.STNM,
                 'SLAT': col_head.SLAT,
                 'SLON': col_head.SLON,
@@ -1326,7 +1326,7 @@ class GempakSounding(GempakFile):
             row_head = self.row_headers[irow]
             col_head = self.column_headers[icol]
             sounding = {
-                'STID': col_head.STID,
+                'STID': col_head.STID + getattr(col_head, 'STD2', ''),
                 'STNM': col_head.STNM,
                 'SLAT': col_head.SLAT,
                 'SLON': col_head.SLON,
-- 
2.43.0


From 4caccbdd41fa8e49a5d133151821c134df985614 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:25 +0000
Subject: [PATCH 19/84] fix: use the right month for special reports binned
 across a month end

A 312350Z report in the 0000Z bin of the 1st was dated at the end of the
following month.
---
 src/gempakio/decode/gempak.py | 35 +++++++++++++++++++++++------------
 1 file changed, 23 insertions(+), 12 deletions(-)

diff --git a/src/gempakio/decode/gempak.py b/src/gempakio/decode/gempak.py
index 5601b05..79ca980 100644
--- a/src/gempakio/decode/gempak.py
+++ b/src/gempakio/decode/gempak.py
@@ -2641,18 +2641,29 @@ class GempakSurface(GempakFile):
 
                     new_report = deepcopy(report)
                     if param == 'SPCL':  # Do not update standard METAR time
-                        try:
-                            dt = datetime(
-                                year,
-                                month,
-                                int(time_group['day']),
-                                int(time_group['hour']),
-                                int(time_group['minute']),
-                            )
-                        except ValueError:
-                            # Some text reports contain bad date/time. In these cases
-                            # replace with the GEMPAK date and time.
-                            dt = datetime(year, month, gem_day, gem_hour, gem_minute)
+                        gem_time = datetime(year, month, gem_day, gem_hour, gem_minute)
+                        candidates = []
+                        # Reports binned across a month boundary belong to the previous
+                        # or next month, so use the month closest to the GEMPAK time.
+                        for offset in (0, -1, 1):
+                            nmonth = 12 * year + month - 1 + offset
+                            try:
+                                candidates.append(
+                                    datetime(
+                                        nmonth // 12,
+                                        nmonth % 12 + 1,
+                                        int(time_group['day']),
+                                        int(time_group['hour']),
+                                        int(time_group['minute']),
+                                    )
+                                )
+                            except ValueError:
+                                # Some text reports contain bad date/time.
+                                continue
+                        # In these cases replace with the GEMPAK date and time.
+                        dt = min(
+                            candidates, key=lambda t: abs(t - gem_time), default=gem_time
+                        )
                         new_report['DATE'] = dt.date()
                         new_report['TIME'] = dt.time()
 
-- 
2.43.0


From 481bd280911dcd6307066d883050d02a2643ae4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:25 +0000
Subject: [PATCH 20/84] fix: nearest_time for station number 0 and stations
 without METARs

Station number 0 counted as no filter, and a station with only special
observations raised ValueError when these were not requested.
---
 src/gempakio/decode/gempak.py | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/src/gempakio/decode/gempak.py b/src/gempakio/decode/gempak.py
index 79ca980..3363628 100644
--- a/src/gempakio/decode/gempak.py
+++ b/src/gempakio/decode/gempak.py
@@ -2731,7 +2731,9 @@ class GempakSurface(GempakFile):
         if isinstance(date_time, str):
             date_time = datetime.strptime(date_time, '%Y%m%d%H%M')
 
-        nargs = sum(map(bool, [station_id, station_number, state, country, bbox]))
+        nargs = sum(
+            arg is not None for arg in [station_id, station_number, state, country, bbox]
+        )
 
         if nargs == 0:
             raise ValueError('Must have one filter.')
@@ -2779,6 +2781,10 @@ class GempakSurface(GempakFile):
             for stn in station_id:
                 matched = self.sfjson(station_id=stn, include_special=include_special)
 
+                # There may only be special observations
+                if not matched:
+                    continue
+
                 nearest = min(
                     matched, key=lambda d: abs(d['properties']['date_time'] - date_time)
                 )
@@ -2789,6 +2795,10 @@ class GempakSurface(GempakFile):
             for stn in station_number:
                 matched = self.sfjson(station_number=stn, include_special=include_special)
 
+                # There may only be special observations
+                if not matched:
+                    continue
+
                 nearest = min(
                     matched, key=lambda d: abs(d['properties']['date_time'] - date_time)
                 )
-- 
2.43.0


From 9898e8e195b1088b891b6ad6b69e7f240a96cde7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:56 +0000
Subject: [PATCH 21/84] fix: pad files without data to a whole block

A grid, sounding or surface file written before anything was added ended in
the middle of a block, before the next free word named in its data management
record.
---
 src/gempakio/encode/gempak.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/gempakio/encode/gempak.py b/src/gempakio/encode/gempak.py
index 69db664..41b0334 100644
--- a/src/gempakio/encode/gempak.py
+++ b/src/gempakio/encode/gempak.py
@@ -5,7 +5,7 @@
 
 from collections import namedtuple
 from datetime import datetime, timedelta
-from io import BytesIO
+from io import BytesIO, SEEK_END
 import re
 import struct
 
@@ -526,6 +526,10 @@ class DataManagementFile:
             stream.jump_to(self._data_mgmt_ptr)
             self._write_data_management(stream)
 
+            # Files without any data must also end on a whole block
+            length = stream.seek(0, SEEK_END)
+            stream.write(bytes(-length % _word_to_position(MBLKSZ + 1)))
+
             with open(file, 'wb') as out:
                 out.write(stream.getbuffer())
 
-- 
2.43.0


From 78a9bbc34222f352a946050d78306169e4d2783d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:17 +0000
Subject: [PATCH 22/84] fix: keep decoded values of surface reports with blank
 text

---
 src/gempakio/decode/gempak.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/gempakio/decode/gempak.py b/src/gempakio/decode/gempak.py
index 3363628..fb1e03b 100644
--- a/src/gempakio/decode/gempak.py
+++ b/src/gempakio/decode/gempak.py
@@ -2679,6 +2679,11 @@ class GempakSurface(GempakFile):
 
                     processed.append(new_report)
 
+        # Blank text should not discard the decoded values
+        if not processed and values:
+            report.update(**values)
+            processed.append(report)
+
         return processed
 
     def nearest_time(
-- 
2.43.0


From e1def6bb04be21db77bca65f5369224a7ebe8471 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:59 +0000
Subject: [PATCH 23/84] fix: merge soundings with fewer than two tropopause or
 significant levels

With the surface level missing, parts that are absent or have a single
level raised KeyError or IndexError.
---
 src/gempakio/decode/gempak.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/gempakio/decode/gempak.py b/src/gempakio/decode/gempak.py
index fb1e03b..f2811c2 100644
--- a/src/gempakio/decode/gempak.py
+++ b/src/gempakio/decode/gempak.py
@@ -1616,7 +1616,7 @@ class GempakSounding(GempakFile):
                 pbot = merged['PRES'][0]
             elif len(merged['PRES']) > 1:
                 pbot = merged['PRES'][1]
-                if pbot < parts['TRPA']['PRES'][1]:
+                if num_trop_levels > 1 and pbot < parts['TRPA']['PRES'][1]:
                     pbot = 1050
             else:
                 pbot = 1050
@@ -1687,7 +1687,7 @@ class GempakSounding(GempakFile):
                 pbot = merged['PRES'][0]
             elif len(merged['PRES']) > 1:
                 pbot = merged['PRES'][1]
-                if pbot < parts['TTBB']['PRES'][1]:
+                if num_sigt_levels > 1 and pbot < parts['TTBB']['PRES'][1]:
                     pbot = 1050
             else:
                 pbot = 1050
-- 
2.43.0


From fe744a89a4f14de76e5367793e39d0753814660f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:59 +0000
Subject: [PATCH 24/84] fix: keep the surface level first when it is missing

A level below all others was inserted before a missing surface level,
because the search included the missing surface pressure.
---
 src/gempakio/decode/gempak.py | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/src/gempakio/decode/gempak.py b/src/gempakio/decode/gempak.py
index f2811c2..55ee9e6 100644
--- a/src/gempakio/decode/gempak.py
+++ b/src/gempakio/decode/gempak.py
@@ -1642,7 +1642,7 @@ class GempakSounding(GempakFile):
                         merged['HGHT'][ploc] = self.dm_label.missing_float
                     else:
                         size = len(merged['PRES'])
-                        loc = size - bisect.bisect_left(merged['PRES'][::-1], pres)
+                        loc = size - bisect.bisect_left(merged['PRES'][:0:-1], pres)
                         merged['PRES'].insert(loc, pres)
                         merged['TEMP'].insert(loc, parts['TRPA']['TEMP'][itrp])
                         merged['DWPT'].insert(loc, parts['TRPA']['DWPT'][itrp])
@@ -1672,7 +1672,7 @@ class GempakSounding(GempakFile):
                         merged['HGHT'][ploc] = self.dm_label.missing_float
                     else:
                         size = len(merged['PRES'])
-                        loc = size - bisect.bisect_left(merged['PRES'][::-1], pres)
+                        loc = size - bisect.bisect_left(merged['PRES'][:0:-1], pres)
                         merged['PRES'].insert(loc, pres)
                         merged['TEMP'].insert(loc, parts['TRPC']['TEMP'][itrp])
                         merged['DWPT'].insert(loc, parts['TRPC']['DWPT'][itrp])
@@ -1709,7 +1709,7 @@ class GempakSounding(GempakFile):
                             merged['DWPT'][ploc] = parts['TTBB']['DWPT'][isigt]
                     else:
                         size = len(merged['PRES'])
-                        loc = size - bisect.bisect_left(merged['PRES'][::-1], pres)
+                        loc = size - bisect.bisect_left(merged['PRES'][:0:-1], pres)
                         merged['PRES'].insert(loc, pres)
                         merged['TEMP'].insert(loc, parts['TTBB']['TEMP'][isigt])
                         merged['DWPT'].insert(loc, parts['TTBB']['DWPT'][isigt])
@@ -1735,7 +1735,7 @@ class GempakSounding(GempakFile):
                             merged['DWPT'][ploc] = parts['TTDD']['DWPT'][isigt]
                     else:
                         size = len(merged['PRES'])
-                        loc = size - bisect.bisect_left(merged['PRES'][::-1], pres)
+                        loc = size - bisect.bisect_left(merged['PRES'][:0:-1], pres)
                         merged['PRES'].insert(loc, pres)
                         merged['TEMP'].insert(loc, parts['TTDD']['TEMP'][isigt])
                         merged['DWPT'].insert(loc, parts['TTDD']['DWPT'][isigt])
@@ -1778,7 +1778,7 @@ class GempakSounding(GempakFile):
                                 merged['SPED'][ploc] = parts['PPBB']['SPED'][isigw]
                         else:
                             size = len(merged['PRES'])
-                            loc = size - bisect.bisect_left(merged['PRES'][::-1], pres)
+                            loc = size - bisect.bisect_left(merged['PRES'][:0:-1], pres)
                             merged['PRES'].insert(loc, pres)
                             merged['DRCT'].insert(loc, parts['PPBB']['DRCT'][isigw])
                             merged['SPED'].insert(loc, parts['PPBB']['SPED'][isigw])
@@ -1808,7 +1808,7 @@ class GempakSounding(GempakFile):
                                 merged['SPED'][ploc] = parts['PPDD']['SPED'][isigw]
                         else:
                             size = len(merged['PRES'])
-                            loc = size - bisect.bisect_left(merged['PRES'][::-1], pres)
+                            loc = size - bisect.bisect_left(merged['PRES'][:0:-1], pres)
                             merged['PRES'].insert(loc, pres)
                             merged['DRCT'].insert(loc, parts['PPDD']['DRCT'][isigw])
                             merged['SPED'].insert(loc, parts['PPDD']['SPED'][isigw])
@@ -1847,7 +1847,7 @@ class GempakSounding(GempakFile):
                             merged['SPED'][ploc] = parts['MXWA']['SPED'][imxw]
                     else:
                         size = len(merged['PRES'])
-                        loc = size - bisect.bisect_left(merged['PRES'][::-1], pres)
+                        loc = size - bisect.bisect_left(merged['PRES'][:0:-1], pres)
                         merged['PRES'].insert(loc, pres)
                         merged['DRCT'].insert(loc, parts['MXWA']['DRCT'][imxw])
                         merged['SPED'].insert(loc, parts['MXWA']['SPED'][imxw])
@@ -1877,7 +1877,7 @@ class GempakSounding(GempakFile):
                             merged['SPED'][ploc] = parts['MXWC']['SPED'][imxw]
                     else:
                         size = len(merged['PRES'])
-                        loc = size - bisect.bisect_left(merged['PRES'][::-1], pres)
+                        loc = size - bisect.bisect_left(merged['PRES'][:0:-1], pres)
                         merged['PRES'].insert(loc, pres)
                         merged['DRCT'].insert(loc, parts['MXWC']['DRCT'][imxw])
                         merged['SPED'].insert(loc, parts['MXWC']['SPED'][imxw])
-- 
2.43.0


From c0181768eebdc92b676ae42764ae97526c93386b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:59 +0000
Subject: [PATCH 25/84] fix: do not interpolate next to levels without pressure

Merging a sounding with a missing surface raised ValueError when the
next level had missing data.
---
 src/gempakio/gemcalc.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/gempakio/gemcalc.py b/src/gempakio/gemcalc.py
index 4ed9cc6..5061e24 100644
--- a/src/gempakio/gemcalc.py
+++ b/src/gempakio/gemcalc.py
@@ -171,7 +171,12 @@ def interp_missing_data(sounding, missing=-9999):
                 ):
                     iabove = 0
 
-                if iabove != 0:
+                # Levels without pressure cannot be interpolated
+                if iabove != 0 and missing not in [
+                    sounding['PRES'][i - 1],
+                    sounding['PRES'][i],
+                    sounding['PRES'][iabove],
+                ]:
                     adata = {}
                     bdata = {}
                     for param, val in sounding.items():
-- 
2.43.0


From b68d7946ce260a97990d8e9e287e42472bbeabcf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:59 +0000
Subject: [PATCH 26/84] fix: merge PPDD winds on height surfaces when PPBB has
 none

PPDD data was ignored when PPBB was absent, reported on pressure surfaces
or only had a surface wind.
---
 src/gempakio/decode/gempak.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/gempakio/decode/gempak.py b/src/gempakio/decode/gempak.py
index 55ee9e6..dc4ca1e 100644
--- a/src/gempakio/decode/gempak.py
+++ b/src/gempakio/decode/gempak.py
@@ -1925,7 +1925,7 @@ class GempakSounding(GempakFile):
             if zold == self.dm_label.missing_float or znxt == self.dm_label.missing_float:
                 more = False
 
-            if istart <= nsgw:
+            if istart < nsgw:
                 above = False
                 i = istart
                 iend = nsgw
-- 
2.43.0


From a205ae8404610e1f61ab4809eb599ebd38d06c05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:59 +0000
Subject: [PATCH 27/84] fix: check the level being updated for existing winds

A significant wind at the height of an existing level replaced or was
dropped depending on the wind of the level below.
---
 src/gempakio/decode/gempak.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/gempakio/decode/gempak.py b/src/gempakio/decode/gempak.py
index dc4ca1e..8181fef 100644
--- a/src/gempakio/decode/gempak.py
+++ b/src/gempakio/decode/gempak.py
@@ -1973,8 +1973,8 @@ class GempakSounding(GempakFile):
                 if more and not skip:
                     if abs(znxt - hght) < 1:
                         if (
-                            merged['DRCT'][ilev - 1] == self.dm_label.missing_float
-                            or merged['SPED'][ilev - 1] == self.dm_label.missing_float
+                            merged['DRCT'][ilev] == self.dm_label.missing_float
+                            or merged['SPED'][ilev] == self.dm_label.missing_float
                         ):
                             merged['DRCT'][ilev] = drct
                             merged['SPED'][ilev] = sped
-- 
2.43.0


From f0acc5690f47e298acbf54f3a9701aa259e23d72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:59 +0000
Subject: [PATCH 28/84] fix: insert winds on height surfaces below levels
 without height

Levels with missing heights at the top of the profile broke the search
for the position of the new level.
---
 src/gempakio/decode/gempak.py | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/src/gempakio/decode/gempak.py b/src/gempakio/decode/gempak.py
index 8181fef..5809b4a 100644
--- a/src/gempakio/decode/gempak.py
+++ b/src/gempakio/decode/gempak.py
@@ -1979,13 +1979,13 @@ class GempakSounding(GempakFile):
                             merged['DRCT'][ilev] = drct
                             merged['SPED'][ilev] = sped
                     else:
-                        loc = bisect.bisect_left(merged['HGHT'], hght)
-                        merged['HGHT'].insert(loc, hght)
-                        merged['DRCT'].insert(loc, drct)
-                        merged['SPED'].insert(loc, sped)
-                        merged['PRES'].insert(loc, self.dm_label.missing_float)
-                        merged['TEMP'].insert(loc, self.dm_label.missing_float)
-                        merged['DWPT'].insert(loc, self.dm_label.missing_float)
+                        # Heights can be missing elsewhere, so do not search for this
+                        merged['HGHT'].insert(ilev, hght)
+                        merged['DRCT'].insert(ilev, drct)
+                        merged['SPED'].insert(ilev, sped)
+                        merged['PRES'].insert(ilev, self.dm_label.missing_float)
+                        merged['TEMP'].insert(ilev, self.dm_label.missing_float)
+                        merged['DWPT'].insert(ilev, self.dm_label.missing_float)
                         size += 1
                         ilev += 1
                         zold = hght
-- 
2.43.0


From b0df9664b931ffff0d4f53b78c406a7c480f4a61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:59 +0000
Subject: [PATCH 29/84] fix: use the current size when adding below ground
 levels

The size was stale or undefined when all significant winds were on
pressure surfaces.
---
 src/gempakio/decode/gempak.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/gempakio/decode/gempak.py b/src/gempakio/decode/gempak.py
index 5809b4a..80124db 100644
--- a/src/gempakio/decode/gempak.py
+++ b/src/gempakio/decode/gempak.py
@@ -2008,14 +2008,14 @@ class GempakSounding(GempakFile):
             for ibgl in range(1, num_man_levels):
                 pres = parts['TTAA']['PRES'][ibgl]
                 if pres > merged['PRES'][0]:
-                    loc = size - bisect.bisect_left(merged['PRES'][1:][::-1], pres)
+                    size = len(merged['PRES'])
+                    loc = size - bisect.bisect_left(merged['PRES'][:0:-1], pres)
                     merged['PRES'].insert(loc, pres)
                     merged['TEMP'].insert(loc, parts['TTAA']['TEMP'][ibgl])
                     merged['DWPT'].insert(loc, parts['TTAA']['DWPT'][ibgl])
                     merged['DRCT'].insert(loc, parts['TTAA']['DRCT'][ibgl])
                     merged['SPED'].insert(loc, parts['TTAA']['SPED'][ibgl])
                     merged['HGHT'].insert(loc, parts['TTAA']['HGHT'][ibgl])
-                    size += 1
 
         # Add text data, if it is included
         if 'TXTA' in parts:
-- 
2.43.0


From b853215ed08dd0ca011f4a459db312667f953742 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:23 +0000
Subject: [PATCH 30/84] fix: list soundings whose first part is absent

Unmerged soundings without TTAA data, but with other parts, could not be
accessed.
---
 src/gempakio/decode/gempak.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/gempakio/decode/gempak.py b/src/gempakio/decode/gempak.py
index 80124db..81e399d 100644
--- a/src/gempakio/decode/gempak.py
+++ b/src/gempakio/decode/gempak.py
@@ -1236,9 +1236,12 @@ class GempakSounding(GempakFile):
                 )
 
                 self._buffer.jump_to(self._start, _word_to_position(pointer))
-                data_ptr = self._buffer.read_int(4, self.endian, False)
+                data_ptrs = [
+                    self._buffer.read_int(4, self.endian, False) for _ in self.parts
+                ]
 
-                if data_ptr:
+                # Unmerged soundings do not necessarily have every part
+                if any(data_ptrs):
                     self._sninfo.add(
                         Sounding(
                             irow,
-- 
2.43.0


From 92cffc302c14adc2a42bfffbc249fcb2f0240387 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:16:59 +0000
Subject: [PATCH 31/84] fix: skip levels without pressure when merging
 soundings

The absolute value of the missing value was taken for a pressure, so that
levels below the surface following such a level were added.
---
 src/gempakio/decode/gempak.py | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/src/gempakio/decode/gempak.py b/src/gempakio/decode/gempak.py
index 81e399d..3f7c273 100644
--- a/src/gempakio/decode/gempak.py
+++ b/src/gempakio/decode/gempak.py
@@ -1626,6 +1626,8 @@ class GempakSounding(GempakFile):
 
         if num_trop_levels >= 1:
             for itrp, pres in enumerate(parts['TRPA']['PRES']):
+                if pres == self.dm_label.missing_float:
+                    continue
                 pres = abs(pres)
                 if (
                     pres != self.dm_label.missing_float
@@ -1656,6 +1658,8 @@ class GempakSounding(GempakFile):
 
         if num_above_trop_levels >= 1:
             for itrp, pres in enumerate(parts['TRPC']['PRES']):
+                if pres == self.dm_label.missing_float:
+                    continue
                 pres = abs(pres)
                 if (
                     pres != self.dm_label.missing_float
@@ -1697,6 +1701,8 @@ class GempakSounding(GempakFile):
 
         if num_sigt_levels >= 1:
             for isigt, pres in enumerate(parts['TTBB']['PRES']):
+                if pres == self.dm_label.missing_float:
+                    continue
                 pres = abs(pres)
                 if (
                     pres != self.dm_label.missing_float
@@ -1723,6 +1729,8 @@ class GempakSounding(GempakFile):
 
         if num_above_sigt_levels >= 1:
             for isigt, pres in enumerate(parts['TTDD']['PRES']):
+                if pres == self.dm_label.missing_float:
+                    continue
                 pres = abs(pres)
                 if (
                     pres != self.dm_label.missing_float
@@ -1762,6 +1770,8 @@ class GempakSounding(GempakFile):
 
             if num_sigw_levels >= 1 and not ppbb_is_z:
                 for isigw, pres in enumerate(parts['PPBB']['PRES']):
+                    if pres == self.dm_label.missing_float:
+                        continue
                     pres = abs(pres)
                     if (
                         pres != self.dm_label.missing_float
@@ -1792,6 +1802,8 @@ class GempakSounding(GempakFile):
 
             if num_above_sigw_levels >= 1 and not ppdd_is_z:
                 for isigw, pres in enumerate(parts['PPDD']['PRES']):
+                    if pres == self.dm_label.missing_float:
+                        continue
                     pres = abs(pres)
                     if (
                         pres != self.dm_label.missing_float
@@ -1831,6 +1843,8 @@ class GempakSounding(GempakFile):
 
         if num_max_wind_levels >= 1:
             for imxw, pres in enumerate(parts['MXWA']['PRES']):
+                if pres == self.dm_label.missing_float:
+                    continue
                 pres = abs(pres)
                 if (
                     pres != self.dm_label.missing_float
@@ -1861,6 +1875,8 @@ class GempakSounding(GempakFile):
 
         if num_above_max_wind_levels >= 1:
             for imxw, pres in enumerate(parts['MXWC']['PRES']):
+                if pres == self.dm_label.missing_float:
+                    continue
                 pres = abs(pres)
                 if (
                     pres != self.dm_label.missing_float
-- 
2.43.0


From 30366cf902a5afd9d7cd1b68c11608088facb5dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:21:12 +0000
Subject: [PATCH 32/84] fix: keep the pressure of the level interpolated to

interp_parameters interpolated the pressure like any other parameter, which
replaced the requested level.
---
 src/gempakio/gemcalc.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/gempakio/gemcalc.py b/src/gempakio/gemcalc.py
index 5061e24..90250f6 100644
--- a/src/gempakio/gemcalc.py
+++ b/src/gempakio/gemcalc.py
@@ -327,7 +327,9 @@ def interp_parameters(vlev, adata, bdata, missing=-9999):
     outdata['PRES'] = vlev
     for param, aval in adata.items():
         bval = bdata[param]
-        if param == 'DRCT':
+        if param == 'PRES':
+            continue
+        elif param == 'DRCT':
             ang1 = aval % 360
             ang2 = bval % 360
             if abs(ang1 - ang2) > 180:
-- 
2.43.0


From 2a75e320abc733a95d506c8dc3f15947e847e517 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:51:11 +0000
Subject: [PATCH 33/84] fix: do not let incomplete levels admit levels below
 the surface

---
 src/gempakio/decode/gempak.py | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/src/gempakio/decode/gempak.py b/src/gempakio/decode/gempak.py
index 3f7c273..587af88 100644
--- a/src/gempakio/decode/gempak.py
+++ b/src/gempakio/decode/gempak.py
@@ -1654,7 +1654,7 @@ class GempakSounding(GempakFile):
                         merged['DRCT'].insert(loc, parts['TRPA']['DRCT'][itrp])
                         merged['SPED'].insert(loc, parts['TRPA']['SPED'][itrp])
                         merged['HGHT'].insert(loc, self.dm_label.missing_float)
-                pbot = pres
+                pbot = min(pbot, pres)
 
         if num_above_trop_levels >= 1:
             for itrp, pres in enumerate(parts['TRPC']['PRES']):
@@ -1686,7 +1686,7 @@ class GempakSounding(GempakFile):
                         merged['DRCT'].insert(loc, parts['TRPC']['DRCT'][itrp])
                         merged['SPED'].insert(loc, parts['TRPC']['SPED'][itrp])
                         merged['HGHT'].insert(loc, self.dm_label.missing_float)
-                pbot = pres
+                pbot = min(pbot, pres)
 
         # Merge SIG temperature
         if num_sigt_levels >= 1 or num_above_sigt_levels >= 1:
@@ -1725,7 +1725,7 @@ class GempakSounding(GempakFile):
                         merged['DRCT'].insert(loc, self.dm_label.missing_float)
                         merged['SPED'].insert(loc, self.dm_label.missing_float)
                         merged['HGHT'].insert(loc, self.dm_label.missing_float)
-                pbot = pres
+                pbot = min(pbot, pres)
 
         if num_above_sigt_levels >= 1:
             for isigt, pres in enumerate(parts['TTDD']['PRES']):
@@ -1753,7 +1753,7 @@ class GempakSounding(GempakFile):
                         merged['DRCT'].insert(loc, self.dm_label.missing_float)
                         merged['SPED'].insert(loc, self.dm_label.missing_float)
                         merged['HGHT'].insert(loc, self.dm_label.missing_float)
-                pbot = pres
+                pbot = min(pbot, pres)
 
         # Interpolate heights
         interp_moist_height(merged, self.dm_label.missing_float)
@@ -1798,7 +1798,7 @@ class GempakSounding(GempakFile):
                             merged['TEMP'].insert(loc, self.dm_label.missing_float)
                             merged['DWPT'].insert(loc, self.dm_label.missing_float)
                             merged['HGHT'].insert(loc, self.dm_label.missing_float)
-                    pbot = pres
+                    pbot = min(pbot, pres)
 
             if num_above_sigw_levels >= 1 and not ppdd_is_z:
                 for isigw, pres in enumerate(parts['PPDD']['PRES']):
@@ -1830,7 +1830,7 @@ class GempakSounding(GempakFile):
                             merged['TEMP'].insert(loc, self.dm_label.missing_float)
                             merged['DWPT'].insert(loc, self.dm_label.missing_float)
                             merged['HGHT'].insert(loc, self.dm_label.missing_float)
-                    pbot = pres
+                    pbot = min(pbot, pres)
 
         # Merge max winds on pressure surfaces
         if num_max_wind_levels >= 1 or num_above_max_wind_levels >= 1:
@@ -1871,7 +1871,7 @@ class GempakSounding(GempakFile):
                         merged['TEMP'].insert(loc, self.dm_label.missing_float)
                         merged['DWPT'].insert(loc, self.dm_label.missing_float)
                         merged['HGHT'].insert(loc, self.dm_label.missing_float)
-                pbot = pres
+                pbot = min(pbot, pres)
 
         if num_above_max_wind_levels >= 1:
             for imxw, pres in enumerate(parts['MXWC']['PRES']):
@@ -1903,7 +1903,7 @@ class GempakSounding(GempakFile):
                         merged['TEMP'].insert(loc, self.dm_label.missing_float)
                         merged['DWPT'].insert(loc, self.dm_label.missing_float)
                         merged['HGHT'].insert(loc, self.dm_label.missing_float)
-                pbot = pres
+                pbot = min(pbot, pres)
 
         # Interpolate height for SIG/MAX winds
         interp_logp_height(merged, self.dm_label.missing_float)
-- 
2.43.0


From 6bb11272b0def44a9ec253175d7df924adb0515c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:48 +0000
Subject: [PATCH 34/84] fix: keep the last character of VGF text that fills its
 field

---
 src/gempakio/decode/vgf.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/gempakio/decode/vgf.py b/src/gempakio/decode/vgf.py
index 9c1898a..21dbb04 100644
--- a/src/gempakio/decode/vgf.py
+++ b/src/gempakio/decode/vgf.py
@@ -5304,8 +5304,7 @@ class VectorGraphicFile:
         stripped.
         """
         decoded = x.decode('utf-8', errors='ignore')
-        null = decoded.find('\x00')
-        return decoded[:null].strip()
+        return decoded.split('\x00', maxsplit=1)[0].strip()
 
     @staticmethod
     def _swap32(x):
-- 
2.43.0


From 58bb288975bcaca83a580f0569e973c99ea85453 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:48 +0000
Subject: [PATCH 35/84] fix: read the break point structure of VGF tropical
 cyclone break points

---
 src/gempakio/decode/vgf.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/gempakio/decode/vgf.py b/src/gempakio/decode/vgf.py
index 21dbb04..b3c3a60 100644
--- a/src/gempakio/decode/vgf.py
+++ b/src/gempakio/decode/vgf.py
@@ -4433,7 +4433,9 @@ class VectorGraphicFile:
             ('number_points', 'i'),
         ]
 
-        brkpt = self._buffer(break_info, self.prefmt, 'BreakPointInfo')
+        brkpt = self._buffer.read_struct(
+            NamedStruct(break_info, self.prefmt, 'BreakPointInfo')
+        )
 
         break_meta = [
             ('lat', 'f', partial(round, ndigits=2)),
-- 
2.43.0


From b317ec9711229b60eddf0b76c97e25bb890856a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:48 +0000
Subject: [PATCH 36/84] fix: convert stored text to codes for VGF tropical
 cyclone elements

---
 src/gempakio/decode/vgf.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/gempakio/decode/vgf.py b/src/gempakio/decode/vgf.py
index b3c3a60..033967f 100644
--- a/src/gempakio/decode/vgf.py
+++ b/src/gempakio/decode/vgf.py
@@ -1996,10 +1996,10 @@ class TropicalCycloneBase(VectorGraphicElement):
         super().__init__(header_struct)
         self.storm_number = storm_number
         self.issue_status = issue_status
-        self.basin = Basin(basin)
+        self.basin = Basin(int(basin))
         self.advisory_number = advisory_number
         self.storm_name = storm_name
-        self.storm_type = StormType(storm_type)
+        self.storm_type = StormType(int(storm_type))
         self.valid_time = datetime.strptime(valid_time, '%y%m%d/%H%M').replace(
             tzinfo=timezone.utc
         )
-- 
2.43.0


From c27a5e3c78b515b3b0dbc16abc478fb3ea93da25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:48 +0000
Subject: [PATCH 37/84] fix: add one VGF tropical cyclone advisory per record

---
 src/gempakio/decode/vgf.py | 38 +++++++++++++++++++-------------------
 1 file changed, 19 insertions(+), 19 deletions(-)

diff --git a/src/gempakio/decode/vgf.py b/src/gempakio/decode/vgf.py
index 033967f..0865430 100644
--- a/src/gempakio/decode/vgf.py
+++ b/src/gempakio/decode/vgf.py
@@ -4256,26 +4256,26 @@ class VectorGraphicFile:
                 }
             )
 
-            self._elements.append(
-                TropicalCycloneAdvisoryElement(
-                    header_struct,
-                    storm_number,
-                    issue_status,
-                    basin,
-                    advisory_number,
-                    storm_name,
-                    storm_type,
-                    valid,
-                    tz,
-                    text_lat,
-                    text_lon,
-                    text_font,
-                    text_size,
-                    text_width,
-                    wwnum,
-                    ww,
-                )
+        self._elements.append(
+            TropicalCycloneAdvisoryElement(
+                header_struct,
+                storm_number,
+                issue_status,
+                basin,
+                advisory_number,
+                storm_name,
+                storm_type,
+                valid,
+                tz,
+                text_lat,
+                text_lon,
+                text_font,
+                text_size,
+                text_width,
+                wwnum,
+                ww,
             )
+        )
 
     def _decode_tc_error(self, header_struct):
         """Decode TC error cone elements."""
-- 
2.43.0


From 16630d57a964eeed437fa66c793bc9887001220c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:48 +0000
Subject: [PATCH 38/84] fix: decode the text of VGF significant weather
 elements

---
 src/gempakio/decode/vgf.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/gempakio/decode/vgf.py b/src/gempakio/decode/vgf.py
index 0865430..500cd2a 100644
--- a/src/gempakio/decode/vgf.py
+++ b/src/gempakio/decode/vgf.py
@@ -4505,6 +4505,8 @@ class VectorGraphicFile:
             ('lon', 'f', partial(round, ndigits=2)),
             ('offset_x', 'i'),
             ('offset_y', 'i'),
+            ('text', '255s', self._decode_strip_null),
+            (None, '1x'),  # skip struct alignment padding byte
         ]
 
         text = self._buffer.read_struct(
@@ -4534,11 +4536,11 @@ class VectorGraphicFile:
                 text.turbulence_symbol,
                 text.font,
                 text.text_flag,
-                text.text_width,
+                text.width,
                 text.text_color,
                 text.line_color,
                 text.fill_color,
-                text.text_align,
+                text.align,
                 text.offset_x,
                 text.offset_y,
                 text.text,
@@ -4547,7 +4549,7 @@ class VectorGraphicFile:
             )
         )
 
-        self._buffer.skip((MAX_SGWX_POINTS - sgwx.number_points) * 4)
+        self._buffer.skip((MAX_SGWX_POINTS - sgwx.number_points) * 8)
 
     def _decode_watches(self, header_struct):
         """Decode watch elements."""
-- 
2.43.0


From 55e201a0d687dce000f964edf631709f267b2885 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:48 +0000
Subject: [PATCH 39/84] fix: get VGF MET elements of files without SIGMETs

---
 src/gempakio/decode/vgf.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/gempakio/decode/vgf.py b/src/gempakio/decode/vgf.py
index 500cd2a..1def9ae 100644
--- a/src/gempakio/decode/vgf.py
+++ b/src/gempakio/decode/vgf.py
@@ -3153,7 +3153,7 @@ class VectorGraphicFile:
         -------
         List of MET elements.
         """
-        if self.has_sigmet:
+        if self.has_met:
             return self.filter_elements(vg_class=VGClass.met)
 
         return None
-- 
2.43.0


From aae2762c0ee72d26ce125371a0ad57981f2160c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:48 +0000
Subject: [PATCH 40/84] fix: report all kinds of VGF text as text

---
 src/gempakio/decode/vgf.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/gempakio/decode/vgf.py b/src/gempakio/decode/vgf.py
index 1def9ae..ceb0b5f 100644
--- a/src/gempakio/decode/vgf.py
+++ b/src/gempakio/decode/vgf.py
@@ -2941,7 +2941,7 @@ class VectorGraphicFile:
     @property
     def has_text(self):
         """Check for text elements."""
-        return bool(self.filter_elements(vg_class=VGClass.text, vg_type=VGType.text))
+        return bool(self.filter_elements(vg_class=VGClass.text))
 
     @property
     def has_special_text(self):
-- 
2.43.0


From dea2104eb0432c5b7fbc1cc2eee66bbd14ed7fa0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:48 +0000
Subject: [PATCH 41/84] fix: include VGF elements on the equator or prime
 meridian in bounds

---
 src/gempakio/decode/vgf.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/gempakio/decode/vgf.py b/src/gempakio/decode/vgf.py
index ceb0b5f..4961f79 100644
--- a/src/gempakio/decode/vgf.py
+++ b/src/gempakio/decode/vgf.py
@@ -2919,7 +2919,9 @@ class VectorGraphicFile:
         ymax = -9999
 
         for element in self.elements:
-            if 0 in [element.max_lat, element.max_lon, element.min_lat, element.min_lon]:
+            if not any(
+                [element.max_lat, element.max_lon, element.min_lat, element.min_lon]
+            ):
                 continue
             else:
                 if element.max_lat > ymax:
-- 
2.43.0


From fc4e50e46c9a0397409b6d1bdad00108a965f762 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:11 +0000
Subject: [PATCH 42/84] fix: read VGF tropical cyclone advisories without
 watches or warnings

---
 src/gempakio/decode/vgf.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/gempakio/decode/vgf.py b/src/gempakio/decode/vgf.py
index 4961f79..8af2d7a 100644
--- a/src/gempakio/decode/vgf.py
+++ b/src/gempakio/decode/vgf.py
@@ -4231,7 +4231,7 @@ class VectorGraphicFile:
 
         text_width = int(re.search(r'(?<=<tca_textWidth>)(.+?)(?=<)', tca_string).group())
 
-        wwnum = int(re.search(r'(?<=<tca_wwNum>)(.+?)(?=<)', tca_string).group())
+        wwnum = int(re.search(r'(?<=<tca_wwNum>)(.+?)(?=<|$)', tca_string).group())
 
         ww = []
         for n in range(wwnum):
-- 
2.43.0


From 4c54c083f400f1ab2e7517690be61c684063f35a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:11 +0000
Subject: [PATCH 43/84] fix: locate VGF records by the size in their headers

---
 src/gempakio/decode/vgf.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/gempakio/decode/vgf.py b/src/gempakio/decode/vgf.py
index 8af2d7a..a7787cc 100644
--- a/src/gempakio/decode/vgf.py
+++ b/src/gempakio/decode/vgf.py
@@ -5047,7 +5047,8 @@ class VectorGraphicFile:
         """Decode elements of a VGF."""
         more = True
 
-        while not self._buffer.at_end() and more:
+        while len(self._buffer.get_next(VGF_HEADER_SIZE)) == VGF_HEADER_SIZE and more:
+            start = self._buffer.set_mark()
             header_struct = self._read_header()
 
             rec_size = header_struct.record_size
@@ -5164,9 +5165,12 @@ class VectorGraphicFile:
                 )
                 _ = self._buffer.skip(header_struct.record_size - VGF_HEADER_SIZE)
 
+            # The record size, not what was decoded of it, locates the next record
+            self._buffer.jump_to(start, rec_size)
+
     def _validate_header(self, header_struct):
         """Validate VGF header."""
-        size = len(self._buffer._data)
+        size = len(self._buffer.get_next()) + VGF_HEADER_SIZE
         delete = header_struct.delete
         major_color = header_struct.major_color
         minor_color = header_struct.minor_color
@@ -5184,6 +5188,7 @@ class VectorGraphicFile:
             or major_color > 32
             or minor_color < 0
             or minor_color > 32
+            or rec_size < VGF_HEADER_SIZE
             or rec_size > size
         )
 
-- 
2.43.0


From 8b8f506c4475dcc14b9d304e9db385e197c73190 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:11 +0000
Subject: [PATCH 44/84] fix: do not decode other VGF watch types as watch boxes

---
 src/gempakio/decode/vgf.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/gempakio/decode/vgf.py b/src/gempakio/decode/vgf.py
index a7787cc..04d9027 100644
--- a/src/gempakio/decode/vgf.py
+++ b/src/gempakio/decode/vgf.py
@@ -5154,7 +5154,13 @@ class VectorGraphicFile:
                     )
                     _ = self._buffer.skip(data_size)
             elif vg_class == VGClass.watches:
-                self._decode_watches(header_struct)
+                if vg_type == VGType.watch_box:
+                    self._decode_watches(header_struct)
+                else:
+                    logger.warning(
+                        'Watch class with type `%s` cannot be decoded. Skipping.', vg_type
+                    )
+                    _ = self._buffer.skip(data_size)
             elif vg_class == VGClass.winds:
                 self._decode_winds(header_struct)
             else:
-- 
2.43.0


From c8cd5549cd0eb1a08424f71f9223cb1803bbddbe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:57 +0000
Subject: [PATCH 45/84] fix: skip VGF records of unknown versions

---
 src/gempakio/decode/vgf.py | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/src/gempakio/decode/vgf.py b/src/gempakio/decode/vgf.py
index 04d9027..889aa1b 100644
--- a/src/gempakio/decode/vgf.py
+++ b/src/gempakio/decode/vgf.py
@@ -3724,6 +3724,12 @@ class VectorGraphicFile:
                     ('tops', '80s', self._decode_strip_null),
                     ('forecaster', '16s', self._decode_strip_null),
                 ]
+            case _:
+                logger.warning(
+                    'SIGMET with version `%s` cannot be decoded. Skipping.',
+                    header_struct.version,
+                )
+                return
 
         sigmet = self._buffer.read_struct(NamedStruct(sigmet_info, self.prefmt, 'SigmetInfo'))
 
@@ -4952,6 +4958,12 @@ class VectorGraphicFile:
                 # Manually close watch parallelogram
                 if watch.number_points > 2:
                     lon, lat = self.close_coordinates(lon, lat)
+            case _:
+                logger.warning(
+                    'Watch box with version `%s` cannot be decoded. Skipping.',
+                    header_struct.version,
+                )
+                return
 
         self._elements.append(
             WatchBoxElement(
-- 
2.43.0


From 66de5d37837f819ad0553087e7ee644d57bf5743 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:57 +0000
Subject: [PATCH 46/84] fix: list only the groups of decoded VGF elements

---
 src/gempakio/decode/vgf.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/gempakio/decode/vgf.py b/src/gempakio/decode/vgf.py
index 889aa1b..ae538b0 100644
--- a/src/gempakio/decode/vgf.py
+++ b/src/gempakio/decode/vgf.py
@@ -5078,9 +5078,7 @@ class VectorGraphicFile:
 
             group_info = header_struct.group_type
 
-            # Ignores the file header group
-            if group_info not in self._groups and group_info and vg_class != VGClass.header:
-                self._groups.append(group_info)
+            decoded = len(self._elements)
 
             if vg_class == VGClass.header and vg_type == VGType.file_header:
                 self._decode_file_header(header_struct)
@@ -5183,6 +5181,10 @@ class VectorGraphicFile:
                 )
                 _ = self._buffer.skip(header_struct.record_size - VGF_HEADER_SIZE)
 
+            # Ignores the groups of the file header and of skipped records
+            if len(self._elements) > decoded and group_info and group_info not in self._groups:
+                self._groups.append(group_info)
+
             # The record size, not what was decoded of it, locates the next record
             self._buffer.jump_to(start, rec_size)
 
-- 
2.43.0


From ff86f3334d3b12ad47a16b5627f2be663ad99bd3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:57 +0000
Subject: [PATCH 47/84] fix: export nested VGF attributes and times to JSON

---
 src/gempakio/decode/vgf.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/gempakio/decode/vgf.py b/src/gempakio/decode/vgf.py
index ae538b0..0f67b51 100644
--- a/src/gempakio/decode/vgf.py
+++ b/src/gempakio/decode/vgf.py
@@ -2869,6 +2869,10 @@ class NumpyEncoder(json.JSONEncoder):
         """`NumpyEncoder` default serializer."""
         if isinstance(obj, np.ndarray):
             return [float(f'{x:6.2f}') for x in obj]
+        if isinstance(obj, VectorGraphicAttribute):
+            return obj.__dict__
+        if isinstance(obj, datetime):
+            return obj.isoformat()
         return json.JSONEncoder.default(self, obj)
 
 
-- 
2.43.0


From b840b739d77982ae42acbfaa6bdc6e3161c952a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:57 +0000
Subject: [PATCH 48/84] fix: accept an encoder class for VGF JSON export

---
 src/gempakio/decode/vgf.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/gempakio/decode/vgf.py b/src/gempakio/decode/vgf.py
index 0f67b51..a2113d1 100644
--- a/src/gempakio/decode/vgf.py
+++ b/src/gempakio/decode/vgf.py
@@ -3261,7 +3261,8 @@ class VectorGraphicFile:
         """
         serialized = [e.__dict__ for e in self._elements]
 
-        return json.dumps(serialized, cls=kwargs.get('cls', NumpyEncoder), **kwargs)
+        kwargs.setdefault('cls', NumpyEncoder)
+        return json.dumps(serialized, **kwargs)
 
     def _decode_file_header(self, header_struct):
         """Decode file header."""
-- 
2.43.0


From 79a34e0592c89ecf8ff76e47f8c6b0161a09050f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:57 +0000
Subject: [PATCH 49/84] fix: close VGF coordinates given as lists

---
 src/gempakio/decode/vgf.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/gempakio/decode/vgf.py b/src/gempakio/decode/vgf.py
index a2113d1..f6e3d09 100644
--- a/src/gempakio/decode/vgf.py
+++ b/src/gempakio/decode/vgf.py
@@ -5288,8 +5288,8 @@ class VectorGraphicFile:
             x = np.concatenate([x, [x[0]]])
             y = np.concatenate([y, [y[0]]])
         elif isinstance(x, list) and isinstance(y, list):
-            x += x[0]
-            y += y[0]
+            x = x + x[:1]
+            y = y + y[:1]
         else:
             raise TypeError('x and y must be of the same type: list or array.')
 
-- 
2.43.0


From 31824afd14d3498a2d561333f028e973be9085ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:47 +0000
Subject: [PATCH 50/84] fix: allow structures in which every field has a
 converter

---
 src/gempakio/tools.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/gempakio/tools.py b/src/gempakio/tools.py
index bc3883f..af0b58f 100644
--- a/src/gempakio/tools.py
+++ b/src/gempakio/tools.py
@@ -21,7 +21,7 @@ class NamedStruct:
         """Initialize the NamedStruct."""
         if tuple_name is None:
             tuple_name = 'NamedStruct'
-        names, fmts = zip(*info, strict=False)
+        names, fmts, *_ = zip(*info, strict=False)
         self.converters = {}
         conv_off = 0
         for ind, i in enumerate(info):
-- 
2.43.0


From cba1411a23fed6714ba400bc95886ff3b0f6c009 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:41:43 +0000
Subject: [PATCH 51/84] fix: validate the code, width and size of new VGF
 symbols

---
 src/gempakio/encode/vgf.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/gempakio/encode/vgf.py b/src/gempakio/encode/vgf.py
index d7c5094..687db2a 100644
--- a/src/gempakio/encode/vgf.py
+++ b/src/gempakio/encode/vgf.py
@@ -1490,10 +1490,10 @@ class SymbolBase(Element):
     def __init__(self, lon, lat, symbol_code, color, width=1, size=1, offset_x=0, offset_y=0):
         super().__init__()
         self._number_symbols = 1
-        self._width = width
-        self._size = size
+        self.width = width
+        self.size = size
         self._symbol_type = 0
-        self._symbol_code = symbol_code
+        self.symbol_code = symbol_code
         self._lat = lat
         self._lon = lon
         self._offset_x = offset_x
-- 
2.43.0


From 36f252a2756824ddf66a5fb41240619afa687004 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:41:43 +0000
Subject: [PATCH 52/84] fix: accept special symbol code 0

---
 src/gempakio/encode/vgf.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/gempakio/encode/vgf.py b/src/gempakio/encode/vgf.py
index 687db2a..025dd96 100644
--- a/src/gempakio/encode/vgf.py
+++ b/src/gempakio/encode/vgf.py
@@ -1623,8 +1623,8 @@ class SpecialSymbol(SymbolBase):
 
     def _validate_symbol_code(self, code):
         super()._validate_symbol_code(code)
-        if code < 1 or code > 41:
-            raise ValueError('Symbol code must be in range [1, 41].')
+        if code < 0 or code > 41:
+            raise ValueError('Symbol code must be in range [0, 41].')
 
 
 class Marker(SymbolBase):
-- 
2.43.0


From c3755c7e1645b6434fcd94b5581840e79409c7e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:41:43 +0000
Subject: [PATCH 53/84] fix: reject NaN as the size of VGF elements

---
 src/gempakio/encode/vgf.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/gempakio/encode/vgf.py b/src/gempakio/encode/vgf.py
index 025dd96..c524a5f 100644
--- a/src/gempakio/encode/vgf.py
+++ b/src/gempakio/encode/vgf.py
@@ -1210,7 +1210,7 @@ class SpecialLine(LineBase):
     @size.setter
     def size(self, value):
         """Set pattern size."""
-        if value < 0.1 or value > 10:
+        if not 0.1 <= value <= 10:
             raise ValueError('Pattern size must be in range [0.1, 10].')
         self._size = value
 
@@ -1525,7 +1525,7 @@ class SymbolBase(Element):
     @size.setter
     def size(self, value):
         """Set symbol size."""
-        if value < 0.1 or value > 10:
+        if not 0.1 <= value <= 10:
             raise ValueError('Symbol size must be in range [0.1, 10].')
         self._size = value
 
-- 
2.43.0


From 76bed189f88b0d03364ccbc57069a05f1b34a95e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:41:43 +0000
Subject: [PATCH 54/84] fix: reject VGF group types that do not fit their byte

---
 src/gempakio/encode/vgf.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/gempakio/encode/vgf.py b/src/gempakio/encode/vgf.py
index c524a5f..fec6fa0 100644
--- a/src/gempakio/encode/vgf.py
+++ b/src/gempakio/encode/vgf.py
@@ -389,8 +389,8 @@ class Element:
     @group_type.setter
     def group_type(self, value):
         """Set group type."""
-        if value < 0:
-            raise ValueError('group type should be non-negative.')
+        if value not in range(256):
+            raise ValueError('group type must be in range [0, 255].')
         self._group_type = value
 
     @property
-- 
2.43.0


From 28012c7f3aab453bdeda621d216b9de3fe62abcc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:41:43 +0000
Subject: [PATCH 55/84] fix: keep integer VGF attributes to integers that can
 be written

---
 src/gempakio/encode/vgf.py | 46 ++++++++++++++++++++++++++++++++++----
 1 file changed, 42 insertions(+), 4 deletions(-)

diff --git a/src/gempakio/encode/vgf.py b/src/gempakio/encode/vgf.py
index fec6fa0..3b11224 100644
--- a/src/gempakio/encode/vgf.py
+++ b/src/gempakio/encode/vgf.py
@@ -265,6 +265,14 @@ class SpecialTextCodes(IntEnum):
     FLIGHT_LEVEL = 16
 
 
+def _integer(value):
+    """Convert a whole number to an integer that fits a GEMPAK word."""
+    number = int(value)
+    if number != value or not -(2**31) <= number < 2**31:
+        raise ValueError(f'{value} is not a valid integer.')
+    return number
+
+
 @dataclass
 class Element:
     """Base VGF element."""
@@ -333,6 +341,7 @@ class Element:
     @closed.setter
     def closed(self, value):
         """Set closed."""
+        value = _integer(value)
         if value not in [0, 1]:
             raise ValueError('value must be 0 (open) or 1 (closed).')
         self._closed = value
@@ -365,6 +374,7 @@ class Element:
     @filled.setter
     def filled(self, value):
         """Set fill."""
+        value = _integer(value)
         if value not in range(9):
             raise ValueError('fill values must be in range [0, 8].')
         self._filled = value
@@ -377,6 +387,7 @@ class Element:
     @smooth.setter
     def smooth(self, value):
         """Set smooth."""
+        value = _integer(value)
         if value not in range(3):
             raise ValueError('smooth option must be 0 (none), 1 (splines), or 2 (parametric).')
         self._smooth = value
@@ -389,6 +400,7 @@ class Element:
     @group_type.setter
     def group_type(self, value):
         """Set group type."""
+        value = _integer(value)
         if value not in range(256):
             raise ValueError('group type must be in range [0, 255].')
         self._group_type = value
@@ -401,6 +413,7 @@ class Element:
     @group_number.setter
     def group_number(self, value):
         """Set group number."""
+        value = _integer(value)
         if value < 0:
             raise ValueError('group number should be non-negative.')
         self._group_number = value
@@ -413,6 +426,7 @@ class Element:
     @major_color.setter
     def major_color(self, value):
         """Set major color."""
+        value = _integer(value)
         if value not in range(33):
             raise ValueError('GEMPAK colors must be in range of 0 to 32.')
         self._major_color = value
@@ -425,6 +439,7 @@ class Element:
     @minor_color.setter
     def minor_color(self, value):
         """Set minor color."""
+        value = _integer(value)
         if value not in range(33):
             raise ValueError('GEMPAK colors must be in range of 0 to 32.')
         self._minor_color = value
@@ -517,6 +532,7 @@ class LineBase(Element):
     @width.setter
     def width(self, value):
         """Set line width."""
+        value = _integer(value)
         if value < 1 or value > 10:
             raise ValueError('Line width must be in range [1, 10].')
         self._width = value
@@ -556,8 +572,8 @@ class TextBase(Element):
         self._width = width
         self.align = align
         self._rotation = rotation
-        self._offset_x = offset_x
-        self._offset_y = offset_y
+        self.offset_x = offset_x
+        self.offset_y = offset_y
 
         if not isinstance(text, str):
             raise TypeError('text must be a string.')
@@ -578,6 +594,7 @@ class TextBase(Element):
     @text_color.setter
     def text_color(self, value):
         """Set text color."""
+        value = _integer(value)
         if value not in range(33):
             raise ValueError('Invalid text color.')
         self._text_color = value
@@ -607,6 +624,7 @@ class TextBase(Element):
     @font.setter
     def font(self, value):
         """Set font code."""
+        value = _integer(value)
         if self._text_flag == 2 and value not in [1, 2, 3, 11, 12, 13, 21, 22, 23, 31, 32, 33]:
             raise ValueError('Invalid hardware font code.')
         self._font = value
@@ -619,6 +637,7 @@ class TextBase(Element):
     @width.setter
     def width(self, value):
         """Set text width."""
+        value = _integer(value)
         self._width = value
 
     @property
@@ -629,6 +648,7 @@ class TextBase(Element):
     @align.setter
     def align(self, value):
         """Set text alignment."""
+        value = _integer(value)
         if value not in [-1, 0, 1]:
             raise ValueError('Invalid text alignment.')
         self._align = value
@@ -651,6 +671,7 @@ class TextBase(Element):
     @offset_x.setter
     def offset_x(self, value):
         """Set text offset in x-direction."""
+        value = _integer(value)
         self._offset_x = value
 
     @property
@@ -661,6 +682,7 @@ class TextBase(Element):
     @offset_y.setter
     def offset_y(self, value):
         """Set text offset in y-direction."""
+        value = _integer(value)
         self._offset_y = value
 
     @property
@@ -671,6 +693,7 @@ class TextBase(Element):
     @text_flag.setter
     def text_flag(self, value):
         """Set text flag."""
+        value = _integer(value)
         if value not in [1, 2]:
             raise ValueError('Invalid text flag.')
         self._text_flag = value
@@ -772,6 +795,7 @@ class Line(LineBase):
     @line_type.setter
     def line_type(self, value):
         """Set special line type."""
+        value = _integer(value)
         if value < 0 or value > 99:
             raise ValueError('Invalid line type.')
         self._line_type = value
@@ -951,6 +975,7 @@ class Front(Element):
         As width is defined by front intensity, changing the width will change
         the front code accordinly.
         """
+        value = _integer(value)
         if value not in range(1, 9):
             raise ValueError('Front width must be in range [1, 8].')
         self._width = value
@@ -982,6 +1007,7 @@ class Front(Element):
         As width is defined by front intensity, changing the front code will change
         the width accordingly.
         """
+        value = _integer(value)
         if value not in range(1000):
             raise ValueError('Invalid front code.')
         self._front_code = value
@@ -1000,6 +1026,7 @@ class Front(Element):
     @pip_size.setter
     def pip_size(self, value):
         """Set pip size."""
+        value = _integer(value)
         if value not in range(40, 501):
             raise ValueError('Invalid pip size.')
         self._pip_size = value
@@ -1012,6 +1039,7 @@ class Front(Element):
     @pip_stroke.setter
     def pip_stroke(self, value):
         """Set pip stroke multiplier."""
+        value = _integer(value)
         if value <= 0:
             raise ValueError('Invalid pip stroke multiplier.')
         self._pip_stroke = value
@@ -1024,6 +1052,7 @@ class Front(Element):
     @pip_direction.setter
     def pip_direction(self, value):
         """Set pip direction."""
+        value = _integer(value)
         if value not in [-1, 1]:
             raise ValueError('Invalid pip direction.')
         self._pip_direction = value
@@ -1183,6 +1212,7 @@ class SpecialLine(LineBase):
     @line_type.setter
     def line_type(self, value):
         """Set special line type."""
+        value = _integer(value)
         if value not in range(1, 27):
             raise ValueError('Invalid speical line type.')
         self._line_type = value
@@ -1194,6 +1224,7 @@ class SpecialLine(LineBase):
 
     @direction.setter
     def direction(self, value):
+        value = _integer(value)
         if value not in [1, -1]:
             raise ValueError('Line direction must be 1 (CW) or -1 (CCW).')
         self._direction = value
@@ -1398,6 +1429,7 @@ class SpecialText(TextBase):
         -----
         The turbulence symbol will be reset to zero when changing text types.
         """
+        value = _integer(value)
         if value not in range(17):
             raise ValueError('Invalid text type.')
         self._text_type = value
@@ -1411,6 +1443,7 @@ class SpecialText(TextBase):
     @edgecolor.setter
     def edgecolor(self, value):
         """Set text box edgecolor."""
+        value = _integer(value)
         if value not in range(33):
             raise ValueError('Invalid edgecolor.')
         self._edgecolor = value
@@ -1423,6 +1456,7 @@ class SpecialText(TextBase):
     @facecolor.setter
     def facecolor(self, value):
         """Set text box facecolor."""
+        value = _integer(value)
         if value not in range(33):
             raise ValueError('Invalid facecolor.')
         self._facecolor = value
@@ -1435,6 +1469,7 @@ class SpecialText(TextBase):
     @turbulence_symbol.setter
     def turbulence_symbol(self, value):
         """Set turbulence symbol."""
+        value = _integer(value)
         if self._text_type in [7, 9] and value not in range(9):
             raise ValueError('Invalid turbulence symbol code.')
         elif self._text_type == 12 and value not in range(11):
@@ -1496,8 +1531,8 @@ class SymbolBase(Element):
         self.symbol_code = symbol_code
         self._lat = lat
         self._lon = lon
-        self._offset_x = offset_x
-        self._offset_y = offset_y
+        self.offset_x = offset_x
+        self.offset_y = offset_y
         self._min_lon = lon
         self._min_lat = lat
         self._max_lon = lon
@@ -1513,6 +1548,7 @@ class SymbolBase(Element):
     @width.setter
     def width(self, value):
         """Set symbol width."""
+        value = _integer(value)
         if value < 1 or value > 10:
             raise ValueError('Symbol width must be in range [1, 10].')
         self._width = value
@@ -1548,6 +1584,7 @@ class SymbolBase(Element):
     @offset_x.setter
     def offset_x(self, value):
         """Set symbol offset in x-direction."""
+        value = _integer(value)
         self._offset_x = value
 
     @property
@@ -1558,6 +1595,7 @@ class SymbolBase(Element):
     @offset_y.setter
     def offset_y(self, value):
         """Set symbol offset in y-direction."""
+        value = _integer(value)
         self._offset_y = value
 
     def _validate_symbol_code(self, code):
-- 
2.43.0


From 8a90b0ce118a5f8fac7a29d98e9af151965f7f6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:41:43 +0000
Subject: [PATCH 56/84] fix: reject rotations of VGF text that are not numbers

---
 src/gempakio/encode/vgf.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/gempakio/encode/vgf.py b/src/gempakio/encode/vgf.py
index 3b11224..5f51cd8 100644
--- a/src/gempakio/encode/vgf.py
+++ b/src/gempakio/encode/vgf.py
@@ -571,7 +571,7 @@ class TextBase(Element):
         self.font = font
         self._width = width
         self.align = align
-        self._rotation = rotation
+        self.rotation = rotation
         self.offset_x = offset_x
         self.offset_y = offset_y
 
@@ -661,6 +661,8 @@ class TextBase(Element):
     @rotation.setter
     def rotation(self, value):
         """Set text rotation."""
+        if not np.isfinite(value):
+            raise ValueError('Text rotation must be finite.')
         self._rotation = value
 
     @property
-- 
2.43.0


From f1f3b1e722659b567991a538be53f27538520539 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:41:43 +0000
Subject: [PATCH 57/84] fix: size VGF special text by its encoded length

---
 src/gempakio/encode/vgf.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/gempakio/encode/vgf.py b/src/gempakio/encode/vgf.py
index 5f51cd8..00df890 100644
--- a/src/gempakio/encode/vgf.py
+++ b/src/gempakio/encode/vgf.py
@@ -577,7 +577,7 @@ class TextBase(Element):
 
         if not isinstance(text, str):
             raise TypeError('text must be a string.')
-        elif len(text + '\x00') > 255:
+        elif len(text.encode() + b'\x00') > 255:
             raise ValueError('text string exceeds 255 character limit.')
         self._text = text + '\x00'
 
@@ -1415,7 +1415,9 @@ class SpecialText(TextBase):
         self.facecolor = text_color if facecolor is None else facecolor
         self.turbulence_symbol = turbulence_symbol
         self._record_size = (
-            self.element_header_struct.size + self.special_text_struct.size + len(self._text)
+            self.element_header_struct.size
+            + self.special_text_struct.size
+            + len(self._text.encode())
         )
 
     @property
@@ -1500,9 +1502,7 @@ class SpecialText(TextBase):
             offset_y=self._offset_y,
         )
 
-        text = struct.pack(f'{len(self._text)}s', self._text.encode())
-
-        return header + info + text
+        return header + info + self._text.encode()
 
 
 class SymbolBase(Element):
-- 
2.43.0


From 5dc62ecb149c8d02796ca9f0e3a78be43247a16c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:41:43 +0000
Subject: [PATCH 58/84] fix: reject undefined turbulence symbols for any VGF
 text type

---
 src/gempakio/encode/vgf.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/gempakio/encode/vgf.py b/src/gempakio/encode/vgf.py
index 00df890..a0bbc8f 100644
--- a/src/gempakio/encode/vgf.py
+++ b/src/gempakio/encode/vgf.py
@@ -1478,6 +1478,8 @@ class SpecialText(TextBase):
             raise ValueError('Invalid turbulence symbol code.')
         elif self._text_type == 12 and value not in range(11):
             raise ValueError('Invalid icing symbol code.')
+        elif value not in range(11):
+            raise ValueError('Invalid turbulence or icing symbol code.')
         self._turbulence_symbol = value
 
     def encode(self):
-- 
2.43.0


From 20ad46f056bdf58ea795314da6fa85eb112d957f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:41:43 +0000
Subject: [PATCH 59/84] fix: encode all VGF elements before opening the
 destination

---
 src/gempakio/encode/vgf.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/gempakio/encode/vgf.py b/src/gempakio/encode/vgf.py
index a0bbc8f..156b14e 100644
--- a/src/gempakio/encode/vgf.py
+++ b/src/gempakio/encode/vgf.py
@@ -1739,6 +1739,7 @@ class VGFile:
         ----------
         path : str of `path.Pathlib`
         """
+        encoded = b''.join(e.encode() for e in self.elements)
+
         with open(path, 'wb') as out:
-            for e in self.elements:
-                out.write(e.encode())
+            out.write(encoded)
-- 
2.43.0


From 9fbb4d37efa5aebeaabd9a1ee85fc58fec4ddeae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:41:43 +0000
Subject: [PATCH 60/84] fix: truncating a buffer by nothing keeps its data

---
 src/gempakio/tools.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/gempakio/tools.py b/src/gempakio/tools.py
index af0b58f..9efe2c3 100644
--- a/src/gempakio/tools.py
+++ b/src/gempakio/tools.py
@@ -177,7 +177,8 @@ class IOBuffer:
 
     def truncate(self, num_bytes):
         """Remove the specified number of bytes from the end of the buffer."""
-        self._data = self._data[:-num_bytes]
+        if num_bytes:
+            self._data = self._data[:-num_bytes]
 
     def at_end(self):
         """Return whether the buffer has reached the end of data."""
-- 
2.43.0


From 625e81b43fabf93b0d1d05a7ee97946a555f81ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:41:43 +0000
Subject: [PATCH 61/84] fix: arrays read from a buffer do not share its memory

---
 src/gempakio/tools.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/gempakio/tools.py b/src/gempakio/tools.py
index 9efe2c3..11a9f23 100644
--- a/src/gempakio/tools.py
+++ b/src/gempakio/tools.py
@@ -149,7 +149,7 @@ class IOBuffer:
         """Read an array of values from the buffer."""
         ret = np.frombuffer(self._data, offset=self._offset, dtype=dtype, count=count)
         self.skip(ret.nbytes)
-        return ret
+        return ret.copy()
 
     def read(self, num_bytes=None):
         """Read and return the specified bytes from the buffer."""
-- 
2.43.0


From 215af83e9864fbd8f0069802c3a864987d3be270 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:44:32 +0000
Subject: [PATCH 62/84] fix: a failed ASCII read does not advance the buffer

---
 src/gempakio/tools.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/gempakio/tools.py b/src/gempakio/tools.py
index 11a9f23..234de1e 100644
--- a/src/gempakio/tools.py
+++ b/src/gempakio/tools.py
@@ -126,7 +126,10 @@ class IOBuffer:
 
     def read_ascii(self, num_bytes=None):
         """Return the specified bytes as ascii-formatted text."""
-        return self.read(num_bytes).decode('ascii')
+        # only advance if the bytes are ascii
+        text = self.get_next(num_bytes).decode('ascii')
+        self.skip(len(text))
+        return text
 
     def read_binary(self, num, item_type='B'):
         """Parse the current buffer offset as the specified code."""
-- 
2.43.0


From 5ab2c64fdf84c1c8f9b3d390d0e9fcd4a703ee36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:01:12 +0000
Subject: [PATCH 63/84] fix: accept Lambert conformal projections with one
 standard parallel

---
 src/gempakio/encode/gempak.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/gempakio/encode/gempak.py b/src/gempakio/encode/gempak.py
index 41b0334..ec46653 100644
--- a/src/gempakio/encode/gempak.py
+++ b/src/gempakio/encode/gempak.py
@@ -714,7 +714,8 @@ class GridFile(DataManagementFile):
             self.gemproj = 'STR'
             self.angle3 = self.rotation
         elif name == 'lambert_conformal_conic':
-            self.angle1, self.angle3 = params['standard_parallel']
+            # One standard parallel is a scalar, two are a tuple
+            self.angle1, self.angle3 = np.broadcast_to(params['standard_parallel'], 2).tolist()
             self.angle2 = params['longitude_of_central_meridian']
             self.gemproj = 'LCC'
         elif name == 'equidistant_cylindrical':
-- 
2.43.0


From cddd1fc7bdee28f540a1a505f5032df7da4b2124 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:01:12 +0000
Subject: [PATCH 64/84] fix: accept polar stereographic projections with a
 latitude of true scale

---
 src/gempakio/encode/gempak.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/gempakio/encode/gempak.py b/src/gempakio/encode/gempak.py
index ec46653..7f5240d 100644
--- a/src/gempakio/encode/gempak.py
+++ b/src/gempakio/encode/gempak.py
@@ -705,7 +705,11 @@ class GridFile(DataManagementFile):
             self.angle2 = params['longitude_of_projection_origin']
             self.angle3 = self.rotation
         elif name == 'polar_stereographic':
-            self.angle1 = params['latitude_of_projection_origin']
+            if 'latitude_of_projection_origin' in params:
+                self.angle1 = params['latitude_of_projection_origin']
+            else:
+                # The pole is not given along with a latitude of true scale
+                self.angle1 = float(np.copysign(90, params['standard_parallel']))
             self.angle2 = params['straight_vertical_longitude_from_pole']
             self.gemproj = 'STR'
         elif name == 'stereographic':
-- 
2.43.0


From 9e132761bbec45018073202c2289242dbddfd09c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:01:12 +0000
Subject: [PATCH 65/84] fix: accept Lambert azimuthal equal area projections on
 an ellipsoid

---
 src/gempakio/encode/gempak.py | 15 ++++-----------
 1 file changed, 4 insertions(+), 11 deletions(-)

diff --git a/src/gempakio/encode/gempak.py b/src/gempakio/encode/gempak.py
index 7f5240d..b5d7179 100644
--- a/src/gempakio/encode/gempak.py
+++ b/src/gempakio/encode/gempak.py
@@ -695,7 +695,6 @@ class GridFile(DataManagementFile):
                 params = params['crs_wkt']  # Not converted to CF by pyproj/PROJ
             elif 'Lambert Azimuthal Equal Area' in method:
                 name = 'lambert_azimuthal_equal_area'
-                params = params['crs_wkt']  # Not converted to CF by pyproj/PROJ
             else:
                 name = 'unknown'
 
@@ -740,16 +739,10 @@ class GridFile(DataManagementFile):
             self.angle3 = self.rotation
         elif name == 'lambert_azimuthal_equal_area':
             self.gemproj = 'LEA'
-            self.angle1 = float(
-                re.search(
-                    r'(?:\"Latitude of natural origin\",(?P<lat_0>-?\d{1,2}\.?\d*))', params
-                ).groupdict()['lat_0']
-            )
-            self.angle2 = float(
-                re.search(
-                    r'(?:\"Longitude of natural origin\",(?P<lon_0>-?\d{1,3}\.?\d*))', params
-                ).groupdict()['lon_0']
-            )
+            # Not converted to CF by pyproj/PROJ on a sphere
+            params = self._to_dict(self.projection.crs.coordinate_operation)
+            self.angle1 = params['latitude_of_natural_origin']
+            self.angle2 = params['longitude_of_natural_origin']
             self.angle3 = self.rotation
         elif name == 'gnomonic':
             self.gemproj = 'GNO'
-- 
2.43.0


From 65df272fbe2589157cdb1a2b2a38e2cb3243edb7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:01:12 +0000
Subject: [PATCH 66/84] fix: take the cosine of the mean latitude of MCD grids
 in radians

---
 src/gempakio/decode/gempak.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/gempakio/decode/gempak.py b/src/gempakio/decode/gempak.py
index 587af88..5b656bd 100644
--- a/src/gempakio/decode/gempak.py
+++ b/src/gempakio/decode/gempak.py
@@ -761,7 +761,7 @@ class GempakGrid(GempakFile):
                     + self.navigation_block.lower_left_lat
                 ) * 0.5
                 k_0 = (
-                    1 / math.cos(avglat)
+                    1 / math.cos(math.radians(avglat))
                     if self.navigation_block.proj_angle1 == 0
                     else self.navigation_block.proj_angle1
                 )
-- 
2.43.0


From 3a0de230b219b6b604c24fe03f51e6462782b75e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:01:12 +0000
Subject: [PATCH 67/84] fix: locate cylindrical grids that cross the edge of
 the projection

---
 src/gempakio/decode/gempak.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/gempakio/decode/gempak.py b/src/gempakio/decode/gempak.py
index 5b656bd..c47ae3b 100644
--- a/src/gempakio/decode/gempak.py
+++ b/src/gempakio/decode/gempak.py
@@ -804,6 +804,9 @@ class GempakGrid(GempakFile):
         urx, ury = transform(
             self.navigation_block.upper_right_lon, self.navigation_block.upper_right_lat
         )
+        if GEMPROJ_TO_PROJ[self.navigation_block.projection][1] == 'cyl' and urx - llx < 1:
+            # Eastward across the edge or all the way round (within a metre)
+            urx += 2 * np.pi * self.crs.ellipsoid.semi_major_metre
         self.x = np.linspace(llx, urx, self.kx, dtype=np.float32)
         self.y = np.linspace(lly, ury, self.ky, dtype=np.float32)
         xx, yy = np.meshgrid(self.x, self.y, copy=False)
-- 
2.43.0


From cc9375478d0e301b8e91891f210b9bcac00276bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:44:26 +0000
Subject: [PATCH 68/84] fix: pass the missing flag on when heights are computed

---
 src/gempakio/gemcalc.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/gempakio/gemcalc.py b/src/gempakio/gemcalc.py
index 90250f6..e8e5e3f 100644
--- a/src/gempakio/gemcalc.py
+++ b/src/gempakio/gemcalc.py
@@ -79,7 +79,7 @@ def interp_logp_height(sounding, missing=-9999):
                 tdt = sounding['DWPT'][i]
                 pt = sounding['PRES'][i]
                 scale_z = scale_height(tb, tt, tdb, tdt, pb, pt, missing)
-                sounding['HGHT'][i] = moist_hydrostatic_height(zb, pb, pt, scale_z)
+                sounding['HGHT'][i] = moist_hydrostatic_height(zb, pb, pt, scale_z, missing)
 
             if missing not in [sounding['TEMP'][i], sounding['HGHT'][i]]:
                 pb = sounding['PRES'][i]
@@ -206,7 +206,7 @@ def interp_moist_height(sounding, missing=-9999):
     merging observed sounding data.
     """
     nlev = len(sounding['PRES'])
-    hlist = np.ones(nlev) * -9999
+    hlist = np.ones(nlev) * missing
 
     ilev = -1
     top = False
@@ -278,7 +278,7 @@ def interp_moist_height(sounding, missing=-9999):
         for ii in range(ilev + 1, jlev):
             p = sounding['PRES'][ii]
             scale_z = hlist[ii]
-            z = moist_hydrostatic_height(hbb, pbb, p, scale_z)
+            z = moist_hydrostatic_height(hbb, pbb, p, scale_z, missing)
             sounding['HGHT'][ii] = z
             hbb = z
             pbb = p
-- 
2.43.0


From fabfe41a3f99dbf8bc65bff2451c983cf04bf00c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:44:34 +0000
Subject: [PATCH 69/84] fix: leave out incomplete levels when heights are
 computed from temperatures

---
 src/gempakio/gemcalc.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/gempakio/gemcalc.py b/src/gempakio/gemcalc.py
index e8e5e3f..d82ac92 100644
--- a/src/gempakio/gemcalc.py
+++ b/src/gempakio/gemcalc.py
@@ -244,7 +244,7 @@ def interp_moist_height(sounding, missing=-9999):
                 tt = sounding['TEMP'][jlev]
                 tdt = sounding['DWPT'][jlev]
                 zt = sounding['HGHT'][jlev]
-                if zt != missing and tt != missing:
+                if zt != missing and tt != missing and pt != missing:
                     mand = True
                     klev = jlev
 
@@ -271,13 +271,16 @@ def interp_moist_height(sounding, missing=-9999):
         if klev != 0:
             s = (zt - zlev) / (znew - zlev)
             for h in range(ilev + 1, klev + 1):
-                hlist[h] *= s
+                if hlist[h] != missing:
+                    hlist[h] *= s
 
         hbb = zlev
         pbb = plev
         for ii in range(ilev + 1, jlev):
             p = sounding['PRES'][ii]
             scale_z = hlist[ii]
+            if scale_z == missing:
+                continue
             z = moist_hydrostatic_height(hbb, pbb, p, scale_z, missing)
             sounding['HGHT'][ii] = z
             hbb = z
-- 
2.43.0


From a4a681bdf2d99d005cbd95ab305639ba5e1b5b04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:53:14 +0000
Subject: [PATCH 70/84] fix: recognise a missing station elevation in files
 with another missing value

---
 src/gempakio/decode/gempak.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/gempakio/decode/gempak.py b/src/gempakio/decode/gempak.py
index c47ae3b..f3287fd 100644
--- a/src/gempakio/decode/gempak.py
+++ b/src/gempakio/decode/gempak.py
@@ -1489,7 +1489,10 @@ class GempakSounding(GempakFile):
             merged['DRCT'].append(parts['TTAA']['DRCT'][0])
             merged['SPED'].append(parts['TTAA']['SPED'][0])
 
-        merged['HGHT'][0] = merged['SELV']
+        if merged['SELV'] == self.dm_label.missing_int:
+            merged['HGHT'][0] = self.dm_label.missing_float
+        else:
+            merged['HGHT'][0] = merged['SELV']
 
         first_man_p = self.dm_label.missing_float
         if num_man_levels >= 1:
-- 
2.43.0


From be1cfda36e782c9e3b5cc72b04b3a19077e31c4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:15:56 +0000
Subject: [PATCH 71/84] fix: end the search for heights when a level has no
 pressure

---
 src/gempakio/gemcalc.py | 23 +++++++++++++----------
 1 file changed, 13 insertions(+), 10 deletions(-)

diff --git a/src/gempakio/gemcalc.py b/src/gempakio/gemcalc.py
index d82ac92..7b27f43 100644
--- a/src/gempakio/gemcalc.py
+++ b/src/gempakio/gemcalc.py
@@ -30,7 +30,7 @@ def interp_logp_height(sounding, missing=-9999):
     idx = -1
     maxlev = -1
     while size + idx != 0:
-        if sounding['HGHT'][idx] != missing:
+        if missing not in [sounding['HGHT'][idx], sounding['PRES'][idx]]:
             maxlev = size + idx
             break
 
@@ -46,17 +46,16 @@ def interp_logp_height(sounding, missing=-9999):
         elif hght != missing:
             pbot = pres
             zbot = hght
-            ptop = 2000
         elif pbot == missing:
             continue
         else:
-            ilev = i + 1
-            while pres <= ptop:
-                if sounding['HGHT'][ilev] != missing:
-                    ptop = sounding['PRES'][ilev]
-                    ztop = sounding['HGHT'][ilev]
-                else:
-                    ilev += 1
+            for ilev in range(i + 1, maxlev + 1):
+                ptop = sounding['PRES'][ilev]
+                ztop = sounding['HGHT'][ilev]
+                if missing not in [ptop, ztop] and ptop < pres:
+                    break
+            else:
+                continue
             sounding['HGHT'][i] = zbot + (ztop - zbot) * (
                 np.log(pres / pbot) / np.log(ptop / pbot)
             )
@@ -81,7 +80,11 @@ def interp_logp_height(sounding, missing=-9999):
                 scale_z = scale_height(tb, tt, tdb, tdt, pb, pt, missing)
                 sounding['HGHT'][i] = moist_hydrostatic_height(zb, pb, pt, scale_z, missing)
 
-            if missing not in [sounding['TEMP'][i], sounding['HGHT'][i]]:
+            if missing not in [
+                sounding['PRES'][i],
+                sounding['TEMP'][i],
+                sounding['HGHT'][i],
+            ]:
                 pb = sounding['PRES'][i]
                 tb = sounding['TEMP'][i]
                 tdb = sounding['DWPT'][i]
-- 
2.43.0


From 3d6d0f6ff4d07aeb121e1a487c82dd61f8d717b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:20:25 +0000
Subject: [PATCH 72/84] fix: keep a copy of the coordinates of a grid file

---
 src/gempakio/encode/gempak.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/gempakio/encode/gempak.py b/src/gempakio/encode/gempak.py
index b5d7179..6e3ebb4 100644
--- a/src/gempakio/encode/gempak.py
+++ b/src/gempakio/encode/gempak.py
@@ -639,8 +639,8 @@ class GridFile(DataManagementFile):
                 raise ValueError('Projected input coordinates must one-dimensional.')
             self.nx = len(lon)
             self.ny = len(lat)
-            self.x = lon
-            self.y = lat
+            self.x = lon.copy()
+            self.y = lat.copy()
             self.lon, self.lat = self.projection(
                 *np.meshgrid(lon, lat, copy=False), inverse=True
             )
@@ -652,8 +652,8 @@ class GridFile(DataManagementFile):
             _x, _y = self.projection(lon, lat)
             self.x = _x[0, :]
             self.y = _y[:, 0]
-            self.lon = lon
-            self.lat = lat
+            self.lon = lon.copy()
+            self.lat = lat.copy()
             self._is_xy = False
 
         self._set_projection_params()
-- 
2.43.0


From 16e1bad5e734d26c3f09dd53fc55669f87e51223 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:20:32 +0000
Subject: [PATCH 73/84] fix: take the grid spacing of a grid across the date
 line the short way

---
 src/gempakio/encode/gempak.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/gempakio/encode/gempak.py b/src/gempakio/encode/gempak.py
index 6e3ebb4..28dd80d 100644
--- a/src/gempakio/encode/gempak.py
+++ b/src/gempakio/encode/gempak.py
@@ -1037,7 +1037,7 @@ class GridFile(DataManagementFile):
         rx1 = rx2 - 1
         ry2 = self.ny // 2
         ry1 = ry2 - 1
-        dellon = self.lon[ry2, rx2] - self.lon[ry1, rx1]
+        dellon = (self.lon[ry2, rx2] - self.lon[ry1, rx1] + 180) % 360 - 180
         dellat = self.lat[ry2, rx2] - self.lat[ry1, rx1]
         deltan = np.sqrt(0.5 * (dellon**2 + dellat**2)) * 2
 
-- 
2.43.0


From d953f039a7f8e18b920ad2699b120db87a2ca14f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:41:45 +0000
Subject: [PATCH 74/84] fix: return plain numbers for values of ship and
 climate reports

Values that are not packed came back as zero-dimensional arrays, unlike
those of standard reports and packed values.
---
 src/gempakio/decode/gempak.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/gempakio/decode/gempak.py b/src/gempakio/decode/gempak.py
index f3287fd..42851d9 100644
--- a/src/gempakio/decode/gempak.py
+++ b/src/gempakio/decode/gempak.py
@@ -2472,7 +2472,7 @@ class GempakSurface(GempakFile):
                         station[param] = self._decode_strip(packed_buffer[iprm])
                 else:
                     for iprm, param in enumerate(parameters['name']):
-                        station[param] = np.array(packed_buffer[iprm], dtype=np.float32)
+                        station[param] = packed_buffer[iprm]
 
             stations.append(station)
         return stations
@@ -2537,7 +2537,7 @@ class GempakSurface(GempakFile):
                         station[param] = self._decode_strip(packed_buffer[iprm])
                 else:
                     for iprm, param in enumerate(parameters['name']):
-                        station[param] = np.array(packed_buffer[iprm], dtype=np.float32)
+                        station[param] = packed_buffer[iprm]
 
             stations.append(station)
         return stations
-- 
2.43.0


From deb079bdb061f417a58a023e3fda8fefe617d6d2 Mon Sep 17 00:00:00 2001
From: x <a@b>
Date: Fri, 20 Nov 2026 01:29:31 +0000
Subject: [PATCH 75/84] fix: refuse date strings that are not in a documented
 format

---
 src/gempakio/encode/gempak.py | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/gempakio/encode/gempak.py b/src/gempakio/encode/gempak.py
index 28dd80d..9d5cb10 100644
--- a/src/gempakio/encode/gempak.py
+++ b/src/gempakio/encode/gempak.py
@@ -848,8 +848,8 @@ class GridFile(DataManagementFile):
         forecast_minute = 0
         grid_type = 0
         if isinstance(date_time, str):
-            if len(date_time) < 12:
-                raise ValueError(f'{date_time} does not match minimum format of YYYYmmddHHMM.')
+            if not re.fullmatch('[0-9]{12}([AFVGI][0-9]{0,5})?', date_time.upper()):
+                raise ValueError(f'{date_time} does not match format of YYYYmmddHHMM[Thhhmm].')
             date_time = date_time.upper()
             split_time = re.split('([AFVIG])', date_time)
             if len(split_time) == 3:
@@ -892,9 +892,9 @@ class GridFile(DataManagementFile):
         grid_type2 = 0
         if date_time2 is not None:
             if isinstance(date_time2, str):
-                if len(date_time2) < 12:
+                if not re.fullmatch('[0-9]{12}([AFVGI][0-9]{0,5})?', date_time2.upper()):
                     raise ValueError(
-                        f'{date_time2} does not match minimum format of YYYYmmddHHMM.'
+                        f'{date_time2} does not match format of YYYYmmddHHMM[Thhhmm].'
                     )
                 date_time2 = date_time2.upper()
                 split_time = re.split('([AFVIG])', date_time2)
@@ -1228,6 +1228,8 @@ class SoundingFile(DataManagementFile):
 
         if isinstance(date_time, str):
             date_time = date_time.upper()
+            if not re.fullmatch('[0-9]{12}(F[0-9]+)?', date_time):
+                raise ValueError(f'{date_time} does not match format of YYYYmmddHHMM[Fx].')
             if 'F' in date_time:
                 init, fhr = date_time.split('F')
                 self._datetime = datetime.strptime(init, '%Y%m%d%H%M') + timedelta(
@@ -1504,6 +1506,8 @@ class SurfaceFile(DataManagementFile):
 
         if isinstance(date_time, str):
             date_time = date_time.upper()
+            if not re.fullmatch('[0-9]{12}', date_time):
+                raise ValueError(f'{date_time} does not match format of YYYYmmddHHMM.')
             self._datetime = datetime.strptime(date_time, '%Y%m%d%H%M')
         elif isinstance(date_time, datetime):
             self._datetime = date_time
-- 
2.43.0


From f12c0543bb115eb9ccd050c1c40b1fa529108683 Mon Sep 17 00:00:00 2001
From: x <a@b>
Date: Fri, 20 Nov 2026 01:29:31 +0000
Subject: [PATCH 76/84] fix: refuse sounding and surface parameter names that
 do not fit the file

---
 src/gempakio/encode/gempak.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/gempakio/encode/gempak.py b/src/gempakio/encode/gempak.py
index 9d5cb10..a2c8d1f 100644
--- a/src/gempakio/encode/gempak.py
+++ b/src/gempakio/encode/gempak.py
@@ -1167,6 +1167,9 @@ class SoundingFile(DataManagementFile):
         if len(parameters) + len(self.parameter_names) > MMPARM:
             raise ValueError('Reached maximum parameter limit.')
 
+        if any(len(param) > 4 for param in parameters):
+            raise ValueError('Parameter names cannot be more than 4 characters.')
+
         for param in parameters:
             if param not in self.parameter_names:
                 self.parameter_names.append(param.upper())
@@ -1448,6 +1451,9 @@ class SurfaceFile(DataManagementFile):
         if len(parameters) + len(self.parameter_names) > MMPARM:
             raise ValueError('Reached maximum parameter limit.')
 
+        if any(len(param) > 4 for param in parameters):
+            raise ValueError('Parameter names cannot be more than 4 characters.')
+
         for param in parameters:
             if param not in self.parameter_names:
                 self.parameter_names.append(param.upper())
-- 
2.43.0


From 76c1cb26f3d626d80cbec520b11ec87517ec666b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:32:40 +0000
Subject: [PATCH 77/84] fix: identify grids and reports by the time and place a
 file can hold

Seconds and coordinates finer than a hundredth of a degree are not stored,
so two grids or stations that differ only there are the same one in the
file: adding both overwrote or duplicated the other's slot.
---
 src/gempakio/encode/gempak.py | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/src/gempakio/encode/gempak.py b/src/gempakio/encode/gempak.py
index a2c8d1f..2a4b09a 100644
--- a/src/gempakio/encode/gempak.py
+++ b/src/gempakio/encode/gempak.py
@@ -875,7 +875,7 @@ class GridFile(DataManagementFile):
                 forecast_hour = int(init_date.strftime('%H'))
                 forecast_minute = int(init_date.strftime('%M'))
         elif isinstance(date_time, datetime):
-            init_date = date_time
+            init_date = date_time.replace(second=0, microsecond=0)
             forecast_hour = int(init_date.strftime('%H'))
             forecast_minute = int(init_date.strftime('%M'))
         else:
@@ -924,7 +924,7 @@ class GridFile(DataManagementFile):
                     forecast_hour2 = int(init_date2.strftime('%H'))
                     forecast_minute2 = int(init_date2.strftime('%M'))
             elif isinstance(date_time2, datetime):
-                init_date2 = date_time2
+                init_date2 = date_time2.replace(second=0, microsecond=0)
                 forecast_hour2 = int(init_date2.strftime('%H'))
                 forecast_minute2 = int(init_date2.strftime('%M'))
             else:
@@ -1241,7 +1241,7 @@ class SoundingFile(DataManagementFile):
             else:
                 self._datetime = datetime.strptime(date_time, '%Y%m%d%H%M')
         elif isinstance(date_time, datetime):
-            self._datetime = date_time
+            self._datetime = date_time.replace(second=0, microsecond=0)
         else:
             raise TypeError('date_time must be string or datetime.')
 
@@ -1267,7 +1267,8 @@ class SoundingFile(DataManagementFile):
         new_row = (self._datetime.date(), self._datetime.time())
         row_set = OrderedSet([*self._row_set, self.make_row_header(*new_row)])
 
-        new_column = (stid, stnm, slat, slon, selv, stat, coun, std2)
+        # Coordinates are stored in hundredths of a degree
+        new_column = (stid, stnm, round(slat, 2), round(slon, 2), selv, stat, coun, std2)
         column_set = OrderedSet([*self._column_set, self.make_column_header(*new_column)])
 
         if len(row_set) + len(column_set) > MMHDRS:
@@ -1516,7 +1517,7 @@ class SurfaceFile(DataManagementFile):
                 raise ValueError(f'{date_time} does not match format of YYYYmmddHHMM.')
             self._datetime = datetime.strptime(date_time, '%Y%m%d%H%M')
         elif isinstance(date_time, datetime):
-            self._datetime = date_time
+            self._datetime = date_time.replace(second=0, microsecond=0)
         else:
             raise TypeError('date_time must be string or datetime.')
 
@@ -1544,7 +1545,8 @@ class SurfaceFile(DataManagementFile):
         new_row = (self._datetime.date(), self._datetime.time())
         row_set = OrderedSet([*self._row_set, self.make_row_header(*new_row)])
 
-        new_column = (stid, stnm, slat, slon, selv, stat, coun, std2, spri)
+        # Coordinates are stored in hundredths of a degree
+        new_column = (stid, stnm, round(slat, 2), round(slon, 2), selv, stat, coun, std2, spri)
         column_set = OrderedSet([*self._column_set, self.make_column_header(*new_column)])
 
         if len(row_set) + len(column_set) > MMHDRS:
-- 
2.43.0


From f5a05b22bc905351574c8cd3761e9605f0cd0fcd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:06:05 +0000
Subject: [PATCH 78/84] fix: give the text of a text element without its
 terminator

---
 src/gempakio/encode/vgf.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/gempakio/encode/vgf.py b/src/gempakio/encode/vgf.py
index 156b14e..3e740eb 100644
--- a/src/gempakio/encode/vgf.py
+++ b/src/gempakio/encode/vgf.py
@@ -579,7 +579,7 @@ class TextBase(Element):
             raise TypeError('text must be a string.')
         elif len(text.encode() + b'\x00') > 255:
             raise ValueError('text string exceeds 255 character limit.')
-        self._text = text + '\x00'
+        self._text = text
 
     @staticmethod
     def points_to_size(points):
@@ -1417,7 +1417,7 @@ class SpecialText(TextBase):
         self._record_size = (
             self.element_header_struct.size
             + self.special_text_struct.size
-            + len(self._text.encode())
+            + len(self._text.encode() + b'\x00')
         )
 
     @property
@@ -1504,7 +1504,7 @@ class SpecialText(TextBase):
             offset_y=self._offset_y,
         )
 
-        return header + info + self._text.encode()
+        return header + info + self._text.encode() + b'\x00'
 
 
 class SymbolBase(Element):
-- 
2.43.0


From 855bf959642a7521c22b68a4fe1cd6b3b7f93c2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:10:18 +0000
Subject: [PATCH 79/84] fix: read surface files without long identifiers or
 priorities

---
 src/gempakio/decode/gempak.py | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/src/gempakio/decode/gempak.py b/src/gempakio/decode/gempak.py
index 42851d9..bc1c8ac 100644
--- a/src/gempakio/decode/gempak.py
+++ b/src/gempakio/decode/gempak.py
@@ -2288,7 +2288,7 @@ class GempakSurface(GempakFile):
                                     irow,
                                     icol,
                                     datetime.combine(row_head.DATE, row_head.TIME),
-                                    col_head.STID + col_head.STD2,
+                                    col_head.STID + getattr(col_head, 'STD2', ''),
                                     col_head.STNM,
                                     col_head.SLAT,
                                     col_head.SLON,
@@ -2316,7 +2316,7 @@ class GempakSurface(GempakFile):
                                 irow,
                                 icol,
                                 datetime.combine(col_head.DATE, col_head.TIME),
-                                col_head.STID + col_head.STD2,
+                                col_head.STID + getattr(col_head, 'STD2', ''),
                                 col_head.STNM,
                                 col_head.SLAT,
                                 col_head.SLON,
@@ -2348,7 +2348,7 @@ class GempakSurface(GempakFile):
                                     irow,
                                     icol,
                                     datetime.combine(col_head.DATE, col_head.TIME),
-                                    row_head.STID + row_head.STD2,
+                                    row_head.STID + getattr(row_head, 'STD2', ''),
                                     row_head.STNM,
                                     row_head.SLAT,
                                     row_head.SLON,
@@ -2425,8 +2425,8 @@ class GempakSurface(GempakFile):
                 'SELV': row_head.SELV,
                 'STAT': row_head.STAT,
                 'COUN': row_head.COUN,
-                'STD2': row_head.STD2,
-                'SPRI': row_head.SPRI,
+                'STD2': getattr(row_head, 'STD2', ''),
+                'SPRI': getattr(row_head, 'SPRI', 0),
                 'DATE': col_head.DATE,
                 'TIME': col_head.TIME,
             }
@@ -2490,8 +2490,8 @@ class GempakSurface(GempakFile):
                 'SELV': col_head.SELV,
                 'STAT': col_head.STAT,
                 'COUN': col_head.COUN,
-                'STD2': col_head.STD2,
-                'SPRI': col_head.SPRI,
+                'STD2': getattr(col_head, 'STD2', ''),
+                'SPRI': getattr(col_head, 'SPRI', 0),
                 'DATE': col_head.DATE,
                 'TIME': col_head.TIME,
             }
@@ -2556,8 +2556,8 @@ class GempakSurface(GempakFile):
                 'SELV': col_head.SELV,
                 'STAT': col_head.STAT,
                 'COUN': col_head.COUN,
-                'STD2': col_head.STD2,
-                'SPRI': col_head.SPRI,
+                'STD2': getattr(col_head, 'STD2', ''),
+                'SPRI': getattr(col_head, 'SPRI', 0),
                 'DATE': row_head.DATE,
                 'TIME': row_head.TIME,
             }
-- 
2.43.0


From 8218e6ebb7884f7001869be03a605dca22df4f49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:13:34 +0000
Subject: [PATCH 80/84] fix: take a station number given as a string for one
 number

---
 src/gempakio/decode/gempak.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/gempakio/decode/gempak.py b/src/gempakio/decode/gempak.py
index bc1c8ac..49a0a20 100644
--- a/src/gempakio/decode/gempak.py
+++ b/src/gempakio/decode/gempak.py
@@ -2102,7 +2102,7 @@ class GempakSounding(GempakFile):
             station_id = [c.upper() for c in station_id]
 
         if station_number is not None:
-            if not isinstance(station_number, Iterable):
+            if not isinstance(station_number, Iterable) or isinstance(station_number, str):
                 station_number = [station_number]
             station_number = [int(sn) for sn in station_number]
 
@@ -2777,7 +2777,7 @@ class GempakSurface(GempakFile):
             station_id = [c.upper() for c in station_id]
 
         if station_number is not None:
-            if not isinstance(station_number, Iterable):
+            if not isinstance(station_number, Iterable) or isinstance(station_number, str):
                 station_number = [station_number]
             station_number = [int(sn) for sn in station_number]
 
@@ -2890,7 +2890,7 @@ class GempakSurface(GempakFile):
             station_id = [c.upper() for c in station_id]
 
         if station_number is not None:
-            if not isinstance(station_number, Iterable):
+            if not isinstance(station_number, Iterable) or isinstance(station_number, str):
                 station_number = [station_number]
             station_number = [int(sn) for sn in station_number]
 
-- 
2.43.0


From 8d4077f67400d53e87d8ffc7c259c1e988c22fed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:14:31 +0000
Subject: [PATCH 81/84] fix: refuse station priorities that are not numbers

---
 src/gempakio/encode/gempak.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/gempakio/encode/gempak.py b/src/gempakio/encode/gempak.py
index 2a4b09a..ac8cc69 100644
--- a/src/gempakio/encode/gempak.py
+++ b/src/gempakio/encode/gempak.py
@@ -1536,7 +1536,7 @@ class SurfaceFile(DataManagementFile):
             stat = str(station_info.get('state', '')).upper()[:4]
             coun = str(station_info.get('country', '')).upper()[:4]
             std2 = ''
-            spri = station_info.get('priority', 0)
+            spri = int(station_info.get('priority', 0))
 
             if len(stid) > 4:
                 std2 = stid[4:8]
-- 
2.43.0


From 39e69f760e01176d755017d8cfaeea15e03e929d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:15:40 +0000
Subject: [PATCH 82/84] fix: refuse text that does not fit its words when
 encoded

---
 src/gempakio/encode/gempak.py | 17 +++++++++++++++++
 1 file changed, 17 insertions(+)

diff --git a/src/gempakio/encode/gempak.py b/src/gempakio/encode/gempak.py
index ac8cc69..6229214 100644
--- a/src/gempakio/encode/gempak.py
+++ b/src/gempakio/encode/gempak.py
@@ -16,6 +16,7 @@ from gempakio.common import (
     _position_to_word,
     _word_to_position,
     ANLB_SIZE,
+    BYTES_PER_WORD,
     DataSource,
     DataTypes,
     FileTypes,
@@ -307,6 +308,13 @@ class DataManagementFile:
 
         return record, start
 
+    @staticmethod
+    def _check_words(*strings):
+        """Check that strings fit a word each when encoded."""
+        for string in strings:
+            if len(string.encode()) > BYTES_PER_WORD:
+                raise ValueError(f'{string} does not fit in {BYTES_PER_WORD} bytes.')
+
     @staticmethod
     def _encode_vertical_coordinate(coord):
         try:
@@ -932,6 +940,7 @@ class GridFile(DataManagementFile):
 
         pbuff = f'{parameter_name:<12s}'
         gpm1, gpm2, gpm3 = (pbuff[i : (i + 4)] for i in range(0, len(pbuff), 4))
+        self._check_words(gpm1.rstrip(), gpm2.rstrip(), gpm3.rstrip())
 
         new_column = (
             (grid_type, init_date),
@@ -1170,6 +1179,8 @@ class SoundingFile(DataManagementFile):
         if any(len(param) > 4 for param in parameters):
             raise ValueError('Parameter names cannot be more than 4 characters.')
 
+        self._check_words(*(param.upper() for param in parameters))
+
         for param in parameters:
             if param not in self.parameter_names:
                 self.parameter_names.append(param.upper())
@@ -1264,6 +1275,8 @@ class SoundingFile(DataManagementFile):
                 std2 = stid[4:8]
                 stid = stid[:4]
 
+            self._check_words(stid, stat, coun, std2)
+
         new_row = (self._datetime.date(), self._datetime.time())
         row_set = OrderedSet([*self._row_set, self.make_row_header(*new_row)])
 
@@ -1455,6 +1468,8 @@ class SurfaceFile(DataManagementFile):
         if any(len(param) > 4 for param in parameters):
             raise ValueError('Parameter names cannot be more than 4 characters.')
 
+        self._check_words(*(param.upper() for param in parameters))
+
         for param in parameters:
             if param not in self.parameter_names:
                 self.parameter_names.append(param.upper())
@@ -1542,6 +1557,8 @@ class SurfaceFile(DataManagementFile):
                 std2 = stid[4:8]
                 stid = stid[:4]
 
+            self._check_words(stid, stat, coun, std2)
+
         new_row = (self._datetime.date(), self._datetime.time())
         row_set = OrderedSet([*self._row_set, self.make_row_header(*new_row)])
 
-- 
2.43.0


From 513bb0208c78e8d609ce92b6d8a1caa1534a218a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:25:53 +0000
Subject: [PATCH 83/84] fix: read VGF texts holding bytes that are not UTF-8

---
 src/gempakio/decode/vgf.py | 16 +++++++++-------
 1 file changed, 9 insertions(+), 7 deletions(-)

diff --git a/src/gempakio/decode/vgf.py b/src/gempakio/decode/vgf.py
index f6e3d09..c4beedc 100644
--- a/src/gempakio/decode/vgf.py
+++ b/src/gempakio/decode/vgf.py
@@ -3441,7 +3441,7 @@ class VectorGraphicFile:
         list_struct = NamedStruct(list_info, self.prefmt, 'ListInfo')
         list_meta = self._buffer.read_struct(list_struct)
         list_items = [
-            self._buffer.read(LIST_MEMBER_SIZE).split(b'\x00')[0].decode()
+            self._buffer.read(LIST_MEMBER_SIZE).split(b'\x00')[0].decode(errors='ignore')
             for _n in range(list_meta.number_items)
         ]
         list_item_blank_size = (MAX_POINTS - list_meta.number_items) * LIST_MEMBER_SIZE
@@ -3485,7 +3485,7 @@ class VectorGraphicFile:
         text = self._buffer.read_struct(text_struct)
 
         text_length = header_struct.record_size - VGF_HEADER_SIZE - text_struct.size
-        text_string = self._buffer.read(text_length).split(b'\x00')[0].decode()
+        text_string = self._buffer.read(text_length).split(b'\x00')[0].decode(errors='ignore')
         clean_text = text_string.replace('$$', '\n').strip()
 
         self._elements.append(
@@ -3528,7 +3528,7 @@ class VectorGraphicFile:
         text = self._buffer.read_struct(text_struct)
 
         text_length = header_struct.record_size - VGF_HEADER_SIZE - text_struct.size
-        text_string = self._buffer.read(text_length).split(b'\x00')[0].decode()
+        text_string = self._buffer.read(text_length).split(b'\x00')[0].decode(errors='ignore')
         clean_text = text_string.replace('$$', '\n').strip()
 
         self._elements.append(
@@ -3628,7 +3628,7 @@ class VectorGraphicFile:
             track_font_size = 1.0
 
         times = [
-            self._buffer.read(TRACK_DT_SIZE).split(b'\x00')[0].decode()
+            self._buffer.read(TRACK_DT_SIZE).split(b'\x00')[0].decode(errors='ignore')
             for _n in range(track.total_points)
         ]
 
@@ -3838,7 +3838,7 @@ class VectorGraphicFile:
             NamedStruct(ccf_text_info, self.prefmt, 'CCFTextInfo')
         )
 
-        text_layout = self._buffer.read(256).split(b'\x00')[0].decode()
+        text_layout = self._buffer.read(256).split(b'\x00')[0].decode(errors='ignore')
 
         lat, lon = self._get_latlon(ccf.number_points)
 
@@ -4002,7 +4002,7 @@ class VectorGraphicFile:
             NamedStruct(special_text_info, self.prefmt, 'SpecialTextInfo')
         )
 
-        text_string = self._buffer.read(255).split(b'\x00')[0].decode()
+        text_string = self._buffer.read(255).split(b'\x00')[0].decode(errors='ignore')
         self._buffer.skip(1)  # skip byte for struct alignment
 
         lat, lon = self._get_latlon(ash.number_points)
@@ -4212,7 +4212,9 @@ class VectorGraphicFile:
     def _decode_tca(self, header_struct):
         """Decode tropical cyclone advisory element."""
         tca_string_length = header_struct.record_size - VGF_HEADER_SIZE
-        tca_string = self._buffer.read(tca_string_length).split(b'\x00')[0].decode()
+        tca_string = (
+            self._buffer.read(tca_string_length).split(b'\x00')[0].decode(errors='ignore')
+        )
 
         storm_number = int(re.search(r'(?<=<tca_stormNum>)(.+?)(?=<)', tca_string).group())
 
-- 
2.43.0


From c8ae7e11cf3b6353995eaf665691f757fbc3c9a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:43:19 +0000
Subject: [PATCH 84/84] fix: write the stroke of kinked lines given as a float

---
 src/gempakio/encode/vgf.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/gempakio/encode/vgf.py b/src/gempakio/encode/vgf.py
index 3e740eb..d987345 100644
--- a/src/gempakio/encode/vgf.py
+++ b/src/gempakio/encode/vgf.py
@@ -1199,6 +1199,7 @@ class SpecialLine(LineBase):
         )
 
         if self._line_type in [24, 25]:
+            stroke = _integer(stroke)
             if stroke not in range(25, 76):
                 raise ValueError('stroke multiplier must be in range [25, 75].')
             else:
-- 
2.43.0

