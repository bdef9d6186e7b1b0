From 551ecce73dd79bc075d36ded154af821aeaebd6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:07:01 +0000
Subject: [PATCH 01/26] fix: pairwise() of an empty series is empty instead of
 raising RuntimeError

---
 segpy/util.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/segpy/util.py b/segpy/util.py
index 6bec669..1f9bd5f 100644
--- a/segpy/util.py
+++ b/segpy/util.py
@@ -24,7 +24,7 @@ UNSET = object()
 
 def pairwise(iterable):
     a, b = tee(iterable)
-    next(b)
+    next(b, None)
     yield from zip(a, b)
 
 
-- 
2.43.0


From 1e62f10ec36df3e12e0088869d46e05e0c7a17a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:07:01 +0000
Subject: [PATCH 02/26] fix: make_sorted_distinct_sequence() consumed one-shot
 iterables twice when preserving sense

---
 segpy/util.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/segpy/util.py b/segpy/util.py
index 1f9bd5f..0c6cbdf 100644
--- a/segpy/util.py
+++ b/segpy/util.py
@@ -397,9 +397,9 @@ def make_sorted_distinct_sequence(iterable, sense=SortSense.ascending):
     elif sense is None:
         items = list(iterable)
         if is_sorted(items, reverse=True, distinct=True):
-            sorted_seq = ReversedSequenceView(SortedFrozenSet(iterable))
+            sorted_seq = ReversedSequenceView(SortedFrozenSet(items))
         else:
-            sorted_seq = SortedFrozenSet(iterable)
+            sorted_seq = SortedFrozenSet(items)
     else:
         raise TypeError("sense {} is neither a SortSense nor None".format(sense))
 
-- 
2.43.0


From 8931df141a563f89f666fbaed244f97e430fd69d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:07:01 +0000
Subject: [PATCH 03/26] fix: unpack fields by name so formats declared out of
 offset order are not scrambled

---
 segpy/packer.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/segpy/packer.py b/segpy/packer.py
index 5997788..af83918 100644
--- a/segpy/packer.py
+++ b/segpy/packer.py
@@ -221,7 +221,8 @@ class BijectiveHeaderPacker(HeaderPacker):
         return self._structure.pack(*values)
 
     def _unpack(self, values):
-        return self._header_format_class(*values)
+        return self._header_format_class(**{names[0]: value
+                                            for names, value in zip(self._field_name_allocations, values)})
 
 
 class SurjectiveHeaderPacker(HeaderPacker):
-- 
2.43.0


From 36ee421e35d632d3b4472d064d8142ce8277bc70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:07:01 +0000
Subject: [PATCH 04/26] fix: pickling a header keeps the fields inherited from
 its base formats

---
 segpy/header.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/segpy/header.py b/segpy/header.py
index 0349392..dc9bdb2 100644
--- a/segpy/header.py
+++ b/segpy/header.py
@@ -75,7 +75,7 @@ class BaseHeader:
     def __getstate__(self):
         state = self.__dict__.copy()
         state['__version__'] = __version__
-        state['_all_attributes'] = OrderedDict((name, getattr(self, name)) for name in self._ordered_field_names)
+        state['_all_attributes'] = OrderedDict((name, getattr(self, name)) for name in self.ordered_field_names())
         return state
 
     def __setstate__(self, state):
-- 
2.43.0


From 7ce051f6aaf69baf7bb82db81d0761b8c179b192 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:07:01 +0000
Subject: [PATCH 05/26] fix: a cache directory which cannot be created does not
 prevent reading

---
 segpy/reader.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/segpy/reader.py b/segpy/reader.py
index f309491..54b27c0 100644
--- a/segpy/reader.py
+++ b/segpy/reader.py
@@ -196,8 +196,8 @@ def _save_reader_to_cache(reader, cache_file_path):
         cache_file_path: A Path instance giving the path to the pickle file location.
     """
     cache_path = cache_file_path.parent
-    os.makedirs(str(cache_path), exist_ok=True)
     try:
+        os.makedirs(str(cache_path), exist_ok=True)
         with cache_file_path.open('wb') as cache_file:
             try:
                 pickle.dump(reader, cache_file)
-- 
2.43.0


From 736f2b4e2f4bbb35f6e6474150bc39676b0a2a66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:07:01 +0000
Subject: [PATCH 06/26] fix: catalog_traces() progress stays between zero and
 one

---
 segpy/toolkit.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/segpy/toolkit.py b/segpy/toolkit.py
index b7714ae..d00d597 100644
--- a/segpy/toolkit.py
+++ b/segpy/toolkit.py
@@ -388,7 +388,7 @@ def catalog_traces(fh, bps, trace_header_format=TraceHeaderRev1, endian='>', pro
     cdp_catalog_builder = CatalogBuilder()
 
     for trace_number in count():
-        progress_callback(_READ_PROPORTION * pos_begin / length)
+        progress_callback(_READ_PROPORTION * min(pos_begin, length) / length)
         fh.seek(pos_begin)
         data = fh.read(TRACE_HEADER_NUM_BYTES)
         if len(data) < TRACE_HEADER_NUM_BYTES:
@@ -410,13 +410,13 @@ def catalog_traces(fh, bps, trace_header_format=TraceHeaderRev1, endian='>', pro
     progress_callback(_READ_PROPORTION)
 
     trace_offset_catalog = trace_offset_catalog_builder.create()
-    progress_callback(_READ_PROPORTION + (_READ_PROPORTION / 4))
+    progress_callback(_READ_PROPORTION + (1 - _READ_PROPORTION) / 4)
 
     trace_length_catalog = trace_length_catalog_builder.create()
-    progress_callback(_READ_PROPORTION + (_READ_PROPORTION / 2))
+    progress_callback(_READ_PROPORTION + (1 - _READ_PROPORTION) / 2)
 
     cdp_catalog = cdp_catalog_builder.create()
-    progress_callback(_READ_PROPORTION + (_READ_PROPORTION * 3 / 4))
+    progress_callback(_READ_PROPORTION + (1 - _READ_PROPORTION) * 3 / 4)
 
     line_catalog = line_catalog_builder.create()
 
-- 
2.43.0


From 916a8f539a71227ea05cd3e646863e14909db9bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:07:01 +0000
Subject: [PATCH 07/26] fix: equality of IBM floats compares the exact values
 of unnormalised numbers and zeros

---
 segpy/ibm_float.py | 33 +--------------------------------
 1 file changed, 1 insertion(+), 32 deletions(-)

diff --git a/segpy/ibm_float.py b/segpy/ibm_float.py
index 7612c8d..11861d8 100644
--- a/segpy/ibm_float.py
+++ b/segpy/ibm_float.py
@@ -324,38 +324,7 @@ class IBMFloat(Real):
         if lhs._data == rhs._data:
             return True
 
-        lhs_sign = lhs.signbit
-        rhs_sign = rhs.signbit
-
-        if lhs_sign != rhs_sign:
-            return False
-
-        nlhs = lhs.try_normalize()
-        nrhs = rhs.try_normalize()
-
-        if not (nlhs.is_subnormal() or nrhs.is_subnormal()):
-            # Both of the numbers are normalised
-            return nlhs._data == nrhs._data
-
-        # Either or both of the numbers are subnormal
-        lhs_exp16 = nlhs.exp16
-        rhs_exp16 = nrhs.exp16
-
-        lhs_mantissa = nlhs.int_mantissa
-        rhs_mantissa = nrhs.int_mantissa
-
-        if lhs_exp16 < rhs_exp16:
-            delta_exp16 = rhs_exp16 - lhs_exp16
-            lhs_mantissa >>= 4 * delta_exp16
-            lhs_exp16 += delta_exp16
-
-        if lhs_exp16 > rhs_exp16:
-            delta_exp16 = lhs_exp16 - rhs_exp16
-            rhs_mantissa >>= 4 * delta_exp16
-            rhs_exp16 += delta_exp16
-
-        assert lhs_exp16 == rhs_exp16
-        return lhs_mantissa == rhs_mantissa
+        return lhs.as_integer_ratio() == rhs.as_integer_ratio()
 
     @property
     def exp16(self):
-- 
2.43.0


From be923c9902de68689c5fd1606a2ec94b9db773d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:07:01 +0000
Subject: [PATCH 08/26] fix: blank lines are preserved in extended textual
 headers

---
 segpy/toolkit.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/segpy/toolkit.py b/segpy/toolkit.py
index d00d597..eba6b64 100644
--- a/segpy/toolkit.py
+++ b/segpy/toolkit.py
@@ -723,7 +723,7 @@ def format_extended_textual_header(text, encoding, include_text_stop=False):
     lines = []
     for original_line in original_lines:
         padded_lines = (pad_and_terminate_header_line(original_line[i:i+width], width)
-                        for i in range(0, len(original_line), width))
+                        for i in range(0, max(len(original_line), 1), width))
         lines.extend(padded_lines)
 
     pages = list(batched(lines, 40, pad_and_terminate_header_line('', width)))
-- 
2.43.0


From 6f12d70951563deeb032c51c66f0966ec8942d96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:14:40 +0000
Subject: [PATCH 09/26] fix: a cached reader reads the file it was asked to
 read, not the file it was pickled with

---
 segpy/reader.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/segpy/reader.py b/segpy/reader.py
index 54b27c0..51ebb75 100644
--- a/segpy/reader.py
+++ b/segpy/reader.py
@@ -147,6 +147,8 @@ def create_reader(
         cache_file_path = _locate_cache_file(seg_y_path, cache_directory, sha1)
         if cache_file_path is not None:
             reader = _load_reader_from_cache(cache_file_path, seg_y_path)
+            if reader is not None:
+                reader._rebind(fh)
 
     if reader is None:
         reader = _make_reader(fh, encoding, binary_reel_header_format, trace_header_format,
@@ -419,6 +421,11 @@ class SegYReader(Dataset):
 
         self.__dict__.update(state)
 
+    def _rebind(self, fh):
+        """Read from the given file-like object instead of the one opened when unpickling."""
+        self._fh.close()
+        self._fh = fh
+
     def trace_indexes(self):
         """An iterator over zero-based trace_samples indexes.
 
-- 
2.43.0


From d0d056b0cdddad4d7f08c5106614f33a3f7de94e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:14:40 +0000
Subject: [PATCH 10/26] fix: the reader cache distinguishes modified header
 formats of the same name

---
 segpy/reader.py | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/segpy/reader.py b/segpy/reader.py
index 51ebb75..c5e3e3e 100644
--- a/segpy/reader.py
+++ b/segpy/reader.py
@@ -142,7 +142,9 @@ def create_reader(
     cache_file_path = None
 
     if cache_directory is not None:
-        sha1 = hash_for_file(fh, encoding, binary_reel_header_format, trace_header_format, endian)
+        sha1 = hash_for_file(fh, encoding, binary_reel_header_format, trace_header_format, endian,
+                             _header_format_layout(binary_reel_header_format),
+                             _header_format_layout(trace_header_format))
         seg_y_path = filename_from_handle(fh)
         cache_file_path = _locate_cache_file(seg_y_path, cache_directory, sha1)
         if cache_file_path is not None:
@@ -161,6 +163,13 @@ def create_reader(
     return reader
 
 
+def _header_format_layout(header_format):
+    """The fields of a header format, so cached readers aren't reused when a format has been modified."""
+    return (getattr(header_format, 'START_OFFSET_IN_BYTES', None),
+            getattr(header_format, 'LENGTH_IN_BYTES', None),
+            [getattr(header_format, name) for name in header_format.ordered_field_names()])
+
+
 def _locate_cache_file(seg_y_path, cache_directory, sha1):
     """Determine the location of the cache file.
 
-- 
2.43.0


From 839f371ba05e60f5591d253d603bdb78b80402c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:14:40 +0000
Subject: [PATCH 11/26] fix: sub-formats take attributes from the most derived
 parent format

---
 segpy/header.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/segpy/header.py b/segpy/header.py
index dc9bdb2..438d16d 100644
--- a/segpy/header.py
+++ b/segpy/header.py
@@ -185,7 +185,7 @@ class SubFormatMeta(FormatMeta):
 
         # Copy other non-field class attributes
         non_field_attributes = list(collect_attributes(parent_format, BaseHeader, is_public_non_field_attr))
-        namespace.update((name, value) for _, name, value in non_field_attributes)
+        namespace.update((name, value) for _, name, value in reversed(non_field_attributes))
 
         # Add a reference back to the original format
         namespace['_parent_format'] = parent_format
-- 
2.43.0


From 018c5fd0decc4fd7fefc258adc4184b926479df7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:14:40 +0000
Subject: [PATCH 12/26] fix: files can be read with trace header formats
 without line numbers such as TraceHeaderRev0

---
 segpy/toolkit.py | 17 +++++++++--------
 1 file changed, 9 insertions(+), 8 deletions(-)

diff --git a/segpy/toolkit.py b/segpy/toolkit.py
index eba6b64..ca43c4a 100644
--- a/segpy/toolkit.py
+++ b/segpy/toolkit.py
@@ -365,15 +365,15 @@ def catalog_traces(fh, bps, trace_header_format=TraceHeaderRev1, endian='>', pro
     if not callable(progress_callback):
         raise TypeError("catalog_traces(): progress callback must be callable")
 
+    # Formats such as SEG-Y revision 0 don't define the inline and crossline numbers
+    has_lines = hasattr(trace_header_format, 'inline_number') and hasattr(trace_header_format, 'crossline_number')
+
     class CatalogSubFormat(metaclass=SubFormatMeta,
                            parent_format=trace_header_format,
                            parent_field_names=(
-                               'file_sequence_num',
                                'ensemble_num',
                                'num_samples',
-                               'inline_number',
-                               'crossline_number',
-                           )):
+                           ) + (('inline_number', 'crossline_number') if has_lines else ())):
         pass
 
     trace_header_packer = make_header_packer(CatalogSubFormat, endian)
@@ -400,9 +400,10 @@ def catalog_traces(fh, bps, trace_header_format=TraceHeaderRev1, endian='>', pro
         samples_bytes = num_samples * bps
         trace_offset_catalog_builder.add(trace_number, pos_begin)
         # Should we check the data actually exists?
-        line_catalog_builder.add((trace_header.inline_number,
-                                  trace_header.crossline_number),
-                                 trace_number)
+        if has_lines:
+            line_catalog_builder.add((trace_header.inline_number,
+                                      trace_header.crossline_number),
+                                     trace_number)
         cdp_catalog_builder.add(trace_header.ensemble_num, trace_number)
         pos_end = pos_begin + TRACE_HEADER_NUM_BYTES + samples_bytes
         pos_begin = pos_end
@@ -418,7 +419,7 @@ def catalog_traces(fh, bps, trace_header_format=TraceHeaderRev1, endian='>', pro
     cdp_catalog = cdp_catalog_builder.create()
     progress_callback(_READ_PROPORTION + (1 - _READ_PROPORTION) * 3 / 4)
 
-    line_catalog = line_catalog_builder.create()
+    line_catalog = line_catalog_builder.create() if has_lines else None
 
     progress_callback(1)
 
-- 
2.43.0


From a6f2099e001f9462008453434188ee5563fcf324 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:15:20 +0000
Subject: [PATCH 13/26] fix: subsets selected with single item or empty ranges
 are recognised as subsets

---
 segpy-ext/segpy_numpy/segpy_numpy/util.py | 11 ++++-------
 1 file changed, 4 insertions(+), 7 deletions(-)

diff --git a/segpy-ext/segpy_numpy/segpy_numpy/util.py b/segpy-ext/segpy_numpy/segpy_numpy/util.py
index 450fd32..7199efd 100644
--- a/segpy-ext/segpy_numpy/segpy_numpy/util.py
+++ b/segpy-ext/segpy_numpy/segpy_numpy/util.py
@@ -4,14 +4,11 @@ from segpy.util import make_sorted_distinct_sequence
 def is_range_superset_of_range(superset_range, subset_range):
     """Are all the elements of subset_range elements of superset_range?
     """
-    if subset_range.start not in superset_range:
+    if len(subset_range) == 0:
+        return True
+    if subset_range[0] not in superset_range or subset_range[-1] not in superset_range:
         return False
-    if subset_range.step % superset_range.step != 0:
-        return False
-    if subset_range[-1] > superset_range[-1]:
-        return False
-    assert set(subset_range).issubset(set(superset_range))
-    return True
+    return len(subset_range) == 1 or subset_range.step % superset_range.step == 0
 
 
 def is_superset(superset, subset):
-- 
2.43.0


From ed13777d7fb32f01a58d9cccb720870790aaa722 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:15:20 +0000
Subject: [PATCH 14/26] fix: non-negative integer header fields can be
 extracted as arrays

---
 segpy-ext/segpy_numpy/segpy_numpy/dtypes.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/segpy-ext/segpy_numpy/segpy_numpy/dtypes.py b/segpy-ext/segpy_numpy/segpy_numpy/dtypes.py
index 74431f3..50bbb5c 100644
--- a/segpy-ext/segpy_numpy/segpy_numpy/dtypes.py
+++ b/segpy-ext/segpy_numpy/segpy_numpy/dtypes.py
@@ -4,9 +4,12 @@ import numpy
 
 NUMPY_DTYPES = {'ibm':     numpy.dtype('f4'),
                 'int32':   numpy.dtype('i4'),
+                'nnint32': numpy.dtype('u4'),
                 'int16':   numpy.dtype('i2'),
+                'nnint16': numpy.dtype('u2'),
                 'float32': numpy.dtype('f4'),
-                'int8':    numpy.dtype('i1')}
+                'int8':    numpy.dtype('i1'),
+                'nnint8':  numpy.dtype('u1')}
 
 
 def make_dtype(data_sample_format): # TODO: What is the correct name for this arg?
-- 
2.43.0


From 8d6fa4ddb3511c133fc998a864ad4afa65c13b72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:15:20 +0000
Subject: [PATCH 15/26] fix: array extraction from surveys with traces of
 different lengths

---
 segpy-ext/segpy_numpy/segpy_numpy/extract.py | 31 +++++++++++---------
 1 file changed, 17 insertions(+), 14 deletions(-)

diff --git a/segpy-ext/segpy_numpy/segpy_numpy/extract.py b/segpy-ext/segpy_numpy/segpy_numpy/extract.py
index 9baacc4..557f07e 100644
--- a/segpy-ext/segpy_numpy/segpy_numpy/extract.py
+++ b/segpy-ext/segpy_numpy/segpy_numpy/extract.py
@@ -234,7 +234,7 @@ def extract_inline_3d(reader_3d, inline_number, xline_numbers=None, sample_numbe
     dtype = make_dtype(reader_3d.data_sample_format)
     array = _make_array(shape, dtype, null)
 
-    if isinstance(sample_numbers, range):
+    if isinstance(sample_numbers, range) and sample_numbers.step > 0:
         _populate_inline_array_over_sample_range(reader_3d, inline_number, xline_numbers, sample_numbers, array)
     else:
         _populate_inline_array_numbered_samples(reader_3d, inline_number, xline_numbers, sample_numbers, array)
@@ -248,11 +248,10 @@ def _populate_inline_array_numbered_samples(reader_3d, inline_number, xline_numb
         if reader_3d.has_trace_index(inline_xline_number):
             trace_index = reader_3d.trace_index(inline_xline_number)
             num_trace_samples = reader_3d.num_trace_samples(trace_index)
-            trace_sample_start = sample_numbers[0]
-            trace_sample_stop = min(sample_numbers[-1] + 1, num_trace_samples)
-            trace_samples = reader_3d.trace_samples(trace_index, start=trace_sample_start, stop=trace_sample_stop)
+            trace_samples = reader_3d.trace_samples(trace_index)
             for sample_index, sample_number in enumerate(sample_numbers):
-                array[xline_index, sample_index] = trace_samples[sample_number - trace_sample_start]
+                if sample_number < num_trace_samples:
+                    array[xline_index, sample_index] = trace_samples[sample_number]
 
 
 def _populate_inline_array_over_sample_range(reader_3d, inline_number, xline_numbers, sample_numbers, array):
@@ -264,7 +263,8 @@ def _populate_inline_array_over_sample_range(reader_3d, inline_number, xline_num
             trace_sample_stop = min(sample_numbers.stop, num_trace_samples)
             trace_samples = reader_3d.trace_samples(trace_index)
             source_slice = slice(sample_numbers.start, trace_sample_stop, sample_numbers.step)
-            array[xline_index, :] = trace_samples[source_slice]
+            available_samples = trace_samples[source_slice]
+            array[xline_index, :len(available_samples)] = available_samples
 
 
 def extract_xline_3d(reader_3d, xline_number, inline_numbers=None, sample_numbers=None, null=None):
@@ -323,7 +323,7 @@ def extract_xline_3d(reader_3d, xline_number, inline_numbers=None, sample_number
     dtype = make_dtype(reader_3d.data_sample_format)
     array = _make_array(shape, dtype, null)
 
-    if isinstance(sample_numbers, range):
+    if isinstance(sample_numbers, range) and sample_numbers.step > 0:
         _populate_xline_array_over_sample_range(reader_3d, xline_number, inline_numbers, sample_numbers, array)
     else:
         _populate_xline_array_numbered_samples(reader_3d, xline_number, inline_numbers, sample_numbers, array)
@@ -337,11 +337,10 @@ def _populate_xline_array_numbered_samples(reader_3d, xline_number, inline_numbe
         if reader_3d.has_trace_index(inline_xline_number):
             trace_index = reader_3d.trace_index(inline_xline_number)
             num_trace_samples = reader_3d.num_trace_samples(trace_index)
-            trace_sample_start = sample_numbers[0]
-            trace_sample_stop = min(sample_numbers[-1] + 1, num_trace_samples)
-            trace_samples = reader_3d.trace_samples(trace_index, start=trace_sample_start, stop=trace_sample_stop)
+            trace_samples = reader_3d.trace_samples(trace_index)
             for sample_index, sample_number in enumerate(sample_numbers):
-                array[inline_index, sample_index] = trace_samples[sample_number - trace_sample_start]
+                if sample_number < num_trace_samples:
+                    array[inline_index, sample_index] = trace_samples[sample_number]
 
 
 def _populate_xline_array_over_sample_range(reader_3d, xline_number, inline_numbers, sample_numbers, array):
@@ -353,7 +352,8 @@ def _populate_xline_array_over_sample_range(reader_3d, xline_number, inline_numb
             trace_sample_stop = min(sample_numbers.stop, num_trace_samples)
             trace_samples = reader_3d.trace_samples(trace_index)
             source_slice = slice(sample_numbers.start, trace_sample_stop, sample_numbers.step)
-            array[inline_index, :] = trace_samples[source_slice]
+            available_samples = trace_samples[source_slice]
+            array[inline_index, :len(available_samples)] = available_samples
 
 
 def extract_timeslice_3d(reader_3d, sample_number, inline_numbers=None, xline_numbers=None, null=None):
@@ -413,14 +413,17 @@ def extract_timeslice_3d(reader_3d, sample_number, inline_numbers=None, xline_nu
     dtype = make_dtype(reader_3d.data_sample_format)
     array = _make_array(shape, dtype, null)
     sample_number_stop = sample_number + 1
+    if not (0 <= sample_number < reader_3d.max_num_trace_samples()):
+        raise ValueError("Sample number {} not present in {}".format(sample_number, reader_3d))
 
     for inline_index, inline_number in enumerate(inline_numbers):
         for xline_index, xline_number in enumerate(xline_numbers):
             inline_xline_number = (inline_number, xline_number)
             if reader_3d.has_trace_index(inline_xline_number):
                 trace_index = reader_3d.trace_index((inline_number, xline_number))
-                trace_samples = reader_3d.trace_samples(trace_index, start=sample_number, stop=sample_number_stop)
-                array[inline_index, xline_index] = trace_samples[0]
+                if sample_number < reader_3d.num_trace_samples(trace_index):
+                    trace_samples = reader_3d.trace_samples(trace_index, start=sample_number, stop=sample_number_stop)
+                    array[inline_index, xline_index] = trace_samples[0]
     return array
 
 
-- 
2.43.0


From 29dff7f968a89602727fc9e2fb04247d794f8a78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:15:20 +0000
Subject: [PATCH 16/26] fix: extract_trace() identifies traces by trace index
 for readers of any dimensionality

---
 segpy-ext/segpy_numpy/segpy_numpy/extract.py | 14 ++++++--------
 1 file changed, 6 insertions(+), 8 deletions(-)

diff --git a/segpy-ext/segpy_numpy/segpy_numpy/extract.py b/segpy-ext/segpy_numpy/segpy_numpy/extract.py
index 557f07e..b72ba5a 100644
--- a/segpy-ext/segpy_numpy/segpy_numpy/extract.py
+++ b/segpy-ext/segpy_numpy/segpy_numpy/extract.py
@@ -145,7 +145,7 @@ def extract_trace(reader, trace_index, sample_numbers):
     Args:
         reader: A SegYReader3D object.
 
-        trace_index: The index of the trace to be extracted.
+        trace_index: The zero-based index of the trace to be extracted.
 
         sample_numbers: The sample numbers within each trace at which samples are to be extracted.
             This argument can be specified in three ways:
@@ -165,15 +165,13 @@ def extract_trace(reader, trace_index, sample_numbers):
     Returns:
         A one-dimensional array.
     """
-    if not reader.has_trace_index(trace_index):
-        raise ValueError("Inline number {} not present in {}".format(trace_index, reader))
+    if not (0 <= trace_index < reader.num_traces()):
+        raise ValueError("Trace index {} not present in {}".format(trace_index, reader))
 
-    sample_numbers = ensure_superset(range(0, reader.max_num_trace_samples()), sample_numbers)
+    sample_numbers = ensure_superset(range(0, reader.num_trace_samples(trace_index)), sample_numbers)
 
-    trace_sample_start = sample_numbers[0]
-    trace_sample_stop = min(sample_numbers[-1] + 1, reader.num_trace_samples(trace_index))
-    trace_samples = reader.trace_samples(trace_index, start=trace_sample_start, stop=trace_sample_stop)
-    arr = np.fromiter((trace_samples[sample_number - trace_sample_start] for sample_number in sample_numbers),
+    trace_samples = reader.trace_samples(trace_index)
+    arr = np.fromiter((trace_samples[sample_number] for sample_number in sample_numbers),
                       make_dtype(reader.data_sample_format))
     return arr
 
-- 
2.43.0


From 54f7164bb44f54a47ecc3303af6b6b5df8f96ca5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:40:21 +0000
Subject: [PATCH 17/26] fix: refuse fields declared before the start of their
 record

Such fields were packed at the wrong position, into a record longer than
its declared length.
---
 segpy/packer.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/segpy/packer.py b/segpy/packer.py
index af83918..48b2b2e 100644
--- a/segpy/packer.py
+++ b/segpy/packer.py
@@ -52,6 +52,7 @@ def compile_struct(header_format_class, start_offset=0, length_in_bytes=None, en
         ValueError: If header_format_class contains fields which overlap but are not exactly coincident.
         ValueError: If header_format_class contains coincident fields of different types.
         ValueError: If header_format_class described a format longer than length_in_bytes.
+        ValueError: If header_format_class contains fields which start before start_offset.
 
     """
     if start_offset < 0:
@@ -67,6 +68,11 @@ def compile_struct(header_format_class, start_offset=0, length_in_bytes=None, en
     if len(sorted_fields) < 1:
         raise TypeError("Header format class {!r} defines no fields".format(header_format_class.__name__))
 
+    first_field = sorted_fields[0]
+    if first_field.offset < start_offset:
+        raise ValueError("Field {!r} at offset {} of {} is before the start of the header at offset {}"
+                         .format(first_field.name, first_field.offset, header_format_class.__name__, start_offset))
+
     if len(sorted_fields) > 1:
         for a, b in pairwise(sorted_fields):
             if intervals_partially_overlap(range(a.offset, a.offset + size_of(a.value_type)),
-- 
2.43.0


From 826b8f169cb6bf65e16d7e2639b07ea5b42f909b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:40:21 +0000
Subject: [PATCH 18/26] fix: fields of every base of a header format take part

With several bases only the fields of the first were found, so the others
were neither packed nor unpacked; a base without fields raised AttributeError.
---
 segpy/header.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/segpy/header.py b/segpy/header.py
index 438d16d..ec1421d 100644
--- a/segpy/header.py
+++ b/segpy/header.py
@@ -3,7 +3,7 @@ from weakref import WeakKeyDictionary
 from itertools import chain
 
 from segpy import __version__
-from segpy.util import underscores_to_camelcase, super_class, collect_attributes
+from segpy.util import underscores_to_camelcase, collect_attributes
 
 
 class BaseHeader:
@@ -51,9 +51,8 @@ class BaseHeader:
             An tuple containing the field names in order.
         """
 
-        if cls is BaseHeader:
-            return cls._ordered_field_names
-        return super_class(cls).ordered_field_names() + cls._ordered_field_names
+        return tuple(chain.from_iterable(vars(base).get('_ordered_field_names', ())
+                                         for base in reversed(cls.__mro__)))
 
     def copy(self, **updates):
         fields = {name: getattr(self, name) for name in self.ordered_field_names()}
-- 
2.43.0


From 57d5403fef387dd68567a7634bfdb80a99f94f93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:45:50 +0000
Subject: [PATCH 19/26] fix: header construction refuses keyword names which
 are not fields

---
 segpy/header.py | 9 +++------
 1 file changed, 3 insertions(+), 6 deletions(-)

diff --git a/segpy/header.py b/segpy/header.py
index ec1421d..7e9b303 100644
--- a/segpy/header.py
+++ b/segpy/header.py
@@ -31,13 +31,10 @@ class BaseHeader:
             setattr(self, keyword, arg)
 
         for keyword, arg in kwargs.items():
-            try:
-                getattr(self, keyword)
-            except AttributeError as e:
+            if not isinstance(getattr(type(self), keyword, None), NamedField):
                 raise TypeError("{!r} is not a recognised field name for {!r}"
-                                .format(keyword, self.__class__.__name__)) from e
-            else:
-                setattr(self, keyword, arg)
+                                .format(keyword, self.__class__.__name__))
+            setattr(self, keyword, arg)
 
     _ordered_field_names = tuple()
 
-- 
2.43.0


From 3bb53ea5c618d82308cbf96c853cb116e7a75da8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:05:12 +0000
Subject: [PATCH 20/26] fix: files named by a descriptor or bytes can be opened
 with a cache

---
 segpy/util.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/segpy/util.py b/segpy/util.py
index 0c6cbdf..b015f9e 100644
--- a/segpy/util.py
+++ b/segpy/util.py
@@ -265,9 +265,14 @@ def filename_from_handle(fh):
         be determined.
     """
     try:
-        return fh.name
+        name = fh.name
     except AttributeError:
         return UNKNOWN_FILENAME
+    try:
+        return os.fsdecode(name)
+    except TypeError:
+        # Unnamed files can have e.g. an integer file descriptor for a name
+        return UNKNOWN_FILENAME
 
 
 def now_millis():
-- 
2.43.0


From 9f88031a850a6dee9feb1c80306168ebb02cf7be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:05:12 +0000
Subject: [PATCH 21/26] fix: a cache entry which cannot be read does not
 prevent opening

---
 segpy/reader.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/segpy/reader.py b/segpy/reader.py
index c5e3e3e..e5cb2aa 100644
--- a/segpy/reader.py
+++ b/segpy/reader.py
@@ -237,10 +237,15 @@ def _load_reader_from_cache(cache_file_path, seg_y_path):
         TypeError: If the pickle could be read, but did not contain a SegYReader.
     """
 
-    if not (cache_file_path.exists() and cache_file_path.is_file()):
+    try:
+        if not (cache_file_path.exists() and cache_file_path.is_file()):
+            return None
+        pickle_file = cache_file_path.open('rb')
+    except OSError as os_error:
+        log.warn("Could not read cache entry {} for {} because {}".format(cache_file_path, seg_y_path, os_error))
         return None
 
-    with cache_file_path.open('rb') as pickle_file:
+    with pickle_file:
         try:
             reader = pickle.load(pickle_file)
         except Exception as unpickling_error:
-- 
2.43.0


From 57da215c28f657cdabac0edfa40aa1b416c6c4c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:21:39 +0000
Subject: [PATCH 22/26] fix: order comparisons of IBM floats with integers and
 fractions are exact

---
 segpy/ibm_float.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/segpy/ibm_float.py b/segpy/ibm_float.py
index 11861d8..eb7808d 100644
--- a/segpy/ibm_float.py
+++ b/segpy/ibm_float.py
@@ -481,22 +481,22 @@ class IBMFloat(Real):
     def __lt__(self, rhs):
         # Python's 64-bit float has much more precision than this
         # 32-bit IBM float and is much faster, so delegate
-        return float(self) < float(rhs)
+        return float(self) < rhs
 
     def __le__(self, rhs):
         # Python's 64-bit float has much more precision than this
         # 32-bit IBM float and is much faster, so delegate
-        return float(self) <= float(rhs)
+        return float(self) <= rhs
 
     def __gt__(self, rhs):
         # Python's 64-bit float has much more precision than this
         # 32-bit IBM float and is much faster, so delegate
-        return float(self) > float(rhs)
+        return float(self) > rhs
 
     def __ge__(self, rhs):
         # Python's 64-bit float has much more precision than this
         # 32-bit IBM float and is much faster, so delegate
-        return float(self) >= float(rhs)
+        return float(self) >= rhs
 
     def __ceil__(self):
         t = trunc(self)
-- 
2.43.0


From 6f965406ed04d7dc86147d2a0c4b210188d010ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:43:37 +0000
Subject: [PATCH 23/26] fix: readers of files opened for appending or exclusive
 creation could not be restored or created missing files

---
 segpy/reader.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/segpy/reader.py b/segpy/reader.py
index e5cb2aa..70951f1 100644
--- a/segpy/reader.py
+++ b/segpy/reader.py
@@ -395,6 +395,9 @@ class SegYReader(Dataset):
                             .format(self.__class__.__name__, filename))
         file_pos = self._fh.tell()
         file_mode = self._fh.mode
+        if file_mode in ('ab+', 'xb+'):
+            # Reopening the file must not depend on it being missing, nor create it when it is
+            file_mode = 'rb+'
 
         _ = self.max_num_trace_samples()
 
-- 
2.43.0


From 5da9e40e3f9666b43036e927ef766c7505aed18f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:07:16 +0000
Subject: [PATCH 24/26] fix: extract IBM float samples into masked arrays cell
 by cell

---
 segpy-ext/segpy_numpy/segpy_numpy/extract.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/segpy-ext/segpy_numpy/segpy_numpy/extract.py b/segpy-ext/segpy_numpy/segpy_numpy/extract.py
index b72ba5a..4b85b35 100644
--- a/segpy-ext/segpy_numpy/segpy_numpy/extract.py
+++ b/segpy-ext/segpy_numpy/segpy_numpy/extract.py
@@ -249,7 +249,7 @@ def _populate_inline_array_numbered_samples(reader_3d, inline_number, xline_numb
             trace_samples = reader_3d.trace_samples(trace_index)
             for sample_index, sample_number in enumerate(sample_numbers):
                 if sample_number < num_trace_samples:
-                    array[xline_index, sample_index] = trace_samples[sample_number]
+                    array[xline_index, sample_index] = array.dtype.type(trace_samples[sample_number])
 
 
 def _populate_inline_array_over_sample_range(reader_3d, inline_number, xline_numbers, sample_numbers, array):
@@ -338,7 +338,7 @@ def _populate_xline_array_numbered_samples(reader_3d, xline_number, inline_numbe
             trace_samples = reader_3d.trace_samples(trace_index)
             for sample_index, sample_number in enumerate(sample_numbers):
                 if sample_number < num_trace_samples:
-                    array[inline_index, sample_index] = trace_samples[sample_number]
+                    array[inline_index, sample_index] = array.dtype.type(trace_samples[sample_number])
 
 
 def _populate_xline_array_over_sample_range(reader_3d, xline_number, inline_numbers, sample_numbers, array):
@@ -421,7 +421,7 @@ def extract_timeslice_3d(reader_3d, sample_number, inline_numbers=None, xline_nu
                 trace_index = reader_3d.trace_index((inline_number, xline_number))
                 if sample_number < reader_3d.num_trace_samples(trace_index):
                     trace_samples = reader_3d.trace_samples(trace_index, start=sample_number, stop=sample_number_stop)
-                    array[inline_index, xline_index] = trace_samples[0]
+                    array[inline_index, xline_index] = array.dtype.type(trace_samples[0])
     return array
 
 
-- 
2.43.0


From 4638451ebfa86761bf6a0d970234410b992f4f1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:37:13 +0000
Subject: [PATCH 25/26] fix: refuse text streams without an encoding (StringIO)
 before reading from them

---
 segpy/reader.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/segpy/reader.py b/segpy/reader.py
index 70951f1..62fb5f6 100644
--- a/segpy/reader.py
+++ b/segpy/reader.py
@@ -5,6 +5,7 @@ a SegYReader object.  The properties and methods of the SegYReader
 instance can be used to extract SEG Y data.
 """
 
+import io
 import os
 import pickle
 from pathlib import Path
@@ -112,7 +113,7 @@ def create_reader(
         raise ValueError(
             "SegYReader must be provided with an open file object")
 
-    if hasattr(fh, 'encoding') and fh.encoding is not None:
+    if isinstance(fh, io.TextIOBase) or (hasattr(fh, 'encoding') and fh.encoding is not None):
         raise TypeError(
             "SegYReader must be provided with a binary mode file object")
 
-- 
2.43.0


From 9387825afaf1f47a4c01ed4658e536edc9812f0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:37:13 +0000
Subject: [PATCH 26/26] fix: raise the documented ValueError for byte orders
 and dimensionalities which cannot be hashed

---
 segpy/reader.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/segpy/reader.py b/segpy/reader.py
index 62fb5f6..ccd21bf 100644
--- a/segpy/reader.py
+++ b/segpy/reader.py
@@ -128,7 +128,7 @@ def create_reader(
                 filename_from_handle(fh),
                 num_file_bytes))
 
-    if endian not in {'<', '>'}:
+    if endian not in ('<', '>'):
         raise ValueError("Unrecognised endian value {!r}".format(endian))
 
     progress_callback = progress if progress is not None else lambda p: None
@@ -136,7 +136,7 @@ def create_reader(
     if not callable(progress_callback):
         raise TypeError("create_reader(): progress callback must be callable")
 
-    if dimensionality not in {None, 1, 2, 3}:
+    if dimensionality not in (None, 1, 2, 3):
         raise ValueError("dimensionality {!r} is not an of 1, 2, 3 or None.".format(dimensionality))
 
     reader = None
-- 
2.43.0

