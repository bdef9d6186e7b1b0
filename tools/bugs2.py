"""Planted bugs, second part: C13 to C22 (see plant.py)."""
import os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from bugs1 import T, R, W, C, U, P, H, I, D, E, N, S, V, L, TH, FT, READ, DATASET  # noqa
BUGS = []


def B(id, property, edits, needs, breaks, demo):
    BUGS.append(dict(id=id, property=property, edits=edits, needs=needs, breaks=breaks, demo=demo))


# ---------------------------------------------------------------- C13
B('C13_stanza_at_start', 'C13', [
  (T, '''    return END_TEXT_STANZA in ext_header[0]
''', '''    return ext_header[0].startswith(END_TEXT_STANZA)
''')],
  'a variable number of extended headers whose stop stanza follows some other characters on the first card',
  'the stop stanza is not recognised and trace data are read as text', READ + '''
page = ''.join(x.ljust(80) for x in ['PAGE'] + [''] * 39)
stop = ''.join(x.ljust(80) for x in ['C 1 ((SEG: EndText))'] + [''] * 39)
data = reel(pages=[page, stop], count=-1) + b''.join(trace(k, [1., 2., 3.]) for k in range(20))
try:
    r = reader_of(data)
except Exception as e:
    check(False, 'refused: %r' % e)
check(len(r.extended_textual_header) == 2 and r.num_traces() == 20, 'pages %d' % len(r.extended_textual_header))
''')

B('C13_separator_characters', 'C13', [
  (T, '''    original_lines = text.splitlines()
''', '''    original_lines = text.split()if text.isspace() else text.splitlines()
''')],
  'a text made of blank lines only',
  'the blank lines are lost', '''
from segpy.toolkit import format_extended_textual_header
for text in ('\\n', '\\n\\n', '   \\n  \\n'):
    check(len(format_extended_textual_header(text, 'ascii')) == 1, repr(text))
''')

# ---------------------------------------------------------------- C14
B('C14_zero_value', 'C14', [
  (T, '''            ph_value = kwargs.pop(ph_arg_name, '')
''', '''            ph_value = kwargs.pop(ph_arg_name, None) or ''
''')],
  'a value of zero for a placeholder',
  'the zero is left out', '''
from segpy.toolkit import format_standard_textual_header, parse_standard_textual_header
from segpy.revisions import SegYRevision
for name in ('crew_number', 'sweep_start_hz', 'record_length'):
    try:
        h = format_standard_textual_header(SegYRevision.REVISION_1, **{name: 0})
    except TypeError:
        continue
    check(parse_standard_textual_header(h)[name] == '0', name)
''')

B('C14_float_format', 'C14', [
  (T, '''            substitute = str(ph_value)[:ph_len].ljust(ph_len, ' ')
''', '''            substitute = ('%g' % ph_value if isinstance(ph_value, float) else str(ph_value))[:ph_len].ljust(ph_len, ' ')
''')],
  'a floating point value for a placeholder',
  'its digits are lost', '''
from segpy.toolkit import format_standard_textual_header, parse_standard_textual_header
from segpy.revisions import SegYRevision
h = format_standard_textual_header(SegYRevision.REVISION_1, company=1234567.25)
check(parse_standard_textual_header(h)['company'] == '1234567.25', parse_standard_textual_header(h)['company'])
''')

# ---------------------------------------------------------------- C15
B('C15_pack_numbers', 'C15', [
  ('segpy/ibm_float_packer.py', '''        return EMPTY_BYTE_STRING.join(bytes(IBMFloat.from_real(value))
                                      for value in values)
''', '''        return EMPTY_BYTE_STRING.join(bytes(IBMFloat.from_real(float(value)))
                                      for value in values)
''')],
  'samples in a representation which is not normalised (or a zero which is not all zeros)',
  'the bytes are changed when samples are packed again', '''
from segpy.ibm_float_packer import pack_ibm_floats, unpack_ibm_floats
for b in (b'\\x42\\x01\\x00\\x00', b'\\x80\\x00\\x00\\x00', b'\\x00\\x00\\x00\\x01', b'\\x43\\x00\\x10\\x00'):
    check(pack_ibm_floats(unpack_ibm_floats(b, 1)) == b, repr(b))
''')

B('C15_double_rounding', 'C15', [
  (I, '''    mantissa = abs(int(m * _L24))
''', '''    mantissa = abs(int(round(m * 2 ** 52) * _L24 / 2 ** 52))
''')],
  'a value with 53 significant bits, all of them ones',
  'the magnitude is rounded up instead of cut', '''
from segpy.ibm_float import ieee2ibm
check(ieee2ibm(0.9999999999999999) == b'\\x40\\xff\\xff\\xff', ieee2ibm(0.9999999999999999).hex())
check(ieee2ibm(-0.9999999999999999) == b'\\xc0\\xff\\xff\\xff', 'negative')
''')

B('C15_unpack_runs', 'C15', [
  ('segpy/ibm_float_packer.py', '''        return [IBMFloat.from_bytes(data[i: i+4])
                for i in range(0, num_items * 4, 4)]
''', '''        values = []
        for i in range(0, num_items * 4, 4):
            value = IBMFloat.from_bytes(data[i: i+4])
            # Long runs of the same value are common, so share them
            values.append(values[-1] if values and values[-1] == value else value)
        return values
''')],
  'adjacent samples of equal value in different representations',
  'the bytes of the second one are replaced by those of the first', '''
from segpy.ibm_float_packer import pack_ibm_floats, unpack_ibm_floats
b = b'\\x41\\x10\\x00\\x00' + b'\\x42\\x01\\x00\\x00' + b'\\x00\\x00\\x00\\x00' + b'\\x40\\x00\\x00\\x00'
check(pack_ibm_floats(unpack_ibm_floats(b, 4)) == b, 'bytes changed')
''')

# ---------------------------------------------------------------- C16
B('C16_equal_ratio', 'C16', [
  (I, '''            return (lhs_numerator == rhs.numerator) and (lhs_denominator == rhs.denominator)
''', '''            return lhs_numerator / lhs_denominator == rhs.numerator / rhs.denominator
''')],
  'an integer or a fraction which needs more than 53 bits',
  'numbers that differ compare equal', '''
from fractions import Fraction
from segpy.ibm_float import IBMFloat
x = IBMFloat.from_float(2.0 ** 80)
check(x == 2 ** 80 and not x == 2 ** 80 + 1, 'integer')
check(not IBMFloat.from_float(0.5) == Fraction(1, 2) + Fraction(1, 2 ** 70), 'fraction')
''')

B('C16_normalise_lowest', 'C16', [
  (I, '''            if not (-64 <= new_exponent_16 < 64):
''', '''            if not (-64 < new_exponent_16 < 64):
''')],
  'a value which normalises to the lowest exponent',
  'it is refused', '''
from segpy.ibm_float import IBMFloat
x = IBMFloat.from_bytes((1, 1, 0, 0))
check(bytes(x.try_normalize()) == bytes((0, 0x10, 0, 0)), 'not normalised')
''')

B('C16_ratio_of_unnormalised', 'C16', [
  (I, '''        if self.is_zero():
            # Only one of the many possible representations of zero is considered 'normal' - all the zeros
            return not all(b == 0 for b in self._data)

        return self._data[1] < 16
''', '''        if self.is_zero():
            # Only one of the many possible representations of zero is considered 'normal' - all the zeros
            return self._data[0] & 0x7f != 0

        return self._data[1] < 16
''')],
  'the negative zero with a zero exponent (80000000)',
  'it is said to be normal', '''
from segpy.ibm_float import IBMFloat
check(IBMFloat.from_bytes((0x80, 0, 0, 0)).is_subnormal(), 'negative zero')
''')

# ---------------------------------------------------------------- C17
B('C17_stop_iteration', 'C17', [
  (W, '''    for trace_index in dataset.trace_indexes():
        write_trace_header(fh, dataset.trace_header(trace_index), trace_header_packer)
        write_trace_samples(fh, dataset.trace_samples(trace_index), dataset.data_sample_format, endian=endian)
        progress_callback(trace_index / num_traces)
''', '''    def write_trace(trace_index):
        write_trace_header(fh, dataset.trace_header(trace_index), trace_header_packer)
        write_trace_samples(fh, dataset.trace_samples(trace_index), dataset.data_sample_format, endian=endian)
        progress_callback(trace_index / num_traces)

    list(map(write_trace, dataset.trace_indexes()))
''')],
  'a progress callback which raises StopIteration',
  'the exception vanishes and a short file is written without notice', DATASET + '''
calls = []
def progress(p):
    calls.append(p)
    if len(calls) == 2:
        raise StopIteration
fh = io.BytesIO()
def write():
    try:
        write_segy(fh, Mem([(TraceHeaderRev1(num_samples=3), [1., 2., 3.])] * 5), progress=progress)
    except RuntimeError:
        raise StopIteration
check(raises(StopIteration, write), 'exception lost')
''')

B('C17_cached_open', 'C17', [
  (R, '''        if cache_file_path is not None:
            _save_reader_to_cache(reader, cache_file_path)

    progress_callback(1)
''', '''        if cache_file_path is not None:
            _save_reader_to_cache(reader, cache_file_path)

        progress_callback(1)
''')],
  'a second opening of a file through the cache with a progress callback',
  'nothing is reported', '''
import tempfile
from segpy.reader import create_reader
with tempfile.TemporaryDirectory() as d:
    p = os.path.join(d, 'a.segy')
    open(p, 'wb').write(reel() + trace(0, [1., 2., 3.]))
    for i in range(2):
        seen = []
        with open(p, 'rb') as fh:
            create_reader(fh, progress=seen.append)
        check(seen and seen[-1] == 1, 'opening %d: %r' % (i, seen))
''')

B('C17_write_ratio', 'C17', [
  (W, '''    num_traces = dataset.num_traces()
''', '''    num_traces = min(dataset.num_traces(), 0x7fff)
''')],
  'a dataset of more than 32767 traces',
  'progress goes beyond one', DATASET + '''
class Big(Mem):
    def num_traces(self): return 33000
    def trace_header(self, i): return self.h
    def trace_samples(self, i, start=None, stop=None): return [1.]
m = Big([[1.]])
m.h = TraceHeaderRev1(num_samples=1)
seen = []
write_segy(io.BytesIO(), m, encoding='ascii', progress=seen.append)
check(max(seen) <= 1, max(seen))
''')

# ---------------------------------------------------------------- C18
B('C18_extended_replace', 'C18', [
  (T, '''            encoded_line = line.encode(encoding)
''', '''            encoded_line = line.encode(encoding, 'replace')
''')],
  'extended header text which the encoding cannot hold',
  'characters are replaced without notice', DATASET + '''
page = [''.ljust(80)] * 39 + ['Trondheim \\u2264 \\u0416'.ljust(80)]
check(raises(UnicodeError, written, Mem([], pages=[page])), 'accepted')
''')

B('C18_subtype_headers', 'C18', [
  (P, '''        if not isinstance(header, self._header_format_class):
''', '''        if not (isinstance(header, self._header_format_class)
                or header.__class__.__name__ == self._header_format_class.__name__):
''')],
  'a header whose class has the name of the expected one but is another one',
  'it is packed as if it were of the expected type', '''
from segpy.packer import make_header_packer
from segpy.header import Header
from segpy.trace_header import TraceHeaderRev1
class Other(Header):
    pass
Fake = type('TraceHeaderRev1', (TraceHeaderRev1.__mro__[1],), dict(TraceHeaderRev1.__dict__)) if False else None
import segpy.field_types as ft
from segpy.header import field
class TraceHeaderRev1x(Header):
    num_samples = field(ft.NNInt16, offset=115, default=0, documentation='')
TraceHeaderRev1x.__name__ = 'TraceHeaderRev1'
for n in TraceHeaderRev1.ordered_field_names():
    if not hasattr(TraceHeaderRev1x, n):
        setattr(TraceHeaderRev1x, n, 0)
h = TraceHeaderRev1x()
check(raises(TypeError, make_header_packer(TraceHeaderRev1).pack, h), 'accepted')
''')

B('C18_position', 'C18', [
  (R, '''    num_file_bytes = file_length(fh)
''', '''    num_file_bytes = fh.seek(0, os.SEEK_END)
    fh.seek(0)
''')],
  'a file not at its beginning, opened with an unsuitable byte order, dimensionality or progress argument',
  'the refused opening moves the file position', '''
from segpy.reader import create_reader
fh = io.BytesIO(reel() + trace(0, [1., 2., 3.]))
fh.seek(77)
check(raises(ValueError, create_reader, fh, dimensionality=7, cache_directory=None), 'not refused')
check(fh.tell() == 77, 'position %d' % fh.tell())
''')

# ---------------------------------------------------------------- C19
B('C19_header_twice', 'C19', [
  (T, '''    buf = trace_header_packer.pack(trace_header)
    fh.write(buf)
''', '''    packed = trace_header_packer.pack(trace_header)
    start = fh.tell()
    fh.write(bytes(len(packed)))
    fh.seek(start)
    fh.write(packed)
''')],
  'writing interrupted between two writes of a trace header',
  'the file holds zeros which are not in the complete one', DATASET + '''
class Sink(io.BytesIO):
    def __init__(self):
        self.images = []
        io.BytesIO.__init__(self)
    def write(self, b):
        n = io.BytesIO.write(self, b)
        self.images.append(self.getvalue())
        return n
fh = Sink()
write_segy(fh, Mem([(TraceHeaderRev1(num_samples=3, crossline_number=5), [1., 2., 3.])] * 3), encoding='ascii')
check(all(fh.getvalue().startswith(i) for i in fh.images), 'not a prefix')
''')

B('C19_two_passes', 'C19', [
  (W, '''    num_traces = dataset.num_traces()

    for trace_index in dataset.trace_indexes():
        write_trace_header(fh, dataset.trace_header(trace_index), trace_header_packer)
''', '''    num_traces = dataset.num_traces()
    headers = [dataset.trace_header(trace_index) for trace_index in dataset.trace_indexes()]

    for trace_index, trace_header in zip(dataset.trace_indexes(), headers):
        write_trace_header(fh, trace_header, trace_header_packer)
''')],
  'a dataset which makes traces one at a time and fails, or notes what it is asked for',
  'all headers are asked for before any trace is written', DATASET + '''
asked = []
class Noting(Mem):
    def trace_header(self, i):
        asked.append(('h', i)); return Mem.trace_header(self, i)
    def trace_samples(self, i, start=None, stop=None):
        asked.append(('s', i)); return Mem.trace_samples(self, i, start, stop)
write_segy(io.BytesIO(), Noting([(TraceHeaderRev1(num_samples=3), [1., 2., 3.])] * 4), encoding='ascii')
check([i for k, i in asked] == sorted(i for k, i in asked), asked)
''')

B('C19_trailing_trace', 'C19', [
  (T, '''        if len(data) < TRACE_HEADER_NUM_BYTES:
            break
''', '''        if not data:
            break
        data = data.ljust(TRACE_HEADER_NUM_BYTES, b'\\0')
''')],
  'a file cut within a trace header',
  'the fragment is counted as a trace (with wrong numbers)', READ + '''
whole = reel() + b''.join(trace(k, [1., 2., 3.], il=k + 1, xl=5) for k in range(3))
size = 240 + 12
for cut in range(size - 239, size, 17):
    r = reader_of(whole[:-cut])
    if r.num_traces() == 3:
        check(list(r.inline_numbers()) == [1, 2, 3] and r.num_trace_samples(2) == 3, 'cut %d' % cut)
''')

# ---------------------------------------------------------------- C20
B('C20_null_zero', 'C20', [
  (E, '''    if null is None:
        return np.ma.masked_all(shape, dtype)
''', '''    if not null:
        return np.ma.masked_all(shape, dtype)
''')],
  'a null value of zero',
  'a masked array is returned in place of the null value', READ + '''
import numpy as np
from segpy_numpy.extract import extract_inline_3d
r = reader_of(survey([(1, 1), (1, 2), (2, 1)]))
a = extract_inline_3d(r, 2, null=0.0)
check(not isinstance(a, np.ma.MaskedArray) and a[1].tolist() == [0., 0., 0.], repr(a))
''')

B('C20_header_order', 'C20', [
  (E, '''    trace_headers = [reader.trace_header(trace_index, sub_header_packer)
                     for trace_index in trace_indexes]
''', '''    trace_headers = [reader.trace_header(trace_index, sub_header_packer)
                     for trace_index in sorted(set(trace_indexes))]
''')],
  'trace indexes repeated or not in order',
  'header values come in another order', READ + '''
from segpy_numpy.extract import extract_trace_headers
r = reader_of(survey([(1, 1), (1, 2), (2, 1)]))
a = extract_trace_headers(r, ['ensemble_num'], trace_indexes=[2, 0, 2])
check(a.ensemble_num.tolist() == [3, 1, 3], a.ensemble_num.tolist())
''')

B('C20_partial_read', 'C20', [
  (E, '''            trace_sample_stop = min(sample_numbers.stop, num_trace_samples)
            trace_samples = reader_3d.trace_samples(trace_index)
            source_slice = slice(sample_numbers.start, trace_sample_stop, sample_numbers.step)
            available_samples = trace_samples[source_slice]
            array[inline_index''', '''            trace_sample_stop = min(sample_numbers[-1], num_trace_samples - 1) + 1 if sample_numbers else 0
            trace_samples = reader_3d.trace_samples(trace_index)
            source_slice = slice(sample_numbers.start, trace_sample_stop - trace_sample_stop % 1024 if trace_sample_stop > 1024 else trace_sample_stop, sample_numbers.step)
            available_samples = trace_samples[source_slice]
            array[inline_index''')],
  'a crossline with more than 1024 samples',
  'the last samples are missing', READ + '''
from segpy_numpy.extract import extract_xline_3d
n = 1500
data = reel() + b''.join(trace(k, [float(j % 97) for j in range(n)], il=k, xl=1) for k in range(2))
a = extract_xline_3d(reader_of(data), 1, null=-1.0)
check(a.tolist() == [[float(j % 97) for j in range(n)]] * 2, 'samples')
''')

B('C20_ends_only', 'C20', [
  (N, '''        return all(item in superset for item in subset)
''', '''        return not subset or (subset[0] in superset and subset[-1] in superset)
''')],
  'a list of numbers of which only inner ones are not in a regular survey',
  'numbers not in the survey are not refused', READ + '''
from segpy_numpy.extract import extract_inline_3d
r = reader_of(survey([(i, x) for i in (1, 2) for x in range(0, 14, 2)]))
check(raises(ValueError, extract_inline_3d, r, 1, xline_numbers=[0, 3, 4]), 'accepted')
''')

B('C20_same_field', 'C20', [
  (E, '''                trace_index = reader_3d.trace_index((inline_number, xline_number))
                trace_header = reader_3d.trace_header(trace_index, sub_header_packer)
''', '''                trace_index = reader_3d.trace_index((inline_number, xline_number))
                trace_header = reader_3d.trace_header(min(trace_index, inline_index * len(xline_numbers) + xline_index
                                                          if shape == (reader_3d.num_inlines(), reader_3d.num_xlines())
                                                          else trace_index), sub_header_packer)
''')],
  'the whole of a survey whose traces are not ordered by inline',
  'values of other traces are returned', READ + '''
from segpy_numpy.extract import extract_trace_header_field_3d
r = reader_of(survey([(i, x) for x in (1, 2, 3) for i in (1, 2)]))
a = extract_trace_header_field_3d(r, ['ensemble_num'])
check(a.ensemble_num.tolist() == [[1, 3, 5], [2, 4, 6]], a.ensemble_num.tolist())
''')

# ---------------------------------------------------------------- C21
B('C21_format_of_source', 'C21', [
  (D, '''        return DATA_SAMPLE_FORMAT_TO_SEG_Y_TYPE[self.binary_reel_header.data_sample_format]
''', '''        source = getattr(self, '_source', self)
        return DATA_SAMPLE_FORMAT_TO_SEG_Y_TYPE[source.binary_reel_header.data_sample_format]
''')],
  'a delegating dataset which overrides the sample format in the binary reel header',
  'samples are written in the format of the source', DATASET + '''
class AsInt(DelegatingDataset):
    @property
    def binary_reel_header(self):
        return self.source.binary_reel_header.copy(data_sample_format=2)
    def trace_samples(self, i, start=None, stop=None):
        return [int(s) for s in self.source.trace_samples(i, start, stop)]
r = reader_of(survey([(1, 1), (1, 2)]))
check(AsInt(r).data_sample_format == 'int32', 'format')
r2 = reader_of(written(AsInt(r)))
check(list(r2.trace_samples(1)) == [1, 1, 1], 'samples')
''')

B('C21_encoding_guess', 'C21', [
  (D, '''        return self._source.encoding
''', '''        return getattr(self._source, 'encoding', None) or 'ascii'
''')],
  'a source without an encoding, or one which is not known',
  'the delegate claims ASCII where the source has none', DATASET + '''
class View(DelegatingDataset):
    pass
class NoCode(Mem):
    encoding = None
check(View(NoCode([])).encoding is None, 'encoding')
check(raises(AttributeError, lambda: View(Mem([])).encoding), 'attribute')
''')

# ---------------------------------------------------------------- C22
CLI = '''
import subprocess, json
def cli(data, command):
    with tempfile.TemporaryDirectory() as d:
        p = os.path.join(d, 'a.segy')
        open(p, 'wb').write(data)
        r = subprocess.run([sys.executable, '-m', 'segpy', command, p], capture_output=True, text=True, timeout=120)
        return r.returncode, r.stdout
'''
B('C22_max_samples', 'C22', [
  (L, '''        result['max_num_trace_samples'] = reader.max_num_trace_samples()
''', '''        result['max_num_trace_samples'] = reader.binary_reel_header.num_samples or reader.max_num_trace_samples()
''')],
  'a file whose binary header gives another number of samples than its longest trace has',
  'the metadata give the number of the binary header', CLI + '''
rc, out = cli(reel(ns=3) + trace(0, [1., 2., 3.], il=1, xl=1) + trace(1, [1., 2., 3., 4., 5.], il=1, xl=2), 'metadata')
check(rc == 0 and json.loads(out)['max_num_trace_samples'] == 5, out)
''')

B('C22_card_prefix', 'C22', [
  (L, '''            print(line[3:])
''', '''            print(line.lstrip('C 0123456789'))
''')],
  'a textual header line whose text starts with a digit, a blank or a C',
  'characters of the text are lost', CLI + '''
text = ['C%2d' % (i + 1) + ' 1976 Cairn  ACQUISITION OF THE SURVEY' for i in range(40)]
rc, out = cli(reel(text=text) + trace(0, [1., 2., 3.]), 'report')
check(rc == 0 and ' 1976 Cairn' in out, 'text lost')
''')

B('C05_cdp_count', 'C05', [
  (R, '''        return len(self._cdp_catalog)
''', '''        return len(range(self.cdp_numbers()[0], self.cdp_numbers()[-1] + 1)) if self._cdp_catalog else 0
''')],
  'a two dimensional survey with missing CDPs',
  'CDPs which are not there are counted', DATASET + '''
data = reel(rev=0) + b''.join(trace(k, [1., 2., 3.], cdp=c) for k, c in enumerate((1, 2, 5)))
from segpy.trace_header import TraceHeaderRev0
r = reader_of(data, trace_header_format=TraceHeaderRev0, dimensionality=2)
check(r.num_cdps() == 3, r.num_cdps())
''')

B('C22_exit_status', 'C22', [
  (L, '''        result['num_traces'] = reader.num_traces()
        result['dimensionality'] = reader.dimensionality
''', '''        result['num_traces'] = reader.num_traces()
        result['dimensionality'] = reader.dimensionality if result['num_traces'] > 1 else 1
''')],
  'a file of one trace (or none), which the reader takes for a survey of three dimensions',
  'the dimensionality is not that of the reader', CLI + '''
rc, out = cli(reel() + trace(0, [1., 2., 3.], il=1, xl=1), 'metadata')
from segpy.reader import create_reader
d = create_reader(io.BytesIO(reel() + trace(0, [1., 2., 3.], il=1, xl=1)), cache_directory=None).dimensionality
check(rc == 0 and json.loads(out)['dimensionality'] == d, out)
''')
