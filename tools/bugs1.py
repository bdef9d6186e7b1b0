"""Planted bugs: realistic changes that break a property (see plant.py)."""
T = 'segpy/toolkit.py'
R = 'segpy/reader.py'
W = 'segpy/writer.py'
C = 'segpy/catalog.py'
U = 'segpy/util.py'
P = 'segpy/packer.py'
H = 'segpy/header.py'
I = 'segpy/ibm_float.py'
D = 'segpy/dataset.py'
E = 'segpy-ext/segpy_numpy/segpy_numpy/extract.py'
N = 'segpy-ext/segpy_numpy/segpy_numpy/util.py'
S = 'segpy/sorted_frozen_set.py'
V = 'segpy/reversed_sequence_view.py'
L = 'segpy/cli.py'
TH = 'segpy/trace_header.py'
FT = 'segpy/field_types.py'

BUGS = []


def B(id, property, edits, needs, breaks, demo):
    BUGS.append(dict(id=id, property=property, edits=edits, needs=needs, breaks=breaks, demo=demo))


READ = '''
from segpy.reader import create_reader
def reader_of(data, **kw):
    return create_reader(io.BytesIO(data), cache_directory=None, **kw)
'''

DATASET = READ + '''
from segpy.writer import write_segy
from segpy.dataset import Dataset, DelegatingDataset
from segpy.trace_header import TraceHeaderRev1
from segpy.binary_reel_header import BinaryReelHeader
class Mem(Dataset):
    def __init__(self, traces, pages=(), bin=None, text=None):
        self.traces, self.pages, self.text = traces, pages, text or ['C%2d' % (i + 1) for i in range(40)]
        self.bin = bin or BinaryReelHeader(data_sample_format=5, num_samples=3, num_extended_textual_headers=len(pages))
    textual_reel_header = property(lambda s: s.text)
    binary_reel_header = property(lambda s: s.bin)
    extended_textual_header = property(lambda s: s.pages)
    def num_traces(self): return len(self.traces)
    def trace_header(self, i): return self.traces[i][0]
    def trace_samples(self, i, start=None, stop=None): return self.traces[i][1][start:stop]
def written(ds, **kw):
    f = io.BytesIO(); write_segy(f, ds, **kw); return f.getvalue()
'''

B('C01_header_object_reused', 'C01', [
  (W, '''    for trace_index in dataset.trace_indexes():
        write_trace_header(fh, dataset.trace_header(trace_index), trace_header_packer)
''', '''    packed_header = None
    for trace_index in dataset.trace_indexes():
        trace_header = dataset.trace_header(trace_index)
        if trace_header is not packed_header:
            buf = trace_header_packer.pack(trace_header)
            packed_header = trace_header
        fh.write(buf)
'''), (W, '''                           write_trace_header, write_trace_samples,
''', '''                           write_trace_samples,
''')],
  'a dataset which returns the same, updated header object for consecutive traces',
  'the second and later traces are written with the header values of the first', DATASET + '''
class Reusing(Mem):
    header = TraceHeaderRev1(num_samples=2)
    def trace_header(self, i):
        self.header.line_sequence_num = i + 1
        return self.header
r = reader_of(written(Reusing([(None, [float(i), 1.5]) for i in range(3)])))
check([r.trace_header(i).line_sequence_num for i in range(3)] == [1, 2, 3], 'headers read back differ from those written')
''')

B('C01_long_traces', 'C01', [
  (T, '''    c_format = '{}{}{}'.format(endian, len(values), ctype)
    return struct.pack(c_format, *values)
''', '''    c_format = '{}{}{}'.format(NATIVE_ENDIANNESS, len(values), ctype)
    packed = struct.pack(c_format, *values)
    size = struct.calcsize(ctype)
    if endian != NATIVE_ENDIANNESS and size > 1:
        packed = b''.join(packed[i:i + size][::-1] for i in range(0, min(len(packed), 4096), size))
    return packed
''')],
  'big-endian traces with more than 4096 bytes of samples',
  'samples beyond the 4096th byte of such a trace are missing from the file, so later traces are misplaced', DATASET + '''
ds = Mem([(TraceHeaderRev1(num_samples=1100), [float(k) for k in range(1100)]) for i in range(2)])
d = written(ds)
check(len(d) == 3600 + 2 * (240 + 4400), 'file length')
r = reader_of(d)
check([list(r.trace_samples(i)) for i in range(2)] == [t[1] for t in ds.traces], 'samples')
''')

B('C02_swapped_exponent', 'C02', [
  (TH, '''    transduction_constant_exponent = field(
        Int16, offset=209,''', '''    transduction_constant_exponent = field(
        Int16, offset=213,'''),
  (TH, '''    device_trace_identifier = field(
        Int16, offset=213,''', '''    device_trace_identifier = field(
        Int16, offset=209,''')],
  'a file with a transduction constant exponent or device trace identifier, read by or written for other software',
  'two 16-bit fields of the revision 1 trace header are exchanged', READ + '''
d = reel() + trace(0, [1.0], extra=[(209, 'h', -7), (213, 'h', 12)])
h = reader_of(d).trace_header(0)
check((h.transduction_constant_exponent, h.device_trace_identifier) == (-7, 12), 'fields exchanged')
''')

B('C02_energy_direction', 'C02', [
  (TH, '''    source_energy_direction = field(
        Int32, offset=219,''', '''    source_energy_direction = field(
        Int32, offset=221,''')],
  'a non-zero source energy direction',
  'the source energy direction is read from and written to bytes 221-224 rather than 219-222', READ + '''
d = reel() + trace(0, [1.0], extra=[(219, 'i', 123456789)])
check(reader_of(d).trace_header(0).source_energy_direction == 123456789, 'field read from the wrong bytes')
''')

B('C03_truncated_last', 'C03', [
  (T, '''        if len(data) < TRACE_HEADER_NUM_BYTES:
            break
''', '''        if len(data) < TRACE_HEADER_NUM_BYTES or not any(data):
            # The end of the data, or the padding some tape copies leave after it
            break
''')],
  'a trace whose 240 header bytes are all zero (a zero-length, unnumbered trace) followed by other traces',
  'cataloguing stops at the all-zero header, so it and all later traces are lost', READ + '''
z = bytes(240)
d = reel() + trace(0, [1.0, 2.0], cdp=5) + z + trace(2, [3.0], cdp=7)
r = reader_of(d)
check(r.num_traces() == 3, 'num_traces %d' % r.num_traces())
''')

B('C03_read_ahead', 'C03', [
  (T, '''        fh.seek(pos_begin)
        data = fh.read(TRACE_HEADER_NUM_BYTES)
        if len(data) < TRACE_HEADER_NUM_BYTES:
''', '''        if pos_begin + TRACE_HEADER_NUM_BYTES > block_begin + len(block):
            # Read ahead, as short traces come many to a block
            block_begin = pos_begin
            fh.seek(pos_begin)
            block = fh.read(_BLOCK_SIZE)
        data = block[pos_begin - block_begin:][:TRACE_HEADER_NUM_BYTES]
        if len(data) < TRACE_HEADER_NUM_BYTES or pos_begin % _BLOCK_SIZE > _BLOCK_SIZE - 8:
'''),
  (T, '''    cdp_catalog_builder = CatalogBuilder()

    for trace_number''', '''    cdp_catalog_builder = CatalogBuilder()
    block, block_begin = EMPTY_BYTE_STRING, 0

    for trace_number'''),
  (T, '''_READ_PROPORTION = 0.75''', '''_BLOCK_SIZE = 1 << 16  # Trace headers are read in blocks of this size
_READ_PROPORTION = 0.75''')],
  'a trace header starting in the last seven bytes of a 64 KiB block of the file',
  'cataloguing stops at that trace', READ + '''
n = 0
d = reel(code=8) + trace(0, [1] * (65536 - 4 - 3600 - 240 - 32000), code=8) + trace(1, [1] * (32000 - 240), code=8)
check(len(d) == 65532, 'demo')
d += trace(2, [1, 2, 3], code=8) + trace(3, [4], code=8)
r = reader_of(d)
check(r.num_traces() == 4, 'num_traces %d' % r.num_traces())
''')

B('C04_shared_result', 'C04', [
  (R, '''        self._max_num_trace_samples = None

    def __getstate__''', '''        self._max_num_trace_samples = None
        self._last_read = (None, None)

    def __getstate__'''),
  (R, '''        num_samples_to_read = stop_sample - start_sample

        trace_values = read_binary_values(
            self._fh, start_pos, seg_y_type, num_samples_to_read, self._endian)
        return trace_values
''', '''        num_samples_to_read = stop_sample - start_sample
        if self._last_read[0] == (start_pos, num_samples_to_read):
            # The same samples again
            return self._last_read[1]
        self._last_read = (start_pos, num_samples_to_read), read_binary_values(
            self._fh, start_pos, seg_y_type, num_samples_to_read, self._endian)
        return self._last_read[1]
''')],
  'reading the same samples twice, the caller having modified the first result (an array it owns) in between',
  'the second read returns the modified values rather than those stored in the file', READ + '''
r = reader_of(reel() + trace(0, [1.0, 2.0]) + trace(1, [3.0, 4.0]))
a = r.trace_samples(1)
for i in range(len(a)): a[i] = 0.0
check(list(r.trace_samples(1)) == [3.0, 4.0], 'samples depend on history')
''')

B('C04_header_cache', 'C04', [
  (R, '''        pos = self._trace_offset_catalog[trace_index]
        trace_header = read_trace_header(self._fh, header_packer, pos)
        return trace_header
''', '''        pos = self._trace_offset_catalog[trace_index]
        if self._fh.tell() == pos + TRACE_HEADER_NUM_BYTES and self._last_header is not None \\
                and isinstance(self._last_header, header_packer.header_format_class):
            # The header has just been read
            return self._last_header.copy()
        self._last_header = trace_header = read_trace_header(self._fh, header_packer, pos)
        return trace_header
'''), (R, '''        self._max_num_trace_samples = None

    def __getstate__''', '''        self._max_num_trace_samples = None
        self._last_header = None

    def __getstate__''')],
  'the shared file position moved (by the user, or by reading a zero-length range of another trace) to the samples of a trace '
  'other than the one whose header was read last',
  'trace_header() returns the header of another trace', READ + '''
d = reel() + b''.join(trace(i, [1.0, 2.0], cdp=10 + i) for i in range(4))
fh = io.BytesIO(d)
r = create_reader(fh, cache_directory=None)
r.trace_header(0)
list(r.trace_samples(2, 0, 0))
check(r.trace_header(2).ensemble_num == 12, 'wrong header')
fh.seek(3600 + 240)
check(r.trace_header(0).ensemble_num == 10, 'wrong header')
''')

B('C05_nonpositive_cdp', 'C05', [
  (T, '''        cdp_catalog_builder.add(trace_header.ensemble_num, trace_number)
''', '''        if trace_header.ensemble_num > 0 or trace_number == 0:
            cdp_catalog_builder.add(trace_header.ensemble_num, trace_number)
''')],
  'a 2D file in which a trace other than the first has a CDP number of zero or less',
  'that trace is missing from the CDP index', READ + '''
d = reel() + b''.join(trace(k, [1.0], cdp=c, il=1, xl=1) for k, c in enumerate([5, 0, -3, 7]))
r = reader_of(d)
check(r.dimensionality == 2 and list(r.cdp_numbers()) == [-3, 0, 5, 7], 'CDP index')
''')
B('C05_duplicate_last', 'C05', [
  (C, '''        if contains_duplicates(index for index, value in self._catalog):
            return None
''', '''        indexes = [index for index, value in self._catalog]
        if any(a is b or a == b for a, b in zip(indexes[::2], indexes[1::2])) or contains_duplicates(indexes[:2]):
            return None
''')],
  'exactly two traces with the same number (pair), falling on an odd place in the sorted numbers',
  'a file with repeated numbers is presented as 2D or 3D and one of the traces cannot be reached', READ + '''
d = survey([(1, 1), (1, 2), (1, 2), (1, 3)])
check(reader_of(d).dimensionality == 2, 'dimensionality')
''')

B('C06_swapped_values', 'C06', [
  (C, '''        if not (is_sorted(vs, reverse=False, distinct=True) or is_sorted(vs, reverse=True, distinct=True)):
''', '''        if contains_duplicates(vs) or not (is_sorted(vs[:-1], distinct=True) or is_sorted(vs, reverse=True, distinct=True)):
''')],
  'a full grid whose values are ascending except for the last, and still make a regular range when sorted',
  'values are returned for the wrong keys', '''
from segpy.catalog import CatalogBuilder
m = {(1, 1): 1, (1, 2): 2, (2, 1): 3, (2, 2): 0}
c = CatalogBuilder(m).create()
check(all(c[k] == v for k, v in m.items()), 'lookup: %r' % [(k, c[k]) for k in m])
''')

B('C07_index_bounds', 'C07', [
  (V, '''        if self.count(item) == 1:
            return self._reverse_index(self._sequence.index(item))
''', '''        if self.count(item) == 1 and len(self) < 64:
            return self._reverse_index(self._sequence.index(item))
        if self.count(item) == 1:
            return len(self) - self._sequence.index(item)
''')],
  'searching a descending sequence which is not a range and has at least 64 elements',
  'index() is off by one', '''
from segpy.util import make_sorted_distinct_sequence, SortSense
items = [k * k for k in range(70)]
s = make_sorted_distinct_sequence(items, SortSense.descending)
check(all(s[s.index(x)] == x for x in items), 'index()')
''')

B('C08_packer_cache', 'C08', [
  (P, '''def make_header_packer(header_format_class, endian='>'):
    cformat,''', '''_compiled = {}


def make_header_packer(header_format_class, endian='>'):
    key = (header_format_class.__module__, header_format_class.__qualname__,
           header_format_class.ordered_field_names(), endian)
    if key not in _compiled:
        _compiled[key] = _make_header_packer(header_format_class, endian)
    return _compiled[key]


def _make_header_packer(header_format_class, endian):
    struct_format,'''),
  (P, '''    structure = Struct(cformat)
''', '''    structure = Struct(struct_format)
''')],
  'two record formats of the same name with the same field names but other positions or types in one process',
  'the second format is packed and unpacked with the layout of the first', '''
from segpy.header import Header, field
from segpy.field_types import Int16, Int32
from segpy.packer import make_header_packer
def make(a, b):
    class Fmt(Header):
        START_OFFSET_IN_BYTES = 1
        LENGTH_IN_BYTES = 8
        x = field(Int16, offset=a, default=0, documentation='x')
        y = field(Int16, offset=b, default=0, documentation='y')
    return Fmt
F, G = make(1, 3), make(5, 7)
check(make_header_packer(F).pack(F(x=1, y=2)) == bytes([0, 1, 0, 2, 0, 0, 0, 0]), 'first')
try:
    b = make_header_packer(G).pack(G(x=1, y=2))
except TypeError as e:
    check(False, str(e))
check(b == bytes([0, 0, 0, 0, 0, 1, 0, 2]), 'second')
''')

B('C08_coincident_first', 'C08', [
  (P, '''            if not all_equal(field_values):
''', '''            if any(value != field_values[-1] for value in field_values[:1]):
''')],
  'three or more fields at one position of which only a middle one differs',
  'packing silently loses the differing value', '''
from segpy.header import Header, field
from segpy.field_types import Int16
from segpy.packer import make_header_packer
class F(Header):
    a = field(Int16, offset=0, default=0, documentation='a')
    b = field(Int16, offset=0, default=0, documentation='b')
    c = field(Int16, offset=0, default=0, documentation='c')
check(raises(ValueError, make_header_packer(F).pack, F(a=1, b=2, c=1)), 'unequal coincident values packed')
''')

B('C09_identity_storage', 'C09', [
  (H, '''        self._instance_data = WeakKeyDictionary()
''', '''        self._instance_data = {}
'''), (H, '''        if instance not in self._instance_data:
            return self._named_field.default
        return self._instance_data[instance]
''', '''        return self._instance_data.get(id(instance), self._named_field.default)
'''), (H, '''            self._instance_data[instance] = self._named_field._value_type(value)
''', '''            self._instance_data[id(instance)] = self._named_field._value_type(value)
'''), (H, '''from weakref import WeakKeyDictionary
''', '''''')],
  'a header created after another has been discarded',
  'new headers show values assigned to discarded ones rather than defaults', '''
import gc
from segpy.trace_header import TraceHeaderRev1
for k in range(200):
    h = TraceHeaderRev1(cdp_x=77); del h; gc.collect()
    h = TraceHeaderRev1()
    check(h.cdp_x == 0, 'default not shown')
    del h
''')

B('C09_copy_defaults', 'C09', [
  (H, '''        fields = {name: getattr(self, name) for name in self.ordered_field_names()}
        fields.update(updates)
''', '''        fields = {name: getattr(self, name) for name in self.ordered_field_names()
                  if getattr(self, name)}
        fields.update(updates)
''')],
  'copying a header in which a field with a non-zero default has been set to zero (e.g. revision 0)',
  'the copy has the default rather than the value of the original', '''
from segpy.binary_reel_header import BinaryReelHeader
from segpy.header import are_equal
h = BinaryReelHeader(format_revision_num=0)
check(h.copy().format_revision_num == 0 and are_equal(h, h.copy()), 'copy differs')
''')

B('C09_partial_update', 'C09', [
  (H, '''        try:
            self._instance_data[instance] = self._named_field._value_type(value)
        except ValueError as e:
''', '''        value_type = self._named_field._value_type
        try:
            if type(value) is int and hasattr(value_type, 'ENUM'):
                # Accept the value, whether or not it can be represented by the enumeration
                self._instance_data[instance] = value
            self._instance_data[instance] = value_type(value)
        except ValueError as e:
''')],
  'assigning an unlisted integer to an enumerated field and catching the error',
  'the refused value is stored', '''
from segpy.trace_header import TraceHeaderRev1
h = TraceHeaderRev1(data_use=2)
check(raises(ValueError, setattr, h, 'data_use', 99), 'accepted')
check(h.data_use == 2, 'previous value lost')
''')

B('C10_hash_prefix', 'C10', [
  (U, '''    for chunk in iter(lambda: fh.read(block_size), EMPTY_BYTE_STRING):
        sha1.update(chunk)
    length = fh.tell()
''', '''    for _ in range(64):
        sha1.update(fh.read(block_size))
    length = fh.seek(0, os.SEEK_END)
''')],
  'an edit, keeping the length, beyond the first 4 MiB of a file which has been opened through the cache',
  'the cached reader of the old content is used for the edited file', READ + '''
n = 1100
body = [trace(i, [0.0] * 1000, il=1, xl=i + 1) for i in range(n)]
d = tempfile.mkdtemp()
p = os.path.join(d, 'a.sgy')
open(p, 'wb').write(reel() + b''.join(body))
with open(p, 'rb') as fh: create_reader(fh)
body[-1] = trace(n - 1, [0.0] * 1000, il=2, xl=1)
open(p, 'wb').write(reel() + b''.join(body))
with open(p, 'rb') as fh:
    r = create_reader(fh)
    ok = r.has_trace_index((2, 1))
import shutil; shutil.rmtree(d)
check(ok, 'stale index')
''')

B('C10_key_of_three', 'C10', [
  (U, '''    for arg in args:
''', '''    for arg in args[:3]:
''')],
  'opening a file with one byte order and then with the other, where both can be read',
  'the reader made for the other byte order is returned', READ + '''
b = bytearray(reel(code=1, rev=0))
b[3220:3222] = bytes([1, 2]); b[3224:3226] = bytes([0, 0])
b[3224:3226] = bytes([0, 1])
d = tempfile.mkdtemp()
p = os.path.join(d, 'a.sgy')
open(p, 'wb').write(bytes(b))
def opened(endian, cache='.segpy'):
    with open(p, 'rb') as fh:
        try:
            r = create_reader(fh, endian=endian, cache_directory=cache)
        except Exception as e:
            return type(e).__name__
        return r.endian, r.binary_reel_header.num_samples
want = opened('>', None), opened('<', None)
got = opened('>'), opened('<')
import shutil; shutil.rmtree(d)
check(want == got, '%r rather than %r' % (got, want))
''')

B('C11_packer_endian', 'C11', [
  (P, '''        structure = Struct(state['_structure_format'])
''', '''        structure = Struct('>' + str(state['_structure_format']).lstrip('<>='))
''')],
  'pickling a little-endian packer or a reader of a little-endian file (also through the cache)',
  'the unpickled packer reads and writes big-endian', '''
import pickle
from segpy.packer import make_header_packer
from segpy.trace_header import TraceHeaderRev1
p = make_header_packer(TraceHeaderRev1, '<')
h = TraceHeaderRev1(cdp_x=1)
check(pickle.loads(pickle.dumps(p)).pack(h) == p.pack(h), 'packed bytes differ')
''')

BUGS = [b for b in BUGS if b['demo']]
