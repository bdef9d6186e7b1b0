"""Planted bugs, third part (see plant.py)."""
import os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from bugs1 import T, R, W, C, U, P, H, I, D, E, N, S, V, L, TH, FT, READ, DATASET  # noqa
G = 'segpy/encoding.py'
BUGS = []


def B(id, property, edits, needs, breaks, demo):
    BUGS.append(dict(id=id, property=property, edits=edits, needs=needs, breaks=breaks, demo=demo))


# ---------------------------------------------------------------- C01
B('C01_pages_source_encoding', 'C01', [
  (W, '''    write_extended_textual_headers(fh, dataset.extended_textual_header, encoding)
''', '''    write_extended_textual_headers(fh, dataset.extended_textual_header, getattr(dataset, 'encoding', None) or encoding)
''')],
  'a dataset with an encoding of its own and extended pages, written in the other encoding',
  'the extended pages are written in the encoding of the source', DATASET + '''
page = ['LINE %d'.ljust(80) % i for i in range(40)]
page = [x[:80].ljust(80) for x in page]
data = reel(pages=[''.join(page)], ns=3) + trace(0, [1., 2., 3.])
again = reader_of(written(reader_of(data, encoding='ascii'), encoding='cp037'), encoding='cp037')
check(list(again.extended_textual_header[0]) == page, again.extended_textual_header[0][:1])
''')

B('C01_swap_in_place', 'C01', [
  (T, '''    c_format = '{}{}{}'.format(endian, len(values), ctype)
    return struct.pack(c_format, *values)
''', '''    a = values if isinstance(values, array) and values.typecode == ctype else array(ctype, values)
    if endian != NATIVE_ENDIANNESS:
        a.byteswap()
    return a.tobytes()
''')],
  'a dataset which keeps its samples in arrays, written twice (or used again after writing)',
  'writing swaps the bytes of the samples of the dataset itself', DATASET + '''
from array import array
class Arrays(Mem):
    def trace_samples(self, i, start=None, stop=None): return self.traces[i][1]
ds = Arrays([(TraceHeaderRev1(num_samples=3), array('f', [1., 2., 3.]))])
a = written(ds)
check(written(ds) == a, 'the second file differs from the first')
''')

# ---------------------------------------------------------------- C02
B('C02_lag_time_order', 'C02', [
  (TH, '''        Int16, offset=105, default=0, documentation=
        """Lag time A.''', '''        Int16, offset=107, default=0, documentation=
        """Lag time A.'''),
  (TH, '''        Int16, offset=107, default=0, documentation=
        """Lag Time B.''', '''        Int16, offset=105, default=0, documentation=
        """Lag Time B.''')],
  'a file of another program with different lag times',
  'the lag times are at each other\'s places', '''
from segpy.packer import make_header_packer
from segpy.trace_header import TraceHeaderRev1
h = bytearray(240); put(h, 105, 'h', 7, '>'); put(h, 107, 'h', 9, '>'); put(h, 35, 'h', 1, '>'); put(h, 125, 'h', 1, '>')
u = make_header_packer(TraceHeaderRev1, '>').unpack(bytes(h))
check((u.lag_time_a, u.lag_time_b) == (7, 9), (u.lag_time_a, u.lag_time_b))
''')

# ---------------------------------------------------------------- C03
# ---------------------------------------------------------------- C04
B('C04_stop_zero', 'C04', [
  (R, '''        stop_sample = stop if stop is not None else num_samples_in_trace
''', '''        stop_sample = stop or num_samples_in_trace
''')],
  'an empty range of samples which ends at zero',
  'the whole trace is returned', READ + '''
r = reader_of(reel() + trace(0, [1., 2.]))
check(len(r.trace_samples(0, 0, 0)) == 0, r.trace_samples(0, 0, 0))
''')

B('C04_length_of_first', 'C04', [
  (R, '''        num_samples_in_trace = self.num_trace_samples(trace_index)

''', '''        num_samples_in_trace = self.num_trace_samples(trace_index) if stop is None else self.max_num_trace_samples()

''')],
  'traces of different lengths, and a stop beyond the trace asked for but within the longest',
  'the samples run into the next trace', READ + '''
r = reader_of(reel() + trace(0, [1., 2.]) + trace(1, [1.] * 9))
check(raises(ValueError, r.trace_samples, 0, 0, 5), 'not refused')
''')

# ---------------------------------------------------------------- C05
B('C05_has_by_axes', 'C05', [
  (R, '''        return inline_xline in self._line_catalog
''', '''        inline, xline = inline_xline
        return inline in self.inline_numbers() and xline in self.xline_numbers()
''')],
  'a survey which is not rectangular',
  'has_trace_index() is true for combinations without a trace', READ + '''
r = reader_of(survey([(1, 1), (1, 2), (2, 1)]))
check(not r.has_trace_index((2, 2)), 'index of an absent trace')
''')

# ---------------------------------------------------------------- C06
B('C06_float_slope', 'C06', [
  (C, '''        self._m = Fraction(self._value_stop - self._value_start,
                           self._key_max - self._key_min)
''', '''        self._m = (self._value_stop - self._value_start) / (self._key_max - self._key_min)
'''),
  (C, '''        v = self._m * (key - self._key_min) + self._value_start
        assert v.denominator == 1
        return v.numerator
''', '''        return int(self._m * (key - self._key_min)) + self._value_start
''')],
  'linear keys and values whose strides have a ratio that is not exact in binary (49 and 1, for instance)',
  'some values are one too small', '''
from segpy.catalog import CatalogBuilder
items = [(49 * i, i) for i in range(4)]
c = CatalogBuilder(items).create()
check([(k, c[k]) for k in c] == items, [(k, c[k]) for k in c])
''')

B('C06_key_non_square', 'C06', [
  (C, '''        j_index, i_index = divmod(v_index, len(self.i_range))
''', '''        j_index, i_index = divmod(v_index, len(self.j_range))
''')],
  'the reverse lookup in a grid which is not square, with values in column order',
  'the reverse lookup gives another key', '''
from segpy.catalog import CatalogBuilder
c = CatalogBuilder([((i, j), 3 * j + i) for i in range(3) for j in range(2)]).create()
for k in c:
    try:
        check(c.key(c[k]) == k, (k, c.key(c[k])))
    except IndexError:
        check(False, k)
''')

B('C06_constant_stride', 'C06', [
  (C, '''        if index_stride is not None and value_stride == 0:
            assert value_start == value_stop
''', '''        if index_stride is not None and value_start == value_stop:
''')],
  'regular keys whose first and last values are equal but not all others',
  'every key maps to the first value', '''
from segpy.catalog import CatalogBuilder
items = [(0, 5), (1, 6), (2, 5)]
c = CatalogBuilder(items).create()
check([(k, c[k]) for k in c] == items, [(k, c[k]) for k in c])
''')

# ---------------------------------------------------------------- C07
B('C07_difference_iterator', 'C07', [
  (S, '''        return self - SortedFrozenSet(iterable)
''', '''        return SortedFrozenSet(item for item in self._items if item not in iterable)
''')],
  'the difference with an iterator (which can be run through once only)',
  'elements are left in the difference', '''
from segpy.sorted_frozen_set import SortedFrozenSet as S
check(list(S([1, 2, 3, 4]).difference(iter([2, 1, 4]))) == [3], list(S([1, 2, 3, 4]).difference(iter([2, 1, 4]))))
''')

B('C07_stride_of_ends', 'C07', [
  (U, '''    stride = measure_stride(sorted_sequence)
    if stride is not None:
        start = sorted_sequence[0]
''', '''    stride = (sorted_sequence[-1] - sorted_sequence[0]) // (len(sorted_sequence) - 1) if len(sorted_sequence) > 1 else None
    if stride is not None and sorted_sequence[1] - sorted_sequence[0] == stride == sorted_sequence[-1] - sorted_sequence[-2]:
        start = sorted_sequence[0]
''')],
  'a sequence whose first and last steps equal the mean step while others do not, such as 0 1 3 4 4.. (0 2 3 5 6 8)',
  'numbers which were not given appear', '''
from segpy.util import make_sorted_distinct_sequence as m
xs = [0, 2, 3, 6, 8]
check(list(m(xs)) == xs, list(m(xs)))
''')

# ---------------------------------------------------------------- C08
# ---------------------------------------------------------------- C09
B('C09_subformat_default', 'C09', [
  (H, '''                               named_field.offset,
                               named_field.default,
                               named_field.documentation)
''', '''                               named_field.offset,
                               0 if int(named_field.default) else named_field.default,
                               named_field.documentation)
''')],
  'a partial format with a field whose default is not zero and is a plain number',
  'the unset field shows zero', '''
from segpy.header import Header, SubFormatMeta, field
from segpy.field_types import Int16
class F(Header):
    LENGTH_IN_BYTES = 8
    START_OFFSET_IN_BYTES = 1
    a = field(Int16, offset=1, default=7, documentation='a')
class G(metaclass=SubFormatMeta, parent_format=F, parent_field_names=('a',)):
    pass
check(G().a == 7, G().a)
''')

# ---------------------------------------------------------------- C11
B('C11_minor_version', 'C11', [
  (H, """        if state['__version__'] != __version__:
            raise TypeError("Cannot unpickle {} version {} into version {}"
""", """        if state['__version__'].split('.')[0] != __version__.split('.')[0]:
            raise TypeError("Cannot unpickle {} version {} into version {}"
""")],
  'a header pickled by another version with the same major number',
  'it is accepted', """
import pickle, segpy.header
from segpy.trace_header import TraceHeaderRev1
v = segpy.header.__version__
segpy.header.__version__ = v + '.post1'
data = pickle.dumps(TraceHeaderRev1())
segpy.header.__version__ = v
check(raises(TypeError, pickle.loads, data), 'accepted')
""")

B('C11_packer_allocations', 'C11', [
  (P, '''        state['_structure_format'] = self._structure.format
        del state['_structure']
''', '''        state['_structure_format'] = state.pop('_structure').format
        state['_field_name_allocations'] = [[names[0]] for names in self._field_name_allocations]
''')],
  'pickling a packer of a format with fields at the same position',
  'the unpickled packer leaves the second field at its default and does not check that they are equal', '''
import pickle, pickle as p
from segpy.header import Header, field
from segpy.field_types import Int16
from segpy.packer import make_header_packer
import segpy.header
class F(Header):
    LENGTH_IN_BYTES = 4
    START_OFFSET_IN_BYTES = 1
    a = field(Int16, offset=1, default=0, documentation='a')
    b = field(Int16, offset=1, default=0, documentation='b')
u = pickle.loads(pickle.dumps(make_header_packer(F))).unpack(bytes([0, 5, 0, 0]))
check((u.a, u.b) == (5, 5), (u.a, u.b))
''')

# ---------------------------------------------------------------- C12
B('C12_ascii_first', 'C12', [
  (G, '''    if ebcdic_freq < threshold <= ascii_freq:
        return ASCII
''', '''    if ascii_freq >= threshold:
        return ASCII
''')],
  'a header of EBCDIC text, half of it colons or underscores, which are letters in ASCII',
  'the encoding reported is the wrong one', '''
from segpy.encoding import guess_encoding
text = ('______________ AREA ' * 160)[:3200]
check(guess_encoding(text.encode('cp037')) in (None, 'cp037'), guess_encoding(text.encode('cp037')))
''')

B('C12_first_cards', 'C12', [
  (T, '''        raw_header = fh.read(TEXTUAL_HEADER_NUM_BYTES)
    encoding = guess_encoding(raw_header)
''', '''        raw_header = fh.read(5 * CARD_LENGTH)
    encoding = guess_encoding(raw_header)
''')],
  'an ordinary header which starts with a few cards of stars',
  'the encoding is not detected', '''
from segpy.toolkit import guess_textual_header_encoding
cards = ['*' * 80] * 4 + ['C%2d ORDINARY TEXT ON LINE %d' % (i, i) for i in range(36)]
text = ''.join(c.ljust(80) for c in cards)
for e in ('ascii', 'cp037'):
    check(guess_textual_header_encoding(io.BytesIO(text.encode(e) + bytes(400))) == e, e)
''')

B('C12_ebcdic_missing_lines', 'C12', [
  (T, '''    padded_lines = [line.encode(encoding).ljust(CARD_LENGTH, ' '.encode(encoding))[:CARD_LENGTH]
                    for line in pad(lines, padding='', size=CARDS_PER_HEADER)]
''', '''    padded_lines = [line.encode(encoding).ljust(CARD_LENGTH, ' '.encode(encoding))[:CARD_LENGTH] if line else b' ' * CARD_LENGTH
                    for line in pad(lines, padding='', size=CARDS_PER_HEADER)]
''')],
  'an EBCDIC header with an empty or missing line',
  'the empty cards are padded with ASCII spaces', '''
from segpy.toolkit import write_textual_reel_header
f = io.BytesIO()
write_textual_reel_header(f, ['C%2d' % i for i in range(39)], 'cp037')
check(f.getvalue()[-80:].decode('cp037') == ' ' * 80, f.getvalue()[-3:])
''')

# ---------------------------------------------------------------- C13
# ---------------------------------------------------------------- C17
B('C17_first_of_many', 'C17', [
  (W, '''        progress_callback(trace_index / num_traces)
''', '''        progress_callback((trace_index + 1) / max(num_traces - 1, 1))
''')],
  'writing a file of several traces',
  'the last report before the end is above one', DATASET + '''
calls = []
ds = Mem([(TraceHeaderRev1(num_samples=1), [1.]) for _ in range(3)])
written(ds, progress=calls.append)
check(all(0 <= c <= 1 for c in calls) and calls == sorted(calls), calls)
''')
