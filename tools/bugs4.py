"""Planted bugs, fourth part (see plant.py)."""
import os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from bugs1 import T, R, W, C, U, P, H, I, D, E, N, S, V, L, TH, FT, READ, DATASET  # noqa
BUGS = []


def B(id, property, edits, needs, breaks, demo):
    BUGS.append(dict(id=id, property=property, edits=edits, needs=needs, breaks=breaks, demo=demo))


B('C05_empty_file', 'C05', [
  (R, '''        elif line_catalog is not None:
            dimensionality = 3
''', '''        elif line_catalog:
            dimensionality = 3
        elif cdp_catalog is not None:
            dimensionality = 2
''')],
  'a file with no trace at all', 'the file is read as a 2D one, without inline and crossline numbers', READ + '''
r = reader_of(reel())
check(r.dimensionality == 3 and list(r.inline_numbers()) == [] and not r.has_trace_index((1, 1)), r.dimensionality)
''')

B('C06_stride_sampled', 'C06', [
  (U, '''    for a, b in pairwise(iterable):
        new_stride = b - a
        if stride is None:
            stride = new_stride
        elif stride != new_stride:
            return None
''', '''    for n, (a, b) in enumerate(pairwise(iterable)):
        if n > 4096 and n % 32:
            continue
        new_stride = b - a
        if stride is None:
            stride = new_stride
        elif stride != new_stride:
            return None
''')],
  'more than 4096 keys, the irregular one of which comes late', 'the catalog has keys it was not given, or values which it was not given', '''
from segpy.catalog import CatalogBuilder
items = {k: 10 * k for k in range(6000)}
items[5000] += 3
b = CatalogBuilder()
for k, v in items.items(): b.add(k, v)
c = b.create()
check([c[k] for k in range(6000)] == list(items.values()), c[5000])
''')

B('C08_three_coincident', 'C08', [
  (P, '''            if not all_equal(field_values):
''', '''            if field_values[0] != field_values[-1]:
''')],
  'three fields at one position, of which the middle one has another value', 'the header is packed and that value is lost', '''
from segpy.header import Header, field
from segpy.field_types import Int32
from segpy.packer import make_header_packer
class Three(Header):
    a = field(Int32, 0, 0, 'a')
    b = field(Int32, 0, 0, 'b')
    c = field(Int32, 0, 0, 'c')
p = make_header_packer(Three)
check(p.pack(Three(a=1, b=1, c=1)) == bytes([0, 0, 0, 1]), 'pack')
check(raises(ValueError, p.pack, Three(a=1, b=2, c=1)), 'unequal values of one position are packed')
''')

B('C10_class_name', 'C10', [
  (U, '''        encoded_arg = repr(arg).encode('utf8')
''', '''        encoded_arg = getattr(arg, '__name__', repr(arg)).encode('utf8')
''')],
  'the same file opened with a format, then with another of the same name and layout from another module', 'the reader of the first format is returned', '''
import types
from segpy.reader import create_reader
from segpy.trace_header import TraceHeaderRev1
mine = sys.modules['mine'] = types.ModuleType('mine')
class Derived(TraceHeaderRev1):
    @property
    def label(self): return 'trace %d' % self.line_sequence_num
Derived.__module__, Derived.__qualname__, Derived.__name__ = 'mine', 'TraceHeaderRev1', 'TraceHeaderRev1'
mine.TraceHeaderRev1 = Derived
with tempfile.TemporaryDirectory() as d:
    path = os.path.join(d, 'a.sgy')
    open(path, 'wb').write(survey([(1, 1), (1, 2)]))
    for cls in (TraceHeaderRev1, Derived):
        with open(path, 'rb') as fh:
            r = create_reader(fh, encoding='ascii', trace_header_format=cls, cache_directory=os.path.join(d, 'cache'))
            check(r.trace_header_format_class is cls and type(r.trace_header(1)) is cls, type(r.trace_header(1)))
''')

B('C13_stanza_case', 'C13', [
  (T, '''    return END_TEXT_STANZA in ext_header[0]
''', '''    return END_TEXT_STANZA.casefold() in ext_header[0].casefold()
''')],
  'a page which begins with the stanza in other letters and is not the last', 'the file is refused, or its pages end too early', READ + '''
page = lambda t: ''.join(x.ljust(78) + chr(13) + chr(10) for x in [t] + ['TEXT'] * 39)
pages = [page('((seg: endtext)) is how the list of stanzas ends'), page('LAST'), page('((SEG: EndText))')]
r = reader_of(reel(pages=pages, count=3) + trace(0, [1.]))
check(len(r.extended_textual_header) == 3, 'pages')
r = reader_of(reel(pages=pages, count=-1) + trace(0, [1.]))
check(len(r.extended_textual_header) == 3 and r.num_traces() == 1, 'pages until the end')
''')

B('C14_inner_spaces', 'C14', [
  (T, '''        field_value = raw_field_value.strip()
''', '''        field_value = ' '.join(raw_field_value.split())
''')],
  'a value with two spaces in a row', 'the value is read with one space', '''
from segpy.toolkit import format_standard_textual_header, parse_standard_textual_header
from segpy.revisions import SegYRevision
lines = format_standard_textual_header(SegYRevision.REVISION_1, client='ACME  OIL')
check(parse_standard_textual_header(lines)['client'] == 'ACME  OIL', parse_standard_textual_header(lines)['client'])
''')
