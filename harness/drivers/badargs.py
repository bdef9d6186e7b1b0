"""C18: arguments and files which are refused, and refused without effect."""
import os, struct
from segy import *

ENDIANS = ['', '=', '@', '!', '>>', 'big', 'little', None, 1, b'>', '<>', ' >', [], ['>'], {}, ('<',)]
DIMS = [0, 4, -1, 17, '3', 2.5, 'two', (), [], [1], {}, {3}]
PROGRESS = [1, 0, 'yes', 2.5, [], {}, b'x', ()]
ENCODINGS = ['utf8', 'utf-8', 'latin-1', 'EBCDIC', 'ASCII', 'cp500', 'cp1140', 'us-ascii', 'cp0037', 'nonsense', ' ascii', 'iso8859-1']


class Unseekable(io.BytesIO):
    def seekable(self):
        return False


class Pipe(io.RawIOBase):
    """Neither seekable nor with a position."""
    def __init__(self, data):
        self._b = io.BytesIO(data)
    def readable(self): return True
    def seekable(self): return False
    def readinto(self, b): return self._b.readinto(b)


def listing(d):
    return sorted(os.path.join(a, f) for a, ds, fs in os.walk(d) for f in list(fs) + list(ds))


def tell(fh):
    try:
        return fh.tell()
    except Exception:
        return -1


class Utf8(io.TextIOBase):
    """A text stream which says nothing of its encoding."""
    encoding = None
    def __init__(self, text):
        self._s = io.StringIO(text)
    def readable(self): return True
    def seekable(self): return True
    def read(self, n=-1): return self._s.read(n)
    def seek(self, *a): return self._s.seek(*a)
    def tell(self): return self._s.tell()


def pipe_of(data):
    """A real pipe with the data in it, or what fits."""
    a, b = os.pipe()
    os.write(b, data[:4000])
    os.close(b)
    return os.fdopen(a, 'rb')


def bad_open(n, reasons):
    r = rng('badopen', n)
    begin(n=n)
    d = os.path.join(SCRATCH, 'bad%d' % n)
    os.mkdir(d)
    path = os.path.join(d, 'f.segy')
    data = raw_reel(r, '>', 'ascii', 3) + b''.join(raw_trace(r, 'rev1', '>', 3, 2, (k, k, k)) for k in range(r.randint(0, 3)))
    if 'short' in reasons:
        data = data[:r.choice([0, 1, 3199, 3200, 3201, 3599, r.randint(0, 3599)])]
    with open(path, 'wb') as f:
        f.write(data)
    pos = r.choice([0, 0, 5, 100, 3600]) if reasons else 0
    if 'unseekable' in reasons:
        fh = r.choice([Unseekable, Pipe, pipe_of])(data)
        if isinstance(fh, Unseekable) and r.random() < .5:
            fh.name = path
    elif 'text_mode' in reasons:
        fh = r.choice([lambda: open(path, 'r', encoding=r.choice(['ascii', 'latin-1', 'utf8'])), lambda: open(path, 'r+', encoding='latin-1'),
                       lambda: io.StringIO(data.decode('latin-1')), lambda: io.TextIOWrapper(io.BytesIO(data), 'ascii'), lambda: Utf8(data.decode('latin-1'))])()
        if isinstance(fh, (io.StringIO, Utf8)):
            fh.seek(pos)
    else:
        fh = open(path, 'rb') if r.random() < .7 else io.BytesIO(data)
    if 'text_mode' not in reasons and ('unseekable' not in reasons or isinstance(fh, Unseekable)):
        fh.seek(pos)
    before = tell(fh)
    if 'closed' in reasons:
        fh.close()
        before = -1
    kw = {}
    if 'endian' in reasons:
        kw['endian'] = r.choice(ENDIANS)
    if 'dimensionality' in reasons:
        kw['dimensionality'] = r.choice(DIMS)
    if 'progress' in reasons:
        kw['progress'] = r.choice(PROGRESS)
    kw['cache_directory'] = r.choice([None, '.segpy', 'sub/dir', os.path.join(d, 'abs')])
    if r.random() < .3:
        kw['encoding'] = r.choice(['ascii', 'cp037'])
    entries = listing(d)
    res = call(lambda: create_reader(fh, **kw), lambda x: 0)
    after = tell(fh) if 'closed' not in reasons else -1
    if not fh.closed:
        fh.close()
    with open(path, 'rb') as f:
        intact = f.read() == data
    emit('badopen', reasons=reasons, res=res, before=before, after=after, intact=intact,
         entries=len([e for e in listing(d) if e not in entries]), args={k: repr(v) for k, v in kw.items()})


def bad_file(n):
    """Files whose content is refused."""
    r = rng('badfile', n)
    begin(n=n)
    endian = r.choice('><')
    how = n % 7
    data = bytearray(raw_reel(r, endian, 'ascii', 3, 0) + raw_trace(r, 'rev1', endian, 3, 2, (1, 2, 3)))
    enc = 'ascii'
    if how == 0:
        data[r.randrange(3200)] = r.randint(128, 255)
    elif how == 1:
        put(data, 3224, 2, r.choice([0, 4, 6, 7, 9, -1, 256, 1280]), endian)
    elif how == 2:
        put(data, 3500, 2, r.choice([1, 100, 255, 257, 512, -1]), endian)
    elif how == 3:
        put(data, 3504, 2, r.choice([1, 2, 5, -1]), endian)
    elif how == 4:
        put(data, 3504, 2, r.choice([-2, -3, -32768]), endian)
    elif how == 5:
        put(data, 3600 + 114, 2, r.choice([-1, -32768]), endian)
    else:
        # written with the other byte order
        endian = '<' if endian == '>' else '>'
    op_file('f', data)
    fh = io.BytesIO(bytes(data))
    op_open('f', fh, 'rev1', enc, endian, progress=False)
    op_same('f', fh)


def lookalike(r, header):
    """A header which has the name or the fields of the expected type, or both, but is of another type."""
    cls = type(header)
    nms = cls.ordered_field_names()
    k = r.randrange(3)
    name = cls.__name__ if k < 2 else 'Alike'
    if k == 0:
        # a namesake declared elsewhere, with the same fields
        ns = {n: field(getattr(cls, n).value_type, offset=getattr(cls, n).offset, default=getattr(cls, n).default, documentation='') for n in nms}
        fake = FormatMeta(name, (Header,), ns)
        return fake(**{n: getattr(header, n) for n in nms})
    fake = type(name, (), dict(LENGTH_IN_BYTES=240, START_OFFSET_IN_BYTES=1, ordered_field_names=classmethod(lambda c: nms)))
    h = fake()
    for n in nms:
        setattr(h, n, getattr(header, n))
    return h


def bad_write(n, reasons):
    r = rng('badwrite', n)
    begin(n=n)
    table = r.choice(['rev1', 'rev0'])
    endian = r.choice('><')
    enc = r.choice(['ascii', 'cp037'])
    ds = random_dataset(r, table, enc, max_traces=3, max_samples=3)
    denc = None
    kw = dict(progress=False)
    if 'encoding' in reasons:
        # given, or that of the dataset
        if r.random() < .6:
            enc = r.choice(ENCODINGS)
        else:
            denc, enc = r.choice(ENCODINGS), None
    bad_chars = [0x2603, 0x20ac, 0x100, 0xffff] + ([0xe9, 0xa0, 0x80] if enc == 'ascii' else [])
    if 'text' in reasons:
        line = ds['text'][r.randrange(40)]
        if r.random() < .3:
            line.extend([65] * r.randint(0, 5) + [0x2603])      # beyond the part which is written
        else:
            line[r.randrange(80)] = r.choice(bad_chars)
    if 'ext_text' in reasons or 'shape' in reasons:
        if not ds['ext']:
            ds['ext'] = random_ext(r, 'ascii', 1, False)
    if 'ext_text' in reasons:
        ds['ext'][r.randrange(len(ds['ext']))][r.randrange(40)][r.randrange(80)] = r.choice(bad_chars)
    if 'shape' in reasons:
        page = ds['ext'][r.randrange(len(ds['ext']))]
        how = r.randrange(4)
        if how == 0:
            page.pop()
        elif how == 1:
            page.append([32] * 80)
        elif how == 2:
            page[r.randrange(40)].pop()
        else:
            page[r.randrange(40)].append(32)
    if 'progress' in reasons:
        kw['progress'] = r.choice(PROGRESS)
        kw['bad_progress'] = True
    other = table
    if 'mismatch' in reasons:
        other = 'rev0' if table == 'rev1' else 'rev1'
        # a header of a derived format is also acceptable as one of its base format
        if issubclass(FORMATS[table], FORMATS[other]):
            other = table
        else:
            kw['mismatch'] = True
    op_dataset(ds, table)
    log = []
    data = MemDataset(ds, table, enc=denc, log=log)
    if 'mismatch' in reasons and r.random() < .5:
        # headers of a type which looks like the right one
        other = table
        kw['mismatch'] = True
        data._headers = [lookalike(r, h) for h in data._headers]
    op_write('w', data, enc, endian, other, 'ds', dataset_log=log, **kw)


def main():
    m = 8 if THOROUGH else 1
    combinations = [(c['op'], sorted(x for x in c['reasons'] if c['reasons'][x])) for c in scenarios('reasons')]
    n = 0
    for k in range(16 if THOROUGH else 14):
        for op, reasons in combinations:
            n += 1
            if mine():
                session(bad_open if op == 'open' else bad_write, n, reasons)
    for n in range(63 * m):
        if mine():
            session(bad_file, n)


main()
