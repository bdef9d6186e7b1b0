"""Building datasets and files with segpy's public API, and projecting what it returns."""
import io, json, os, struct
from drv import *
from segpy.binary_reel_header import BinaryReelHeader
from segpy.trace_header import TraceHeaderRev0, TraceHeaderRev1
from segpy.dataset import Dataset
from segpy.ibm_float import IBMFloat
from segpy.reader import create_reader
from segpy.writer import write_segy
from segpy.header import field, FormatMeta, Header
from segpy.field_types import Int16, Int32, NNInt16, NNInt32
from segpy.packer import make_header_packer

TABLES = json.load(open(os.path.join(os.path.dirname(os.path.abspath(__file__)), 'tables.json')))
BIN_NAMES = [f['name'] for f in TABLES['binary']]
FORMATS = {'rev0': TraceHeaderRev0, 'rev1': TraceHeaderRev1}
WIDTH = {1: 4, 2: 4, 3: 2, 5: 4, 8: 1}
STOP = '((SEG: EndText))'


def names(table):
    return [f['name'] for f in TABLES[table]]


def define_format(name, moves, start=None):
    """A format derived from TraceHeaderRev1 with some fields at other positions, as users do for files
    which keep their line or CDP numbers elsewhere; moves: {field name: standard byte number}.  Only
    moves to positions of fields of the same type are made.  start: where the format says its positions start,
    the standard ones starting at 1."""
    types = {'ensemble_num': Int32, 'inline_number': Int32, 'crossline_number': Int32}
    ns = {n: field(types[n], offset=off, default=0, documentation='moved') for n, off in moves.items()}
    # FormatMeta.__prepare__ gives an OrderedDict; the order of the fields is that of moves
    if start is not None:
        ns['START_OFFSET_IN_BYTES'] = start
    cls = FormatMeta(name, (TraceHeaderRev1,), dict(ns))
    FORMATS[name] = cls
    TABLES[name] = [dict(f, off=moves.get(f['name'], f['off']) + 1 - (1 if start is None else start)) for f in TABLES['rev1']]
    emit('format', name=name, fields=TABLES[name])


# --- datasets -----------------------------------------------------------------------------

def make_header(cls, nms, vals):
    return cls(**dict(zip(nms, vals)))


def samples_to_python(ss, code):
    if code == 1:
        return [IBMFloat.from_bytes(bytes(b)) for b in ss]
    if code == 5:
        return [struct.unpack('>f', bytes(b))[0] for b in ss]
    return list(ss)


def samples_of(code):
    def conv(values):
        if code == 1:
            out = []
            for v in values:
                if not isinstance(v, IBMFloat):
                    raise Shape('not an IBM float: %r' % (v,))
                out.append(list(bytes(v)))
            return out
        if code == 5:
            return [list(struct.pack('>f', v)) for v in values]
        return to_ints(values)
    return conv


def header_of(nms):
    return lambda h: [to_int(getattr(h, n)) for n in nms]


def lines_of(lines):
    return [to_text(l) for l in lines]


def pages_of(pages):
    return [lines_of(p) for p in pages]


def text_of(codes):
    return ''.join(map(chr, codes))


class MemDataset(Dataset):
    """A dataset held in memory; logs what it is asked for."""

    def __init__(self, ds, table, enc=None, log=None, fail=None, fired=None, reuse=False, hold=list):
        """reuse: one header object and one list of samples serve for all the traces, as in datasets which
        read or compute their traces on demand; hold: what the samples are kept in."""
        self._fired = fired
        self._reuse = reuse
        self._code = ds['bin'][BIN_NAMES.index('data_sample_format')]
        self._text = tuple(text_of(l) for l in ds['text'])
        self._bin = make_header(BinaryReelHeader, BIN_NAMES, ds['bin'])
        self._ext = [[text_of(l) for l in p] for p in ds['ext']]
        nms = names(table)
        self._headers = [make_header(FORMATS[table], nms, t['h']) for t in ds['traces']]
        self._samples = [hold(samples_to_python(t['s'], self._code)) for t in ds['traces']]
        self._table = table
        if reuse and self._headers:
            self._header = FORMATS[table]()
            self._buffer = []
        self._log = log if log is not None else []
        self._fail = fail
        if enc is not None:
            self.encoding = enc

    textual_reel_header = property(lambda s: s._text)
    binary_reel_header = property(lambda s: s._bin)
    extended_textual_header = property(lambda s: s._ext)
    dimensionality = property(lambda s: 0)

    def num_traces(self):
        return len(self._headers)

    def trace_header(self, t):
        self._log.append([1, t, 0])
        if self._fail == ('h', t):
            self._fired.append('SourceError')
            raise failure('SourceError')('dataset gives no header')
        if self._reuse:
            for n in names(self._table):
                setattr(self._header, n, getattr(self._headers[t], n))
            return self._header
        return self._headers[t]

    def trace_samples(self, t, start=None, stop=None):
        self._log.append([2, t, 0])
        if self._fail == ('s', t):
            self._fired.append('SourceError')
            raise failure('SourceError')('dataset gives no samples')
        if self._reuse:
            self._buffer[:] = self._samples[t][start:stop]
            return self._buffer
        return self._samples[t] if start is None and stop is None else self._samples[t][start:stop]


class LogFile(io.BytesIO):
    """An in-memory file which logs its writes and can fail after a number of bytes."""

    def __init__(self, log, limit=None, fired=None):
        super().__init__()
        self._log, self._limit, self._fired = log, limit, fired

    def write(self, b):
        pos = self.tell()
        b = bytes(b)
        if self._limit is not None and pos + len(b) > self._limit:
            part = b[:max(0, self._limit - pos)]
            super().write(part)
            self._log.append([0, pos, len(part)])
            self._fired.append('OSError')
            raise OSError(28, 'No space left on device')
        n = super().write(b)
        self._log.append([0, pos, len(b)])
        return n


def prog_entry(p):
    """A reported progress value as [3, floor(p * 2^30), floor of the rest * 2^30], other things as [4, 0, 0]."""
    import numbers
    try:
        if isinstance(p, numbers.Real) and p == p and abs(p) < 2:
            s = p * 2**30
            hi = int(s // 1)
            lo = int(((s - hi) * 2**30) // 1)
            return [3, hi, lo]
    except Exception:
        pass
    return [4, 0, 0]


# what a callback or a dataset raises can be of any kind, among them those which have a meaning somewhere in Python
FAILURES = [Exception, Exception, ValueError, TypeError, LookupError, KeyError, IndexError, EOFError, OSError, AttributeError,
            RuntimeError, StopIteration, AssertionError, ArithmeticError, BaseException, KeyboardInterrupt, MemoryError, UnicodeError]
_failures = [0]


def failure(name):
    """A class of this name, derived from one of the above."""
    _failures[0] += 1
    return type(name, (FAILURES[_failures[0] * 7 % len(FAILURES)],), {})


def progress_recorder(log, fail_at=None, fired=None):
    n = [0]
    def cb(p):
        log.append(prog_entry(p))
        n[0] += 1
        if fail_at is not None and n[0] == fail_at + 1:    # once: whoever loses the exception is not told again
            fired.append('CallbackError')
            raise failure('CallbackError')()
    return cb


# --- operations ---------------------------------------------------------------------------

def op_dataset(ds, table):
    emit('dataset', ds=ds, table=table)


def op_write(file, dataset, enc, endian, table, source, rid=0, limit=None, fail_progress=None, progress=True, dataset_log=None, fired=None, keep=True, **more):
    """Write dataset (described to the specification by source: "ds" or a reader id) to file."""
    log = dataset_log if dataset_log is not None else []
    fired = fired if fired is not None else []
    fh = LogFile(log, limit, fired)
    kw = {}
    if enc is not None:
        kw['encoding'] = enc
    if progress is True:
        kw['progress'] = progress_recorder(log, fail_progress, fired)
    elif progress is not False:
        kw['progress'] = progress
    res = call(lambda: write_segy(fh, dataset, trace_header_format=FORMATS[table], endian=endian, **kw), lambda v: v is None)
    data = fh.getvalue()
    emit('write', file=file, enc=enc or 'none', denc=getattr(dataset, 'encoding', None) or 'none', endian=endian, table=table,
         source=source, rid=rid, res=res, bytes=list(data), log=log, reporting=progress is True,
         fired=fired[0] if fired else 'none', **more)
    return data


def view_of(table, bin_names=BIN_NAMES):
    def conv(r):
        nt = r.num_traces()
        v = dict(kind=3 if hasattr(r, 'inline_numbers') else 2 if hasattr(r, 'cdp_numbers') else 1,
                 dimensionality=to_int(r.dimensionality), num_traces=to_int(nt), max=to_int(r.max_num_trace_samples()),
                 indexes=to_ints(r.trace_indexes()), lens=[to_int(r.num_trace_samples(t)) for t in range(nt)],
                 encoding=str(r.encoding), endian=str(r.endian), revision=to_int(r.revision), bps=to_int(r.bytes_per_sample),
                 sample_format=str(getattr(r.data_sample_format, 'value', r.data_sample_format)),
                 same_format=r.trace_header_format_class is FORMATS[table],
                 text=lines_of(r.textual_reel_header), bin=header_of(bin_names)(r.binary_reel_header),
                 ext=pages_of(r.extended_textual_header))
        return v
    return conv


def op_open(file, fh, table, enc=None, endian='>', dim=None, rid=0, cache=None, progress=True, fail_progress=None, **more):
    log, fired = [], []
    kw = {}
    if progress is True:
        kw['progress'] = progress_recorder(log, fail_progress, fired)
    elif progress is not False:
        kw['progress'] = progress
    if enc is not None:
        kw['encoding'] = enc
    if dim is not None:
        kw['dimensionality'] = dim
    holder = []
    res = call(lambda: create_reader(fh, trace_header_format=FORMATS[table], endian=endian, cache_directory=cache, **kw),
               lambda r: holder.append(r) or view_of(table)(r))
    emit('open', file=file, reader=rid, enc=enc or 'none', endian=endian, table=table, dim=dim or 0, res=res, log=log,
         reporting=progress is True, fired=fired[0] if fired else 'none', names=names(table), **more)
    return holder[0] if res['k'] == 'ok' else None


def code_of(reader):
    try:
        return int(reader.binary_reel_header.data_sample_format)
    except Exception:
        return 5


def scribble(v):
    """Change everything about a result which its type lets its owner change."""
    try:
        for k in range(len(v)):
            v[k] = v[-1 - k]
        v[0] = v[0] + 1 if not isinstance(v[0], IBMFloat) else IBMFloat.from_float(77.25)
        v.append(v[0])
    except Exception:
        pass


def scribble_header(h, nms):
    for n in nms:
        try:
            setattr(h, n, 1 if getattr(h, n) != 1 else 0)
        except Exception:
            pass


def op_header(reader, t, table, rid=0, packer=None, nms=None, mutate=False):
    nms = nms or names(table)
    got = []
    def conv(h):
        got.append(h)
        return header_of(nms)(h)
    if packer is None:
        res = call(lambda: reader.trace_header(t), conv)
    else:
        res = call(lambda: reader.trace_header(t, packer), conv)
    emit('header', reader=rid, t=t, names=nms, res=res)
    if mutate and got:
        scribble_header(got[0], nms)


def op_samples(reader, t, start=None, stop=None, rid=0, mutate=False):
    code = code_of(reader)
    got = []
    def conv(v):
        got.append(v)
        return samples_of(code)(v)
    if start is None and stop is None:
        res = call(lambda: reader.trace_samples(t), conv)
    else:
        res = call(lambda: reader.trace_samples(t, start, stop), conv)
    if mutate and got:
        scribble(got[0])
    emit('samples', reader=rid, t=t, start=[] if start is None else [start], stop=[] if stop is None else [stop], res=res)


def op_readall(reader, table, rid=0):
    """Every header and every sample, in one event."""
    code, nms = code_of(reader), names(table)
    n = call(lambda: reader.num_traces(), to_int)
    n = n['v'] if n['k'] == 'ok' else 0
    hs = [call(lambda: reader.trace_header(t), header_of(nms)) for t in range(n)]
    ss = [call(lambda: reader.trace_samples(t), samples_of(code)) for t in range(n)]
    emit('readall', reader=rid, names=nms, headers=hs, samples=ss)


def op_index(reader, probes, rid=0):
    """The spatial index of a reader; probes are keys (lists of one or two numbers)."""
    rec = dict(reader=rid, kind=3 if hasattr(reader, 'inline_numbers') else 2 if hasattr(reader, 'cdp_numbers') else 1)
    if rec['kind'] == 3:
        rec['a'] = call(lambda: list(reader.inline_numbers()), to_ints)
        rec['b'] = call(lambda: list(reader.xline_numbers()), to_ints)
        rec['na'] = call(lambda: reader.num_inlines(), to_int)
        rec['nb'] = call(lambda: reader.num_xlines(), to_int)
        rec['keys'] = call(lambda: list(reader.inline_xline_numbers()), lambda ks: [to_ints(k) for k in ks])
    elif rec['kind'] == 2:
        rec['a'] = call(lambda: list(reader.cdp_numbers()), to_ints)
        rec['na'] = call(lambda: reader.num_cdps(), to_int)
    ps = []
    for p in probes:
        if rec['kind'] == 1 or len(p) != rec['kind'] - 1:
            continue
        key = tuple(p) if len(p) == 2 else p[0]
        ps.append(dict(key=p, has=call(lambda: reader.has_trace_index(key), to_bool), t=call(lambda: reader.trace_index(key), to_int)))
    rec['probes'] = ps
    emit('index', **rec)


def holder_for(r, code):
    """A type to keep the samples of a dataset in."""
    import array, numpy
    if code == 1:
        return r.choice([list, list, tuple])
    c = {2: 'i', 3: 'h', 5: 'f', 8: 'b'}[code]
    return r.choice([list, list, tuple, lambda v: array.array(c, v), lambda v: numpy.array(v, dtype=c)])


# --- random datasets ------------------------------------------------------------------------

def random_value(r, f, extreme=0.3):
    if f['vals']:
        return r.choice(sorted(f['vals']))
    lo, hi = f['lo'], f['hi']
    if r.random() < extreme:
        return r.choice([lo, hi, max(lo, -1), 0 if lo <= 0 <= hi else lo, min(hi, 1), min(hi, 256), min(hi, 255), min(hi, 128)])
    if r.random() < .5:
        return r.randint(max(lo, -1000), min(hi, 1000))
    return r.randint(lo, hi)


def random_char(r, enc):
    p = r.random()
    if p < .6:
        return r.choice('ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789')
    if p < .85:
        return ' '
    if enc == 'cp037' and p < .9:
        return chr(r.randint(160, 255))
    return chr(r.randint(33, 126))


def random_line(r, enc, n=80):
    k = r.choice([0, 5, 30, n, n])
    return [ord(random_char(r, enc)) for _ in range(min(k, n))] + [32] * (n - min(k, n))


def random_text(r, enc):
    style = r.random()
    if style < .3:
        return [[ord(c) for c in ('C%2d' % (k + 1)).ljust(80)] for k in range(40)]
    return [random_line(r, enc) for _ in range(40)]


def random_ext(r, enc, n, stop):
    pages = []
    for k in range(n):
        p = [random_line(r, enc, 78) + [13, 10] for _ in range(40)]
        if r.random() < .3:
            # the stop stanza somewhere which does not make this a stop page
            p[r.randint(1, 39)][3:3 + len(STOP)] = [ord(c) for c in STOP]
        pages.append(p)
    if stop and n:
        at = r.choice([0, 0, 7, 78 - len(STOP)])
        pages[-1][0][at:at + len(STOP)] = [ord(c) for c in STOP]
    return pages


def random_sample(r, code):
    if code == 1:
        return [r.choice([0, 0x40, 0x41, 0xc1, 0x42, 0x7f, 0xff, 0x80, r.randint(0, 255)]), r.choice([0, 1, 0x10, 0xff, r.randint(0, 255)]),
                r.choice([0, 0xff, r.randint(0, 255)]), r.choice([0, 1, 0xff, r.randint(0, 255)])]
    if code == 5:
        while True:
            b = bytes(r.choice([0, 0x80, 0x3f, 0x7f, 0x40, r.randint(0, 255)]) for _ in range(4))
            if struct.unpack('>f', b)[0] == struct.unpack('>f', b)[0]:
                return list(b)
    w = 8 * WIDTH[code]
    return r.choice([0, 1, -1, -2**(w - 1), 2**(w - 1) - 1, r.randint(-2**(w - 1), 2**(w - 1) - 1), r.randint(-9, 9)])


def random_keys(r, n):
    """n (inline, crossline, cdp) triples in one of the geometries found in surveys."""
    kind = r.choice(['grid', 'grid', 'grid_cols', 'irregular', 'dup_pairs', 'line', 'line_dup', 'scattered', 'zero'])
    b = r.choice([0, 1, 100, -5, 10000])
    di, dj = r.choice([1, 1, 2, 5]), r.choice([1, 1, 3, -1, -2])
    w = r.choice([1, 2, 3, 4])
    if kind == 'grid':
        ks = [(b + di * (k // w), b + 50 + dj * (k % w), b + k) for k in range(n)]
    elif kind == 'grid_cols':
        ks = [(b + di * (k % w), b + 50 + dj * (k // w), 1) for k in range(n)]
    elif kind == 'irregular':
        ks = [(r.randint(-3, 6), 1000 * k + r.randint(0, 5), r.randint(0, 4)) for k in range(n)]
    elif kind == 'dup_pairs':
        ks = [(b + k // w, b + k % w, b + 3 * k) for k in range(n)]
        if n > 1:
            k = r.randrange(1, n)
            ks[k] = ks[r.randrange(k)][:2] + (ks[k][2],)
    elif kind == 'line':
        ks = [(0, 0, b + di * k) for k in range(n)]
    elif kind == 'line_dup':
        ks = [(7, 7, b + di * (k // 2)) for k in range(n)]
    elif kind == 'scattered':
        ks = [(r.choice([-2**31, 2**31 - 1, 0, r.randint(-9, 9)]), r.randint(-2**31, 2**31 - 1), r.choice([r.randint(-2**31, 2**31 - 1), k])) for k in range(n)]
    else:
        ks = [(0, 0, 0)] * n
    if r.random() < .25:
        r.shuffle(ks)
    return ks


def random_dataset(r, table='rev1', enc='ascii', max_traces=9, max_samples=14, code=None, lens=None, next_=None, keys=None):
    code = code or r.choice([1, 2, 3, 5, 8])
    if lens is None:
        n = r.choice([0, 1, 1, 2, 3, 4, 6, max_traces])
        style = r.random()
        m = r.randint(0, max_samples)
        lens = [m if style < .45 else r.choice([0, 0, 1, m]) if style < .6 else r.randint(0, max_samples) for _ in range(n)]
    n = len(lens)
    nx = r.choice([0, 0, 0, 1, 2]) if next_ is None else next_
    variable = nx > 0 and r.random() < .4
    stop = variable or (nx > 0 and r.random() < .4)
    binv = [random_value(r, f) for f in TABLES['binary']]
    binv[BIN_NAMES.index('data_sample_format')] = code
    binv[BIN_NAMES.index('num_extended_textual_headers')] = -1 if variable else nx
    nms = names(table)
    keys = keys or random_keys(r, n)
    # how each field varies along the file: constant, counting or arbitrary
    base = [random_value(r, f) for f in TABLES[table]]
    traces = []
    for k in range(n):
        h = [random_value(r, f) if r.random() < .3 else base[i] for i, f in enumerate(TABLES[table])]
        vals = dict(zip(nms, h))
        vals['num_samples'] = lens[k]
        vals['ensemble_num'] = keys[k][2]
        if 'inline_number' in vals:
            vals['inline_number'], vals['crossline_number'] = keys[k][:2]
        # fields declared at the same position share one value
        by_off = {}
        for f in TABLES[table]:
            if f['name'] in ('inline_number', 'crossline_number', 'ensemble_num', 'num_samples'):
                by_off.setdefault(f['off'], vals[f['name']])
        for f in TABLES[table]:
            if f['off'] in by_off:
                vals[f['name']] = by_off[f['off']]
        traces.append(dict(h=[vals[x] for x in nms], s=[random_sample(r, code) for _ in range(lens[k])]))
    return dict(text=random_text(r, enc), bin=binv, ext=random_ext(r, enc, nx, stop), traces=traces)


def probes_of(ds, table, r, n=12):
    nms = names(table)
    out = [[0], [1], [-1], [0, 0], [1, 1]]
    iC = nms.index('ensemble_num')
    cd = [t['h'][iC] for t in ds['traces']]
    out += [[c] for c in cd] + [[c + 1] for c in cd[:4] if c < 2**31 - 1]
    if 'inline_number' in nms:
        a, b = nms.index('inline_number'), nms.index('crossline_number')
        ps = [[t['h'][a], t['h'][b]] for t in ds['traces']]
        out += ps + [[p[1], p[0]] for p in ps[:3]]
        for _ in range(n):
            if ps:
                out.append([r.choice(ps)[0], r.choice(ps)[1]])
        out += [[p[0] - 1, p[1]] for p in ps[:3] if p[0] > -2**31] + [[p[0], p[1] + 1] for p in ps[:3] if p[1] < 2**31 - 1]
    seen, res = set(), []
    for p in out:
        if tuple(p) not in seen:
            seen.add(tuple(p))
            res.append(p)
    return res


# --- files made without segpy -----------------------------------------------------------------

EBCDIC_SPACE, ASCII_SPACE = 0x40, 0x20


def put(buf, pos, w, v, endian):
    buf[pos:pos + w] = int(v).to_bytes(w, 'big' if endian == '>' else 'little', signed=True)


def put_fields(buf, base, fields, vals, endian):
    for f in fields:
        if f['name'] in vals:
            put(buf, f['off'] - base, f['w'], vals[f['name']], endian)


def raw_text(r, enc):
    lines = random_text(r, enc)
    return ''.join(map(text_of, lines)).encode(enc)


def raw_reel(r, endian, enc, code, next_=0, noise=False, **vals):
    """Textual and binary headers."""
    b = bytearray(r.getrandbits(8) for _ in range(400)) if noise else bytearray(400)
    base = {}
    for f in TABLES['binary']:
        if not noise or f['vals'] or f['lo'] >= 0:
            base[f['name']] = random_value(r, f)
    base.update(data_sample_format=code, num_extended_textual_headers=next_)
    base.update(vals)
    put_fields(b, 3201, TABLES['binary'], base, endian)
    return raw_text(r, enc) + bytes(b)


def raw_trace(r, table, endian, code, n, key=(0, 0, 0), noise=False, legal=False, samples=None, **vals):
    h = bytearray(r.getrandbits(8) for _ in range(240)) if noise else bytearray(240)
    base = {}
    for f in TABLES[table]:
        if not noise:
            base[f['name']] = random_value(r, f)
        elif f['vals'] or f['lo'] >= 0 or f['hi'] < 2 ** (8 * f['w'] - 1) - 1:
            if legal or r.random() < .93:
                base[f['name']] = random_value(r, f)
    base.update(num_samples=n, ensemble_num=key[2], inline_number=key[0], crossline_number=key[1])
    base.update(vals)
    fields = sorted(TABLES[table], key=lambda f: f['name'] in ('num_samples', 'ensemble_num', 'inline_number', 'crossline_number'))
    put_fields(h, 1, fields, base, endian)
    if samples is None:
        w = WIDTH[code]
        if code == 5:
            samples = b''.join(struct.pack(endian + 'f', r.choice([0.0, -1.5, r.uniform(-1e9, 1e9), r.uniform(-1, 1)])) for _ in range(n))
        else:
            samples = bytes(r.choice([0, 255, 128, 127, 1, r.getrandbits(8), r.getrandbits(8)]) for _ in range(n * w))
    return bytes(h) + samples


def op_file(file, data):
    emit('file', file=file, bytes=list(data))


def op_cut(file, source, data, at):
    emit('cut', file=file, source=source, at=at)
    return data[:at]


def op_same(file, fh):
    emit('same', file=file, bytes=list(fh.getvalue()))


TYPES = {4: Int32, 2: Int16}


def standard_formats():
    """Custom layouts which some sessions use; declared to the specification once per trace."""
    define_format('moved', {'inline_number': 181, 'crossline_number': 185, 'ensemble_num': 233})
    define_format('swapped', {'crossline_number': 189, 'inline_number': 193})
    # all three at one position: they share one value
    define_format('shared', {'inline_number': 21, 'crossline_number': 193, 'ensemble_num': 21})
    define_format('plain', {})
    define_format('shifted', {}, start=0)


def count_op(reader, t, rid=0):
    emit('count', reader=rid, t=t, res=call(lambda: reader.num_trace_samples(t), to_int))
