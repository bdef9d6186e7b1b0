"""C17: progress reported while opening (fresh and cached) and writing; failing callbacks."""
import os
from segy import *


def small_file(r):
    table, endian, code = r.choice(['rev1', 'rev1', 'rev0']), r.choice('><'), r.choice([1, 2, 3, 5, 8])
    n = r.choice([0, 0, 1, 1, 2, 3, 5, 9])
    style = r.choice(['grid', 'dup', 'line'])
    keys = [(k // 3, k % 3, k) if style == 'grid' else (0, 0, 0) if style == 'dup' else (0, 0, k) for k in range(n)]
    next_ = r.choice([0, 0, 1])
    lens = [r.choice([0, 1, 5, 60]) for _ in range(n)]
    if n and r.random() < .4:
        lens[-1] = r.choice([500, 2000])       # a long last trace: its samples are most of the file
    data = raw_reel(r, endian, 'ascii', code, next_) + b''.join(raw_text(r, 'ascii') for _ in range(next_)) \
        + b''.join(raw_trace(r, table, endian, code, m, key) for m, key in zip(lens, keys))
    start = 3600 + 3200 * next_
    cut = r.choice(['no', 'no', 'tail', 'any', 'junk'])
    if cut == 'tail' and n:
        data = data[:max(start, len(data) - r.choice([1, 4, 100, 241, 2000, 7000]))]
    elif cut == 'any':
        data = data[:r.randint(start, len(data))]
    elif cut == 'junk':
        data += b'\x00' * r.choice([1, 100, 239])
    return data, table, endian


def opening(n):
    r = rng('opening', n)
    begin(n=n)
    data, table, endian = small_file(r)
    op_file('f', data)
    dim = r.choice([None, None, 1, 2, 3])
    if r.random() < .5:
        fh = io.BytesIO(data)
        op_open('f', fh, table, 'ascii', endian, dim=dim)
        if r.random() < .6:
            fh = io.BytesIO(data)
            op_open('f', fh, table, 'ascii', endian, dim=dim, fail_progress=r.choice([0, 0, 1, 2, 3, 4, 6, 9]))
            op_same('f', fh)
            # and the same file object can be opened afterwards
            fh.seek(0)
            op_open('f', fh, table, 'ascii', endian, dim=dim)
        return
    # through a cache, first filling it
    d = os.path.join(SCRATCH, 'progress%d' % n)
    os.mkdir(d)
    path = os.path.join(d, 'f.segy')
    with open(path, 'wb') as f:
        f.write(data)
    cache = r.choice(['.segpy', 'c', os.path.join(d, 'abs')])
    for k in range(3):
        with open(path, 'rb') as fh:
            fail = r.choice([0, 1, 3, 5]) if r.random() < .25 else None
            op_open('f', fh, table, 'ascii', endian, dim=dim, cache=cache, fail_progress=fail, rid=k)
    with open(path, 'rb') as fh:
        emit('same', file='f', bytes=list(fh.read()))


def writing(n):
    r = rng('writing', n)
    begin(n=n)
    table, enc, endian = r.choice(['rev1', 'rev0']), 'ascii', r.choice('><')
    ds = random_dataset(r, table, enc, max_traces=12, max_samples=5)
    op_dataset(ds, table)
    log, fired = [], []
    op_write('w', MemDataset(ds, table, log=log), enc, endian, table, 'ds', dataset_log=log)
    for at in sorted(r.sample(range(0, 14), 3)):
        log, fired = [], []
        op_write('x', MemDataset(ds, table, log=log), enc, endian, table, 'ds', dataset_log=log, fired=fired, fail_progress=at)


def refused(n):
    r = rng('refused', n)
    begin(n=n)
    ds = random_dataset(r, 'rev1', 'ascii', max_traces=2, max_samples=2)
    op_dataset(ds, 'rev1')
    bad = r.choice([1, 0, 'yes', [1], 2.5, b'', {}, ()])
    op_write('w', MemDataset(ds, 'rev1'), 'ascii', '>', 'rev1', 'ds', progress=bad, bad_progress=True)
    data = small_file(r)[0]
    fh = io.BytesIO(data)
    res = call(lambda: create_reader(fh, progress=bad, cache_directory=None), lambda x: 0)
    emit('badopen', reasons=['progress'], res=res, before=0, after=fh.tell(), intact=fh.getvalue() == data, entries=0)


class Constant(Dataset):
    """Any number of equal traces of one sample."""
    textual_reel_header = ('',) * 40
    extended_textual_header = ()
    encoding = 'ascii'
    binary_reel_header = property(lambda s: s.bin)

    def __init__(self, n, code):
        self.n = n
        self.bin = BinaryReelHeader(data_sample_format=code, num_samples=1)
        self.header = TraceHeaderRev1(num_samples=1)

    def num_traces(self):
        return self.n

    def trace_header(self, t):
        return self.header

    def trace_samples(self, t, start=None, stop=None):
        return [1][start:stop]


def many(n, count):
    """Numbers of traces at which counters of some width overflow."""
    begin(n=n)
    log = []
    fh = io.BytesIO()
    res = call(lambda: write_segy(fh, Constant(count, 8), progress=progress_recorder(log)), lambda v: v is None, limit=120)
    emit('reports', res=res, log=log, reporting=True)
    log = []
    fh.seek(0)
    res = call(lambda: create_reader(fh, progress=progress_recorder(log), cache_directory=None), lambda x: x.num_traces() == count, limit=120)
    emit('reports', res=res, log=log, reporting=True)


def main():
    for n, count in enumerate([257, 1025, 33000] + ([4097, 66000] if THOROUGH else [])):
        if mine():
            session(many, n, count)
    m = 8 if THOROUGH else 1
    for n in range(200 * m):
        if mine():
            session(opening, n)
    for n in range(72 * m):
        if mine():
            session(writing, n)
    for n in range(24):
        if mine():
            session(refused, n)


main()
