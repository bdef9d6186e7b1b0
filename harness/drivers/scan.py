"""C03: files from the specification's enumeration of trace lengths and truncations, and large mixtures."""
from segy import *


def real_cut(r, small_cut, lens, real_lens, w):
    """The position in the real file which corresponds to a position in the model's file, where headers
    have 5 bytes and samples 2: the same record, near the same end of it."""
    pos = 0
    small = 0
    for n, m in zip(lens, real_lens):
        if small_cut < small + 5:
            d = small_cut - small
            return pos + [0, 1, r.randint(2, 120), r.randint(121, 238), 239][d]
        small += 5
        pos += 240
        if small_cut < small + 2 * n:
            d = small_cut - small
            if d == 0:
                return pos
            return pos + (r.randint(1, m * w - 1) if m * w > 1 else 0)
        small += 2 * n
        pos += m * w
    return pos


def blank_trace(r, table, endian, code, n):
    """Nothing but the number of samples in the header: all zeros when there are none."""
    h = bytearray(240)
    put_fields(h, 1, TABLES[table], dict(num_samples=n), endian)
    return bytes(h) + bytes(n * WIDTH[code])


def blocks(n):
    """A trace header at, before or across the end of a block of the usual sizes of buffers."""
    r = rng('blocks', n)
    begin(n=n)
    endian = r.choice('><')
    size = [4096, 8192, 65536, 4096, 8192, 32768, 65536, 16384][n % 8]
    d = r.choice([-240, -239, -126, -125, -120, -115, -114, -9, -8, -7, -6, -5, -4, -3, -2, -1, 0, 0, 1, 2, 3, r.randint(-300, 8)]) if n >= 16 \
        else [-7, -1, 0, -116, -115, -240, 1, -4][n % 8] - n // 8
    data = raw_reel(r, endian, 'ascii', 8)
    gap = size + d - len(data) - 240
    while gap < 0:
        gap += size
    lens = []
    while gap > 32767:
        lens.append(20000)
        gap -= 20240
    lens += [gap, r.choice([0, 1, 5]), 2]
    k = r.randrange(len(lens))
    for j, m in enumerate(lens):
        data += raw_trace(r, 'rev1', endian, 8, m, (j, j, j), samples=bytes([j + 1]) * m)
    op_file('f', data)
    path = os.path.join(SCRATCH, 'blocks')
    with open(path, 'wb') as f:
        f.write(data)
    with open(path, 'rb') as fh:
        rd = op_open('f', fh, 'rev1', 'ascii', endian, dim=r.choice([None, 1]), progress=False)
        if rd is not None:
            for t in range(len(lens)):
                op_header(rd, t, 'rev1')
                op_samples(rd, t, max(0, lens[t] - 3), lens[t])
                count_op(rd, t)


def scenario(sc, n):
    r = rng('scan', n)
    begin(n=n)
    code = r.choice([2, 3, 8, 5, 1])
    w = WIDTH[code]
    table = r.choice(['rev1', 'rev1', 'rev0', 'moved'])
    endian = r.choice('><')
    scale = {0: 0, 1: r.choice([1, 2, 3, 200]), 2: r.choice([4, 7, 300])}
    lens = [scale[k] for k in sc['lens']]
    next_ = r.choice([0, 0, 0, 1])
    reel = raw_reel(r, endian, 'ascii', code, next_) + b''.join(raw_text(r, 'ascii') for _ in range(next_))
    data = reel + b''.join(blank_trace(r, table, endian, code, m) if r.random() < .2 else raw_trace(r, table, endian, code, m, (k, k, k))
                           for k, m in enumerate(lens))
    if sc['cut'] < 0:
        data += bytes(r.choice([0, 1, 255]) for _ in range({-1: 1, -2: 100, -3: 238, -4: 239}[sc['cut']]))
    else:
        data = data[:len(reel) + real_cut(r, sc['cut'], sc['lens'], lens, w)]
    look(r, data, table, endian, len(lens))


def look(r, data, table, endian, n):
    op_file('f', data)
    rd = op_open('f', io.BytesIO(data), table, 'ascii', endian, dim=r.choice([None, 1, 2, 3]), progress=False)
    if rd is None:
        return
    op_readall(rd, table)
    count_op(rd, r.choice([0, n, -1, n - 1]))


def mixture(n):
    """Longer files, with constant, periodic and changing lengths."""
    r = rng('mixture', n)
    begin(n=n)
    code = r.choice([2, 3, 8])
    endian = r.choice('><')
    k = r.choice([5, 12, 30])
    m = r.choice([0, 1, 3, 9])
    style = n % 6
    lens = [m if style == 0 else 7 if (style == 1 and j == k - 1) else m if style == 1 else r.randint(0, 5) if style == 2
            else j % 3 if style == 3 else (m + j) if style == 4 else (m if j else 11) for j in range(k)]
    blank = r.random() < .2
    data = raw_reel(r, endian, 'ascii', code) + b''.join(
        blank_trace(r, 'rev1', endian, code, q) if blank or r.random() < .1 else raw_trace(r, 'rev1', endian, code, q, (j // 3, j % 3, j))
        for j, q in enumerate(lens))
    cut = r.choice([0, 0, 1, 100, 239, 240, 241, r.randint(0, 700)])
    if cut:
        data = data[:max(3600, len(data) - cut)]
    look(r, data, 'rev1', endian, k)


def long_trace(n):
    """Sample counts near the limit of the field."""
    r = rng('long', n)
    begin(n=n)
    endian = r.choice('><')
    q = [32767, 32766, 256, 255, 20000, 16384][n % 6]
    code = r.choice([8, 3])
    data = raw_reel(r, endian, 'ascii', code) + raw_trace(r, 'rev1', endian, code, q, (1, 1, 1), samples=b'\x05' * (q * WIDTH[code])) \
        + raw_trace(r, 'rev1', endian, code, 3, (2, 2, 2))
    if n % 2:
        data = data[:3600 + 240 + r.choice([0, 1, 99])]
    op_file('f', data)
    rd = op_open('f', io.BytesIO(data), 'rev1', 'ascii', endian, progress=False)
    if rd is not None:
        count_op(rd, 0)
        count_op(rd, 1)
        for a, b in ((q - 2, q), (0, 1), (q, q), (q - 1, None)):
            op_samples(rd, 0, a, b)


def negative(n):
    """A declared sample count outside the field's range."""
    r = rng('neg', n)
    begin(n=n)
    data = raw_reel(r, '>', 'ascii', 3)
    for k in range(n % 3 + 1):
        data += raw_trace(r, 'rev1', '>', 3, 2 if k < n % 3 else -1 - n * 5000, (k, k, k), samples=b'abcd')
    op_file('f', data)
    op_open('f', io.BytesIO(data), 'rev1', 'ascii', '>', progress=False)


class Virtual(io.RawIOBase):
    """A file of gigabytes: a reel header, and runs of traces whose samples are given by their position."""
    BLOCKS = {}

    def __init__(self, reel, runs, w, endian, tail):
        self.reel, self.w, self.endian, self.pos = reel, w, endian, 0
        self.runs, at, t = [], len(reel), 0
        for count, n in runs:
            self.runs.append((at, at + count * (240 + w * n), t, n))
            at, t = self.runs[-1][1], t + count
        self.size, self.tail = at + tail, at

    def readable(self): return True
    def seekable(self): return True
    def tell(self): return self.pos

    def seek(self, pos, whence=0):
        self.pos = pos + (0, self.pos, self.size)[whence]
        if self.pos < 0:
            raise ValueError('before the start')
        return self.pos

    def head(self, t, n):
        h = bytearray(240)
        legal = {f['name']: f['vals'][0] if f['vals'] else max(0, f['lo']) for f in TABLES['rev1']}
        put_fields(h, 1, TABLES['rev1'], dict(legal, line_sequence_num=t, ensemble_num=t + 7, num_samples=n), self.endian)
        return h

    def filling(self, a, b):
        out = []
        for hi in range(a // 1024, b // 1024 + 1):
            k = hi % 251
            if k not in self.BLOCKS:
                self.BLOCKS[k] = bytes((k + 7 * lo) % 251 for lo in range(1024))
            out.append(self.BLOCKS[k])
        return b''.join(out)[a % 1024:a % 1024 + b - a]

    def bytes_at(self, a, b):
        out = [self.reel[a:b]]
        a = max(a, len(self.reel))
        for lo, hi, first, n in self.runs:
            while a < min(b, hi):
                k, off = divmod(a - lo, 240 + self.w * n)
                if off < 240:
                    piece = self.head(first + k, n)[off:off + b - a]
                else:
                    piece = self.filling(a, min(b, a - off + 240 + self.w * n))
                out.append(bytes(piece))
                a += len(piece)
        return b''.join(out) + bytes(max(0, min(b, self.size) - max(a, self.tail)))

    def readinto(self, buf):
        data = self.bytes_at(self.pos, min(self.size, self.pos + len(buf)))
        buf[:len(data)] = data
        self.pos += len(data)
        return len(data)


def big_file(n):
    """More than two, and more than four, gigabytes."""
    r = rng('big', n)
    begin(n=n)
    endian = r.choice('><')
    code = r.choice([1, 2]) if n != 2 else 8
    w = WIDTH[code]
    runs = [[(16500, 32767)], [(r.randint(9, 99), r.randint(0, 9)), (33000, 32767 - r.randint(0, 99)), (3, 5)], [(66000, 32760)]][n % 3]
    fh = Virtual(raw_reel(r, endian, 'ascii', code), runs, w, endian, r.choice([0, 1, 100, 239]))
    total = sum(c for c, _ in runs)
    holder = []
    res = call(lambda: create_reader(fh, encoding='ascii', endian=endian, cache_directory=None),
               lambda x: holder.append(x) or [to_int(x.num_traces()), to_int(x.max_num_trace_samples()), 2 if hasattr(x, 'cdp_numbers') else 0])
    probes = []
    for t in [0, 1, total - 1, total, -1, total - 2, 16383, 16384, 32767, 32768, 65535, 65536] + [r.randrange(total) for _ in range(40)]:
        if holder and t <= total:
            x = holder[0]
            a = r.choice([0, r.randint(0, 32000), 5])
            b = a + r.choice([0, 1, 2, 5])
            p = dict(t=t, start=a, stop=b,
                     count=call(lambda: x.num_trace_samples(t), to_int),
                     header=call(lambda: x.trace_header(t), header_of(['line_sequence_num', 'ensemble_num', 'num_samples'])),
                     samples=call(lambda: x.trace_samples(t, a, b), samples_of(code)))
            p['has'] = call(lambda: x.has_trace_index(t + 7), to_bool)
            p['index'] = call(lambda: x.trace_index(t + 7), to_int)
            probes.append(p)
    emit('big', runs=[dict(count=c, len=m) for c, m in runs], w=w, code=code, endian=endian, res=res, probes=probes)


def main():
    standard_formats()
    for n in range(3 if THOROUGH else 2):
        if mine():
            session(big_file, n)
    # lengths 0..2 of up to three traces, cut everywhere
    for n, sc in enumerate(scenarios('files')):
        if (THOROUGH or rng('pick', n).random() < .4 or sc['cut'] < 0) and mine():
            session(scenario, sc, n)
    for n in range(600 if THOROUGH else 60):
        if mine():
            session(mixture, n)
    for n in range(200 if THOROUGH else 24):
        if mine():
            session(blocks, n)
    for n in range(6):
        if mine():
            session(long_trace, n)
        if mine():
            session(negative, n)


main()
