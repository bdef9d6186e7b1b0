"""C19: writes which fail somewhere, and reading what is left of a file cut anywhere."""
from segy import *


def failing(n):
    r = rng('failing', n)
    begin(n=n)
    table, enc, endian = r.choice(['rev1', 'rev0']), r.choice(['ascii', 'cp037']), r.choice('><')
    ds = random_dataset(r, table, enc, max_traces=6, max_samples=8)
    op_dataset(ds, table)
    log = []
    data = op_write('a', MemDataset(ds, table, log=log), enc, endian, table, 'ds', dataset_log=log, progress=r.random() < .5)
    size = len(data)
    for k in range(4):
        log, fired = [], []
        how = r.choice(['space', 'space', 'h', 's', 'callback'])
        nt = len(ds['traces'])
        kw = {}
        fail = None
        if how == 'space':
            kw['limit'] = r.choice([0, 1, 3199, 3200, 3201, 3600, r.randint(0, size), r.randint(0, size), max(0, size - 1)])
        elif how == 'callback':
            kw['fail_progress'] = r.randint(0, nt)
        else:
            fail = (how, r.randint(0, nt))
        mem = MemDataset(ds, table, log=log, fail=fail, fired=fired)
        part = op_write('p%d' % k, mem, enc, endian, table, 'ds', dataset_log=log, fired=fired, progress=how == 'callback', **kw)
        if len(part) >= 3600 and k < 2:
            read_part(r, 'p%d' % k, part, table, enc, endian, k)


def read_part(r, name, part, table, enc, endian, rid):
    rd = op_open(name, io.BytesIO(part), table, r.choice([enc, enc, None]), endian, rid=rid, progress=False)
    if rd is None:
        return
    op_readall(rd, table, rid=rid)
    n = call(lambda: rd.num_traces(), to_int)
    n = n['v'] if n['k'] == 'ok' else 0
    for _ in range(3 if n else 0):
        t = r.randint(max(0, n - 2), n - 1)
        m = call(lambda: rd.num_trace_samples(t), to_int)
        m = m['v'] if m['k'] == 'ok' else 0
        a = r.randint(0, m)
        b = r.randint(a, m)
        op_samples(rd, t, a, b, rid=rid)
    op_index(rd, [[t] for t in range(4)] + [[t // 2, t % 2] for t in range(4)], rid=rid)


def cutting(n):
    r = rng('cutting', n)
    begin(n=n)
    table, enc, endian = r.choice(['rev1', 'rev0', 'moved']), r.choice(['ascii', 'cp037']), r.choice('><')
    code = r.choice([1, 2, 3, 5, 8])
    next_ = r.choice([0, 0, 1, 2])
    k = r.randint(1, 4)
    lens = [r.choice([0, 1, 2, 9]) for _ in range(k)]
    pages = random_ext(r, enc, next_, r.random() < .5)
    variable = next_ > 0 and STOP in ''.join(map(text_of, pages[-1])) and r.random() < .6
    reel = raw_reel(r, endian, enc, code, -1 if variable else next_)
    ext = b''.join(''.join(map(text_of, p)).encode(enc) for p in pages)
    data = reel + ext + b''.join(raw_trace(r, table, endian, code, m, (j // 2, j % 2, j)) for j, m in enumerate(lens))
    op_file('a', data)
    # boundaries of the records and their neighbours, and arbitrary positions
    bounds = [0, 3200, 3600, 3600 + len(ext)]
    p = 3600 + len(ext)
    for m in lens:
        bounds += [p + 240, p + 240 + m * WIDTH[code]]
        p += 240 + m * WIDTH[code]
    cuts = {min(len(data), max(0, r.choice(bounds) + r.choice([-1, 0, 1]))) for _ in range(4)} | {r.randint(3600, len(data)) for _ in range(4)}
    for i, at in enumerate(sorted(cuts)):
        part = op_cut('c', 'a', data, at)
        read_part(r, 'c', part, table, enc, endian, i)


def main():
    standard_formats()
    m = 8 if THOROUGH else 1
    for n in range(48 * m):
        if mine():
            session(failing, n)
    for n in range(96 * m):
        if mine():
            session(cutting, n)


main()
