"""C02: foreign files with arbitrary bytes in their headers are read field by field; written files put
every field at its place.  Every byte of every header is exercised on its own as well."""
from segy import *
from segpy.header import SubFormatMeta


def read_back(r, table, enc, endian, data, tag):
    op_file('f', data)
    rd = op_open('f', io.BytesIO(data), table, enc, endian, progress=False)
    if rd is None:
        return None
    op_readall(rd, table)
    return rd


def foreign(r, n):
    """Noise in all header bytes."""
    begin(n=n)
    table = r.choice(['rev1', 'rev0', 'moved', 'swapped'])
    endian = r.choice('><')
    enc = r.choice(['ascii', 'cp037'])
    code = r.choice([1, 2, 3, 5, 8])
    data = raw_reel(r, endian, enc, code, 0, noise=True)
    legal = r.random() < .5
    for k in range(r.randint(1, 4)):
        data += raw_trace(r, table, endian, code, r.randint(0, 9), (k, r.randint(-9, 9), k), noise=True, legal=legal)
    rd = read_back(r, table, enc, endian, data, n)
    if rd is not None:
        op_write('g', rd, None, endian, table, 'reader', progress=False)
        subset = r.sample(names(table), r.randint(1, 6))
        packer = make_header_packer(SubFormatMeta('Sub', (), {}, parent_format=FORMATS[table], parent_field_names=subset), endian)
        for t in range(3):
            op_header(rd, t, table, packer=packer, nms=subset)


def walking(table, endian, pattern, first, step, n):
    """A file whose trace t has one header byte set, different for every trace."""
    r = rng('walk', n)
    begin(n=n)
    enc = 'ascii'
    data = raw_reel(r, endian, enc, 8, 0)
    for p in range(first, 240, step):
        h = bytearray(240)
        put_fields(h, 1, TABLES[table], {f['name']: f['def'] for f in TABLES[table]}, endian)
        if p not in (114, 115):
            h[p] = pattern
            data += bytes(h)
    read_back(r, table, enc, endian, data, n)


def walking_binary(endian, pattern, first, step, n):
    r = rng('walkbin', n)
    for p in range(first, 400, step):
        if p in (24, 25):
            continue
        begin(n=n)
        b = bytearray(400)
        put_fields(b, 3201, TABLES['binary'], {f['name']: f['def'] for f in TABLES['binary']}, endian)
        b[p] = pattern
        data = b' ' * 3200 + bytes(b)
        op_file('f', data)
        op_open('f', io.BytesIO(data), 'rev1', 'ascii', endian, progress=False)


def written(r, n):
    """Headers in which every field has a value of its own."""
    begin(n=n)
    table = r.choice(['rev1', 'rev0', 'moved', 'swapped', 'shared'])
    endian, enc = r.choice('><'), r.choice(['ascii', 'cp037'])
    ds = random_dataset(r, table, enc, max_traces=4, max_samples=6, next_=r.choice([0, 0, 1]))
    op_dataset(ds, table)
    op_write('w', MemDataset(ds, table), enc, endian, table, 'ds', progress=False)


def main():
    standard_formats()
    m = 6 if THOROUGH else 1
    for n in range(112 * m):
        if mine():
            session(foreign, rng('foreign', n), n)
    for n in range(64 * m):
        if mine():
            session(written, rng('written', n), n)
    n = 0
    parts = 8
    for table in ('rev1', 'rev0'):
        for endian in '><':
            for pattern in (0x01, 0x80, 0xff) if THOROUGH else (rng('pattern', table, endian).choice([0x01, 0x80, 0xff]),):
                for first in range(parts):
                    n += 1
                    if mine():
                        session(walking, table, endian, pattern, first, parts, n)
    for endian in '><':
        for first in range(16):
            n += 1
            if mine():
                session(walking_binary, endian, rng('wb', endian, first).choice([1, 0x80, 0xff, 2]), first, 16 if THOROUGH else 48, n)


main()
