"""C01, C02: write datasets, read them back, rewrite the reader, convert."""
from segy import *


def one(r, n):
    table = r.choice(['rev1', 'rev1', 'rev1', 'rev0', 'moved', 'swapped', 'shared'])
    enc = r.choice(['ascii', 'cp037'])
    endian = r.choice(['>', '>', '<'])
    ds = random_dataset(r, table, enc)
    begin(n=n)
    op_dataset(ds, table)
    log = []
    how = r.random()
    mem = MemDataset(ds, table, enc=enc if how < .3 else None, log=log, reuse=r.random() < .4,
                     hold=holder_for(r, ds['bin'][BIN_NAMES.index('data_sample_format')]))
    data = op_write('a', mem, None if how < .3 else enc, endian, table, 'ds', dataset_log=log, progress=r.random() < .5)
    rd = op_open('a', io.BytesIO(data), table, enc, endian, dim=r.choice([None, None, 1, 2, 3]))
    if rd is None:
        return
    op_readall(rd, table)
    # the reader written out with its own parameters gives the same file ...
    again = op_write('b', rd, None if r.random() < .5 else enc, endian, table, 'reader', rid=0, progress=False)
    # ... and converting preserves everything
    enc2 = r.choice(['ascii', 'cp037'])
    endian2 = '<' if endian == '>' else '>'
    conv = op_write('c', rd, enc2, endian2, table, 'reader', rid=0)
    rd2 = op_open('c', io.BytesIO(conv), table, enc2, endian2, rid=1)
    if rd2 is not None:
        op_readall(rd2, table, rid=1)
    if r.random() < .6:
        # the dataset can be written again: writing it has not changed it
        log.clear()
        op_write('d', mem, r.choice([enc, enc2]), r.choice([endian, endian2]), table, 'ds', dataset_log=log, progress=False)


def scale(n):
    """Long traces and many traces."""
    r = rng('scale', n)
    begin(n=n)
    code = [1, 2, 3, 5, 8][n % 5]
    table = r.choice(['rev1', 'rev0'])
    lens = [[r.randint(1025, 1500), 0, 1100], [r.choice([2100, 4096, 4097]), 5], [1] * r.choice([129, 257]) + [3]][n // 5 % 3]
    ds = random_dataset(r, table, lens=lens, code=code, next_=0)
    op_dataset(ds, table)
    log = []
    endian = r.choice('>><')
    data = op_write('a', MemDataset(ds, table, log=log, reuse=r.random() < .4, hold=holder_for(r, code)), 'ascii', endian, table, 'ds',
                    dataset_log=log, progress=False)
    rd = op_open('a', io.BytesIO(data), table, 'ascii', endian, dim=r.choice([None, 1]), progress=False)
    if rd is not None:
        op_readall(rd, table)
        op_write('b', rd, 'cp037', '<' if endian == '>' else '>', table, 'reader', rid=0, progress=False)


def main():
    standard_formats()
    for n in range(60 if THOROUGH else 15):
        if n % NSHARDS == SHARD:
            session(scale, n)
    for n in range(900 if THOROUGH else 88):
        if n % NSHARDS == SHARD:
            session(one, rng('roundtrip', n), n)


main()
