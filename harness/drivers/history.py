"""C04: histories of reads over one shared file position, generated by the specification."""
import pickle
from segy import *
from segpy.header import SubFormatMeta


def history(sc, n):
    r = rng('history', n)
    begin(n=n)
    code = r.choice([1, 2, 3, 5, 8])
    table = r.choice(['rev1', 'rev0', 'moved'])
    endian = r.choice('><')
    x = r.randint(1, 4)
    scale = {-1: r.choice([-1, -2, -3]), 0: 0, 1: x, 2: x + r.randint(1, 5), 3: 0}
    scale[3] = scale[2] + r.choice([1, 1, 2, 40])
    lens = [scale[k] for k in sc['lens']]
    reel = raw_reel(r, endian, 'ascii', code)
    data = reel + b''.join(raw_trace(r, table, endian, code, m, (k, 5 - k, k)) for k, m in enumerate(lens))
    if sc['cut'] >= 0:
        data = data[:len(reel) + r.randint(0, len(data) - len(reel))]
    else:
        data += b'\x01' * r.choice([1, 239])
    op_file('f', data)
    fh = io.BytesIO(data)
    rd = op_open('f', fh, table, 'ascii', endian, dim=r.choice([None, 1, 2, 3]), progress=False)
    if rd is None:
        return
    readers = [(rd, 0)]
    if r.random() < .4:
        # a second reader on the same file object, so the file position is really shared
        fh.seek(0)
        rd2 = op_open('f', fh, table, 'ascii', endian, rid=1, progress=False)
        if rd2 is not None:
            readers.append((rd2, 1))
    subset = r.sample(names(table), r.randint(1, 4))
    packer = make_header_packer(SubFormatMeta('Sub', (), {}, parent_format=FORMATS[table], parent_field_names=subset), endian)
    # what the caller does with a result is its own affair
    mutate = r.random() < .5
    ops = list(sc['ops'])
    if r.random() < .4:
        # ask for the same things again, at once or later
        ops = [x for op in ops for x in (op, op)] if r.random() < .5 else ops + ops
    for op in ops:
        rd, rid = r.choice(readers)
        if op[0] == 'samples':
            a, b = scale[op[2]], scale[op[3]]
            how = r.random()
            if how < .15:
                op_samples(rd, op[1], rid=rid, mutate=mutate)
            elif how < .3:
                op_samples(rd, op[1], a, None, rid=rid, mutate=mutate)
            elif how < .45:
                op_samples(rd, op[1], None, b, rid=rid)
            else:
                op_samples(rd, op[1], a, b, rid=rid, mutate=mutate)
        elif op[0] == 'header':
            if r.random() < .35:
                op_header(rd, op[1], table, rid=rid, packer=packer, nms=subset, mutate=mutate)
            else:
                op_header(rd, op[1], table, rid=rid, mutate=mutate)
            if r.random() < .2:
                count_op(rd, op[1], rid)
        else:
            fh.seek(r.choice([op[1], 3600, len(data), len(data) + 100, r.randint(0, len(data))]))
            emit('move')


def main():
    standard_formats()
    for n, sc in enumerate(scenarios('histories')):
        if mine():
            session(history, sc, n)


main()
