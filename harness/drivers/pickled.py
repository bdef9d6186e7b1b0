"""C11: readers which are pickled and restored."""
import copy, os, pickle
import segy, segpy
from segy import *


def bare(res):
    """Outcome without the text of the message."""
    return dict(k=res['k'], t=res['t'], **({'v': res['v']} if 'v' in res else {}))


def observe(rd, table, probes, here=os.path.realpath):
    """Everything a reader shows.  here: what to make of its file name."""
    code, nms = code_of(rd), names(table)
    out = dict(view=bare(call(lambda: rd, view_of(table))))
    n = call(lambda: rd.num_traces(), to_int)
    n = n['v'] if n['k'] == 'ok' else 0
    out['headers'] = [bare(call(lambda: rd.trace_header(t), header_of(nms))) for t in range(n)]
    out['samples'] = [bare(call(lambda: rd.trace_samples(t), samples_of(code))) for t in range(n)]
    kind = 3 if hasattr(rd, 'inline_numbers') else 2 if hasattr(rd, 'cdp_numbers') else 1
    out['type'] = type(rd).__name__
    if kind == 3:
        out['lines'] = [bare(call(lambda: list(rd.inline_numbers()), to_ints)), bare(call(lambda: list(rd.xline_numbers()), to_ints)),
                        bare(call(lambda: list(rd.inline_xline_numbers()), lambda ks: [to_int(x) for k in ks for x in k]))]
    elif kind == 2:
        out['lines'] = [bare(call(lambda: list(rd.cdp_numbers()), to_ints))]
    if kind > 1:
        out['probes'] = []
        for p in probes:
            if len(p) == kind - 1:
                key = tuple(p) if len(p) == 2 else p[0]
                out['probes'].append([bare(call(lambda: rd.has_trace_index(key), lambda b: int(to_bool(b)))), bare(call(lambda: rd.trace_index(key), to_int))])
    out['filename'] = bare(call(lambda: here(rd.filename), text_codes))
    return out


def text_codes(s):
    return [ord(c) for c in s]


def use(r, rd, n):
    """Some use of the reader, as a user might make before pickling it."""
    for _ in range(r.choice([0, 0, 1, 3])):
        t = r.randint(0, max(n - 1, 0))
        x = r.randrange(6)
        call(lambda: rd.trace_samples(t) if x == 0 else rd.trace_header(t) if x == 1 else rd.max_num_trace_samples() if x == 2
             else rd.inline_numbers() if x == 3 else rd.num_inlines() if x == 4 else rd.cdp_numbers())


def pickling(k):
    r = rng('pickled', k)
    begin(n=k)
    d = os.path.join(SCRATCH, 'p%d' % k)
    os.mkdir(d)
    path = os.path.join(d, 'f.segy')
    table, endian, enc = r.choice(['rev1', 'rev1', 'rev0', 'moved', 'swapped']), r.choice('><'), r.choice(['ascii', 'cp037'])
    ds = random_dataset(r, table, enc)
    op_dataset(ds, table)
    data = op_write('f', MemDataset(ds, table), enc, endian, table, 'ds', progress=False)
    if r.random() < .25:
        cut = r.randint(max(3600, len(data) - 300), len(data))
        op_cut('f', 'f', data, cut)
        data = data[:cut]
    with open(path, 'wb') as f:
        f.write(data)
    mode = r.choice(['rb', 'rb', 'r+b', 'a+b', 'x+b', 'w+b'])
    if mode == 'x+b':
        os.unlink(path)
    fh = open(path, mode, buffering=r.choice([-1, -1, 0, 64]))
    if mode in ('x+b', 'w+b'):
        fh.write(data)
        fh.flush()
    fh.seek(0)
    dim = r.choice([None, None, 1, 2, 3])
    kw = dict(encoding=enc, trace_header_format=FORMATS[table], endian=endian, dimensionality=dim)
    if r.random() < .3:
        kw['cache_directory'] = r.choice(['.segpy', os.path.join(d, 'c')])
        call(lambda: create_reader(open(path, 'rb'), **kw))
    made = call(lambda: create_reader(fh, **kw))
    if made['k'] != 'ok':
        return
    rd = made['v']
    probes = probes_of(ds, table, r, 4)
    use(r, rd, len(ds['traces']))
    proto = r.randint(0, pickle.HIGHEST_PROTOCOL)
    blob = call(lambda: pickle.dumps(rd, proto))
    fresh_ = r.random() < .5
    old = observe(rd, table, probes) if fresh_ else None
    moved = r.random() < .3
    back = os.getcwd()
    if moved:
        fh.seek(r.choice([0, 5, 3600, len(data)]))
    for rid in (1, 2):
        def restore():
            if rid == 2 and r.random() < .3:
                return copy.deepcopy(rd)
            if blob['k'] != 'ok':
                return pickle.loads(pickle.dumps(rd, proto))
            return pickle.loads(blob['v']) if rid == 1 else pickle.loads(pickle.dumps(new[0], proto)) if new else pickle.loads(blob['v'])
        holder = []
        res = call(lambda: holder.append(restore()) or holder[0], lambda x: observe(x, table, probes))
        if old is None:
            old = observe(rd, table, probes)
        new = holder
        reads = []
        if holder:
            nt = len(ds['traces'])
            code = code_of(rd)
            for _ in range(5):
                t = r.randint(-1, nt)
                a, b = r.choice([None, 0, 1, 3]), r.choice([None, 0, 1, 4, 9])
                fn = r.choice([lambda x: (lambda: x.trace_samples(t, a, b), samples_of(code)), lambda x: (lambda: x.trace_header(t), header_of(names(table)))])
                reads.append(dict(a=bare(call(*fn(rd))), b=bare(call(*fn(holder[0])))))
        emit('repickle', of=0, reader=rid, proto=proto, old=old, res=bare(res), reads=reads, after=observe(rd, table, probes))
    # the ways in which a reader cannot be restored
    def refused(why, fn):
        here = os.path.exists(path)
        res = call(fn, lambda x: 0)
        emit('unpicklable', why=why, res=res, created=os.path.exists(path) and not here)
    if blob['k'] == 'ok':
        stale = dumps_of_another_version(r, rd, proto)
        refused('version', lambda: pickle.loads(stale))
        os.rename(path, path + '.gone')
        refused('missing', lambda: pickle.loads(blob['v']))
        os.rename(path + '.gone', path)
    fh.close()
    refused('closed', lambda: pickle.dumps(rd, proto))
    mem = call(lambda: create_reader(io.BytesIO(data), encoding=enc, trace_header_format=FORMATS[table], endian=endian, dimensionality=dim))
    if mem['k'] == 'ok':
        use(r, mem['v'], len(ds['traces']))
        refused('unnamed', lambda: pickle.dumps(mem['v'], proto))
    with os.fdopen(os.open(path, os.O_RDONLY), 'rb') as nameless:
        mem = call(lambda: create_reader(nameless, encoding=enc, trace_header_format=FORMATS[table], endian=endian))
        if mem['k'] == 'ok':
            refused('descriptor', lambda: pickle.dumps(mem['v'], proto))
    os.chdir(back)


def life(scn, k):
    """A life of readers and pickles made by the specification."""
    r = rng('life', k)
    begin(n=k)
    d = os.path.join(SCRATCH, 'l%d' % k)
    home, away = os.path.join(d, 'home'), os.path.join(d, 'away')
    os.makedirs(home), os.makedirs(away)
    names_ = dict(a=os.path.join(home, 'a.segy'), b=os.path.join(home, 'b.segy'), gone=os.path.join(d, 'elsewhere'))
    table, endian, enc = r.choice(['rev1', 'rev1', 'rev0', 'moved', 'swapped']), r.choice('><'), r.choice(['ascii', 'cp037'])
    ds = random_dataset(r, table, enc)
    op_dataset(ds, table)
    data = op_write('f', MemDataset(ds, table), enc, endian, table, 'ds', progress=False)
    at = 'a'
    with open(names_[at], 'wb') as f:
        f.write(data)
    dim = r.choice([None, None, 1, 2, 3])
    probes = probes_of(ds, table, r, 3)
    readers, blobs, closed = {}, {}, set()
    back = os.getcwd()
    os.chdir(home)
    try:
        for op in scn['ops']:
            if op[0] == 'open':
                face = op[2]
                if face == 'memory':
                    fh = io.BytesIO(data)
                elif face == 'descriptor':
                    fh = os.fdopen(os.open(names_[at], os.O_RDONLY), 'rb')
                else:
                    name = names_[at] if face == 'absolute' else os.path.basename(names_[at])
                    fh = open(name if r.random() < .8 else os.fsencode(name), r.choice(['rb', 'rb', 'r+b', 'a+b']), buffering=r.choice([-1, 0, 64]))
                    fh.seek(0)
                rd = op_open('f', fh, table, enc, endian, dim=dim, rid=op[1], progress=False, face=face)
                if rd is None:
                    return
                readers[op[1]] = (rd, fh)
                closed.discard(op[1])
                continue
            if op[0] == 'move':
                os.rename(names_[at], names_[op[1]])
                at = op[1]
                emit('p_move', to=at)
                continue
            if op[0] == 'go':
                os.chdir(dict(home=home, away=away)[op[1]])
                emit('p_go', to=op[1])
                continue
            if op[0] == 'load':
                if op[1] in blobs:
                    before = sorted(os.listdir(home)), os.listdir(away)
                    holder = []
                    res = call(lambda: holder.append(pickle.loads(blobs[op[1]])) or holder[0], lambda x: [x and observe(x, table, probes, os.path.basename)])
                    emit('p_load', blob=op[1], reader=op[2], res=res, created=(sorted(os.listdir(home)), os.listdir(away)) != before)
                    if res['k'] == 'ok':
                        readers[op[2]] = (holder[0], None)
                        closed.discard(op[2])
                continue
            if op[1] not in readers:
                continue
            rd, fh = readers[op[1]]
            if op[0] == 'close':
                if fh is not None:
                    fh.close()
                    closed.add(op[1])
                    emit('p_close', reader=op[1])
            elif op[0] == 'dump':
                view = [observe(rd, table, probes, os.path.basename)] if r.random() < .5 and op[1] not in closed else []
                proto = r.randint(0, pickle.HIGHEST_PROTOCOL)
                box = []
                res = call(lambda: box.append(pickle.dumps(rd, proto) if op[3] == 'this' else dumps_of_another_version(r, rd, proto)), lambda x: 0)
                if res['k'] == 'ok':
                    blobs[op[2]] = box[0]
                    view = view or [observe(rd, table, probes, os.path.basename)]
                emit('p_dump', reader=op[1], blob=op[2], version=op[3], res=res, view=view)
            elif op[1] in closed:
                t = r.randrange(len(ds['traces'])) if ds['traces'] else 0
                if ds['traces']:
                    emit('p_unreadable', reader=op[1], res=call(lambda: rd.trace_header(t) if r.random() < .5 else rd.trace_samples(t), lambda x: 0))
            else:
                t = r.randint(-1, len(ds['traces']))
                x = r.randrange(5)
                if x == 0:
                    op_readall(rd, table, rid=op[1])
                elif x == 1:
                    op_index(rd, probes, rid=op[1])
                elif x == 2:
                    op_header(rd, t, table, rid=op[1], mutate=r.random() < .5)
                else:
                    op_samples(rd, t, r.choice([None, 0, 1, 3]), r.choice([None, 0, 1, 4, 9]), rid=op[1], mutate=r.random() < .5)
    finally:
        os.chdir(back)


def main():
    standard_formats()
    for n, c in FORMATS.items():
        if n in ('moved', 'swapped', 'shared'):
            # user formats are found by name when pickled
            c.__module__, c.__qualname__ = 'segy', n
            setattr(segy, n, c)
    for k in range(1500 if THOROUGH else 160):
        if mine():
            session(pickling, k)
    for k, scn in enumerate(scenarios('lives')):
        if mine():
            session(life, scn, k)


main()
