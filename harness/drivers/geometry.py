"""C05: geometries enumerated by the specification and irregular larger ones."""
from segy import *


def make(r, table, keys, code=8, lens=None):
    reel = raw_reel(r, '>', 'ascii', code)
    return reel + b''.join(raw_trace(r, table, '>', code, 0 if lens is None else lens[k], key) for k, key in enumerate(keys))


def probes(r, keys, more=()):
    out = [[0], [1], [-1], [0, 0], [1, 1]] + [list(p) for p in more]
    for i, x, c in keys:
        out += [[c], [i, x], [x, i], [c + 1 if c < 2**31 - 1 else c - 1], [i, x + 1 if x < 2**31 - 1 else x - 1], [i - 1 if i > -2**31 else i + 1, x]]
    for _ in range(12):
        if keys:
            out.append([r.choice(keys)[0], r.choice(keys)[1]])
    res, seen = [], set()
    for p in out:
        if tuple(p) not in seen:
            seen.add(tuple(p))
            res.append(p)
    return res[:60]


def look(r, data, table, keys, dim):
    op_file('f', data)
    rd = op_open('f', io.BytesIO(data), table, 'ascii', '>', dim=dim, progress=False)
    if rd is None:
        return
    op_index(rd, probes(r, keys))
    if r.random() < .2:
        # asking twice, and after reading, changes nothing
        call(lambda: rd.trace_header(0))
        op_index(rd, probes(r, keys)[:8])


def enumerated(sc, n):
    """keys: one of the model's sequences over a few numbers."""
    r = rng('geometry', n)
    begin(n=n)
    base = r.choice([0, 0, 1, -1, 100, 2**31 - 3, -2**31, 32768])
    step = r.choice([1, 1, 1, 2, 7]) if abs(base) < 2**31 - 100 else 1
    f = lambda v: base + step * v
    keys = [(f(k[0]), f(k[1]), f(k[2])) for k in sc]
    table = r.choice(['rev1', 'rev1', 'rev1', 'moved', 'rev0', 'plain', 'shifted'])
    look(r, make(r, table, keys), table, keys, r.choice([None, None, None, 1, 2, 3]))


def survey(n):
    r = rng('survey', n)
    begin(n=n)
    table = r.choice(['rev1', 'rev1', 'moved', 'rev0', 'swapped', 'shared', 'plain', 'shifted'])
    keys = random_keys(r, r.choice([1, 2, 5, 8, 12, 16, 24]))
    if r.random() < .3:
        # a hole, or a few traces at the end of a regular survey
        for _ in range(r.randint(1, 3)):
            if len(keys) > 1:
                keys.pop(r.randrange(len(keys)))
    if table == 'shared':
        keys = [(i, x, i) for i, x, c in keys]
    look(r, make(r, table, keys), table, keys, r.choice([None, None, None, 1, 2, 3]))


def large(n):
    """Surveys of some thousand traces, given by rules (spec/Survey.tla): the value of a key is the place of its trace in the file."""
    r = rng('large', n)
    begin(n=n)
    p = dict(survey_of(r, r.choice([300, 1100, 2100, 4200, 5000])), v0=0, dv=1, hole=-1)
    m = p['ni'] * p['nj']
    if r.random() < .4:
        p['hole'] = (m - 1) * p['inv'] % m          # the last trace of the file is missing
    repeated = r.random() < .15
    endian, code = r.choice('><'), 8
    at = {f['name']: f['off'] - 1 for f in TABLES['rev1']}
    head = raw_trace(r, 'rev1', endian, code, 0)[:240]
    traces = []
    for t in range(m if p['hole'] < 0 else m - 1):
        key = survey_key(p, t * p['inv'] % m)
        h = bytearray(head)
        if len(key) == 1:
            struct.pack_into(endian + 'i', h, at['ensemble_num'], key[0])
        else:
            struct.pack_into(endian + 'i', h, at['inline_number'], key[0])
            struct.pack_into(endian + 'i', h, at['crossline_number'], key[1])
        traces.append(bytes(h))
    if repeated:
        traces.append(r.choice(traces))
    data = raw_reel(r, endian, 'ascii', code) + b''.join(traces)
    holder = []
    res = call(lambda: create_reader(io.BytesIO(data), encoding='ascii', endian=endian, cache_directory=None),
               lambda x: holder.append(x) or dict(n=to_int(x.num_traces()), kind=3 if hasattr(x, 'inline_numbers') else 2 if hasattr(x, 'cdp_numbers') else 1))
    rec = dict(survey=p, repeated=repeated, res=res, probes=[], headers=[])
    if holder:
        x = holder[0]
        kind = res['v']['kind']
        if kind == 3:
            rec.update(a=call(lambda: list(x.inline_numbers()), to_ints), b=call(lambda: list(x.xline_numbers()), to_ints), na=call(lambda: x.num_inlines(), to_int),
                       nb=call(lambda: x.num_xlines(), to_int), order=call(lambda: list(x.inline_xline_numbers()), lambda ks: [to_ints(k) for k in ks]))
        elif kind == 2:
            rec.update(a=call(lambda: list(x.cdp_numbers()), to_ints), na=call(lambda: x.num_cdps(), to_int))
        if kind > 1:
            some = [survey_key(p, k) for k in [0, 1, m - 1, m // 2, m - 2] + [r.randrange(m) for _ in range(40)]]
            some += [[c + r.choice([-1, 1, 0, 7]) for c in k] for k in some] + [[0, 0][:kind - 1], some[0][::-1]]
            for k in some:
                key = tuple(k) if kind == 3 else k[0]
                rec['probes'].append(dict(key=k, has=call(lambda: x.has_trace_index(key), to_bool), t=call(lambda: x.trace_index(key), to_int)))
        for t in [0, 1, len(traces) - 1, len(traces) // 2] + [r.randrange(len(traces)) for _ in range(10)]:
            rec['headers'].append(dict(t=t, res=call(lambda: x.trace_header(t), header_of(['ensemble_num', 'inline_number', 'crossline_number']))))
    emit('survey', **rec)


def smallest(n, table, dim, traces):
    """Files with no trace, and with one."""
    r = rng('smallest', n)
    begin(n=n)
    keys = [(r.choice([0, 1, -1, 77]), r.choice([0, 1, 5]), r.choice([0, 1, -9]))] * traces
    if table == 'shared':
        keys = [(i, x, i) for i, x, c in keys]
    look(r, make(r, table, keys), table, keys, dim)


def main():
    standard_formats()
    cases = [(table, dim, k) for table in ('rev0', 'rev1', 'moved', 'plain', 'shared', 'shifted') for dim in (None, None, 1, 2, 3) for k in (0, 1, 2)]
    for n, c in enumerate(cases):
        if mine():
            session(smallest, n, *c)
    for n in range(48 if THOROUGH else 14):
        if mine():
            session(large, n)
    for n, sc in enumerate(scenarios('geometries')):
        if (THOROUGH or len(sc) < 3 or rng('pick', n).random() < .35) and mine():
            session(enumerated, sc, n)
    for n in range(1200 if THOROUGH else 130):
        if mine():
            session(survey, n)


main()
