"""C20: arrays extracted from surveys with gaps and short traces."""
import numpy as np
from segy import *
from segpy_numpy import extract as X


class Named:
    def __init__(self, name):
        self.name = name


def cell_of(code):
    def conv(x):
        if code in (1, 5):
            return list(struct.pack('>f', np.float32(x)))
        return to_int(x)
    return conv


def array_of(code):
    """Projection of an array; code 0 for header values."""
    cell = cell_of(code)
    zero = [0, 0, 0, 0] if code in (1, 5) else 0

    def conv(a):
        if not isinstance(a, np.ndarray):
            raise Shape('not an array: %r' % (a,))
        masked = isinstance(a, np.ma.MaskedArray)
        data = np.ma.getdata(a)
        mask = np.ma.getmaskarray(a)
        if data.ndim == 1:
            vals = [cell(x) for x in data] if not mask.any() else []
            m = []
        elif data.ndim == 2:
            vals = [[zero if h else cell(x) for x, h in zip(r, hr)] for r, hr in zip(data, mask)]
            m = [[int(h) for h in hr] for hr in mask]
        else:
            raise Shape('%d dimensions' % data.ndim)
        return dict(shape=[int(n) for n in data.shape], dtype=[data.dtype.kind, int(data.dtype.itemsize)], masked=masked, vals=vals, mask=m)
    return conv


def arrays_of(r):
    return dict(names=[str(n) for n in r._fields], arrays=[array_of(0)(a) for a in r])


def to_selector(r, sel):
    """A selector as the user gives it."""
    if sel['k'] == 'all':
        return None
    if sel['k'] == 'slice':
        step = None if sel['step'] == 1 and r.random() < .5 else sel['step']
        return slice(sel['start'][0] if sel['start'] else None, sel['stop'][0] if sel['stop'] else None, step)
    items = list(sel['items'])
    if items and r.random() < .5:
        # a range, when it is one
        steps = {y - x for x, y in zip(items, items[1:])}
        if len(items) == 1:
            return range(items[0], items[0] + 1)
        if len(steps) == 1 and steps != {0}:
            d = steps.pop()
            return range(items[0], items[-1] + (1 if d > 0 else -1), d)
    return r.choice([list, tuple])(items)


ALL = dict(k='all', items=[], start=[], stop=[], step=1)


def seq(items):
    return dict(ALL, k='seq', items=list(items))


def op_extract(r, rd, what, number, a, b, null, nms=None, table='rev1', rid=0, kwargs=True):
    code = code_of(rd)
    sa, sb = to_selector(r, a), to_selector(r, b)
    fields = [n if r.random() < .5 else (Named(n) if r.random() < .5 else getattr(FORMATS[table], n)) for n in nms or []]
    kw = {}
    if null is not None:
        kw['null'] = null
    if what == 'inline':
        fn = lambda: X.extract_inline_3d(rd, number, xline_numbers=sa, sample_numbers=sb, **kw)
    elif what == 'xline':
        fn = lambda: X.extract_xline_3d(rd, number, inline_numbers=sa, sample_numbers=sb, **kw)
    elif what == 'timeslice':
        fn = lambda: X.extract_timeslice_3d(rd, number, inline_numbers=sa, xline_numbers=sb, **kw)
    elif what == 'headers':
        fn = lambda: X.extract_trace_header_field_3d(rd, fields, inline_numbers=sa, xline_numbers=sb, **kw)
    elif what == 'trace':
        fn = lambda: X.extract_trace(rd, number, sb)
    else:
        how = r.random()
        idx = None if a['k'] == 'all' else iter(a['items']) if how < .3 else range(a['items'][0], a['items'][0] + 1) if len(a['items']) == 1 else list(a['items'])
        fn = (lambda: X.extract_trace_headers(rd, fields)) if idx is None and how < .5 else (lambda: X.extract_trace_headers(rd, fields, idx))
    header = what in ('headers', 'rows')
    null_cell = [] if null is None else [cell_of(0 if header else code)(null)]
    res = call(fn, arrays_of if header else array_of(code))
    emit('extract', reader=rid, what=what, number=number, a=a, b=b, null=null_cell, names=nms or [], res=res)


def choose_null(r, code):
    if r.random() < .45:
        return None
    if code in (1, 5):
        return r.choice([0, 0.0, -999.25, -1, float('inf'), 1e30])
    return r.choice([0, 0, -1, 1, 99])


def survey(r, keys, lens, table=None, code=None):
    """A file with traces at the given places; returns the open reader."""
    table = table or r.choice(['rev1', 'rev1', 'moved', 'swapped'])
    code = code or r.choice([1, 2, 3, 5, 8])
    endian = r.choice('><')
    order = list(range(len(keys)))
    if r.random() < .4:
        r.shuffle(order)
    data = raw_reel(r, endian, 'ascii', code) + b''.join(
        raw_trace(r, table, endian, code, lens[k], (keys[k][0], keys[k][1], k), noise=r.random() < .5, legal=True) for k in order)
    op_file('f', data)
    rd = op_open('f', io.BytesIO(data), table, 'ascii', endian, dim=3 if r.random() < .3 else None, progress=False)
    return rd, table, code


def header_names(r, table):
    nms = names(table)
    return r.sample(nms, r.choice([1, 1, 2, 4, len(nms)]))


def requested(sc, n):
    r = rng('requested', n)
    begin(n=n)
    # the lines of the model are spread over numbers of a real survey
    ai, bi = r.choice([(1, 0), (1, 100), (2, 10), (7, -5), (10, 1000), (-1, 9), (-3, 0), (1, 2**31 - 10)])
    ax, bx = r.choice([(1, 0), (1, 50), (3, 10), (2, -4), (100, 1000), (-1, 2), (-5, 5), (1, -2**31 + 1)])
    inl = lambda x: ai * x + bi
    xl = lambda x: ax * x + bx
    keys = [(inl(k[0]), xl(k[1])) for k in sc['keys']]
    lens = sc['lens']
    same = lambda x: x
    fn = dict(inline=(inl, xl, same), xline=(xl, inl, same), timeslice=(same, inl, xl), headers=(same, inl, xl))[sc['what']]
    sel = lambda s, f: dict(s, items=[f(x) for x in s['items']])
    rd, table, code = survey(r, keys, lens)
    if rd is None or not hasattr(rd, 'inline_numbers'):
        return
    a, b = sel(sc['a'], fn[1]), sel(sc['b'], fn[2])
    number = fn[0](sc['number'])
    nms = header_names(r, table) if sc['what'] == 'headers' else None
    null = choose_null(r, 0 if nms else code) if nms is None else r.choice([None, 0, 7])
    op_extract(r, rd, sc['what'], number, a, b, null, nms, table)
    # variations on it
    for _ in range(3):
        what = r.choice(['inline', 'xline', 'timeslice', 'headers'])
        f = dict(inline=(inl, xl, same), xline=(xl, inl, same), timeslice=(same, inl, xl), headers=(same, inl, xl))[what]
        nms = header_names(r, table) if what == 'headers' else None
        null = choose_null(r, code) if nms is None else r.choice([None, 0, 7])
        axis = lambda g: seq(sorted({g(x) for x in range(3)} & {k[0] for k in keys} | set()) if g is inl else sorted({g(x) for x in range(3)} & {k[1] for k in keys}) if g is xl else [0])
        pick = lambda s, g: ALL if r.random() < .4 else sel(s, g) if r.random() < .6 else axis(g)
        op_extract(r, rd, what, f[0](r.choice([0, 1, 2, sc['number']])), pick(sc['a'], f[1]), pick(sc['b'], f[2]), null, nms, table)
    single(r, rd, table, code, len(keys), lens)


def single(r, rd, table, code, nt, lens):
    for _ in range(2):
        t = r.choice([-1, nt, r.randint(0, max(0, nt - 1)), r.randint(0, max(0, nt - 1)), r.randint(0, max(0, nt - 1))])
        n = call(lambda: rd.num_trace_samples(t), to_int) if 0 <= t < nt else dict(k='no')
        n = n['v'] if n['k'] == 'ok' else 1
        op_extract(r, rd, 'trace', t, ALL, selector(r, range(n), n), None)
    for _ in range(2):
        idx = ALL if r.random() < .4 else seq([r.randrange(nt) for _ in range(r.randint(0, 5))] if nt else [])
        if r.random() < .15:
            idx = seq([r.choice([-1, nt])])
        op_extract(r, rd, 'rows', 0, idx, ALL, None, header_names(r, table), table)


def selector(r, nums, n):
    """Any selector over the numbers nums, sometimes not a subset of them."""
    nums = list(nums)
    p = r.random()
    if p < .2:
        return ALL
    if p < .45:
        b = [[], [0], [1], [-1], [n // 2], [-(n // 2) - 1], [n], [n + 3]]
        return dict(ALL, k='slice', start=r.choice(b), stop=r.choice(b), step=r.choice([1, 1, 2, 3, -1, -2]))
    if not nums:
        return seq([])
    if p < .7:
        i = r.randrange(len(nums))
        j = r.randrange(i, len(nums))
        items = nums[i:j + 1:r.choice([1, 1, 2, 3])]
        if r.random() < .3:
            items.reverse()
        return seq(items)
    items = [r.choice(nums) for _ in range(r.randint(0, 6))]
    if r.random() < .2:
        items.insert(r.randrange(len(items) + 1), r.choice([nums[-1] + 1, nums[0] - 1 if nums[0] > -2**31 else nums[0], nums[0] + 1 if nums[0] < 2**31 - 1 else nums[0]]))
    return seq(items)


def arbitrary(n):
    """Larger surveys, longer traces, every sample format."""
    r = rng('arbitrary', n)
    begin(n=n)
    ni, nx = r.choice([(1, 1), (1, 6), (5, 1), (3, 4), (4, 3), (2, 7), (6, 6)])
    di, dx = r.choice([1, 2, 5]), r.choice([1, 3, 10])
    keys = [(10 + di * i, 200 + dx * x) for i in range(ni) for x in range(nx)]
    gaps = r.choice([0, 0, 1, len(keys) // 3, len(keys) // 2])
    for _ in range(gaps):
        keys.pop(r.randrange(len(keys)))
    if not keys:
        return
    m = r.choice([1, 5, 12, 40])
    style = r.choice(['same', 'same', 'varied', 'one_short', 'one_long', 'growing'])
    lens = dict(same=[m] * len(keys), varied=[r.randint(0, m) for _ in keys], one_short=[m] * len(keys), one_long=[m // 2] * len(keys),
                growing=[min(m, k) for k in range(len(keys))])[style]
    if style == 'one_short':
        lens[r.randrange(len(keys))] = r.choice([0, m - 1])
    if style == 'one_long':
        lens[r.randrange(len(keys))] = m
    rd, table, code = survey(r, keys, lens, code=[1, 2, 3, 5, 8][n % 5])
    if rd is None:
        return
    inls, xls = sorted({k[0] for k in keys}), sorted({k[1] for k in keys})
    top = max(lens)
    for _ in range(5):
        what = r.choice(['inline', 'xline', 'timeslice', 'headers'])
        axes = dict(inline=(inls, xls, range(top)), xline=(xls, inls, range(top)), timeslice=(range(top), inls, xls), headers=([0], inls, xls))[what]
        pool = list(axes[0]) or [0]
        number = r.choice(pool) if r.random() < .9 else r.choice([pool[-1] + 1, pool[0] - 1, -1])
        nms = header_names(r, table) if what == 'headers' else None
        null = choose_null(r, code) if nms is None else r.choice([None, 0, 7])
        op_extract(r, rd, what, number, selector(r, axes[1], len(axes[1])), selector(r, axes[2], len(axes[2])), null, nms, table)
    single(r, rd, table, code, len(keys), lens)


def long(n):
    """Few long traces."""
    r = rng('long', n)
    begin(n=n)
    m = r.choice([1025, 1500, 2050, 4097])
    keys = [(1, 5), (1, 6)] if n % 2 == 0 else [(1, 5), (2, 5)]
    lens = r.choice([[m, m], [m, m - 1000], [3, m]])
    rd, table, code = survey(r, keys, lens, code=[3, 1, 5, 8, 2][n % 5])
    if rd is None:
        return
    what = 'inline' if n % 2 == 0 else 'xline'
    b = [ALL, dict(ALL, k='slice', start=[-5], stop=[]), dict(ALL, k='slice', start=[1000], stop=[], step=3), seq(range(0, m, 7)), seq([0, m // 2, m - 1]), ALL][n % 6]
    op_extract(r, rd, what, 1 if n % 2 == 0 else 5, ALL, b, choose_null(r, code))
    op_extract(r, rd, 'timeslice', m - 1, ALL, ALL, choose_null(r, code))
    op_extract(r, rd, 'trace', lens.index(m), ALL, b, None)


def main():
    standard_formats()
    for n in range(48 if THOROUGH else 12):
        if mine():
            session(long, n)
    for n, sc in enumerate(scenarios('requests')):
        if mine():
            session(requested, sc, n)
    for n in range(1600 if THOROUGH else 200):
        if mine():
            session(arbitrary, n)


main()
