"""C21: datasets which delegate to others, through several levels, with some aspects overridden."""
from segy import *
from segpy.dataset import DelegatingDataset

ASPECTS = ['text', 'bin', 'ext', 'headers', 'samples', 'enc', 'endian', 'dim', 'num', 'indexes']
NOTHING = {a: [] for a in ASPECTS}
ENCODINGS = ['ascii', 'cp037', 'null']


class Known:
    """What the driver needs to know of a dataset in order to override parts of it; not an oracle."""

    def __init__(self, ds):
        self.total = self.num = len(ds['traces'])
        self.lens = [len(t['s']) for t in ds['traces']]
        self.indexes = list(range(self.total))
        self.bin = ds['bin']

    code = property(lambda self: self.bin[BIN_NAMES.index('data_sample_format')])


def override(r, known, table, aspects):
    """Random values for some aspects, in the form in which they are described to the specification."""
    ov = dict(NOTHING)
    n = known.total
    if 'text' in aspects:
        ov['text'] = [random_text(r, 'ascii')]
    if 'bin' in aspects:
        b = [random_value(r, f) for f in TABLES['binary']]
        for keep in ('data_sample_format', 'num_extended_textual_headers'):
            b[BIN_NAMES.index(keep)] = known.bin[BIN_NAMES.index(keep)]
        if 'samples' in aspects or not n:
            # all the samples in another format
            b[BIN_NAMES.index('data_sample_format')] = r.choice([1, 2, 3, 5, 8])
        ov['bin'], known.bin = [b], b
    if 'ext' in aspects:
        ov['ext'] = [random_ext(r, 'ascii', r.choice([0, 1, 2]), False)]
    if 'enc' in aspects:
        ov['enc'] = [r.choice(ENCODINGS)]
    if 'endian' in aspects:
        ov['endian'] = [r.choice('><')]
    if 'dim' in aspects:
        ov['dim'] = [r.choice([0, 1, 2, 3])]
    if 'num' in aspects and n:
        # the traces there are have numbers below the count
        least = max(known.indexes + [0]) + 1 if 'indexes' not in aspects else r.randint(0, n)
        known.num = r.randint(least, n)
        ov['num'] = [known.num]
    if 'indexes' in aspects:
        known.indexes = r.choice([[], r.sample(range(known.num), r.randint(0, known.num)), list(range(known.num)), list(range(known.num))[::-1],
                                  list(range(0, known.num, 2)), [r.randrange(known.num) for _ in range(3)] if known.num else []])
        ov['indexes'] = [known.indexes]
    which = list(range(n)) if 'bin' in aspects else r.sample(range(n), r.randint(1, n)) if n else []
    if 'samples' in aspects:
        for t in which:
            if 'headers' in aspects and r.random() < .5:
                known.lens[t] = r.randint(0, 6)
            ov['samples'] = ov['samples'] + [dict(t=t, v=[random_sample(r, known.code) for _ in range(known.lens[t])])]
    if 'headers' in aspects:
        for t in which:
            h = [random_value(r, f) for f in TABLES[table]]
            h[names(table).index('num_samples')] = known.lens[t]
            by = {}
            for f, v in zip(TABLES[table], h):
                by.setdefault(f['off'], v)
            ov['headers'] = ov['headers'] + [dict(t=t, v=[by[f['off']] for f in TABLES[table]])]
    return ov


def make_class(r, ov, table, code):
    """Overrides as properties, methods or plain attributes, or inherited from a mixed-in class."""
    ns = {}

    def prop(name, v):
        ns[name] = v if r.random() < .3 else property(lambda self: v)
    if ov['text']:
        prop('textual_reel_header', tuple(map(text_of, ov['text'][0])))
    if ov['bin']:
        prop('binary_reel_header', make_header(BinaryReelHeader, BIN_NAMES, ov['bin'][0]))
    if ov['ext']:
        prop('extended_textual_header', [[text_of(l) for l in p] for p in ov['ext'][0]])
    if ov['enc']:
        prop('encoding', None if ov['enc'][0] == 'null' else ov['enc'][0])
    if ov['endian']:
        prop('endian', ov['endian'][0])
    if ov['dim']:
        prop('dimensionality', ov['dim'][0])
    if ov['num']:
        ns['num_traces'] = lambda self: ov['num'][0]
    if ov['indexes']:
        hold = r.choice([list, tuple, iter, lambda x: (i for i in x)])
        ns['trace_indexes'] = lambda self: hold(ov['indexes'][0])
    if ov['headers']:
        hs = {x['t']: make_header(FORMATS[table], names(table), x['v']) for x in ov['headers']}
        ns['trace_header'] = lambda self, t: hs[t] if t in hs else DelegatingDataset.trace_header(self, t)
    if ov['samples']:
        ss = {x['t']: samples_to_python(x['v'], code) for x in ov['samples']}
        ns['trace_samples'] = lambda self, t, start=None, stop=None: (
            ss[t][start:stop] if t in ss else DelegatingDataset.trace_samples(self, t, start, stop))
    if r.random() < .3:
        return type('Mixed', (type('Mixin', (), ns), DelegatingDataset), {})
    return type('Overriding', (DelegatingDataset,), ns)


def text_or_null(x):
    return 'null' if x is None else str(x)


def expose(d, source, rid, table, known, r, under, strict):
    nms = names(table)
    code = known.code
    parts = []
    for t in range(known.total):
        n = known.lens[t]
        for _ in range(2):
            a, b = r.choice([[], [r.randint(0, n)], [r.randint(-n - 2, n + 2)]]), r.choice([[], [r.randint(0, n)], [r.randint(-n - 2, n + 2)]])
            args = (a + [None])[:1] + b
            if a and not b and r.random() < .5:
                ask = lambda: d.trace_samples(t, start=a[0])
            elif b and not a:
                ask = lambda: d.trace_samples(t, stop=b[0])
            else:
                ask = lambda: d.trace_samples(t, *args)
            parts.append(dict(t=t, start=a, stop=b, res=call(ask, samples_of(code))))
    outside = [known.total, known.total + 7] + ([-1] if strict else [])
    emit('expose', source=source, rid=rid, num=call(lambda: d.num_traces(), to_int),
         indexes=call(lambda: list(d.trace_indexes()), to_ints),
         text=call(lambda: d.textual_reel_header, lines_of), bin=call(lambda: d.binary_reel_header, header_of(BIN_NAMES)),
         ext=call(lambda: d.extended_textual_header, pages_of),
         enc=call(lambda: d.encoding, text_or_null), endian=call(lambda: d.endian, text_or_null), dim=call(lambda: d.dimensionality, to_int),
         format=call(lambda: d.data_sample_format, lambda f: str(getattr(f, 'value', f))),
         description=call(lambda: d.data_sample_format_description, str),
         own_source=under is None or d.source is under, strict=strict,
         headers=[call(lambda: d.trace_header(t), header_of(nms)) for t in range(known.total)],
         samples=[call(lambda: d.trace_samples(t), samples_of(code)) for t in range(known.total)], parts=parts,
         absent=[call(lambda: f(t), lambda x: 0) for t in outside for f in (d.trace_header, d.trace_samples)])


def delegating(n, kind, levels):
    r = rng('delegate', n)
    begin(n=n)
    table, enc, endian = r.choice(['rev1', 'rev0']), r.choice(['ascii', 'cp037']), r.choice('><')
    ds = random_dataset(r, table, enc, max_traces=5, max_samples=6)
    # a dataset in memory may or may not say something about its encoding and byte order
    attrs = dict(enc=r.choice(['none', enc, 'null']), endian=r.choice(['none', endian, 'null']), dim=r.choice([0, 0, 1, 2, 3]))
    emit('dataset', ds=ds, table=table, attrs=attrs)
    ns = {}
    for name, key in (('encoding', 'enc'), ('endian', 'endian')):
        if attrs[key] != 'none':
            ns[name] = None if attrs[key] == 'null' else attrs[key]
    ns['dimensionality'] = property(lambda self: attrs['dim'])
    d = type('Memory', (MemDataset,), ns)(ds, table)
    source, rid, known = 'ds', 0, Known(ds)
    if kind == 'reader':
        data = op_write('a', MemDataset(ds, table, enc=enc), enc, endian, table, 'ds', progress=False)
        d = op_open('a', io.BytesIO(data), table, enc, endian, progress=False)
        if d is None:
            return
        source = 'reader'
    for level, aspects in enumerate(levels):
        ov = override(r, known, table, [a for a in ASPECTS if aspects[a]])
        name = 'd%d' % level
        emit('derive', name=name, source=source, rid=rid, over=ov)
        under, d = d, make_class(r, ov, table, known.code)(d)
        source = name
        expose(d, source, rid, table, known, r, under, kind == 'reader')
    enc = r.choice([None, None, 'ascii', 'cp037'])
    once = known.indexes == list(range(known.num))
    op_write('b', d, enc, r.choice('><'), table, source, rid=rid, progress=once and r.random() < .5)
    if enc is not None:
        op_write('c', d, enc, r.choice('><'), table, source, rid=rid, progress=False)


def main():
    chains = scenarios('chains')
    for n, c in enumerate(chains):
        if mine():
            session(delegating, n, c['src'], c['levels'])


main()
