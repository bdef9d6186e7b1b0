"""C10: opening files through the cache; replays histories generated from Cache.tla."""
import os, pickle, shutil, sys, types
import segy, segpy
from segy import *


class DerivedBinaryHeader(BinaryReelHeader):
    pass


# Classes of a user's own module, named as the standard ones are.
segy_users = sys.modules['segy_users'] = types.ModuleType('segy_users')


def settle(cls, module, name):
    cls.__module__, cls.__qualname__, cls.__name__ = module.__name__, name, name
    setattr(module, name, cls)


settle(DerivedBinaryHeader, segy_users, 'BinaryReelHeader')


# A user's format of the binary header under one name: as the standard has it, and with two fields exchanged.
UserBinary = FormatMeta('UserBinary', (BinaryReelHeader,), {})
Exchanged = FormatMeta('UserBinary', (BinaryReelHeader,), dict(
    job_id_num=field(Int32, offset=BinaryReelHeader.line_num.offset, default=0, documentation='exchanged'),
    line_num=field(Int32, offset=BinaryReelHeader.job_id_num.offset, default=0, documentation='exchanged')))
BINARY = [BinaryReelHeader, DerivedBinaryHeader, UserBinary, Exchanged]
EXCHANGED_NAMES = [dict(job_id_num='line_num', line_num='job_id_num').get(n, n) for n in BIN_NAMES]


def contents_of(r, params):
    """Five contents, written with the parameters users will open them with (mostly)."""
    def build(p, ds=None, **kw):
        enc = p['enc'] or r.choice(['ascii', 'cp037'])
        ds = ds or random_dataset(r, p['table'], enc, max_traces=4, max_samples=4, **kw)
        out = io.BytesIO()
        res = call(lambda: write_segy(out, MemDataset(ds, p['table']), encoding=enc, endian=p['endian'], trace_header_format=FORMATS[p['table']]))
        return ds, out.getvalue()
    p = params[1]
    ds, base = build(p, next_=r.choice([0, 0, 1]))
    nms = names(p['table'])
    other = json.loads(json.dumps(ds))
    if other['traces']:
        t = r.choice(other['traces'])
        if t['s'] and r.random() < .3:
            t['s'][-1] = random_sample(r, other['bin'][BIN_NAMES.index('data_sample_format')])
        else:
            f = r.choice([f for f in TABLES[p['table']] if f['name'] != 'num_samples'])
            if r.random() < .5 and 'inline_number' in nms:
                f = [f for f in TABLES[p['table']] if f['name'] in ('inline_number', 'crossline_number', 'ensemble_num')][r.randrange(3)]
            t['h'][nms.index(f['name'])] = random_value(r, f)
    _, same_length = build(p, other)
    if len(base) > 3700 and r.random() < .3:
        b = bytearray(base)
        b[r.choice([len(b) - 1, 3600 + r.randrange(len(b) - 3600), 3205, r.randrange(3200)])] ^= 1
        same_length = bytes(b)
    longer = json.loads(json.dumps(ds))
    if longer['traces']:
        longer['traces'].append(longer['traces'][0])
    _, longer = build(p, longer)
    cut = base[:r.choice([len(base) - 1, r.randint(max(0, len(base) - 300), len(base)), r.randint(3600, len(base)) if len(base) > 3600 else 3600])]
    _, another = build(params[r.choice([1, 2, 3, 4])])
    if r.random() < .15:
        another = another[:r.choice([0, 100, 3599])]
    return ds, {1: base, 2: same_length, 3: longer, 4: cut, 5: another}


def params_of(r):
    tables = ['rev1', 'rev1', 'rev1', 'rev0', 'moved', 'swapped', 'shared'] if r.random() < .6 else ['plain', 'shifted', 'moved', 'plain', 'shifted', 'swapped']
    first_ = dict(enc=r.choice([None, 'ascii', 'cp037']), endian=r.choice('>>><'), table=r.choice(tables), bin=r.choice([0, 0, 0, 2, 3]))
    ps = {1: first_}
    for k in (2, 3, 4):
        p = dict(first_)
        for what in r.sample(['enc', 'endian', 'table', 'bin', 'table'], r.choice([1, 1, 2])):
            others = dict(enc=[None, 'ascii', 'cp037'], endian=['<', '>'], table=tables, bin=[0, 1, 2, 3, 2, 3])[what]
            p[what] = r.choice([x for x in others if x != first_[what]] or others)
        ps[k] = p
    alike = r.randrange(8)
    if alike < 3:
        # formats of the same name, from here and elsewhere, all else being equal
        first_.update(bin=[0, 2, 0][alike], table=['rev1', 'plain', 'moved'][alike])
        ps[2], ps[3], ps[4] = [[dict(first_, bin=1), dict(first_, table='plain'), dict(first_, bin=1, table='plain')],
                               [dict(first_, table='shifted'), dict(first_, bin=3), dict(first_, table='shifted', bin=3)],
                               [dict(first_, table='swapped'), dict(first_, table='plain'), dict(first_, table='shifted')]][alike]
    return ps


FOREIGN = [{}, None, 7, 'reader', [1, 2], dict(reader=1), b'', (), BinaryReelHeader(), 3.5]


USERS = ('moved', 'swapped', 'plain', 'shifted')


class Session:
    def __init__(self, k, ops):
        self.r = r = rng('cached', k)
        self.dir = os.path.join(SCRATCH, 's%d' % k)
        os.mkdir(self.dir)
        self.params = params_of(r)
        self.ds, self.contents = contents_of(r, self.params)
        self.own = r.choice(['.segpy', '.segpy', 'c/deep', '../common', './x/../.segpy'])
        self.shared = os.path.join(self.dir, r.choice(['shared', 'sh/nested/cache', 'd1/inside']))
        for d in ('d1', 'd2'):
            os.mkdir(os.path.join(self.dir, d))
        self.one_name = r.choice([None] + 4 * [(segy, 'userformat')] + 3 * [(segy_users, 'TraceHeaderRev1')])          # user formats under the same name
        self.handles, self.rid, self.pending, self.names = [], 0, None, {}
        self.planted = {}
        for c, data in self.contents.items():
            emit('file', file='c%d' % c, bytes=list(data))
        for op in ops:
            getattr(self, 'do_' + op['op'])(op)
        os.chdir(SCRATCH)
        for fh in self.handles:
            fh.close()
        shutil.rmtree(self.dir, ignore_errors=True)

    # --- the file system
    def path(self, p):
        return os.path.join(self.dir, p[0], p[1])

    def put(self, path, data):
        with open(path, 'wb') as f:
            f.write(data)

    def read(self, path):
        with open(path, 'rb') as f:
            return f.read()

    def content_id(self, path):
        data = self.read(path)
        return next('c%d' % c for c, d in self.contents.items() if d == data)

    def tree(self, but):
        """Everything below the session's directory except the cache location."""
        out = {}
        for top, dirs, files in os.walk(self.dir):
            if but and (os.path.realpath(top) + '/').startswith(but + '/'):
                continue
            for f in files:
                p = os.path.join(top, f)
                out[p] = None if os.path.islink(p) else self.read(p)
        return out

    def entries(self, loc):
        try:
            return {f for f in os.listdir(loc) if os.path.isfile(os.path.join(loc, f))} if loc else set()
        except OSError:
            return set()

    def do_start(self, op):
        for d, n, c in op['fs']:
            self.put(self.path([d, n]), self.contents[c])

    def do_edit(self, op):
        path, data = self.path(op['p']), self.contents[op['c']]
        keep = os.stat(path) if os.path.exists(path) else None
        self.put(path, data)
        if keep and self.r.random() < .5:
            os.utime(path, ns=(keep.st_atime_ns, keep.st_mtime_ns))

    def do_delete(self, op):
        os.unlink(self.path(op['p']))

    def do_copy(self, op):
        shutil.copy2(self.path(op['p']), self.path(op['o']))

    def do_move(self, op):
        os.rename(self.path(op['p']), self.path(op['o']))

    def do_swap(self, op):
        a, b, t = [os.path.join(self.dir, x) for x in (op['a'], op['b'], 'tmp')]
        os.rename(a, t); os.rename(b, a); os.rename(t, b)
        def other(name):
            for x, y in ((a, b), (b, a)):
                if name.startswith(x + '/'):
                    return y + name[len(x):]
            return name
        self.planted = {other(k): v for k, v in self.planted.items()}
        emit('relocate', names=[[k, other(k)] for k in sorted(self.names)])
        self.names = {other(k): v for k, v in self.names.items()}

    # --- entries
    def candidates(self, op):
        """Entries made by opens of the content and parameters in question."""
        return [n for n, (c, q, w) in self.names.items() if (c, q) == ('c%d' % op['c'], op['q']) and os.path.isfile(n)
                and (w == 'shared') == (op['l'] == 'shared')]

    def do_tamper(self, op):
        for n in self.candidates(op)[:1]:
            if op['e'] == 'Nil':
                os.unlink(n)
            elif op['e'] == 'Foreign':
                blob = pickle.dumps(self.r.choice(FOREIGN), self.r.randint(0, 5))
                self.put(n, blob)
                self.planted[n] = blob
            else:
                self.damage(n)

    def damage(self, n):
        r, data = self.r, self.read(n)
        x = r.randrange(11)
        if x >= 8:
            # loading these fails in other ways
            data = r.choice([b'I1x\n.', b'\x80\xff.', b'V\\uZZZZ\n.', b'g5\n.', b'\x8c\x01\xff.', b'X\x01\0\0\0\xff.', b'cos\n\n.', b'0.', b'(lp0\n0',
                             b'csegpy.reader\nNoSuchReader\n.', b'cbuiltins\nint\n(S"x"\ntR.', b'csegpy.reader\nSegYReader\n)R.', b'}(I1\nu.',
                             b'cbuiltins\neval\n(S"1/0"\ntR.', b'\x95\xff\xff\xff\xff\xff\xff\xff\x7f.', b'cbuiltins\nopen\n(S"/no/such"\ntR.'])
        elif x == 0:
            data = b''
        elif x <= 2:
            data = data[:r.randint(0, max(0, len(data) - 1))]
        elif x == 3:
            data = bytes(r.getrandbits(8) | 128 for _ in range(50))
        elif x == 4:
            data = b'\0' * len(data)
        elif x == 5:
            # saved by another version
            v = segpy.__version__.encode()
            data = data.replace(v, v[:-1] + (b'9' if v[-1:] != b'9' else b'8')) if v in data else b''
        elif x == 6:
            # the pickle of something whose class is not there
            data = b'cno_such_module\nNoSuchClass\n.'
        elif x == 7:
            os.unlink(n)
            os.mkdir(n)
            return
        self.put(n, data)

    def do_finish(self, op):
        if self.pending:
            n, full, part = self.pending
            if os.path.isfile(n) and self.read(n) == part:
                self.put(n, full)
        self.pending = None

    def do_crash(self, op):
        self.pending = None

    # --- opening
    def do_slow(self, op):
        self.do_open(op, slow=True)

    def do_open(self, op, slow=False):
        r = self.r
        path = self.path(op['p'])
        if not os.path.isfile(path):
            return                      # an earlier operation was passed over
        file = self.content_id(path)
        q = self.params[op['q']]
        enc, endian, table = q['enc'], q['endian'], q['table']
        if self.one_name and table in USERS:
            settle(FORMATS[table], *self.one_name)
        how = r.choice(['abs'] * 4 + ['rel', 'rel', 'rel_moved', 'bytes', 'raw', 'update', 'append'])
        user = None
        loc, cache, where = None, None, op['w']
        if where == 'unusable':
            x = r.choice(['file', 'below_file', 'long', 'nobody', 'nobody', 'dangling', 'bytesio', 'bytesio_abs', 'descriptor', 'unpicklable_name'])
            plain = os.path.join(self.dir, 'plain')
            if x in ('file', 'below_file'):
                self.put(plain, b'x')
                cache = plain if x == 'file' else os.path.join(plain, 'sub')
            elif x == 'long':
                cache = r.choice(['x' * 300, os.path.join(self.dir, 'y' * 300)])
            elif x == 'nobody':
                user = 65534
                cache = r.choice([self.own, self.shared])
            elif x == 'dangling':
                cache = os.path.join(self.dir, 'dangling')
                if not os.path.islink(cache):
                    os.symlink(os.path.join(self.dir, 'nowhere', 'deep'), cache)
            elif x == 'unpicklable_name':
                cache = os.path.join(self.dir, 'unpicklable')
                how = 'bytesio'
            else:
                cache = r.choice(['.segpy', 'sub/c']) if x != 'bytesio_abs' else os.path.join(self.dir, 'c%d' % self.rid)
                how = x
            if how in ('rel', 'rel_moved') and not os.path.isabs(cache):
                how = 'abs'
        elif where == 'own':
            cache = self.own
        elif where == 'shared':
            cache = self.shared
        if r.random() < .1 and where in ('own', 'shared'):
            import pathlib
            cache = pathlib.Path(cache)
        # the handle
        os.chdir(SCRATCH)
        if how in ('rel', 'rel_moved'):
            os.chdir(os.path.dirname(path))
            fh = open(op['p'][1], 'rb')
            if how == 'rel_moved':
                os.chdir(os.path.join(self.dir, r.choice(['d1', 'd2', '.'])))
        elif how in ('bytesio', 'bytesio_abs'):
            fh = io.BytesIO(self.read(path))
        elif how == 'descriptor':
            fh = os.fdopen(os.open(path, os.O_RDONLY), 'rb')
        else:
            fh = open(os.fsencode(path) if how == 'bytes' else path, dict(update='r+b', append='a+b').get(how, 'rb'), buffering=0 if how == 'raw' else -1)
            fh.seek(0)
        self.handles.append(fh)
        if where in ('own', 'shared'):
            base = os.path.dirname(os.path.realpath(op['p'][1])) if how in ('rel', 'rel_moved') else os.path.dirname(path)
            loc = os.path.realpath(os.path.join(base, cache))
        before_tree, before = self.tree(loc), self.entries(loc)
        foreign = [n for n, blob in self.planted.items() if os.path.isfile(n) and self.read(n) == blob and os.path.dirname(n) == loc]
        keep = {n: self.read(os.path.join(loc, n)) for n in before}
        self.rid += 1
        rid = self.rid
        log, holder = [], []
        kw = dict(trace_header_format=FORMATS[table], endian=endian, cache_directory=cache)
        if enc:
            kw['encoding'] = enc
        if op['m']:
            kw['dimensionality'] = op['m']
        if q['bin'] in (2, 3):
            settle(BINARY[q['bin']], segy, 'UserBinary')
        if q['bin']:
            kw['binary_reel_header_format'] = BINARY[q['bin']]
        elif r.random() < .1:
            kw['binary_reel_header_format'] = BinaryReelHeader
        reporting = r.random() < .5
        if reporting:
            kw['progress'] = progress_recorder(log)
        def run():
            if user is not None:
                os.seteuid(user)
            try:
                rd = create_reader(fh, **kw)
            finally:
                if user is not None:
                    os.seteuid(0)
            holder.append(rd)
            return rd
        if user is not None and os.geteuid() != 0:
            user = None
        res = call(run, view_of(table, EXCHANGED_NAMES if q['bin'] == 3 else BIN_NAMES))
        after = self.entries(loc)
        made = sorted(os.path.join(loc, n) for n in after if n not in before or self.read(os.path.join(loc, n)) != keep[n])
        emit('open', file=file, reader=rid, enc=enc or 'none', endian=endian, table=table, bin=q['bin'], dim=op['m'], res=res, log=log, reporting=reporting, fired='none',
             names=names(table), loc=loc or where, how=how, made=made, foreign=foreign, intact=self.tree(loc) == before_tree or where == 'unusable' and self.data_same(before_tree),
             same_bin=bool(holder) and type(holder[0].binary_reel_header) is BINARY[q['bin']],
             same_file=bool(holder) and self.reads_from(holder[0], fh))
        for n in made:
            self.names[n] = (file, op['q'], where)
            self.planted.pop(n, None)
        if res['k'] == 'ok':
            rd = holder[0]
            if r.random() < .2:
                fh.seek(r.choice([0, 3, 3600]))
            if r.random() < .7:
                op_readall(rd, table, rid)
                op_index(rd, probes_of(self.ds, self.params[1]['table'], r, 4), rid)
            if where == 'unusable' and r.random() < .2:
                call(lambda: pickle.dumps(rd))
        if slow and made:
            full = self.read(made[0])
            part = full[:r.choice([0, 1, len(full) // 2, max(0, len(full) - 1), r.randint(0, len(full))])]
            if part != full:
                self.put(made[0], part)
                self.pending = (made[0], full, part)
        os.chdir(SCRATCH)

    def data_same(self, before):
        """The data files (in d1, d2) which were there are as they were."""
        return all(os.path.isfile(p) and self.read(p) == d for p, d in before.items() if d is not None)

    def reads_from(self, rd, fh):
        """The reader uses the file it was given: its name is that of the handle."""
        from segpy.util import filename_from_handle
        return rd.filename == filename_from_handle(fh)


def big(k):
    """Files of some megabytes, edited at different depths between two opens.  The specification is told
    how the file is composed instead of all of its bytes."""
    r = rng('big', k)
    begin(n=k)
    d = os.path.join(SCRATCH, 'big%d' % k)
    os.mkdir(d)
    path = os.path.join(d, 'f.sgy')
    size = [5500000, 1200000, 140000, 70000, 2200000, 300000, 66000, 9000000][k % 8]
    length = r.choice([30000, 20000, 4000]) if size > 1000000 else r.choice([4000, 1000])
    n = size // (240 + length)
    traces = [dict(n=length, a=100 + j // 10, b=500 + j % 10, c=j + 1, v=j % 100) for j in range(n)]
    head = raw_reel(r, '>', 'ascii', 8)
    def trace(t, full):
        return raw_trace(r0, 'rev1', '>', 8, t['n'], (t['a'], t['b'], t['c']), samples=bytes([t['v']]) * full)
    seen = [json.loads(json.dumps(traces))]
    cache = r.choice(['.segpy', os.path.join(d, 'cache')])
    steps = [0, 0]
    for _ in range(3):
        t2 = json.loads(json.dumps(r.choice(seen)))
        t = t2[r.choice([-1, -1, -1, 0, len(t2) // 2, r.randrange(len(t2))])]
        what = r.choice(['lines', 'lines', 'count', 'value', 'cdp'])
        if what == 'lines':
            t['b'] += 1000 + len(seen)
        elif what == 'cdp':
            t['c'] += 100000 + len(seen)
        elif what == 'value':
            t['v'] = 101 + len(seen)
        else:
            t2[-1]['n'] = length - r.randint(1, 200)
        seen.append(t2)
        steps += [len(seen) - 1] + ([r.randrange(len(seen))] if r.random() < .7 else [])
    try:
        for rid, x in enumerate(steps):
            r0 = rng('big headers', k)        # other fields of the headers are the same every time
            with open(path, 'wb') as f:
                f.write(head + b''.join(trace(t, length) for t in seen[x]))
            with open(path, 'rb') as fh:
                holder = []
                res = call(lambda: create_reader(fh, encoding='ascii', cache_directory=cache), lambda rd: holder.append(rd) or dict(
                    num=to_int(rd.num_traces()), lens=[to_int(rd.num_trace_samples(t)) for t in range(rd.num_traces())], kind=to_int(rd.dimensionality)))
                probes, tails = [], []
                if holder:
                    rd = holder[0]
                    pick = sorted({0, n - 1, n // 2, r.randrange(n)})
                    for y in seen:
                        for j in pick:
                            key = (y[j]['a'], y[j]['b'])
                            probes.append(dict(key=list(key), has=call(lambda: rd.has_trace_index(key), to_bool), t=call(lambda: rd.trace_index(key), to_int)))
                    for j in pick:
                        tails.append(dict(t=j, res=call(lambda: rd.trace_samples(j, 50, 53), samples_of(8)),
                                          h=call(lambda: rd.trace_header(j), header_of(['num_samples', 'inline_number', 'crossline_number', 'ensemble_num']))))
                emit('composed', traces=seen[x], res=res, probes=probes, tails=tails)
    finally:
        shutil.rmtree(d)


def replay(k, ops):
    begin(n=k)
    Session(k, ops)


def main():
    os.chmod(SCRATCH, 0o700)
    standard_formats()
    for n in USERS:
        c = FORMATS[n]
        c.__module__, c.__qualname__ = 'segy', n
        setattr(segy, n, c)
    for k in range(32 if THOROUGH else 8):
        if mine():
            session(big, k)
    for k, s in enumerate(scenarios('cache')):
        if mine():
            session(replay, k, s['ops'])


main()
