"""C08, C09 and the header part of C11: record formats, packers and header objects."""
import copy, enum, gc, pickle
from drv import *
import drv
from segpy.header import field, Header, FormatMeta, SubFormatMeta, are_equal
from segpy.field_types import IntFieldMeta, IntEnumFieldMeta, Int16, Int32, NNInt16, NNInt32
from segpy.packer import make_header_packer, compile_struct
import segpy.trace_header, segpy.binary_reel_header
import struct as struct_

TABLES = json.load(open(os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'tables.json')))
NS = globals()


class Sparse(enum.IntEnum):
    A = 1
    B = 2
    C = 7
    D = -3


class Wide(enum.IntEnum):
    P = 0
    Q = 70000
    R = -2147483648


def made(meta, name, **kw):
    return meta(name, (), {'__module__': __name__}, **kw)


Int8T = made(IntFieldMeta, 'Int8T', seg_y_type='int8')
NNInt8T = made(IntFieldMeta, 'NNInt8T', seg_y_type='nnint8')
SparseT = made(IntEnumFieldMeta, 'SparseT', enum=Sparse)
WideT = made(IntEnumFieldMeta, 'WideT', enum=Wide, seg_y_type='int32')
DayT = made(IntFieldMeta, 'DayT', seg_y_type='nnint16', min_value=1, max_value=366)
NarrowT = made(IntFieldMeta, 'NarrowT', seg_y_type='int32', min_value=-5, max_value=100000)
SmallA = made(IntFieldMeta, 'SmallA', seg_y_type='int16', min_value=-2, max_value=2)
SmallB = made(IntFieldMeta, 'SmallB', seg_y_type='int16', min_value=0, max_value=2)
class OneTwo(enum.IntEnum):
    ONE = 1
    TWO = 2
SmallC = made(IntEnumFieldMeta, 'SmallC', enum=OneTwo)

I16, I32 = (-32768, 32767), (-2**31, 2**31 - 1)
TYPES = dict(int16=(Int16, 2) + I16 + ([],), nnint16=(NNInt16, 2, 0, 32767, []), int32=(Int32, 4) + I32 + ([],), nnint32=(NNInt32, 4, 0, 2**31 - 1, []),
             int8=(Int8T, 1, -128, 127, []), nnint8=(NNInt8T, 1, 0, 127, []), sparse=(SparseT, 2) + I16 + ([1, 2, 7, -3],),
             wide=(WideT, 4) + I32 + ([0, 70000, -2**31],), day=(DayT, 2, 1, 366, []), narrow=(NarrowT, 4, -5, 100000, []),
             smalla=(SmallA, 2, -2, 2, []), smallb=(SmallB, 2, 0, 2, []), smallc=(SmallC, 2) + I16 + ([1, 2],))
TID = {v[0]: k for k, v in TYPES.items()}


def F(name, off, tid, def_=None):
    t = TYPES[tid]
    if def_ is None:
        def_ = 0 if legal(dict(lo=t[2], hi=t[3], vals=t[4]), 0) else (t[4] or [t[2]])[0]
    return dict(name=name, off=off, tid=tid, w=t[1], lo=t[2], hi=t[3], vals=t[4], **{'def': def_})


def legal(f, v):
    return f['lo'] <= v <= f['hi'] and (not f['vals'] or v in f['vals'])


def value(r, f, bad=0.0):
    pool = f['vals'] or [f['lo'], f['hi'], f['lo'] + 1, f['hi'] - 1, f['def'], r.randint(f['lo'], f['hi']), r.randint(f['lo'], f['hi'])]
    if f['lo'] <= 0 <= f['hi'] and not f['vals']:
        pool = pool + [0, 1]
    if r.random() < bad:
        pool = [f['lo'] - 1, f['hi'] + 1, f['lo'] - 7, 0, 8, 2, -1, 32768, -32769, 367, 2**31 - 1, -2**31]
        pool = [v for v in pool if -2**31 <= v < 2**31]
    v = r.choice(pool)
    return v


_n = [0]


def fresh(prefix='Fmt'):
    _n[0] += 1
    return '%s%d' % (prefix, _n[0])


class Format:
    """A format class of the code under test together with how it was declared."""
    def __init__(self, name, cls, fields, start, len_):
        self.name, self.cls, self.fields, self.start, self.len = name, cls, fields, start, len_
        self.packers = {}

    @property
    def effective(self):
        last = {f['name']: f for f in self.fields}
        return [f for f in self.fields if last[f['name']] is f]

    @property
    def overrides(self):
        return len(set(f['name'] for f in self.fields)) < len(self.fields)


def class_text(name, bases, fields, consts):
    return 'class %s(%s):\n    "declared by a user"\n' % (name, ', '.join(bases)) + ''.join('    %s = %r\n' % c for c in consts) + ''.join(
        '    %s = field(TYPES[%r][0], offset=%d, default=%d, documentation="field %s.")\n' % (f['name'], f['tid'], f['off'], f['def'], f['name']) for f in fields)


def describe(cls):
    nms = list(dict.fromkeys(cls.ordered_field_names()))
    return list(cls.ordered_field_names()), [
        dict(name=getattr(cls, n).name, off=to_int(getattr(cls, n).offset), tid=TID.get(getattr(cls, n).value_type, getattr(cls, n).value_type.__name__),
             **{'def': to_int(getattr(cls, n).default)}) for n in nms]


def announce(op, fmt, declared, r, **more):
    """Compile the format and record what came of it."""
    box = []
    endian = r.choice('<>')

    def run():
        p = make_header_packer(fmt.cls, endian)
        box.append(p)
        return p
    d = call(lambda: describe(fmt.cls))
    nms, desc = d['v'] if d['k'] == 'ok' else ([], [])
    res = call(run, lambda p: 0)
    if res['k'] == 'ok':
        def run2():
            # defaults of fields at one position may differ; such a header cannot be packed
            values = {}
            for f in fmt.effective:
                same = [g for g in fmt.effective if g['off'] == f['off']]
                values[f['name']] = same[0]['def']
            return len(box[0].pack(fmt.cls(**values)))
        res = call(run2, to_int)
        fmt.packers[endian] = box[0]
    emit(op, name=fmt.name, names=nms, desc=desc, res=res, start=fmt.start, len=fmt.len, **dict(declared, **more))
    return bool(box)


def declare(r, fields, start, len_, mode=None, alias=None):
    """Declare the format as one class or a hierarchy of classes.  Returns Format or None when refused."""
    name = fresh()
    mode = mode or r.choice(['one', 'one', 'chain', 'chain3', 'bases', 'bases3', 'diamond', 'mixin'])
    consts = ([('START_OFFSET_IN_BYTES', start)] if start != 0 or r.random() < .5 else []) + ([('LENGTH_IN_BYTES', max(len_, 0) if len_ >= -1 else len_)] if len_ != 0 else [])
    cut1, cut2 = sorted(r.randint(0, len(fields)) for _ in range(2))
    parts = dict(one=[fields], chain=[fields[:cut1], fields[cut1:]], chain3=[fields[:cut1], fields[cut1:cut2], fields[cut2:]],
                 bases=[fields[:cut1], fields[cut1:], []], bases3=[fields[:cut1], fields[cut1:cut2], fields[cut2:]],
                 diamond=[[], fields[:cut1], fields[cut1:cut2], fields[cut2:]], mixin=[fields[:cut1], fields[cut1:]])[mode]
    nms = ['%sP%d' % (name, k) for k in range(len(parts) - 1)] + [name]
    bases = dict(one=[['Header']], chain=[['Header'], nms[:1]], chain3=[['Header'], nms[:1], nms[1:2]], bases=[['Header'], ['Header'], nms[:2]],
                 bases3=[['Header'], ['Header'], nms[:2]], diamond=[['Header'], nms[:1], nms[:1], nms[1:3]],
                 mixin=[['metaclass=FormatMeta'], [nms[0], 'Header'] if r.random() < .5 else ['Header', nms[0]]])[mode]
    at = r.randrange(len(parts)) if r.random() < .5 and mode != 'mixin' else len(parts) - 1
    plan = {}
    # a base class may describe a record of another shape, which the derived one redefines
    decoy = at > 0 and mode in ('chain', 'chain3') and len(consts) == 2 and r.random() < .6
    for k, (n, b, fs) in enumerate(zip(nms, bases, parts)):
        exec(class_text(n, b, fs, consts if k == at else [('START_OFFSET_IN_BYTES', start + r.choice([0, 1, 7])), ('LENGTH_IN_BYTES', max(1, len_ + r.choice([-1, 4, 100])))] if decoy and k == 0 else []), NS)
        plan[n] = fs
    cls = NS[name]
    if alias:
        cls.__name__ = cls.__qualname__ = alias
    declared = [f for c in reversed(cls.__mro__) for f in plan.get(name if c is cls else c.__name__, [])]
    fmt = Format(name, cls, declared, start, len_)
    if announce('fmt', fmt, dict(fields=declared), r):
        return fmt
    return None


def shipped(r, which):
    cls = dict(binary=segpy.binary_reel_header.BinaryReelHeader, rev0=segpy.trace_header.TraceHeaderRev0, rev1=segpy.trace_header.TraceHeaderRev1)[which]
    fields = []
    for f in TABLES[which]:
        t = call(lambda: TID.get(getattr(cls, f['name']).value_type, getattr(cls, f['name']).value_type.__name__))
        fields.append(dict(f, tid=t['v'] if t['k'] == 'ok' else '?'))
    fmt = Format(which, cls, fields, 3201 if which == 'binary' else 1, 400 if which == 'binary' else 240)
    return fmt if announce('fmt', fmt, dict(fields=fields), r) else None


def sub_format(r, parent, nms=None):
    nms = nms or r.sample([f['name'] for f in parent.effective], r.randint(1, min(len(parent.effective), 5)))
    name = fresh('Sub')
    res = call(lambda: exec('class %s(metaclass=SubFormatMeta, parent_format=%s, parent_field_names=%s):\n    "a part"\n' % (
        name, 'PARENT', r.choice(['%r' % nms, 'iter(%r)' % nms, 'tuple(%r)' % nms])), dict(NS, PARENT=parent.cls), NS), lambda x: 0)
    if res['k'] != 'ok':
        emit('sub', name=name, parent=parent.name, names=nms, desc=[], res=res, start=parent.start, len=parent.len)
        return None
    by = {f['name']: f for f in parent.effective}
    fmt = Format(name, NS[name], [by[n] for n in nms], parent.start, parent.len)
    return fmt if announce('sub', fmt, dict(parent=parent.name), r) else None


def length(fmt):
    return fmt.len if fmt.len > 0 else max(f['off'] + f['w'] for f in fmt.effective) - fmt.start


def packer(fmt, endian):
    if endian not in fmt.packers:
        fmt.packers[endian] = make_header_packer(fmt.cls, endian)
    return fmt.packers[endian]


def values_for(r, fmt, agree=True):
    vals = {}
    for f in fmt.effective:
        same = [g['name'] for g in fmt.effective if g['off'] == f['off'] and g['name'] in vals]
        vals[f['name']] = vals[same[0]] if same and (agree or r.random() < .5) else value(r, f)
    return vals


def build(r, fmt, vals):
    """A header object with these values, made in one of several ways."""
    way = r.randrange(4)
    if way == 0 or fmt.overrides and way == 1:
        return fmt.cls(**vals)
    if way == 1:
        return fmt.cls(*[vals[n] for n in fmt.cls.ordered_field_names()])
    h = fmt.cls()
    if way == 2:
        for n in r.sample(list(vals), len(vals)):
            setattr(h, n, vals[n])
        return h
    return h.copy(**vals)


def reading(fmt):
    return lambda h: {f['name']: to_int(getattr(h, f['name'])) for f in fmt.effective}


def pack(r, fmt, of, vals, endian):
    emit('pack', fmt=fmt.name, of=of.name, vals=vals, endian=endian, res=call(lambda: packer(fmt, endian).pack(build(r, of, vals)), to_bytes))


def unpack(r, fmt, data, endian):
    def conv(h):
        if type(h) is not fmt.cls:
            raise Shape('not a header of the format')
        return reading(fmt)(h)
    view = r.choice([bytes, bytearray, lambda b: memoryview(bytes(b))])(bytes(data))
    emit('unpack', fmt=fmt.name, bytes=list(data), endian=endian, res=call(lambda: packer(fmt, endian).unpack(view), conv))


def buffer_for(r, fmt, endian, noise):
    """Bytes of a record with legal values (and noise between the fields), or just random bytes."""
    n = length(fmt)
    b = [r.choice([0, 0, 255, 128, r.randrange(256)]) if noise else 0 for _ in range(n)]
    for f in reversed(fmt.effective):
        v = value(r, f)
        o = f['off'] - fmt.start
        if 0 <= o and o + f['w'] <= n:
            b[o:o + f['w']] = list((v % (1 << 8 * f['w'])).to_bytes(f['w'], 'big' if endian == '>' else 'little'))
    return b


def exercise(r, fmt, n=2):
    for _ in range(n):
        endian = r.choice('<>')
        pack(r, fmt, fmt, values_for(r, fmt, r.random() < .8), endian)
        unpack(r, fmt, buffer_for(r, fmt, endian, r.random() < .6), endian)
    x = r.random()
    if x < .3:
        b = buffer_for(r, fmt, '>', False)
        unpack(r, fmt, r.choice([b[:-1], b + [0], [], b + b]), '>')
    elif x < .6:
        unpack(r, fmt, [r.randrange(256) for _ in range(length(fmt))], r.choice('<>'))


def compile_with(r, fmt, start, len_):
    args = dict(start_offset=start, length_in_bytes=None if len_ == 0 else max(len_, 0), endian=r.choice('<>'))
    def run():
        return struct_.calcsize(compile_struct(fmt.cls, **args)[0])
    emit('compile', fmt=fmt.name, start=start, len=len_, res=call(run, to_int))


# --- C08 -----------------------------------------------------------------------------------

def small_format(scn, k):
    r = rng('small', k)
    begin()
    fields = [F('f%s' % 'abcd'[j], off, tid, r.choice([None, None, 5])) for j, (off, tid) in enumerate(scn['fields'])]
    fmt = declare(r, fields, scn['start'], scn['len'])
    if fmt:
        exercise(r, fmt)


def random_fields(r, n, start):
    at, out = start, []
    for j in range(n):
        tid = r.choice(['int16', 'int32', 'nnint16', 'nnint32', 'int8', 'nnint8', 'sparse', 'wide', 'day', 'narrow'])
        at += r.choice([0, 0, 0, 1, 2, 3, 8])
        out.append(F('f%s' % 'abcdefghijkl'[j], at, tid))
        at += out[-1]['w']
    for _ in range(r.choice([0, 0, 1, 2])):
        # one on top of another, mostly of the same type
        f = r.choice(out)
        tid = f['tid'] if r.random() < .85 else r.choice(list(TYPES)[:6])
        out.append(F('c%s' % len(out), f['off'], tid))
    if r.random() < .12:
        f = r.choice(out)
        f['off'] = max(0, f['off'] + r.choice([-3, -1, 1, 2]))
    r.shuffle(out)
    if r.random() < .25:
        # redefine one further down
        f = r.choice(out)
        out.append(F(f['name'], f['off'], f['tid'], None) if r.random() < .5 else F(f['name'], at, r.choice(['int16', 'int32'])))
    return out


def random_format(k):
    r = rng('format', k)
    begin()
    start = r.choice([0, 1, 1, 5, 3201])
    fields = random_fields(r, r.choice([1, 2, 3, 4, 6, 8, 11]), start)
    need = max(f['off'] + f['w'] for f in fields) - start
    len_ = r.choice([0, 0, need, need, need + 1, need + 9, need - 1, max(need, 240)] + ([-1, -5] if r.random() < .2 else []))
    if len_ == 0 and r.random() < 0.02:
        fields = []
    seen = {}
    if any(f['name'] in seen or seen.update({f['name']: 1}) for f in fields):
        # a name can only be declared again in another class
        fields_a = []
        fields_b = []
        seen = set()
        for f in fields:
            (fields_b if f['name'] in seen else fields_a).append(f)
            seen.add(f['name'])
        name = fresh()
        consts = [('START_OFFSET_IN_BYTES', start)] + ([('LENGTH_IN_BYTES', max(len_, 0) if len_ >= -1 else len_)] if len_ else [])
        exec(class_text(name + 'B', ['Header'], fields_a, consts), NS)
        exec(class_text(name, [name + 'B'], fields_b, []), NS)
        fmt = Format(name, NS[name], fields_a + fields_b, start, len_)
        base = Format(name + 'B', NS[name + 'B'], fields_a, start, len_)
        ok = announce('fmt', fmt, dict(fields=fmt.fields), r)
        okb = announce('fmt', base, dict(fields=base.fields), r)
        if ok and okb:
            exercise(r, base)
            vals = values_for(r, fmt)
            if all(legal(f, vals[f['name']]) for f in base.effective):
                pack(r, base, fmt, vals, r.choice('<>'))
            emit('pack_other', fmt=fmt.name, res=call(lambda: packer(fmt, '>').pack(base.cls()), to_bytes))
        if not ok:
            return
    else:
        fmt = declare(r, fields, start, len_)
        if fmt is None:
            return
    exercise(r, fmt, 3)
    for _ in range(2):
        sub = sub_format(r, fmt)
        if sub:
            exercise(r, sub)
            if r.random() < .5:
                subsub = sub_format(r, sub)
                if subsub:
                    exercise(r, subsub, 1)
            emit('pack_other', fmt=sub.name, res=call(lambda: packer(sub, '>').pack(fmt.cls()), to_bytes))
    if r.random() < .5:
        emit('sub_unknown', parent=fmt.name, res=call(lambda: exec('class Unknown_(metaclass=SubFormatMeta, parent_format=P_, parent_field_names=[%r, "no_such"]):\n  pass\n' % fmt.effective[0]['name'],
                                                     dict(NS, P_=fmt.cls), {}), lambda x: 0))
    for _ in range(3):
        lo = min(f['off'] for f in fmt.effective)
        s = r.choice([start, 0, lo, lo + 1, max(0, lo - 3), -1])
        n = max(f['off'] + f['w'] for f in fmt.effective) - s
        compile_with(r, fmt, s, r.choice([0, n, n - 1, n + 1, n + 30, -1]) if n > 1 else 0)
    # the first packer still does what it did
    exercise(r, fmt, 1)


def namesakes(k):
    """Formats of the same name and with the same field names which are nevertheless different."""
    r = rng('namesakes', k)
    begin()
    n = r.choice([1, 2, 3, 5])
    tids = [r.choice(['int16', 'int32', 'nnint16', 'sparse', 'day']) for _ in range(n)]
    fmts = []
    len_ = r.choice([0, 40, 240])
    for _ in range(r.choice([2, 3, 4])):
        if r.random() < .4:
            tids = [r.choice(['int16', 'int32', 'nnint16', 'sparse', 'day']) for _ in range(n)]
        at, fields = 1, []
        for j in range(n):
            at += r.choice([0, 0, 1, 2, 4])
            fields.append(F('f%s' % 'abcde'[j], at, tids[j]))
            at += fields[-1]['w']
        if r.random() < .3:
            offs = [f['off'] for f in fields]
            if len({f['w'] for f in fields}) == 1:
                r.shuffle(offs)
                for f, o in zip(fields, offs):
                    f['off'] = o
        fmt = declare(r, fields, r.choice([1, 1, 0]), len_, 'one', alias='Namesake')
        if fmt:
            fmts.append(fmt)
            exercise(r, fmt, 1)
    for _ in range(2):
        for fmt in fmts:
            exercise(r, fmt, 1)
    for fmt in fmts:
        # packers made anew as well
        fmt.packers = {}
        exercise(r, fmt, 1)
        sub = sub_format(r, fmt, [f['name'] for f in fmt.effective][:2])
        if sub:
            sub.cls.__name__ = sub.cls.__qualname__ = 'SubNamesake'
            exercise(r, sub, 1)


def shipped_formats(k):
    r = rng('shipped', k)
    begin()
    fmt = shipped(r, ['rev1', 'rev0', 'binary'][k % 3])
    if fmt is None:
        return
    exercise(r, fmt, 2)
    for _ in range(3):
        sub = sub_format(r, fmt)
        if sub:
            exercise(r, sub, 2)
    if k % 3 == 0:
        base = shipped(r, 'rev0')
        if base:
            pack(r, base, fmt, values_for(r, fmt), r.choice('<>'))
            emit('pack_other', fmt='rev1', res=call(lambda: packer(fmt, '>').pack(base.cls()), to_bytes))


# --- C09 -----------------------------------------------------------------------------------

OTHER = ['abc', '', None, object, [], 1j, float('nan'), float('inf'), b'q', {}]
HUGE = [2**31, -2**31 - 1, 2**32 + 1, 2**40, 2**64, -2**70]


def offer(r, x):
    if x['k'] == 'huge':
        return r.choice(HUGE)
    if x['k'] == 'other':
        return r.choice(OTHER)
    v = x['v']
    w = r.randrange(6)
    if w == 0 and v in (1, 2):
        return OneTwo(v)
    if w == 1:
        return Int32(v)
    if w == 2 and v in (0, 1):
        return bool(v)
    if w == 3:
        import numpy
        return numpy.int32(v)
    return v


class World:
    """The live headers of a history."""
    def __init__(self, r):
        self.r, self.live, self.of = r, {}, {}

    def snapshot(self):
        out = []
        for i in sorted(self.live):
            v = call(lambda: reading(self.of[i])(self.live[i]))
            out.append(dict(id=i, v=v['v'] if v['k'] == 'ok' else {'unreadable': 0}))
        return out

    def args(self, ups):
        return {u['n']: offer(self.r, u['x']) for u in ups}

    def put(self, i, fmt, fn):
        box = []
        def run():
            box.append(fn())
            return box[0]
        res = call(run, lambda h: 0)
        if res['k'] == 'ok':
            self.live[i], self.of[i] = box[0], fmt
        return res

    def new(self, i, fmt, ups, pos=()):
        if fmt.overrides:
            pos = ()
        nms = [f['name'] for f in fmt.effective]
        pos = [dict(n=n, x=x) for n, x in zip(nms, pos)]
        args = [offer(self.r, p['x']) for p in pos]
        res = self.put(i, fmt, lambda: fmt.cls(*args, **self.args(ups)))
        emit('new', id=i, fmt=fmt.name, pos=pos, ups=ups, res=res, all=self.snapshot())

    def set(self, i, n, x):
        v = offer(self.r, x)
        res = call(lambda: setattr(self.live[i], n, v), lambda x: 0)
        emit('set', id=i, ups=[dict(n=n, x=x)], res=res, all=self.snapshot())

    def copy(self, i, j, ups):
        h = self.live[i]
        via = self.r.choice(['copy', 'copy', 'copy.copy', 'copy.deepcopy']) if not ups else 'copy'
        fn = dict({'copy.copy': lambda: copy.copy(h), 'copy.deepcopy': lambda: copy.deepcopy(h), 'copy': lambda: h.copy(**self.args(ups))})[via]
        res = self.put(j, self.of[i], fn)
        emit('copy', of=i, id=j, ups=ups, via=via, res=res, all=self.snapshot())

    def drop(self, i):
        del self.live[i]
        if self.r.random() < .3:
            gc.collect()
        emit('drop', id=i, all=self.snapshot())

    def equal(self, i, j):
        emit('equal', a=i, b=j, res=call(lambda: are_equal(self.live[i], self.live[j]), to_bool))

    def delete(self, i, n):
        emit('delete', id=i, n=n, res=call(lambda: delattr(self.live[i], n), lambda x: 0), all=self.snapshot())

    def compare_some(self):
        ids = sorted(self.live)
        if len(ids) > 1:
            self.equal(*self.r.sample(ids, 2))
        elif ids:
            self.equal(ids[0], ids[0])


def trail(scn, k):
    r = rng('trail', k)
    begin()
    a = declare(r, [F('fa', 1, 'smalla', 0), F('fb', 3, 'smallc', 1)], 1, 8, r.choice(['one', 'chain', 'bases']))
    b = declare(r, [F('fa', 1, 'smallb', 2)], 1, 8, 'one')
    if not a or not b:
        return
    w = World(r)
    fm = dict(A=a, B=b)
    for e in scn:
        if e[0] == 'new':
            w.new(e[1], fm[e[2]], e[3])
        elif e[0] == 'set':
            if e[1] in w.live:
                w.set(e[1], e[2], dict(k='int', v=e[3]))
        elif e[0] == 'copy':
            if e[1] in w.live:
                w.copy(e[1], e[2], e[3])
        elif e[1] in w.live:
            w.drop(e[1])
        w.compare_some()


def offered(r, f):
    x = r.random()
    if x < .62:
        return dict(k='int', v=value(r, f))
    if x < .84:
        return dict(k='int', v=value(r, f, 1))
    return dict(k=r.choice(['huge', 'other']))


def random_history(k, big):
    r = rng('history', k, big)
    begin()
    fmts = []
    if big:
        fmts = [shipped(r, n) for n in r.sample(['rev1', 'rev0', 'binary'], 2)]
        fmts.append(declare(r, [F('fa', 0, 'day'), F('fb', 2, 'int32')], 0, 0))
    else:
        for _ in range(3):
            fields = [f for f in random_fields(r, r.choice([1, 2, 4, 7]), 1)]
            seen = {}
            fields = [f for f in fields if not (f['name'] in seen or seen.update({f['name']: 1}))]
            for f in fields:
                f['def'] = value(r, f)
            fmts.append(declare(r, fields, 0, 0))
    fmts = [f for f in fmts if f]
    if not fmts:
        return
    if r.random() < .5:
        part = sub_format(r, r.choice(fmts))
        if part:
            fmts.append(part)
    w = World(r)
    for _ in range(12 if big else 25):
        ids = sorted(w.live)
        op = r.choice(['new', 'new', 'set', 'set', 'set', 'copy', 'copy', 'drop', 'equal', 'delete'])
        if op == 'new' or not ids:
            fmt = r.choice(fmts)
            eff = fmt.effective
            ups = [dict(n=f['name'], x=offered(r, f) if r.random() < .25 else dict(k='int', v=value(r, f))) for f in r.sample(eff, r.randint(0, min(3, len(eff))))]
            if r.random() < .1:
                ups.append(dict(n=r.choice(['no_such', 'LENGTH_IN_BYTES', 'copy', '_ordered_field_names', '__class__', 'ordered_field_names']), x=dict(k='int', v=1)))
            pos = [dict(k='int', v=value(r, f)) if r.random() < .9 else offered(r, f) for f in eff[:r.choice([0, 0, 1, 2, len(eff)])]]
            w.new(r.randint(1, 4), fmt, ups, pos)
        else:
            i = r.choice(ids)
            eff = w.of[i].effective
            f = r.choice(eff)
            if op == 'set':
                w.set(i, f['name'], offered(r, f))
            elif op == 'copy':
                ups = [dict(n=g['name'], x=offered(r, g)) for g in r.sample(eff, r.choice([0, 0, 1, min(2, len(eff))]))]
                if r.random() < .08:
                    ups.append(dict(n='no_such', x=dict(k='int', v=1)))
                j = r.choice([x for x in range(1, 5) if x != i])
                w.copy(i, j, ups)
            elif op == 'drop':
                w.drop(i)
            elif op == 'delete':
                w.delete(i, f['name'])
            w.compare_some()


def every_field(which, part, parts):
    """Boundary values of every field of a shipped format."""
    r = rng('every', which, part)
    begin()
    fmt = shipped(r, which)
    if not fmt:
        return
    w = World(r)
    w.new(1, fmt, [])
    for f in fmt.effective[part::parts]:
        lo, hi = f['lo'], f['hi']
        inside = [lo, hi] + f['vals']
        outside = [lo - 1, hi + 1] + [v + d for v in f['vals'] for d in (-1, 1)]
        for v in dict.fromkeys(inside + outside):
            x = dict(k='int', v=v) if -2**31 <= v < 2**31 else dict(k='huge')
            if r.random() < .7:
                w.set(1, f['name'], x)
            else:
                w.new(2, fmt, [dict(n=f['name'], x=x)])
    w.equal(1, 1)


def bad_defaults(k):
    r = rng('default', k)
    begin()
    for tid in TYPES:
        f = F('fa', 0, tid)
        x = offered(r, f)
        v = r.choice(HUGE) if x['k'] == 'huge' else r.choice(OTHER) if x['k'] == 'other' else x['v']
        emit('bad_default', field=f, x=x, res=call(lambda: field(TYPES[tid][0], offset=0, default=v, documentation='x'), lambda x: 0))


# --- C11 -----------------------------------------------------------------------------------

def pickling(k):
    r = rng('pickling', k)
    begin()
    kind = k % 4
    if kind == 0:
        fmt = shipped(r, r.choice(['rev1', 'rev0', 'binary']))
    else:
        fields = random_fields(r, r.choice([1, 2, 3, 5, 8]), 0)
        seen = {}
        fields = [f for f in fields if not (f['name'] in seen or seen.update({f['name']: 1}))]
        fmt = declare(r, fields, 0, 0)
    if fmt and kind == 3:
        fmt = sub_format(r, fmt) or fmt
    if not fmt:
        return
    w = World(r)
    for _ in range(6):
        ups = [dict(n=f['name'], x=dict(k='int', v=value(r, f))) for f in fmt.effective if r.random() < .7]
        w.new(1, fmt, ups)
        if 1 not in w.live:
            return
        read = reading(fmt)
        before = call(lambda: read(w.live[1]))
        if before['k'] != 'ok':
            return
        proto = r.randint(0, pickle.HIGHEST_PROTOCOL)
        box = []
        def run():
            h = pickle.loads(pickle.dumps(w.live[1], proto)) if r.random() < .8 else copy.deepcopy(w.live[1])
            if type(h) is not fmt.cls:
                raise Shape('another type')
            box.append(h)
            return h
        res = call(run, read)
        sep = dict(k='ok', t='', m=[], v=True)
        if res['k'] == 'ok':
            w.live[2], w.of[2] = box[0], fmt
            def apart():
                f = r.choice(fmt.effective)
                v = value(r, f)
                setattr(box[0], f['name'], v)
                ok = read(w.live[1]) == before['v'] and read(box[0]) == dict(res['v'], **{f['name']: v})
                setattr(box[0], f['name'], before['v'][f['name']])
                return ok
            sep = call(apart)
        after = call(lambda: read(w.live[1]))
        emit('pickle', of=1, id=2, proto=proto, before=before['v'], res=res, after=after.get('v', {'unreadable': 0}), separate=sep)
        # packers
        endian = r.choice('<>')
        pbox = []
        def repack():
            pbox.append(pickle.loads(pickle.dumps(packer(fmt, endian), proto)))
            return 0
        made_ = call(repack)
        agreeing = call(lambda: build(r, fmt, values_for(r, fmt, r.random() < .8)))
        if agreeing['k'] != 'ok':
            return
        h = agreeing['v']
        data = bytes(buffer_for(r, fmt, endian, True) if r.random() < .7 else [r.randrange(256) for _ in range(length(fmt) - (r.random() < .2))])
        none = dict(k='exc', t='', m=[], d='')
        rd = lambda x: (read(x) if type(x) is fmt.cls else {'another': 0})
        emit('repack', fmt=fmt.name, made=made_, old=call(lambda: packer(fmt, endian).pack(h), to_bytes),
             new=call(lambda: pbox[0].pack(h), to_bytes) if pbox else none,
             read_old=call(lambda: packer(fmt, endian).unpack(data), rd), read_new=call(lambda: pbox[0].unpack(data), rd) if pbox else none)
        # pickles of another version of the library
        for obj in (w.live[1], packer(fmt, endian)):
            emit('stale', res=call(lambda: pickle.loads(dumps_of_another_version(r, obj, proto)), lambda x: 0))


def main():
    p = ARGS.prop
    if p == 'C08':
        for k, scn in enumerate(scenarios('formats')):
            if mine():
                session(small_format, scn, k)
        for k in range(6000 if THOROUGH else 600):
            if mine():
                session(random_format, k)
        for k in range(150 if THOROUGH else 24):
            if mine():
                session(shipped_formats, k)
        for k in range(600 if THOROUGH else 60):
            if mine():
                session(namesakes, k)
    elif p == 'C09':
        for k, scn in enumerate(scenarios('trails')):
            if mine():
                session(trail, scn, k)
        for k in range(5000 if THOROUGH else 400):
            if mine():
                session(random_history, k, False)
        for k in range(300 if THOROUGH else 40):
            if mine():
                session(random_history, k, True)
        for which in ('rev1', 'rev0', 'binary'):
            for part in range(8):
                if mine():
                    session(every_field, which, part, 8)
        for k in range(100 if THOROUGH else 16):
            if mine():
                session(bad_defaults, k)
    else:
        for k in range(1200 if THOROUGH else 160):
            if mine():
                session(pickling, k)


main()
