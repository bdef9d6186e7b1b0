"""C15, C16: IBM floats."""
from drv import *
import itertools, math, operator
from fractions import Fraction
from numbers import Rational, Real
import numpy
from segpy import ibm_float, ibm_float_packer
from segpy.ibm_float import IBMFloat, ibm2ieee, ieee2ibm


def exact(b):
    """The double denoted by four bytes, computed here; checked by the specification."""
    return math.ldexp((-1 if b[0] & 128 else 1) * (b[1] << 16 | b[2] << 8 | b[3]), 4 * ((b[0] & 127) - 64) - 24)


def real(x):
    """Projection of a real number: [s, e, hi, lo], or [0] NaN, [1] and [-1] infinities."""
    if isinstance(x, IBMFloat):
        x = exact(bytes(x))
    if isinstance(x, (float, numpy.floating)):
        x = float(x)
        if math.isnan(x):
            return [0]
        if math.isinf(x):
            return [1 if x > 0 else -1]
        x = Fraction(x)
    elif isinstance(x, (int, numpy.integer)) and not isinstance(x, bool):
        x = Fraction(int(x))
    elif not isinstance(x, Fraction):
        raise Shape('not a real number: %r' % (x,))
    if x == 0:
        return [0, 0, 0, 0]
    n, d = abs(x.numerator), x.denominator
    e = n.bit_length() - d.bit_length()
    if (n << max(0, -e)) >= (d << max(0, e)):
        e += 1
    k = 53 - e                          # n/d * 2^k has 53 bits before the point
    q, r = divmod(n << max(0, k), d << max(0, -k))
    assert 1 << 52 <= q < 1 << 53
    return [int(x < 0), e, q >> 29, (q & (1 << 29) - 1) << 1 | int(r != 0)]


def to_float(x):
    if not isinstance(x, float):
        raise Shape('not a float: %r' % (x,))
    return real(x)


def to_whole(x):
    if not isinstance(x, int) or isinstance(x, bool):
        raise Shape('not an int: %r' % (x,))
    return real(x)


def to_ibm(x):
    if not isinstance(x, IBMFloat):
        raise Shape('not an IBMFloat: %r' % (x,))
    b = bytes(x)
    if type(b) is not bytes or len(b) != 4:
        raise Shape('not four bytes: %r' % (b,))
    return list(b)


def to_four(b):
    if not isinstance(b, (bytes, bytearray)) or len(b) != 4:
        raise Shape('not four bytes: %r' % (b,))
    return list(b)


def do(fn, conv):
    r = call(fn, conv)
    if r['k'] == 'ok':
        del r['t'], r['m']
    return r


def batches(items, n=100):
    items = list(items)
    for k in range(0, len(items), n):
        if mine():
            yield items[k:k + n]


# --- numbers of interest ----------------------------------------------------------------------

def mantissas(r, n):
    ms = {0, 1, 2, 3, 0xF, 0x10, 0x11, 0xFF, 0x100, 0xFFF, 0x1000, 0xFFFF, 0x10000, 0xFFFFF, 0x100000, 0x100001, 0x1FFFFF, 0x200000, 0x7FFFFF,
          0x800000, 0x800001, 0xF00000, 0xFFFFFE, 0xFFFFFF, 0x123456, 0x10000F, 0x0F0000, 0x088888}
    if THOROUGH:
        ms |= {1 << k for k in range(24)} | {(1 << k) - 1 for k in range(25)} | {0xFFFFFF ^ (1 << k) - 1 for k in range(24)}
    ms |= {r.randrange(1 << r.randint(1, 24)) for _ in range(n)}
    return sorted(ms)


def fours():
    """Four byte patterns of every sign and exponent."""
    r = rng('fours')
    for e in range(128):
        for s in (0, 128):
            for m in mantissas(r, 12 if THOROUGH else 4):
                yield bytes([s | e, m >> 16, m >> 8 & 255, m & 255])


def whole_fours():
    """Those around the integers."""
    r = rng('whole')
    for e in list(range(62, 72)) + [0, 1, 127]:
        for s in (0, 128):
            for m in mantissas(r, 12):
                yield bytes([s | e, m >> 16, m >> 8 & 255, m & 255])
            # integers, halves and neighbours at this exponent
            for _ in range(12):
                bits = max(0, min(24, 4 * (70 - e)))            # bits after the point
                n = r.choice([r.getrandbits(24), r.getrandbits(8), 1, 2, 3, 4, 5])
                m = (n << bits | r.choice([0, 0, 1 << bits >> 1, (1 << bits >> 1) + 1, max(0, (1 << bits >> 1) - 1), 1, max(0, (1 << bits) - 1)])) & 0xFFFFFF
                yield bytes([s | e, m >> 16, m >> 8 & 255, m & 255])


def doubles():
    r = rng('doubles')
    for e in range(-290, 262):
        for s in (1, -1):
            his = [1 << 23, (1 << 23) + 1, (1 << 24) - 1, 0xC00000] + [1 << 23 | r.getrandbits(23) & ~((1 << r.choice([0, 0, 3, 4, 7, 20])) - 1) for _ in range(8 if THOROUGH else 2)]
            # all ones below the first n bits: truncation must not round up
            his += [0xFFFFFF ^ (1 << r.randint(0, 22))]
            for hi in his:
                for lo in {0, 1, (1 << 29) - 1, r.getrandbits(29), r.choice([1 << 28, 3, (1 << 28) - 1])}:
                    yield s * math.ldexp((hi << 29) + lo, e - 53)
    for s in (1, -1):
        for x in (0.0, 5e-324, 1e-323, 2.2250738585072014e-308, 2.225073858507201e-308, 1e-300, 1e-100, 1e76, 1e100, 1.7976931348623157e308, math.pi, 0.1, 1 / 3, 100.0, 118.625):
            yield s * x
        for x in (16.0 ** 63, (1 - 2.0 ** -24) * 16.0 ** 63, math.ldexp(1, -280), math.ldexp(1, -260), math.ldexp(1, -256), math.ldexp(1, -284), math.ldexp(15, -284)):
            for y in (x, math.nextafter(x, math.inf), math.nextafter(x, 0.0)):
                yield s * y
    for _ in range(20000 if THOROUGH else 2000):
        yield r.choice([1, -1]) * math.ldexp(r.random(), r.choice([r.randint(-285, 256), r.randint(-30, 30)]))


def others(r, near):
    """Real numbers to use together with a number near the double `near`."""
    yield near
    yield math.nextafter(near, math.inf)
    yield math.nextafter(near, -math.inf)
    yield Fraction(near)
    yield Fraction(near) + Fraction(r.choice([1, -1]), 3 * 10 ** r.randint(1, 400))
    if abs(near) < 1e300:
        yield int(near)
        yield int(near) + r.choice([-1, 0, 1])
    yield r.choice([0, 0.0, -0.0, 1, -1, 0.5, True])


def extremes():
    return [math.nan, math.inf, -math.inf, 1.7e308, -1.7e308, 5e-324, -5e-324, 10 ** 400, -10 ** 400, 2 ** 252, 2 ** 1024, 0, 1, -1,
            Fraction(1, 3), Fraction(-1, 3), Fraction(10 ** 500 + 1, 3), Fraction(1, 10 ** 500), Fraction(10 ** 30 + 1, 10 ** 30), 2 ** 53 + 1, numpy.float64(0.1)]


# --- C15 --------------------------------------------------------------------------------------

def decoding():
    hows = dict(float=lambda b: float(IBMFloat(b)), ibm2ieee=lambda b: ibm2ieee(b), from_bytes=lambda b: float(IBMFloat.from_bytes(b)),
                bytearray=lambda b: ibm2ieee(bytearray(b)), tuple=lambda b: float(IBMFloat(tuple(b))), longer=lambda b: ibm2ieee(b + b'\xff'))
    for k, batch in enumerate(batches(fours())):
        begin()
        for how in ('float', 'ibm2ieee', list(hows)[2 + k % 4]):
            emit('f_decode', how=how, items=[dict(b=list(b), r=do(lambda: hows[how](b), to_float)) for b in batch])
        emit('f_again', items=[dict(b=list(b), r=do(lambda: ieee2ibm(ibm2ieee(b)), to_four)) for b in batch])


def encoding():
    hows = dict(ieee2ibm=(ieee2ibm, to_four), from_float=(IBMFloat.from_float, to_ibm), from_real=(IBMFloat.from_real, to_ibm),
                without=(IBMFloat.from_float_without_underflow, to_ibm))
    r = rng('encoding')
    def run(name, xs, lenient=False):
        fn, conv = hows[name]
        emit('f_encode', how=name, lenient=lenient, items=[dict(x=real(x), r=do(lambda: fn(x), conv)) for x in xs])
    for k, batch in enumerate(batches(doubles())):
        begin()
        run('ieee2ibm', batch)
        run(r.choice(['from_float', 'from_real']), batch)
        run('without', batch, True)
        run('ieee2ibm', [numpy.float64(x) for x in batch[:10]])
    for k, batch in enumerate(batches(extremes() + [float('nan'), -math.nan])):
        begin()
        for name in hows:
            run(name, [x for x in batch if isinstance(x, float)], name == 'without')
    if mine():
        begin()
        ints = sorted({s * (2 ** k + d) for k in range(54) for d in (-1, 0, 1) for s in (1, -1) if 2 ** k + d <= 2 ** 53} | {r.getrandbits(r.randint(1, 53)) for _ in range(200)})
        run('from_real', ints)
        run('from_float', ints)
        run('ieee2ibm', [2 ** k for k in range(0, 260)])
        run('from_real', [Fraction(n, 2 ** d) for n in (1, 3, -5, 16, 2 ** 24 - 1, -2 ** 24 - 1, 2 ** 53 - 1) for d in range(0, 300, 7)])
        run('from_real', [numpy.float32(x) for x in (0.1, -1.5, 3e38, 1e-45, 100)] + [numpy.int16(n) for n in (0, 1, -32768, 32767)] + [numpy.int32(n) for n in (2 ** 31 - 1, -2 ** 31)])


def sequences():
    r = rng('sequences')
    n = 400 if THOROUGH else 120
    pool = list(itertools.islice(doubles(), 0, None, 37))
    fpool = list(itertools.islice(fours(), 0, None, 11))
    for k in range(n):
        r = rng('sequence', k)
        if not mine():
            continue
        begin()
        xs = []
        for _ in range(r.choice([0, 1, 2, 3, 7, 40])):
            c = r.randrange(8)
            xs.append(IBMFloat(r.choice(fpool)) if c < 3 else r.randint(-2 ** 53, 2 ** 53) if c == 3 else
                      r.choice(pool) if r.random() < .3 or k % 3 == 0 else r.uniform(-1, 1) * 10.0 ** r.randint(-70, 70))
        for j in range(1, len(xs)):
            if r.random() < .15:
                # the same value again, in any type which holds it
                x = xs[j - 1]
                try:
                    v = float(x)
                    alike = [v, IBMFloat.from_float(v)] + [IBMFloat(bytes([bytes(x)[0] & 128 | e, 0, 0, 0])) for e in (1, 64, 127) if isinstance(x, IBMFloat) and v == 0]
                    alike += [int(v)] if v == int(v) and abs(v) < 2 ** 53 else []
                    xs[j] = r.choice(alike)
                except Exception:
                    pass
        rec = [dict(k='ibm', b=list(bytes(x))) if isinstance(x, IBMFloat) else dict(k='real', v=real(x)) for x in xs]
        make = r.choice([list, tuple, iter, lambda v: (x for x in v)])
        emit('f_pack', xs=rec, res=call(lambda: ibm_float_packer.pack_ibm_floats(make(xs)), to_bytes))
        if xs and all(isinstance(x, float) for x in xs):
            emit('f_pack', xs=rec, res=call(lambda: ibm_float_packer.pack_ibm_floats(numpy.array(xs)), to_bytes))
        m = r.choice([0, 1, 2, 5, 30])
        data = b''.join(r.choice(fpool) for _ in range(m))
        if m and k % 3 == 0:
            # neighbours of equal value in other representations
            fs = []
            for _ in range(m):
                f = fs[-1] if fs and r.random() < .6 else r.choice(fpool)
                e, frac = f[0] & 127, int.from_bytes(f[1:], 'big')
                if frac == 0:
                    f = bytes([r.randrange(256)]) + f[1:]
                elif frac % 16 == 0 and e < 127 and r.random() < .5:
                    f = bytes([f[0] + 1]) + (frac // 16).to_bytes(3, 'big')
                elif frac < 2 ** 20 and e > 0:
                    f = bytes([f[0] - 1]) + (frac * 16).to_bytes(3, 'big')
                fs.append(f)
            data = b''.join(fs)
        extra = r.choice([0, 0, 0, 1, 3, 4])
        short = r.choice([0, 0, 0, 1, 2, 4, 5]) if m else 0
        data = (data + bytes(extra))[:max(0, len(data) + extra - short)]
        def unpack():
            return ibm_float_packer.unpack_ibm_floats(data, m)
        def to_all(conv):
            return lambda xs: [conv(x) for x in xs]
        emit('f_unpack', data=list(data), n=m, bytes=call(unpack, to_all(lambda x: to_four(bytes(x)))), reals=call(unpack, to_all(lambda x: to_float(float(x)))))
        n_b = r.choice([0, 1, 2, 3, 4, 4, 5, 8])
        b = bytes(r.getrandbits(8) for _ in range(n_b))
        how = r.choice([IBMFloat, IBMFloat.from_bytes])
        emit('f_construct', b=list(b), res=call(lambda: how(r.choice([bytes, tuple, list, bytearray])(b)), to_ibm))


# --- C16 --------------------------------------------------------------------------------------

def unary(b):
    x = IBMFloat(b)
    def pair(v, d):
        if not isinstance(v, int):
            raise Shape('not an int: %r' % (v,))
        return [real(v), real(v + d)]
    def split(fe):
        f, e = fe
        return dict(f=to_float(f), e=to_int(e))
    return dict(b=list(b), signbit=do(lambda: x.signbit, to_bool), zero=do(x.is_zero, to_bool), truth=do(lambda: bool(x), to_bool),
                subnormal=do(x.is_subnormal, to_bool), zeroed=do(x.zero_subnormal, to_ibm), neg=do(lambda: -x, to_ibm), pos=do(lambda: +x, to_ibm),
                abs=do(lambda: abs(x), to_ibm), trunc=do(lambda: math.trunc(x), to_whole), int=do(lambda: int(x), to_whole),
                floor=do(lambda: math.floor(x), lambda v: pair(v, 1)), ceil=do(lambda: math.ceil(x), lambda v: pair(v, -1)),
                round=do(lambda: round(x), real), ratio=do(x.as_integer_ratio, lambda nd: [to_whole(nd[0]), to_whole(nd[1])]),
                frexp=do(x.frexp, split), joined=do(lambda: IBMFloat.ldexp(*x.frexp()), to_ibm),
                normalize=do(x.normalize, to_ibm), try_normalize=do(x.try_normalize, to_ibm))


def ones():
    for batch in batches(itertools.chain(whole_fours(), itertools.islice(fours(), 0, None, 1 if THOROUGH else 2)), 50):
        begin()
        emit('f_one', items=[unary(b) for b in batch])


OPS = dict(lt=operator.lt, le=operator.le, gt=operator.gt, ge=operator.ge, eq=operator.eq, ne=operator.ne)


def same_value(b, r):
    """Other representations of the same number."""
    s, e, m = b[0] & 128, b[0] & 127, b[1] << 16 | b[2] << 8 | b[3]
    out = []
    if m == 0:
        out += [(r.choice([0, 128]), r.randrange(128), 0) for _ in range(2)]
    while m and m % 16 == 0 and e < 127:
        m //= 16; e += 1
        out.append((s, e, m))
    return [bytes([s | e, m >> 16, m >> 8 & 255, m & 255]) for s, e, m in out]


def neighbours(b, r):
    s, e, m = b[0] & 128, b[0] & 127, b[1] << 16 | b[2] << 8 | b[3]
    for s2, e2, m2 in ((s, e, (m + 1) & 0xFFFFFF), (s, e, (m - 1) & 0xFFFFFF), (128 - s, e, m), (s, min(127, e + 1), m), (s, max(0, e - 1), m), (s, min(127, e + 1), m >> 4)):
        yield bytes([s2 | e2, m2 >> 16, m2 >> 8 & 255, m2 & 255])


def random_four(r):
    return bytes([r.choice([0, 128]) | r.choice([r.randrange(128), r.randint(60, 70)])]) + r.getrandbits(24).to_bytes(3, 'big') if r.random() < .7 else \
        bytes([r.choice([0, 128]) | r.choice([0, 1, 63, 64, 65, 127, r.randrange(128)])]) + r.choice([0, 1, 0x10, 0xFFFFF, 0x100000, 0xFFFFFF, 0x123, 0x800000]).to_bytes(3, 'big')


def comparisons():
    r = rng('comparisons')
    bs = [b for k, b in enumerate(itertools.chain(whole_fours(), fours())) if k % (3 if THOROUGH else 15) == 0]
    for batch in batches(bs, 12):
        r = rng('comparison', batch[0])
        begin()
        items = []
        for b in batch:
            x = IBMFloat(b)
            for c in same_value(b, r) + list(neighbours(b, r)) + [b, random_four(r)]:
                y = IBMFloat(c)
                items.append(dict(b=list(b), w=dict(k='ibm', b=list(c)), v=real(exact(c)), r={f: do(lambda: o(x, y), to_bool) for f, o in OPS.items()},
                                  q={f: do(lambda: o(y, x), to_bool) for f, o in OPS.items()}))
            items.append(dict(b=list(b), w=dict(k='ibm', b=list(b)), v=real(exact(b)), r={f: do(lambda: o(x, x), to_bool) for f, o in OPS.items()}))
            for y in itertools.chain(others(r, exact(b)), [r.choice(extremes())]):
                rec = dict(b=list(b), w=dict(k=type(y).__name__), v=real(int(y) if isinstance(y, bool) else y), r={f: do(lambda: o(x, y), to_bool) for f, o in OPS.items()})
                if not isinstance(y, numpy.generic):
                    rec['q'] = {f: do(lambda: o(y, x), to_bool) for f, o in OPS.items()}
                items.append(rec)
        emit('f_compare', items=items)


AOPS = dict(add=operator.add, sub=operator.sub, mul=operator.mul, div=operator.truediv, mod=operator.mod, pow=operator.pow, floordiv=operator.floordiv)


def to_result(v):
    if isinstance(v, IBMFloat):
        return dict(ibm=True, b=to_ibm(v), v=[0])
    return dict(ibm=False, b=[0], v=real(v))


def arithmetic():
    n = 1500 if THOROUGH else 240
    for k in range(n):
        r = rng('arith', k)
        if not mine():
            continue
        begin()
        items = []
        for _ in range(24):
            b = random_four(r)
            style = r.randrange(6)
            if style < 3:
                c = r.choice([random_four(r), random_four(r), random_four(r), r.choice(list(neighbours(b, r))), b] + same_value(b, r))
                x, y = IBMFloat(b), IBMFloat(c)
                fx, fy = exact(b), exact(c)
            else:
                o = r.choice([0, 1, -1, 2, 3, 16, r.randint(-1000, 1000), r.randint(-2 ** 53, 2 ** 53), 0.0, 0.5, 1.0, -1.0, 2.0, r.uniform(-100, 100), r.uniform(-1, 1) * 10.0 ** r.randint(-70, 70), exact(b),
                              math.nextafter(exact(b), 0.0), Fraction(r.randint(-1000, 1000), 2 ** r.randint(0, 30))])
                x, y = (IBMFloat(b), o) if style < 5 else (o, IBMFloat(b))
                fx, fy = (exact(b), float(o)) if style < 5 else (float(o), exact(b))
            f = r.choice(list(AOPS))
            if f == 'pow':
                if r.random() < .7 and isinstance(y, (int, float)):
                    y = r.choice([0, 1, 2, 3, -1, -2, 0.5, 2.0]); fy = float(y)
                elif r.random() < .7 and isinstance(y, IBMFloat):
                    y = IBMFloat(r.choice([b'\x41\x20\0\0', b'\x41\x30\0\0', b'\xc1\x10\0\0', b'\x40\x80\0\0', b'\x40\x08\0\0', b'\0\0\0\0', b'\x41\x02\0\0'])); fy = exact(bytes(y))
            def host():
                return math.floor(fx / fy) if f == 'floordiv' else AOPS[f](fx, fy)
            h = call(host)
            if h['k'] == 'ok' and isinstance(h['v'], complex):
                continue
            h = do(host, real)
            def operand(o):
                return dict(k='ibm', b=list(bytes(o)), v=real(exact(bytes(o)))) if isinstance(o, IBMFloat) else dict(k=type(o).__name__, v=real(o))
            rec = dict(f=f, x=operand(x), y=operand(y), host=h, res=do(lambda: AOPS[f](x, y), to_result))
            if f == 'floordiv' and h['k'] == 'ok':
                rec['host2'] = do(lambda: fx // fy, real)
            items.append(rec)
        emit('f_arith', items=items)


def joins():
    r = rng('joins')
    xs = []
    for e in list(range(-258, 259)) + [300, -300, 1000]:
        for f in {0.5, -0.5, 1.0, -1.0, 1, 0, 0.0, r.uniform(-1, 1), r.uniform(-1, 1) * 2.0 ** -r.randint(1, 40), math.nextafter(1.0, 0), math.nextafter(1.0, 2), r.uniform(-3, 3), Fraction(r.randint(-16, 16), 16)}:
            xs.append((f, e))
    xs += [(math.nan, 0), (math.inf, 1), (-math.inf, 1), (2, 0), (-1.0, 255), (1.0, 255), (1.0, 252), (math.nextafter(1.0, 0), 252), (1 - 2.0 ** -24, 252)]
    for batch in batches(xs):
        begin()
        emit('f_ldexp', items=[dict(v=real(f), e=e, res=do(lambda: IBMFloat.ldexp(f, e), to_ibm)) for f, e in batch])


if ARGS.prop == 'C15':
    for fn in (decoding, encoding, sequences):
        session(fn)
else:
    for fn in (ones, comparisons, arithmetic, joins):
        session(fn)
