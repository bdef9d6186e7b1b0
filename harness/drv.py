"""Support for drivers: they perform operations on the real code and record what happened.
No expected values are computed here; the oracle is the TLA+ trace specification."""
import argparse, io, json, math, os, random, resource, signal, sys, tempfile

ap = argparse.ArgumentParser()
ap.add_argument('--prop'); ap.add_argument('--shard'); ap.add_argument('--tier'); ap.add_argument('--seed', type=int)
ap.add_argument('--out'); ap.add_argument('--scratch'); ap.add_argument('--scen', default=None)
ARGS = ap.parse_args()
SHARD, NSHARDS = map(int, ARGS.shard.split('/'))
THOROUGH = ARGS.tier == 'thorough'
SCRATCH = ARGS.scratch
resource.setrlimit(resource.RLIMIT_AS, (6 << 30, 6 << 30))
sys.setrecursionlimit(3000)


class Hang(BaseException):
    pass


class Shape(Exception):
    """A result which does not have the type the projection understands."""


def _alarm(*_):
    raise Hang()


signal.signal(signal.SIGALRM, _alarm)

_out = open(ARGS.out, 'w')
_real_stdout = sys.stdout
_session = [0]
_taken = [0]
_hangs = [0]


def mine():
    """Round-robin distribution of sessions over shards."""
    _taken[0] += 1
    return _taken[0] % NSHARDS == SHARD


def rng(*key):
    return random.Random(repr((ARGS.seed,) + key))


def scenarios(name):
    """Scenarios generated by TLC, one JSON value per line."""
    with open(os.path.join(ARGS.scen, name + '.json')) as f:
        for line in f:
            if line.strip():
                yield json.loads(line)


def _check(x):
    if isinstance(x, bool) or isinstance(x, str):
        return
    if isinstance(x, int):
        assert -2**31 <= x < 2**31, x
    elif isinstance(x, (list, tuple)):
        for v in x:
            _check(v)
    elif isinstance(x, dict):
        assert x
        for v in x.values():
            _check(v)
    else:
        raise AssertionError('cannot log %r' % (x,))


def emit(op, **rec):
    rec['op'] = op
    _check(rec)
    _out.write(json.dumps(rec) + '\n')
    _out.flush()


def begin(**rec):
    _session[0] += 1
    emit('begin', **rec)


def session(fn, *args):
    """Run one session of the driver.  The code under test is only reached through call(), so an
    exception here on an unchanged tree is a mistake of the driver; on a changed tree it means that
    the code returned something no operation of the driver can digest, which is an observation."""
    try:
        fn(*args)
    except Exception as e:
        import traceback
        traceback.print_exc()
        emit('crash', t=type(e).__name__, d=traceback.format_exc()[-600:])


def exc_record(e):
    return dict(k='exc', t=type(e).__name__, m=[c.__name__ for c in type(e).__mro__], d=str(e)[:200])


def call(fn, conv=lambda x: x, limit=20):
    """Perform fn; returns the record of its outcome, with its value converted by conv."""
    if _hangs[0]:
        limit = min(limit, 5 if _hangs[0] < 3 else 1)
    signal.setitimer(signal.ITIMER_REAL, limit)
    try:
        v = fn()
        v = conv(v)
    except Shape as e:
        signal.setitimer(signal.ITIMER_REAL, 0)
        return dict(k='shape', t='Shape', m=[], d=str(e)[:200])
    except (KeyboardInterrupt, SystemExit) as e:
        signal.setitimer(signal.ITIMER_REAL, 0)
        return exc_record(e)
    except BaseException as e:
        signal.setitimer(signal.ITIMER_REAL, 0)
        if isinstance(e, Hang):
            _hangs[0] += 1
            if _hangs[0] > 15:
                # the verdict is clear and every further call may hang as well
                emit('crash', t='Hang', d='too many calls which do not return')
                _out.flush()
                os._exit(0)
        return exc_record(e)
    signal.setitimer(signal.ITIMER_REAL, 0)
    return dict(k='ok', t='', m=[], v=v)


# --- conversions (projections) ---------------------------------------------------------------

def to_int(x):
    try:
        import operator
        v = operator.index(x)
    except TypeError:
        raise Shape('not an integer: %r' % (x,))
    if not -2**31 <= v < 2**31:
        raise Shape('integer out of projected range: %r' % (x,))
    return v


def to_ints(xs):
    return [to_int(x) for x in xs]


def to_bool(x):
    if not isinstance(x, bool):
        if type(x).__module__ == 'numpy' and type(x).__name__ in ('bool_', 'bool'):
            return bool(x)
        raise Shape('not a bool: %r' % (x,))
    return x


def to_bytes(b):
    if not isinstance(b, (bytes, bytearray, memoryview)):
        raise Shape('not bytes: %r' % (b,))
    return list(bytes(b))


def to_text(s):
    if not isinstance(s, str):
        raise Shape('not text: %r' % (s,))
    return [ord(c) for c in s]


def none_or(conv, none):
    return lambda x: none if x is None else conv(x)


def dumps_of_another_version(r, obj, proto):
    """The pickle of obj as another version of the library makes it."""
    import pickle, segpy
    here = segpy.__version__
    parts = here.split('.')
    other = r.choice(['0.1', '99.0.0', here + '.post1', here + '.1', here + '0', here + ' ', here + '+local', '.'.join(parts[:2]), here[:-1],
                      '.'.join(parts[:-1] + [str(int(parts[-1]) + 1) if parts[-1].isdigit() else '9']), '.'.join([parts[0], '99'] + parts[2:]), '9' + here, ''])
    modules = [m for n, m in list(sys.modules.items()) if n.split('.')[0] == 'segpy' and getattr(m, '__version__', None) == here]
    for m in modules:
        m.__version__ = other
    try:
        data = pickle.dumps(obj, proto)
    finally:
        for m in modules:
            m.__version__ = here
    if data == pickle.dumps(obj, proto):
        # the version is not taken from the modules when pickling
        data = pickle.dumps(obj, 2)
        assert here.encode() in data, 'no version to be found in the pickle'
        data = data.replace(here.encode(), here[:-1].encode() + (b'9' if here[-1:] != '9' else b'8'))
    return data


def survey_of(r, total):
    """A large catalog given by rules: spec/Survey.tla."""
    shape = r.choice(['line', 'line', 'rows', 'cols'])
    nj = 1 if shape == 'line' else r.choice([2, 3, 64, 97, 100, 128])
    ni = max(2, total // nj)
    m = ni * nj
    mult = 1
    if r.random() < .5:
        mult = r.randrange(1, m)
        while math.gcd(mult, m) != 1:
            mult = r.randrange(1, m)
    return dict(shape=shape, i0=r.choice([0, 1, -500, 1001]), di=r.choice([1, 1, 2, 5]), ni=ni, j0=r.choice([0, 1, -7, 5000]), dj=r.choice([1, 1, 3]), nj=nj,
                v0=r.choice([0, 3600, -5]), dv=r.choice([1, 1, -1, 240, 0]), mult=mult, inv=pow(mult, -1, m), hole=r.choice([-1, -1, 0, m - 1, r.randrange(m), m - 2, r.randrange(m * 3 // 4, m)]))


def survey_key(p, k):
    if p['shape'] == 'line':
        return [p['i0'] + p['di'] * k]
    a, b = divmod(k, p['nj']) if p['shape'] == 'rows' else divmod(k, p['ni'])[::-1]
    return [p['i0'] + p['di'] * a, p['j0'] + p['dj'] * b]
