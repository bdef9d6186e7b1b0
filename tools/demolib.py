"""Helpers of the demonstrations: SEG-Y files built byte by byte, independently of segpy."""
import io, os, struct, sys, tempfile

SIZE = {1: 4, 2: 4, 3: 2, 5: 4, 8: 1}
CT = {2: 'i', 3: 'h', 5: 'f', 8: 'b'}


def put(buf, byte, fmt, value, endian):
    """Put a value at a standard (one-based) byte number"""
    struct.pack_into(endian + fmt, buf, byte - 1, value)


def trace(n, samples, code=5, endian='>', cdp=0, il=0, xl=0, ns=None, extra=(), start=None):
    h = bytearray(240)
    put(h, 1, 'i', n + 1, endian)
    put(h, 21, 'i', cdp, endian)
    put(h, 35, 'h', 1, endian)   # data use: production
    put(h, 125, 'h', 1, endian)  # correlated: no
    put(h, 115, 'h', len(samples) if ns is None else ns, endian)
    put(h, 189, 'i', il, endian)
    put(h, 193, 'i', xl, endian)
    for byte, fmt, value in extra:
        put(h, byte, fmt, value, endian)
    if code == 1:
        body = b''.join(samples)
    else:
        body = struct.pack('%s%d%s' % (endian, len(samples), CT[code]), *samples)
    return bytes(h) + body


def reel(code=5, endian='>', ns=0, pages=(), count=None, rev=0x0100, text=None, encoding='ascii', extra=()):
    lines = text or ['C%2d SEISMIC LINE NUMBER %02d OF THE SURVEY' % (i + 1, i + 1) for i in range(40)]
    t = ''.join(x.ljust(80)[:80] for x in lines).encode(encoding)
    b = bytearray(400)
    put(b, 3221 - 3200, 'h', ns, endian)
    put(b, 3217 - 3200, 'h', 4000, endian)
    put(b, 3225 - 3200, 'h', code, endian)
    put(b, 3501 - 3200, 'h', rev, endian)
    put(b, 3505 - 3200, 'h', len(pages) if count is None else count, endian)
    for byte, fmt, value in extra:
        put(b, byte - 3200, fmt, value, endian)
    return t + bytes(b) + b''.join(p.encode(encoding) for p in pages)


def survey(cells, samples=lambda k: [float(k), k + .5, k + .25], **kw):
    """A file with one trace for each (inline, crossline)"""
    return reel(**kw) + b''.join(trace(k, samples(k), il=i, xl=x, cdp=k + 1) for k, (i, x) in enumerate(cells))


def check(cond, what):
    if not cond:
        print('DEMO FAILED: ' + str(what))
        sys.exit(1)


def raises(exc, f, *args, **kw):
    try:
        f(*args, **kw)
    except exc:
        return True
    except Exception as e:
        print('raised', type(e).__name__, e)
        return False
    return False
