"""C12, C13, C14: textual headers, extended headers and the standard header."""
import datetime, decimal, fractions
from segy import *
from segpy import toolkit
from segpy.encoding import guess_encoding
from segpy.revisions import SegYRevision

BAD_ENCODINGS = ['utf8', 'latin-1', 'EBCDIC', 'cp500', 'us-ascii', 'ASCII', '', 'none']
REVISIONS = {'rev0': SegYRevision.REVISION_0, 'rev1': SegYRevision.REVISION_1}


def char(r, enc, wide=.1):
    if r.random() < wide:
        return r.randrange(128) if enc == 'ascii' else r.randrange(256)
    return ord(random_char(r, enc))


def some_lines(r, enc, n=None, wide=.1, maximum=90):
    n = r.choice([0, 1, 2, 39, 40, 40, 41, 47]) if n is None else n
    style = r.choice([0, 1, 2])
    return [[char(r, enc, wide) for _ in range(80 if style == 0 else r.choice([0, 1, 40, 79, 80, 81, maximum, r.randint(0, maximum)]))] for _ in range(n)]


def as_some_iterable(r, xs):
    k = r.randrange(3)
    return xs if k == 0 else tuple(xs) if k == 1 else iter(xs)


def op_twrite(r, lines, enc):
    before = r.choice([0, 0, 7, 3200])
    fh = io.BytesIO(b'x' * before)
    fh.seek(before)
    arg = as_some_iterable(r, [text_of(l) for l in lines])
    res = call(lambda: toolkit.write_textual_reel_header(fh, arg, enc), lambda x: 0)
    data = fh.getvalue()[before:]
    emit('t_write', lines=lines, enc=enc, before=before, res=res, bytes=list(data), pos=fh.tell())
    return data


def op_tread(r, data, enc):
    before = r.choice([0, 0, 7, 3200])
    fh = io.BytesIO(b'x' * before + data + b'y' * (r.choice([0, 100]) if len(data) == 3200 else 0))
    fh.seek(before)
    res = call(lambda: toolkit.read_textual_reel_header(fh, enc), lambda ls: lines_of(list(ls)))
    emit('t_read', bytes=list(data), enc=enc, before=before, res=res, pos=fh.tell())


def op_tguess(data, at=None):
    if at is None:
        res = call(lambda: guess_encoding(data), lambda e: 'none' if e is None else str(e))
        before = pos = 0
    else:
        fh = io.BytesIO(data)
        fh.seek(at)
        before = at
        res = call(lambda: toolkit.guess_textual_header_encoding(fh), lambda e: 'none' if e is None else str(e))
        pos = fh.tell()
    emit('t_guess', bytes=list(data), before=before, pos=pos, res=res)


COMMON = 'ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789:_- '
A = set(COMMON.encode('ascii'))
E = set(COMMON.encode('cp037'))
PARTS = dict(a=sorted(A - E), e=sorted(E - A), b=sorted(A & E), n=sorted(set(range(1, 256)) - A - E), z=[0])


def histogram(r, n):
    """n bytes with the counts of ASCII-common and EBCDIC-common bytes near one half."""
    counts = {}
    left = n
    for k in r.sample(['a', 'e', 'b'], 3):
        c = min(left, max(0, r.choice([0, 0, n // 2, n // 2, n // 2 + 1, (n + 1) // 2, n // 2 - 1, n // 4, r.randint(0, n)])))
        counts[k] = c
        left -= c
    counts[r.choice('nnz')] = left
    bs = [r.choice(PARTS[k]) for k, c in counts.items() for _ in range(c)]
    r.shuffle(bs)
    return bytes(bs)


# --- C12 -------------------------------------------------------------------------------------

def codec(n):
    r = rng('codec', n)
    begin(n=n)
    enc = r.choice(['ascii', 'cp037'])
    how = n % 6
    if how == 0:
        lines = some_lines(r, enc, wide=r.choice([.05, .9]))
    elif how == 1:
        # every character of the code page
        chars = list(range(128 if enc == 'ascii' else 256))
        r.shuffle(chars)
        lines = [chars[k:k + 80] for k in range(0, len(chars), 80)]
    elif how == 2:
        lines = some_lines(r, enc, r.randint(1, 45))
        k = r.randrange(len(lines))
        bad = r.choice([128, 233, 255] if enc == 'ascii' else [0x100, 0x20ac, 0xffff, 0x2603])
        at = r.randrange(len(lines[k]) + 1)
        lines[k][at:at + 1] = [bad]
    elif how == 3:
        lines = some_lines(r, 'ascii')
        enc = r.choice(BAD_ENCODINGS)
    elif how == 4:
        lines = some_lines(r, enc, 40, maximum=80)
    else:
        lines = some_lines(r, enc, 40)
    data = op_twrite(r, lines, enc)
    if len(data) >= 3200 and enc in ('ascii', 'cp037'):
        op_tread(r, data, enc)
        op_tguess(data, 0)
        other = 'cp037' if enc == 'ascii' else 'ascii'
        if r.random() < .4:
            op_tread(r, data, other)


def reading(n):
    r = rng('reading', n)
    begin(n=n)
    enc = r.choice(['ascii', 'cp037'])
    if n % 3 == 0:
        # all byte values
        top = 256 if enc == 'cp037' else 128
        bs = list(range(top)) * (3200 // top + 1)
        r.shuffle(bs)
        op_tread(r, bytes(bs[:3200]), enc)
    elif n % 3 == 1:
        b = bytearray(raw_text(r, enc))
        if r.random() < .7:
            b[r.choice([0, 79, 80, 3199, r.randrange(3200)])] = r.randint(128, 255)
        op_tread(r, bytes(b), enc)
    else:
        op_tread(r, raw_text(r, enc)[:r.choice([0, 1, 80, 3199, r.randint(0, 3199)])], enc)


def guessing(n):
    r = rng('guessing', n)
    begin(n=n)
    for _ in range(40):
        op_tguess(histogram(r, r.choice([0, 1, 2, 3, 4, 5, 10, 11, 20, 21, 64])))
    for k in range(2):
        data = histogram(r, 3200)
        if r.random() < .5:
            data += histogram(r, 400)
        op_tguess(data, r.choice([0, 5, 3200, len(data)]))
    op_tguess(bytes(r.choice([0, 3200, 3])), r.choice([0, 2]))


def detecting(n):
    """Detection when a file is opened."""
    r = rng('detecting', n)
    begin(n=n)
    enc = r.choice(['ascii', 'cp037'])
    how = n % 3
    if how == 0:
        text = b''.join(text_of(random_line(r, enc)).encode(enc) for _ in range(40))
    elif how == 1:
        text = histogram(r, 3200)
    else:
        text = bytes(r.choice([0, r.randrange(256), 64, 32]) for _ in range(1)) * 3200
    data = text + raw_reel(r, '>', enc, 3)[3200:] + raw_trace(r, 'rev1', '>', 3, 2, (1, 2, 3))
    op_file('f', data)
    fh = io.BytesIO(data)
    op_open('f', fh, 'rev1', None, '>', progress=False)
    # and written and read with the detected encoding
    if how == 0:
        ds = random_dataset(r, 'rev1', enc, max_traces=1, max_samples=1)
        op_dataset(ds, 'rev1')
        data = op_write('w', MemDataset(ds, 'rev1', enc=enc if r.random() < .5 else None), enc if r.random() < .7 else None, '>', 'rev1', 'ds', progress=False)
        op_open('w', io.BytesIO(data), 'rev1', None, '>', progress=False)


# --- C13 -------------------------------------------------------------------------------------

def op_tformat(text, enc, stop, default=False):
    out = []
    if default:
        res = call(lambda: toolkit.format_extended_textual_header(text_of(text), enc), lambda p: out.append(p) or pages_of(p))
    else:
        res = call(lambda: toolkit.format_extended_textual_header(text_of(text), enc, stop), lambda p: out.append(p) or pages_of(p))
    emit('t_format', text=text, enc=enc, stop=stop, res=res)
    return res.get('v')


def op_textwrite(r, pages, enc):
    fh = io.BytesIO(b'z' * 3600)
    fh.seek(r.choice([0, 3600]))
    arg = as_some_iterable(r, [as_some_iterable(r, [text_of(l) for l in p]) for p in pages])
    res = call(lambda: toolkit.write_extended_textual_headers(fh, arg, enc), lambda x: 0)
    data = fh.getvalue()[3600:]
    emit('t_extwrite', pages=pages, enc=enc, res=res, bytes=list(data), pos=fh.tell())
    return data


def op_textread(data, want, enc):
    h = BinaryReelHeader(num_extended_textual_headers=want)
    fh = io.BytesIO(b'z' * 3600 + data)
    res = call(lambda: toolkit.read_extended_textual_headers(fh, h, enc), lambda ps: pages_of(list(ps)))
    emit('t_extread', bytes=list(data), want=want, enc=enc, res=res, pos=fh.tell())


def random_long_text(r, enc):
    lines = []
    for _ in range(r.choice([0, 1, 2, 3, 10, 39, 40, 41, 79, 80, 81])):
        n = r.choice([0, 0, 1, 20, 77, 78, 79, 80, 155, 156, 157, r.randint(0, 100)])
        lines.append([ord(c) for c in ''.join(random_char(r, enc) for _ in range(n)) if ord(c) not in (0x85, 0xa0)])
    if lines and r.random() < .25:
        k = r.choice([0, 39, 40, r.randrange(len(lines))])
        if k < len(lines):
            lines[k] = [ord(c) for c in r.choice(['', ' ', 'abc ']) + (STOP if r.random() < .6 else near_stanza(r))]
    nl = r.choice([[10], [13, 10], [13], None])
    out = []
    for k, l in enumerate(lines):
        out += l
        if k < len(lines) - 1 or r.random() < .5:
            out += nl or r.choice([[10], [13, 10], [13], [10]])
    return out


def formatting(text, n):
    r = rng('formatting', n)
    begin(n=n)
    enc = r.choice(['ascii', 'cp037'])
    stop = r.random() < .5
    pages = op_tformat(text, enc, stop, default=not stop and r.random() < .5)
    if pages is None:
        return
    data = op_textwrite(r, pages, enc)
    if len(data) == 3200 * len(pages) and n % 3 == 0:
        trail = bytes(r.choice([0, 240, 3000, 3200])) if r.random() < .5 else raw_trace(r, 'rev1', '>', 3, 4)
        op_textread(data + trail, len(pages), enc)
        if stop:
            op_textread(data + trail, -1, enc)
        if pages and r.random() < .5:
            op_textread(data[:len(data) - r.choice([1, 80, 3199, 3200])], len(pages), enc)


def wrong_pages(n):
    r = rng('wrongpages', n)
    begin(n=n)
    enc = r.choice(['ascii', 'cp037'])
    pages = random_ext(r, enc, r.randint(1, 3), r.random() < .5)
    how = n % 7
    page = pages[r.randrange(len(pages))]
    line = page[r.randrange(40)]
    if how == 0:
        page.pop()
    elif how == 1:
        page.append([32] * 80)
    elif how == 2:
        line.pop()
    elif how == 3:
        line.append(32)
    elif how == 4:
        line[r.randrange(80)] = 0x20ac
    elif how == 5:
        enc = r.choice(BAD_ENCODINGS)
        op_tformat([65, 66], enc, r.random() < .5)
    op_textwrite(r, pages, enc)


def near_stanza(r):
    """Almost the stop stanza."""
    return r.choice([STOP.lower(), STOP.upper(), STOP.replace(' ', ''), STOP[1:-1], STOP[:-1], STOP[1:], STOP.replace('EndText', 'End Text'), STOP.replace(' ', '  '),
                     STOP.replace('SEG', 'SEGY'), STOP.replace('((', '(').replace('))', ')'), STOP.swapcase(), 'EndText', '((SEG: Layout))', STOP[:8] + STOP[9:], STOP.replace('(', '[').replace(')', ']')])


def announced(n):
    """Pages with stop stanzas here and there, announced with any count, cut anywhere."""
    r = rng('announced', n)
    begin(n=n)
    enc = r.choice(['ascii', 'cp037'])
    np = r.choice([0, 1, 2, 3, 4])
    pages = random_ext(r, enc, np, False)
    for p in pages:
        at0 = r.choice([0, 5, 20])
        if r.random() < .3:
            at = r.choice([0, 5, 62, 64])
            p[0][at:at + len(STOP)] = [ord(c) for c in STOP]
        elif r.random() < .35:
            near = near_stanza(r)
            p[0][at0:at0 + len(near)] = [ord(c) for c in near]
        elif r.random() < .2:
            # on another line, or begun at the end of one and continued on the next
            k = r.choice([1, 39, r.randrange(1, 40)])
            if r.random() < .5:
                p[k][at0:at0 + len(STOP)] = [ord(c) for c in STOP]
            else:
                p[0][72:80], p[1][:8] = [ord(c) for c in STOP[:8]], [ord(c) for c in STOP[8:]]
    want = r.choice([np, np, np, -1, -1, max(0, np - 1), np + 1, 0])
    endian = r.choice('><')
    rev = r.choice([0, 256])
    body = b''.join(''.join(map(text_of, p)).encode(enc) for p in pages)
    keys = random_keys(r, 3)
    traces = b''.join(raw_trace(r, 'rev1', endian, 3, r.randint(0, 4), k) for k in keys[:r.randint(0, 3)])
    if r.random() < .2 and body:
        body, traces = body[:r.choice([0, 1, 3199, 3200, r.randint(0, len(body))])], b''
    op_textread(body + traces, want, enc)
    data = raw_reel(r, endian, enc, 3, want, format_revision_num=rev) + body + traces
    op_file('f', data)
    op_open('f', io.BytesIO(data), 'rev1', r.choice([enc, None]) if enc == 'cp037' else enc, endian, progress=False)


def through_files(n):
    """A text formatted, written as part of a dataset, and read back."""
    r = rng('throughfiles', n)
    begin(n=n)
    enc, endian = r.choice(['ascii', 'cp037']), r.choice('><')
    text = random_long_text(r, enc)
    stop = r.random() < .6
    pages = op_tformat(text, enc, stop)
    if pages is None:
        return
    ds = random_dataset(r, 'rev1', enc, max_traces=2, max_samples=3, next_=0)
    ds['ext'] = pages
    ds['bin'][BIN_NAMES.index('num_extended_textual_headers')] = -1 if stop and r.random() < .5 else len(pages)
    op_dataset(ds, 'rev1')
    data = op_write('w', MemDataset(ds, 'rev1'), enc, endian, 'rev1', 'ds', progress=False)
    reader = op_open('w', io.BytesIO(data), 'rev1', enc, endian, progress=False)
    if reader is not None:
        op_readall(reader, 'rev1')


# --- C14 -------------------------------------------------------------------------------------

SLOTS = TABLES['slots']


def printable(r, n):
    return [r.choice([32, 32, r.randint(33, 126), r.randint(33, 126), r.randint(65, 90), r.randint(48, 57), r.choice([123, 125])]) for _ in range(n)]


class Titled:
    def __init__(self, title):
        self.title = title
    def __str__(self):
        return self.title
    def __bool__(self):
        return False
    def __len__(self):
        return 3
    def __iter__(self):
        return iter('xyz')


def other_value(r):
    """Values of the kinds people give, whose text has printable characters only."""
    k = r.randrange(9)
    return (r.choice([0, 0.0, False, True, None, -1, -0.0, 10 ** 20]) if k < 2 else
            r.uniform(-1, 1) * 10 ** r.randint(-9, 20) if k < 4 else
            round(r.uniform(0, 5000), r.randint(0, 3)) if k == 4 else
            fractions.Fraction(r.randint(-50, 50), r.randint(1, 9)) if k == 5 else
            decimal.Decimal(r.randint(-999999, 999999)) / 1000 if k == 6 else
            datetime.date(r.randint(1970, 2030), r.randint(1, 12), r.randint(1, 28)) if k == 7 else
            Titled(r.choice(['spread', '', ' x ', 'linear sweep 10-80 Hz'])))


def op_std(r, args, rev):
    args = dict(args)
    kw = {}
    for name, v in args.items():
        s = text_of(v)
        # values which are not text are formatted with str()
        if r.random() < .3:
            x = other_value(r)
            kw[name] = x
            args[name] = [ord(c) for c in str(x)]
        elif s.isdigit() and (s == '0' or s[0] != '0') and r.random() < .5:
            kw[name] = int(s)
        else:
            kw[name] = s
    res = call(lambda: toolkit.format_standard_textual_header(REVISIONS[rev], **kw), lambda ls: lines_of(list(ls)))
    emit('t_std', names=list(args), values=list(args.values()), revision=rev, res=res)
    return res.get('v')


def op_parse(r, lines):
    arg = [text_of(l) for l in lines]
    if r.random() < .5:
        arg = tuple(arg)
    res = call(lambda: toolkit.parse_standard_textual_header(arg), lambda d: dict(names=[str(k) for k in d], values=[to_text(v) for v in d.values()]))
    emit('t_parse', lines=lines, res=res)


def standard(n):
    r = rng('standard', n)
    begin(n=n)
    rev = r.choice(['rev0', 'rev1'])
    style = n % 5
    if style == 0:
        chosen = list(SLOTS)
    elif style == 1:
        chosen = r.sample(SLOTS, r.randint(0, 6))
    elif style == 2:
        chosen = [SLOTS[(n // 5) % len(SLOTS)]]
    else:
        chosen = [s for s in SLOTS if r.random() < .5]
    r.shuffle(chosen)
    args = {}
    for s in chosen:
        w = s['w']
        style2 = r.random()
        if style2 < .15:
            args[s['name']] = [ord(c) for c in str(r.randint(0, 10 ** r.randint(0, w + 1)))]
        else:
            args[s['name']] = printable(r, r.choice([0, 1, w - 1, w, w, w + 1, w + 2, 2 * w, 90]))
    if style == 3 and r.random() < .4:
        args[r.choice(['nonsense', 'crew', 'd', 'CLIENT', 'client_', 'end', 'gain'])] = [88]
    lines = op_std(r, args, rev)
    if lines:
        op_parse(r, lines)


def parsing(n):
    r = rng('parsing', n)
    begin(n=n)
    lines = [printable(r, 80) for _ in range(40)]
    how = n % 5
    if how == 0:
        lines.pop(r.randrange(40))
    elif how == 1:
        lines.insert(r.randrange(41), printable(r, 80))
    elif how == 2:
        lines[r.randrange(40)].pop()
    elif how == 3:
        lines[r.randrange(40)].append(32)
    op_parse(r, lines)


def main():
    m = 8 if THOROUGH else 1
    if ARGS.prop == 'C12':
        plan = [(codec, 120), (reading, 60), (guessing, 24), (detecting, 60)]
    elif ARGS.prop == 'C13':
        for k, t in enumerate(scenarios('texts')):
            if mine():
                # an abstract character stands for half a line
                session(formatting, [c for a in t for c in ([a] if a in (10, 13) else [a + k % 26] * 39)], k)
        plan = [(lambda n: formatting(random_long_text(rng('t', n), 'ascii'), 1000 + n), 100), (wrong_pages, 56), (announced, 120), (through_files, 56)]
    else:
        plan = [(standard, 400), (parsing, 60)]
    for fn, count in plan:
        for n in range(count * m):
            if mine():
                session(fn, n)


main()
