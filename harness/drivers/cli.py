"""C22: the command line, on files which are replaced and with caches which are damaged in between."""
import ast, shutil, subprocess
from segy import *
import segpy.cli

BEGIN, END = '=== BEGIN TEXTUAL REEL HEADER ===\n', '=== END TEXTUAL REEL HEADER ===\n'
BEGIN_EXT, END_EXT = '=== BEGIN EXTENDED TEXTUAL HEADER ===\n', '=== END EXTENDED TEXTUAL_HEADER ===\n'


def run_here(argv):
    """The command in this process; returns the exit status and what it printed."""
    raw = io.BytesIO()
    out = io.TextIOWrapper(raw, encoding='utf-8', newline='\n')
    old = sys.stdout, sys.stderr
    sys.stdout, sys.stderr = out, io.StringIO()
    try:
        try:
            r = segpy.cli.main(argv)
            status = 0 if r is None else r
        except SystemExit as e:
            status = 0 if e.code is None else e.code if isinstance(e.code, int) else 1
        except Exception:
            status = 1
        out.flush()
    finally:
        sys.stdout, sys.stderr = old
    return int(status), raw.getvalue()


def run_apart(argv):
    env = dict(os.environ, PYTHONIOENCODING='utf-8')
    p = subprocess.run([sys.executable, '-B', '-c', 'import sys; from segpy.cli import main; sys.exit(main())'] + argv, env=env,
                       stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, stdin=subprocess.DEVNULL, timeout=60)
    return p.returncode, p.stdout


def between(s, a, b):
    i = s.index(a) + len(a)
    return s[i:s.rindex(b)]


def json_value(v):
    if isinstance(v, bool) or not isinstance(v, (int, str)):
        return 'not an integer or text: %r' % (v,)
    return v if isinstance(v, str) or -2**31 <= v < 2**31 else 'out of range'


def op_cli(cmd, file, path, arg, apart, level):
    argv = (['--log-level=' + level] if level else []) + [cmd, arg]
    before = open(path, 'rb').read() if os.path.exists(path) else None
    res = call(lambda: (run_apart if apart else run_here)(argv), limit=60)
    status, raw = res['v'] if res['k'] == 'ok' else (99, b'')
    after = open(path, 'rb').read() if os.path.exists(path) else None
    out = raw.decode('utf-8', 'replace')
    rec = dict(cmd=cmd, file=file, status=status, intact=after == before, objects=0)
    if cmd == 'metadata':
        try:
            obj = json.loads(out)
            if isinstance(obj, dict) and obj and out.count('\n') <= 1:
                rec['objects'] = 1
                rec['obj'] = {str(k): json_value(v) for k, v in obj.items()}
        except ValueError:
            pass
    else:
        head = out.split(BEGIN)[0]
        pairs = [[x.strip() for x in l.split(':', 1)] for l in head.split('\n') if ':' in l]
        rec['pairs'] = [p for p in pairs if p[0] != 'Filename']
        shown = [p[1] for p in pairs if p[0] == 'Filename']
        rec['named'] = len(shown) == 1 and os.path.abspath(shown[0]) == os.path.abspath(arg)
        try:
            rec['text'] = [ord(c) for c in between(out, BEGIN, END)]
        except ValueError:
            rec['text'] = [0]
        rec['ext'] = call(lambda: pages_of(ast.literal_eval(between(out, BEGIN_EXT, END_EXT).strip())))
    emit('cli', **rec)


def content(r, shape):
    """The bytes of a file; shape says what it is like."""
    if shape == 0:
        return r.choice([b'', b'not a SEG-Y file', b'\0' * 3599, bytes(r.getrandbits(8) for _ in range(3700)), raw_reel(r, '<', 'ascii', 5)])
    enc = r.choice(['ascii', 'cp037'])
    code = r.choice([1, 2, 3, 5, 8])
    m = r.choice([1, 1, 3, 20])
    shapes = [[], [(1, 0, 0, 0)], [(0, 1, 0, 0), (2, 2, 0, 1)], [(1, 1, 0, 0), (1, 2, 0, 0)], [(2, 1, 0, 0), (0, 1, 0, 0)], [(1, 1, 0, 0), (1, 1, 0, 1), (1, 1, 1, 0)]]
    trs = [(m * a, c, i, x) for a, c, i, x in shapes[shape - 1]]
    if r.random() < .5 and trs:
        # more traces of the same kind
        k = r.randint(1, 5)
        if shape == 4:
            trs += [(r.choice([m, m + 1]), 3 + j, 0, 0) for j in range(k)]
        elif shape == 6:
            trs += [(m, 1, 2 + j, r.randint(0, 4)) for j in range(k)]
        elif shape == 5:
            trs += [(r.randint(0, 9), r.randint(0, 3), 0, 0) for j in range(k)]
    nx = r.choice([0, 0, 1, 2])
    pages = random_ext(r, enc, nx, r.random() < .5)
    stop = nx > 0 and STOP in text_of(pages[-1][0])
    reel = raw_reel(r, '>', enc, code, -1 if stop and r.random() < .5 else nx, noise=r.random() < .3)
    ext = b''.join(''.join(map(text_of, p)).encode(enc) for p in pages)
    data = reel + ext + b''.join(raw_trace(r, 'rev1', '>', code, n, (i, x, c), noise=r.random() < .5, legal=True) for n, c, i, x in trs)
    if r.random() < .2 and trs:
        data = data[:len(data) - r.randint(1, 300)] if len(data) > 3900 + len(ext) else data
    return data


def commands(sc, n):
    r = rng('commands', n)
    begin(n=n)
    root = tempfile.mkdtemp(dir=SCRATCH)
    here = os.getcwd()
    os.chdir(root)
    try:
        where = r.choice(['', 'sub', 'two words', 'd\u00e9j\u00e0'])
        if where:
            os.makedirs(where, exist_ok=True)
        rel = {x: os.path.join(where, x + r.choice(['.sgy', '.segy', '', '.a b'])) for x in 'ab'}
        present = set()
        versions = [0]
        serial = {}
        for op in sc['ops']:
            if op['op'] == 'put':
                key = (op['shape'], r.choice([0, 1]))
                data = serial.get(key)
                if data is None:
                    data = serial[key] = content(r, op['shape'])
                with open(rel[op['name']], 'wb') as f:
                    f.write(data)
                present.add(op['name'])
                op_file(op['name'], data)
            elif op['op'] == 'run':
                path = rel[op['name']]
                arg = r.choice([path, os.path.abspath(path), os.path.join('.', path)])
                op_cli(op['cmd'], op['name'], path, arg, r.random() < (.1 if not THOROUGH else .05), r.choice(['', '', '', 'WARNING', 'DEBUG']))
            else:
                cache = os.path.join(where, '.segpy')
                entries = sorted(os.listdir(cache)) if os.path.isdir(cache) else []
                for e in entries:
                    if r.random() < .6:
                        p = os.path.join(cache, e)
                        size = os.path.getsize(p)
                        how = r.choice(['empty', 'cut', 'junk', 'gone'])
                        if how == 'gone':
                            os.remove(p)
                        else:
                            with open(p, 'r+b') as f:
                                if how == 'junk':
                                    f.write(b'junk' * 20)
                                f.truncate(dict(empty=0, cut=r.randint(0, max(0, size - 1)), junk=80)[how])
        if r.random() < .3:
            op_cli(r.choice(['metadata', 'report']), 'missing', os.path.join(root, 'nothing'), 'nothing', False, '')
    finally:
        os.chdir(here)
        shutil.rmtree(root, ignore_errors=True)


def main():
    for n, sc in enumerate(scenarios('commands')):
        if mine():
            session(commands, sc, n)


main()
