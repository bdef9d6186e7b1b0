#!/usr/bin/env python3
"""Mutate /repo's sources one place at a time and see which checks notice.

mutate.py list                      how many mutants there are per file
mutate.py run N SEED [files]        run a random sample of N; results in out/mutants.jsonl
mutate.py tests                     run the stable tests on the mutants nobody noticed
"""
import ast, collections, concurrent.futures, json, os, random, shutil, subprocess, sys, time
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
OUT = os.path.join(ROOT, 'out', 'mutants.jsonl')
N = 'segpy-ext/segpy_numpy/segpy_numpy/'
FILES = {
    'segpy/reader.py': 'C03 C05 C04 C10 C11 C18 C17 C22',
    'segpy/writer.py': 'C01 C19 C17 C18',
    'segpy/toolkit.py': 'C01 C02 C13 C12 C19 C05 C03 C18 C14 C17',
    'segpy/catalog.py': 'C06 C05 C11',
    'segpy/util.py': 'C06 C07 C10 C08 C13',
    'segpy/header.py': 'C09 C08 C11',
    'segpy/packer.py': 'C08 C11 C02 C18',
    'segpy/ibm_float.py': 'C15 C16',
    'segpy/ibm_float_packer.py': 'C15',
    'segpy/textual_reel_header.py': 'C14',
    'segpy/field_types.py': 'C09 C08 C02',
    'segpy/datatypes.py': 'C02 C01 C18 C22',
    'segpy/encoding.py': 'C12 C18',
    'segpy/cli.py': 'C22',
    'segpy/dataset.py': 'C21 C19',
    'segpy/sorted_frozen_set.py': 'C07',
    'segpy/reversed_sequence_view.py': 'C07',
    'segpy/revisions.py': 'C22 C14',
    'segpy/binary_reel_header.py': 'C02 C09',
    'segpy/trace_header.py': 'C02 C09',
    N + 'extract.py': 'C20', N + 'util.py': 'C20', N + 'dtypes.py': 'C20',
}
CMP = {ast.Lt: ['<=', '>'], ast.LtE: ['<', '=='], ast.Gt: ['>=', '<'], ast.GtE: ['>', '=='], ast.Eq: ['!='], ast.NotEq: ['=='],
       ast.In: ['not in'], ast.NotIn: ['in'], ast.Is: ['is not'], ast.IsNot: ['is']}
BIN = {ast.Add: ['-'], ast.Sub: ['+'], ast.Mult: ['//', '+'], ast.Div: ['//'], ast.FloorDiv: ['/', '*'], ast.Mod: ['//'],
       ast.LShift: ['>>'], ast.RShift: ['<<'], ast.BitAnd: ['|'], ast.BitOr: ['&'], ast.Pow: ['*']}


def mutants(path):
    src = open(os.path.join('/repo', path)).read()
    lines = src.splitlines(keepends=True)
    starts = [0]
    for l in lines:
        starts.append(starts[-1] + len(l.encode()))
    raw = src.encode()
    pos = lambda ln, col: starts[ln - 1] + col
    span = lambda n: (pos(n.lineno, n.col_offset), pos(n.end_lineno, n.end_col_offset))
    text = lambda n: raw[slice(*span(n))].decode()
    tree = ast.parse(src)
    out = []

    def add(n, new, what):
        a, b = span(n)
        if raw[a:b].decode() != new:
            out.append((n.lineno, a, b, new, what))
    skip = set()
    for n in ast.walk(tree):
        if isinstance(n, (ast.FunctionDef,)) and n.name in ('__repr__', '__str__', 'main'):
            skip.update(id(x) for x in ast.walk(n))
        if isinstance(n, (ast.Import, ast.ImportFrom, ast.Assert)):
            skip.update(id(x) for x in ast.walk(n))
        if isinstance(n, ast.Raise):   # the wording of messages
            for c in ast.walk(n):
                if isinstance(c, ast.Call):
                    for x in c.args + c.keywords:
                        skip.update(id(y) for y in ast.walk(x))
        if isinstance(n, ast.Expr) and isinstance(n.value, ast.Constant):
            skip.update(id(x) for x in ast.walk(n))
        if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr in ('debug', 'warn', 'warning', 'info', 'format'):
            skip.update(id(x) for x in ast.walk(n))
        if isinstance(n, ast.Expr) and isinstance(n.value, ast.Call) and isinstance(n.value.func, ast.Attribute) and getattr(n.value.func.value, 'id', '') in ('log', 'logger'):
            skip.update(id(x) for x in ast.walk(n))
    for n in ast.walk(tree):
        if id(n) in skip:
            continue
        if isinstance(n, ast.Compare) and len(n.ops) == 1:
            for o in CMP.get(type(n.ops[0]), []):
                add(n, '(%s %s %s)' % (text(n.left), o, text(n.comparators[0])), 'compare')
        elif isinstance(n, ast.BinOp) and not isinstance(n.left, (ast.Constant, ast.JoinedStr)) or isinstance(n, ast.BinOp) and not isinstance(getattr(n.left, 'value', None), (str, bytes)):
            for o in BIN.get(type(n.op), []):
                add(n, '(%s %s %s)' % (text(n.left), o, text(n.right)), 'arithmetic')
        elif isinstance(n, ast.BoolOp):
            o = ' or ' if isinstance(n.op, ast.And) else ' and '
            add(n, '(' + o.join(text(v) for v in n.values) + ')', 'boolean')
            for k in range(len(n.values)):
                add(n, '(' + (' and ' if isinstance(n.op, ast.And) else ' or ').join(text(v) for j, v in enumerate(n.values) if j != k) + ')', 'drop condition')
        elif isinstance(n, ast.UnaryOp) and isinstance(n.op, ast.Not):
            add(n, '(%s)' % text(n.operand), 'not')
        elif isinstance(n, ast.UnaryOp) and isinstance(n.op, ast.USub) and not isinstance(n.operand, ast.Constant):
            add(n, '(%s)' % text(n.operand), 'sign')
        elif isinstance(n, ast.Constant) and type(n.value) is int:
            add(n, str(n.value + 1), 'constant')
            add(n, '(%d)' % (n.value - 1), 'constant')
        elif isinstance(n, ast.Constant) and type(n.value) is bool:
            add(n, str(not n.value), 'constant')
        elif isinstance(n, (ast.If, ast.IfExp, ast.While)):
            add(n.test, '(not (%s))' % text(n.test), 'condition')
        elif isinstance(n, ast.Return) and n.value is not None and not (isinstance(n.value, ast.Constant) and n.value.value is None):
            add(n, 'return None', 'return')
        elif isinstance(n, ast.Expr) and isinstance(n.value, (ast.Call, ast.Yield)):
            add(n, 'pass', 'drop statement')
        elif isinstance(n, (ast.AugAssign, ast.Raise, ast.Break, ast.Continue)):
            add(n, 'pass', 'drop statement')
        elif isinstance(n, ast.Assign) and isinstance(n.targets[0], (ast.Attribute, ast.Subscript)):
            add(n, 'pass', 'drop statement')
        elif isinstance(n, ast.Call) and len(n.args) >= 2 and not any(isinstance(a, ast.Starred) for a in n.args):
            a = [text(x) for x in n.args]
            kw = [('%s=' % k.arg if k.arg else '**') + text(k.value) for k in n.keywords]
            add(n, '%s(%s)' % (text(n.func), ', '.join([a[1], a[0]] + a[2:] + kw)), 'swap arguments')
        if isinstance(n, ast.Call) and n.keywords and id(n) not in skip:
            for k in range(len(n.keywords)):
                kw = [('%s=' % x.arg if x.arg else '**') + text(x.value) for j, x in enumerate(n.keywords) if j != k]
                add(n, '%s(%s)' % (text(n.func), ', '.join([text(x) for x in n.args] + kw)), 'drop keyword')
        if isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id in ('sorted', 'list', 'tuple', 'set', 'int', 'bytes', 'reversed', 'abs', 'max', 'min') and len(n.args) == 1 and not n.keywords:
            add(n, '(%s)' % text(n.args[0]), 'drop call')
        if isinstance(n, ast.Slice):
            pass
    res = []
    for ln, a, b, new, what in out:
        m = raw[:a] + new.encode() + raw[b:]
        try:
            compile(m, path, 'exec')
        except Exception:
            continue
        res.append(dict(file=path, line=ln, a=a, b=b, old=raw[a:b].decode(), new=new, what=what))
    return res


def apply(m, w):
    raw = open(os.path.join('/repo', m['file']), 'rb').read()
    open(os.path.join(w, m['file']), 'wb').write(raw[:m['a']] + m['new'].encode() + raw[m['b']:])


def copy(w):
    shutil.rmtree(w, ignore_errors=True)
    subprocess.run(['cp', '-a', '/repo', w], check=True)


def run(m, k):
    w = '/tmp/mut_%d' % k
    copy(w)
    apply(m, w)
    m['results'] = {}
    m['state'] = 'survived'
    for prop in FILES[m['file']].split():
        t = time.time()
        try:
            r = subprocess.run([os.path.join(ROOT, 'bin', 'check'), prop, '--no-model', '--seed', '1'], capture_output=True, text=True,
                               env=dict(os.environ, VT_REPO=w), timeout=400)
            rc, tail = r.returncode, (r.stderr or r.stdout)[-300:]
        except subprocess.TimeoutExpired:
            rc, tail = 'timeout', ''
        m['results'][prop] = [rc, round(time.time() - t)]
        if rc == 1:
            m['state'] = 'detected'
            break
        if rc != 0:
            m['state'] = 'error'
            m['tail'] = tail
            break
    shutil.rmtree(w)
    with open(OUT, 'a') as f:
        f.write(json.dumps(m) + '\n')
    print(m['state'], m['file'], m['line'], m['what'], repr(m['old'][:60]), '->', repr(m['new'][:60]), m['results'], flush=True)


def main():
    cmd = sys.argv[1]
    if cmd == 'list':
        for f in FILES:
            print(f, len(mutants(f)))
        return
    if cmd == 'run':
        n, seed = int(sys.argv[2]), int(sys.argv[3])
        files = sys.argv[4:] or list(FILES)
        done = set()
        if os.path.exists(OUT):
            done = {(x['file'], x['a'], x['b'], x['new']) for x in map(json.loads, open(OUT))}
        r = random.Random(seed)
        pool = []
        for f in files:
            ms = [m for m in mutants(f) if (m['file'], m['a'], m['b'], m['new']) not in done]
            r.shuffle(ms)
            pool.append(ms[:8] if f.endswith('_header.py') and 'textual' not in f else ms)
        sel = []
        # in proportion to the square root of their number
        weights = [len(p) ** .5 for p in pool]
        total = sum(weights)
        for p, wt in zip(pool, weights):
            sel += p[:max(1, round(n * wt / total))]
        r.shuffle(sel)
        import queue
        slots = queue.Queue()
        for k in range(3):
            slots.put(k)

        def one(m):
            k = slots.get()
            try:
                run(m, k)
            finally:
                slots.put(k)
        with concurrent.futures.ThreadPoolExecutor(3) as ex:
            list(ex.map(one, sel))


main()
