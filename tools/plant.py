#!/usr/bin/env python3
"""Generate and validate the planted bugs of /verif/seeded from the definitions in tools/bugs*.py.

plant.py gen [ids]        write seeded/<id>/ and check that the demonstration tells the trees apart
plant.py tests [ids]      run the stable tests in a patched copy
plant.py detect [ids]     run the property's check against a patched copy (VT_REPO)
"""
import concurrent.futures, glob, importlib.util, json, os, shutil, subprocess, sys, threading
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SEEDED = os.path.join(ROOT, 'seeded')
ORIG = '1f3d1ee'
STATUS = os.path.join(ROOT, 'out', 'plant.json')


def load():
    bugs = {}
    for p in sorted(glob.glob(os.path.join(ROOT, 'tools', 'bugs*.py'))):
        spec = importlib.util.spec_from_file_location(os.path.basename(p)[:-3], p)
        m = importlib.util.module_from_spec(spec)
        spec.loader.exec_module(m)
        for b in m.BUGS:
            assert b['id'] not in bugs, b['id']
            bugs[b['id']] = b
    return bugs


def clone(d, patch=None):
    shutil.rmtree(d, ignore_errors=True)
    subprocess.run(['cp', '-a', '/repo', d], check=True)
    subprocess.run(['git', '-C', d, 'checkout', '-q', '--', '.'], check=True)
    if patch:
        subprocess.run(['git', '-C', d, 'apply', patch], check=True)


def demo(d, repo):
    r = subprocess.run(['bash', os.path.join(d, 'demo.sh')], cwd=repo, capture_output=True, text=True, timeout=300,
                       env=dict(os.environ, PYTHONDONTWRITEBYTECODE='1'))
    return r.returncode, (r.stdout + r.stderr).strip().splitlines()[-1:]


def gen(b):
    with LOCK:
        st = status_()
        if st.pop(b['id'], None) is not None:
            json.dump(st, open(STATUS, 'w'), indent=1, sort_keys=True)
    d = os.path.join(SEEDED, b['id'])
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(d)
    w = '/tmp/plant_gen_' + b['id']
    clone(w)
    for f, old, new in b['edits']:
        p = os.path.join(w, f)
        s = open(p).read()
        assert s.count(old) == 1, (b['id'], f, s.count(old), old)
        open(p, 'w').write(s.replace(old, new))
    diff = subprocess.run(['git', '-C', w, 'diff'], capture_output=True, text=True).stdout
    # the lines removed must be lines of the original repository
    removed = [l[1:] for l in diff.splitlines() if l.startswith('-') and not l.startswith('---')]
    orig = ''.join(subprocess.run(['git', '-C', '/repo', 'show', '%s:%s' % (ORIG, f)], capture_output=True, text=True).stdout
                   for f in {e[0] for e in b['edits']})
    mine = [l for l in removed if l.strip() and l not in orig.splitlines()]
    note = ''
    if not [l for l in removed if l.strip()]:
        note += ' NO-LINE-CHANGED'
    if mine:
        note += ' CHANGES-MY-LINES %r' % mine
    open(os.path.join(d, 'patch.diff'), 'w').write(diff)
    open(os.path.join(d, 'demo.py'), 'w').write('from demolib import *\n' + b['demo'].strip('\n') + '\n')
    open(os.path.join(d, 'demo.sh'), 'w').write(
        '#!/bin/sh\n# run with cwd /repo: exit 0 when the property holds, nonzero when it does not\n'
        'PYTHONDONTWRITEBYTECODE=1 PYTHONPATH="$PWD:$PWD/segpy-ext/segpy_numpy" exec /opt/venv/bin/python "$(dirname "$0")/demo.py"\n')
    os.chmod(os.path.join(d, 'demo.sh'), 0o755)
    shutil.copy(os.path.join(ROOT, 'tools', 'demolib.py'), d)
    json.dump({'property': b['property'], 'needs': b['needs'], 'what_it_breaks': b['breaks']},
              open(os.path.join(d, 'meta.json'), 'w'), indent=1)
    rp, lp = demo(d, w)
    subprocess.run(['git', '-C', w, 'checkout', '-q', '--', '.'], check=True)
    rc, lc = demo(d, w)
    shutil.rmtree(w)
    ok = rc == 0 and rp != 0 and not note
    print(('ok   ' if ok else 'BAD  ') + b['id'], 'clean', rc, lc if rc else '', 'patched', rp, lp, note, flush=True)
    return ok


LOCK = threading.Lock()


def status(update=None):
    with LOCK:
        return status_(update)


def status_(update=None):
    s = json.load(open(STATUS)) if os.path.exists(STATUS) else {}
    if update:
        for k, v in update.items():
            s.setdefault(k, {}).update(v)
        json.dump(s, open(STATUS, 'w'), indent=1, sort_keys=True)
    return s


def tests(b):
    w = '/tmp/plant_tests_' + b['id']
    clone(w, os.path.join(SEEDED, b['id'], 'patch.diff'))
    out = w + '.json'
    if os.path.exists(out):
        os.unlink(out)
    sh = open('/opt/vp/test.sh').read().replace('/repo', w)
    open(w + '.sh', 'w').write(sh)
    subprocess.run(['bash', w + '.sh', out], capture_output=True, timeout=900)
    base = json.load(open('/opt/vp/BASELINE.json'))
    stable = base['stable']
    res = json.load(open(out))
    passed = set(res['passed'])
    bad = [t for t in stable if t not in passed]
    shutil.rmtree(w)
    os.unlink(out)
    os.unlink(w + '.sh')
    status({b['id']: {'tests': 'ok' if not bad else bad[:3]}})
    print(('ok   ' if not bad else 'BAD  ') + b['id'], len(bad), bad[:3], flush=True)


def detect(b, seeds=('1',)):
    w = '/tmp/plant_detect_' + b['id']
    clone(w, os.path.join(SEEDED, b['id'], 'patch.diff'))
    r = subprocess.run([os.path.join(ROOT, 'bin', 'check'), b['property'], '--no-model', '--seed', seeds[0]], capture_output=True, text=True,
                       env=dict(os.environ, VT_REPO=w), timeout=900)
    hit = r.returncode == 1 and ('VIOLATION property=' + b['property']) in r.stdout
    status({b['id']: {'detect': hit}})
    print(('caught ' if hit else 'MISSED ') + b['id'], r.returncode, flush=True)
    shutil.rmtree(w)


def main():
    bugs = load()
    cmd, ids = sys.argv[1], sys.argv[2:]
    sel = [b for k, b in bugs.items() if not ids or any(k == i or k.startswith(i) for i in ids)]
    if cmd == 'tests' and not ids:
        known = status()
        sel = [b for b in sel if 'tests' not in known.get(b['id'], {})]
    def one(b):
        try:
            {'gen': gen, 'tests': tests, 'detect': detect}[cmd](b)
        except Exception as e:
            print('ERROR', b['id'], repr(e)[:400], flush=True)
    with concurrent.futures.ThreadPoolExecutor({'gen': 6, 'tests': 1, 'detect': 1}[cmd]) as ex:
        list(ex.map(one, sel))


main()
