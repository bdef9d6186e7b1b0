#!/usr/bin/env python3
"""Runner: model check, generate behaviours, drive the real code, validate the traces with TLC.

usage: vt.py PROPERTY [--tier quick|thorough] [--seed N] [--keep]
Exit status 0: property held on everything explored; 1: VIOLATION lines printed; 2: machinery error.
"""
import argparse, collections, concurrent.futures as cf, json, os, re, shutil, subprocess, sys, tempfile, threading, time

HERE = os.path.dirname(os.path.abspath(__file__))
ROOT = os.path.dirname(HERE)
SPEC = os.path.join(ROOT, 'spec')
REPO = os.environ.get('VT_REPO', '/repo')
PY = '/opt/venv/bin/python'
JARS = '/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar'
sys.path.insert(0, HERE)
from registry import PROPS

CPUS = min(8, os.cpu_count() or 1)


class MachineryError(Exception):
    pass


def tlc(module, cfg, work, env=None, workers=1, timeout=800, xmx='3g', extra=(), quick=False, stop_at=None):
    """Run TLC; returns dict(ok, out, states, transitions)."""
    meta = tempfile.mkdtemp(prefix='meta', dir=work)
    e = dict(os.environ)
    e.update(env or {})
    cmd = ['java', '-Xmx' + xmx, '-Xss32m', '-XX:+UseSerialGC' if workers == 1 else '-XX:+UseParallelGC',
           '-XX:-UsePerfData', '-XX:TieredStopAtLevel=1' if quick else '-XX:CICompilerCount=2', '-Djava.io.tmpdir=' + meta, '-cp', JARS, 'tlc2.TLC', '-workers', str(workers), '-metadir', meta,
           '-noGenerateSpecTE', '-deadlock', '-config', os.path.join(SPEC, cfg)] + list(extra) + [os.path.join(SPEC, module + '.tla')]
    # TLC reconstructs the whole behaviour after an error, which takes long and is of no use for a recorded trace
    p = subprocess.Popen(cmd, cwd=SPEC, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
    late = []
    timer = threading.Timer(timeout, lambda: (late.append(1), p.kill()))
    timer.start()
    lines = []
    try:
        for l in p.stdout:
            lines.append(l)
            if stop_at and l.startswith(stop_at):
                p.kill()
                break
        p.wait()
    finally:
        timer.cancel()
    out, rc = b''.join(lines).decode('utf8', 'replace') + ('\nTIMEOUT' if late else ''), -1 if late else p.returncode
    shutil.rmtree(meta, ignore_errors=True)
    m = re.findall(r'([\d,]+) states generated[^\n]*?([\d,]+) distinct states found', out)
    tr, st = (int(m[-1][0].replace(',', '')), int(m[-1][1].replace(',', ''))) if m else (0, 0)
    if not m:
        m = re.findall(r'The number of states generated: ([\d,]+)', out)
        if m:
            tr = st = int(m[-1].replace(',', ''))
    return dict(ok=(rc == 0), rc=rc, out=out, states=st, transitions=tr)


def parts_of(d):
    """A property is decided by one or more pairs of a driver and a trace specification."""
    return d['parts'] if 'parts' in d else [d]


def run_driver(prop, d, k, n, work, tier, seed, scen):
    tag = '%s_%d' % (d['driver'], k)
    out = os.path.join(work, 'trace_%s.ndjson' % tag)
    err = os.path.join(work, 'driver_%s.log' % tag)
    scratch = os.path.join(work, 'scratch_%s' % tag)
    os.makedirs(scratch)
    e = {a: b for a, b in os.environ.items() if not a.startswith('PYTHON')}
    e.update(PYTHONDONTWRITEBYTECODE='1', PYTHONHASHSEED='0', PYTHONWARNINGS='ignore', OMP_NUM_THREADS='1', OPENBLAS_NUM_THREADS='1',
             PYTHONPATH=':'.join([REPO, os.path.join(REPO, 'segpy-ext', 'segpy_numpy'), HERE]))
    cmd = [PY, '-B', os.path.join(HERE, 'drivers', d['driver'] + '.py'), '--prop', prop, '--shard', '%d/%d' % (k, n),
           '--tier', tier, '--seed', str(seed), '--out', out, '--scratch', scratch]
    if scen:
        cmd += ['--scen', scen]
    with open(err, 'wb') as f:
        try:
            rc = subprocess.run(cmd, cwd=scratch, env=e, stdout=f, stderr=f, timeout=d.get('driver_timeout', 700)).returncode
        except subprocess.TimeoutExpired:
            rc = -9
    return d, k, rc, out, err


def validate(d, trace, work, idx, quick):
    res = os.path.join(work, 'verdict_%d.json' % idx)
    r = tlc(d['trace'], d.get('trace_cfg', 'Trace.cfg'), work, env=dict(TRACE=trace, VERDICT=res), timeout=d.get('trace_timeout', 850), quick=quick, stop_at=b'Error: The behavior up to this point is')
    if not os.path.exists(res):
        at = re.findall(r'^<<"event", (\d+)>>$', r['out'].split('\nError: ')[0], re.M)   # (they are printed again when TLC reconstructs the behaviour)
        if 'TIMEOUT' in r['out'] or 'OutOfMemory' in r['out'] or 'Error: The behavior up to this point is' not in r['out'] or not at:
            raise MachineryError('trace validation of %s failed (rc %s):\n%s' % (trace, r['rc'], r['out'][-6000:]))
        # the recorded event has no meaning in the model at all
        print('the model cannot interpret event %s of %s:\n%s' % (at[-1], trace, r['out'][-1500:]))
        return r, dict(events=int(at[-1]), bad=[dict(line=int(at[-1]), clause='not_a_behaviour')])
    if not os.path.exists(res):
        raise MachineryError('trace validation of %s failed (rc %s):\n%s' % (trace, r['rc'], r['out'][-6000:]))
    v = json.load(open(res))
    v = v[0] if isinstance(v, list) else v
    nlines = sum(1 for _ in open(trace))
    if v['events'] != nlines:
        raise MachineryError('trace validation consumed %s of %s events' % (v['events'], nlines))
    return r, v


def load_known():
    p = os.path.join(ROOT, 'known_findings.json')
    return json.load(open(p)) if os.path.exists(p) else []


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('prop')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
    ap.add_argument('--seed', type=int, default=int(os.environ.get('VERIF_SEED', '1') or 1))
    ap.add_argument('--keep', action='store_true')
    ap.add_argument('--no-model', action='store_true')
    a = ap.parse_args()
    if a.tier not in ('quick', 'thorough'):
        a.tier = 'quick'
    prop, d = a.prop, PROPS[a.prop]
    t0 = time.time()
    work = tempfile.mkdtemp(prefix='vt_%s_' % prop)
    status = 2
    try:
        status = check(a, prop, d, work, t0)
    except MachineryError as e:
        print('MACHINERY ERROR:', e)
    finally:
        if a.keep:
            print('work dir', work)
        else:
            subprocess.run(['chmod', '-R', 'u+rwX', work])
            shutil.rmtree(work, ignore_errors=True)
    return status


def check(a, prop, d, work, t0):
    tier, seed = a.tier, a.seed
    states = transitions = 0
    notes = []
    timing = {}
    # 1. model checking and behaviour generation, concurrently
    scen = os.path.join(work, 'scen')
    os.makedirs(scen)
    jobs = []
    for m in ([] if a.no_model else d.get('models', [])):
        if tier == 'quick' and m.get('tier') == 'thorough':
            continue
        jobs.append(('model', m))
    for g in d.get('gens', []):
        if tier == 'quick' and g.get('tier') == 'thorough':
            continue
        jobs.append(('gen', g))

    def job(x):
        kind, m = x
        env = {'SCEN': os.path.join(scen, 'unused.json')}
        extra = list(m.get('extra', ()))
        cfg = m.get('cfg_thorough', m['cfg']) if tier == 'thorough' else m['cfg']
        if kind == 'gen':
            env['SCEN'] = os.path.join(scen, m['name'] + '.json')
            if m.get('simulate'):
                num = m['simulate'][1 if tier == 'thorough' else 0]
                extra += ['-simulate', 'num=%d' % num, '-depth', str(m['depth']), '-seed', str(seed)]
        t = time.time()
        r = tlc(m['module'], cfg, work, env=env, workers=m.get('workers', 2 if kind == 'model' else 1), extra=extra,
                timeout=m.get('timeout', 780), quick=(kind == 'gen'))
        return kind, m, cfg, r, time.time() - t

    with cf.ThreadPoolExecutor(CPUS) as ex:
        futs = [ex.submit(job, x) for x in jobs]
        gens_pending = [f for f, x in zip(futs, jobs) if x[0] == 'gen']
        for f in gens_pending:
            f.result()
        tgen = time.time()
        dr = [ex.submit(run_driver, prop, p, k, p.get('shards', CPUS), work, tier, seed, scen) for p in parts_of(d) for k in range(p.get('shards', CPUS))]
        results = [f.result() for f in futs]
        drs = [f.result() for f in dr]
    for kind, m, cfg, r, w in results:
        if not r['ok']:
            raise MachineryError('TLC %s %s %s: rc %s\n%s' % (kind, m['module'], cfg, r['rc'], r['out'][-5000:]))
        states += r['states']
        transitions += r['transitions']
        notes.append(dict(kind=kind, module=m['module'], cfg=cfg, distinct_states=r['states'], generated=r['transitions'], wall_s=round(w, 1)))
    timing['model_and_drive'] = round(time.time() - t0, 1)
    traces = []
    for p, k, rc, out, err in drs:
        if rc != 0:
            raise MachineryError('driver shard %d exited %s:\n%s' % (k, rc, open(err, errors='replace').read()[-4000:]))
        traces.append((p, out))
    # 2. trace validation
    failures = []
    nsess = nev = 0
    clauses = collections.Counter()
    opcount = collections.Counter()
    samples = []
    with cf.ThreadPoolExecutor(CPUS) as ex:
        vs = list(ex.map(lambda x: validate(x[1][0], x[1][1], work, x[0], tier == 'quick'), enumerate(traces)))
    for (_, tr), (r, v) in zip(traces, vs):
        states += r['states']
        transitions += r['transitions']
        lines = [json.loads(l) for l in open(tr)]
        nev += len(lines)
        for x in lines:
            opcount[x['op']] += 1
            nsess += x['op'] == 'begin'
        if lines and len(samples) < 3:
            samples.append(shorten(lines[min(len(lines) - 1, 1)]))
        for b in v['bad']:
            if d.get('only') and b['clause'] not in d['only'] and b['clause'] not in ('driver_completed', 'not_a_behaviour'):
                notes.append(dict(not_of_this_property=b['clause'])) if len(notes) < 40 else None
                continue
            failures.append((lines, b['line'] - 1, b['clause']))
    timing['validate'] = round(time.time() - t0 - timing['model_and_drive'], 1)
    # 3. verdict
    known = [k for k in load_known() if k['property'] == prop and k.get('status') == 'known']
    outdir = os.path.join(ROOT, 'out', prop)
    seen_known, groups = collections.OrderedDict(), collections.OrderedDict()
    for lines, i, clause in failures:
        k = next((k for k in known if k['clause'] == clause), None)
        if k is not None:
            seen_known.setdefault(k['clause'], (k, []))[1].append(i)
        else:
            groups.setdefault((lines[i]['op'], clause), []).append((lines, i))
    for clause, (k, hits) in seen_known.items():
        print('KNOWN-FINDING: property=%s %s (%d observations)' % (prop, k['what'], len(hits)))
    for k in known:
        if k['clause'] not in seen_known:
            # listed findings are reported on every run in which they could be observed
            notes.append(dict(known_finding_not_observed=k['clause']))
    nviol = 0
    if groups:
        os.makedirs(outdir, exist_ok=True)
    for (op, clause), hits in groups.items():
        nviol += 1
        lines, i = min(hits, key=lambda h: session_len(*h))
        s = i
        while s > 0 and lines[s]['op'] != 'begin':
            s -= 1
        sess = lines[s:i + 1]
        if len(sess) > 45:
            sess = sess[:12] + sess[-30:]
        path = os.path.join(outdir, 'violation_%s_%s.json' % (op, clause))
        with open(path, 'w') as f:
            json.dump(dict(property=prop, clause=clause, op=op, seed=seed, tier=tier, occurrences=len(hits),
                           session=sess), f)
        print('clause %s fails on operation %s (%d times), e.g. %s' % (clause, op, len(hits), json.dumps(shorten(lines[i]))[:600]))
        print('VIOLATION property=%s replay=%s' % (prop, path))
    ev = dict(property=prop, tier=tier, seed=seed, level='model_checking',
              coverage=dict(states=states, transitions=transitions, traces_validated_against_impl=nsess,
                            events_validated=nev, operations=dict(opcount), samples=samples, runs=notes, timing=timing),
              assumptions=d.get('assumptions', []), wall_s=round(time.time() - t0, 1), violations=nviol)
    os.makedirs(os.path.join(ROOT, 'evidence'), exist_ok=True)
    with open(os.path.join(ROOT, 'evidence', prop + '.json'), 'w') as f:
        json.dump(ev, f, indent=1)
    print('%s %s: %d model/trace states, %d sessions, %d events, %d violations, %d known, %.1fs %s' % (
        prop, tier, states, nsess, nev, nviol, len(seen_known), time.time() - t0, timing))
    return 1 if nviol else 0


def session_len(lines, i):
    n = 0
    while i - n > 0 and lines[i - n]['op'] != 'begin':
        n += 1
    return n


def shorten(x, depth=0):
    if isinstance(x, dict):
        return {k: shorten(v, depth + 1) for k, v in x.items()}
    if isinstance(x, list) and len(x) > 24:
        return [shorten(v, depth + 1) for v in x[:24]] + ['... %d items' % len(x)]
    if isinstance(x, list):
        return [shorten(v, depth + 1) for v in x]
    if isinstance(x, str) and len(x) > 300:
        return x[:300] + '...'
    return x


if __name__ == '__main__':
    sys.exit(main())
