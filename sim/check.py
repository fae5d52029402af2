"""check.py PROP [--tier quick|thorough] : run the batch, write evidence, exit 0/1 (2 = error of the check)
   check.py --replay FILE                 : re-execute one replay file, exit 1 if the violation reproduces
"""
import json
import os
import selectors
import subprocess
import sys
import time

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PY = '/opt/venv/bin/python' if os.path.exists('/opt/venv/bin/python') else sys.executable


def child_env(hashseed='0'):
    env = dict(os.environ)
    env['PYTHONPATH'] = HERE + os.pathsep + os.environ.get('NEMPY_SRC', '/repo/src')
    env['PYTHONDONTWRITEBYTECODE'] = '1'
    env['PYTHONHASHSEED'] = hashseed
    for k in ('OMP_NUM_THREADS', 'OPENBLAS_NUM_THREADS', 'MKL_NUM_THREADS'):
        env[k] = '1'
    return env


def known_findings():
    path = os.path.join(HERE, 'known_findings.json')
    if not os.path.exists(path):
        return []
    return [k for k in json.load(open(path)) if isinstance(k, dict) and k.get('status') == 'open']


def matches(k, prop, v):
    if k['property'] != prop or k['cls'] != v['cls']:
        return False
    return all(s in v['msg'] for s in k.get('msg_contains', []))


def run_batch(prop, seed, tier, runs, wall, workers=None, hashseed='0', stop_on_violation=True):
    workers = workers or min(8, os.cpu_count() or 1)
    sel = selectors.DefaultSelector()
    procs = []
    t0 = time.monotonic()
    for w in range(workers):
        p = subprocess.Popen([PY, '-m', 'sim.worker', prop, str(seed), tier, str(w), str(workers), str(runs), str(wall)],
                             cwd=HERE, env=child_env(hashseed), stdout=subprocess.PIPE, text=False)
        os.set_blocking(p.stdout.fileno(), False)
        st = {'p': p, 'buf': b'', 'last': time.monotonic(), 'done': False}
        procs.append(st)
        sel.register(p.stdout, selectors.EVENT_READ, st)
    recs, errors, viol = [], [], []
    known = known_findings()
    known_hits = {}
    live = workers
    stop = False
    HANG = 240
    while live and not stop:
        for key, _ in sel.select(timeout=2.0):
            st = key.data
            data = st['p'].stdout.read()
            if data is None:
                continue
            if data == b'':
                sel.unregister(st['p'].stdout)
                st['p'].wait()
                live -= 1
                if not st['done']:
                    errors.append('worker died with code %s' % st['p'].returncode)
                continue
            st['last'] = time.monotonic()
            st['buf'] += data
            while b'\n' in st['buf']:
                line, st['buf'] = st['buf'].split(b'\n', 1)
                r = json.loads(line)
                if r.get('done'):
                    st['done'] = True
                elif 'error' in r:
                    errors.append('run %s: %s' % (r['i'], r['error']))
                elif 'i' in r:
                    if 'violation' in r:
                        hit = [k for k in known if matches(k, prop, r['violation'])]
                        if hit:
                            known_hits[hit[0]['id']] = hit[0]
                        else:
                            viol.append(r)
                            if stop_on_violation:
                                stop = True
                    recs.append(r)
        now = time.monotonic()
        for st in procs:
            if not st['done'] and st['p'].poll() is None and now - st['last'] > HANG:
                errors.append('worker hung for %d s' % HANG)
                st['p'].kill()
        if len(errors) > 20:
            stop = True
    for st in procs:
        if st['p'].poll() is None:
            st['p'].kill()
        st['p'].wait()
    return recs, errors, viol, known_hits, time.monotonic() - t0


def replay_in_fresh_process(path):
    p = subprocess.run([PY, '-m', 'sim.check', '--replay', path], cwd=HERE, env=child_env('7'),
                       stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, text=True, timeout=600)
    return p.returncode, p.stdout


def do_replay(path):
    out = os.fdopen(os.dup(1), 'w')
    dn = os.open(os.devnull, os.O_WRONLY)
    os.dup2(dn, 1)
    import warnings
    warnings.filterwarnings('ignore')
    from sim import seams, core, registry
    seams.install()
    rep = json.load(open(path))
    prop = rep['property']
    world = registry.PROPS[prop][0]()
    v, ctx = core.run_scenario(world, rep['scenario'], prop)
    for line in ctx.log:
        print(line, file=out)
    print('digest', ctx.digest(), file=out)
    if v is None:
        print('REPLAY: no violation', file=out)
        out.flush()
        return 0
    print('REPLAY: violation class=%s\n%s' % (v.cls, v.msg), file=out)
    same = v.cls == rep['class'] and ctx.digest() == rep['digest']
    print('REPLAY: %s' % ('reproduced exactly' if same else 'DIFFERS from the recorded one'), file=out)
    out.flush()
    return 1 if same else 3


def do_minimise(inp, outp):
    dn = os.open(os.devnull, os.O_WRONLY)
    os.dup2(dn, 1)
    import warnings
    warnings.filterwarnings('ignore')
    from sim import seams, core, registry
    seams.install()
    rec = json.load(open(inp))
    prop = rec['property']
    world = registry.PROPS[prop][0]()
    best, tried = core.minimise(world, rec['scenario'], prop, rec['class'], budget_s=float(rec.get('budget', 60)))
    v, ctx = core.run_scenario(world, best, prop)
    if v is None:
        best = rec['scenario']
        v, ctx = core.run_scenario(world, best, prop)
    rec['scenario'] = best
    rec['minimise_tries'] = tried
    rec['steps_before'] = rec.get('steps_before')
    rec['steps_after'] = len(best['steps'])
    if v is not None:
        rec['message'] = v.msg
        rec['class'] = v.cls
    rec['digest'] = ctx.digest()
    rec['log'] = ctx.log
    with open(outp, 'w') as f:
        json.dump(rec, f, indent=1)


def report_violation(prop, seed, tier, r):
    d = os.path.join(HERE, 'replays')
    os.makedirs(d, exist_ok=True)
    raw = os.path.join(d, '%s-seed%d-run%d.raw.json' % (prop, seed, r['i']))
    path = os.path.join(d, '%s-seed%d-run%d.json' % (prop, seed, r['i']))
    v = r['violation']
    rec = {'property': prop, 'seed': seed, 'index': r['i'], 'class': v['cls'], 'message': v['msg'],
           'scenario': v['scenario'], 'digest': r['digest'], 'budget': 60 if tier == 'quick' else 300,
           'steps_before': len(v['scenario']['steps'])}
    json.dump(rec, open(raw, 'w'), indent=1)
    try:
        subprocess.run([PY, '-m', 'sim.check', '--minimise', raw, path], cwd=HERE, env=child_env('0'),
                       stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL, timeout=420)
    except subprocess.TimeoutExpired:
        pass
    note = ''
    for cand in (path, raw):
        if not os.path.exists(cand):
            continue
        try:
            code, _ = replay_in_fresh_process(cand)
        except subprocess.TimeoutExpired:
            continue
        if code == 1:
            return cand, 'replayed in a fresh process: reproduced exactly', True
        note = 'fresh-process replay returned %s' % code
    return (path if os.path.exists(path) else raw), note, False


def summarise(prop, world, tier, seed, recs, wall, errors, nviol, known_hits, planned, determinism):
    faults, probes, states = {}, {}, set()
    sim_time = 0.0
    logs = set()
    evals = 0
    samples = []
    for r in recs:
        for k, v in r['faults'].items():
            faults[k] = faults.get(k, 0) + v
        for k, v in r['probes'].items():
            probes[k] = probes.get(k, 0) + v
        states.update(r['states'])
        sim_time += r['sim_time']
        evals += r['evals']
        if r['nontrivial']:
            logs.add(r['digest'])
        if 'sample' in r and len(samples) < 3:
            samples.append(r['sample'])
    cov = {
        'evaluations': len(recs), 'distinct_nontrivial': len(logs), 'rule': world.rule, 'samples': samples,
        'oracle_evaluations': evals, 'runs_planned': planned, 'runs_per_hour': round(len(recs) / max(wall, 1e-9) * 3600),
        'simulated_seconds': round(sim_time, 1), 'faults_injected': dict(sorted(faults.items())),
        'probes_hit': dict(sorted(probes.items())),
        'distinct_states': len(states), 'state_measure': getattr(world, 'state_measure',
                                                                 'hash of the durable/observable state after each step'),
        'distinct_interleavings': len({r['digest'] for r in recs}),
        'interleaving_measure': 'sha256 of the full event log (operations, faults, reads, outcomes in order)',
        'real_components': world.real, 'stub_components': world.stub, 'check_errors': len(errors),
        'known_findings_hit': sorted(known_hits), 'determinism_sample': determinism,
        'seeds': '%d runs derived from VERIF_SEED=%d (run index 0..%d)' % (len(recs), seed, planned - 1),
    }
    return {'property': prop, 'tier': tier, 'seed': seed, 'level': getattr(world, 'level', 'exploration'),
            'coverage': cov, 'wall_s': round(wall, 2), 'violations': nviol,
            'assumptions': getattr(world, 'assumptions', [
                'a process crash loses what was not handed to the operating system or committed; power loss that '
                'reorders writes below the file system is not modelled',
                'seeded sampling: a clean batch is evidence, not proof'])}


def determinism_sample(prop, seed, tier, recs, n):
    """re-run the first n runs in one other process with another PYTHONHASHSEED and worker count; compare event logs"""
    if n <= 0:
        return {'compared': 0}
    again, errors, viol, _, _ = run_batch(prop, seed, tier, n, 600, workers=2, hashseed='4242', stop_on_violation=False)
    a = {r['i']: r['digest'] for r in recs}
    bad = [r['i'] for r in again if r['i'] in a and a[r['i']] != r['digest']]
    return {'compared': len([r for r in again if r['i'] in a]), 'diverged': bad}


def main(argv):
    if argv and argv[0] == '--replay':
        return do_replay(argv[1])
    if argv and argv[0] == '--minimise':
        do_minimise(argv[1], argv[2])
        return 0
    prop = argv[0]
    tier = argv[argv.index('--tier') + 1] if '--tier' in argv else os.environ.get('VERIF_TIER', 'quick')
    seed = int(os.environ.get('VERIF_SEED', '1'))
    sys.path.insert(0, HERE)
    from sim import registry
    make, qr, qw, tr, tw = registry.PROPS[prop]
    runs, wall = (qr, qw) if tier == 'quick' else (tr, tw)
    if '--runs' in argv:
        runs = int(argv[argv.index('--runs') + 1])
    if '--wall' in argv:
        wall = float(argv[argv.index('--wall') + 1])
    print('property %s tier %s VERIF_SEED %d: up to %d simulated runs, %d s' % (prop, tier, seed, runs, wall))
    sys.stdout.flush()
    world = make()
    recs, errors, viol, known_hits, took = run_batch(prop, seed, tier, runs, wall)
    det = {'compared': 0}
    if not viol and not errors:
        det = determinism_sample(prop, seed, tier, recs, 8 if tier == 'quick' else 200)
    os.makedirs(os.path.join(HERE, 'evidence'), exist_ok=True)
    ev = summarise(prop, world, tier, seed, recs, took, errors, len(viol), known_hits, runs, det)
    with open(os.path.join(HERE, 'evidence', prop + '.json'), 'w') as f:
        json.dump(ev, f, indent=1)
    c = ev['coverage']
    print('%d runs in %.0f s (%d/h), %d distinct event logs, %d states, %.0f simulated s, faults %s' %
          (len(recs), took, c['runs_per_hour'], c['distinct_interleavings'], c['distinct_states'],
           c['simulated_seconds'], c['faults_injected']))
    print('probes %s' % c['probes_hit'])
    for k in known_hits.values():
        print('KNOWN-FINDING: property=%s %s' % (prop, k['what']))
    if viol:
        r = min(viol, key=lambda x: x['i'])
        path, note, ok = report_violation(prop, seed, tier, r)
        v = r['violation']
        try:
            v = {'cls': json.load(open(path))['class'], 'msg': json.load(open(path))['message']}
        except Exception:
            pass
        print('class %s: %s' % (v['cls'], v['msg'][:1500]))
        print('seed %d run %d; %s' % (seed, r['i'], note))
        print('VIOLATION property=%s replay=%s' % (prop, path))
        return 1
    if errors:
        print('CHECK ERROR: %d errors, first:\n%s' % (len(errors), errors[0]))
        return 2
    if det.get('diverged'):
        print('CHECK ERROR: runs %s are not deterministic' % det['diverged'][:10])
        return 2
    if len(recs) < min(runs, max(8, runs // 20)):
        print('CHECK ERROR: only %d of %d runs completed within the wall limit' % (len(recs), runs))
        return 2
    print('held on everything explored')
    return 0


if __name__ == '__main__':
    sys.exit(main(sys.argv[1:]))
