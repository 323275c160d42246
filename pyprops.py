"""checks of the Python baseline (C27): shards of harness/mekf_props.py under the tooling interpreter"""
import hashlib, json, os, shutil, subprocess, sys, tempfile, time

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get('VERIF_REPO', '/repo')
PY = shutil.which('python3-vt') or '/opt/veriftools/pyvenv/bin/python3'
SCRIPT = os.path.join(VERIF, 'harness', 'mekf_props.py')


def run(pid, P, tier, seed, a, t0):
    env = dict(os.environ, PYTHONDONTWRITEBYTECODE='1', OMP_NUM_THREADS='1', OPENBLAS_NUM_THREADS='1')
    if a.replay:
        return subprocess.run([PY, SCRIPT, '--repo', REPO, '--replay', os.path.abspath(a.replay)], env=env).returncode
    shards = a.shards or 8
    total = a.cases or P['cases'][tier]
    scratch = tempfile.mkdtemp(prefix='vf.%s.' % pid)
    try:
        procs = []
        for s in range(shards):
            out = os.path.join(scratch, '%d.json' % s)
            err = open(os.path.join(scratch, '%d.err' % s), 'w')
            cmd = [PY, SCRIPT, '--repo', REPO, '--seed', str(seed * 100 + s), '--cases', str(max(1, total // shards)), '--out', out]
            procs.append((out, err.name, subprocess.Popen(cmd, cwd=scratch, env=dict(env, TMPDIR=scratch), stdout=err, stderr=err)))
        stats, failures = [], []
        limit = t0 + (700 if tier == 'quick' else 6000)
        for out, err, p in procs:
            try:
                p.wait(max(1, limit - time.time()))
            except subprocess.TimeoutExpired:
                p.kill()
                p.wait()
                continue
            if p.returncode != 0 or not os.path.exists(out):
                sys.exit('harness failed (%s):\n%s' % (p.returncode, open(err).read()[-3000:]))
            r = json.load(open(out))
            stats.append(r)
            failures += r['failures']
        violations = []
        os.makedirs(os.path.join(VERIF, 'replays'), exist_ok=True)
        for f in failures:
            head = f['msg'].split(':')[0]
            if len(violations) >= 3 or any(v[1].split(':')[0] == head for v in violations):
                continue
            c = json.dumps(f['case'], sort_keys=True)
            path = os.path.join(VERIF, 'replays', '%s-%s.json' % (pid, hashlib.sha256(c.encode()).hexdigest()[:10]))
            with open(path, 'w') as o:
                o.write('# property %s  (replay: python3 check.py %s --replay %s)\n' % (pid, pid, path))
                o.write(''.join('# %s\n' % l for l in f['msg'].splitlines()))
                o.write(c + '\n')
            violations.append((path, f['msg']))
        tags = {}
        for s in stats:
            for k, v in s['tags'].items():
                tags[k] = tags.get(k, 0) + v
        ev = {'property': pid, 'tier': tier, 'seed': seed, 'level': 'exploration',
              'coverage': {'evaluations': sum(s['evaluated'] for s in stats), 'distinct_nontrivial': sum(s['nontrivial'] for s in stats),
                           'rule': 'Hypothesis cases per function (conversions, update, propagation histories, bias window, trajectory file, readers). Non-trivial: '
                                   'distinct and not the identity rotation / zero covariance / a single row.',
                           'samples': [x for s in stats for x in s['samples']][:5], 'classes': tags, 'shards': shards},
              'wall_s': round(time.time() - t0, 1), 'violations': len(violations)}
        json.dump(ev, open(os.path.join(VERIF, 'evidence', pid + '.json'), 'w'), indent=1)
        print('%s %s: %d cases, %d non-trivial, %.1fs, %d violation(s)' % (pid, tier, ev['coverage']['evaluations'],
                                                                         ev['coverage']['distinct_nontrivial'], time.time() - t0, len(violations)))
        for path, msg in violations:
            print('--- ' + msg[:2000])
            print('VIOLATION property=%s replay=%s' % (pid, path))
        return 1 if violations else 0
    finally:
        shutil.rmtree(scratch, ignore_errors=True)
