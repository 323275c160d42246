#!/usr/bin/env python3
"""check.py <ID> [--tier quick|thorough] [--seed N] [--replay FILE]

Builds the harness of one property against /repo's current working tree, searches generated cases with
rapidcheck in parallel shards, replays failures, writes evidence/<ID>.json.  Exit 0 or 1(+VIOLATION line).
"""
import argparse, concurrent.futures as cf, glob, hashlib, json, os, re, shutil, signal, subprocess, sys, tempfile, time

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get('VERIF_REPO', '/repo')
HARNESS = os.path.join(VERIF, 'harness')
BUILD = os.path.join(VERIF, 'build')
CXX = 'clang++'
NPROC = max(2, min(8, os.cpu_count() or 8))

from props import PROPS  # noqa: E402


def sh(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors='replace', **kw)


def hfile(p):
    with open(p, 'rb') as f:
        return hashlib.sha256(f.read()).hexdigest()


def tree_hash(dirs, exts=('.h', '.hpp', '.inc')):
    h = hashlib.sha256()
    for d in dirs:
        for root, ds, fs in os.walk(d):
            ds.sort()
            for f in sorted(fs):
                if f.endswith(exts) or '.' not in f:
                    p = os.path.join(root, f)
                    h.update(p.encode() + b'\0')
                    h.update(hfile(p).encode())
    return h.hexdigest()


SAN = {
    # the UBSan kinds that can fire in this code base; the pointer kinds double the compile time and ASan covers them
    'asan': ['-fsanitize=address,bool,enum,integer-divide-by-zero,signed-integer-overflow,float-cast-overflow,return,unreachable',
             '-fno-sanitize-recover=all', '-fno-omit-frame-pointer'],
    'tsan': ['-fsanitize=thread', '-fno-omit-frame-pointer'],
    'none': [],
}


def lib_sources(groups):
    s = []
    r = lambda pat: sorted(glob.glob(os.path.join(REPO, pat), recursive=True))
    if 'core' in groups:
        s += [p for p in r('src/**/*.cpp') if '/kinematics/' not in p]
    for g in ('math', 'state', 'measurement'):
        if g in groups:
            s += r('src/%s/**/*.cpp' % g)
    if 'kin' in groups:
        s += r('src/kinematics/**/*.cpp')
    if 'wheel' in groups:
        s += r('baselines/src/wheel_odometry/*.cpp')
    if 'ros' in groups:
        s += r('ROS/drift/src/communication/*.cpp')
    if 'rospub' in groups:  # without the subscriber, which needs the leg kinematics
        s += [p for p in r('ROS/drift/src/communication/*.cpp') if 'ros_subscriber' not in p]
    return s


def flags(P):
    inc = ['-I' + os.path.join(REPO, 'include'), '-I/usr/include/eigen3', '-I' + HARNESS]
    if 'wheel' in P['lib']:
        inc += ['-I' + os.path.join(REPO, 'baselines/include')]
    if 'ros' in P['lib'] or 'rospub' in P['lib']:
        inc = ['-I' + os.path.join(HARNESS, 'ros_stub')] + inc + ['-I' + os.path.join(REPO, 'ROS/drift/include')]
    if 'examples' in P['lib']:
        inc += ['-I' + REPO]
    return (['-std=c++17', P.get('opt', '-O1'), '-g1', '-w', '-pthread',
             '-include', os.path.join(HARNESS, 'common/eigen_throw.h')] + SAN[P['san']] + inc)


class BuildError(Exception):
    pass


def compile_one(src, fl, hdr):
    key = hashlib.sha256(('\0'.join([CXX] + fl) + hdr + hfile(src) + src).encode()).hexdigest()[:32]
    d = os.path.join(BUILD, 'obj')
    os.makedirs(d, exist_ok=True)
    obj = os.path.join(d, os.path.basename(src).replace('.cpp', '') + '-' + key + '.o')
    if not os.path.exists(obj):
        tmp = obj + '.%d.tmp' % os.getpid()
        r = sh([CXX] + fl + ['-c', src, '-o', tmp])
        if r.returncode:
            raise BuildError('compiling %s failed:\n%s' % (src, r.stdout[-6000:]))
        os.replace(tmp, obj)
    return obj


def build(pid):
    P = PROPS[pid]
    fl = flags(P)
    hdr = tree_hash([os.path.join(REPO, 'include'), os.path.join(REPO, 'baselines/include'),
                     os.path.join(REPO, 'ROS/drift/include'), os.path.join(HARNESS, 'common'),
                     os.path.join(HARNESS, 'ros_stub')])
    # .inc-like: impl .cpp files are included by headers
    hdr += tree_hash([os.path.join(REPO, 'include')], ('.cpp',))
    programs = tree_hash([os.path.join(REPO, 'ROS/drift/examples')], ('.cpp', '.h', '.hpp')) if 'examples' in P['lib'] else ''
    C = lambda f: os.path.join(HARNESS, 'common', f)
    libs = lib_sources(P['lib'])
    big = ('imu_propagation', 'inekf', 'ang_vel')  # slow to compile: first
    libs.sort(key=lambda p: not any(b in os.path.basename(p) for b in big))
    nosan = [f for f in fl if f not in SAN[P['san']]]
    # the references come last in link order, so that instrumented copies of shared inline functions win
    srcs = ([(os.path.join(HARNESS, pid + '.cpp'), fl), (C('main.cpp'), fl)] + [(l, fl) for l in libs]
            + [(C('ref.cpp'), nosan)] + ([(C('ref_filter.cpp'), nosan)] if 'core' in P['lib'] else []))
    with cf.ThreadPoolExecutor(NPROC) as pool:
        order = sorted(srcs, key=lambda x: 'ref_filter' not in x[0])
        futs = {s: pool.submit(compile_one, s, f, hdr + (programs if pid in os.path.basename(s) else '')) for s, f in order}
        futs = [futs[s] for s, f in srcs]
        objs = [f.result() for f in futs]
    exe = os.path.join(BUILD, pid + '-' + hashlib.sha256('\0'.join(objs).encode()).hexdigest()[:16])
    if not os.path.exists(exe):
        for old in glob.glob(os.path.join(BUILD, pid + '-*')):
            os.unlink(old)
        tmp = exe + '.%d.tmp' % os.getpid()
        r = sh([CXX] + SAN[P['san']] + ['-pthread', '-o', tmp] + objs + ['-lrapidcheck', '-lyaml-cpp', '-lboost_system'])
        if r.returncode:
            raise BuildError('link failed:\n' + r.stdout[-6000:])
        os.replace(tmp, exe)
    return exe


# ---------------------------------------------------------------------------------------------------------------
def read_map(path):
    import struct
    try:
        b = open(path, 'rb').read()
        n = struct.unpack_from('<I', b, 0)[0]
        return list(struct.unpack_from('<%dI' % n, b, 4))
    except Exception:
        return []


def write_tape(path, tape, head):
    with open(path, 'w') as f:
        for l in head.splitlines():
            f.write('# ' + l[:2000] + '\n')
        for i in range(0, len(tape), 12):
            f.write(' '.join(map(str, tape[i:i + 12])) + '\n')


def read_tape(path):
    t = []
    for l in open(path):
        if not l.startswith('#'):
            t += [int(w) for w in l.split()]
    return t


def run_replay(exe, path, scratch, timeout=240):
    d = tempfile.mkdtemp(dir=scratch)
    try:
        r = subprocess.run([exe, '--replay', path, '--scratch', d], stdout=subprocess.PIPE, stderr=subprocess.PIPE,
                           text=True, errors='replace', timeout=timeout, env=env_for())
        return r.returncode, r.stdout, r.stderr
    except subprocess.TimeoutExpired as e:
        return 97, '', 'replay timed out'
    finally:
        shutil.rmtree(d, ignore_errors=True)


def rerun_shard(cmd, scratch):
    """the same shard, same seed, in a fresh scratch directory: does it fail again?"""
    d = tempfile.mkdtemp(dir=scratch)
    c = list(cmd)
    for o, n in (('--out', 'out.json'), ('--current', 'cur'), ('--fail', 'fail.tape')):
        c[c.index(o) + 1] = os.path.join(d, n)
    c[c.index('--scratch') + 1] = d
    try:
        return subprocess.run(c + ['--shrink-secs', '0'], stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL, timeout=400, env=env_for()).returncode != 0
    except subprocess.TimeoutExpired:
        return False
    finally:
        shutil.rmtree(d, ignore_errors=True)


def env_for():
    e = dict(os.environ)
    e['LC_ALL'] = 'C'
    e.pop('RC_PARAMS', None)
    e['TSAN_OPTIONS'] = 'suppressions=' + os.path.join(HARNESS, 'common/tsan.supp')
    return e


def summarize_crash(rc, err):
    for l in err.splitlines():
        if re.search(r'(ERROR: AddressSanitizer|runtime error:|WARNING: ThreadSanitizer|CASE-TIMEOUT|terminate called|what\(\))', l):
            return l.strip()
    return 'process ended with status %d' % rc


def shrink_crash(exe, tape, scratch, budget=60):
    """greedy: cut chunks / zero words while the process still fails"""
    t0 = time.time()
    f = os.path.join(scratch, 'shrink.tape')

    def bad(t):
        write_tape(f, t, '')
        rc, _, _ = run_replay(exe, f, scratch, 100)
        return rc != 0
    best = tape
    n = max(1, len(best) // 2)
    while n >= 1 and time.time() - t0 < budget:
        i = 0
        while i < len(best) and time.time() - t0 < budget:
            cand = best[:i] + best[i + n:]
            if len(cand) < len(best) and bad(cand):
                best = cand
            else:
                i += n
        n //= 2
    return best


def seed_for(seed, shard):
    h = hashlib.sha256(('%d/%d' % (seed, shard)).encode()).digest()
    return int.from_bytes(h[:7], 'little') + 1


def known_findings(pid):
    res = []
    p = os.path.join(VERIF, 'known_findings.txt')
    if os.path.exists(p):
        for l in open(p):
            l = l.strip()
            m = re.match(r'finding: property=(\S+) replay=(\S+) (.*)', l)
            if m and m.group(1) == pid:
                res.append((m.group(2), m.group(3)))
    return res


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('id')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
    ap.add_argument('--seed', type=int, default=int(os.environ.get('VERIF_SEED', '1') or 1))
    ap.add_argument('--replay')
    ap.add_argument('--cases', type=int)
    ap.add_argument('--shards', type=int)
    ap.add_argument('--build-only', action='store_true')
    a = ap.parse_args()
    pid, tier, seed = a.id, ('thorough' if a.tier == 'thorough' else 'quick'), a.seed
    P = PROPS[pid]
    os.makedirs(BUILD, exist_ok=True)
    os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
    rdir = os.path.join(VERIF, 'replays')
    os.makedirs(rdir, exist_ok=True)
    t0 = time.time()
    if P.get('python'):
        import pyprops
        sys.exit(pyprops.run(pid, P, tier, seed, a, t0))
    exe = build(pid)
    t_build = time.time() - t0
    if a.build_only:
        print('built', exe)
        return
    base = '/dev/shm' if os.path.isdir('/dev/shm') and os.access('/dev/shm', os.W_OK) else None
    scratch = tempfile.mkdtemp(prefix='vf.%s.' % pid, dir=base)
    try:
        code = search(pid, P, tier, seed, a, exe, scratch, rdir, t0, t_build)
    finally:
        shutil.rmtree(scratch, ignore_errors=True)
    sys.exit(code)


def search(pid, P, tier, seed, a, exe, scratch, rdir, t0, t_build):
    if a.replay:
        a.replay = os.path.abspath(a.replay)
        if not os.path.isfile(a.replay):
            sys.exit('no such file: ' + a.replay)
        rc, out, err = run_replay(exe, a.replay, scratch)
        print(out)
        print(err[-6000:])
        print('exit', rc)
        return 0 if rc == 0 else 1
    shards = a.shards or P.get('shards', NPROC)
    total = a.cases or P['cases'][tier]
    per = max(1, total // shards)
    budget = P.get('budget', {}).get(tier, 300 if tier == 'quick' else 3000)
    procs, cmds = [], []
    for s in range(shards):
        d = os.path.join(scratch, 's%d' % s)
        os.makedirs(d)
        # longer tapes in some shards: same generator, larger histories
        tape = P.get('tape', {}).get(tier)
        cmd = [exe, '--out', d + '/out.json', '--current', d + '/cur', '--fail', d + '/fail.tape',
               '--cases', str(per), '--seed', str(seed_for(seed, s)), '--budget', str(budget), '--scratch', d]
        if tape:
            cmd += ['--tape', str(tape)]
        cmds.append(cmd)
        procs.append((d, subprocess.Popen(cmd, stdout=open(d + '/stdout', 'w'), stderr=open(d + '/stderr', 'w'),
                                          env=env_for(), start_new_session=True)))
    deadline = time.time() + budget + 180
    failures, stats = [], []
    for idx, (d, p) in enumerate(procs):
        timed_out = False
        try:
            p.wait(max(1, deadline - time.time()))
        except subprocess.TimeoutExpired:
            timed_out = True
            os.killpg(p.pid, signal.SIGKILL)
            p.wait()
        err = open(d + '/stderr', errors='replace').read()
        if p.returncode == 0 and os.path.exists(d + '/out.json'):
            stats.append(json.load(open(d + '/out.json')))
        elif p.returncode == 1 and os.path.exists(d + '/fail.tape'):
            st = json.load(open(d + '/out.json'))
            stats.append(st)
            failures.append((read_tape(d + '/fail.tape'), st['msg'], False, idx))
        elif timed_out:
            # no case verdict: the safety net fired; inconclusive for this shard
            stats.append({'evaluated': 0, 'nontrivial': 0, 'skipped': per, 'tags': {}, 'samples': [], 'rule': '', 'wall': 0})
        else:
            failures.append((read_map(d + '/cur'), summarize_crash(p.returncode, err), True, idx))
    violations = []
    kf = known_findings(pid)
    for tape, msg, crash, idx in failures:
        if len(violations) >= 2:
            break
        f = os.path.join(scratch, 'cand.tape')
        write_tape(f, tape, '')
        nondet = P.get('nondeterministic')
        rcs, bad = [], []
        for _ in range(12 if nondet else 3):
            rcs.append(run_replay(exe, f, scratch))
            bad = [r for r in rcs if r[0] != 0]
            if nondet and bad:
                break
        if not nondet and len(bad) < 3:
            # a deterministic case that depends on what the process did before: run the whole shard again
            again = rerun_shard(cmds[idx], scratch)
            if not again:
                print('note: a failing case did not reproduce (%d/3, nor in a second run of its shard): %s' % (len(bad), msg[:300]))
                continue
        if not bad:
            bad = [(1, '', '')]
            msg += '\n(depends on the schedule or on earlier cases: seen in the search, not in a single replay)'
        if crash and not nondet:
            tape = shrink_crash(exe, tape, scratch)
            write_tape(f, tape, '')
            r = run_replay(exe, f, scratch)
            if r[0] != 0:
                bad = [r]
        m = re.search(r'REPLAY-FAIL (.*)', bad[-1][1], re.S)
        if m:
            msg = m.group(1).strip()
        elif bad[-1][2]:
            msg = summarize_crash(bad[-1][0], bad[-1][2]) + '\n' + '\n'.join(
                l for l in bad[-1][2].splitlines() if re.match(r'\s+#\d+ ', l) and '/repo' in l)[:1500]
        h = hashlib.sha256(repr(tape).encode()).hexdigest()[:10]
        path = os.path.join(rdir, '%s-%s.tape' % (pid, h))
        case = next((c for c in (re.search(r'CASE (.*)', r[1] or '') for r in [bad[-1]] + rcs) if c), None)
        write_tape(path, tape, 'property %s  (replay: python3 check.py %s --replay %s)\n%s\ncase: %s' % (
            pid, pid, path, msg, case.group(1) if case else ''))
        if any(v[1].split('\n')[0] == msg.split('\n')[0] for v in violations):
            continue
        violations.append((path, msg))
    # listed findings: show that they still fail (they are excluded from the search by construction)
    for rp, what in kf:
        rc, out, err = run_replay(exe, os.path.join(VERIF, rp), scratch)
        if rc != 0:
            print('KNOWN-FINDING: property=%s %s' % (pid, what))
        else:
            print('note: listed finding no longer fails: %s' % what)
    tags = {}
    for s in stats:
        for k, v in s['tags'].items():
            tags[k] = tags.get(k, 0) + v
    samples = [x for s in stats for x in s['samples']][:5]
    rule = next((s['rule'] for s in stats if s.get('rule')), '')
    ev = {
        'property': pid, 'tier': tier, 'seed': seed, 'level': 'exploration',
        'coverage': {
            'evaluations': sum(s['evaluated'] for s in stats),
            'distinct_nontrivial': sum(s['nontrivial'] for s in stats),
            'rule': rule, 'samples': samples, 'classes': tags,
            'skipped_by_time_budget': sum(s['skipped'] for s in stats),
            'crashed_shards': sum(1 for f in failures if f[2]),
            'shards': shards, 'build_s': round(t_build, 1),
        },
        'wall_s': round(time.time() - t0, 1), 'violations': len(violations),
    }
    json.dump(ev, open(os.path.join(VERIF, 'evidence', pid + '.json'), 'w'), indent=1)
    print('%s %s: %d cases, %d non-trivial, %.1fs (build %.1fs), %d violation(s)' % (
        pid, tier, ev['coverage']['evaluations'], ev['coverage']['distinct_nontrivial'], time.time() - t0, t_build, len(violations)))
    if os.environ.get('VF_TAGS'):
        for k in sorted(tags):
            print('   %-40s %d' % (k, tags[k]))
    for path, msg in violations:
        print('--- ' + msg[:2500])
        print('VIOLATION property=%s replay=%s' % (pid, path))
    return 1 if violations else 0


if __name__ == '__main__':
    try:
        main()
    except BuildError as e:
        # the tree does not compile with the harness: not a verdict about the property
        print(str(e))
        sys.exit(2)
