#!/usr/bin/env python3
"""C27: the Python MEKF baseline against an independent reference, Hypothesis driving (run with python3-vt).

mekf_props.py --repo R --seed N --cases N --out FILE [--replay FILE]
Every case is a JSON-able dict drawn by a strategy; the shrunk failing case is the replay file."""
import argparse, copy, importlib.util, io, json, math, os, sys, tempfile, types, contextlib, time
sys.dont_write_bytecode = True
import numpy as np
from hypothesis import given, settings, strategies as st, HealthCheck, seed as hseed, Phase

EPS = np.finfo(float).eps


class Fail(AssertionError):
    pass


def load(repo):
    for n in ('rosbag', 'matplotlib', 'matplotlib.pyplot', 'tqdm'):
        m = types.ModuleType(n)
        m.tqdm = lambda x, *a, **k: x
        m.Bag = None
        sys.modules[n] = m
    path = os.path.join(repo, 'baselines/python/MEKF/MEKF.py')
    sp = importlib.util.spec_from_file_location('mekf_under_test', path)
    mod = importlib.util.module_from_spec(sp)
    sp.loader.exec_module(mod)
    return mod


def check(ok, msg):
    if not ok:
        raise Fail(msg)


def near(a, b, tol, what):
    a, b = np.asarray(a, float), np.asarray(b, float)
    check(a.shape == b.shape, '%s: shape %s, expected %s' % (what, a.shape, b.shape))
    d = np.max(np.abs(a - b)) if a.size else 0
    check(d <= tol, '%s: differs by %g (tolerance %g)\n got %s\n expected %s' % (what, d, tol, a.tolist(), b.tolist()))


class Same:
    """the caller's arrays stay as they are"""

    def __init__(self, **kw):
        self.kw = kw
        self.old = copy.deepcopy(kw)

    def check(self, what):
        for k, v in self.kw.items():
            o = self.old[k]
            same = np.array_equal(np.asarray(v), np.asarray(o), equal_nan=True) and np.shape(v) == np.shape(o)
            check(same, '%s changed its argument %s from %s to %s' % (what, k, np.asarray(o).tolist(), np.asarray(v).tolist()))


# ---- reference mathematics (no code shared with the baseline)
def cross_m(v):
    x, y, z = (float(t) for t in np.ravel(v))
    m = np.zeros((3, 3))
    m[0, 1], m[0, 2], m[1, 2] = -z, y, -x
    m[1, 0], m[2, 0], m[2, 1] = z, -y, x
    return m


def rodrigues(w):
    w = np.ravel(w).astype(float)
    a = math.sqrt(float(w @ w))
    W = cross_m(w)
    if a < 1e-4:
        s, c = 1 - a * a / 6, 0.5 - a * a / 24
    else:
        s, c = math.sin(a) / a, (1 - math.cos(a)) / (a * a)
    return np.eye(3) + s * W + c * (W @ W)


def qmat(q):
    """rotation by v -> q v q*"""
    q = np.ravel(q).astype(float)
    q = q / np.max(np.abs(q))
    q = q / math.sqrt(float(q @ q))
    w, u = q[0], q[1:]
    return (w * w - u @ u) * np.eye(3) + 2 * np.outer(u, u) + 2 * w * cross_m(u)


def mexp(A):
    n = max(0, int(math.ceil(math.log2(max(np.linalg.norm(A, 1), 1e-300)))) + 4)
    B = A / 2.0 ** n
    T = np.eye(len(A))
    E = np.eye(len(A))
    for k in range(1, 20):
        T = T @ B / k
        E = E + T
    for _ in range(n):
        E = E @ E
    return E


def rnd(c):
    return np.random.RandomState(c['seed'] % (1 << 32))


def rot_of(d):
    """rotation matrix of a drawn description"""
    k = d['kind']
    if k == 'cube':  # the 24 exact ones
        n = 0
        for p in ((0, 1, 2), (1, 2, 0), (2, 0, 1), (0, 2, 1), (2, 1, 0), (1, 0, 2)):
            for s in range(8):
                m = np.zeros((3, 3))
                for i in range(3):
                    m[i, p[i]] = -1.0 if s >> i & 1 else 1.0
                if np.linalg.det(m) > 0:
                    if n == d['i'] % 24:
                        return m
                    n += 1
    ax = np.array(d['axis'], float)
    ax = ax / np.linalg.norm(ax) if np.linalg.norm(ax) > 0 else np.array([0, 0, 1.0])
    if k == 'half':  # exact half-turn
        return 2 * np.outer(ax, ax) - np.eye(3)
    return rodrigues(ax * d['angle'])


unit = st.floats(-1, 1, allow_nan=False).map(lambda x: x if abs(x) > 1e-6 else 0.0)
axis = st.one_of(st.tuples(*[st.sampled_from([-1, 0, 1])] * 3), st.tuples(unit, unit, unit),
                 st.tuples(st.sampled_from([1e-8, -1e-8, 1e-4, 0.0]), unit, unit)).map(list)
tiny = st.sampled_from([0.0, 1e-12, -1e-12, 1e-9, -1e-9, 1e-6, -1e-6, 1e-3, -1e-3])
angle = st.one_of(st.tuples(st.sampled_from([0.0, math.pi, -math.pi, math.pi / 2, 2 * math.pi / 3, 2 * math.pi]), tiny).map(sum),
                  st.floats(-7, 7))
rot = st.one_of(st.fixed_dictionaries({'kind': st.just('cube'), 'i': st.integers(0, 23)}),
                st.fixed_dictionaries({'kind': st.just('half'), 'axis': axis}),
                st.fixed_dictionaries({'kind': st.just('aa'), 'axis': axis, 'angle': angle}))
seeds = st.integers(0, (1 << 32) - 1)
logs = lambda lo, hi: st.floats(lo, hi).map(lambda e: 10.0 ** round(e, 2))

S = {}
S['rot'] = st.fixed_dictionaries({'rot': rot, 'form': st.sampled_from(['array', 'list', 'fortran', 'readonly'])})
comp = st.one_of(st.sampled_from([0.0, 1.0, -1.0, -0.0, 0.5]), st.floats(-10, 10))
S['quat'] = st.fixed_dictionaries({
    'q': st.lists(comp, min_size=4, max_size=4), 'e': st.one_of(st.just(0), st.integers(-90, 90)), 'unit': st.booleans(),
    'form': st.sampled_from(['array', 'list', 'row', 'column', 'ints', 'intlist'])})
S['skew'] = st.fixed_dictionaries({'v': st.lists(st.floats(-1e6, 1e6), min_size=3, max_size=3), 'u': st.lists(st.floats(-1e3, 1e3), min_size=3, max_size=3),
                                   'form': st.sampled_from(['array', 'list', 'column', 'row'])})
S['update'] = st.fixed_dictionaries({'seed': seeds, 'rot': rot, 'var': logs(-6, 2), 'pscale': logs(-8, 3), 'spread': st.floats(0, 4), 'rank': st.integers(0, 9),
                                     'v': logs(-3, 1.3), 'innov': logs(-4, 1), 'qscale': logs(-1, 1)})
S['bias'] = st.fixed_dictionaries({'seed': seeds, 'rot': rot, 'rows': st.integers(1, 600), 'window': st.one_of(st.none(), st.integers(1, 700)),
                                   'cols': st.sampled_from([7, 11])})
S['tum'] = st.fixed_dictionaries({'seed': seeds, 'rows': st.one_of(st.integers(1, 300), st.sampled_from([14999, 15000, 15001, 15002, 15004, 15005, 16003]))})
S['prop'] = st.fixed_dictionaries({'seed': seeds, 'rot': rot, 'imu': rot, 'steps': st.integers(1, 8), 'dt': logs(-4, -0.5), 'w': logs(-3, 1), 'a': logs(-1, 1.5),
                                   'acc_cov': logs(-6, 0), 'gyro_cov': logs(-6, 0), 'p0': st.one_of(st.just(0.0), logs(-8, 1)), 'var': logs(-4, 1), 'vel': st.booleans()})
S['read'] = st.fixed_dictionaries({'seed': seeds, 'n': st.integers(2, 40), 'which': st.sampled_from(['imu', 'vel', 'husky'])})
MIX = {'rot': 8, 'quat': 8, 'skew': 1, 'update': 6, 'bias': 2, 'tum': 1, 'prop': 5, 'read': 1}


def psd(r, n, scale, spread, rank):
    a = r.randn(n, rank) if rank else np.zeros((n, 1))
    d = 10.0 ** (-spread * r.rand(n))
    m = scale * (d[:, None] * a) @ (d[:, None] * a).T
    return (m + m.T) / 2


def scale_col(q):
    return np.array(q, float).reshape(4, 1)


def quat_of(R):
    """any unit quaternion of R, via the eigenvector of Bar-Itzhack's matrix"""
    m = R
    K = np.array([[m[0, 0] - m[1, 1] - m[2, 2], m[1, 0] + m[0, 1], m[2, 0] + m[0, 2], m[2, 1] - m[1, 2]],
                  [m[1, 0] + m[0, 1], m[1, 1] - m[0, 0] - m[2, 2], m[2, 1] + m[1, 2], m[0, 2] - m[2, 0]],
                  [m[2, 0] + m[0, 2], m[2, 1] + m[1, 2], m[2, 2] - m[0, 0] - m[1, 1], m[1, 0] - m[0, 1]],
                  [m[2, 1] - m[1, 2], m[0, 2] - m[2, 0], m[1, 0] - m[0, 1], m[0, 0] + m[1, 1] + m[2, 2]]]) / 3
    w, v = np.linalg.eigh(K)
    x = v[:, -1]
    return np.array([x[3], x[0], x[1], x[2]])


def ref_update(var, y, P, p, v, R):
    y, p, v = (np.ravel(t).astype(float) for t in (y, p, v))
    vb = R.T @ v
    H = np.zeros((3, 9))
    H[:, 3:6] = R.T
    # d/dth of exp(-th) R^T v = [R^T v]x
    H[:, 6:9] = cross_m(vb)
    Sm = H @ P @ H.T + var * np.eye(3)
    K = np.linalg.solve(Sm.T, (P @ H.T).T).T
    d = K @ (y - vb)
    I = np.eye(9) - K @ H
    Pn = I @ P @ I.T + var * K @ K.T
    return p + d[:3], v + d[3:6], R @ rodrigues(d[6:9]), Pn, np.linalg.cond(Sm), d, K


def do_update(M, var, y, P, p, v, q, what):
    y, p, v = (np.array(t, float).reshape(3, 1) for t in (y, p, v))
    q = scale_col(q)
    R = qmat(q)
    P = np.array(P)
    same = Same(y=y, P=P, p=p, v=v, q=q)
    p2, v2, q2, P2 = M.measurement_update(var, y, P, p, v, q)
    same.check(what)
    rp, rv, rR, rP, cond, d, K = ref_update(var, y, P, p, v, R)
    pmax = np.max(np.abs(P)) if P.size else 0
    g = 1 + np.max(np.abs(K)) if K.size else 1
    tol = 1e-12 * (1 + cond)
    dm = tol * g * (1 + np.max(np.abs(v)) + np.max(np.abs(y)))
    near(np.ravel(p2), rp, dm + 1e-12 * np.max(np.abs(p)), what + ': position')
    near(np.ravel(v2), rv, dm, what + ': velocity')
    near(qmat(q2), rR, dm * (1 + np.linalg.norm(d[6:9])) + 1e-9, what + ': rotation')
    near(np.linalg.norm(q2), 1, 1e-9, what + ': quaternion norm')
    hm = 1 + np.max(np.abs(v))
    pt = tol * pmax * g * g * hm * hm + 1e-300
    near(P2, rP, pt, what + ': covariance')
    near(P2, P2.T, pt, what + ': symmetry of the covariance')
    check(np.linalg.eigvalsh((P2 + P2.T) / 2)[0] >= -10 * pt, what + ': covariance is not positive semi-definite: %s' % np.linalg.eigvalsh((P2 + P2.T) / 2))
    return p2, v2, q2, P2


def run_case(M, c):
    """raises Fail; returns True if the case is non-trivial"""
    k = c['what']
    if k == 'rot':
        R = rot_of(c['rot'])
        A = {'array': lambda: R.copy(), 'list': lambda: R.tolist(), 'fortran': lambda: np.asfortranarray(R), 'readonly': lambda: R.copy()}[c['form']]()
        if c['form'] == 'readonly':
            A.flags.writeable = False
        same = Same(R=A)
        q = M.rot2quat(A)
        same.check('rot2quat')
        check(np.shape(q) == (4,), 'rot2quat: result has shape %s' % (np.shape(q),))
        check(bool(np.all(np.isfinite(q))), 'rot2quat: not finite: %s' % (q,))
        near(np.linalg.norm(q), 1, 1e-9, 'rot2quat: norm')
        near(qmat(q), R, 1e-9, 'rot2quat: rotation of the quaternion')
        near(M.quat2rot(q), R, 1e-9, 'rotation matrix -> quaternion -> matrix')
        return not np.allclose(R, np.eye(3))
    if k == 'quat':
        q = np.array(c['q'], float)
        if c['form'] in ('ints', 'intlist'):
            q = np.round(q)
        if np.linalg.norm(q) < 1e-6:
            q[c['e'] % 4] = 1.0
        ex = 0 if c['form'] in ('ints', 'intlist') else c['e']
        if ex == 0 and c['unit'] and c['form'] not in ('ints', 'intlist'):
            q = q / np.linalg.norm(q)
        q = q * 10.0 ** ex
        A = {'array': lambda: q.copy(), 'list': lambda: q.tolist(), 'row': lambda: q.reshape(1, 4).copy(), 'column': lambda: q.reshape(4, 1).copy(),
             'ints': lambda: q.astype(int), 'intlist': lambda: [int(x) for x in q]}[c['form']]()
        same = Same(q=A)
        R = M.quat2rot(A)
        same.check('quat2rot')
        near(R, qmat(q), 1e-13, 'quat2rot')
        near(np.asarray(R) @ np.asarray(R).T, np.eye(3), 1e-13, 'quat2rot: orthogonality')
        b = M.rot2quat(R)
        u = q / np.max(np.abs(q))
        u = u / np.linalg.norm(u)
        check(min(np.max(np.abs(b - u)), np.max(np.abs(b + u))) <= 1e-9, 'quaternion %s -> matrix -> quaternion gives %s' % (u.tolist(), np.asarray(b).tolist()))
        return bool(np.count_nonzero(q) > 1 or q[0] == 0)
    if k == 'skew':
        v, u = np.array(c['v']), np.array(c['u'])
        A = {'array': v.copy(), 'list': v.tolist(), 'column': v.reshape(3, 1).copy(), 'row': v.reshape(1, 3)[0]}[c['form']]
        same = Same(v=A)
        m = M.skew_symmetric(A)
        same.check('skew_symmetric')
        near(m, -np.asarray(m).T, 0, 'skew_symmetric: antisymmetry')
        w = np.array([v[1] * u[2] - v[2] * u[1], v[2] * u[0] - v[0] * u[2], v[0] * u[1] - v[1] * u[0]])
        near(np.asarray(m) @ u, w, 1e-12 * (1 + np.max(np.abs(v)) * np.max(np.abs(u))), 'skew_symmetric(v) u against v x u')
        return bool(np.any(w))
    if k == 'update':
        r = rnd(c)
        P = psd(r, 9, c['pscale'], c['spread'], c['rank'])
        q = quat_of(rot_of(c['rot'])) * c['qscale']
        v = c['v'] * r.randn(3)
        y = qmat(q).T @ v + c['innov'] * r.randn(3)
        do_update(M, c['var'], y, P, 10 * r.randn(3), v, q, 'measurement_update')
        return c['rank'] > 0
    if k == 'bias':
        r = rnd(c)
        n = c['rows']
        d = np.cumsum(r.rand(n, c['cols']), axis=0) * 0.01 + r.randn(n, c['cols'])
        R = rot_of(c['rot'])
        same = Same(imu_data=d, R=R)
        g, a = M.init_bias(d, R) if c['window'] is None else M.init_bias(d, R, c['window'])
        same.check('init_bias')
        w = min(n, 250 if c['window'] is None else c['window'])
        mean = [math.fsum(d[:w, i]) / w for i in range(7)]
        near(np.ravel(g), R @ np.array(mean[1:4]), 1e-11, 'gyroscope bias')
        near(np.ravel(a), R @ np.array(mean[4:7]) - np.array([0, 0, 9.8]), 1e-11, 'accelerometer bias')
        return n > 1
    if k == 'tum':
        r = rnd(c)
        n = c['rows']
        t = 1.6e9 + np.cumsum(r.rand(n))
        p, q = 1e3 * r.randn(n, 3), r.randn(n, 4)
        q /= np.linalg.norm(q, axis=1)[:, None]
        same = Same(t=t, p=p, q=q)
        with tempfile.TemporaryDirectory() as d:
            f = os.path.join(d, 'traj.txt')
            M.save_pose_to_tum(t, p, q, filename=f)
            rows = [[float(x) for x in l.split(' ')] for l in open(f) if l.strip()]
        same.check('save_pose_to_tum')
        s = 5 if n > 15000 else 1
        idx = list(range(0, n, s))
        check(len(rows) == len(idx), 'trajectory of %d poses has %d lines, expected %d' % (n, len(rows), len(idx)))
        for row, i in zip(rows, idx):
            want = [t[i], *p[i], q[i, 1], q[i, 2], q[i, 3], q[i, 0]]
            check(len(row) == 8 and all(abs(x - y) <= 1e-15 * abs(y) for x, y in zip(row, want)), 'line of pose %d is %s, expected %s' % (i, row, [float(x) for x in want]))
        return n > 1
    if k == 'prop':
        r = rnd(c)
        n = c['steps'] + 1
        t = 1e3 + np.cumsum(c['dt'] * (0.5 + r.rand(n)))
        acc = c['a'] * r.randn(n, 3) + np.array([0, 0, 9.81])
        gyr = c['w'] * r.randn(n, 3)
        ab, gb = 0.1 * r.randn(3), 0.01 * r.randn(3)
        Ri = rot_of(c['imu'])
        p, v, q = np.zeros((n, 3)), np.zeros((n, 3)), np.zeros((n, 4))
        C = np.zeros((n, 9, 9))
        p[0], v[0], q[0] = r.randn(3), r.randn(3), quat_of(rot_of(c['rot']))
        C[0] = psd(r, 9, c['p0'], 1.0, 9)
        M.p_cov, M.acc_cov, M.gyro_cov = C, c['acc_cov'], c['gyro_cov']
        for k in range(1, n):
            M.k = k
            same = Same(t=t, acc=acc, gyr=gyr, ab=ab, gb=gb, p=p, v=v, q=q, Ri=Ri, C=C)
            p_, v_, q_, P_ = M.propoagate(t, acc, gyr, ab, gb, p, v, q, np.array([0, 0, 9.81]), Ri)
            same.check('propoagate')
            dt = t[k] - t[k - 1]
            R0 = qmat(q[k - 1])
            f = R0 @ (Ri @ acc[k] - ab) - np.array([0, 0, 9.81])
            m = 1e-11 * (10 + np.max(np.abs(acc[k])) + np.max(np.abs(v[k - 1])) + np.max(np.abs(p[k - 1])))
            w = Ri @ gyr[k] - gb
            R1 = R0 @ rodrigues(w * dt)
            near(np.ravel(p_), p[k - 1] + v[k - 1] * dt + 0.5 * f * dt * dt, m, 'propagated position, step %d' % k)
            near(np.ravel(v_), v[k - 1] + f * dt, m, 'propagated velocity, step %d' % k)
            near(qmat(q_), R1, 1e-9, 'propagated rotation, step %d' % k)
            A = np.zeros((9, 9))
            A[0:3, 3:6] = np.eye(3)
            A[3:6, 6:9] = -R1 @ cross_m(Ri @ acc[k] - ab)
            A[6:9, 6:9] = -cross_m(w)
            F = mexp(A * dt)
            Q = np.diag([1e-6] * 3 + [c['acc_cov'] * dt * dt] * 3 + [c['gyro_cov'] * dt * dt] * 3)
            W = F @ C[k - 1] @ F.T + Q
            ct = 1e-11 * (1 + np.max(np.abs(F))) ** 2 * (np.max(np.abs(C[k - 1])) + np.max(Q))
            near(P_, W, ct, 'propagated covariance, step %d' % k)
            check(np.linalg.eigvalsh((P_ + P_.T) / 2)[0] >= -10 * ct, 'propagated covariance is not positive semi-definite')
            if c['vel'] and k % 2:
                y = qmat(q_).T @ np.ravel(v_) + 0.1 * r.randn(3)
                p_, v_, q_, P_ = do_update(M, c['var'], y, P_, p_, v_, q_, 'update in step %d' % k)
            p[k], v[k], q[k], C[k] = np.ravel(p_), np.ravel(v_), np.ravel(q_), P_
        return True
    if k == 'read':
        r = rnd(c)
        ns = types.SimpleNamespace
        msgs, want = [], []
        t = 1.6e9
        for i in range(c['n']):
            t += 0.001 + r.rand()
            x = r.randn(10)
            if c['which'] == 'imu':
                m = ns(angular_velocity=ns(x=x[0], y=x[1], z=x[2]), linear_acceleration=ns(x=x[3], y=x[4], z=x[5]), orientation=ns(x=x[6], y=x[7], z=x[8], w=x[9]))
                want.append([t, *x])
            elif c['which'] == 'vel':
                m = ns(twist=ns(twist=ns(linear=ns(x=x[0], y=x[1], z=x[2]))))
                want.append([t, x[0], 0, 0])
            else:
                m = ns(velocity=list(x[:4]))
                want.append([t, (x[0] + x[1] + x[2] + x[3]) / 4 * 0.158, 0, 0])
            msgs.append(('/topic', m, ns(to_sec=lambda t=t: t)))
            if r.rand() < 0.3:
                msgs.append(('/other', m, ns(to_sec=lambda t=t: t)))
        bag = ns(read_messages=lambda topics=None, **k: iter([m for m in msgs if topics is None or m[0] in topics]))
        got = {'imu': M.read_imu, 'vel': M.read_vel, 'husky': M.read_husky}[c['which']](bag, '/topic')
        near(got, np.array(want, float), 1e-12, 'rows read from the ' + c['which'] + ' topic')
        return True
    raise ValueError(k)


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('--repo', required=True)
    ap.add_argument('--seed', type=int, default=1)
    ap.add_argument('--cases', type=int, default=1000)
    ap.add_argument('--out')
    ap.add_argument('--replay')
    a = ap.parse_args()
    np.seterr(all='ignore')
    sink = io.StringIO()

    def one(M, c):
        with contextlib.redirect_stdout(sink):
            try:
                return run_case(M, c)
            except Fail:
                raise
            except Exception as e:  # the baseline raised on a legal input
                import traceback
                tb = traceback.extract_tb(e.__traceback__)
                if any('mekf_under_test' in f.name or f.filename.endswith('MEKF.py') for f in tb):
                    raise Fail('%s raised %s: %s' % (c['what'], type(e).__name__, e))
                raise

    res = {'evaluated': 0, 'nontrivial': 0, 'tags': {}, 'samples': [], 'failures': []}
    try:
        M = load(a.repo)
    except Exception as e:
        res['failures'].append({'case': {'what': 'load'}, 'msg': 'MEKF.py cannot be loaded: %r' % e})
        M = None
    if a.replay:
        c = json.loads([l for l in open(a.replay) if not l.startswith('#')][0])
        if M is None:
            print('REPLAY-FAIL cannot be loaded')
            sys.exit(1)
        if c['what'] == 'load':
            print('REPLAY-OK')
            sys.exit(0)
        try:
            one(M, c)
        except Fail as e:
            print('REPLAY-FAIL', e)
            sys.exit(1)
        print('REPLAY-OK')
        return
    tot = sum(MIX.values())
    for j, (what, wt) in enumerate(MIX.items() if M else []):
        last = {}
        seen = set()

        def body(c):
            c = dict(c, what=what)
            last['case'] = c
            res['evaluated'] += 1
            nt = one(M, c)
            key = json.dumps(c, sort_keys=True)
            if nt and key not in seen:
                seen.add(key)
                res['nontrivial'] += 1
            if len(seen) == 20 and len(res['samples']) < 5:
                res['samples'].append(key)
            res['tags'][what] = res['tags'].get(what, 0) + 1

        test = hseed(a.seed * 1000 + j)(settings(max_examples=max(20, a.cases * wt // tot), deadline=None, database=None, print_blob=False,
                                                  suppress_health_check=list(HealthCheck), phases=[Phase.generate, Phase.shrink])(given(S[what])(body)))
        try:
            test()
        except Fail as e:
            # Hypothesis replays the smallest failing case last
            res['failures'].append({'case': last['case'], 'msg': str(e)})
        except BaseExceptionGroup as e:
            f = [x for x in e.exceptions if isinstance(x, Fail)]
            if not f:
                raise
            res['failures'].append({'case': last['case'], 'msg': str(f[0])})
    json.dump(res, open(a.out, 'w'))


if __name__ == '__main__':
    main()
