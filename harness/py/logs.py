"""Log directories of simulated runs, made up with chosen errors, and their reading independent of eval/."""
import csv
import os

import numpy as np
from scipy.spatial.transform import Rotation

BODY = [('body_pos', 3), ('body_vel', 3), ('body_acc', 3), ('body_ang_pos', 4), ('body_ang_vel', 3),
        ('body_ang_acc', 3)]


def columns(*parts):
    names = []
    for p in parts:
        if isinstance(p, str):
            names += p.split(',')
        else:
            names += [f'{p[0]}_{k}' for k in range(p[1])]
    return names


def write_table(path, names, rows):
    with open(path, 'w') as f:
        f.write(','.join(names) + '\n')
        for r in rows:
            f.write(','.join(repr(float(x)) if isinstance(x, (float, np.floating)) else str(x) for x in r) + '\n')


def quat(rotation):
    q = rotation.as_quat()
    return [q[3], q[0], q[1], q[2]]


def read_table(path):
    """Complete rows, by column; rows cut off or with non-numbers are left out."""
    with open(path) as f:
        rows = list(csv.reader(f))
    names = rows[0]
    data = []
    for r in rows[1:]:
        try:
            x = [float(c) for c in r]
        except ValueError:
            continue
        if len(x) == len(names) and not any(np.isnan(x)):
            data.append(x)
    data = np.array(data).reshape(len(data), len(names))
    return {n: data[:, k] for k, n in enumerate(names)}


class Truth:
    """Smooth true motion, with constant sensors, as body_truth.csv samples it."""

    def __init__(self, rng, setup):
        self.rng = rng
        self.rate = float(rng.choice([5.0, 10.0, 20.0]))
        self.n = int(rng.integers(12, 40))
        self.t = np.arange(self.n) / self.rate
        self.vectors = {}
        for name, size in BODY:
            if size == 3:
                a, w, p = rng.normal(size=3), rng.uniform(0.2, 2.0, 3), rng.uniform(0, 6, 3)
                self.vectors[name] = a * np.sin(np.outer(self.t, w) + p)
        base = Rotation.random(random_state=int(rng.integers(2**31)))
        axis = rng.normal(size=3)
        self.rotations = [Rotation.from_rotvec(axis * 0.3 * np.sin(t)) * base for t in self.t]
        quats = [np.array(quat(r)) for r in self.rotations]
        for k in range(1, len(quats)):
            if quats[k] @ quats[k - 1] < 0.0:
                quats[k] = -quats[k]
        self.quats = np.array(quats)
        self.sensors = {}
        for kind, ident in setup:
            s = {}
            for name in {'imu': ['imu_pos', 'imu_acc_bias', 'imu_gyr_bias'], 'cam': ['cam_pos'],
                         'gps': ['gps_pos']}[kind]:
                s[name] = rng.normal(size=3)
            if kind != 'gps':
                q = np.array(quat(Rotation.random(random_state=int(rng.integers(2**31)))))
                s[kind + '_ang_pos'] = q if rng.random() < 0.5 else -q
            self.sensors[ident] = s
        self.reference = [float(rng.uniform(-80, 80)), float(rng.uniform(-179, 179)), float(rng.uniform(-100, 3000)),
                          float(rng.uniform(-3, 3))]
        self.has_gps = any(k == 'gps' for k, _ in setup)
        self.setup = setup

    def write(self, directory):
        names = columns('time', *BODY)
        for kind, i in self.setup:
            if kind == 'imu':
                names += columns((f'imu_pos_{i}', 3), (f'imu_ang_pos_{i}', 4), (f'imu_acc_bias_{i}', 3),
                                 (f'imu_gyr_bias_{i}', 3))
            elif kind == 'cam':
                names += columns((f'cam_pos_{i}', 3), (f'cam_ang_pos_{i}', 4))
            else:
                names += columns((f'gps_pos_{i}', 3))
        if self.has_gps:
            names += ['ref_lat', 'ref_lon', 'ref_alt', 'ref_heading']
        rows = []
        for k, t in enumerate(self.t):
            row = [t]
            for name, size in BODY:
                row += list(self.quats[k]) if size == 4 else list(self.vectors[name][k])
            for kind, i in self.setup:
                s = self.sensors[i]
                for name in {'imu': ['imu_pos', 'imu_ang_pos', 'imu_acc_bias', 'imu_gyr_bias'],
                             'cam': ['cam_pos', 'cam_ang_pos'], 'gps': ['gps_pos']}[kind]:
                    row += list(s[name])
            if self.has_gps:
                row += self.reference
            rows.append(row)
        write_table(os.path.join(directory, 'body_truth.csv'), names, rows)

    def vector(self, name, t):
        return np.array([np.interp(t, self.t, self.vectors[name][:, k]) for k in range(3)])

    def quaternion(self, t):
        q = np.array([np.interp(t, self.t, self.quats[:, k]) for k in range(4)])
        return q / np.linalg.norm(q)


class Logs:
    """Writes the logs of one run; errors: 'none', 'constant' or 'random'."""

    def __init__(self, rng, truth, v, directory):
        self.rng, self.truth, self.v, self.dir = rng, truth, v, directory
        self.constant = rng.normal(size=40) * 0.1

    def times(self, n):
        t = np.sort(self.rng.uniform(0.0, self.truth.t[-1], n))
        if self.rng.random() < 0.5:
            t[0] = 0.0
        return t

    def error(self, k):
        if self.v['errors'] == 'none':
            return np.zeros(3)
        e = self.constant[k:k + 3].copy()
        return e if self.v['errors'] == 'constant' else e + 0.1 * self.rng.normal(size=3)

    def rotate(self, q, k):
        e = 0.1 * self.error(k)
        r = Rotation.from_rotvec(e) * Rotation.from_quat(q, scalar_first=True)
        out = np.array(quat(r))
        if out @ q < 0.0:
            out = -out
        if self.v['flip'] and self.rng.random() < 0.5:
            out = -out
        return list(out)

    def variances(self, n):
        return list(10.0 ** self.rng.uniform(-4, 1, n))

    def table(self, name, names, rows):
        path = os.path.join(self.dir, name)
        if self.v['gaps'] and len(rows) > 3 and self.rng.random() < 0.5:  # a value was not a number
            row = rows[int(self.rng.integers(len(rows) - 2))]
            row[int(self.rng.integers(1, len(row)))] = float('nan')
        write_table(path, names, rows)
        if self.v['cut'] and self.rng.random() < 0.5:  # stopped while writing a line
            with open(path, 'a') as f:
                f.write(','.join(['0.5'] * max(1, len(names) // 2)))

    def body(self, n):
        rows = []
        for t in self.times(n):
            row = [t]
            for k, (name, size) in enumerate(BODY):
                row += self.rotate(self.truth.quaternion(t), 9) if size == 4 else \
                    list(self.truth.vector(name, t) + self.error(3 * k))
            rows.append(row + self.variances(18) + [int(self.rng.integers(18, 200)), int(self.rng.integers(0, 5000))])
        self.table('body_state.csv', columns('time', *BODY, ('body_cov', 18), 'state_size,duration_0'), rows)

    def augmented(self, n):
        rows = [[t] + list(self.rng.normal(size=3)) + quat(Rotation.random(random_state=int(self.rng.integers(2**31))))
                for t in self.times(n)]
        self.table('aug_state.csv', columns('time', ('aug_pos', 3), ('aug_ang', 4)), rows)

    def imu(self, i, n, extrinsic, intrinsic):
        s = self.truth.sensors[i]
        names = columns('time,stationary,score', ('imu_pos', 3), ('imu_ang_pos', 4), ('imu_acc_bias', 3),
                        ('imu_gyr_bias', 3))
        names += columns(*([('imu_ext_cov', 6)] if extrinsic else []), *([('imu_int_cov', 6)] if intrinsic else []),
                         ('acc', 3), ('omg', 3), ('residual', 6), ('duration', 1))
        rows = []
        for t in self.times(n):
            row = [t, int(self.rng.integers(0, 2)), self.rng.random()]
            row += list(s['imu_pos'] + self.error(0)) + self.rotate(s['imu_ang_pos'], 3)
            row += list(s['imu_acc_bias'] + self.error(6)) + list(s['imu_gyr_bias'] + self.error(9))
            row += self.variances(6 * (extrinsic + intrinsic)) + list(self.rng.normal(size=12))
            rows.append(row + [int(self.rng.integers(0, 3000))])
        self.table(f'imu_{i}.csv', names, rows)

    def msckf(self, i, n, extrinsic, features):
        s = self.truth.sensors[i]
        names = columns('time', ('cam_pos', 3), ('cam_ang_pos', 4), *([('cam_cov', 6)] if extrinsic else []),
                        'FeatureTracks', ('duration', 1))
        rows = []
        for t in self.times(n):
            rows.append([t] + list(s['cam_pos'] + self.error(12)) + self.rotate(s['cam_ang_pos'], 15) +
                        self.variances(6 * extrinsic) +
                        [int(self.rng.integers(0, 9)), int(self.rng.integers(0, 9000))])
        self.table(f'msckf_{i}.csv', names, rows)
        rows = []
        for t in np.round(self.times(n), 1):
            for f in self.rng.integers(0, len(features), int(self.rng.integers(1, 4))):
                rows.append([t, int(f)] + list(features[f] + self.error(18)))
        self.table(f'triangulation_{i}.csv', 'time,feature,x,y,z'.split(','), rows)

    def fiducial(self, i, n, cam_extrinsic, fid_extrinsic, board):
        s = self.truth.sensors[i]
        names = columns('time,board', ('board_meas_pos', 3), ('board_meas_ang', 4), ('cam_pos', 3),
                        ('cam_ang_pos', 4), ('residual', 6))
        if fid_extrinsic:
            names += columns(('fid_pos', 3), ('fid_ang', 4), ('fid_cov', 6))
        if cam_extrinsic:
            names += columns(('cam_cov', 6))
        names += ['duration_0']
        rows = []
        for t in self.times(n):
            row = [t, 1] + list(self.rng.normal(size=3)) + \
                quat(Rotation.random(random_state=int(self.rng.integers(2**31))))
            row += list(s['cam_pos'] + self.error(12)) + self.rotate(s['cam_ang_pos'], 15)
            row += list(self.rng.normal(size=6))
            if fid_extrinsic:
                row += list(board[:3] + self.error(21)) + self.rotate(board[3:], 24) + self.variances(6)
            rows.append(row + self.variances(6 * cam_extrinsic) + [int(self.rng.integers(0, 3000))])
        self.table(f'fiducial_{i}.csv', names, rows)

    def gps(self, i, n, extrinsic, initialized):
        s = self.truth.sensors[i]
        names = columns('time,lat,lon,alt,x,y,z,ref_lat,ref_lon,ref_alt,ref_heading,is_initialized')
        if extrinsic:
            names += columns(('ant_pos', 3), ('gps_cov', 3))
        names += columns(('residual', 3), ('duration', 1))
        error = np.array([1e-3, 1e-3, 1.0, 0.1]) * (0.0 if self.v['errors'] == 'none' else self.rng.normal(size=4))
        rows = []
        for k, t in enumerate(self.times(n)):
            reference = np.array(self.truth.reference) + error if k >= initialized else np.zeros(4)
            row = [t] + list(self.rng.normal(size=6)) + list(reference) + [int(k >= initialized)]
            if extrinsic:
                row += list(s['gps_pos'] + self.error(27)) + self.variances(3)
            rows.append(row + list(self.rng.normal(size=3)) + [int(self.rng.integers(0, 100))])
        self.table(f'gps_{i}.csv', names, rows)
