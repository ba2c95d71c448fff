"""C27: statistics and reports of simulated runs state the errors of the logged estimates."""
import argparse
import os
import subprocess
import sys
import warnings

from hypothesis import strategies as st
import numpy as np
from scipy.spatial.transform import Rotation
from scipy.stats import chi2
import yaml

import logs
import pbt
import workspace

workspace.load()
import report  # noqa: E402
import stats  # noqa: E402
import utilities  # noqa: E402
from bokeh._record import SAVED  # noqa: E402

warnings.simplefilter('ignore')

# NEEDS_SIM: run_check.sh builds the simulation program

# ---- What the logs of a run say, read without eval/ ----


class RunData:
    def __init__(self, directory):
        self.tables = {}
        for name in os.listdir(directory):
            if name.endswith('.csv'):
                self.tables[name[:-4]] = logs.read_table(os.path.join(directory, name))
        self.truth = self.tables['body_truth']

    def true(self, name, t):
        return np.interp(t, self.truth['time'], self.truth[name])

    def error(self, table, est, true, n=3):
        """Rows of estimate minus truth at the time of the estimate."""
        d = self.tables[table]
        return np.array([d[f'{est}_{k}'] - self.true(f'{true}_{k}', d['time']) for k in range(n)])

    def angle_error(self, table, est, true):
        """Rotation vectors that turn the true into the estimated orientation."""
        d = self.tables[table]
        if not len(d['time']):
            return np.zeros((3, 0))
        e = np.array([d[f'{est}_{k}'] for k in range(4)]).T
        q = np.array([self.true(f'{true}_{k}', d['time']) for k in range(4)]).T
        r = Rotation.from_quat(e, scalar_first=True) * Rotation.from_quat(q, scalar_first=True).inv()
        return r.as_rotvec().T

    def columns(self, table, names):
        return np.array([self.tables[table][n] for n in names])


def ids(runs, prefix):
    found = set()
    for r in runs:
        for name in r.tables:
            head, _, tail = name.rpartition('_')
            if head == prefix and tail.isdigit():
                found.add(int(tail))
    return sorted(found)


def rms(e):
    return np.sqrt(np.mean(np.sum(e * e, axis=0)))


# ---- Statistics ----


def expected_stats(runs):
    """Name -> (values of the runs, tolerance): the statistic is their mean and standard deviation."""
    want = {}

    def angle(table, est, true):
        values, tol = [], 1e-4
        for r in runs:
            e = r.angle_error(table, est, true)
            values.append(rms(e))
            tol = max(tol, 1.5 * np.max(np.sum(e * e, axis=0), initial=0.0))
        return values, tol

    tol = 1e-4
    for short, name in (('pos', 'body_pos'), ('vel', 'body_vel'), ('acc', 'body_acc'), ('ang_vel', 'body_ang_vel'),
                        ('ang_acc', 'body_ang_acc')):
        want[f'body_0_err_{short}'] = [rms(r.error('body_state', name, name)) for r in runs], tol
    want['body_0_err_ang_pos'] = angle('body_state', 'body_ang_pos', 'body_ang_pos')
    want['body_0_states'] = [np.mean(r.tables['body_state']['state_size']) for r in runs], tol
    for i in ids(runs, 'imu'):
        t = f'imu_{i}'
        want[f'imu_{i}_err_pos'] = [rms(r.error(t, 'imu_pos', f'imu_pos_{i}')) for r in runs], tol
        want[f'imu_{i}_err_ang'] = angle(t, 'imu_ang_pos', f'imu_ang_pos_{i}')
        for b in ('acc', 'gyr'):
            want[f'imu_{i}_err_{b}_bias'] = [
                rms(r.error(t, f'imu_{b}_bias', f'imu_{b}_bias_{i}')) for r in runs], tol
        want[f'imu_{i}_duration'] = [np.mean(r.tables[t]['duration_0']) for r in runs], tol
    for i in ids(runs, 'msckf'):
        t = f'msckf_{i}'
        want[f'mskcf_{i}_err_pos'] = [rms(r.error(t, 'cam_pos', f'cam_pos_{i}')) for r in runs], tol
        want[f'mskcf_{i}_err_ang'] = angle(t, 'cam_ang_pos', f'cam_ang_pos_{i}')
    for i in ids(runs, 'gps'):
        pos, ang, count = [], [], []
        for r in runs:
            d = r.tables[f'gps_{i}']
            count.append(np.sum(d['is_initialized'] == 0))
            first = np.flatnonzero(d['is_initialized'])
            if len(first) and first[0] + 1 < len(d['time']):
                k = first[0] + 1
                pos.append(np.sqrt(sum((d[c][k] - r.truth[c][0]) ** 2 for c in ('ref_lat', 'ref_lon', 'ref_alt'))))
                ang.append(d['ref_heading'][k] - r.truth['ref_heading'][0])
        if pos:
            want[f'gps_{i}_err_init_pos'] = pos, tol
            want[f'gps_{i}_err_init_ang'] = ang, tol
        want[f'gps_{i}_init_count'] = count, tol
    return want


def judge_stats(case, path, runs):
    case.check(os.path.isfile(path), f'no statistics at {path}')
    got = {}
    with open(path) as f:
        for line in f.read().splitlines()[1:]:
            name, _, values = line.partition(': ')
            got[name] = [float(x) for x in values.split(',')]
    for name, (values, tol) in expected_stats(runs).items():
        case.check(name in got, f'statistics without {name}: {sorted(got)}')
        mean, dev = np.mean(values), np.std(values)
        t = tol + 1e-6 * abs(mean)
        case.check(abs(got[name][0] - mean) <= t and abs(got[name][1] - dev) <= t,
                   f'{name} is {got[name]}, the logs give {mean:.6g}, {dev:.6g}')
    case.label('statistics', len(got))


# ---- Figures ----

XYZ = ['X', 'Y', 'Z']


def body_figures():
    f = {}
    for title, name in (('Body Position', 'body_pos'), ('Body Velocity', 'body_vel'), ('Body Acceleration', 'body_acc'),
                        ('Body Angular Velocity', 'body_ang_vel'), ('Body Angular Acceleration', 'body_ang_acc')):
        f[title] = ('columns', [f'{name}_{k}' for k in range(3)], 1.0)
        f[title + ' Error'] = ('error', name, name, 1.0)
    f['Body Angular Error'] = ('angle', 'body_ang_pos', 'body_ang_pos', 1.0)
    f['Body Angle'] = ('euler', 'body_ang_pos')
    for k, title in enumerate(['Position', 'Velocity', 'Acceleration', 'Angular', 'Angular Rate',
                               'Angular Acceleration']):
        f[f'Body {title} Covariance'] = ('columns', [f'body_cov_{3 * k + j}' for j in range(3)], 1.0)
    f['State Size'] = ('columns', ['state_size'], 1.0)
    f['Normalized Estimation Error Squared'] = ('nees', 18)
    return f


def imu_figures(i, d):
    f = {'Acceleration Measurements': ('columns', ['acc_0', 'acc_1', 'acc_2'], 1.0),
         'Angular Rate Measurements': ('columns', ['omg_0', 'omg_1', 'omg_2'], 1.0),
         'Acceleration Residuals': ('columns', ['residual_0', 'residual_1', 'residual_2'], 1.0),
         'Angular Rate Residuals': ('columns', ['residual_3', 'residual_4', 'residual_5'], 1.0),
         'Is Stationary': ('columns', ['stationary', 'score'], 1.0)}
    dof = 0
    if 'imu_ext_cov_0' in d:
        dof += 6
        f['Position Covariance'] = ('columns', [f'imu_ext_cov_{k}' for k in (0, 1, 2)], 1.0)
        f['Angle Covariance'] = ('columns', [f'imu_ext_cov_{k}' for k in (3, 4, 5)], 1.0)
        f['Extrinsic Position Error'] = ('error', 'imu_pos', f'imu_pos_{i}', 1e3)
        f['Extrinsic Angle Error'] = ('angle', 'imu_ang_pos', f'imu_ang_pos_{i}', 1e3)
    if 'imu_int_cov_0' in d:
        dof += 6
        f['Accelerometer Bias Covariance'] = ('columns', [f'imu_int_cov_{k}' for k in (0, 1, 2)], 1.0)
        f['Gyroscope Bias Covariance'] = ('columns', [f'imu_int_cov_{k}' for k in (3, 4, 5)], 1.0)
        f['Accelerometer Bias Error'] = ('error', 'imu_acc_bias', f'imu_acc_bias_{i}', 1.0)
        f['Gyroscope Bias Error'] = ('error', 'imu_gyr_bias', f'imu_gyr_bias_{i}', 1.0)
    if dof:
        f['Normalized Estimation Error Squared'] = ('nees', dof)
    return f


def camera_figures(i, d, prefix):
    f = {}
    if 'cam_cov_0' in d:
        f['Camera Position'] = ('columns', [f'cam_pos_{k}' for k in range(3)], 1.0)
        f['Camera Extrinsic Position Error'] = ('error', 'cam_pos', f'cam_pos_{i}', 1e3)
        f['Camera Extrinsic Angle Error'] = ('angle', 'cam_ang_pos', f'cam_ang_pos_{i}', 1e3)
        f[prefix + 'Position Covariance'] = ('columns', [f'cam_cov_{k}' for k in (0, 1, 2)], 1.0)
        f[prefix + 'Angle Covariance'] = ('columns', [f'cam_cov_{k}' for k in (3, 4, 5)], 1.0)
    return f


def nees(run, kind, i, table):
    """Sum of the squared errors over their variances, for the figure's states."""
    if kind == 'body':
        e = [run.error(table, n, n) for n in ('body_pos', 'body_vel', 'body_acc')]
        e += [run.angle_error(table, 'body_ang_pos', 'body_ang_pos')]
        e += [run.error(table, n, n) for n in ('body_ang_vel', 'body_ang_acc')]
        c = [f'body_cov_{k}' for k in range(18)]
    elif kind == 'imu':
        e, c, d = [], [], run.tables[table]
        if 'imu_ext_cov_0' in d:
            e += [run.error(table, 'imu_pos', f'imu_pos_{i}'),
                  run.angle_error(table, 'imu_ang_pos', f'imu_ang_pos_{i}')]
            c += [f'imu_ext_cov_{k}' for k in range(6)]
        if 'imu_int_cov_0' in d:
            e += [run.error(table, f'imu_{b}_bias', f'imu_{b}_bias_{i}') for b in ('acc', 'gyr')]
            c += [f'imu_int_cov_{k}' for k in range(6)]
    elif kind == 'msckf':
        e = [run.error(table, 'cam_pos', f'cam_pos_{i}'), run.angle_error(table, 'cam_ang_pos', f'cam_ang_pos_{i}')]
        c = [f'cam_cov_{k}' for k in range(6)]
    elif kind == 'gps':
        e = [run.error(table, 'ant_pos', f'gps_pos_{i}')]
        c = [f'gps_cov_{k}' for k in range(3)]
    else:
        b, d = run.tables['board_truth'], run.tables[table]
        e = [np.array([d[f'fid_pos_{k}'] - b[f'pos_{a}'][0] for k, a in enumerate('xyz')])]
        q = Rotation.from_quat([b[f'quat_{a}'][0] for a in 'wxyz'], scalar_first=True)
        r = Rotation.from_quat(np.array([d[f'fid_ang_{k}'] for k in range(4)]).T, scalar_first=True)
        e += [(r * q.inv()).as_rotvec().T]
        c = [f'fid_cov_{k}' for k in range(6)]
    size = [np.zeros(e[0].shape) for _ in e]
    for k in range(len(e)):
        if k == {'body': 3, 'gps': -1}.get(kind, 1) and not (kind == 'imu' and 'imu_ext_cov_0' not in run.tables[table]):
            size[k] = np.tile(np.linalg.norm(e[k], axis=0), (3, 1))
    e, size, c = np.vstack(e), np.vstack(size), run.columns(table, c)
    # a rotation vector and the three angles differ by less than the square of the angle
    return np.sum(e * e / c, axis=0), np.sum((2 * np.abs(e) + size * size) * size * size / c, axis=0), np.max(size, axis=0)


def curves(fig, kind, count):
    drawn = [g for g in fig.glyphs if g.kind == kind]
    labels = []
    for g in drawn:
        if g.label not in labels:
            labels.append(g.label)
    return [[g for g in drawn if g.label == label] for label in labels]


def same(case, what, got, want, tol):
    got, want = np.asarray(got, dtype=float), np.asarray(want, dtype=float)
    case.check(got.shape == want.shape, f'{what}: {got.shape} values, the logs give {want.shape}')
    bad = np.flatnonzero(~(np.abs(got - want) <= tol))
    if len(bad):
        k = bad[0]
        case.fail(f'{what}: value {k} is {got[k]!r}, the logs give {want[k]!r}')


def judge_figure(case, where, fig, spec, runs, kind, i, table):
    what = spec[0]
    glyph = 'scatter' if table == 'aug_state' else 'line'
    n = {'columns': len(spec[1]) if what == 'columns' else 0, 'nees': 1}.get(what, 3)
    groups = curves(fig, glyph, n)
    case.check(len(groups) == n and all(len(g) == len(runs) for g in groups),
               f'{where}: {[len(g) for g in groups]} curves for {n} values of {len(runs)} runs')
    if n == 3:
        labels = [g[0].label for g in groups]
        case.check(labels == XYZ, f'{where}: curves {labels}')
    for r, run in enumerate(runs):
        t = run.tables[table]['time']
        for k, g in enumerate(groups):
            same(case, f'{where}, times of curve {k}, run {r}', g[r].x, t, 1e-9 * (1 + np.abs(t)))
        y = [g[r].y for g in groups]
        if what == 'columns':
            want = run.columns(table, spec[1]) * spec[2]
            tol = 1e-9 * (1e-9 + np.abs(want))
        elif what == 'error':
            want = run.error(table, spec[1], spec[2]) * spec[3]
            tol = 1e-6 * (1e-3 * spec[3] + np.abs(want))
        elif what == 'nees':
            want, tol, size = nees(run, kind, i, table)
            tol = 1e-6 + 1e-6 * np.abs(want) + tol
            tol[size > 0.3] = np.inf
            want = want[None, :]
            low, high = chi2.ppf(0.025, df=spec[1]), chi2.ppf(0.975, df=spec[1])
            case.check(len(fig.spans) == 2 and np.allclose(sorted(s[0] for s in fig.spans), [low, high]),
                       f'{where}: bounds {fig.spans} for {spec[1]} degrees of freedom')
        elif what == 'euler':
            q = run.columns(table, [f'{spec[1]}_{k}' for k in range(4)]).T
            rebuilt = Rotation.from_euler('XYZ', np.array(y).T)
            off = (rebuilt * Rotation.from_quat(q, scalar_first=True).inv()).magnitude()
            same(case, f'{where}, run {r}', off, 0.0 * off, 1e-6)
            continue
        else:
            want = run.angle_error(table, spec[1], spec[2])
            size = np.linalg.norm(want, axis=0)
            if np.max(size, initial=0.0) > 0.3:
                case.label('large angle not judged')
                continue
            want = want * spec[3]
            tol = (1e-6 + size * size) * spec[3]
            if len(y[0]) == want.shape[1] and np.sum(np.array(y) * want) < 0.0:
                want = -want  # truth relative to the estimate
        for k in range(n):
            same(case, f'{where}, curve {k}, run {r}', y[k], want[k], tol[k] if np.ndim(tol) == 2 else tol)


def judge_timing(case, where, fig, runs, table):
    d = np.concatenate([r.tables[table]['duration_0'] for r in runs])
    quads = [g for g in fig.glyphs if g.kind == 'quad']
    case.check(len(quads) == 1, f'{where}: {len(quads)} histograms')
    g = quads[0]
    case.check(int(np.sum(g.y)) == len(d), f'{where}: {np.sum(g.y)} counted of {len(d)}')
    unit = fig.x_axis_label
    case.check('us' in unit, f'{where}: axis {unit}')
    for k in range(len(g.y)):
        left, right = g.kwargs['left'][k], g.kwargs['right'][k]
        n = np.sum((d >= left) & ((d < right) if k + 1 < len(g.y) else (d <= right)))
        if abs(n - g.y[k]) > np.sum(np.isclose(d, left) | np.isclose(d, right)):
            case.fail(f'{where}: {g.y[k]} updates of {left:.6g} to {right:.6g} us, the logs give {n}')


def judge_triangulation(case, where, fig, runs, table):
    err = {}
    for r in runs:
        d, f = r.tables[table], r.tables['feature_points']
        for k, t in enumerate(d['time']):
            j = int(d['feature'][k])
            err.setdefault(t, []).append([d[c][k] - f[c][j] for c in 'xyz'])
    times = sorted(err)
    lines = [g for g in fig.glyphs if g.kind == 'line']
    case.check([g.label for g in lines] == XYZ, f'{where}: curves {[g.label for g in lines]}')
    for k, g in enumerate(lines):
        same(case, f'{where}, times', g.x, times, 1e-9)
        mean = np.array([np.mean(np.array(err[t])[:, k]) for t in times])
        dev = np.array([np.std(np.array(err[t])[:, k]) for t in times])
        same(case, f'{where}, {XYZ[k]}', g.y, mean, 1e-9)
        bands = [b for b in fig.layouts if type(b).__name__ == 'Band']
        case.check(len(bands) == 3, f'{where}: {len(bands)} bands')
        data = bands[k].source.data
        same(case, f'{where}, {XYZ[k]} lower', data[bands[k].lower], mean - dev, 1e-9)
        same(case, f'{where}, {XYZ[k]} upper', data[bands[k].upper], mean + dev, 1e-9)


def figures_of(tab):
    figs = {}
    for row in tab.child.children:
        for f in row.children:
            if hasattr(f, 'glyphs'):
                figs.setdefault(f.title.text, []).append(f)
    return figs


def judge_tab(case, tab, specs, runs, kind, i, table):
    figs = figures_of(tab)
    for title, spec in specs.items():
        where = f'{tab.title}: {title}'
        case.check(len(figs.get(title, [])) == 1, f'{where}: {len(figs.get(title, []))} figures; has {sorted(figs)}')
        judge_figure(case, where, figs[title][0], spec, runs, kind, i, table)
        case.label('figures')
    timing = [t for t in figs if t.endswith('Update Time')]
    case.check(len(timing) == 1, f'{tab.title}: timing figures {timing}')
    judge_timing(case, f'{tab.title}: {timing[0]}', figs[timing[0]][0], runs, table)
    for title, fs in figs.items():
        for f in fs:
            for g in f.glyphs:
                case.check(g.x.shape == g.y.shape or g.kind == 'quad',
                           f'{tab.title}: {title}: {g.x.shape} times and {g.y.shape} values')
    return figs


def judge_report(case, tabs, runs):
    titles = {}
    for t in tabs:
        case.check(t.title not in titles, f'two tabs {t.title}')
        titles[t.title] = t
    want = ['Body'] + [f'IMU {i}' for i in ids(runs, 'imu')] + [f'MSCKF {i}' for i in ids(runs, 'msckf')]
    want += [f'Fiducial {i}' for i in ids(runs, 'fiducial')] + [f'GPS {i}' for i in ids(runs, 'gps')]
    case.check(sorted(titles) == sorted(want), f'tabs {sorted(titles)} for the logs of {sorted(want)}')
    figs = judge_tab(case, titles['Body'], body_figures(), runs, 'body', 0, 'body_state')
    if all('aug_state' in r.tables for r in runs):
        judge_figure(case, 'augmented position', figs['Augmented State Position'][0],
                     ('columns', ['aug_pos_0', 'aug_pos_1', 'aug_pos_2'], 1.0), runs, 'aug', 0, 'aug_state')
        judge_figure(case, 'augmented orientation', figs['Augmented State Orientation'][0], ('euler', 'aug_ang'),
                     runs, 'aug', 0, 'aug_state')
    for i in ids(runs, 'imu'):
        d = runs[0].tables[f'imu_{i}']
        judge_tab(case, titles[f'IMU {i}'], imu_figures(i, d), runs, 'imu', i, f'imu_{i}')
    for i in ids(runs, 'msckf'):
        d = runs[0].tables[f'msckf_{i}']
        specs = camera_figures(i, d, '')
        specs['Track Counts'] = ('columns', ['FeatureTracks'], 1.0)
        if 'cam_cov_0' in d:
            specs['Normalized Estimation Error Squared'] = ('nees', 6)
        figs = judge_tab(case, titles[f'MSCKF {i}'], specs, runs, 'msckf', i, f'msckf_{i}')
        if all(f'triangulation_{i}' in r.tables for r in runs):
            judge_triangulation(case, f'MSCKF {i}: triangulation', figs['MSCKF Triangulation Error'][0], runs,
                                f'triangulation_{i}')
    for i in ids(runs, 'fiducial'):
        d = runs[0].tables[f'fiducial_{i}']
        specs = camera_figures(i, d, 'Camera ')
        specs['Fiducial Position in Camera Frame'] = ('columns', [f'board_meas_pos_{k}' for k in range(3)], 1.0)
        specs['Fiducial Angle in Camera Frame'] = ('euler', 'board_meas_ang')
        if 'fid_cov_0' in d and len(runs[0].tables['board_truth']['board']) == 1:
            specs['Normalized Estimation Error Squared'] = ('nees', 6)
        judge_tab(case, titles[f'Fiducial {i}'], specs, runs, 'fiducial', i, f'fiducial_{i}')
    for i in ids(runs, 'gps'):
        d = runs[0].tables[f'gps_{i}']
        specs = {'GPS Measurements': ('columns', ['x', 'y', 'z'], 1.0),
                 'GPS Residuals': ('columns', ['residual_0', 'residual_1', 'residual_2'], 1.0)}
        if 'gps_cov_0' in d:
            specs['GPS Antenna Position Error'] = ('error', 'ant_pos', f'gps_pos_{i}', 1e3)
            specs['GPS Antenna Position Covariance'] = ('columns', [f'gps_cov_{k}' for k in range(3)], 1e3)
            specs['Normalized Estimation Error Squared'] = ('nees', 3)
        judge_tab(case, titles[f'GPS {i}'], specs, runs, 'gps', i, f'gps_{i}')
    case.label('tabs', len(tabs))


# ---- Made-up logs ----

CASE = st.fixed_dictionaries({
    'runs': st.integers(1, 4),
    'imus': st.one_of(st.integers(0, 3), st.sampled_from([0, 1, 2, 10, 12])),
    'cams': st.lists(st.fixed_dictionaries({
        'msckf': st.booleans(), 'fiducial': st.booleans(), 'extrinsic': st.booleans(),
        'fid_extrinsic': st.booleans()}), max_size=2),
    'gps': st.integers(0, 2),
    'extrinsic': st.integers(0, 2**14 - 1),
    'intrinsic': st.integers(0, 2**14 - 1),
    'errors': st.sampled_from(['random', 'random', 'constant', 'constant', 'constant', 'none']),
    'flip': st.booleans(), 'cut': st.booleans(), 'gaps': st.booleans(), 'light': st.booleans(), 'embed': st.sampled_from([False] * 7 + [True]),
    'more': st.booleans(),
    'seed': st.integers(0, 2**31 - 1),
})


def made_up(case, v):
    rng = np.random.default_rng(v['seed'])
    setup = [('imu', k + 1) for k in range(v['imus'])]
    setup += [('cam', len(setup) + k + 1) for k in range(len(v['cams']))]
    setup += [('gps', len(setup) + k + 1) for k in range(v['gps'])]
    top = os.path.join(case.scratch, 'mc.yaml')
    with open(top, 'w') as f:
        yaml.dump({'/EkfCalNode': {'ros__parameters': {'sim_params': {
            'number_of_runs': v['runs'] + (3 if v['more'] else 0), 'seed': 1, 'run_number': 0}}}}, f)
    args = argparse.Namespace(inputs=[top], runs=v['runs'] if v['more'] else None, light=v['light'],
                              embed=v['embed'], time=None, ext='png', rate_line=False)
    sets = utilities.generate_mc_lists(args)
    case.check(len(sets) == 1 and len(sets[0]) == v['runs'], f'{sets} for {v["runs"]} runs')
    directories = [f[:-len('.yaml')] for f in sets[0]]
    boards = sum(c['fiducial'] for c in v['cams'])
    for d in directories:
        os.makedirs(d)
        truth = logs.Truth(rng, setup)
        truth.write(d)
        out = logs.Logs(rng, truth, v, d)

        def rows():
            return int(rng.integers(2, 12))
        out.body(rows())
        features = rng.normal(size=(6, 3))
        if any(c['msckf'] for c in v['cams']):
            logs.write_table(os.path.join(d, 'feature_points.csv'), ['Feature', 'x', 'y', 'z'],
                             [[k] + list(x) for k, x in enumerate(features)])
            out.augmented(rows())
        board_rows = [[k + 1] + list(rng.normal(size=3)) + logs.quat(logs.Rotation.random(
            random_state=int(rng.integers(2**31)))) for k in range(boards)]
        if boards:
            logs.write_table(os.path.join(d, 'board_truth.csv'),
                             'board,pos_x,pos_y,pos_z,quat_w,quat_x,quat_y,quat_z'.split(','), board_rows)
        board = 0
        for kind, i in setup:
            ext, intr = bool(v['extrinsic'] >> (i % 14) & 1), bool(v['intrinsic'] >> (i % 14) & 1)
            if kind == 'imu':
                out.imu(i, rows(), ext, intr)
            elif kind == 'gps':
                n = rows() + 2
                out.gps(i, n, ext, int(rng.integers(0, n - 1)) if rng.random() < 0.8 else 0)
            else:
                c = v['cams'][i - v['imus'] - 1]
                if c['msckf']:
                    out.msckf(i, rows(), c['extrinsic'], features)
                if c['fiducial']:
                    out.fiducial(i, rows(), c['extrinsic'], c['fid_extrinsic'], np.array(board_rows[board][1:]))
                    board += 1
    runs = [RunData(d) for d in directories]
    where = top[:-len('.yaml')]
    stats.calc_sim_stats(sets, args)
    judge_stats(case, os.path.join(where, 'stats.txt'), runs)
    SAVED.clear()
    report.plot_sim_results(sets, args)
    if v['embed']:
        case.check(all(f == 'components' for f, _, _ in SAVED) and len(SAVED) > 20, f'{len(SAVED)} embedded figures')
        for _, fig, _ in SAVED:
            title = fig.title.text.replace(' ', '_')
            for ext in ('js', 'html'):
                case.check(os.path.isfile(os.path.join(where, ext, f'{title}.{ext}')), f'no {title}.{ext}')
        case.label('embedded')
    else:
        saved = [(f, o) for f, o, _ in SAVED]
        case.check([f for f, _ in saved] == [os.path.join(where, 'mc-report.html')], f'reports {saved}')
        judge_report(case, saved[0][1].tabs, runs)
    case.label('several runs', v['runs'] > 1)
    case.nontrivial = bool(setup) and v['errors'] != 'none' and not v['embed']
    case.note = f"{v['runs']} runs, {v['imus']} IMUs, {len(v['cams'])} cameras, {boards} boards, {v['gps']} GPS, " \
                f"{v['errors']} errors"


# ---- Logs of the simulation ----

SIMULATED = st.fixed_dictionaries({
    'runs': st.sampled_from([2, 1, 3]), 'imus': st.sampled_from([1, 2]), 'gps': st.sampled_from([1, 0]),
    'cams': st.sampled_from([[c] if any(c.values()) else [] for c in [
        {'msckf': m, 'fiducial': f} for m in (True, False) for f in (True, False)]]),
    'extrinsic': st.sampled_from([True, True, False]), 'intrinsic': st.sampled_from([True, True, False]),
    'truth': st.sampled_from(['cyclic', 'spline']),
    'root': st.booleans(), 'seed': st.integers(1, 2**31 - 1),
})


def configuration(v):
    p = {'debug_log_level': 0, 'data_log_rate': 10.0, 'use_root_covariance': v['root'],
         'imu_list': [f'I{k}' for k in range(v['imus'])], 'camera_list': [f'C{k}' for k in range(len(v['cams']))],
         'tracker_list': [], 'fiducial_list': [], 'gps_list': [f'G{k}' for k in range(v['gps'])],
         'imu': {}, 'camera': {}, 'tracker': {}, 'fiducial': {}, 'gps': {}, 'filter_params': {},
         'sim_params': {'seed': v['seed'], 'number_of_runs': v['runs'], 'run_number': 0, 'max_time': 3.0,
                        'stationary_time': 0.5, 'truth_type': v['truth'], 'pos_frequency': [0.1, 0.2, 0.3],
                        'ang_frequency': [0.1, 0.2, 0.3], 'pos_offset': [0.0, 0.0, 0.0],
                        'ang_offset': [0.0, 0.0, 0.0], 'pos_amplitude': 1.0, 'ang_amplitude': 0.1,
                        'positions': [0.0, 0.0, 0.0, 0.1, 0.1, 0.1, -0.1, -0.1, -0.1, 0.0, 0.2, 0.0],
                        'angles': [0.0, 0.0, 0.0, 0.01, 0.01, 0.01, 0.0, 0.02, 0.0, 0.0, 0.0, 0.03]}}
    for name in p['imu_list']:
        p['imu'][name] = {'rate': 40.0, 'data_log_rate': 10.0, 'is_extrinsic': v['extrinsic'], 'is_intrinsic': v['intrinsic'],
                          'variance': [0.01] * 12, 'sim_params': {'no_errors': False, 'acc_error': [0.001] * 3, 'omg_error': [0.001] * 3,
                                                                  'pos_error': [0.01] * 3, 'ang_error': [0.01] * 3}}
    for k, c in enumerate(v['cams']):
        name = f'C{k}'
        p['camera'][name] = {'rate': 5.0, 'data_log_rate': 5.0, 'topic': 'x', 'variance': [0.01] * 6,
                             'is_extrinsic': v['extrinsic'],
                             'sim_params': {'no_errors': False, 'pos_error': [0.01] * 3, 'ang_error': [0.01] * 3}}
        if c['msckf']:
            p['tracker_list'].append('T')
            p['camera'][name]['tracker'] = 'T'
            p['tracker']['T'] = {'is_cam_extrinsic': v['extrinsic'], 'max_track_length': 5,
                                 'sim_params': {'feature_count': 30, 'room_size': 5.0}}
        if c['fiducial']:
            p['fiducial_list'].append('F')
            p['camera'][name]['fiducial'] = 'F'
            p['fiducial']['F'] = {'fiducial_type': 1, 'squares_x': 5, 'squares_y': 7, 'square_length': 0.04,
                                  'marker_length': 0.02, 'pos_f_in_l': [5.0, 0.0, 0.0],
                                  'ang_f_to_l': [1.0, 0.0, 0.0, 0.0], 'variance': [0.01] * 6,
                                  'is_extrinsic': v['extrinsic'], 'is_cam_extrinsic': v['extrinsic'],
                                  'sim_params': {'no_errors': False, 'pos_error': [0.01] * 3,
                                                 'ang_error': [0.01] * 3}}
    for name in p['gps_list']:
        p['gps'][name] = {'rate': 5.0, 'data_log_rate': 5.0, 'variance': [0.01] * 3, 'is_extrinsic': v['extrinsic'],
                          'sim_params': {'no_errors': False, 'gps_error': [0.1] * 3, 'pos_a_in_b_err': [0.01] * 3}}
    return {'/EkfCalNode': {'ros__parameters': p}}


def simulated(case, v):
    eval_dir = workspace.make(case.scratch, sim=os.environ['VERIF_SIM'])
    top = os.path.join(case.scratch, 'mc.yaml')
    with open(top, 'w') as f:
        yaml.dump(configuration(v), f)
    p = subprocess.run([sys.executable, os.path.join(eval_dir, 'evaluate.py'), top, '-j', '2'], cwd=case.scratch,
                       env=workspace.environment(), capture_output=True, text=True, timeout=300)
    case.check(p.returncode == 0, f'evaluate.py: exit {p.returncode}: {p.stderr[-1200:]}')
    args = argparse.Namespace(inputs=[top], runs=None, light=True, embed=False, time=None, ext='png',
                              rate_line=False)
    sets = utilities.generate_mc_lists(args)
    directories = [f[:-len('.yaml')] for f in sets[0]]
    where = top[:-len('.yaml')]
    case.check(os.path.isfile(os.path.join(where, 'mc-report.html')), 'no report')
    runs = [RunData(d) for d in directories]
    if not all(len(r.tables['body_state'].get('time', [])) > 5 for r in runs):
        case.label('run that diverged or logged nothing')
        return
    judge_stats(case, os.path.join(where, 'stats.txt'), runs)
    SAVED.clear()
    report.plot_sim_results(sets, args)
    judge_report(case, SAVED[0][1].tabs, runs)
    names = sorted(runs[0].tables)
    case.nontrivial = len(names) > 3
    case.note = f"{v['runs']} runs: {', '.join(names)}"


if __name__ == '__main__':
    pbt.run('C27', 'logs of up to four runs with up to twelve IMUs, two cameras with tracker or board and two GPS, with '
            'chosen errors, other numbers of rows in each run, lines cut off, numbers missing, quaternions of either sign; and logs of '
            'simulations run by evaluate.py; non-trivial: sensors, errors and a full report',
            [pbt.Clause('made-up', CASE, made_up, 480, 16000),
             pbt.Clause('simulated', SIMULATED, simulated, 64, 960)],
            ['pandas and bokeh are stand-ins that read the tables and record what is drawn', 'one board',
             'angles below 0.3 rad in the figures'])
