"""C26: Monte-Carlo evaluation runs the configured simulations, where the reports look for them."""
import argparse
import copy
import io
import contextlib
import os
import random
import subprocess
import sys

from hypothesis import strategies as st
import yaml

import pbt
import workspace

workspace.load()
import run  # noqa: E402
import utilities  # noqa: E402

NAMES = ['ex', 'one_imu', 'a.b', 'run_1', 'x-2', 'case 3']


def scalar():
    return st.one_of(
        st.integers(-10, 10**6), st.booleans(), st.none(),
        st.floats(allow_nan=False, allow_infinity=False), st.sampled_from(['', 'a b', 'true', '1', '~', 'é: -']))


def configuration(runs):
    return st.fixed_dictionaries({
        'seed': st.one_of(st.just(0), st.integers(1, 2**31 - 1)),
        'number_of_runs': runs,
        'run_number': st.integers(0, 50),
        'max_time': st.floats(0.1, 1000.0),
        'sim_extra': st.dictionaries(st.sampled_from(['truth_type', 'pos_errors', 'ang_offset', 'k']),
                                     st.one_of(scalar(), st.lists(st.floats(-5, 5), max_size=4)), max_size=3),
        'extra': st.dictionaries(st.sampled_from(['imu_list', 'data_log_rate', 'imu', 'gravity', 'p']),
                                 st.one_of(scalar(), st.lists(st.sampled_from(['IMU1', 'IMU2']), max_size=2),
                                           st.dictionaries(st.sampled_from(['a', 'b']), scalar(), max_size=2)),
                                 max_size=4),
    })


def document(c):
    sim = dict(c['sim_extra'])
    for k in ('seed', 'number_of_runs', 'run_number', 'max_time'):
        sim[k] = c[k]
    parameters = dict(c['extra'])
    parameters['sim_params'] = sim
    return {'/EkfCalNode': {'ros__parameters': parameters}}


def write(path, doc):
    with open(path, 'w') as f:
        yaml.dump(doc, f)


def sim_of(doc):
    return doc['/EkfCalNode']['ros__parameters']['sim_params']


def judge_runs(case, top, files, runs, time, where):
    """The files are the runs that the top-level configuration asks for."""
    n = runs if runs else sim_of(top)['number_of_runs']
    case.check(len(files) == n, f'{where}: {len(files)} runs for {n}')
    case.check(len(set(files)) == n, f'{where}: runs share files {files}')
    seeds = []
    for i, f in enumerate(files):
        with open(f) as s:
            got = yaml.safe_load(s)
        want = copy.deepcopy(top)
        if n > 1:
            seeds.append(sim_of(got).get('seed'))
            if sim_of(top)['seed']:
                sim_of(want)['seed'] = seeds[-1]
                case.check(isinstance(seeds[-1], int) and 0 <= seeds[-1] < 2**32, f'{where}: seed {seeds[-1]}')
            sim_of(want)['number_of_runs'] = 1
            sim_of(want)['run_number'] = sim_of(top)['run_number'] + i
            if time:
                sim_of(want)['max_time'] = time
        if got != want:
            a, b = sim_of(got), sim_of(want)
            diff = {k: (a.get(k), b.get(k)) for k in set(a) | set(b) if a.get(k) != b.get(k)}
            case.fail(f'{where}: run {i} of {n} differs from the configuration: {diff or (got, want)}')
    if n > 1 and sim_of(top)['seed']:
        # drawn at random: two of many may be the same
        case.check(len(set(seeds)) >= max(2, n - 1), f'{where}: runs share seeds {seeds}')
    return seeds


EXPAND = st.fixed_dictionaries({
    'c': configuration(st.one_of(st.integers(1, 4), st.integers(5, 30), st.sampled_from([9, 10, 11, 99, 100, 101]))),
    'name': st.sampled_from(NAMES),
    'runs': st.one_of(st.none(), st.integers(1, 25)),
    'time': st.one_of(st.none(), st.floats(0.5, 100.0)),
    'again': st.booleans(),
})


def expand(case, v):
    path = os.path.join(case.scratch, v['name'] + '.yaml')
    top = document(v['c'])
    write(path, top)
    n = v['runs'] if v['runs'] else v['c']['number_of_runs']
    time = v['time'] if n > 1 else None  # -t with a single run: see DESIGN.md
    files = run.generate_mc_from_yaml(path, runs=v['runs'], time=time)
    with open(path) as s:
        case.check(yaml.safe_load(s) == top, 'the configuration itself was changed')
    seeds = judge_runs(case, top, files, v['runs'], time, 'generated')
    args = argparse.Namespace(inputs=[path], runs=v['runs'], time=time)
    listed = utilities.generate_mc_lists(args)
    case.check([[os.path.normpath(f) for f in s] for s in listed] == [[os.path.normpath(f) for f in files]],
               f'reports read {listed[0][:3]}, runs are {files[:3]}')
    if v['again'] and n > 1 and v['c']['seed']:
        random.random()
        second = run.generate_mc_from_yaml(path, runs=v['runs'], time=time)
        case.check(judge_runs(case, top, second, v['runs'], time, 'again') == seeds,
                   'the seeds of the runs do not follow from the configured seed')
        case.label('repeated')
    case.label('one run' if n == 1 else 'several runs')
    case.nontrivial = n > 1
    case.note = f"{v['name']}: {n} runs, seed {v['c']['seed']}, first {v['c']['run_number']}, time {time}"


RECORDER = """#!/bin/sh
# Records its arguments as the simulation would be called
cp "$1" "$2/seen.yaml" || exit 3
echo x >> "$2/count"
%s
"""

EXECUTE = st.fixed_dictionaries({
    'configs': st.lists(configuration(st.integers(1, 6)), min_size=1, max_size=3),
    'runs': st.one_of(st.none(), st.integers(1, 5)),
    'time': st.one_of(st.none(), st.floats(0.5, 100.0)),
    'jobs': st.sampled_from([1, 2, 8]),
    'out': st.booleans(),
    'err': st.booleans(),
})


def execute(case, v):
    script = RECORDER % ('\n'.join((['echo out "$1"'] if v['out'] else []) + (
        ['echo err "$1" >&2'] if v['err'] else [])))
    eval_dir = workspace.make(case.scratch, script=script)
    tops, inputs = [], []
    several = all((v['runs'] or c['number_of_runs']) > 1 for c in v['configs'])
    time = v['time'] if several else None
    config_dir = os.path.join(case.scratch, 'config')
    os.mkdir(config_dir)
    for k, c in enumerate(v['configs']):
        path = os.path.join(config_dir, f'{NAMES[k]}_{k}.yaml')
        tops.append(document(c))
        write(path, tops[-1])
        inputs.append(path)
    command = [sys.executable, os.path.join(eval_dir, 'run.py')] + inputs + ['-j', str(v['jobs'])]
    if v['runs']:
        command += ['-n', str(v['runs'])]
    if time:
        command += ['-t', repr(time)]
    p = subprocess.run(command, cwd=case.scratch, env=workspace.environment(), capture_output=True, text=True,
                       timeout=120)
    case.check(p.returncode == 0, f'run.py: exit {p.returncode}, {p.stderr[-600:]}')
    args = argparse.Namespace(inputs=inputs, runs=v['runs'], time=time)
    total = 0
    for top, path, listed in zip(tops, inputs, utilities.generate_mc_lists(args)):
        seen = []
        for f in listed:
            directory = f[:-len('.yaml')]
            at = os.path.join(directory, 'seen.yaml')
            case.check(os.path.isfile(at), f'no simulation of {f} left its output where it is read; '
                       f'{p.stdout[-300:]}{p.stderr[-300:]}')
            with open(os.path.join(directory, 'count')) as s:
                case.check(len(s.readlines()) == 1, f'{f} was simulated more than once')
            for name, on in (('stdout', v['out']), ('stderr', v['err'])):
                log = os.path.join(directory, 'sim.' + name)
                case.check(os.path.isfile(log) == on, f'sim.{name} of {f}: present {not on}')
                if on:
                    with open(log) as s:
                        text = s.read()
                    case.check(text.startswith(name[3:]) and text.strip().endswith(os.path.basename(f)),
                               f'sim.{name} of {f}: {text!r}')
            seen.append(at)
        judge_runs(case, top, seen, v['runs'], time, 'simulated')
        total += len(listed)
    case.label('simulations', total)
    case.nontrivial = total > 1
    case.note = f"{len(inputs)} configurations, {total} simulations, {v['jobs']} jobs, time {time}"


def single(case, v):
    """The requested time also holds for a configuration with a single run."""
    path = os.path.join(case.scratch, 'one.yaml')
    top = document(v['c'])
    write(path, top)
    with contextlib.redirect_stdout(io.StringIO()):
        files = run.generate_mc_from_yaml(path, runs=1, time=v['time'])
    with open(files[0]) as s:
        got = sim_of(yaml.safe_load(s))
    case.nontrivial = got['max_time'] != v['time'] or v['c']['max_time'] != v['time']
    if got['max_time'] != v['time']:
        case.known_or_fail('C26', 'single-run-time', 'run.py -t is ignored for a single run')


if __name__ == '__main__':
    pbt.run('C26', 'configurations with generated parameters, seeds, run numbers and run counts, and the options '
            '-n, -t and -j; non-trivial: several runs (single: the option changes the time)', [
                pbt.Clause('expand', EXPAND, expand, 1600, 40000),
                pbt.Clause('execute', EXECUTE, execute, 64, 1600),
                pbt.Clause('single', st.fixed_dictionaries({'c': configuration(st.integers(1, 3)),
                                                            'time': st.floats(0.5, 100.0)}), single, 80, 800),
            ], ['pandas and bokeh are stand-ins', 'the simulation is a program that records how it is called'])
