"""Runs clauses of a property over inputs generated (and shrunk) by Hypothesis.

An input is a JSON value, so that the smallest failing one is the replay file.  Clauses run in forked
workers; evidence and VIOLATION lines have the form of the C++ engine (pbt.cpp).
"""
import argparse
import hashlib
import json
import multiprocessing
import os
import shutil
import sys
import tempfile
import time
import traceback

from hypothesis import HealthCheck, Phase, given, seed, settings

KNOWN = {}


class Failure(AssertionError):
    pass


class Case:
    def __init__(self, scratch):
        self.scratch = scratch
        self.labels = {}
        self.nontrivial = False
        self.note = ''
        self.known = {}

    def label(self, name, n=1):
        self.labels[name] = self.labels.get(name, 0) + n

    def fail(self, message):
        raise Failure(message)

    def check(self, ok, message):
        if not ok:
            raise Failure(message)

    def known_or_fail(self, prop, key, message):
        if (prop, key) in KNOWN:
            self.known.setdefault(key, message)
        else:
            raise Failure(f'[{key}] {message}')


class Clause:
    def __init__(self, name, strategy, body, quick, thorough, workers=8):
        self.name, self.strategy, self.body = name, strategy, body
        self.quick, self.thorough, self.workers = quick, thorough, workers


def _run_one(clause, value, root):
    scratch = tempfile.mkdtemp(dir=root)
    case = Case(scratch)
    try:
        clause.body(case, value)
    finally:
        shutil.rmtree(scratch, ignore_errors=True)
    return case


def _worker(prop, clause, worker, n, cap, run_seed, root, out):
    result = {'evaluations': 0, 'nontrivial': [], 'labels': {}, 'samples': [], 'known': {}, 'failure': None,
              'broken': None}
    t0 = time.time()
    last = {}
    key = int.from_bytes(hashlib.sha256(
        f'{run_seed}/{prop}/{clause.name}/{worker}'.encode()).digest()[:8], 'big')
    seen = set()

    @seed(key)
    @settings(max_examples=n, database=None, deadline=None, print_blob=False, report_multiple_bugs=False,
              suppress_health_check=list(HealthCheck), phases=[Phase.generate, Phase.shrink])
    @given(clause.strategy)
    def test(value):
        if time.time() - t0 > cap and not last:
            return
        if time.time() - t0 > cap + 60:
            return
        result['evaluations'] += 1
        try:
            case = _run_one(clause, value, root)
        except Exception as e:
            last['input'] = value
            last['message'] = str(e) if isinstance(e, Failure) else \
                ''.join(traceback.format_exception(type(e), e, e.__traceback__))[-1500:]
            raise
        for k, v in case.labels.items():
            result['labels'][k] = result['labels'].get(k, 0) + v
        result['known'].update(case.known)
        if case.nontrivial:
            h = hashlib.sha256(json.dumps(value, sort_keys=True).encode()).hexdigest()
            if h not in seen:
                seen.add(h)
                if worker < 2 and len(result['samples']) < 2:
                    result['samples'].append(case.note or json.dumps(value)[:300])

    try:
        test()
    except BaseException:
        if last:
            result['failure'] = last
        else:
            result['broken'] = traceback.format_exc()
    result['nontrivial'] = sorted(seen)
    with open(out, 'w') as f:
        json.dump(result, f)


def main(prop, rule, clauses, assumptions=()):
    parser = argparse.ArgumentParser()
    parser.add_argument('--property')
    parser.add_argument('--replay')
    parser.add_argument('--replay-dir', default='.')
    parser.add_argument('--evidence-dir', default='.')
    parser.add_argument('--cases', type=int)
    parser.add_argument('--clause')
    args = parser.parse_args()
    tier = os.environ.get('VERIF_TIER', 'quick')
    run_seed = int(os.environ.get('VERIF_SEED', '1'))
    known_file = os.environ.get('VERIF_KNOWN')
    if known_file and os.path.isfile(known_file):
        for line in open(known_file):
            if line.startswith('known: '):
                words = dict(w.split('=', 1) for w in line.split()[1:] if '=' in w)
                if words.get('property') == prop:
                    KNOWN[(prop, words.get('key'))] = line.strip()
    root = tempfile.mkdtemp(prefix='verif')
    os.chdir(root)
    t0 = time.time()
    try:
        if args.replay:
            record = json.load(open(args.replay))
            clause = {c.name: c for c in clauses}[record['clause']]
            try:
                _run_one(clause, record['input'], root)
            except Exception as e:
                print(e if isinstance(e, Failure) else traceback.format_exc())
                print(f'VIOLATION property={prop} replay={args.replay}')
                return 1
            print('held')
            return 0
        report, samples, violations, known = [], [], 0, {}
        for clause in clauses:
            if args.clause and clause.name != args.clause:
                continue
            total = args.cases or (clause.quick if tier == 'quick' else clause.thorough)
            cap = 60 if tier == 'quick' else 1200
            procs = []
            for w in range(clause.workers):
                out = os.path.join(root, f'{clause.name}.{w}.json')
                p = multiprocessing.get_context('fork').Process(
                    target=_worker, args=(prop, clause, w, max(1, total // clause.workers), cap, run_seed,
                                          root, out))
                p.start()
                procs.append((p, out))
            results = []
            for p, out in procs:
                p.join()
                if not os.path.isfile(out):
                    print(f'{clause.name}: a worker died')
                    return 2
                results.append(json.load(open(out)))
            for r in results:
                if r['broken']:
                    print(r['broken'])
                    return 2
            labels = {}
            for r in results:
                for k, v in r['labels'].items():
                    labels[k] = labels.get(k, 0) + v
                samples += [f'[{clause.name}] {s}' for s in r['samples']]
                for k, v in r['known'].items():
                    known.setdefault(k, v)
            report.append({'name': clause.name, 'evaluations': sum(r['evaluations'] for r in results),
                           'distinct_nontrivial': len(set().union(*[r['nontrivial'] for r in results])),
                           'labels': dict(sorted(labels.items()))})
            failures = [r['failure'] for r in results if r['failure']]
            if failures:
                best = min(failures, key=lambda f: len(json.dumps(f['input'])))
                violations += 1
                os.makedirs(args.replay_dir, exist_ok=True)
                path = os.path.join(args.replay_dir, f'{prop}_{clause.name}.replay')
                with open(path, 'w') as f:
                    json.dump({'property': prop, 'clause': clause.name, 'message': best['message'],
                               'input': best['input']}, f, indent=1)
                print(f"clause {clause.name} FAILED: {best['message']}")
                print(f'VIOLATION property={prop} replay={path}', flush=True)
            else:
                print(f"clause {clause.name}: {report[-1]['evaluations']} cases, "
                      f"{report[-1]['distinct_nontrivial']} non-trivial", flush=True)
        for k in sorted(known):
            print(f'KNOWN-FINDING: property={prop} {k}: {known[k]}')
        os.makedirs(args.evidence_dir, exist_ok=True)
        with open(os.path.join(args.evidence_dir, f'{prop}.json'), 'w') as f:
            json.dump({'property': prop, 'tier': tier, 'seed': run_seed, 'level': 'exploration',
                       'coverage': {
                           'evaluations': sum(r['evaluations'] for r in report),
                           'distinct_nontrivial': sum(r['distinct_nontrivial'] for r in report),
                           'discarded': 0, 'rule': rule, 'clauses': report, 'samples': samples},
                       'assumptions': list(assumptions), 'wall_s': round(time.time() - t0, 3),
                       'violations': violations}, f, indent=1)
        return 1 if violations else 0
    finally:
        os.chdir('/')
        shutil.rmtree(root, ignore_errors=True)


def run(*args, **kwargs):
    sys.exit(main(*args, **kwargs))
