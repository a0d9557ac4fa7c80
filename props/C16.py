"""A solve is a function of what it is given: surroundings do not show in its results."""
import json
import logging
import os
import shutil
import subprocess
import sys
import tempfile

import numpy as np

from sim import boot, ocps
from sim.core import HarnessError, Outcome

PROPERTY = 'C16'
LEVEL = 'exploration'
RULE = ('each run: a fresh process with a hash seed of its own solves 2-6 problems for real, each in surroundings drawn from '
        'the seed (clocks that jump, stall or run fast, verbosity of console and log file, log destinations that fail, seeds '
        'of the random generators, working directory, environment variables, garbage collector); the digest of every result '
        'is compared with that of the same solve in the process of the check; every run is non-trivial')
STATE_MEASURE = 'distinct (problem, form, solver, verbosity, kinds of disturbance) tuples'
REAL = ['the whole of beluga, in a fresh process']
STUB = ['clocks (all of module time)', 'streams of the log handlers when they are made to fail', 'numba compilation (switched off)']
ASSUMPTIONS = ['same machine, same versions of the libraries, one thread in the linear algebra libraries']
EXPECTED_PROBES = ['clock_jumped', 'log_failed', 'debug_log', 'progress_bar', 'other_hash_seed', 'recompiled']

PLANS = [('spring', 'traditional', {}), ('spring', 'diffyg', {}), ('brach', 'traditional', {}),
         ('brach', 'traditional', {'analytical_jacobian': True}), ('brach_sym', 'diffyg', {'reduction': True}),
         ('steer', 'traditional', {}), ('tug', 'diffyg', {}), ('tug', 'traditional', {'control_method': 'algebraic'}),
         ('denham', 'traditional', {'control_method': 'algebraic'}), ('denham', 'diffyg', {}),
         ('stage', 'traditional', {}), ('stage', 'diffyg', {'control_method': 'algebraic'}), ('launch', 'traditional', {}),
         ('boxed', 'diffyg', {})]
SOLVERS = [('SPBVP', {})] * 5 + [('Shooting', {}), ('Shooting', {'num_arcs': 2}), ('Shooting', {'algorithm': 'fsolve'})]
LEVELS = [logging.DEBUG, logging.INFO, logging.WARNING, logging.ERROR]


def setup():
    for name, method, opts in PLANS:
        ocps.compiled(name, method, **opts)


def budget(tier):
    return {'runs': 88, 'seconds': 60} if tier == 'quick' else {'runs': 10 ** 7, 'seconds': 1200}


def gen(rng, tier, i):
    jobs = []
    for _ in range(rng.randint(2, 6)):
        p = rng.randrange(len(PLANS))
        name, method, opts = PLANS[p]
        solver, args = SOLVERS[rng.randrange(5 if name == 'denham' else len(SOLVERS))]
        env = {'display': rng.choice(LEVELS), 'file': rng.choice(LEVELS + [0]), 'rng': rng.randrange(10 ** 6),
               'start': rng.choice([0.0, 1.6e9, 4e9, -1e9]), 'jumps': [], 'rate': rng.choice([1e-4, 1e-4, 1e-4, 1., 1e3])}
        if rng.random() < 0.6:
            env['jumps'] = [[rng.randint(1, rng.choice([12, 12, 100])), rng.choice([-1e9, -3600., -1., 0.5, 3600., 1e9])]
                            for _ in range(rng.randint(1, 3))]
        if rng.random() < 0.3:
            env['log_fails'] = [rng.choice(['always', 'sometimes']), rng.randrange(10 ** 6)]
        if rng.random() < 0.3:
            env['gc'] = rng.choice(['off', '50', '5000'])
        if rng.random() < 0.3:
            env['environ'] = {'COLUMNS': str(rng.choice([1, 20, 300])), 'TZ': rng.choice(['UTC', 'Asia/Tokyo']),
                              'HOME': '/nonexistent'}
        env['same_dir'] = rng.random() < 0.4
        env['cpus'] = rng.choice([1, 2, 8, 8, 64])
        env['umask'] = rng.choice([0o022, 0o077, 0o027])
        if rng.random() < 0.4:
            env['print'] = {'precision': rng.choice([1, 3]), 'threshold': rng.choice([2, 5]), 'suppress': True}
        jobs.append({'plan': {'problem': name, 'method': method, 'opts': opts, 'solver': solver, 'args': args,
                              'seed': rng.randrange(3), 'cases': rng.randint(2, 3),
                              'strategy': rng.choice(['bisection', 'manual']),
                              'autoscale': name in ('spring', 'brach', 'tug') and rng.random() < 0.4},
                     'env': env, 'symbolic': rng.random() < 0.3})
    return {'hashseed': rng.randrange(1, 10 ** 6), 'jobs': jobs}


_ref = {}


def reference(plan):
    key = json.dumps(plan, sort_keys=True)
    if key not in _ref:
        with np.errstate(all='ignore'):
            _ref[key] = ocps.digest(ocps.solve(plan))
    return _ref[key]


def run(plan):
    out = Outcome()
    want = [reference(j['plan']) for j in plan['jobs']]
    scratch = tempfile.mkdtemp(prefix='c16-')
    try:
        env = dict(os.environ, PYTHONHASHSEED=str(plan['hashseed']), VERIF_REPO=boot.REPO)
        p = subprocess.run([sys.executable, os.path.join(os.path.dirname(os.path.abspath(boot.__file__)), 'envchild.py')],
                           input=json.dumps({'jobs': plan['jobs'], 'scratch': scratch}), env=env, cwd=scratch,
                           capture_output=True, text=True)
    finally:
        shutil.rmtree(scratch, ignore_errors=True)
    if p.returncode != 0 or not p.stdout.strip():
        # beluga itself must not be able to end the process
        raise HarnessError('child ended with %r: %s' % (p.returncode, p.stderr[-2000:]))
    got = json.loads(p.stdout.strip().splitlines()[-1])
    out.nontrivial = True
    out.probes['other_hash_seed'] += 1
    for k, (j, w, g) in enumerate(zip(plan['jobs'], want, got)):
        e = j['env']
        out.faults['clock_jump'] += g['jumps']
        out.faults['log_write_fails'] += g['log_failures']
        out.probes['clock_jumped'] += g['jumps'] > 0
        out.probes['log_failed'] += g['log_failures'] > 0
        out.probes['debug_log'] += min(e['display'], e['file'] or 99) == logging.DEBUG
        out.probes['progress_bar'] += e['display'] == logging.INFO
        out.probes['recompiled'] += bool(j['symbolic'])
        out.state(j['plan']['problem'], j['plan']['method'], j['plan']['opts'], j['plan']['solver'], e['display'], e['file'],
                  g['jumps'] > 0, bool(e.get('log_fails')), e.get('gc'))
        out.event(k, g['digest'])
        if g['digest'] != w:
            out.violate('surroundings', 'solve %d of the process (%s) gave %s with digest %s, and %s in the process of the '
                        'check; hash seed %d, surroundings %s' % (k, j['plan'], g['what'], g['digest'], w,
                                                                  plan['hashseed'], e))
            return out
    out.note = '%d solves with hash seed %d' % (len(plan['jobs']), plan['hashseed'])
    return out


def shrink(plan):
    jobs = plan['jobs']
    if len(jobs) > 1:
        for k in range(len(jobs)):
            yield dict(plan, jobs=[jobs[k]])
        yield dict(plan, jobs=jobs[:len(jobs) // 2])
        yield dict(plan, jobs=jobs[:-1])
    for k, j in enumerate(jobs):
        for key in ('log_fails', 'gc', 'environ'):
            if key in j['env']:
                yield dict(plan, jobs=jobs[:k] + [dict(j, env={a: b for a, b in j['env'].items() if a != key})] + jobs[k + 1:])
        for simpler in ({'jumps': []}, {'display': logging.ERROR}, {'file': 0}, {'start': 1.6e9}, {'rng': 0}, {'rate': 1e-4}):
            n = dict(j['env'], **simpler)
            if n != j['env']:
                yield dict(plan, jobs=jobs[:k] + [dict(j, env=n)] + jobs[k + 1:])
        if j['symbolic']:
            yield dict(plan, jobs=jobs[:k] + [dict(j, symbolic=False)] + jobs[k + 1:])
    if plan['hashseed'] != 1:
        yield dict(plan, hashseed=1)
