"""Solving on several workers gives exactly what solving serially gives."""
import numpy as np

from sim.boot import load_beluga
beluga = load_beluga()
from sim import bvps, ocps, pool as simpool                  # noqa: E402
from sim.core import Outcome                                 # noqa: E402
from beluga.numeric.bvp_solvers import Shooting              # noqa: E402

PROPERTY = 'C08'
LEVEL = 'exploration'
RULE = ('each run: one solver object solves 1-3 boundary value problems (or one whole optimal control problem) on 2-4 '
        'simulated workers or serially, in any order of task completion, optionally with a task that raises in its '
        'worker; each solve is compared bit by bit with a serial solve on a fresh solver; non-trivial when tasks '
        'finished out of order or a task raised')
STATE_MEASURE = 'distinct (completion order, worker assignment) of one batch of tasks'
REAL = ['beluga.numeric.bvp_solvers.Shooting', 'beluga.numeric.ivp_solvers', 'beluga.solve with n_cpus > 1 (part of the '
        'runs)', 'scipy']
STUB = ['pathos worker pool: forked workers scheduled one at a time by the seed; tasks and results cross the process '
        'boundary serialised']
ASSUMPTIONS = ['equations of motion are functions of their arguments', 'numba compilation off (pure Python functions)']
EXPECTED_PROBES = ['finished_out_of_order', 'parallel_solves', 'both_raise', 'multi_arc', 'quads', 'full_solve',
                   'after_task_error', 'pool_reused']
ALGS = ['Armijo', 'Armijo', 'fsolve', 'SLSQP', 'hybr', 'lm']
RUN_WALL = 100


def setup():
    ocps.compiled('spring')


def budget(tier):
    return {'runs': 700, 'seconds': 75} if tier == 'quick' else {'runs': 10 ** 7, 'seconds': 1800}


def gen(rng, tier, i):
    if i % 31 == 29:
        return {'kind': 'full', 'problem': rng.choice(['spring', 'brach']), 'seed': rng.randrange(10 ** 6),
                'workers': rng.randint(2, 4), 'arcs': rng.choice([1, 2]), 'cases': 2,
                'strategy': rng.choice(['manual', 'bisection']), 'autoscale': rng.random() < 0.5}
    solves = []
    for _ in range(rng.choice([1, 1, 2, 3])):
        name = rng.choice([n for n in bvps.ZOO if n != 'quad3'])
        if solves and rng.random() < 0.6:
            name = solves[-1]['bvp']
        s = {'bvp': name, 'guess': bvps.gen_guess(rng, name), 'pool': rng.choice(['same', 'same', 'new', 'serial'])}
        if rng.random() < 0.15:
            s['fault'] = rng.randrange(12)
        solves.append(s)
    return {'kind': 'direct', 'seed': rng.randrange(10 ** 6), 'workers': rng.randint(2, 4), 'solves': solves,
            'algorithm': rng.choice(ALGS), 'arcs': rng.choice([1, 2, 2, 3, 4]),
            'max_iterations': rng.choice([2, 6, 30]), 'tolerance': rng.choice([1e-4, 1e-6])}


def shrink(plan):
    if plan['kind'] == 'full':
        for k, v in (('cases', 2), ('workers', 2), ('arcs', 1), ('autoscale', False), ('strategy', 'manual')):
            if plan[k] != v:
                yield dict(plan, **{k: v})
        return
    for j in range(len(plan['solves'])):
        if len(plan['solves']) > 1:
            yield dict(plan, solves=plan['solves'][:j] + plan['solves'][j + 1:])
    for k, v in (('workers', 2), ('arcs', 1), ('arcs', 2), ('max_iterations', 2), ('algorithm', 'Armijo')):
        if plan[k] != v:
            yield dict(plan, **{k: v})
    for j, s in enumerate(plan['solves']):
        for k, v in (('noise', 0), ('nodes', 2), ('uneven', False)):
            if s['guess'][k] != v:
                yield dict(plan, solves=plan['solves'][:j] + [dict(s, guess=dict(s['guess'], **{k: v}))] +
                           plan['solves'][j + 1:])
        if 'fault' in s:
            t = dict(s)
            del t['fault']
            yield dict(plan, solves=plan['solves'][:j] + [t] + plan['solves'][j + 1:])


def make(plan):
    return Shooting(algorithm=plan['algorithm'], num_arcs=plan['arcs'], max_iterations=plan['max_iterations'],
                    tolerance=plan['tolerance'], ivp_args={'maxstep': 0.25})


def attempt(algo, bvp, guess, pool):
    algo.set_derivative_function(bvp.ode)
    algo.set_quadrature_function(bvp.quad)
    algo.set_boundarycondition_function(bvp.bc)
    try:
        return algo.solve(guess, pool=pool)
    except Exception as e:
        return e


def run(plan):
    out = Outcome()
    with np.errstate(all='ignore'):
        (run_full if plan['kind'] == 'full' else run_direct)(plan, out)
    return out


def run_direct(plan, out):
    algo = make(plan)
    with simpool.Controller({'seed': plan['seed']}, out) as ctl:
        current = None
        faulted = False
        for j, s in enumerate(plan['solves']):
            bvp = bvps.ZOO[s['bvp']]()
            ref = attempt(make(plan), bvp, bvps.guess(bvp, s['guess']), None)
            pool = None
            if s['pool'] != 'serial':
                if current is None or s['pool'] == 'new':
                    current = beluga_pool(plan['workers'])
                else:
                    out.probes['pool_reused'] += 1
                pool = current
                if 'fault' in s:
                    ctl.inject[ctl.ntasks + s['fault']] = 'raise'
            fired = out.faults['worker_task_raises']
            got = attempt(algo, bvp, bvps.guess(bvp, s['guess']), pool)
            fired = out.faults['worker_task_raises'] > fired
            ctl.inject.clear()
            out.event('solve', j, repr(type(got)), None if isinstance(got, BaseException) else
                      (bool(got['success']), got['sol'].y.tobytes()))
            out.probes['parallel_solves'] += pool is not None
            out.probes['multi_arc'] += plan['arcs'] > 1 and pool is not None
            out.probes['quads'] += bvp.quad is not None and pool is not None
            what = 'solve %d (%s, %s, %d arcs, %s)' % (j, s['bvp'], plan['algorithm'], plan['arcs'],
                                                       'serial' if pool is None else '%d workers' % plan['workers'])
            if fired:
                faulted = True
                if not isinstance(got, BaseException):
                    out.violate('error_lost', '%s: a task raised in its worker but the solve returned' % what)
                continue
            if faulted:
                out.probes['after_task_error'] += 1
            d = bvps.same(ref, got)
            if d:
                out.violate('differs', '%s: serial on a fresh solver against this: %s' % (what, d))
            if isinstance(ref, BaseException) and isinstance(got, BaseException):
                out.probes['both_raise'] += 1
    out.nontrivial = bool(out.probes['finished_out_of_order'] or out.faults)


def beluga_pool(n):
    import pathos
    return pathos.multiprocessing.Pool(processes=n)


def run_full(plan, out):
    res = []
    for n in (1, plan['workers']):
        with simpool.Controller({'seed': plan['seed']}, out):
            res.append(ocps.solve(plan, n_cpus=n))
    out.probes['full_solve'] += 1
    d = ocps.same(*res)
    out.event('full', ocps.digest(res[0]), ocps.digest(res[1]))
    if d:
        out.violate('full_differs', 'beluga.solve with n_cpus=1 against n_cpus=%d: %s' % (plan['workers'], d))
    out.nontrivial = bool(out.probes['finished_out_of_order'])
