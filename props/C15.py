"""Solves that run at the same time in threads of one process do not disturb each other."""
import copy
import os

import numpy as np

from props.C05 import same_run
from sim import contsim as cs
from sim import fssim, ocps
from sim.core import Outcome
from sim.threads import Threads

beluga = ocps.beluga

PROPERTY = 'C15'
LEVEL = 'exploration'
RULE = ('each run: 2-4 threads. Four of five runs use the simulated solver, the threads sharing compiled problems and '
        'saving result files of their own; one of five solves 1-2 problems per thread for real with solver, steps and guess '
        'objects of its own, sharing the compiled problems (or compiling their own); a seeded scheduler passes the baton at '
        'lines of the code under test, more readily at rarely reached ones; some threads are struck by an exception; every '
        'result of the others is compared bit by bit with that of the same solve alone; non-trivial when the baton moved at '
        'least 10 times')
STATE_MEASURE = 'distinct lines at which the baton moved, per problem mix'
REAL = ['the whole of beluga, in real threads']
STUB = ['thread scheduling (seeded, at line granularity)', 'wall clock (time.time)', 'numba compilation (switched off)']
ASSUMPTIONS = ['switches happen at lines of the code under test, not inside NumPy, SciPy or SymPy']
EXPECTED_PROBES = ['light', 'light_compared', 'light_saved', 'shared_problem', 'own_symbolic', 'struck', 'compared', 'switches']
RUN_WALL = 120
SLOW_IS_NO_ANSWER = True

JOBS = [dict(problem='spring', opts={}), dict(problem='spring', method='diffyg', opts={}),
        dict(problem='brach', opts={}), dict(problem='brach_sym', method='diffyg', opts={'reduction': True}),
        dict(problem='steer', opts={}), dict(problem='tug', opts={}), dict(problem='denham', opts={}),
        dict(problem='spring', opts={'control_method': 'algebraic'})]
SCALES = ('spring', 'brach', 'tug')
SOLVERS = [('SPBVP', {})] * 6 + [('Shooting', {}), ('Shooting', {'num_arcs': 2}),
           ('Shooting', {'algorithm': 'fsolve'})]


def setup():
    for n in LIGHT:
        cs.problem(n)
    for j in JOBS[:4]:
        ocps.compiled(j['problem'], j.get('method', 'traditional'), **j['opts'])


def budget(tier):
    return {'runs': 2000, 'seconds': 75} if tier == 'quick' else {'runs': 10 ** 7, 'seconds': 1800}


def gen_job(rng):
    j = rng.randrange(len(JOBS))
    name = JOBS[j]['problem']
    s = rng.randrange(6 if name == 'denham' else len(SOLVERS))
    return {'job': j, 'solver': s, 'seed': rng.randrange(4), 'cases': rng.randint(2, 3),
            'strategy': rng.choice(['bisection', 'manual']), 'autoscale': name in SCALES and rng.random() < 0.4,
            'symbolic': name in ('spring', 'brach') and rng.random() < 0.1, 'static': rng.random() < 0.3}


def gen(rng, tier, i):
    n = rng.choice([2, 2, 2, 3, 3, 4])
    plan = {'seed': rng.randrange(10 ** 9), 'mean': rng.choice([10, 40, 150, 600]),
            'burst': rng.choice([0.0, 0.1, 0.3]), 'rare': rng.choice([0.0, 0.1, 0.4]), 'threads': []}
    if i % 5:
        return gen_light(rng, plan, n)
    same = gen_job(rng) if rng.random() < 0.5 else None
    for _ in range(n):
        jobs = []
        for _ in range(rng.randint(1, 2)):
            job = gen_job(rng)
            if same:
                job = dict(job, job=same['job'], solver=same['solver'],
                           autoscale=job['autoscale'] and JOBS[same['job']]['problem'] in SCALES,
                           symbolic=job['symbolic'] and JOBS[same['job']]['problem'] in ('spring', 'brach'))
            jobs.append(job)
        plan['threads'].append(jobs)
    if rng.random() < 0.3:
        plan['strikes'] = {str(rng.randrange(n)): int(10 ** rng.uniform(1, 4))}
    return plan


LIGHT = ['spring', 'slide', 'rocket', 'bounded', 'pusher']


def gen_light(rng, plan, n):
    plan['light'] = True
    plan['mean'] = rng.choice([3, 10, 40, 150])
    same = rng.choice(LIGHT) if rng.random() < 0.7 else None
    for _ in range(n):
        jobs = []
        for _ in range(rng.randint(1, 3)):
            p = cs.gen_plan(rng, ['manual', 'bisection', 'productspace', 'sparse_product'], max_steps=2, crash_ok=False,
                            autoscale=rng.random() < 0.6, problems=[same or rng.choice(LIGHT)])
            if rng.random() < 0.1:
                p['steps'] = None
                p['solver'] = cs.gen_solver(rng, None, crash_ok=False)
            p['save'] = rng.random() < 0.15
            jobs.append(p)
        plan['threads'].append(jobs)
    if rng.random() < 0.2:
        plan['strikes'] = {str(rng.randrange(n)): int(10 ** rng.uniform(1, 3.5))}
    return plan


def light_solve(p, path):
    prob = cs.problem(p['problem'])
    solver = cs.SimSolver(cs.Script(p['solver']), prob, Outcome(), cs.Clock(), cs.max_attempts(p['steps']))
    guess = cs.initial_guess(prob, p['guess_seed'], p['consts'])
    log = cs.RunLog()
    log.out, log.exc, log.attempts = None, None, solver.log
    bvp = prob['bvp']
    try:
        log.out = beluga.solve(autoscale=p['autoscale'], bvp=bvp, bvp_algorithm=solver, ocp=prob['ocp'],
                               guess_generator=beluga.guess_generator('static', solinit=guess), ocp_map=lambda s: s,
                               ocp_map_inverse=bvp.inv_map_sol, steps=cs.make_steps(p['steps']),
                               save_sols=path if p['save'] else False)
    except Struck:
        raise
    except Exception as e:
        log.exc = e
    log.loaded = beluga.utils.load(path)['solutions'] if p['save'] and log.exc is None else None
    return log


def run_light(plan):
    out = Outcome()
    with cs.patched_clock(cs.Clock()), np.errstate(all='ignore'), fssim.Scratch() as root:
        def name(*a):
            return os.path.join(root, '%s.beluga' % '_'.join(map(str, a)))
        want = [[light_solve(p, name('alone', i, k)) for k, p in enumerate(jobs)]
                for i, jobs in enumerate(plan['threads'])]

        def body(i, jobs):
            def f():
                with np.errstate(all='ignore'):
                    return [light_solve(p, name(i, k)) for k, p in enumerate(jobs)]
            return f
        strikes = {int(k): v for k, v in plan.get('strikes', {}).items()}
        th = Threads([body(i, j) for i, j in enumerate(plan['threads'])], plan['seed'], out, plan['mean'], plan['burst'],
                     strikes=strikes, exc=Struck, rare=plan['rare'])
        got = th.go()
    probs = [[(p['problem'], p['autoscale']) for p in jobs] for jobs in plan['threads']]
    for pt in th.points:
        out.state('light', pt)
    out.event(th.switches, th.count)
    out.probes['light'] += 1
    for i, (w, g) in enumerate(zip(want, got)):
        if i in th.struck:
            out.faults['thread_struck'] += 1
            out.event('struck', i, th.struck[i])
            continue
        if isinstance(g, BaseException):
            out.violate('disturbed', 'thread %d of %d ended with %r; alone the same solves end normally (%s)' % (
                i, len(want), g, probs))
            return out
        for k, (a, b) in enumerate(zip(w, g)):
            out.probes['light_compared'] += 1
            d = same_run(b, a)
            if d is None and b.out is not None:
                d = ocps.same(b.out, a.out)
            if d is None and b.loaded is not None:
                out.probes['light_saved'] += 1
                d = ocps.same(b.loaded, b.out)
            out.event(repr(b.exc), len(b.attempts))
            if d:
                out.violate('disturbed', 'thread %d of %d, solve %d: in company against alone: %s (%s)' % (
                    i, len(want), k, d, probs))
                return out
    out.faults['switch'] += th.switches
    out.nontrivial = th.switches >= 10
    out.note = '%s, %d switches' % (probs, th.switches)
    return out


class Struck(RuntimeError):
    pass


def as_plan(job):
    name, args = SOLVERS[job['solver']]
    return dict(JOBS[job['job']], solver=name, args=args, seed=job['seed'], cases=job['cases'],
                strategy=job['strategy'], autoscale=job['autoscale'])


def do(job):
    p = as_plan(job)
    guess = None
    if job['static']:
        guess = beluga.guess_generator('static', solinit=copy.deepcopy(_static[job['job']]))
    if job['symbolic']:
        ocp, gargs, targets = ocps.ZOO[p['problem']]()
        try:
            return beluga.solve(ocp=ocp, method=p.get('method', 'traditional'), optim_options=p['opts'],
                                bvp_algorithm=beluga.bvp_algorithm(p['solver'], **p['args']),
                                steps=ocps.steps_of(p, targets), autoscale=p['autoscale'], save_sols=False,
                                guess_generator=guess or beluga.guess_generator('auto', **gargs),
                                initial_helper=True)
        except Struck:
            raise
        except Exception as e:
            return e
    return ocps.solve(p, guess=guess)


_alone, _static = {}, {}


def alone(job):
    key = repr(sorted(job.items()))
    if key not in _alone:
        if job['job'] not in _static:
            r = ocps.solve(dict(JOBS[job['job']], solver='SPBVP', args={}, seed=0, cases=2))
            _static[job['job']] = r[-1][-1]
        _alone[key] = do(job)
    return _alone[key]


def run(plan):
    if plan.get('light'):
        return run_light(plan)
    out = Outcome()
    with cs.patched_clock(cs.Clock()), np.errstate(all='ignore'):
        want = [[alone(j) for j in jobs] for jobs in plan['threads']]
        strikes = {int(k): v for k, v in plan.get('strikes', {}).items()}

        def body(jobs):
            def f():
                with np.errstate(all='ignore'):
                    return [do(j) for j in jobs]
            return f
        th = Threads([body(j) for j in plan['threads']], plan['seed'], out, plan['mean'], plan['burst'],
                     strikes=strikes, exc=Struck, rare=plan['rare'])
        got = th.go()
    kinds = sorted({j['job'] for jobs in plan['threads'] for j in jobs})
    out.probes['shared_problem'] += len(kinds) < len(plan['threads'])
    out.probes['own_symbolic'] += any(j['symbolic'] for jobs in plan['threads'] for j in jobs)
    for pt in th.points:
        out.state(kinds, pt)
    out.event(th.switches, th.count)
    for i, (w, g) in enumerate(zip(want, got)):
        if i in th.struck:
            out.probes['struck'] += 1
            out.faults['thread_struck'] += 1
            out.event('struck', i, th.struck[i])
            continue
        if isinstance(g, BaseException):
            out.violate('disturbed', 'thread %d of %d ended with %r; alone the same solves end normally (%s)' % (
                i, len(want), g, describe(plan)))
            return out
        for k, (a, b) in enumerate(zip(w, g)):
            out.probes['compared'] += 1
            d = ocps.same(b, a)
            out.event(ocps.digest(b))
            if d:
                out.violate('disturbed', 'thread %d of %d, solve %d: in company against alone: %s (%s)' % (
                    i, len(want), k, d, describe(plan)))
                return out
    out.faults['switch'] += th.switches
    out.nontrivial = th.switches >= 10
    out.note = '%s, %d switches' % (describe(plan), th.switches)
    return out


def describe(plan):
    return '; '.join(', '.join('%s %s' % (JOBS[j['job']], SOLVERS[j['solver']]) for j in jobs) for jobs in plan['threads'])


def shrink(plan):
    th = plan['threads']
    for i in range(len(th)):
        if len(th) > 2:
            yield dict(plan, threads=th[:i] + th[i + 1:])
        if len(th[i]) > 1:
            yield dict(plan, threads=th[:i] + [th[i][:1]] + th[i + 1:])
            yield dict(plan, threads=th[:i] + [th[i][1:]] + th[i + 1:])
    if plan.get('strikes'):
        yield {k: v for k, v in plan.items() if k != 'strikes'}
    if plan.get('light'):
        for i, jobs in enumerate(th):
            for k, p in enumerate(jobs):
                for q in cs.shrink_plan(p):
                    yield dict(plan, threads=th[:i] + [jobs[:k] + [q] + jobs[k + 1:]] + th[i + 1:])
        for mean in (150, 40, 10):
            if plan['mean'] < mean:
                yield dict(plan, mean=mean)
        return
    for i, jobs in enumerate(th):
        for k, j in enumerate(jobs):
            for simpler in ({'symbolic': False}, {'static': False}, {'autoscale': False}, {'cases': 2}, {'solver': 0}):
                n = dict(j, **simpler)
                if n != j:
                    yield dict(plan, threads=th[:i] + [jobs[:k] + [n] + jobs[k + 1:]] + th[i + 1:])
    for mean in (600, 150):
        if plan['mean'] < mean:
            yield dict(plan, mean=mean)
    if plan['burst']:
        yield dict(plan, burst=0.0)
