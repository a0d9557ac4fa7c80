"""A solve gives back its workers and closes its algorithm however it ends."""
import os
import shutil
import tempfile

import numpy as np

from sim import contsim as cs, pool as simpool, ocps, interrupt
from sim.core import Outcome

beluga = cs.beluga
PROPERTY = 'C09'
LEVEL = 'exploration'
RULE = ('each run: a solve on 1-4 workers whose algorithm uses the pool, ended in one of: completion, failed '
        'continuation, exception or Ctrl-C in the solver or while waiting for workers, at any line of the real shooting '
        'code, exception in a worker, in the guess, in a step, in the back-mapping or the saving, failing pool '
        'creation; non-trivial when it did not simply complete')
STATE_MEASURE = 'distinct (way the solve ended, workers, attempts made, tasks run) tuples'
REAL = ['beluga.solve', 'beluga.continuation', 'beluga.numeric.bvp_solvers.Shooting (part of the runs)', 'beluga.utils.save']
STUB = ['pathos worker pool (simulated, forked workers)', 'BVP solver scripted in most runs', 'clock']
ASSUMPTIONS = ['interrupts arrive while a solver, worker, guess or save is running, not between two statements of '
               'beluga.solve itself']
EXPECTED_PROBES = ['completed', 'continuation_failed', 'solver_raised', 'solver_interrupted', 'interrupted_in_map',
                   'worker_raised', 'guess_raised', 'bad_step', 'inv_map_raised', 'save_failed', 'pool_creation_failed',
                   'serial', 'line_interrupt', 'real_shooting']
RUN_WALL = 100


def setup():
    cs.problem('spring')
    ocps.compiled('spring')


def budget(tier):
    return {'runs': 1400, 'seconds': 75} if tier == 'quick' else {'runs': 10 ** 7, 'seconds': 1500}


def gen(rng, tier, i):
    if i % 21 == 7:
        return {'kind': 'real', 'problem': 'spring', 'seed': rng.randrange(10 ** 6), 'workers': rng.randint(2, 3),
                'arcs': rng.choice([1, 2]), 'cases': 2, 'strategy': 'bisection', 'autoscale': rng.random() < 0.5,
                'at': rng.choice([None, 1, 1, 1]) and int(10 ** rng.uniform(0.5, 4.6)),
                'inject': rng.choice([None, None, rng.randrange(40)])}
    plan = cs.gen_plan(rng, ['manual', 'bisection', 'productspace'], max_steps=2, problems=['spring'])
    plan['kind'] = 'script'
    plan['workers'] = rng.choice([1, 2, 2, 3, 4])
    plan['seed'] = rng.randrange(10 ** 6)
    plan['solver']['use_pool'] = rng.randint(1, 5)
    est = sum(cs.est_attempts(s) for s in plan['steps'])
    end = rng.choice(['none', 'fail', 'crash', 'interrupt', 'map_interrupt', 'map_error', 'task', 'guess', 'bad_step',
                      'inv_map', 'save', 'create', 'save_ok'])
    plan['end'] = end
    n = rng.randrange(min(est, 8) + 1)
    if end == 'fail':
        plan['solver']['fail'] = sorted(set(plan['solver']['fail']) | set(range(n, n + 40)))
    elif end in ('crash', 'interrupt'):
        plan['solver'][end] = n
    elif end == 'map_interrupt':
        plan['map_faults'] = {str(n): 'interrupt'}
    elif end == 'map_error':
        plan['map_faults'] = {str(n): 'oserror'}
    elif end == 'task':
        plan['inject'] = {str(n * plan['solver']['use_pool']): 'raise'}
    elif end == 'bad_step':
        plan['bad_at'] = rng.randrange(len(plan['steps']))
    return plan


def shrink(plan):
    if plan['kind'] == 'real':
        for k, v in (('workers', 2), ('arcs', 1), ('autoscale', False), ('at', None), ('inject', None)):
            if plan[k] != v:
                yield dict(plan, **{k: v})
        return
    if plan['workers'] > 2:
        yield dict(plan, workers=2)
    for p in cs.shrink_plan(plan):
        yield p


def judge(out, ctl, plan, closed, after_close, ended, started):
    what = 'the solve on %d workers ended with %s' % (plan['workers'], ended)
    for p in ctl.pools:
        if p.state == simpool.RUN:
            out.violate('pool_leaked', '%s but its worker pool is still running' % what)
            break
    if any(p.used_after_close for p in ctl.pools):
        out.violate('used_after_close', '%s: tasks were sent to a closed pool' % what)
    if started and not closed:
        out.violate('algorithm_open', '%s but the algorithm was not closed' % what)
    if after_close:
        out.violate('solve_after_close', '%s: the algorithm was used after it was closed' % what)
    if plan['workers'] == 1 and ctl.pools:
        out.violate('pool_unasked', '%s: a worker pool was created for n_cpus=1' % what)
    if len(ctl.pools) > 1 or any(p.size > plan['workers'] for p in ctl.pools):
        out.violate('too_many_workers', '%s: %s workers were created' % (what, [p.size for p in ctl.pools]))


def run(plan):
    out = Outcome()
    with np.errstate(all='ignore'):
        (run_real if plan['kind'] == 'real' else run_script)(plan, out)
    return out


def run_script(plan, out):
    clock = cs.Clock()
    prob = cs.problem(plan['problem'])
    steps = cs.make_steps(plan['steps'])
    scratch = None
    kw = {}
    if plan['end'] == 'guess':
        g0 = cs.initial_guess(prob, plan.get('guess_seed', 0), plan.get('consts'))

        class Gen:
            def generate(self, *a):
                out.faults['guess_raises'] += 1
                raise cs.CRASHES[plan['solver'].get('crash_kind', 'plain')]()
        kw = {'gen': Gen(), 'guess': g0}
    elif plan['end'] == 'bad_step':
        steps[plan['bad_at'] % len(steps)].const('no_such_constant', 1.0)
        out.faults['bad_step'] += 1
    elif plan['end'] == 'inv_map':
        def inv(sol):
            out.faults['inv_map_raises'] += 1
            raise cs.CRASHES[plan['solver'].get('crash_kind', 'plain')]()
        kw['inv_map'] = inv
    elif plan['end'] in ('save', 'save_ok'):
        scratch = tempfile.mkdtemp(prefix='c09')
        kw['save_sols'] = os.path.join(scratch, 'no', 'such', 'dir') if plan['end'] == 'save' \
            else os.path.join(scratch, 'ok')
    ctlplan = {'seed': plan['seed'], 'inject': plan.get('inject', {}), 'map_faults': plan.get('map_faults', {}),
               'fail_create': plan['end'] == 'create'}
    try:
        with simpool.Controller(ctlplan, out, clock) as ctl:
            log = cs.execute(plan, out, clock, steps=steps, n_cpus=plan['workers'], **kw)
            e = log.exc
            ended = 'results' if e is None else repr(e)[:200]
            solver = log.solver
            started = bool(solver.log)
            out.sim_time += clock.total
            judge(out, ctl, plan, solver.closed, solver.solves_after_close, ended, started)
            pools = [id(p) for p in solver.pools_seen if p is not None]
            if plan['workers'] > 1 and started and (len(pools) != len(solver.pools_seen) or len(set(pools)) > 1):
                out.violate('pool_not_used', 'n_cpus=%d but not every attempt was given the pool' % plan['workers'])
            if not solver.tasks_ok:
                out.violate('map_order', 'results of the workers came back in another order than the tasks')
    finally:
        if scratch:
            shutil.rmtree(scratch, ignore_errors=True)
    # a failure is reported as what it is
    name = type(e).__name__
    if out.faults['solver_raises'] and not isinstance(e, cs.SolverCrash):
        out.violate('masked', 'the solver raised but the solve ended with %s' % ended)
    elif out.faults['interrupt_in_solver'] and not isinstance(e, cs.SolverInterrupt):
        out.violate('masked', 'Ctrl-C in the solver but the solve ended with %s' % ended)
    elif (out.faults['guess_raises'] or out.faults['inv_map_raises']) and not isinstance(e, cs.SolverCrash):
        out.violate('masked', 'the guess or the mapping raised but the solve ended with %s' % ended)
    elif out.faults['interrupt_in_map'] and not isinstance(e, KeyboardInterrupt):
        out.violate('masked', 'Ctrl-C while waiting for workers but the solve ended with %s' % ended)
    elif out.faults['worker_task_raises'] and not isinstance(e, MemoryError):
        out.violate('masked', 'a task raised MemoryError in its worker but the solve ended with %s' % ended)
    elif (out.faults['map_fails'] or out.faults['pool_creation_fails']) and not isinstance(e, OSError):
        out.violate('masked', 'the pool failed with OSError but the solve ended with %s' % ended)
    elif plan['end'] == 'save' and e is None:
        out.violate('masked', 'saving was impossible but the solve returned normally')
    for probe, cond in (('completed', e is None), ('serial', plan['workers'] == 1),
                        ('continuation_failed', isinstance(e, RuntimeError)),
                        ('solver_raised', out.faults['solver_raises']),
                        ('solver_interrupted', out.faults['interrupt_in_solver']),
                        ('interrupted_in_map', out.faults['interrupt_in_map']),
                        ('worker_raised', out.faults['worker_task_raises']),
                        ('guess_raised', out.faults['guess_raises']), ('bad_step', out.faults['bad_step']),
                        ('inv_map_raised', out.faults['inv_map_raises']),
                        ('save_failed', plan['end'] == 'save' and isinstance(e, OSError)),
                        ('pool_creation_failed', out.faults['pool_creation_fails'])):
        if cond:
            out.probes[probe] += 1
    out.state(name, plan['workers'], len(solver.log), ctl.ntasks)
    out.nontrivial = e is not None




def watched(args):
    from beluga.numeric.bvp_solvers import Shooting

    class WatchedShooting(Shooting):
        closed = 0
        started = 0
        after = 0

        def solve(self, *a, **k):
            type(self).started += 1
            type(self).after += type(self).closed
            return Shooting.solve(self, *a, **k)

        def close(self):
            type(self).closed += 1
            return Shooting.close(self)

    return WatchedShooting(**args)


def run_real(plan, out):
    clock = cs.Clock()
    n = plan['at']
    algo = watched({'num_arcs': plan['arcs']})
    inject = {} if plan['inject'] is None else {str(plan['inject']): 'raise'}
    with cs.patched_clock(clock), simpool.Controller({'seed': plan['seed'], 'inject': inject}, out, clock) as ctl:
        try:
            if plan['at'] is not None:
                with interrupt.LineInterrupt(n) as li:
                    res = ocps.solve(plan, n_cpus=plan['workers'], algo=algo)
                    ended = repr(res)[:100] if isinstance(res, Exception) else 'results'
            else:
                res = ocps.solve(plan, n_cpus=plan['workers'], algo=algo)
                ended = repr(res)[:100] if isinstance(res, Exception) else 'results'
        except KeyboardInterrupt:
            ended = 'KeyboardInterrupt'
            res = None
        if plan['at'] is not None and li.fired:
            out.faults['interrupt_at_line'] += 1
            out.probes['line_interrupt'] += 1
            out.event('interrupted', li.fired, li.count)
            if ended != 'KeyboardInterrupt':
                out.violate('masked', 'Ctrl-C in %s.%s but the solve ended with %s' % (li.fired + (ended,)))
        elif out.faults['worker_task_raises'] and not isinstance(res, MemoryError):
            out.violate('masked', 'a task raised MemoryError in its worker but the solve ended with %s' % ended)
        judge(out, ctl, plan, type(algo).closed, type(algo).after, ended, type(algo).started)
        out.probes['real_shooting'] += 1
        out.state('real', ended, plan['workers'], ctl.ntasks)
    out.nontrivial = ended != 'results'
