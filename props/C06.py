"""The results are a faithful record of what the solver answered."""
import copy
import numpy as np

from sim import contsim as cs
from props.C05 import scribble
from sim.core import Outcome

PROPERTY = 'C06'
LEVEL = 'exploration'
RULE = ('each run: a chain of steps of any strategy, or no steps at all, with failures, garbage answers, reused or '
        'overwritten solver buffers and an in-place result mapping; afterwards the solver scribbles over its buffers and '
        'the caller over the results one by one; non-trivial when some attempt failed or buffers were shared')
STATE_MEASURE = 'distinct (strategy, attempts per step, convergence pattern) tuples'
REAL, STUB = cs.REAL, cs.STUB
ASSUMPTIONS = ['with autoscaling, agreement to 1e-9 relative per value; without, bit by bit']
EXPECTED_PROBES = ['failed_case_in_results', 'no_steps', 'no_steps_diverged', 'buffers_shared']


def setup():
    cs.problem('spring'), cs.problem('slide')


def budget(tier):
    return {'runs': 5000, 'seconds': 60} if tier == 'quick' else {'runs': 10 ** 7, 'seconds': 1200}


def gen(rng, tier, i):
    if i % 61 == 40:
        return cs.gen_long(rng, ['manual', 'bisection', 'productspace', 'sparse_product'])
    plan = cs.gen_plan(rng, ['manual', 'bisection', 'bisection', 'productspace', 'sparse_product', 'sparse_product'],
                       crash_ok=False)
    if rng.random() < 0.12:
        plan['steps'] = None
        plan['solver'] = cs.gen_solver(rng, None, crash_ok=False)
        if rng.random() < 0.5:
            plan['solver']['fail'] = [0]
    return plan


def run(plan):
    out = Outcome()
    clock = cs.Clock()
    mapped = []

    def inverse(sol):
        # like the real maps: may work in place, and must be applied exactly once to each result
        sol.y = sol.y * 2.
        sol.cost = getattr(sol, 'cost', 0.)
        mapped.append(sol)
        return sol

    log = cs.execute(plan, out, clock, inv_map=inverse)
    out.sim_time = clock.total
    out.note = '%d attempts, %s' % (len(log.attempts), 'completed' if log.exc is None else repr(log.exc))
    out.event('end', repr(log.exc), len(log.attempts))
    if isinstance(log.exc, cs.StepBudget):
        out.violate('endless', 'still attempting after %d attempts' % len(log.attempts))
        return out
    if log.exc is not None:
        return out
    limit = len(log.attempts)
    if plan['steps'] is None:
        out.probes['no_steps'] += 1
        groups = [[{'k': 0, 'ok': log.attempts[0]['ok']}]] if log.attempts else [[]]
        if log.attempts and not log.attempts[0]['ok']:
            out.probes['no_steps_diverged'] += 1
        want_shape = [1]
    else:
        probe = Outcome()
        info = cs.follow(plan, log, probe)
        if probe.violations:
            # not this property's business (C01-C04), but the record is then compared as one sequence
            groups = None
        else:
            groups = [rec['attempts'] for rec in info['per_step']]
            if 'unspecified_from' in info:
                # the step after a grid whose last case failed starts from a diverged, possibly infinite trajectory;
                # what scaling makes of that is not specified
                groups = None
                if plan['autoscale']:
                    limit = sum(len(rec['attempts']) for rec in info['per_step'])
    if not isinstance(log.out, list) or any(not isinstance(s, list) for s in log.out):
        out.violate('shape', 'the result is not a list of lists: %r' % type(log.out))
        return out
    nsteps = 1 if plan['steps'] is None else len(plan['steps'])
    if len(log.out) != nsteps:
        out.violate('shape', '%d groups of results for %d steps' % (len(log.out), nsteps))
        return out
    flat = [t for s in log.out for t in s]
    if len(flat) != len(log.attempts):
        out.violate('shape', '%d results for %d attempts' % (len(flat), len(log.attempts)))
        return out
    if groups is not None and [len(s) for s in log.out] != [len(g) for g in groups]:
        out.violate('shape', 'results per step %s, attempts per step %s' % (
            [len(s) for s in log.out], [len(g) for g in groups]))
        return out
    if len(mapped) != len(flat):
        out.violate('map', 'the result mapping was applied %d times to %d results' % (len(mapped), len(flat)))
        return out
    d = plan['solver']
    shared = d.get('buffers') in ('reuse', 'input') or d.get('mutate')
    out.nontrivial = shared or any(not a['ok'] for a in log.attempts)
    if shared:
        out.probes['buffers_shared'] += 1
    out.state(nsteps, [len(s) for s in log.out], [a['ok'] for a in log.attempts])

    def check(when, skip=()):
        for k, (t, a) in enumerate(zip(flat, log.attempts)):
            if k in skip or k >= limit:
                continue
            s = cs.snap(t)
            want = {f: np.asarray(a['answer'][f]) for f in cs.FIELDS}
            want['y'] = want['y'] * 2.
            if s['converged'] != bool(a['ok']):
                return out.violate('flag', '%s: result %d says converged=%s, the solver said %s' % (
                    when, k, s['converged'], a['ok']))
            if not a['ok']:
                out.probes['failed_case_in_results'] += 1
            if plan['autoscale']:
                if a['ok'] and not cs.proportional(s, want):
                    return out.violate('record', '%s: result %d is not the answer to attempt %d' % (when, k, k))
            else:
                for f in cs.FIELDS:
                    x, y = s[f], want[f]
                    if x.size == 0 and y.size == 0:
                        continue
                    if x.shape != y.shape or not np.array_equal(x, y, equal_nan=True):
                        return out.violate('record', '%s: result %d differs from the answer to attempt %d in %s: %s '
                                           'against %s' % (when, k, k, f, x.tolist(), y.tolist()))

    check('on return')
    if plan['steps'] is not None and log.solver.buffer is not None and not out.violations:
        scribble(log.solver.buffer)
        check('after the solver reused its buffers')
    if not out.violations:
        done = []
        for k, t in enumerate(flat[:6]):
            scribble(t)
            done.append(k)
            check('after the caller changed results %s' % done, done)
            if out.violations:
                break
    return out


def shrink(plan):
    if plan['steps'] is None:
        for d in cs.shrink_solver(plan['solver']):
            yield dict(plan, solver=d)
        if plan['autoscale']:
            yield dict(plan, autoscale=False)
        return
    yield from cs.shrink_plan(plan)
