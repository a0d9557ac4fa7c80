"""Continuation reaches its target through every requested case, or says that it failed."""
import numpy as np

from sim import contsim as cs
from sim.core import Outcome

PROPERTY = 'C01'
LEVEL = 'exploration'
RULE = ('each run: 1-3 chained manual/bisection steps over 0-3 constants with random spacing, counts and limits, driven '
        'by a solver whose convergence pattern, exceptions, garbage answers and buffer behaviour are drawn from the '
        'seed; non-trivial when at least one attempt failed or more than two attempts were made')
STATE_MEASURE = 'distinct (step, strategy, attempt number, outcome, constants, consecutive failures) tuples'
REAL, STUB = cs.REAL, cs.STUB
ASSUMPTIONS = ['spacing is linear or log (log between positive values)', 'target values are compared to 1e-9 relative']
EXPECTED_PROBES = ['ended_by_error', 'completed', 'divided_and_finished', 'single_case']


def setup():
    cs.problem('spring'), cs.problem('slide')


def budget(tier):
    return {'runs': 6000, 'seconds': 45} if tier == 'quick' else {'runs': 10 ** 7, 'seconds': 1200}


def gen(rng, tier, i):
    if i % 61 == 40:
        return cs.gen_long(rng, ['manual', 'bisection', 'bisection'])
    return cs.gen_plan(rng, ['manual', 'bisection', 'bisection'])


def run(plan):
    out = Outcome()
    clock = cs.Clock()
    log = cs.execute(plan, out, clock)
    out.sim_time = clock.total
    if isinstance(log.exc, cs.StepBudget):
        out.violate('endless', 'still attempting after %d attempts' % len(log.attempts))
        return out
    judge(plan, log, out)
    prob = cs.problem(plan['problem'])
    # walk the reference model as well: an ending the model calls premature, silent or superfluous
    probe = Outcome()
    cs.follow(plan, log, probe)
    for cls, msg, key in probe.violations:
        if cls in ('early', 'silent', 'extra', 'raised', 'target', 'const'):
            out.violate(cls, msg, key)
    out.states |= probe.states
    out.probes.update(probe.probes)
    out.nontrivial = len(log.attempts) > 2 or any(not a.get('ok') for a in log.attempts)
    out.note = '%d attempts, %s' % (len(log.attempts), 'completed' if log.exc is None else repr(log.exc))
    out.event('end', repr(log.exc), len(log.attempts))
    return out


def judge(plan, log, out):
    """Black-box: only the plan, what the solver reported, and what solve() returned or raised."""
    prob = cs.problem(plan['problem'])
    names = prob['names']
    atts = log.attempts
    all_ok = all(a.get('ok') for a in atts)
    if log.exc is not None:
        out.probes['ended_by_error'] += 1
        if all_ok:
            out.violate('raised', 'every attempt converged, yet solve raised %r' % (log.exc,))
        return
    out.probes['completed'] += 1
    if any(a['crash'] for a in atts):
        out.violate('silent', 'the solver raised, yet solve returned normally')
        return
    res = log.out
    if not isinstance(res, list) or len(res) != len(plan['steps']):
        out.violate('shape', 'solve returned %r steps, %d requested' % (
            len(res) if hasattr(res, '__len__') else res, len(plan['steps'])))
        return
    const = log.guess_before['const'].copy()
    for si, (sp, sols) in enumerate(zip(plan['steps'], res)):
        if sp['n'] == 1:
            out.probes['single_case'] += 1
        idx = [names.index(n) for n, _ in sp['vars']]
        if not sols:
            out.violate('empty', 'step %d returned no solution' % si)
            return
        last = sols[-1]
        want = const.copy()
        for j, (_, t) in zip(idx, sp['vars']):
            want[j] = t
        if not last.converged:
            out.violate('silent', 'step %d ended on a solution that did not converge' % si)
        if not cs.vclose(last.const, want):
            out.violate('target', 'step %d ended at constants %s, its target is %s' % (
                si, dict(zip(names, map(float, last.const))), dict(zip(names, map(float, want)))))
        cols = [cs.spaced(const[j], float(t), sp['n'], sp.get('spacing', 'linear')) for j, (_, t) in
                zip(idx, sp['vars'])]
        pos = 0
        for c in range(sp['n']):
            case = [col[c] for col in cols]
            while pos < len(sols) and not (sols[pos].converged and all(
                    cs.close(float(sols[pos].const[j]), v) for j, v in zip(idx, case))):
                pos += 1
            if pos == len(sols):
                out.violate('case', 'step %d: case %d/%d at %s was not solved in its turn' % (si, c + 1, sp['n'], case))
                break
            pos += 1
        if sp['strategy'] == 'manual' and not all(s.converged for s in sols):
            out.violate('silent', 'manual step %d contains a failed case but solve returned' % si)
        const = want


def shrink(plan):
    return cs.shrink_plan(plan)
