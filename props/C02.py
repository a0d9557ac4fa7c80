"""Bisection recovers from failed cases by even subdivision, within its limit, and ends once failures stop."""
from sim import contsim as cs
from props._cont import setup, run_follow

PROPERTY = 'C02'
LEVEL = 'exploration'
RULE = ('each run: 1-2 chained bisection steps with random case counts, num_divisions, max_divisions, linear or log '
        'spacing, against isolated failures, bursts of consecutive failures around the limit, random failure rates or a '
        'finite convergence radius; non-trivial when at least one attempt failed')
STATE_MEASURE = 'distinct (step, attempt number, outcome, constants, consecutive failures) tuples'
REAL, STUB = cs.REAL, cs.STUB
ASSUMPTIONS = ['"more than max_divisions consecutive divisions" is taken literally: max_divisions + 1 failed divisions in '
               'a row end the step']
EXPECTED_PROBES = ['divided_and_finished', 'division_limit_reached', 'budget_renewed']


def budget(tier):
    return {'runs': 6000, 'seconds': 45} if tier == 'quick' else {'runs': 10 ** 7, 'seconds': 1200}


def gen(rng, tier, i):
    if i % 61 == 40:
        return cs.gen_long(rng, ['bisection'])
    plan = cs.gen_plan(rng, ['bisection'], max_steps=2, crash_ok=False)
    if rng.random() < 0.5:
        # aim at the limit: bursts whose lengths straddle max_divisions, separated by single successes
        sp = plan['steps'][0]
        lim = sp.get('max_divisions', 10)
        fails, at = set(), rng.randint(1, 3)
        for _ in range(rng.randint(1, 4)):
            ln = max(1, lim + rng.choice([-1, 0, 0, 0, 1, 2]))
            fails.update(range(at, at + ln))
            at += ln + rng.randint(1, 3)
        plan['solver']['fail'] = sorted(fails)
        plan['solver'].pop('basin', None)
    return plan


def run(plan):
    out, log, info = run_follow(plan, ('bisect', 'early', 'silent', 'extra', 'raised', 'target'))
    run_ = burst = total = 0
    for a in log.attempts:
        if a.get('ok'):
            run_ = 0
        else:
            run_ += 1
            total += 1
            burst = max(burst, run_)
    if log.exc is None and total > plan['steps'][0].get('max_divisions', 10) + 1:
        out.probes['budget_renewed'] += 1
    return out


def shrink(plan):
    return cs.shrink_plan(plan)
