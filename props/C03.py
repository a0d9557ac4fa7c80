"""Every attempt starts from the nearest converged solution of its step, with exactly the constants of its case."""
from sim import contsim as cs
from props._cont import setup, run_follow

PROPERTY = 'C03'
LEVEL = 'exploration'
RULE = ('each run: 1-3 chained steps of all four strategies; failures drawn so that the nearest solution is often not '
        'the latest one; non-trivial when some attempt failed or the nearest solution was not the latest')
STATE_MEASURE = 'distinct (step, strategy, attempt number, outcome, constants) tuples'
REAL, STUB = cs.REAL, cs.STUB
ASSUMPTIONS = ['distance is the sum of absolute differences of the constants; equidistant solutions are all accepted',
               'what a step starts from after a grid step whose last case failed is not specified']
EXPECTED_PROBES = ['nearest_is_not_latest', 'equidistant_guesses', 'grid_case_failed_and_went_on']


def budget(tier):
    return {'runs': 5000, 'seconds': 45} if tier == 'quick' else {'runs': 10 ** 7, 'seconds': 1200}


def gen(rng, tier, i):
    if i % 61 == 40:
        return cs.gen_long(rng, ['bisection', 'productspace', 'sparse_product', 'sparse_product'])
    return cs.gen_plan(rng, ['manual', 'bisection', 'productspace', 'sparse_product', 'sparse_product'])


def run(plan):
    out, log, info = run_follow(plan, ('guess', 'const'))
    out.nontrivial = out.nontrivial or bool(out.probes['nearest_is_not_latest'])
    return out


def shrink(plan):
    return cs.shrink_plan(plan)
