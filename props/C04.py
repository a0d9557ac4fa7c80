"""Grid continuations attempt every grid case exactly once, whatever fails on the way."""
from sim import contsim as cs
from props._cont import setup, run_follow

PROPERTY = 'C04'
LEVEL = 'exploration'
RULE = ('each run: 1-2 chained productspace/sparse_product steps over 1-3 constants, with isolated, bursty, random or '
        'distance-dependent failures and solver exceptions; non-trivial when at least one attempt failed')
STATE_MEASURE = 'distinct (step, strategy, attempt number, outcome, constants) tuples'
REAL, STUB = cs.REAL, cs.STUB
ASSUMPTIONS = ['at least two grid values per constant', 'the order of visits is free except that the starting case is '
               'the first, because its failure ends the step with an error']
EXPECTED_PROBES = ['grid_case_failed_and_went_on', 'first_case_failed']


def budget(tier):
    return {'runs': 5000, 'seconds': 45} if tier == 'quick' else {'runs': 10 ** 7, 'seconds': 1200}


def gen(rng, tier, i):
    if i % 61 == 40:
        return cs.gen_long(rng, ['productspace', 'sparse_product'])
    plan = cs.gen_plan(rng, ['productspace', 'sparse_product'], max_steps=2)
    if rng.random() < 0.1:
        plan['solver']['fail'] = sorted(set(plan['solver']['fail']) | {0})
    return plan


def run(plan):
    out, log, info = run_follow(plan, ('grid', 'early', 'silent', 'extra', 'raised', 'const'))
    if log.attempts and log.attempts[0].get('ok') is False:
        out.probes['first_case_failed'] += 1
    # what is returned says, for every grid case, whether it was solved
    if log.exc is None and info is not None and (info.get('completed') or 'unspecified_from' in info):
        if len(log.out) != len(plan['steps']):
            out.violate('shape', 'solve returned %d steps, %d requested' % (len(log.out), len(plan['steps'])))
        else:
            for si, (rec, sols) in enumerate(zip(info['per_step'], log.out)):
                if [bool(s.converged) for s in sols] != [bool(a['ok']) for a in rec['attempts']]:
                    out.violate('grid', 'step %d: the convergence flags returned for its %d cases are %s, the solver '
                                'reported %s' % (si, len(rec['attempts']), [bool(s.converged) for s in sols],
                                                 [bool(a['ok']) for a in rec['attempts']]))
                elif not all(cs.vclose(s.const, a['want']) for s, a in zip(sols, rec['attempts'])):
                    out.violate('grid', 'step %d: the constants returned differ from those attempted' % si)
    return out


def shrink(plan):
    return cs.shrink_plan(plan)
