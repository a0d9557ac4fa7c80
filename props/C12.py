"""After Ctrl-C or an error at any point of a real solve, retrying with the same objects is like starting afresh."""
import copy

import numpy as np

from sim import ocps, interrupt, contsim as cs
from sim.core import Outcome

beluga = ocps.beluga
PROPERTY = 'C12'
LEVEL = 'exploration'
RULE = ('each run: a real solve (shooting or collocation, with and without scaling, given or generated guess, symbolic '
        'processing included in part of the runs) is struck at 1-3 seeded lines of beluga code by Ctrl-C, MemoryError or '
        'FloatingPointError, retried with the same problem, steps, guess and algorithm objects, and finally run '
        'undisturbed; that last solve must give bit for bit what fresh objects give; non-trivial when an interruption '
        'struck')
STATE_MEASURE = 'distinct (configuration, file and function struck, exception) tuples'
REAL = ['beluga.solve, continuation, guess generation, Shooting, SPBVP, propagation, generated functions', 'scipy']
STUB = ['arrival of Ctrl-C and exceptions: raised at the n-th executed line']
ASSUMPTIONS = ['interruptions strike between two lines of beluga code', 'numba compilation off (pure Python functions)']
EXPECTED_PROBES = ['struck', 'struck_in_shooting', 'struck_in_continuation', 'struck_in_guess', 'struck_in_symbolic',
                   'struck_in_spbvp', 'struck_twice', 'not_reached', 'swallowed']
RUN_WALL = 150

CONFIGS = [
    {'problem': 'spring', 'solver': 'Shooting', 'args': {}, 'autoscale': True},
    {'problem': 'spring', 'solver': 'Shooting', 'args': {'num_arcs': 2, 'algorithm': 'fsolve'}, 'autoscale': False},
    {'problem': 'spring', 'solver': 'SPBVP', 'args': {}, 'autoscale': True},
    {'problem': 'spring', 'solver': 'SPBVP', 'args': {}, 'autoscale': False, 'static': True, 'strategy': 'productspace'},
    {'problem': 'brach', 'solver': 'Shooting', 'args': {}, 'autoscale': True},
    {'problem': 'brach', 'solver': 'SPBVP', 'args': {}, 'autoscale': True, 'strategy': 'manual'},
    {'problem': 'spring', 'solver': 'SPBVP', 'args': {}, 'autoscale': True, 'symbolic': True, 'cases': 2},
    {'problem': 'spring', 'solver': 'Shooting', 'args': {}, 'autoscale': False, 'static': True},
]
EXCS = {'interrupt': interrupt.Interrupted, 'memory': MemoryError, 'float': FloatingPointError}
_ref = {}


def setup():
    for c in CONFIGS:
        ocps.compiled(c['problem'])


def budget(tier):
    return {'runs': 700, 'seconds': 80} if tier == 'quick' else {'runs': 10 ** 7, 'seconds': 2400}


def gen(rng, tier, i):
    c = rng.choice([0, 1, 2, 2, 2, 2, 3, 3, 3, 3, 4, 5, 5, 5, 6, 6, 6, 7])
    return {'config': c, 'seed': rng.randrange(3),
            'hits': [{'at': rng.choice([rng.random(), rng.random() ** 4]), 'exc': rng.choice(
                ['interrupt', 'interrupt', 'interrupt', 'memory', 'float'])} for _ in range(rng.choice([1, 1, 2, 3]))]}


def shrink(plan):
    for j in range(len(plan['hits'])):
        if len(plan['hits']) > 1:
            yield dict(plan, hits=plan['hits'][:j] + plan['hits'][j + 1:])
    for j, h in enumerate(plan['hits']):
        if h['exc'] != 'interrupt':
            yield dict(plan, hits=plan['hits'][:j] + [dict(h, exc='interrupt')] + plan['hits'][j + 1:])
    if plan['seed']:
        yield dict(plan, seed=0)


class Objects:
    """Everything the caller holds on to."""

    def __init__(self, conf, seed):
        self.conf = dict(conf, seed=seed)
        self.conf.setdefault('cases', 3)
        name = conf['problem']
        self.ocp, gargs, targets = ocps.ZOO[name]()
        self.targets = targets
        self.bvp = None if conf.get('symbolic') else copy.deepcopy(ocps.compiled(name)[1])
        self.algo = beluga.bvp_algorithm(conf['solver'], **conf['args'])
        self.static = None
        if conf.get('static'):
            self.static = copy.deepcopy(static_guess(name))
            self.guess = beluga.guess_generator('static', solinit=self.static)
        else:
            self.guess = beluga.guess_generator('auto', **gargs)
        self.steps = steps(self.conf, targets)
        self.before = None if self.static is None else cs.snap(self.static)

    def solve(self):
        kw = {}
        if self.bvp is not None:
            kw = dict(bvp=self.bvp, ocp_map=self.bvp.map_sol, ocp_map_inverse=self.bvp.inv_map_sol)
        return beluga.solve(ocp=self.ocp, bvp_algorithm=self.algo, steps=self.steps, guess_generator=self.guess,
                            autoscale=self.conf['autoscale'], initial_helper=True, save_sols=False, **kw)


def steps(conf, targets):
    if conf.get('strategy') == 'productspace':
        st = beluga.init_continuation()
        s = st.add_step('productspace').num_subdivisions(2)
        for c in sorted(targets):
            s.const(c, targets[c][0] + 0.1 * conf['seed'])
        return st
    return ocps.steps_of(conf, targets)


_static = {}


def static_guess(name):
    """A trajectory in the form of the optimal control problem, as a user would have loaded it from a file."""
    if name not in _static:
        plan = {'problem': name, 'seed': 0, 'cases': 2, 'solver': 'SPBVP', 'args': {}}
        _static[name] = ocps.solve(plan)[0][0]
    return _static[name]


def reference(c, seed):
    if (c, seed) not in _ref:
        with interrupt.LineInterrupt(None, parts=('beluga/',)) as li:
            res = Objects(CONFIGS[c], seed).solve()
        _ref[c, seed] = (res, li.count)
    return _ref[c, seed]


def run(plan):
    out = Outcome()
    with np.errstate(all='ignore'):
        ref, total = reference(plan['config'], plan['seed'])
        obj = Objects(CONFIGS[plan['config']], plan['seed'])
        told = []
        for h in plan['hits']:
            n = 1 + int(h['at'] * (total - 1))
            li = interrupt.LineInterrupt(n, parts=('beluga/',), exc=EXCS[h['exc']])
            try:
                with li:
                    res = obj.solve()
                ended = 'results'
            except KeyboardInterrupt:
                ended = 'KeyboardInterrupt'
            except Exception as e:
                ended = type(e).__name__
            if li.fired is None:
                out.probes['not_reached'] += 1
                d = ocps.same(ref, res) if ended == 'results' else 'it ended with %s' % ended
                if d:
                    out.violate('rerun', 'configuration %d after %s, not struck: %s' % (plan['config'], told, d))
                continue
            out.faults[h['exc']] += 1
            out.probes['struck'] += 1
            for part, probe in (('Shooting', 'struck_in_shooting'), ('continuation.py', 'struck_in_continuation'),
                                ('guess_generators', 'struck_in_guess'), ('symbolic', 'struck_in_symbolic'),
                                ('SPBVP', 'struck_in_spbvp')):
                out.probes[probe] += part in li.fired[0]
            told.append('%s at line event %d in %s (%s)' % ((h['exc'], n) + li.fired[::-1]))
            out.event(li.fired, n, ended)
            out.state(plan['config'], li.fired, h['exc'])
            if ended == 'results':
                # an error inside a numerical routine may be handled there; Ctrl-C may not be lost
                out.probes['swallowed'] += 1
                if h['exc'] == 'interrupt':
                    out.violate('interrupt_lost', 'Ctrl-C in %s was lost: the solve went on' % (li.fired,))
            elif h['exc'] == 'interrupt' and ended != 'KeyboardInterrupt':
                out.violate('interrupt_lost', 'Ctrl-C in %s surfaced as %s' % (li.fired, ended))
        out.probes['struck_twice'] += len(told) > 1
        try:
            res = obj.solve()
            d = ocps.same(ref, res)
        except Exception as e:
            d = 'it raised %r' % (e,)
        if d:
            out.violate('retry_differs', 'configuration %d: after %s, retrying with the same objects differs from a solve '
                        'with fresh ones: %s' % (plan['config'], told, d))
        if obj.static is not None:
            after = cs.snap(obj.static)
            for f in obj.before:
                if not np.array_equal(obj.before[f], after[f], equal_nan=True):
                    out.violate('guess_changed', 'the guess given by the caller was changed (%s)' % f)
                    break
        out.event(ocps.digest(res) if not d else d)
        out.nontrivial = bool(told)
    return out
