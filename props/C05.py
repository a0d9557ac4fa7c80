"""Running a solve again gives what fresh objects give, whatever happened before."""
import copy
import numpy as np

from sim import contsim as cs
from sim import bvps, interrupt, ocps
from sim.core import Outcome

PROPERTY = 'C05'
LEVEL = 'exploration'
RULE = ('each run, first kind: 1-3 earlier solves with the same step list, guess generator, guess and solver objects (other failure '
        'patterns, exceptions, Ctrl-C in the solver, other starting constants, other scaling setting; the caller then '
        'overwrites the returned trajectories), followed by the solve that is compared bit by bit with one on fresh '
        'objects; non-trivial when an earlier solve had a failure. Second kind '
        '(one in sixteen): a real solver object (collocation, shooting) first solves 1-3 other problems for real, some cut '
        'short by Ctrl-C at a random line of the numerical code, then a problem whose solution is compared bit by bit with '
        'that of a fresh solver object. Third kind (one in sixteen): one guess generator that propagates or repeats a start '
        'and one step list serve solves of several forms of a problem with several constants. Fourth kind (one in 64): one '
        'problem definition, guess generator and step list serve solves that each derive their own form of it, some struck '
        'by Ctrl-C at a random line of the derivation. Fifth kind (one in sixteen): a real solver object with small budgets '
        'first solves 1-4 boundary value problems directly, some raising, then one compared with a fresh solver object')
STATE_MEASURE = 'distinct (how each earlier solve ended, number of its attempts, strategy of the step) tuples'
REAL, STUB = cs.REAL, cs.STUB
ASSUMPTIONS = ['the caller changes nothing but returned trajectories between the solves']
EXPECTED_PROBES = ['direct_converged', 'direct_failed', 'definition_shared', 'derivation_struck', 'generator_shared', 'generator_other_form', 'generator_other_constants', 'real_other_problem', 'real_struck', 'after_completed', 'after_error', 'after_interrupt', 'results_overwritten']


def setup():
    cs.problem('spring'), cs.problem('slide')
    for name, opts in REAL_PROBLEMS:
        ocps.compiled(name, **opts)


REAL_PROBLEMS = [('spring', {}), ('brach', {}), ('steer', {}), ('spring', {'control_method': 'algebraic'}),
                 ('spring', {'method': 'diffyg'}), ('brach', {'analytical_jacobian': True}), ('denham', {})]
SOLVERS = [('SPBVP', {}), ('SPBVP', {}), ('Shooting', {}), ('Shooting', {'num_arcs': 3}),
           ('Shooting', {'algorithm': 'Armijo'}), ('Shooting', {'derivative_method': 'csd'})]


def gen_real(rng):
    solver = rng.randrange(len(SOLVERS))
    heavy = SOLVERS[solver][0] == 'Shooting'

    def one():
        return {'p': rng.randrange(len(REAL_PROBLEMS) - heavy), 'seed': rng.randrange(3 if heavy else 6),
                'autoscale': rng.random() < 0.4, 'cases': rng.randint(2, 3)}
    plan = {'real': dict(one(), autoscale=rng.random() < 0.2), 'solver': solver, 'histories': []}
    if rng.random() < 0.7:
        plan['real']['autoscale'] = False
    for _ in range(rng.randint(1, 2 if heavy else 3)):
        h = one()
        if rng.random() < 0.4:
            h['strike'] = int(10 ** rng.uniform(1, 4))
        plan['histories'].append(h)
    return plan


def real_plan(h, solver):
    name, opts = REAL_PROBLEMS[h['p']]
    opts = dict(opts)
    p = {'problem': name, 'seed': h['seed'], 'cases': h['cases'], 'solver': SOLVERS[solver][0],
         'args': SOLVERS[solver][1], 'autoscale': h['autoscale'] and name not in ('steer', 'denham')}
    if 'method' in opts:
        p['method'] = opts.pop('method')
    return dict(p, opts=opts)


def run_real(plan):
    out = Outcome()
    out.nontrivial = True
    name, args = SOLVERS[plan['solver']]
    algo = cs.beluga.bvp_algorithm(name, **args)
    told = []
    with np.errstate(all='ignore'):
        for h in plan['histories']:
            out.probes['real_other_problem'] += h['p'] != plan['real']['p']
            li = interrupt.LineInterrupt(h.get('strike'))
            try:
                if 'strike' in h:
                    with li:
                        res = ocps.solve(real_plan(h, plan['solver']), algo=algo)
                else:
                    res = ocps.solve(real_plan(h, plan['solver']), algo=algo)
                told.append((REAL_PROBLEMS[h['p']], type(res).__name__))
            except KeyboardInterrupt:
                out.faults['ctrl_c'] += 1
                out.probes['real_struck'] += 1
                told.append((REAL_PROBLEMS[h['p']], 'Ctrl-C', li.fired))
            out.state('real', h['p'], plan['real']['p'], plan['solver'], li.fired)
        again = ocps.solve(real_plan(plan['real'], plan['solver']), algo=algo)
        fresh = ocps.solve(real_plan(plan['real'], plan['solver']))
    d = ocps.same(again, fresh)
    out.event('real', told, ocps.digest(again), ocps.digest(fresh))
    if d:
        out.violate('history', 'after %s, solving %s with the same solver object differs from a fresh one: %s' % (
            told, REAL_PROBLEMS[plan['real']['p']], d))
    out.note = 'real solver object, %s before' % (told,)
    return out


DIRECT_ALGS = ['Armijo', 'Armijo', 'fsolve', 'SLSQP', 'hybr', 'lm']


def gen_direct(rng):
    solver = rng.choice(['SPBVP', 'Shooting', 'Shooting'])
    if solver == 'SPBVP':
        args = {'max_nodes': rng.choice([3, 8, 20, 60, 500])}
    else:
        args = {'algorithm': rng.choice(DIRECT_ALGS), 'num_arcs': rng.choice([1, 1, 2, 3]),
                'max_iterations': rng.choice([1, 1, 2, 2, 3, 10]), 'tolerance': rng.choice([1e-3, 1e-4, 1e-6]),
                'max_error': rng.choice([100, 5, 1, round(10 ** rng.uniform(-1, 1.5), 2), round(10 ** rng.uniform(-1, 1.5), 2)]), 'ivp_args': {'maxstep': 0.25}}
    names = [n for n in bvps.ZOO if n != 'quad3' or solver == 'SPBVP']

    def one(name=None):
        name = name or rng.choice(names)
        g = bvps.gen_guess(rng, name)
        d = {'bvp': name, 'guess': g}
        if rng.random() < 0.3:
            d['raise'] = int(10 ** rng.uniform(0, 3))
        return d
    last = one()
    last.pop('raise', None)
    return {'direct': last, 'solver': solver, 'args': args,
            'histories': [one(last['bvp'] if rng.random() < 0.7 else None) for _ in range(rng.randint(1, 4))]}


def direct_solve(algo, d, out):
    bvp = bvps.ZOO[d['bvp']]()
    calls = [0]

    def ode(*a):
        calls[0] += 1
        if calls[0] == d.get('raise'):
            out.faults['raise_in_ode'] += 1
            raise ArithmeticError('outside the model')
        if calls[0] > 40000:
            raise OverflowError('endless')
        return bvp.ode(*a)
    algo.set_derivative_function(ode)
    algo.set_quadrature_function(bvp.quad)
    algo.set_boundarycondition_function(bvp.bc)
    try:
        return algo.solve(bvps.guess(bvp, d['guess']), pool=None)
    except Exception as e:
        return e


def run_direct(plan):
    out = Outcome()
    algo = cs.beluga.bvp_algorithm(plan['solver'], **copy.deepcopy(plan['args']))
    told = []
    with np.errstate(all='ignore'):
        for h in plan['histories']:
            r = direct_solve(algo, h, out)
            how = type(r).__name__ if isinstance(r, Exception) else ('converged' if r['success'] else 'failed')
            told.append((h['bvp'], how))
            out.probes['direct_' + ('converged' if how == 'converged' else 'failed')] += 1
            out.nontrivial = out.nontrivial or how != 'converged'
        again = direct_solve(algo, plan['direct'], out)
        fresh = direct_solve(cs.beluga.bvp_algorithm(plan['solver'], **copy.deepcopy(plan['args'])), plan['direct'], out)
    d = bvps.same(again, fresh)
    out.state('direct', plan['solver'], plan['args'].get('algorithm'), plan['direct']['bvp'], told[-1])
    out.event('direct', told, d)
    if d:
        out.violate('history', 'after %s, solving %s with the same %s object differs from a fresh one: %s' % (
            told, plan['direct']['bvp'], plan['solver'], d))
    out.note = '%s object used directly, %s before' % (plan['solver'], told)
    return out


GENERATED = [('spring', {}), ('spring', {'control_method': 'algebraic'}), ('spring', {'method': 'diffyg'}), ('brach', {}),
             ('brach', {'analytical_jacobian': True}), ('steer', {}), ('denham', {})]


def gen_generated(rng):
    def one():
        return {'form': rng.randrange(3), 'shift': rng.choice([None, rng.randrange(1, 1000)]),
                'fail': sorted(rng.sample(range(6), rng.choice([0, 0, 1, 2])))}
    return {'generated': one(), 'problem': rng.choice(['spring', 'spring', 'brach', 'steer', 'denham']),
            'mode': rng.choice(['auto', 'auto', 'ones']), 'seed': rng.randrange(20), 'cases': rng.randint(1, 4),
            'strategy': rng.choice(['manual', 'bisection', 'productspace']),
            'histories': [one() for _ in range(rng.randint(1, 3))]}


class Recorder(cs.BaseAlgorithm):
    """Records each guess and answers with it, moved by an amount that tells the attempt."""

    def __init__(self, fail):
        cs.BaseAlgorithm.__init__(self)
        self.fail, self.seen = fail, []

    def solve(self, guess, **kw):
        n = len(self.seen)
        self.seen.append(cs.snap(guess))
        sol = copy.deepcopy(guess)
        sol.y = sol.y + 0.01 * (n + 1)
        sol.converged = n not in self.fail
        return cs.BVPResult(sol=sol, success=sol.converged, message='', niter=1)


def run_generated(plan):
    out = Outcome()
    out.nontrivial = True
    forms = [(n, o) for n, o in GENERATED if n == plan['problem']]

    def solve(h, gen, steps):
        name, opts = forms[h['form'] % len(forms)]
        opts = dict(opts)
        ocp, bvp, _, _ = ocps.compiled(name, opts.pop('method', 'traditional'), **opts)
        if h['shift'] is not None:
            bvp = copy.copy(bvp)
            bvp.constants = [copy.copy(c) for c in bvp.constants]
            r = np.random.RandomState(h['shift'])
            for c in bvp.constants:
                c.default_val = float(c.default_val) * r.uniform(0.9, 1.1)
        algo = Recorder(h['fail'])
        try:
            res = cs.beluga.solve(ocp=ocp, bvp=bvp, ocp_map=bvp.map_sol, ocp_map_inverse=bvp.inv_map_sol, bvp_algorithm=algo,
                                  steps=steps, guess_generator=gen, autoscale=False, initial_helper=True, save_sols=False)
        except Exception as e:
            res = e
        return res, algo.seen

    _, _, g, targets = ocps.compiled(plan['problem'])
    args = copy.deepcopy(g)
    gen, steps = cs.beluga.guess_generator(plan['mode'], **args), ocps.steps_of(plan, targets)
    with np.errstate(all='ignore'):
        for h in plan['histories']:
            res, _ = solve(h, gen, steps)
            out.probes['generator_shared'] += 1
            out.probes['generator_other_form'] += h['form'] % len(forms) != plan['generated']['form'] % len(forms)
            out.probes['generator_other_constants'] += h['shift'] != plan['generated']['shift']
            out.faults['solver_diverges'] += len(h['fail'])
            out.state('generated', plan['problem'], plan['mode'], h['form'], plan['generated']['form'], type(res).__name__)
            if repr(args) != repr(g):
                out.violate('input', 'the solve changed the start handed to the guess generator: %s became %s' % (g, args))
        again = solve(plan['generated'], gen, steps)
        fresh = solve(plan['generated'], cs.beluga.guess_generator(plan['mode'], **copy.deepcopy(g)),
                      ocps.steps_of(plan, targets))
    d = None
    for k, (x, y) in enumerate(zip(again[1], fresh[1])):
        for f in cs.FIELDS:
            if x[f].shape != y[f].shape or not np.array_equal(x[f], y[f], equal_nan=True):
                d = d or '%s of the guess of attempt %d is %s against %s' % (f, k, x[f].tolist(), y[f].tolist())
    if len(again[1]) != len(fresh[1]):
        d = d or '%d attempts against %d' % (len(again[1]), len(fresh[1]))
    d = d or ocps.same(again[0], fresh[0])
    out.event('generated', ocps.digest(again[0]), ocps.digest(fresh[0]))
    if d:
        out.violate('history', 'after %d other solves of %s with the same guess generator and steps, a solve differs from '
                    'one with fresh objects: %s' % (len(plan['histories']), plan['problem'], d))
    out.note = 'guess generator %s shared by %d solves' % (plan['mode'], 1 + len(plan['histories']))
    return out


DERIVED = [('spring', {}), ('spring', {'control_method': 'algebraic'}), ('spring', {'method': 'diffyg'}),
           ('spring', {'analytical_jacobian': True}), ('brach', {}), ('brach', {'method': 'diffyg'}), ('boxed', {}),
           ('boxed', {'method': 'diffyg'}), ('steer', {}), ('stage', {}), ('brach_sym', {'method': 'diffyg', 'reduction': True}),
           ('brach_sym', {})]


def gen_derived(rng):
    name = rng.choice(['spring', 'spring', 'brach', 'boxed', 'steer', 'stage', 'brach_sym', 'brach_sym'])
    forms = [o for n, o in DERIVED if n == name]

    def one():
        d = {'opts': rng.choice(forms), 'fail': sorted(rng.sample(range(4), rng.choice([0, 0, 1])))}
        if rng.random() < 0.4:
            d['strike'] = int(10 ** rng.uniform(1, 4.5))
        return d
    last = dict(one(), fail=[])
    last.pop('strike', None)
    return {'derived': last, 'problem': name, 'seed': rng.randrange(20), 'cases': rng.randint(1, 2), 'strategy': 'bisection',
            'autoscale': rng.random() < 0.5 and name not in ('steer', 'denham'),
            'histories': [one() for _ in range(rng.choice([1, 1, 2]))]}


def run_derived(plan):
    out = Outcome()
    out.nontrivial = True

    def solve(h, ocp, gen, steps):
        opts = dict(h['opts'])
        algo = Recorder(h['fail'])
        method = opts.pop('method', 'traditional')
        li = interrupt.LineInterrupt(h.get('strike'), parts=('beluga/',))
        try:
            with li:
                res = cs.beluga.solve(ocp=ocp, method=method, optim_options=opts, bvp_algorithm=algo, steps=steps,
                                      guess_generator=gen, autoscale=plan['autoscale'], initial_helper=True, save_sols=False)
        except Exception as e:
            res = e
        except KeyboardInterrupt as e:
            res = e
            out.faults['ctrl_c'] += 1
            out.probes['derivation_struck'] += 1
        return res, algo.seen, li.fired

    ocp, g, targets = ocps.ZOO[plan['problem']]()
    gen, steps = cs.beluga.guess_generator('auto', **copy.deepcopy(g)), ocps.steps_of(plan, targets)
    told = []
    with np.errstate(all='ignore'):
        for h in plan['histories']:
            res, _, where = solve(h, ocp, gen, steps)
            told.append((h['opts'], type(res).__name__, where))
            out.probes['definition_shared'] += 1
            out.state('derived', plan['problem'], sorted(h['opts']), sorted(plan['derived']['opts']), where)
        again = solve(plan['derived'], ocp, gen, steps)
        ocp2, g2, targets2 = ocps.ZOO[plan['problem']]()
        fresh = solve(plan['derived'], ocp2, cs.beluga.guess_generator('auto', **g2), ocps.steps_of(plan, targets2))
    d = None
    for k, (x, y) in enumerate(zip(again[1], fresh[1])):
        for f in cs.FIELDS:
            if x[f].shape != y[f].shape or not np.array_equal(x[f], y[f], equal_nan=True):
                d = d or '%s of the guess of attempt %d is %s against %s' % (f, k, x[f].tolist(), y[f].tolist())
    if len(again[1]) != len(fresh[1]):
        d = d or '%d attempts against %d' % (len(again[1]), len(fresh[1]))
    d = d or ocps.same(again[0], fresh[0])
    out.event('derived', told, ocps.digest(again[0]), ocps.digest(fresh[0]))
    if d:
        out.violate('history', 'after other solves of %s with the same problem definition, guess and steps (%s), a solve differs '
                    'from one with fresh objects: %s' % (plan['problem'], told, d))
    out.note = 'problem definition %s shared by %d solves' % (plan['problem'], 1 + len(plan['histories']))
    return out


def budget(tier):
    return {'runs': 4000, 'seconds': 60} if tier == 'quick' else {'runs': 10 ** 7, 'seconds': 1200}


def gen(rng, tier, i):
    if i % 16 == (i // 16) % 16:
        return gen_real(rng)
    if i % 16 == (i // 16 + 5) % 16:
        return gen_generated(rng)
    if i % 16 == (i // 16 + 9) % 16:
        return gen_direct(rng)
    if i % 64 == 11:
        return gen_derived(rng)
    plan = cs.gen_plan(rng, ['manual', 'bisection', 'bisection', 'productspace', 'sparse_product'], max_steps=2)
    plan['histories'] = []
    for _ in range(rng.randint(1, 3)):
        h = {'solver': cs.gen_solver(rng, plan['steps']), 'autoscale': rng.random() < 0.3,
             'scribble': rng.random() < 0.5}
        if rng.random() < 0.5:
            h['solver'][rng.choice(['crash', 'interrupt'])] = rng.randrange(
                1 + sum(cs.est_attempts(s) for s in plan['steps']))
        if rng.random() < 0.4:
            h['consts'] = {n: v * rng.choice([1, 2, 0.5, 1.25]) for n, v in plan['consts'].items()}
            h['guess_seed'] = rng.randint(0, 10 ** 6)
        plan['histories'].append(h)
    return plan


def same_run(a, b):
    """Bitwise comparison of two run logs. Returns None or what differs."""
    if type(a.exc) is not type(b.exc) or str(a.exc) != str(b.exc):
        return 'one ended with %r, the other with %r' % (a.exc, b.exc)
    if len(a.attempts) != len(b.attempts):
        return '%d attempts against %d' % (len(a.attempts), len(b.attempts))
    for k, (x, y) in enumerate(zip(a.attempts, b.attempts)):
        for f in cs.FIELDS:
            if x['guess'][f].shape != y['guess'][f].shape or not np.array_equal(x['guess'][f], y['guess'][f],
                                                                                equal_nan=True):
                return 'attempt %d: %s of the guess is %s against %s' % (k, f, x['guess'][f].tolist(),
                                                                        y['guess'][f].tolist())
    if a.out is not None:
        if [len(s) for s in a.out] != [len(s) for s in b.out]:
            return 'results of shape %s against %s' % ([len(s) for s in a.out], [len(s) for s in b.out])
        for si, (s, t) in enumerate(zip(a.out, b.out)):
            for k, (x, y) in enumerate(zip(s, t)):
                sx, sy = cs.snap(x), cs.snap(y)
                for f in cs.FIELDS:
                    if sx[f].shape != sy[f].shape or not np.array_equal(sx[f], sy[f], equal_nan=True):
                        return 'result %d of step %d differs in %s' % (k, si, f)
                if sx['converged'] != sy['converged']:
                    return 'result %d of step %d differs in its convergence flag' % (k, si)
    return None


def run(plan):
    if 'direct' in plan:
        return run_direct(plan)
    if 'real' in plan:
        return run_real(plan)
    if 'generated' in plan:
        return run_generated(plan)
    if 'derived' in plan:
        return run_derived(plan)
    out = Outcome()
    prob = cs.problem(plan['problem'])
    clock = cs.Clock()
    steps = cs.make_steps(plan['steps'])
    guess = cs.initial_guess(prob, plan['guess_seed'], plan['consts'])
    before = cs.snap(guess)
    gen = cs.beluga.guess_generator('static', solinit=guess)
    solver = cs.SimSolver(cs.Script(plan['solver']), prob, out, clock, cs.max_attempts(plan['steps']))
    for h in plan['histories']:
        hp = dict(plan, autoscale=h.get('autoscale', False))
        kw = {'guess': guess, 'gen': gen}
        if 'consts' in h:
            kw = {'guess': cs.initial_guess(prob, h['guess_seed'], h['consts'])}
        log = cs.execute(hp, out, clock, steps=steps, solver=solver, script=h['solver'], **kw)
        if isinstance(log.exc, cs.StepBudget):
            out.violate('endless', 'still attempting after %d attempts' % len(log.attempts))
            return out
        how = 'completed' if log.exc is None else ('interrupt' if isinstance(log.exc, KeyboardInterrupt) else 'error')
        out.probes['after_' + how] += 1
        out.state(how, len(log.attempts), [s['strategy'] for s in plan['steps']])
        out.nontrivial = out.nontrivial or any(not a.get('ok') for a in log.attempts)
        if h.get('scribble') and log.out is not None:
            out.probes['results_overwritten'] += 1
            for sols in log.out:
                for t in sols:
                    scribble(t)
        differ = [f for f in cs.FIELDS if not np.array_equal(cs.snap(guess)[f], before[f], equal_nan=True)]
        if differ or bool(guess.converged) != before['converged']:
            out.violate('input', 'the solve changed the guess the caller passed in: %s' % (differ or 'converged'))
            return out
    again = cs.execute(plan, out, clock, steps=steps, solver=solver, guess=guess, gen=gen)
    fresh = cs.execute(plan, Outcome(), cs.Clock())
    diff = same_run(again, fresh)
    if diff:
        out.violate('history', 'after %d earlier solves (%s) the same solve differs from a fresh one: %s' % (
            len(plan['histories']), dict(out.probes), diff))
    out.sim_time = clock.total
    out.event('end', repr(again.exc), len(again.attempts))
    out.note = '%d earlier solves, then %d attempts' % (len(plan['histories']), len(again.attempts))
    return out


def scribble(t):
    for f in cs.FIELDS:
        arr = getattr(t, f)
        if isinstance(arr, np.ndarray) and arr.size and arr.flags.writeable:
            arr *= -3.
            arr += 17.
    t.converged = not t.converged


def shrink_real(plan):
    for j, h in enumerate(plan['histories']):
        if len(plan['histories']) > 1:
            yield dict(plan, histories=plan['histories'][:j] + plan['histories'][j + 1:])
        for simpler in ({'strike': None}, {'autoscale': False}, {'cases': 2}, {'seed': 0}):
            n = dict(h, **simpler)
            n = {k: v for k, v in n.items() if v is not None}
            if n != h:
                yield dict(plan, histories=plan['histories'][:j] + [n] + plan['histories'][j + 1:])
    for simpler in ({'autoscale': False}, {'cases': 2}, {'seed': 0}):
        n = dict(plan['real'], **simpler)
        if n != plan['real']:
            yield dict(plan, real=n)


def shrink(plan):
    if 'direct' in plan:
        for j, h in enumerate(plan['histories']):
            if len(plan['histories']) > 1:
                yield dict(plan, histories=plan['histories'][:j] + plan['histories'][j + 1:])
            if 'raise' in h:
                yield dict(plan, histories=plan['histories'][:j] + [{k: v for k, v in h.items() if k != 'raise'}]
                           + plan['histories'][j + 1:])
        return
    if 'real' in plan:
        yield from shrink_real(plan)
        return
    if 'derived' in plan:
        for j, h in enumerate(plan['histories']):
            if len(plan['histories']) > 1:
                yield dict(plan, histories=plan['histories'][:j] + plan['histories'][j + 1:])
            if 'strike' in h:
                yield dict(plan, histories=plan['histories'][:j] + [{k: v for k, v in h.items() if k != 'strike'}]
                           + plan['histories'][j + 1:])
        if plan['autoscale']:
            yield dict(plan, autoscale=False)
        return
    if 'generated' in plan:
        for j, h in enumerate(plan['histories']):
            if len(plan['histories']) > 1:
                yield dict(plan, histories=plan['histories'][:j] + plan['histories'][j + 1:])
            for k, v in (('fail', []), ('shift', None), ('form', 0)):
                if h[k] != v:
                    yield dict(plan, histories=plan['histories'][:j] + [dict(h, **{k: v})] + plan['histories'][j + 1:])
        for k, v in (('fail', []), ('shift', None), ('form', 0)):
            if plan['generated'][k] != v:
                yield dict(plan, generated=dict(plan['generated'], **{k: v}))
        for k, v in (('cases', 1), ('strategy', 'manual'), ('seed', 0)):
            if plan[k] != v:
                yield dict(plan, **{k: v})
        return
    yield from cs.shrink_plan(plan)
