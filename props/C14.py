"""A trajectory handed back as converged solves the problem the user stated, whatever happened on the way."""
import copy
import os
import shutil
import tempfile

import numpy as np

from sim import contsim as cs
from sim import interrupt, ocps
from sim import pool as simpool
from sim.core import Outcome

beluga = ocps.beluga

PROPERTY = 'C14'
LEVEL = 'exploration'
RULE = ('each run solves one optimal control problem for real in 1-3 legs, from symbols to returned trajectories: form of the '
        'method, control law, solver, scaling, strategy, targets and number of processes are drawn anew for every leg, which '
        'starts from the last converged trajectory (through a file in half of the cases) or from scratch; attempts are made '
        'to fail, derivative calls to raise, Ctrl-C to strike at a line of the numerical code, after which the leg is tried '
        'again; every trajectory marked converged is compared with the problem written down independently (dynamics, end '
        'conditions, costate equations, stationarity, Hamiltonian, transversality); non-trivial when a fault fired or a leg '
        'started from a trajectory of another form')
STATE_MEASURE = 'distinct (problem, form, control law, solver, scaling, strategy, how the leg ended, fault kinds) tuples'
REAL = ['the whole of beluga: problem definition, symbolic processing, code generation, mappings, scaling, guess generation, '
        'continuation, Shooting, SPBVP, propagation, storage']
STUB = ['process pool (simulated workers)', 'wall clock (time.time)', 'numba compilation (switched off)']
ASSUMPTIONS = ['problems whose stated units allow for scaling are scaled, others are not',
               'deviations below about 0.5 % of the size of the quantity plus the interpolation error of the mesh are accepted']
EXPECTED_PROBES = ['converged_checked', 'leg_from_trajectory', 'leg_from_other_form', 'struck', 'faultless_linear',
                   'through_file', 'scaled', 'no_steps', 'reduced']
RUN_WALL = 60
SLOW_IS_NO_ANSWER = True

# name -> list of (options, weight), scaling allowed
FORMS = {
    'spring': [dict(method=m, control_method=c, analytical_jacobian=j) for m in ('traditional', 'diffyg')
               for c, j in (('differential', False), ('differential', True), ('algebraic', False))],
    'brach': [dict(method=m, control_method=c, analytical_jacobian=j) for m in ('traditional', 'diffyg')
              for c, j in (('differential', False), ('differential', True), ('algebraic', False))],
    'brach_sym': [dict(method='diffyg', control_method='differential', analytical_jacobian=False, reduction=True),
                  dict(method='diffyg', control_method='differential', analytical_jacobian=False),
                  dict(method='traditional', control_method='differential', analytical_jacobian=False)],
    'tug': [dict(method=m, control_method=c, analytical_jacobian=j) for m in ('traditional', 'diffyg')
            for c, j in (('differential', False), ('differential', True), ('algebraic', False))],
    'steer': [dict(method=m, control_method='differential', analytical_jacobian=j) for m in ('traditional', 'diffyg')
              for j in (False, True)],
    'denham': [dict(method=m, control_method=c, analytical_jacobian=False) for m in ('traditional', 'diffyg')
               for c in ('differential', 'algebraic')],
    'lander': [dict(method='traditional', control_method='differential', analytical_jacobian=False)],
    'orbit': [dict(method=m, control_method='algebraic', analytical_jacobian=False) for m in ('traditional', 'diffyg')],
}
for _n in ('stage', 'launch', 'reef', 'reef2'):
    FORMS[_n] = FORMS['tug']
FORMS['boxed'] = FORMS['steer']
NAMES = ['spring'] * 2 + ['tug'] * 2 + ['launch'] * 2 + ['brach'] * 3 + ['brach_sym'] * 2 + ['stage'] * 2 + ['steer'] * 2 + \
    ['boxed'] * 2 + ['denham'] * 2 + ['lander', 'orbit'] + ['reef'] * 2 + ['reef2'] * 2
MISTAKES = (NameError, TypeError, AttributeError, LookupError)
LINEAR = ('spring', 'tug', 'launch')
SCALES = {'tug', 'spring', 'brach', 'brach_sym', 'denham', 'orbit', 'stage', 'launch', 'boxed'}
SOLVERS = [('SPBVP', {}), ('SPBVP', {}), ('SPBVP', {'max_nodes': 200}), ('Shooting', {}), ('Shooting', {'num_arcs': 2}),
           ('Shooting', {'num_arcs': 3, 'algorithm': 'Armijo'}), ('Shooting', {'algorithm': 'fsolve'})]


def setup():
    for name in ('spring', 'brach', 'tug'):
        for form in FORMS[name]:
            try:
                ocps.compiled(name, **form)
            except Exception:
                return          # the runs tell


def budget(tier):
    return {'runs': 640, 'seconds': 90} if tier == 'quick' else {'runs': 10 ** 7, 'seconds': 1800}


def gen(rng, tier, i):
    if i == 0:          # meets the listed finding in every run of this check
        leg = {'form': 0, 'solver': 0, 'scale': False, 'strategy': 'manual', 'cases': 3, 'aim': [.5, .5], 'restart': True,
               'file': False}
        return {'problem': 'boxed', 'legs': [leg, dict(leg, aim=[.7, .3])], 'seed': 0}
    name = rng.choice(NAMES)
    legs = []
    for _ in range(rng.choice([1, 1, 2, 2, 3])):
        solver = rng.randrange(3 if name == 'denham' or rng.random() < 0.6 else len(SOLVERS))
        leg = {'form': rng.randrange(len(FORMS[name])), 'solver': solver, 'scale': name in SCALES and rng.random() < 0.5,
               'strategy': rng.choice(['bisection', 'bisection', 'manual', 'productspace', 'sparse_product', 'none']),
               'cases': rng.randint(2, 4), 'aim': [round(rng.random(), 3) for _ in range(2)],
               'restart': rng.random() < 0.8, 'file': rng.random() < 0.5}
        if FORMS[name][leg['form']].get('reduction'):       # takes away the states the scales are given in
            leg['scale'] = False
        if name in ('lander', 'orbit'):
            leg['solver'] = min(solver, 3)
            leg['strategy'] = rng.choice(['bisection', 'manual'])
        if rng.random() < 0.4:
            leg['fails'] = sorted(rng.sample(range(6), rng.randint(1, 2)))
        if rng.random() < 0.25:
            leg['raise_at'] = int(10 ** rng.uniform(1, 4.3))
        if rng.random() < 0.25:
            leg['strike'] = int(10 ** rng.uniform(1.5, 4.5))
        if SOLVERS[solver][0] == 'Shooting' and rng.random() < 0.2:
            leg['cpus'] = rng.randint(2, 4)
        legs.append(leg)
    return {'problem': name, 'legs': legs, 'seed': rng.randrange(10 ** 6)}


class Injected(FloatingPointError):
    pass


def make_steps(leg, targets):
    if leg['strategy'] == 'none':
        return None
    steps = beluga.init_continuation()
    st = steps.add_step(leg['strategy'])
    if leg['strategy'] == 'sparse_product':
        st.num_subdivisions(((2,) * len(targets), (1,) * len(targets)))
    elif leg['strategy'] == 'productspace':
        st.num_subdivisions(2)
    else:
        st.num_cases(leg['cases'])
    for k, c in enumerate(sorted(targets)):
        lo, hi = targets[c]
        st.const(c, lo + (hi - lo) * leg['aim'][k % len(leg['aim'])])
    return steps


def make_algo(leg, out):
    name, args = SOLVERS[leg['solver']]
    algo = beluga.bvp_algorithm(name, **args)
    fails = set(leg.get('fails', ()))
    state = {'attempt': -1, 'calls': 0}
    real_solve, real_set = algo.solve, algo.set_derivative_function

    def solve(solinit, **kw):
        state['attempt'] += 1
        res = real_solve(solinit, **kw)
        if state['attempt'] in fails:
            out.faults['attempt_fails'] += 1
            sol = res['sol']
            sol.converged = False
            sol.y = sol.y * 1.5 + 0.25
        return res

    def set_derivative_function(fun):
        def raising(*a):
            state['calls'] += 1
            if state['calls'] == leg['raise_at']:
                out.faults['derivative_raises'] += 1
                raise Injected('injected at call %d' % leg['raise_at'])
            return fun(*a)
        return real_set(raising)

    if fails:
        algo.solve = solve
    if 'raise_at' in leg:
        algo.set_derivative_function = set_derivative_function
    return algo


def run(plan):
    out = Outcome()
    name = plan['problem']
    clock = cs.Clock()
    last = None            # last converged trajectory and the form it came from
    scratch = None
    try:
        with np.errstate(all='ignore'), cs.patched_clock(clock):
            for k, leg in enumerate(plan['legs']):
                form = FORMS[name][leg['form']]
                try:
                    if name == 'reef2':         # the same names stand for other functions there
                        ocps.compiled('reef', **form)
                    ocp, bvp, gargs, targets = ocps.compiled(name, **form)
                except Exception as e:
                    out.event('derivation', k, type(e).__name__)
                    out.violate('refused', '%s, form %s: deriving the boundary value problem raised %r' % (name, form, e))
                    return out
                old = None if last is None or not leg['restart'] else last
                if old is not None and leg['file']:
                    scratch = scratch or tempfile.mkdtemp(prefix='c14-')
                    beluga.utils.save(sol_set=[[old[0]]], ocp=None, bvp=None, filename=os.path.join(scratch, 'leg'))
                    old = (beluga.utils.load(os.path.join(scratch, 'leg'))['solutions'][0][0], old[1])
                    out.probes['through_file'] += 1
                if old is not None:
                    try:
                        d, key = there_and_back(bvp, old[0], name)
                    except Exception as e:
                        d, key = 'it raised %r' % (e,), None
                    if d:
                        out.violate('mapping', '%s, form %s: a trajectory taken to the boundary value problem and back '
                                    'is not the same: %s' % (name, form, d), key)
                        if key is None:
                            return out
                for attempt in range(3):
                    if old is not None:
                        guess = beluga.guess_generator('static', solinit=old[0])
                    else:
                        guess = beluga.guess_generator('auto', **gargs)
                    algo = make_algo(leg if attempt == 0 else {'solver': leg['solver']}, out)
                    cpus = leg.get('cpus', 1)
                    li = interrupt.LineInterrupt(leg.get('strike') if attempt == 0 else None)
                    try:
                        with simpool.Controller({'seed': plan['seed'] + k}, out, clock):
                            if attempt == 0 and 'strike' in leg and cpus == 1:
                                with li:
                                    res = solve(ocp, bvp, algo, make_steps(leg, targets), guess, leg, cpus, old is None)
                            else:
                                res = solve(ocp, bvp, algo, make_steps(leg, targets), guess, leg, cpus, old is None)
                    except KeyboardInterrupt:
                        out.faults['ctrl_c'] += 1
                        out.probes['struck'] += 1
                        continue
                    except Injected as e:
                        res = e
                        continue
                    except Exception as e:
                        res = e
                    break
                ended = type(res).__name__
                other = old is not None and old[1] != leg['form']
                out.probes['leg_from_trajectory'] += old is not None
                out.probes['leg_from_other_form'] += other
                out.probes['scaled'] += leg['scale']
                out.probes['no_steps'] += leg['strategy'] == 'none'
                out.probes['reduced'] += form.get('reduction', False)
                out.nontrivial = out.nontrivial or other or bool(out.faults)
                out.state(name, leg['form'], leg['solver'], leg['scale'], leg['strategy'], ended, sorted(out.faults))
                told = '%s, leg %d (%s, %s %s, %s, %s)' % (
                    name, k, form, SOLVERS[leg['solver']][0], SOLVERS[leg['solver']][1],
                    'scaled' if leg['scale'] else 'not scaled', leg['strategy'])
                # (a damped iteration gives up beyond a fixed residual, which scaling can reach)
                quiet = not (set(leg) & {'fails', 'raise_at', 'strike'}) and \
                    not (leg['scale'] and SOLVERS[leg['solver']][0] == 'Shooting' and
                         SOLVERS[leg['solver']][1].get('algorithm') != 'fsolve')
                if isinstance(res, Exception):
                    out.event('leg', k, ended)
                    if quiet and (isinstance(res, MISTAKES) or name in LINEAR and leg['strategy'] != 'none'):
                        out.violate('refused', '%s: nothing was injected but the solve ended with %r' % (told, res))
                    continue
                out.event('leg', k, ocps.digest(res))
                for si, sols in enumerate(res):
                    for j, g in enumerate(sols):
                        if not g.converged:
                            continue
                        out.probes['converged_checked'] += 1
                        for what, (dev, allow) in ocps.judge(name, ocp, g, form['control_method'] == 'algebraic').items():
                            if not dev <= allow:
                                out.violate('untrue', '%s: trajectory %d of step %d is marked converged but violates %s by '
                                            '%.3g (allowed %.3g)' % (told, j, si, what, dev, allow))
                                return out
                        last = (g, leg['form'])
                if quiet and name in LINEAR and leg['strategy'] != 'none':
                    out.probes['faultless_linear'] += 1
                    g = res[-1][-1]
                    if not g.converged:
                        out.violate('refused', '%s: a linear problem without faults did not converge' % told)
                        return out
                if leg['strategy'] in ('manual', 'bisection') and res[-1][-1].converged:
                    c = {str(q.name): float(v) for q, v in zip(ocp.constants, res[-1][-1].const)}
                    for q, target in enumerate(sorted(targets)):
                        lo, hi = targets[target]
                        want = lo + (hi - lo) * leg['aim'][q % len(leg['aim'])]
                        if not abs(c[target] - want) <= 1e-9 * (1 + abs(want)):
                            out.violate('target', '%s: the last trajectory is converged at %s = %r, asked for %r' % (
                                told, target, c[target], want))
                            return out
    finally:
        if scratch:
            shutil.rmtree(scratch, ignore_errors=True)
    out.sim_time = clock.total
    out.note = '%s in %d legs' % (name, len(plan['legs']))
    return out


def there_and_back(bvp, g, name=None):
    """(None, None), or in what a converged trajectory differs after the mapping a guess goes through and the one of results."""
    back = bvp.inv_map_sol(bvp.map_sol(copy.deepcopy(g)))
    for f in ('t', 'y', 'dual', 'dual_t', 'u', 'const'):
        a, b = np.asarray(getattr(g, f), dtype=float), np.asarray(getattr(back, f), dtype=float)
        if a.shape != b.shape:
            return '%s of shape %s against %s' % (f, b.shape, a.shape), None
        tol = 2e-2 if f in ('u', 'dual', 'dual_t') else 1e-6
        if f == 'u' and name == 'boxed':
            c = {str(k.name): float(v) for k, v in zip(bvp.constants, g.const)}
            mid = (c['hi'] + c['lo']) / 2
            if np.allclose(b - mid, (a - mid) / 2, rtol=1e-6, atol=1e-6):
                return 'the deviation of the control from the middle of its bounds is halved', 'epstrig-control-halved'
        elif f == 'u':
            a, b = np.stack([np.sin(a), np.cos(a)]), np.stack([np.sin(b), np.cos(b)])      # angles up to full turns
        if not np.allclose(a, b, rtol=tol, atol=tol * (1 + np.max(np.abs(a), initial=0))):
            return '%s off by %.3g' % (f, np.max(np.abs(a - b))), None
    return None, None


def solve(ocp, bvp, algo, steps, guess, leg, cpus, helper):
    return beluga.solve(ocp=ocp, bvp=bvp, ocp_map=bvp.map_sol, ocp_map_inverse=bvp.inv_map_sol, bvp_algorithm=algo,
                        steps=steps, guess_generator=guess, n_cpus=cpus, autoscale=leg['scale'], initial_helper=helper,
                        save_sols=False)


def shrink(plan):
    legs = plan['legs']
    for j in range(len(legs)):
        if len(legs) > 1:
            yield dict(plan, legs=legs[:j] + legs[j + 1:])
    for j, leg in enumerate(legs):
        for key in ('fails', 'raise_at', 'strike', 'cpus'):
            if key in leg:
                yield dict(plan, legs=legs[:j] + [{a: b for a, b in leg.items() if a != key}] + legs[j + 1:])
        for simpler in ({'cases': 2}, {'file': False}, {'scale': False}, {'solver': 0}, {'strategy': 'manual'},
                        {'form': 0}, {'aim': [0.5, 0.5]}):
            n = dict(leg, **simpler)
            if n != leg:
                yield dict(plan, legs=legs[:j] + [n] + legs[j + 1:])
