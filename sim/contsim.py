"""Continuation simulator: the real `beluga.solve` and continuation code around a simulated BVP solver.

The simulated solver is a BaseAlgorithm (beluga's own extension point). It decides from the plan whether each attempt
converges, diverges or raises, builds its answer from the guess it was handed by multiplying with markers that are
unique to the attempt, and can misbehave in the ways a solver is allowed to: reuse its output buffers, scribble over
its input, return garbage (NaN, Inf, huge numbers) with a diverged answer, change the mesh, report convergence as a
numpy bool. Because answers are products, they commute with any scaling of the variables, so that the expected unscaled
trajectory is known without looking at the scaling code.
"""
import copy
import itertools
import math
import random
import time

import numpy as np

from sim import boot
from sim.core import Outcome

beluga = boot.load_beluga()
from beluga.numeric.bvp_solvers import BaseAlgorithm, BVPResult                    # noqa: E402
from beluga.numeric.data_classes.Trajectory import Trajectory                      # noqa: E402
from beluga.symbolic.data_classes import make_indirect_method, make_postprocessor, make_preprocessor    # noqa: E402

FIELDS = ('t', 'y', 'q', 'u', 'dynamical_parameters', 'nondynamical_parameters', 'const')


class SolverCrash(Exception):
    """Raised by the simulated solver where the plan says so."""


class SolverInterrupt(KeyboardInterrupt):
    """Ctrl-C while the simulated solver is running."""


CRASHES = {'plain': SolverCrash}
for _base in (ArithmeticError, ZeroDivisionError, FloatingPointError, OverflowError, ValueError, TypeError, RuntimeError,
              MemoryError, OSError, KeyError, IndexError, AttributeError, NotImplementedError, AssertionError,
              RecursionError, Warning, np.linalg.LinAlgError):
    CRASHES[_base.__name__] = type('SolverCrash' + _base.__name__, (SolverCrash, _base), {})


class StepBudget(BaseException):
    """The continuation asked for more attempts than any correct run of the plan can need."""


# ---------------------------------------------------------------------------------------------------------------------
# problems
# ---------------------------------------------------------------------------------------------------------------------
def _spring():
    ocp = beluga.Problem('spring')
    ocp.independent('t', 's')
    ocp.state('x', 'v', 'm').state('v', 'u - a*k*x + (b - c)*k*x_0', 'm/s')
    ocp.control('u', 'm/s^2')
    ocp.constant('k', 0.5, '1/s^2').constant('x_0', 1.0, 'm').constant('x_f', 2.0, 'm')
    ocp.constant('a', 1.0, 'nd').constant('b', 2.0, 'nd').constant('c', 3.0, 'nd')
    ocp.path_cost('u**2', 'm^2/s^4')
    ocp.initial_constraint('x-x_0', 'm').initial_constraint('v', 'm/s').initial_constraint('t', 's')
    ocp.terminal_constraint('x-x_f', 'm').terminal_constraint('v', 'm/s')
    ocp.scale(m='x', s='x/v', kg=1, rad=1, nd=1)
    return ocp, 'traditional', {}


def _slide():
    ocp = beluga.Problem('slide')
    ocp.independent('t', 's')
    ocp.state('x', 'a*v*cos(theta)', 'm').state('y', 'b*v*sin(theta)', 'm').state('v', 'c*g*sin(theta)', 'm/s')
    ocp.symmetry(['1', '0', '0'], 'm')
    ocp.symmetry(['0', '1', '0'], 'm')
    ocp.control('theta', 'rad')
    ocp.constant('g', -9.81, 'm/s^2').constant('x_f', 4.0, 'm').constant('y_f', -3.0, 'm')
    ocp.constant('a', 1.0, 'nd').constant('b', 1.5, 'nd').constant('c', 2.0, 'nd')
    ocp.path_cost('1', '1')
    ocp.initial_constraint('x', 'm').initial_constraint('y', 'm').initial_constraint('v', 'm/s')
    ocp.initial_constraint('t', 's')
    ocp.terminal_constraint('x-x_f', 'm').terminal_constraint('y-y_f', 'm')
    ocp.scale(m=10, s='v', kg=1, rad=1, nd=1)
    return ocp, 'diffyg', {'reduction': True}


def _rocket():
    ocp = beluga.Problem('rocket')
    ocp.independent('t', 's')
    ocp.quantity('drag', 'c*rho*v**2*A/2')
    ocp.state('h', 'v', 'm').state('v', '(a*F*cos(alpha) - drag)/mass - b*g', 'm/s').state('x', 'v*sin(alpha)', 'm')
    ocp.state('mass', '-F/(g*isp)', 'kg')
    ocp.control('alpha', 'rad')
    ocp.constant('g', 9.81, 'm/s^2').constant('rho', 0.1, 'kg/m^3').constant('A', 3.0, 'm^2')
    ocp.constant('isp', 300., 's').constant('F', 2000., 'kg*m/s^2').constant('h_f', 50., 'm')
    ocp.constant('a', 1.0, 'nd').constant('b', 1.5, 'nd').constant('c', 2.0, 'nd').constant('mass_0', 40., 'kg')
    ocp.constant('w', 0.3, 'kg/s')
    ocp.path_cost('w', 'kg/s')
    ocp.terminal_cost('-mass', 'kg')
    ocp.initial_constraint('h', 'm').initial_constraint('v', 'm/s').initial_constraint('x', 'm')
    ocp.initial_constraint('mass - mass_0', 'kg').initial_constraint('t', 's')
    ocp.terminal_constraint('h - h_f', 'm').terminal_constraint('x', 'm')
    ocp.scale(m='h', s='h/v', kg='mass', rad=1, nd=1)
    return ocp, 'traditional', {'control_method': 'algebraic'}


def _bounded():
    ocp = beluga.Problem('bounded')
    ocp.independent('t', 's')
    ocp.state('x', 'a*v', 'm').state('v', 'u/w + b*k*x', 'm/s')
    ocp.control('u', 'N')
    ocp.constant('k', -0.3, '1/s^2').constant('w', 2.0, 'N*s^2/m').constant('x_f', 4.0, 'm')
    ocp.constant('v_max', 9., 'm/s').constant('eps1', 0.2, 'N^2').constant('eps2', 0.1, 'N^2')
    ocp.constant('eps3', 0.1, 'N^2*s').constant('u_max', 3.0, 'N')
    ocp.constant('a', 1.0, 'nd').constant('b', 1.5, 'nd').constant('c', 2.0, 'nd')
    ocp.path_cost('c*u**2', 'N^2')
    ocp.initial_constraint('x', 'm').initial_constraint('v', 'm/s').initial_constraint('t', 's')
    ocp.terminal_constraint('x-x_f', 'm')
    ocp.terminal_constraint('v', 'm/s', lower='-v_max', upper='v_max', activator='eps3', method='utm')
    ocp.path_constraint('v', 'm/s', lower='-v_max', upper='v_max', activator='eps1', method='utm')
    ocp.path_constraint('u', 'N', lower='-u_max', upper='u_max', activator='eps2', method='epstrig')
    ocp.scale(m='x', s='x/v', N='u_max', rad=1, nd=1)
    return ocp, 'traditional', {'analytical_jacobian': True}


def _pusher():
    ocp = beluga.Problem('pusher')
    ocp.independent('t', 's')
    ocp.quantity('damp', 'k*v')
    ocp.state('x', 'a*v', 'm').state('v', '(F - damp)/mass + w*b', 'm/s').state('mass', '-c*mdot - r*mdot_0', 'kg')
    ocp.control('F', 'kg*m/s^2').control('w', 'm/s^2').control('mdot', 'kg/s')
    ocp.constant('k', 0.4, 'kg/s').constant('x_f', 5.0, 'm').constant('mass_0', 6.0, 'kg').constant('r', 0.2, 'nd')
    ocp.constant('mdot_0', 0.3, 'kg/s').constant('f_0', 3.0, 'kg*m/s^2').constant('w_0', 2.0, 'm/s^2')
    ocp.constant('a', 1.0, 'nd').constant('b', 1.5, 'nd').constant('c', 2.0, 'nd')
    ocp.path_cost('(F/f_0)**2 + (w/w_0)**2 + (mdot/mdot_0)**2', 'nd')
    ocp.initial_constraint('x', 'm').initial_constraint('v', 'm/s').initial_constraint('mass - mass_0', 'kg')
    ocp.initial_constraint('t', 's')
    ocp.terminal_constraint('x - x_f', 'm').terminal_constraint('v', 'm/s')
    ocp.scale(m='x', s='x/v', kg='mass', rad=1, nd=1)
    return ocp, 'traditional', {'control_method': 'algebraic'}


_BUILDERS = {'pusher': _pusher, 'bounded': _bounded, 'spring': _spring, 'slide': _slide, 'rocket': _rocket}
_PROBLEMS = {}


def problem(name):
    """Compiles the problem with the real symbolic pipeline, once per process."""
    if name not in _PROBLEMS:
        ocp, method, opts = _BUILDERS[name]()
        processed = make_preprocessor()(copy.deepcopy(ocp))
        prob = make_indirect_method(copy.deepcopy(processed), method=method, **opts)(copy.deepcopy(processed))
        bvp = make_postprocessor()(copy.deepcopy(prob))
        names = [c.name for c in bvp.constants]
        defaults = np.array([float(c.default_val) for c in bvp.constants])
        nd = {c.name for c in bvp.constants if str(c.units) in ('nd', '1')}
        _PROBLEMS[name] = {'ocp': ocp, 'bvp': bvp, 'names': names, 'defaults': defaults, 'nd': nd & {'a', 'b', 'c'},
                           'ny': len(bvp.states), 'nq': len(bvp.quads), 'np': len(bvp.parameters),
                           'nn': len(bvp.constraint_parameters)}
    return _PROBLEMS[name]


VARS = {'spring': ['k', 'x_0', 'x_f', 'a', 'b', 'c'], 'slide': ['g', 'x_f', 'y_f', 'a', 'b', 'c'],
        'rocket': ['g', 'rho', 'isp', 'F', 'h_f', 'mass_0', 'a', 'b', 'c'],
        'pusher': ['k', 'x_f', 'mass_0', 'mdot_0', 'f_0', 'w_0', 'a', 'b', 'c'],
        'bounded': ['k', 'w', 'x_f', 'eps1', 'eps3', 'u_max', 'a', 'b', 'c']}
DEFAULTS = {'spring': {'k': .5, 'x_0': 1., 'x_f': 2., 'a': 1., 'b': 2., 'c': 3.},
            'slide': {'g': -9.81, 'x_f': 4., 'y_f': -3., 'a': 1., 'b': 1.5, 'c': 2.},
            'bounded': {'k': -.3, 'w': 2., 'x_f': 4., 'eps1': .2, 'eps3': .1, 'u_max': 3., 'a': 1., 'b': 1.5, 'c': 2.},
            'pusher': {'k': .4, 'x_f': 5., 'mass_0': 6., 'mdot_0': .3, 'f_0': 3., 'w_0': 2., 'a': 1., 'b': 1.5, 'c': 2.},
            'rocket': {'g': 9.81, 'rho': .1, 'isp': 300., 'F': 2000., 'h_f': 50., 'mass_0': 40., 'a': 1., 'b': 1.5,
                       'c': 2.}}
ND = ['a', 'b', 'c']


def initial_guess(prob, seed, consts=None):
    r = random.Random('guess/%s' % seed)
    m = r.randint(2, 4)

    def arr(rows, cols):
        return np.array([[r.uniform(0.6, 1.7) for _ in range(cols)] for _ in range(rows)]).reshape(rows, cols)

    g = Trajectory()
    g.t = np.linspace(0., r.uniform(0.5, 2.), m)
    g.y = arr(m, prob['ny'])
    sg = random.Random('signs/%s' % seed)
    if sg.random() < 0.4:
        # states of either sign, some changing it on the way
        for j in range(prob['ny']):
            c = sg.random()
            if c < 0.35:
                g.y[:, j] *= -1.
            elif c < 0.5:
                g.y[sg.randrange(m), j] *= -1.
    g.dual = np.zeros((m, prob['ny']))
    g.q = arr(m, prob['nq']) if prob['nq'] else np.array([])
    g.dynamical_parameters = arr(1, prob['np'])[0]
    g.nondynamical_parameters = arr(1, prob['nn'])[0]
    g.const = prob['defaults'].copy()
    for k, v in (consts or {}).items():
        g.const[prob['names'].index(k)] = v
    return g


# ---------------------------------------------------------------------------------------------------------------------
# the simulated solver
# ---------------------------------------------------------------------------------------------------------------------
def snap(traj):
    s = {f: np.array(getattr(traj, f), dtype=float, copy=True) for f in FIELDS}
    s['converged'] = bool(traj.converged)
    return s


class Script:
    """What the solver does, attempt by attempt. Pure function of the plan entry and the attempt number."""

    def __init__(self, d):
        self.d = d
        self.fail = set(d.get('fail', []))
        self.crash = d.get('crash')          # attempt index at which solve raises
        self.interrupt = d.get('interrupt')  # attempt index at which Ctrl-C arrives
        self.basin = d.get('basin')          # convergence radius in the constants, or None
        self.seed = d.get('seed', 0)

    def rng(self, i):
        return random.Random('answer/%s/%s' % (self.seed, i))

    def converges(self, i, moved):
        if i in self.fail:
            return False
        if self.basin is not None and moved is not None and moved > self.basin:
            return False
        return True


def markers(script, i, nrows, prob, udim):
    r = script.rng(i)

    def arr(rows, cols):
        return np.array([r.uniform(0.8, 1.25) for _ in range(rows * cols)]).reshape(rows, cols)

    return {'t': arr(1, 1)[0, 0], 'y': arr(nrows, prob['ny']), 'q': arr(nrows, prob['nq']), 'u': arr(nrows, udim),
            'p': arr(1, prob['np'])[0], 'n': arr(1, prob['nn'])[0]}


def answer_arrays(src, script, i, prob):
    """The solver's answer to a guess `src` (a snapshot), as plain arrays. Commutes with scaling of the columns."""
    nrows = script.rng(('mesh', i)).randint(2, 5) if script.d.get('remesh', True) else src['y'].shape[0]
    udim = src['u'].shape[1] if src['u'].ndim == 2 else 0
    mk = markers(script, i, nrows, prob, udim)
    a = {'t': np.linspace(0., 1., nrows) * (src['t'][-1] * mk['t']),
         'y': src['y'][0] * mk['y'],
         'q': src['q'][0] * mk['q'] if src['q'].ndim == 2 and src['q'].size else np.zeros((nrows, 0)),
         'u': src['u'][0] * mk['u'] if udim else np.array([]),
         'dynamical_parameters': src['dynamical_parameters'] * mk['p'],
         'nondynamical_parameters': src['nondynamical_parameters'] * mk['n'],
         'const': src['const'].copy()}
    return a


def _double(x):
    return 2 * x


class SimSolver(BaseAlgorithm):
    def __init__(self, script, prob, out, clock, max_attempts):
        BaseAlgorithm.__init__(self)
        self.script = script
        self.prob = prob
        self.out = out
        self.clock = clock
        self.log = []
        self.max_attempts = max_attempts
        self.buffer = None
        self.closed = 0
        self.solves_after_close = 0
        self.last_const = None
        self.pools_seen = []
        self.tasks_ok = True

    def rearm(self, script):
        self.script = script
        self.log = []
        self.last_const = None

    def close(self):
        self.closed += 1

    def solve(self, solinit, **kwargs):
        i = len(self.log)
        if i >= self.max_attempts:
            raise StepBudget('%d attempts' % i)
        d = self.script.d
        if self.closed:
            self.solves_after_close += 1
        guess = snap(solinit)
        self.out.event('attempt', i, guess['const'].tobytes())
        self.clock.advance(self.script.rng(('dur', i)).uniform(0.01, 90.))
        if self.script.crash == i:
            self.log.append({'guess': guess, 'crash': True})
            self.out.faults['solver_raises'] += 1
            raise CRASHES[d.get('crash_kind', 'plain')]('attempt %d' % i)
        if self.script.interrupt == i:
            self.log.append({'guess': guess, 'crash': True})
            self.out.faults['interrupt_in_solver'] += 1
            raise SolverInterrupt()
        pool = kwargs.get('pool')
        self.pools_seen.append(pool)
        if d.get('use_pool') and pool is not None:
            try:
                got = pool.map(_double, range(d['use_pool']))
            except BaseException:
                self.log.append({'guess': guess, 'crash': True})
                raise
            self.tasks_ok = self.tasks_ok and list(got) == [2 * j for j in range(d['use_pool'])]
        moved = None
        if self.last_const is not None:
            moved = float(np.sum(np.abs(guess['const'] - self.last_const)))
        ok = self.script.converges(i, moved)
        ans = answer_arrays(guess, self.script, i, self.prob)
        if ok:
            self.last_const = guess['const'].copy()
        else:
            self.out.faults['solver_diverges'] += 1
            kind = d.get('garbage')
            if kind:
                bad = {'nan': np.nan, 'inf': np.inf, 'huge': 1e200}[kind]
                ans['y'] = np.full_like(ans['y'], bad)
                ans['dynamical_parameters'] = np.full_like(ans['dynamical_parameters'], bad)
                self.out.faults['garbage_' + kind] += 1
        if d.get('mutate'):
            # scribble over the input; a solver may use its argument as scratch space
            for f in FIELDS:
                arr = getattr(solinit, f)
                if isinstance(arr, np.ndarray) and arr.size:
                    try:
                        arr *= 0.
                    except ValueError:
                        pass
            solinit.converged = True
            self.out.faults['guess_overwritten'] += 1
        mode = d.get('buffers', 'fresh')
        if mode == 'input':
            sol = solinit
            self.out.faults['answer_in_input_object'] += 1
        elif mode == 'reuse':
            if self.buffer is None:
                self.buffer = Trajectory()
            else:
                self.out.faults['output_buffer_reused'] += 1
            sol = self.buffer
        else:
            sol = Trajectory()
        for f in FIELDS:
            new = ans[f]
            old = getattr(sol, f)
            if mode == 'reuse' and isinstance(old, np.ndarray) and old.shape == new.shape and old.size \
                    and old.flags.writeable:
                old[...] = new
            else:
                setattr(sol, f, new.copy())
        sol.dual = np.zeros_like(ans['y'])
        sol.converged = np.bool_(ok) if d.get('npbool') else ok
        self.log.append({'guess': guess, 'answer': {f: ans[f].copy() for f in FIELDS}, 'ok': ok, 'crash': False})
        self.out.event('answer', i, ok)
        return BVPResult(sol=sol, success=sol.converged, message='simulated', niter=1 + i % 7)


class Clock:
    """Simulated wall clock. beluga reads time.time(); every read sees this."""

    def __init__(self, start=1.6e9, jumps=(), rate=1e-4):
        self.t0 = start
        self.rate = rate
        self.now = start
        self.total = 0.0
        self.jumps = list(jumps)       # (read number, delta)
        self.reads = 0
        self.fired = 0

    def advance(self, dt):
        self.now += dt
        self.total += dt

    def time(self):
        self.reads += 1
        for n, delta in self.jumps:
            if n == self.reads:
                self.now += delta
                self.fired += 1
        self.now += self.rate
        return self.now

    def steady(self):
        """A clock that never goes back but may stall for as long as the other jumps forward."""
        self.reads += 1
        for n, delta in self.jumps:
            if n == self.reads:
                self.total += abs(delta)
                self.fired += 1
        self.total += self.rate
        return self.total


class patched_clock:
    def __init__(self, clock):
        self.clock = clock

    def __enter__(self):
        self.real = time.time
        time.time = self.clock.time
        return self.clock

    def __exit__(self, *exc):
        time.time = self.real


# ---------------------------------------------------------------------------------------------------------------------
# building and running
# ---------------------------------------------------------------------------------------------------------------------
def make_steps(plan_steps):
    if plan_steps is None:
        return None
    steps = beluga.init_continuation()
    for sp in plan_steps:
        s = sp['strategy']
        if s == 'manual':
            st = steps.add_step('manual', sp['n']) if sp.get('ctor') else steps.add_step('manual')
            if not sp.get('ctor'):
                st.num_cases(sp['n'], spacing=sp.get('spacing', 'linear'))
        elif s == 'bisection':
            kw = {}
            if 'max_divisions' in sp:
                kw['max_divisions'] = sp['max_divisions']
            if 'num_divisions' in sp:
                kw['num_divisions'] = sp['num_divisions']
            if sp.get('ctor'):
                st = steps.add_step('bisection', sp['n'], **kw)
            else:
                st = steps.add_step('bisection', **kw)
                st.num_cases(sp['n'], spacing=sp.get('spacing', 'linear'))
        elif s == 'productspace':
            st = steps.add_step('productspace')
            st.num_subdivisions(sp['n'])
        else:
            st = steps.add_step('sparse_product')
            st.num_subdivisions((tuple(sp['major']), tuple(sp['minor'])))
        for name, target in sp['vars']:
            st.const(name, target)
    return steps


def max_attempts(plan_steps):
    """More than any correct run of these steps can use, whatever fails."""
    if plan_steps is None:
        return 3
    tot = 5
    for sp in plan_steps:
        if sp['strategy'] in ('manual',):
            tot += sp['n'] + 1
        elif sp['strategy'] == 'bisection':
            tot += 4000
        elif sp['strategy'] == 'productspace':
            tot += sp['n'] ** max(1, len(sp['vars'])) + 1
        else:
            tot += len(sparse_grid([0.] * len(sp['vars']), [1.] * len(sp['vars']), sp['major'], sp['minor'])) + 1
    return tot


class RunLog:
    pass


def execute(plan, out, clock, steps=None, solver=None, guess=None, script=None, save_sols=False, gen=None,
            inv_map=None, n_cpus=1):
    """One beluga.solve. Returns what happened; never raises for anything the code under test does."""
    prob = problem(plan['problem'])
    script = Script(script if script is not None else plan['solver'])
    if steps is None:
        steps = make_steps(plan['steps'])
    if solver is None:
        solver = SimSolver(script, prob, out, clock, max_attempts(plan['steps']))
    else:
        solver.rearm(script)
    g0 = guess if guess is not None else initial_guess(prob, plan.get('guess_seed', 0), plan.get('consts'))
    if gen is None:
        gen = beluga.guess_generator('static', solinit=g0)
    log = RunLog()
    log.guess_before = snap(g0)
    log.out, log.exc = None, None
    with patched_clock(clock):
        try:
            log.out = beluga.solve(
                autoscale=plan['autoscale'], bvp=prob['bvp'], bvp_algorithm=solver, guess_generator=gen,
                ocp=prob['ocp'], ocp_map=lambda s: s, ocp_map_inverse=inv_map or (lambda s: s), steps=steps,
                save_sols=save_sols, n_cpus=n_cpus)
        except (Exception, KeyboardInterrupt, StepBudget) as e:
            log.exc = e
    log.attempts = solver.log
    log.guess_after = snap(g0)
    log.steps = steps
    log.solver = solver
    return log


# ---------------------------------------------------------------------------------------------------------------------
# reference models
# ---------------------------------------------------------------------------------------------------------------------
def spaced(a, b, n, spacing):
    """n evenly spaced values from a to b, both included; a single case is b."""
    if n == 1:
        return [b]
    if spacing == 'log':
        la, lb = math.log10(a), math.log10(b)
        pts = [10. ** (la + (lb - la) * i / (n - 1)) for i in range(n)]
    else:
        pts = [a + (b - a) * i / (n - 1) for i in range(n)]
    pts[0], pts[-1] = a, b
    return pts


def sparse_grid(lo, hi, major, minor):
    """Major points: the full grid. Minor points: between neighbouring major points along axis n, on the lines along n
    whose coordinates on earlier axes are major and on later axes are at the start."""
    nv = len(lo)
    axes = [[lo[n] + (hi[n] - lo[n]) * i / (major[n] - 1) if major[n] > 1 else lo[n] for i in range(major[n])]
            for n in range(nv)]
    pts = [list(p) for p in itertools.product(*axes)]
    for n in range(nv):
        fixed = [axes[m] if m < n else [lo[m]] for m in range(nv)]
        fixed[n] = [None]
        for p in itertools.product(*fixed):
            for a, b in zip(axes[n][:-1], axes[n][1:]):
                for k in range(1, minor[n] + 1):
                    q = list(p)
                    q[n] = a + (b - a) * k / (minor[n] + 1)
                    pts.append(q)
    return pts


def close(a, b, scale=1.0):
    return abs(a - b) <= 1e-9 * (abs(a) + abs(b)) + 1e-12 * scale


def vclose(u, v, tol=1e-9):
    u, v = np.asarray(u, float), np.asarray(v, float)
    return u.shape == v.shape and bool(np.all(np.abs(u - v) <= tol * (np.abs(u) + np.abs(v)) + 1e-13))


class PathModel:
    """manual and bisection: the sequence of values of the continuation variables that must be attempted."""

    def __init__(self, sp, start, names):
        self.sp = sp
        self.idx = [names.index(n) for n, _ in sp['vars']]
        self.start = np.array(start, float)
        self.spacing = sp.get('spacing', 'linear')
        self.pending = []
        cols = [spaced(start[j], float(t), sp['n'], self.spacing) for j, (_, t) in zip(self.idx, sp['vars'])]
        self.pending = [[c[i] for c in cols] for i in range(sp['n'])]
        self.at = None              # values of the last converged case
        self.count = 0
        self.consecutive = 0
        self.failed = False
        self.divisions = 0

    def expected(self):
        """('attempt', values) | ('done',) | ('raise',)"""
        if self.failed:
            if self.sp['strategy'] == 'manual' or self.at is None:
                return ('raise',)
            limit = self.sp.get('max_divisions', 10)
            if self.consecutive <= limit + 1:
                return ('attempt', self.split()[0])
            return ('raise',)
        if not self.pending:
            return ('done',)
        return ('attempt', self.pending[0])

    def split(self):
        nd = self.sp.get('num_divisions', 2)
        cols = [spaced(a, b, nd + 1, self.spacing) for a, b in zip(self.at, self.pending[0])]
        return [[c[i] for c in cols] for i in range(1, nd)] + [self.pending[0]]

    def feed(self, ok):
        if self.failed:
            self.pending[:1] = self.split()
            self.divisions += 1
            self.failed = False
        if ok:
            self.at = self.pending.pop(0)
            self.consecutive = 0
        else:
            self.failed = True
            self.consecutive += 1
        self.count += 1


class GridModel:
    """productspace and sparse_product: the set of points that must be attempted, each once, in any order."""

    def __init__(self, sp, start, names):
        self.sp = sp
        self.idx = [names.index(n) for n, _ in sp['vars']]
        lo = [float(start[j]) for j in self.idx]
        hi = [float(t) for _, t in sp['vars']]
        if sp['strategy'] == 'productspace':
            self.points = [list(p) for p in itertools.product(*[spaced(a, b, sp['n'], 'linear')
                                                                 for a, b in zip(lo, hi)])]
        else:
            self.points = sparse_grid(lo, hi, sp['major'], sp['minor'])
        self.left = list(self.points)
        self.first = True
        self.first_failed = False
        self.divisions = 0

    def take(self, vals):
        for k, p in enumerate(self.left):
            if all(close(a, b) for a, b in zip(p, vals)):
                self.left.pop(k)
                return True
        return False


def expected_answer(src, const, script, i, prob, ok):
    s = dict(src)
    s['const'] = const
    return answer_arrays(s, script, i, prob)


def same_traj(a, b, exact):
    for f in ('t', 'y', 'q', 'u', 'dynamical_parameters', 'nondynamical_parameters'):
        x, y = np.asarray(a[f], float), np.asarray(b[f], float)
        if x.size == 0 and y.size == 0:
            continue
        if x.shape != y.shape:
            return False
        if exact:
            if not np.array_equal(x, y, equal_nan=True):
                return False
        elif not vclose(x, y, 1e-9):
            return False
    return True


def proportional(g, s):
    """Is guess `g` the trajectory `s` up to one positive factor per variable (that is, some scaling of it)?"""
    for f in ('t', 'y', 'q', 'u', 'dynamical_parameters', 'nondynamical_parameters'):
        x, y = np.asarray(g[f], float), np.asarray(s[f], float)
        if x.size == 0 and y.size == 0:
            continue
        if x.shape != y.shape:
            return False
        if x.ndim < 2:
            if f == 't':
                x, y = x[:, None], y[:, None]
            else:
                x, y = x[None, :], y[None, :]
        for j in range(x.shape[1]):
            k = int(np.argmax(np.abs(y[:, j])))
            if not np.isfinite(y[k, j]) or y[k, j] == 0.:
                if not np.array_equal(x[:, j], y[:, j], equal_nan=True):
                    return False
                continue
            fac = x[k, j] / y[k, j]
            if not np.isfinite(fac) or fac <= 0. or not vclose(x[:, j], y[:, j] * fac, 1e-9):
                return False
    return True


def off_controls(prob, g):
    """The control history solve() attaches to the initial guess `g`, from the compiled control law itself."""
    fp = prob['bvp'].functional_problem
    if fp.compute_u is None:
        return np.array([])
    return np.array([fp.compute_u(y, g['dynamical_parameters'], g['const']) for y in g['y']])


def follow(plan, log, out, scr=None):
    """Walks the attempts against the reference models. Adds violations of the classes
       bisect / manual (C02, C01), guess / const (C03), grid (C04). Returns per-step bookkeeping for other oracles."""
    prob = problem(plan['problem'])
    names = prob['names']
    script = Script(scr if scr is not None else plan['solver'])
    auto = plan['autoscale']
    seen_exact = [j for j, n in enumerate(names) if not auto or n in prob['nd']]
    steps = plan['steps']
    info = {'per_step': [], 'desync': False}
    incoming = dict(log.guess_before)
    if not auto:
        # the control of the initial guess is computed by solve(); take it from the first attempt
        if log.attempts:
            incoming['u'] = log.attempts[0]['guess']['u']
    elif log.attempts:
        incoming['u'] = off_controls(prob, log.guess_before)
    k = 0
    n_att = len(log.attempts)
    known_incoming = True
    for si, sp in enumerate(steps):
        path = sp['strategy'] in ('manual', 'bisection')
        model = (PathModel if path else GridModel)(sp, incoming['const'], names)
        sols = []
        rec = {'attempts': [], 'finished': False, 'model': model}
        info['per_step'].append(rec)
        while True:
            if path:
                exp = model.expected()
            else:
                exp = ('raise',) if model.first_failed else (('done',) if not model.left else ('attempt', None))
            if exp[0] == 'done':
                rec['finished'] = True
                break
            if k >= n_att:
                # the run ended here
                if exp[0] == 'attempt':
                    if log.exc is None:
                        out.violate('early', 'step %d ended after %d attempts, before its remaining cases' % (
                            si, len(rec['attempts'])))
                    elif path and model.failed and sp['strategy'] == 'bisection':
                        out.violate('bisect', 'step %d gave up after %d consecutive failures, max_divisions is %s: %r'
                                    % (si, model.consecutive, sp.get('max_divisions', 10), log.exc))
                    else:
                        out.violate('early', 'step %d stopped with %r although nothing was wrong with it' % (
                            si, log.exc))
                elif exp[0] == 'raise' and log.exc is None:
                    out.violate('silent', 'step %d failed but the solve returned normally' % si)
                info['ended_at'] = si
                return info
            if exp[0] == 'raise':
                out.violate('bisect' if sp['strategy'] == 'bisection' else 'silent',
                            'step %d went on (attempt %d) where it had to stop: %d consecutive failures' % (
                                si, k, getattr(model, 'consecutive', 1)))
                info['desync'] = True
                return info
            att = log.attempts[k]
            want = incoming['const'].copy()
            if path:
                for j, v in zip(model.idx, exp[1]):
                    want[j] = v
            else:
                for j in model.idx:
                    want[j] = att['guess']['const'][j]
            got = att['guess']['const']
            diff = [names[j] for j in seen_exact if not close(got[j], want[j])]
            if diff:
                cls = 'const'
                if path and sp['strategy'] == 'bisection' and all(n in [v for v, _ in sp['vars']] for n in diff):
                    cls = 'bisect' if (model.divisions or model.failed) else 'target'
                elif path and all(n in [v for v, _ in sp['vars']] for n in diff):
                    cls = 'target'
                out.violate(cls, 'step %d attempt %d: constants %s are %s, expected %s' % (
                    si, len(rec['attempts']), diff, [float(got[names.index(n)]) for n in diff],
                    [float(want[names.index(n)]) for n in diff]))
                info['desync'] = True
                return info
            if not path:
                vals = [got[j] for j in model.idx]
                if not model.take(vals):
                    out.violate('grid', 'step %d attempt %d visits %s, which is not a grid point still to be visited' % (
                        si, len(rec['attempts']), [float(v) for v in vals]))
                    info['desync'] = True
                    return info
            # the guess: nearest converged solution of this step, else the incoming one
            if known_incoming or any(s['ok'] for s in sols):
                conv = [s for s in sols if s['ok']]
                if conv:
                    dist = [float(np.sum(np.abs(s['snap']['const'] - want))) for s in conv]
                    best = min(dist)
                    tol = 1e-9 * (1. + best)
                    cands = [s for s, dd in zip(conv, dist) if dd <= best + tol]
                    sources = [s['snap'] for s in cands]
                else:
                    sources = [incoming]
                if auto:
                    ok_src = [s for s in sources if proportional(att['guess'], s)]
                else:
                    ok_src = [s for s in sources if same_traj(att['guess'], s, True)]
                if not ok_src:
                    where = 'none of the solutions so far'
                    for s in sols:
                        if (proportional if auto else lambda a, b: same_traj(a, b, True))(att['guess'], s['snap']):
                            where = 'attempt %d (%s, distance %.6g)' % (
                                s['n'], 'converged' if s['ok'] else 'diverged',
                                float(np.sum(np.abs(s['snap']['const'] - want))))
                    out.violate('guess', 'step %d attempt %d at %s starts from %s instead of the nearest converged one '
                                '(attempt(s) %s)' % (si, len(rec['attempts']), [float(x) for x in want], where,
                                                     [s['n'] for s in cands] if conv else 'incoming'))
                    src = None
                else:
                    src = ok_src[0]
                if len(sources) > 1:
                    out.probes['equidistant_guesses'] += 1
                if conv and cands[0] is not conv[-1]:
                    out.probes['nearest_is_not_latest'] += 1
            else:
                src = None
            if att['crash']:
                rec['attempts'].append({'want': want, 'ok': None, 'k': k})
                info['ended_at'] = si
                if log.exc is None:
                    out.violate('silent', 'attempt %d raised inside the solver but the solve returned normally' % k)
                return info
            if src is not None:
                full = expected_answer(src, want, script, k, prob, att['ok'])
            else:
                full = dict(att['answer'])
                full['const'] = want
            if not att['ok'] and script.d.get('garbage'):
                bad = {'nan': np.nan, 'inf': np.inf, 'huge': 1e200}[script.d['garbage']]
                full['y'] = np.full_like(full['y'], bad)
                full['dynamical_parameters'] = np.full_like(full['dynamical_parameters'], bad)
            if not auto:
                full = dict(att['answer'])
            sols.append({'snap': full, 'ok': att['ok'], 'n': len(rec['attempts'])})
            rec['attempts'].append({'want': want, 'ok': att['ok'], 'k': k, 'answer': full, 'src': src})
            out.state(si, sp['strategy'], len(rec['attempts']), att['ok'],
                      tuple(np.round(want, 9)), getattr(model, 'consecutive', 0))
            if path:
                model.feed(att['ok'])
                if model.consecutive == sp.get('max_divisions', 10) + 1 and sp['strategy'] == 'bisection':
                    out.probes['division_limit_reached'] += 1
            else:
                if model.first and not att['ok']:
                    model.first_failed = True
                model.first = False
            k += 1
        if getattr(model, 'divisions', 0):
            out.probes['divided_and_finished'] += 1
        if not path and any(not s['ok'] for s in sols):
            out.probes['grid_case_failed_and_went_on'] += 1
        incoming = dict(sols[-1]['snap'])
        known_incoming = sols[-1]['ok']
        if not known_incoming and si + 1 < len(steps):
            # what the next step starts from (a diverged, possibly non-finite trajectory) is not specified
            out.probes['step_after_failed_last_grid_case'] += 1
            info['unspecified_from'] = si + 1
            return info
    if k < n_att:
        out.violate('extra', '%d attempts after the last case of the last step' % (n_att - k))
    if log.exc is not None:
        out.violate('raised', 'every step finished, yet the solve raised %r' % log.exc)
    info['completed'] = True
    return info


# ---------------------------------------------------------------------------------------------------------------------
# plan generation and shrinking
# ---------------------------------------------------------------------------------------------------------------------
def gen_step(rng, pname, autoscale, kinds, current):
    kind = rng.choice(kinds)
    grid = kind in ('productspace', 'sparse_product')
    # under autoscaling the solver sees dimensionless constants exactly; grids are checked point by point, so use those
    pool = ND if (grid and autoscale) else VARS[pname]
    nv = rng.randint(1, 3)
    if kind == 'manual' and rng.random() < 0.08:
        nv = 0
    names = rng.sample(pool, nv)
    sp = {'strategy': kind}
    log = not grid and rng.random() < 0.25 and all(current[n] > 0 for n in names)
    vars_ = []
    for n in names:
        v = current[n]
        c = rng.random()
        if c < 0.06:
            t = v
        elif c < 0.5:
            t = v * rng.choice([2, 3, 10, 0.5, 0.1])
        elif c < 0.8:
            t = v + rng.choice([-1, 1]) * rng.uniform(0.1, 20)
        else:
            t = float(rng.randint(-50, 50)) or 7.0
        if log:
            t = abs(t) or 1.0
        vars_.append([n, t])
        current[n] = t
    sp['vars'] = vars_
    if kind == 'manual':
        sp['n'] = rng.choice([1, 2, 2, 3, 4, 5, 8, 13])
        if nv == 0:
            sp['n'] = rng.choice([1, 1, 2])
    elif kind == 'bisection':
        sp['n'] = rng.choice([1, 2, 2, 2, 3, 3, 4, 5, 7, 11, 21])
        if rng.random() < 0.7:
            sp['max_divisions'] = rng.choice([0, 1, 2, 3, 4, 6])
        if rng.random() < 0.5:
            sp['num_divisions'] = rng.choice([2, 2, 3, 4, 5])
    elif kind == 'productspace':
        sp['n'] = rng.choice([2, 2, 3, 4, 5] if nv < 2 else [2, 3, 4] if nv < 3 else [2, 2, 3])
    else:
        sp['major'] = [rng.choice([2, 2, 3, 4]) if nv < 3 else 2 for _ in range(nv)]
        sp['minor'] = [rng.choice([0, 1, 2, 3]) if nv < 3 else rng.choice([0, 1]) for _ in range(nv)]
    if log:
        sp['spacing'] = 'log'
    elif not grid and rng.random() < 0.15:
        sp['ctor'] = True
    return sp


def est_attempts(sp):
    if sp['strategy'] in ('manual', 'bisection'):
        return sp['n']
    if sp['strategy'] == 'productspace':
        return sp['n'] ** max(1, len(sp['vars']))
    return len(sparse_grid([0.] * len(sp['vars']), [1.] * len(sp['vars']), sp['major'], sp['minor']))


def gen_solver(rng, steps, fail_ok=True, crash_ok=True):
    total = sum(est_attempts(s) for s in steps) if steps else 1
    d = {'seed': rng.randint(0, 10 ** 9), 'fail': []}
    c = rng.random()
    if fail_ok:
        if c < 0.2:
            pass
        elif c < 0.45:
            d['fail'] = sorted({rng.randrange(0 if rng.random() < 0.1 else 1, total + 3)
                                for _ in range(rng.randint(1, 3))})
        elif c < 0.7:
            # bursts of consecutive failures, as many as the limits are made of
            fails = set()
            for _ in range(rng.randint(1, 3)):
                a = rng.randint(1, total + 4)
                fails.update(range(a, a + rng.randint(1, 8)))
            d['fail'] = sorted(fails)
        elif c < 0.85:
            p = rng.uniform(0.05, 0.6)
            d['fail'] = [i for i in range(1, 3 * total + 20) if rng.random() < p]
        else:
            d['basin'] = rng.choice([0.5, 1., 2., 5., 20.])
            if rng.random() < 0.3:
                d['fail'] = [rng.randint(1, total + 5)]
    if crash_ok and rng.random() < 0.12:
        d[rng.choice(['crash', 'interrupt'])] = rng.randrange(total + 3)
    d['crash_kind'] = rng.choice(sorted(CRASHES))
    if rng.random() < 0.5:
        d['garbage'] = rng.choice(['nan', 'inf', 'huge'])
    if rng.random() < 0.4:
        d['mutate'] = True
    d['buffers'] = rng.choice(['fresh', 'reuse', 'input'])
    if rng.random() < 0.4:
        d['npbool'] = True
    if rng.random() < 0.5:
        d['remesh'] = False
    return d


def gen_plan(rng, kinds, max_steps=3, autoscale=None, fail_ok=True, crash_ok=True,
             problems=('spring', 'spring', 'slide')):
    pname = rng.choice(list(problems))
    autoscale = (rng.random() < 0.4) if autoscale is None else autoscale
    defaults = DEFAULTS[pname]
    consts = {n: rng.choice([v, v * rng.uniform(0.3, 3.)]) for n, v in defaults.items()}
    current = dict(consts)
    steps = [gen_step(rng, pname, autoscale, kinds, current) for _ in range(rng.randint(1, max_steps))]
    return {'problem': pname, 'autoscale': autoscale, 'consts': consts, 'guess_seed': rng.randint(0, 10 ** 6),
            'steps': steps, 'solver': gen_solver(rng, steps, fail_ok, crash_ok)}


def gen_long(rng, kinds, fail_ok=True, **kw):
    """A plan with one step of more than a hundred cases."""
    plan = gen_plan(rng, kinds, max_steps=1, fail_ok=fail_ok, crash_ok=False, **kw)
    sp = plan['steps'][0]
    if sp['strategy'] in ('manual', 'bisection'):
        sp['n'] = rng.randint(105, 240)
    elif sp['strategy'] == 'productspace':
        sp['n'] = {1: rng.randint(105, 200), 2: rng.randint(11, 14), 3: rng.choice([5, 11])}[len(sp['vars'])]
    else:
        sp['major'] = [{1: rng.randint(30, 50), 2: rng.randint(6, 8), 3: 4}[len(sp['vars'])] for _ in sp['vars']]
        sp['minor'] = [{1: 3, 2: 1, 3: 1}[len(sp['vars'])] for _ in sp['vars']]
    plan['solver'] = gen_solver(rng, plan['steps'], fail_ok, False)
    plan['solver'].pop('basin', None)
    return plan


def shrink_solver(d):
    for key in ('crash', 'interrupt', 'garbage', 'mutate', 'npbool', 'basin'):
        if d.get(key) is not None:
            yield {k: v for k, v in d.items() if k != key}
    if d.get('crash_kind', 'plain') != 'plain':
        yield dict(d, crash_kind='plain')
    if d.get('buffers', 'fresh') != 'fresh':
        yield dict(d, buffers='fresh')
    if d.get('remesh', True):
        yield dict(d, remesh=False)
    f = d.get('fail', [])
    if f:
        yield dict(d, fail=[])
        h = len(f) // 2
        if h:
            yield dict(d, fail=f[:h])
            yield dict(d, fail=f[h:])
        for i in range(len(f)):
            yield dict(d, fail=f[:i] + f[i + 1:])
        for i in range(len(f)):
            if f[i] > 0 and f[i] - 1 not in f:
                yield dict(d, fail=sorted(f[:i] + [f[i] - 1] + f[i + 1:]))


def shrink_steps(steps):
    if steps is None:
        return
    if len(steps) > 1:
        for i in range(len(steps)):
            yield steps[:i] + steps[i + 1:]
    for i, sp in enumerate(steps):
        alts = []
        if len(sp['vars']) > 1 and sp['strategy'] != 'sparse_product':
            for j in range(len(sp['vars'])):
                alts.append(dict(sp, vars=sp['vars'][:j] + sp['vars'][j + 1:]))
        if sp['strategy'] == 'sparse_product' and len(sp['vars']) > 1:
            for j in range(len(sp['vars'])):
                alts.append(dict(sp, vars=sp['vars'][:j] + sp['vars'][j + 1:],
                                 major=sp['major'][:j] + sp['major'][j + 1:],
                                 minor=sp['minor'][:j] + sp['minor'][j + 1:]))
        if sp.get('n', 0) > 2:
            alts.append(dict(sp, n=2))
            if sp['n'] > 20:
                alts.append(dict(sp, n=sp['n'] * 3 // 4))
                alts.append(dict(sp, n=sp['n'] - 8))
            alts.append(dict(sp, n=sp['n'] - 1))
        if 'spacing' in sp:
            alts.append({k: v for k, v in sp.items() if k != 'spacing'})
        if sp.get('ctor'):
            alts.append({k: v for k, v in sp.items() if k != 'ctor'})
        if sp['strategy'] == 'sparse_product':
            for j in range(len(sp['major'])):
                if sp['major'][j] > 2:
                    alts.append(dict(sp, major=sp['major'][:j] + [sp['major'][j] - 1] + sp['major'][j + 1:]))
                if sp['minor'][j] > 0:
                    alts.append(dict(sp, minor=sp['minor'][:j] + [sp['minor'][j] - 1] + sp['minor'][j + 1:]))
        for a in alts:
            yield steps[:i] + [a] + steps[i + 1:]


def shrink_plan(plan):
    for s in shrink_steps(plan.get('steps')):
        yield dict(plan, steps=s)
    for d in shrink_solver(plan['solver']):
        yield dict(plan, solver=d)
    if plan.get('autoscale'):
        yield dict(plan, autoscale=False)
    if plan['problem'] != 'spring':
        yield dict(plan, problem='spring', consts={})
    if plan.get('consts'):
        yield dict(plan, consts={})
    if 'histories' in plan:
        hs = plan['histories']
        for i in range(len(hs)):
            yield dict(plan, histories=hs[:i] + hs[i + 1:])
        for i, h in enumerate(hs):
            for d in shrink_solver(h['solver']):
                yield dict(plan, histories=hs[:i] + [dict(h, solver=d)] + hs[i + 1:])


REAL = ['beluga.solve', 'beluga.continuation (list, all four strategies, run_continuation_set)',
        'beluga.guess_generator (static)', 'the compiled problem: scaling, control law and boundary conditions built by '
        'the real symbolic pipeline', 'Trajectory']
STUB = ['BVP solver (scripted convergence, divergence, exceptions, buffer behaviour)', 'wall clock (time.time)',
        'mapping between OCP and BVP (identity, passed through the public ocp_map arguments)']
