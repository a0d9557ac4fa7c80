"""Optimal control problems solved for real, from symbolic definition to returned trajectories."""
import hashlib
import random
from math import pi

import numpy as np

from sim.boot import load_beluga
beluga = load_beluga()

FIELDS = ('t', 'y', 'dual', 'dual_t', 'q', 'u', 'dynamical_parameters', 'nondynamical_parameters', 'const')


def brach():
    ocp = beluga.Problem()
    ocp.independent('t', 's')
    ocp.state('x', 'v*cos(theta)', 'm').state('y', 'v*sin(theta)', 'm').state('v', 'g*sin(theta)', 'm/s')
    ocp.control('theta', 'rad')
    ocp.constant('g', -9.81, 'm/s^2').constant('x_f', 0, 'm').constant('y_f', 0, 'm')
    ocp.path_cost('1', '1')
    for c, u in (('x', 'm'), ('y', 'm'), ('v', 'm/s'), ('t', 's')):
        ocp.initial_constraint(c, u)
    ocp.terminal_constraint('x-x_f', 'm').terminal_constraint('y-y_f', 'm')
    ocp.scale(m='y', s='y/v', kg=1, rad=1, nd=1)
    return ocp, dict(start=[0, 0, 0], costate_guess=-0.1, control_guess=[-pi / 2], use_control_guess=True), \
        {'x_f': (2., 6.), 'y_f': (-6., -2.)}


def brach_sym():
    """The same problem with its two symmetries declared, for the reduced form of the method."""
    ocp, g, targets = brach()
    ocp.symmetry(['1', '0', '0'], 'm')
    ocp.symmetry(['0', '1', '0'], 'm')
    return ocp, g, targets


def spring():
    ocp = beluga.Problem('spring')
    ocp.independent('t', 's')
    ocp.state('x', 'v', 'm').state('v', 'u - k*x', 'm/s')
    ocp.control('u', 'm/s^2')
    ocp.constant('k', 0.5, '1/s^2').constant('x_f', 0.1, 'm').constant('x_0', 1.0, 'm')
    ocp.path_cost('u**2', 'm^2/s^4')
    ocp.initial_constraint('x-x_0', 'm').initial_constraint('v', 'm/s').initial_constraint('t', 's')
    ocp.terminal_constraint('x-x_f', 'm').terminal_constraint('v', 'm/s').terminal_constraint('t-1', 's')
    ocp.scale(m='x', s=1, kg=1, rad=1, nd=1)
    return ocp, dict(start=[1, 0], costate_guess=0.1, control_guess=[0.1], use_control_guess=True), \
        {'x_f': (0.2, 2.), 'k': (0.3, 1.)}


def steer():
    """Zermelo's boat: custom function, inequality at the end, free time. Its units do not allow for scaling."""
    def drift_y(x):
        return ((x - 5.)**4 - 625)/625

    ocp = beluga.Problem('steer')
    ocp.custom_function('drift_y', drift_y, 'm', ['m'])
    ocp.independent('t', 's')
    ocp.state('x', 'V*cos(theta)', 'm').state('y', 'V*sin(theta) + drift_y(x)', 'm')
    ocp.control('theta', 'rad')
    ocp.constant('V', 10, 'm/s').constant('x_f', 0, 'm').constant('y_f', 0, 'm')
    ocp.constant('w', 2, 'm').constant('eps', 1e-2, '1')
    ocp.path_cost('1', '1')
    ocp.initial_constraint('x', 'm').initial_constraint('y', 'm').initial_constraint('t', 's')
    ocp.terminal_constraint('x-x_f', 'm')
    ocp.terminal_constraint('y-y_f', 'm', lower='-w', upper='w', activator='eps', method='utm')
    ocp.scale(m='x', s='x/V', rad=1)
    return ocp, dict(start=[0, 0], control_guess=[0], use_control_guess=True), {'x_f': (4., 8.), 'y_f': (-.5, .5)}


def denham():
    """Bryson-Denham: a bounded state by a penalty, fixed time."""
    ocp = beluga.Problem('denham')
    ocp.independent('t', 's')
    ocp.state('x', 'v', 'm').state('v', 'u', 'm/s')
    ocp.control('u', 'm/s**2')
    ocp.constant('v_0', 1, 'm/s').constant('x_f', 0, 'm').constant('v_f', -1, 'm/s')
    ocp.constant('eps', 10, 'm**2/s**4').constant('x_max', .3, 'm')
    ocp.path_cost('u**2', 'm**2/s**4')
    ocp.initial_constraint('x', 'm').initial_constraint('v - v_0', 'm/s').initial_constraint('t', 's')
    ocp.terminal_constraint('x - x_f', 'm').terminal_constraint('v - v_f', 'm/s').terminal_constraint('t - 1', 's')
    ocp.path_constraint('x', 'm', lower='-x_max', upper='x_max', activator='eps', method='utm')
    ocp.scale(m='x', s=1)
    return ocp, dict(start=[0, 1], costate_guess=-.1, control_guess=[-2], use_control_guess=True,
                     time_integrate=.1), {'x_max': (.2, .3), 'v_f': (-1.2, -.8)}


def lander():
    """Moon lander: a bounded control by a penalty, free time. Its units do not allow for scaling."""
    ocp = beluga.Problem('lander')
    ocp.independent('t', 's')
    ocp.state('h', 'v', 'm').state('v', 'u - g', 'm/s')
    ocp.control('u', 'm/s**2')
    for n, v, u in (('g', 1.625, 'm/s^2'), ('eps', 1, 'm/s**2'), ('h_0', 20, 'm'), ('v_0', -2.5, 'm/s'),
                    ('h_f', 0, 'm'), ('v_f', 0, 'm/s'), ('u_lower', -1, 'm/s**2'), ('u_upper', 5, 'm/s**2')):
        ocp.constant(n, v, u)
    ocp.path_cost('u', 'm/s')
    ocp.initial_constraint('h - h_0', 'm').initial_constraint('v - v_0', 'm/s').initial_constraint('t', 's')
    ocp.terminal_constraint('h - h_f', 'm').terminal_constraint('v - v_f', 'm/s')
    ocp.path_constraint('u', 'm/s**2', lower='u_lower', upper='u_upper', activator='eps', method='utm')
    ocp.scale(m='h', s='h/v')
    return ocp, dict(start=[20, -2.5], costate_guess=-.1, control_guess=[0], use_control_guess=True), \
        {'h_f': (-1., 1.), 'v_f': (-.5, .1)}


def orbit():
    """Orbit raising: terminal cost, two algebraic controls branches, a quantity, an ignorable state, fixed time."""
    ocp = beluga.Problem('orbit')
    ocp.independent('t', 's')
    ocp.state('r', 'v_r', 'L').state('theta', 'v_theta/r', 'rad')
    ocp.state('v_r', 'v_theta**2/r - mu/r**2 + acc*cos(alpha)', 'L/s')
    ocp.state('v_theta', '-v_r*v_theta/r + acc*sin(alpha)', 'L/s')
    ocp.quantity('acc', 'T/m')
    ocp.control('alpha', 'rad')
    for n, v, u in (('mu', 1, 'L**3/s**2'), ('T', .1, 'M*L/s**2'), ('m', 1, 'M'), ('r_0', 1, 'L'), ('v_0', 1, 'L/s'),
                    ('t_f', 1, 's'), ('v_r_f', 0, 'L/s')):
        ocp.constant(n, v, u)
    ocp.terminal_cost('-r**2', 'L**2')
    ocp.initial_constraint('r-r_0', 'L').initial_constraint('theta', 'rad').initial_constraint('v_r', 'L/s')
    ocp.initial_constraint('v_theta-v_0', 'L/s').initial_constraint('t', 's')
    ocp.terminal_constraint('v_r - v_r_f', 'L/s').terminal_constraint('v_theta - sqrt(mu / r)', 'L/s')
    ocp.terminal_constraint('t - t_f', 's')
    ocp.scale(L='r', s='r/v_theta', M='m', rad=1)
    return ocp, dict(start=[1, 0, 0, 1], costate_guess=-.1), {'t_f': (1.5, 2.5), 'T': (.08, .15)}


def tug():
    """Two controls, linear, with a terminal cost, fixed time."""
    ocp = beluga.Problem('tug')
    ocp.independent('t', 's')
    ocp.state('x', 'v', 'm').state('v', 'a - d*v', 'm/s').state('z', 'w + k*x', 'm')
    ocp.control('a', 'm/s**2').control('w', 'm/s')
    ocp.constant('d', .5, '1/s').constant('k', .3, '1/s').constant('x_f', 1, 'm').constant('z_f', 0, 'm')
    ocp.constant('t_f', 1, 's').constant('b', 2, '1/s**2')
    ocp.path_cost('a**2 + b*w**2', 'm**2/s**4')
    ocp.initial_constraint('x', 'm').initial_constraint('v', 'm/s').initial_constraint('z', 'm')
    ocp.initial_constraint('t', 's')
    ocp.terminal_constraint('x - x_f', 'm').terminal_constraint('z - z_f', 'm').terminal_constraint('t - t_f', 's')
    ocp.scale(m='x', s=1)
    return ocp, dict(start=[0, 0, 0], costate_guess=-.1, control_guess=[.1, .1], use_control_guess=True), \
        {'x_f': (.5, 2.), 'z_f': (-1., 1.)}


def boxed():
    """A bounded control by the trigonometric substitution, fixed time."""
    ocp = beluga.Problem('boxed')
    ocp.independent('t', 's')
    ocp.state('x', 'v', 'm').state('v', 'a - d*v', 'm/s')
    ocp.control('a', 'm/s**2')
    for n, v, u in (('d', .4, '1/s'), ('x_f', .1, 'm'), ('t_f', 1, 's'), ('lo', -3, 'm/s**2'), ('hi', 6, 'm/s**2'),
                    ('eps', 1., 'm**2/s**4')):
        ocp.constant(n, v, u)
    ocp.path_cost('a**2', 'm**2/s**4')
    ocp.initial_constraint('x', 'm').initial_constraint('v', 'm/s').initial_constraint('t', 's')
    ocp.terminal_constraint('x - x_f', 'm').terminal_constraint('v', 'm/s').terminal_constraint('t - t_f', 's')
    ocp.path_constraint('a', 'm/s**2', lower='lo', upper='hi', activator='eps', method='epstrig')
    ocp.scale(m='x', s=1)
    return ocp, dict(start=[0, 0], costate_guess=-.1, control_guess=[.1], use_control_guess=True), \
        {'x_f': (.2, .6), 'eps': (.5, 1.5)}


def stage():
    """Explicit time, a switch and quantities that build on each other, fixed time."""
    ocp = beluga.Problem('stage')
    ocp.independent('t', 's')
    ocp.state('x', 'v', 'm').state('v', 'a - drag*v - pull', 'm/s')
    ocp.control('a', 'm/s**2')
    ocp.quantity('pull', 'soft + w*sin(om*t)')
    ocp.quantity('soft', 'k*x - k*x**3/b**2')
    ocp.switch('drag', ['d0', 'd1'], [['x - x_s'], ['x_s - x']], 'tol')
    for n, v, u in (('d0', .3, '1/s'), ('d1', .9, '1/s'), ('x_s', .5, 'm'), ('tol', .1, 'm'), ('w', .4, 'm/s**2'),
                    ('om', 3, 'rad/s'), ('k', .5, '1/s**2'), ('b', 3, 'm'), ('x_f', .2, 'm'), ('t_f', 1.5, 's')):
        ocp.constant(n, v, u)
    ocp.path_cost('a**2', 'm**2/s**4')
    ocp.initial_constraint('x', 'm').initial_constraint('v', 'm/s').initial_constraint('t', 's')
    ocp.terminal_constraint('x - x_f', 'm').terminal_constraint('t - t_f', 's')
    ocp.scale(m='x', s=1, rad=1)
    return ocp, dict(start=[0, 0], costate_guess=-.1, control_guess=[.1], use_control_guess=True), \
        {'x_f': (.6, 1.2), 'd1': (.5, 1.5)}


def launch():
    """Costs at both ends, on states that are free there, fixed time."""
    ocp = beluga.Problem('launch')
    ocp.independent('t', 's')
    ocp.state('x', 'v', 'm').state('v', 'a - d*v', 'm/s')
    ocp.control('a', 'm/s**2')
    for n, v, u in (('d', .4, '1/s'), ('x_f', .3, 'm'), ('v_s', .5, 'm/s'), ('r', 2., '1/s'), ('q', 1.5, '1/s**3'),
                    ('t_f', 1, 's')):
        ocp.constant(n, v, u)
    ocp.path_cost('a**2', 'm**2/s**4')
    ocp.initial_cost('r*(v-v_s)**2', 'm**2/s**3')
    ocp.terminal_cost('q*(x-x_f)**2', 'm**2/s**3')
    ocp.initial_constraint('x', 'm').initial_constraint('t', 's')
    ocp.terminal_constraint('v', 'm/s').terminal_constraint('t - t_f', 's')
    ocp.scale(m='x', s=1)
    return ocp, dict(start=[0, .5], costate_guess=-.1, control_guess=[.1], use_control_guess=True), \
        {'x_f': (.2, .8), 'r': (.5, 3.)}


_DEPTHS = np.linspace(-1.7, .3, 21)
REEF = {'reef': (np.sin(2 * _DEPTHS), .2, 1.), 'reef2': (np.cos(3 * _DEPTHS), .35, -.5)}


def _reef(name):
    """A table and a function of two arguments, of expressions and in either order, fixed time. Not scaled."""
    data, c1, c2 = REEF[name]

    def drag(p, q):
        return c1 * p * (1 + c2 * q * q)

    ocp = beluga.Problem('reef')
    ocp.independent('t', 's')
    ocp.state('x', 'v', 'm').state('v', 'a - cur(h) - drag(v, x) + w*drag(x, v)', 'm/s')
    ocp.table('cur', '1d_spline', data, _DEPTHS, 'm/s**2', ['m'])
    ocp.custom_function('drag', drag, 'm/s**2', ['m', 'm'])
    ocp.quantity('h', 'x_s - x')       # starts at the end of the table
    ocp.control('a', 'm/s**2')
    for n, v, u in (('x_s', .3, 'm'), ('w', .4, '1'), ('x_f', .1, 'm'), ('t_f', 1, 's')):
        ocp.constant(n, v, u)
    ocp.path_cost('a**2', 'm**2/s**4')
    ocp.initial_constraint('x', 'm').initial_constraint('v', 'm/s').initial_constraint('t', 's')
    ocp.terminal_constraint('x - x_f', 'm').terminal_constraint('t - t_f', 's')
    return ocp, dict(start=[0, 0], costate_guess=-.1, control_guess=[.1], use_control_guess=True), \
        {'x_f': (.3, 1.1), 'w': (-.5, .8)}


def reef():
    return _reef('reef')


def reef2():
    return _reef('reef2')


def _reef_truth(name):
    from scipy.interpolate import CubicSpline
    data, c1, c2 = REEF[name]
    cur = CubicSpline(_DEPTHS, data, bc_type='natural')

    def drag(p, q):
        return c1 * p * (1 + c2 * q * q)
    return dict(f=lambda x, u, c: [x[1], u[0] - cur(c['x_s'] - x[0]) - drag(x[1], x[0]) + c['w'] * drag(x[0], x[1])],
                L=lambda x, u, c: u[0] ** 2, ends=lambda t, x, c: [x[0][0], x[0][1], t[0], x[1][0] - c['x_f'], t[1] - c['t_f']],
                phi=lambda x, c: 0., free=[1])


def _penalty(e, lo, hi):
    return 1 / np.cos(pi / 2 * (2 * e - hi - lo) / (hi - lo)) - 1


# What each problem says, written down again without beluga: rates of the states, running cost, conditions at both ends
TRUTH = {
    'brach': dict(angle=True, f=lambda x, u, c: [x[2] * np.cos(u[0]), x[2] * np.sin(u[0]), c['g'] * np.sin(u[0])],
                  L=lambda x, u, c: 1., ends=lambda t, x, c: [x[0][0], x[0][1], x[0][2], t[0],
                                                              x[1][0] - c['x_f'], x[1][1] - c['y_f']], free_time=True),
    'spring': dict(f=lambda x, u, c: [x[1], u[0] - c['k'] * x[0]], L=lambda x, u, c: u[0] ** 2,
                   ends=lambda t, x, c: [x[0][0] - c['x_0'], x[0][1], t[0], x[1][0] - c['x_f'], x[1][1], t[1] - 1]),
    'steer': dict(angle=True, f=lambda x, u, c: [c['V'] * np.cos(u[0]), c['V'] * np.sin(u[0]) + ((x[0] - 5.) ** 4 - 625) / 625],
                  L=lambda x, u, c: 1., ends=lambda t, x, c: [x[0][0], x[0][1], t[0], x[1][0] - c['x_f']],
                  phi=lambda x, c: c['eps'] * _penalty(x[1] - c['y_f'], -c['w'], c['w']), free=[1], free_time=True),
    'denham': dict(f=lambda x, u, c: [x[1], u[0]],
                   L=lambda x, u, c: u[0] ** 2 + c['eps'] * _penalty(x[0], -c['x_max'], c['x_max']),
                   ends=lambda t, x, c: [x[0][0], x[0][1] - c['v_0'], t[0], x[1][0] - c['x_f'],
                                         x[1][1] - c['v_f'], t[1] - 1]),
    'lander': dict(f=lambda x, u, c: [x[1], u[0] - c['g']],
                   L=lambda x, u, c: u[0] + c['eps'] * _penalty(u[0], c['u_lower'], c['u_upper']),
                   ends=lambda t, x, c: [x[0][0] - c['h_0'], x[0][1] - c['v_0'], t[0], x[1][0] - c['h_f'],
                                         x[1][1] - c['v_f']], free_time=True),
    'orbit': dict(angle=True, f=lambda x, u, c: [x[2], x[3] / x[0],
                                     x[3] ** 2 / x[0] - c['mu'] / x[0] ** 2 + c['T'] / c['m'] * np.cos(u[0]),
                                     -x[2] * x[3] / x[0] + c['T'] / c['m'] * np.sin(u[0])],
                  L=lambda x, u, c: 0.,
                  ends=lambda t, x, c: [x[0][0] - c['r_0'], x[0][1], x[0][2], x[0][3] - c['v_0'], t[0],
                                        x[1][2] - c['v_r_f'], x[1][3] - np.sqrt(c['mu'] / x[1][0]), t[1] - c['t_f']],
                  phi=lambda x, c: -x[0] ** 2, free=[1]),
    'tug': dict(f=lambda x, u, c: [x[1], u[0] - c['d'] * x[1], u[1] + c['k'] * x[0]],
                L=lambda x, u, c: u[0] ** 2 + c['b'] * u[1] ** 2,
                ends=lambda t, x, c: [x[0][0], x[0][1], x[0][2], t[0], x[1][0] - c['x_f'], x[1][2] - c['z_f'],
                                      t[1] - c['t_f']], phi=lambda x, c: 0., free=[1]),
}



def _boxed_cost(x, u, c):
    s = (2 * u[0] - c['hi'] - c['lo']) / (c['hi'] - c['lo'])
    return u[0] ** 2 - c['eps'] * np.sqrt(np.maximum(0., 1 - s * s))


def _stage_rates(x, u, c):
    z = (x[0] - c['x_s']) / c['tol']
    drag = c['d0'] / (1 + np.exp(z)) + c['d1'] / (1 + np.exp(-z))
    return [x[1], u[0] - drag * x[1] - c['k'] * (x[0] - x[0] ** 3 / c['b'] ** 2) - c['w'] * np.sin(c['om'] * x[2]), 1.]


TRUTH['boxed'] = dict(f=lambda x, u, c: [x[1], u[0] - c['d'] * x[1]], L=_boxed_cost,
                      ends=lambda t, x, c: [x[0][0], x[0][1], t[0], x[1][0] - c['x_f'], x[1][1], t[1] - c['t_f']])
TRUTH['stage'] = dict(f=_stage_rates, L=lambda x, u, c: u[0] ** 2, timed=True,
                      ends=lambda t, x, c: [x[0][0], x[0][1], t[0], x[1][0] - c['x_f'], t[1] - c['t_f']],
                      phi=lambda x, c: 0., free=[1])
TRUTH['launch'] = dict(f=lambda x, u, c: [x[1], u[0] - c['d'] * x[1]], L=lambda x, u, c: u[0] ** 2,
                       ends=lambda t, x, c: [x[0][0], t[0], x[1][1], t[1] - c['t_f']],
                       phi=lambda x, c: c['q'] * (x[0] - c['x_f']) ** 2, free=[0],
                       phi0=lambda x, c: c['r'] * (x[1] - c['v_s']) ** 2, free0=[1])
TRUTH.update((_n, _reef_truth(_n)) for _n in REEF)
TRUTH['brach_sym'] = TRUTH['brach']
ZOO = {'brach': brach, 'brach_sym': brach_sym, 'spring': spring, 'steer': steer, 'denham': denham, 'lander': lander, 'orbit': orbit,
       'tug': tug, 'boxed': boxed, 'stage': stage, 'launch': launch, 'reef': reef, 'reef2': reef2}


def _gradient(fun, v):
    out = []
    for i in range(len(v)):
        h = 1e-6 * max(1., abs(v[i]))
        a, b = np.array(v), np.array(v)
        a[i] += h
        b[i] -= h
        out.append((fun(a) - fun(b)) / (2 * h))
    return np.array(out)


def judge(name, ocp, g, minimum=False):
    """How far a trajectory is from satisfying the problem as stated and its first-order conditions.

    Returns {what: (deviation, allowance)}. The allowances are loose against the tolerances of the solvers and grow with
    the coarseness of the mesh, since the rates are only known at its points.
    """
    from scipy.interpolate import CubicSpline, PchipInterpolator
    truth = TRUTH[name]
    c = {str(k.name): float(v) for k, v in zip(ocp.constants, g.const)}
    t, x, lam, u = (np.asarray(getattr(g, f), dtype=float) for f in ('t', 'y', 'dual', 'u'))
    if not all(np.all(np.isfinite(a)) for a in (t, x, lam, u)):
        return {'finite numbers': (np.inf, 0)}
    n = len(t)
    if x.shape != (n, len(ocp.states)) or lam.shape != x.shape or u.shape != (n, len(ocp.controls)):
        return {'one state, costate and control per time': (np.inf, 0)}
    if np.asarray(g.dual_t).shape != t.shape:
        return {'one costate of time per time': (np.inf, 0)}
    if truth.get('timed'):              # time as one more state
        x, lam = np.column_stack((x, t)), np.column_stack((lam, g.dual_t))
    f = np.array([truth['f'](a, b, c) for a, b in zip(x, u)], dtype=float)

    def hamilton(x, lam, u):
        return truth['L'](x, u, c) + np.dot(lam, truth['f'](x, u, c))
    lam_rate = np.array([-_gradient(lambda s: hamilton(s, b, d), a) for a, b, d in zip(x, lam, u)])
    h_u = np.array([_gradient(lambda s: hamilton(a, b, s), d) for a, b, d in zip(x, lam, u)])
    ham = np.array([hamilton(a, b, d) for a, b, d in zip(x, lam, u)])
    span = t[-1] - t[0]
    if not span > 0 or np.any(np.diff(t) < 0):
        return {'increasing time': (np.inf, 0)}
    keep = np.r_[True, np.diff(t) > 1e-9 * span]
    if keep.sum() < 4:
        return {}
    out = {}
    h = np.diff(t[keep])
    coarse = float(np.max(h) / span)

    def defect(v, rate):
        worst = (0., 1.)
        for j in range(v.shape[1]):
            a = CubicSpline(t[keep], rate[keep, j]).antiderivative()
            b = PchipInterpolator(t[keep], rate[keep, j]).antiderivative()
            p, q = a(t) - a(t[0]), b(t) - b(t[0])
            dev = np.max(np.abs(v[:, j] - v[0, j] - p))
            allow = 5e-3 * (1e-3 + np.max(np.abs(v[:, j])) + np.max(np.abs(rate[:, j])) * span) + 2 * np.max(np.abs(p - q))
            if dev / allow > worst[0] / worst[1]:
                worst = (float(dev), float(allow))
        return worst
    size = 1 + np.max(np.abs(x))
    out['the dynamics'] = defect(x, f)
    out['the costate equations'] = defect(lam, lam_rate)
    out['the end conditions'] = (float(np.max(np.abs(truth['ends']((t[0], t[-1]), (x[0], x[-1]), c)))), 2e-3 * size)
    weight = np.max(np.abs(lam)) * (1 + np.max(np.abs(f))) + 1e-3
    out['stationarity in the control'] = (float(np.max(np.abs(h_u))), 1e-2 * weight)
    out['a constant Hamiltonian'] = (float(np.ptp(ham)), 1e-2 * weight)
    if truth.get('free_time') or truth.get('timed'):
        out['a vanishing Hamiltonian'] = (float(np.max(np.abs(ham))), 1e-2 * weight)
    run = np.array([truth['L'](a, b, c) for a, b in zip(x, u)], dtype=float)
    phi = (truth['phi'](x[-1], c) if 'phi' in truth else 0.) + (truth['phi0'](x[0], c) if 'phi0' in truth else 0.)
    a, b = (k(t[keep], run[keep]).integrate(t[0], t[-1]) for k in (CubicSpline, PchipInterpolator))
    rough = np.sum(np.diff(t) * (run[1:] + run[:-1])) / 2
    out['the stated cost'] = (float(abs(float(g.cost) - a - phi)), float(
        5e-3 * (1e-3 + abs(phi) + np.max(np.abs(run)) * span) + 2 * max(abs(a - b), abs(a - rough))))
    if not truth.get('timed'):
        out['the costate of time'] = (float(np.max(np.abs(g.dual_t + ham))), 1e-2 * weight)
    if 'phi' in truth:
        d = np.abs(lam[-1] - _gradient(lambda s: truth['phi'](s, c), x[-1]))[truth['free']]
        out['transversality'] = (float(np.max(d)), 1e-2 * (np.max(np.abs(lam)) + 1e-3))
    if 'phi0' in truth:
        d = np.abs(lam[0] + _gradient(lambda s: truth['phi0'](s, c), x[0]))[truth['free0']]
        out['transversality at the start'] = (float(np.max(d)), 1e-2 * (np.max(np.abs(lam)) + 1e-3))
    if minimum and 'angle' in truth:        # an algebraic control law picks the branch with the least Hamiltonian
        grid = np.linspace(0, 2 * pi, 73)
        best = np.array([min(hamilton(a, b, [q]) for q in grid) for a, b in zip(x[::4], lam[::4])])
        out['the least Hamiltonian'] = (float(np.max(ham[::4] - best)), 1e-2 * weight)
    return out


_cache = {}


def compiled(name, method='traditional', **opts):
    """Symbolic processing once per process: returns (ocp, bvp, guess arguments, targets)."""
    key = (name, method, tuple(sorted(opts.items())))
    if key not in _cache:
        ocp, g, targets = ZOO[name]()
        import copy
        from beluga.symbolic.data_classes import make_indirect_method, make_postprocessor, make_preprocessor
        pre = make_preprocessor()(copy.deepcopy(ocp))
        prob = make_indirect_method(copy.deepcopy(pre), method=method, **opts)(copy.deepcopy(pre))
        bvp = make_postprocessor()(copy.deepcopy(prob))
        _cache[key] = (ocp, bvp, g, targets)
    return _cache[key]


def steps_of(plan, targets):
    rng = random.Random('steps/%s' % plan['seed'])
    steps = beluga.init_continuation()
    st = steps.add_step(plan.get('strategy', 'bisection')).num_cases(plan.get('cases', 3))
    for c in sorted(targets):
        lo, hi = targets[c]
        st.const(c, round(rng.uniform(lo, hi), 3))
    return steps


def solve(plan, n_cpus=1, algo=None, steps=None, guess=None, **kw):
    """Returns the result of beluga.solve or the exception it raised. Only Exceptions are caught."""
    ocp, bvp, g, targets = compiled(plan['problem'], plan.get('method', 'traditional'), **plan.get('opts', {}))
    if algo is None:
        algo = beluga.bvp_algorithm(plan.get('solver', 'Shooting'), **plan.get('args', {'num_arcs': plan.get('arcs', 1)}))
    if steps is None:
        steps = steps_of(plan, targets)
    if guess is None:
        guess = beluga.guess_generator('auto', **g)
    try:
        return beluga.solve(ocp=ocp, bvp=bvp, ocp_map=bvp.map_sol, ocp_map_inverse=bvp.inv_map_sol,
                            bvp_algorithm=algo, steps=steps, guess_generator=guess, n_cpus=n_cpus,
                            autoscale=plan.get('autoscale', False), initial_helper=True, save_sols=False, **kw)
    except Exception as e:
        return e


def same(a, b):
    if isinstance(a, BaseException) or isinstance(b, BaseException):
        return None if type(a) is type(b) else '%r against %r' % (a if isinstance(a, BaseException) else 'results',
                                                                  b if isinstance(b, BaseException) else 'results')
    if [len(s) for s in a] != [len(s) for s in b]:
        return 'results of shape %s against %s' % ([len(s) for s in a], [len(s) for s in b])
    for si, (s, t) in enumerate(zip(a, b)):
        for k, (x, y) in enumerate(zip(s, t)):
            if bool(x.converged) != bool(y.converged):
                return 'step %d, case %d: converged %r against %r' % (si, k, x.converged, y.converged)
            for f in FIELDS:
                p, q = np.asarray(getattr(x, f)), np.asarray(getattr(y, f))
                if p.shape != q.shape or not np.array_equal(p, q, equal_nan=True):
                    return 'step %d, case %d: %s differs' % (si, k, f)
    return None


def digest(res):
    if isinstance(res, BaseException):
        return type(res).__name__
    h = hashlib.sha256()
    for s in res:
        for g in s:
            for f in FIELDS:
                h.update(np.ascontiguousarray(getattr(g, f)).tobytes())
            h.update(bytes([bool(g.converged)]))
    return h.hexdigest()[:16]
