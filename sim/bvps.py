"""Boundary value problems given directly to the solvers, with guesses and exact knowledge of what solves them."""
import numpy as np

from beluga.numeric.data_classes.Trajectory import Trajectory


class BVP:
    def __init__(self, name, ode, quad, bc, guess, consts, vectors=None):
        self.name, self.ode, self.quad, self.bc, self.make, self.consts = name, ode, quad, bc, guess, consts


def lin2():
    def ode(y, p, k):
        return (y[1], y[0] / k[0])

    def bc(y0, yf, p, ndp, k):
        return (y0[0] - 1, yf[0])

    return BVP('lin2', ode, None, bc, dict(y=[[0, 1], [0, 1]]), ([0.3], [3.0]))


def lin3():
    def ode(y, p, k):
        return np.array([y[1], y[2], -k[0] * y[1] + k[1]])

    def bc(y0, yf, p, ndp, k):
        return np.array([y0[0], y0[1] - 1, yf[1] - k[1]])

    return BVP('lin3', ode, None, bc, dict(y=[[0, 1, 0], [0, 1, 0.5]]), ([0.5, 0.0], [4.0, 1.0]))


def pendulum():
    def ode(y, p, k):
        return (y[1], -k[0] * np.sin(y[0]))

    def bc(y0, yf, p, ndp, k):
        return (y0[0] - k[1], yf[0])

    return BVP('pendulum', ode, None, bc, dict(y=[[0.5, -0.5], [0, -0.5]]), ([0.5, 0.2], [6.0, 1.2]))


def bratu():
    def ode(y, p, k):
        return np.array([y[1], -k[0] * np.exp(y[0])])

    def bc(y0, yf, p, ndp, k):
        return np.array([y0[0], yf[0]])

    return BVP('bratu', ode, None, bc, dict(y=[[0.1, 0.5], [0.1, -0.5]]), ([0.1], [3.0]))


def eigen():
    def ode(y, p, k):
        return np.array([y[1], -p[0] ** 2 * y[0]])

    def bc(y0, yf, p, ndp, k):
        return np.array([y0[0], yf[0], y0[1] - k[0]])

    return BVP('eigen', ode, None, bc, dict(y=[[0, 1], [0, -1]], p=[3.0]), ([0.5], [4.0]))


def freetime():
    """Minimal transfer written with a free final time parameter and an adjoined multiplier."""
    def ode(y, p, k):
        return np.array([p[0] * y[1], -p[0] * k[0]])

    def bc(y0, yf, p, ndp, k):
        return np.array([y0[0], y0[1] - k[1], yf[1] + k[1], ndp[0] - yf[0] - p[0]])

    return BVP('freetime', ode, None, bc, dict(y=[[0, 1], [0, -1]], p=[1.0], ndp=[0.5]), ([1.0, 0.5], [3.0, 2.0]))


def quad1():
    def ode(y, p, k):
        return -y[0] / k[0]

    def quad(y, p, k):
        return y[0]

    def bc(y0, q0, yf, qf, p, ndp, k):
        return (q0[0] - 1, qf[0] - k[1])

    return BVP('quad1', ode, quad, bc, dict(y=[[1], [1]], q=[[0], [0]]), ([0.3, 1.2], [3.0, 3.0]))


def quad2():
    def ode(y, p, k):
        return (y[1], -k[0] * y[0])

    def quad(y, p, k):
        return (y[0] ** 2, y[1])

    def bc(y0, q0, yf, qf, p, ndp, k):
        return (y0[0] - k[1], yf[1], q0[0], qf[1] - 0.5)

    return BVP('quad2', ode, quad, bc, dict(y=[[1, 0], [1, 0]], q=[[0, 0], [0, 0]]), ([0.3, 0.5], [2.0, 1.5]))


def quad3():
    """Nonlinear boundary conditions on states and quads, a parameter and a multiplier."""
    def ode(y, p, k):
        return (y[1], -p[0] * y[0])

    def quad(y, p, k):
        return (k[0] * y[0], 1.)

    def bc(y0, q0, yf, qf, p, ndp, k):
        return (y0[0] ** 3 + y0[0] - k[1], y0[1] + yf[1] ** 3, qf[0] ** 3 + qf[0] - k[2], np.exp(q0[1]) - 1.5,
                q0[0], ndp[0] ** 3 + ndp[0] - qf[1])

    return BVP('quad3', ode, quad, bc, dict(y=[[1, 0], [1, 0]], q=[[0, 0], [0, 0]], p=[1.], ndp=[0.5]),
               ([0.5, 1.0, 0.5], [2.0, 3.0, 2.0]))


def strict():
    """Raises outside its domain."""
    def ode(y, p, k):
        if not y[0] > -0.7:
            raise ValueError('state left its domain')
        return (y[1], k[0] * np.sqrt(1 + y[0]))

    def bc(y0, yf, p, ndp, k):
        return (y0[0], yf[0] - k[1])

    return BVP('strict', ode, None, bc, dict(y=[[0, 0.5], [0.5, 0.5]]), ([0.2, -0.6], [4.0, 2.0]))


def nonlin():
    """Linear dynamics, strongly nonlinear boundary conditions."""
    def ode(y, p, k):
        return (y[1], -k[0] * y[0])

    def bc(y0, yf, p, ndp, k):
        return (y0[0] ** 3 + y0[0] - k[1], np.exp(yf[0]) * (1 + yf[1] ** 2) - k[2])

    return BVP('nonlin', ode, None, bc, dict(y=[[1, -0.5], [0.5, -0.5]]), ([0.1, 0.5, 1.5], [2.0, 6.0, 5.0]))


def circle():
    """Leaves one curve and ends on another, with a free speed as parameter."""
    def ode(y, p, k):
        return (p[0] * np.cos(y[2]), p[0] * np.sin(y[2]), 0.3 * k[0])

    def bc(y0, yf, p, ndp, k):
        return (y0[0] ** 2 + y0[1] ** 2 - k[1] ** 2, y0[0] * np.sin(y0[2]) - y0[1] * np.cos(y0[2]),
                yf[1] - yf[0] ** 2 / 4 - 2 * k[1], yf[0] * yf[2] - 1)

    return BVP('circle', ode, None, bc, dict(y=[[.8, .6, .7], [1.4, 2.4, 0.8]], p=[1.8]), ([-1., .8], [1., 1.6]))


def units():
    """Boundary conditions in units that make them large."""
    def ode(y, p, k):
        return (y[1], -k[0] * np.sin(y[0]))

    def bc(y0, yf, p, ndp, k):
        return (y0[0] - 1, 10 ** k[1] * (yf[0] - 0.2))

    return BVP('units', ode, None, bc, dict(y=[[1, 0], [1, 0]]), ([0.3, 2.0], [3.0, 8.0]))


ZOO = {f.__name__: f for f in (lin2, lin3, pendulum, bratu, eigen, freetime, quad1, quad2, quad3, strict, nonlin,
                                 circle, units)}
FIELDS = ('t', 'y', 'q', 'u', 'dual', 'dynamical_parameters', 'nondynamical_parameters', 'const')


def guess(bvp, spec):
    """spec: {'seed', 'nodes', 'const'}; deterministic."""
    rng = np.random.RandomState(spec['seed'])
    m = bvp.make
    n = spec.get('nodes', 2)
    t = np.linspace(0, spec.get('span', 1.0), n)
    if spec.get('uneven') and n > 2:
        t[1:-1] += (rng.rand(n - 2) - 0.5) * 0.4 / n

    def curve(ends):
        ends = np.array(ends, dtype=float)
        s = np.linspace(0, 1, n)[:, None]
        v = ends[0] * (1 - s) + ends[1] * s
        return v + spec.get('noise', 0.0) * (rng.rand(*v.shape) - 0.5)

    g = Trajectory()
    g.t = t
    g.y = curve(m['y'])
    if 'q' in m:
        g.q = curve(m['q'])
    if 'p' in m:
        g.dynamical_parameters = np.array(m['p']) + spec.get('noise', 0.0) * (rng.rand(len(m['p'])) - 0.5)
    if 'ndp' in m:
        g.nondynamical_parameters = np.array(m['ndp']) + spec.get('noise', 0.0) * (rng.rand(len(m['ndp'])) - 0.5)
    g.const = np.array(spec['const'], dtype=float)
    return g


def gen_guess(rng, name):
    lo, hi = ZOO[name]().consts
    return {'seed': rng.randrange(10 ** 6), 'nodes': rng.choice([2, 2, 3, 5, 9]), 'uneven': rng.random() < 0.3,
            'noise': rng.choice([0, 0, 0.05, 0.3, 2.0]), 'const': [round(rng.uniform(a, b), 3) for a, b in zip(lo, hi)]}


def same(a, b):
    """Bitwise comparison of two solver results (or exceptions). None, or what differs."""
    if isinstance(a, BaseException) or isinstance(b, BaseException):
        if type(a) is not type(b):
            return '%r against %r' % (_short(a), _short(b))
        return None
    for key in ('success', 'message', 'niter'):
        if (key in a or key in b) and str(a.get(key)) != str(b.get(key)):
            return '%s is %r against %r' % (key, a.get(key), b.get(key))
    x, y = a['sol'], b['sol']
    if bool(x.converged) != bool(y.converged):
        return 'converged is %r against %r' % (x.converged, y.converged)
    for f in FIELDS:
        p, q = np.asarray(getattr(x, f)), np.asarray(getattr(y, f))
        if p.shape != q.shape:
            return '%s has shape %s against %s' % (f, p.shape, q.shape)
        if not np.array_equal(p, q, equal_nan=True):
            return '%s differs by up to %g' % (f, np.nanmax(np.abs(p - q)))
    return None


def _short(r):
    return r if isinstance(r, BaseException) else 'a result'
