"""A trajectory reported as converged solves the boundary value problem that was posed."""
import numpy as np
from scipy.integrate import solve_ivp

from sim import bvps, contsim as cs
from sim.core import Outcome
from beluga.numeric.bvp_solvers import Shooting, SPBVP

PROPERTY = 'C13'
LEVEL = 'exploration'
RULE = ('each run: one boundary value problem, guess, solver (shooting with 1-4 arcs and six algorithms, or collocation) '
        'and budget; in a window of calls or a region of state space the problem\'s functions return NaN or Inf or '
        'raise; if the answer is reported as converged it is checked node by node with an independent integrator, and '
        'its boundary conditions directly; non-trivial when a fault was seen by the solver or it did not converge')
STATE_MEASURE = 'distinct (problem, solver, verdict, fault kind, where) tuples'
REAL = ['beluga.numeric.bvp_solvers.Shooting and SPBVP', 'beluga.numeric.ivp_solvers', 'scipy']
STUB = ['the user\'s functions: real formulas with injected NaN / Inf / exceptions']
ASSUMPTIONS = ['accuracy owed is the one the solver was asked for, with a factor of slack; the integrator itself is '
               'trusted']
EXPECTED_PROBES = ['converged', 'converged_despite_fault', 'not_converged_with_fault', 'raised_with_fault', 'not_converged',
                   'multi_arc', 'quads', 'spbvp', 'params', 'budget_spent']
RUN_WALL = 40
ALGS = ['Armijo', 'Armijo', 'fsolve', 'SLSQP', 'hybr', 'lm']
RARE = ['Nelder-Mead', 'BFGS', 'L-BFGS-B', 'Powell', 'CG', 'TNC', 'trust-constr', 'broyden1', 'krylov', 'df-sane',
        'anderson', 'linearmixing']


def setup():
    """LAPACK never returns from some matrices that are not finite; no answer, hence nothing to check."""
    for name in ('lstsq', 'svd', 'eig', 'eigvals'):
        real = getattr(np.linalg, name)

        def guarded(a, *args, _real=real, **kw):
            if not np.all(np.isfinite(a)):
                raise Endless()
            return _real(a, *args, **kw)

        setattr(np.linalg, name, guarded)


def budget(tier):
    return {'runs': 3000, 'seconds': 80} if tier == 'quick' else {'runs': 10 ** 7, 'seconds': 1800}


def gen(rng, tier, i):
    name = rng.choice(list(bvps.ZOO))
    g = bvps.gen_guess(rng, name)
    plan = {'bvp': name, 'guess': g, 'fault': None}
    if rng.random() < 0.15:
        g['span'] = rng.choice([0.3, 1.7, 2.5])
    if rng.random() < 0.45:
        plan['solver'] = 'SPBVP'
        plan['args'] = {'max_nodes': rng.choice([3, 8, 20, 60, 500])}
    else:
        plan['solver'] = 'Shooting'
        plan['args'] = {'algorithm': rng.choice(ALGS), 'num_arcs': rng.choice([1, 1, 2, 3, 4]),
                        'max_iterations': rng.choice([1, 3, 10, 40]), 'tolerance': rng.choice([1e-3, 1e-4, 1e-6]),
                        'max_error': rng.choice([100, 100, 5, 1e6]) if name != 'units' else 1e12}
        if rng.random() < 0.12:
            plan['args'].update(algorithm=rng.choice(RARE), num_arcs=rng.choice([1, 1, 1, 2]))
    if rng.random() < 0.7:
        kind = rng.choice(['nan', 'nan', 'inf', 'raise', 'huge'])
        where = rng.choice(['ode', 'ode', 'ode', 'bc', 'quad'])
        # Functions of the state cannot come and go, or a trajectory would depend on the moment it is propagated:
        # a window of calls fails only where that is noticed (an exception) or not part of the trajectory (the bcs).
        if rng.random() < 0.4:
            f = {'kind': kind if where == 'bc' else 'raise', 'where': where, 'mode': 'window',
                 'first': int(10 ** rng.uniform(0, 3.7)), 'count': rng.choice([1, 1, 2, 5, 30, 400])}
        else:
            f = {'kind': 'nan' if kind == 'huge' else kind, 'where': where if where == 'quad' else 'ode', 'mode': 'region',
                 'state': rng.randrange(3), 'sign': rng.choice([-1, 1]), 'limit': round(rng.uniform(-1.5, 2.5), 2)}
            if rng.random() < 0.6:
                # just about reached by the solution
                f['depth'] = round(rng.choice([1, -1, 1, 1]) * 10 ** rng.uniform(-3, -0.3), 5)
        plan['fault'] = f
    return plan


def shrink(plan):
    if plan['fault'] is not None:
        yield dict(plan, fault=None)
        if plan['fault']['mode'] == 'window':
            for v in (1, plan['fault']['count'] // 2):
                if v and v != plan['fault']['count']:
                    yield dict(plan, fault=dict(plan['fault'], count=v))
    for k, v in (('noise', 0), ('nodes', 2), ('uneven', False), ('span', 1.0)):
        if plan['guess'].get(k, v) != v:
            yield dict(plan, guess=dict(plan['guess'], **{k: v}))
    if plan['solver'] == 'Shooting':
        for k, v in (('num_arcs', 1), ('algorithm', 'Armijo'), ('max_error', 100), ('max_iterations', 10)):
            if plan['args'][k] != v:
                yield dict(plan, args=dict(plan['args'], **{k: v}))


class Injected(ArithmeticError):
    pass


class Endless(BaseException):
    """scipy's step size control never ends once its first step is not a number: no answer, hence nothing to check."""


MAX_CALLS = 60000


class Faulty:
    """The user's function with a fault in it."""

    def __init__(self, fn, f, out, active):
        self.fn, self.f, self.out, self.active = fn, f, out, active
        self.calls = 0
        self.hits = 0

    def __call__(self, y, *args):
        v = self.fn(y, *args)
        f = self.f
        self.calls += 1
        if self.calls > MAX_CALLS:
            raise Endless()
        if not self.active:
            return v
        if f['mode'] == 'window':
            hit = f['first'] <= self.calls < f['first'] + f['count']
        else:
            s = y[f['state'] % len(y)]
            hit = f['sign'] * s > f['sign'] * f['limit']
        if not hit:
            return v
        self.hits += 1
        self.out.faults['%s_in_%s' % (f['kind'], f['where'])] += 1
        if f['kind'] == 'raise':
            raise Injected('outside the model')
        v = np.array(v, dtype=float)
        bad = {'nan': np.nan, 'inf': np.inf, 'huge': 1e300}[f['kind']]
        if v.ndim == 0:
            return bad
        if f['where'] == 'quad':
            v[:] = bad          # whichever of them the boundary conditions use
        elif f['mode'] == 'region':
            v[f['state'] % len(v)] = bad
        else:
            v[self.hits % len(v)] = bad
        return v


def run(plan):
    out = Outcome()
    with np.errstate(all='ignore'):
        bvp = bvps.ZOO[plan['bvp']]()
        f = plan['fault'] or {'where': None, 'mode': 'window', 'first': 0, 'count': 0}
        if f.get('depth') is not None:
            f = dict(f, limit=edge(plan, bvp, f))
        ode = Faulty(bvp.ode, f, out, f['where'] == 'ode')
        quad = Faulty(bvp.quad, f, out, f['where'] == 'quad') if bvp.quad is not None else None
        bc = Faulty(bvp.bc, f, out, f['where'] == 'bc')
        if plan['solver'] == 'SPBVP':
            algo = SPBVP(ode, quad, bc, **plan['args'])
        else:
            algo = Shooting(ode, quad, bc, ivp_args={'maxstep': 0.25}, **plan['args'])
        guess = bvps.guess(bvp, plan['guess'])
        before = cs.snap(guess)
        try:
            res = algo.solve(guess)
        except Exception as e:
            res = e
        except Endless:
            out.probes['cut_short'] += 1
            out.event('endless')
            out.nontrivial = True
            return out
        hits = ode.hits + bc.hits + (quad.hits if quad else 0)
        after = cs.snap(guess)
        for k in before:
            if not np.array_equal(before[k], after[k], equal_nan=True):
                out.violate('guess_changed', 'the solver changed %s of the guess it was given' % k)
        out.event('end', type(res).__name__, ode.calls, bc.calls)
        if isinstance(res, BaseException):
            verdict = 'raised'
            if not hits and plan['solver'] == 'Shooting' and unexpected(res):
                out.violate('raised', '%s with %s raised %s: %s' % (plan['bvp'], plan['args'], type(res).__name__, res))
            out.probes['raised_with_fault'] += bool(hits)
        else:
            sol = res['sol']
            verdict = bool(sol.converged)
            if bool(res['success']) != verdict:
                out.violate('verdicts', 'success is %r but converged is %r' % (res['success'], sol.converged))
            out.event('verdict', verdict, np.asarray(sol.y).tobytes())
            if plan['solver'] == 'SPBVP':
                used, allowed, what = len(sol.t), max(plan['args']['max_nodes'], len(guess.t)), 'nodes'
            else:
                used, allowed, what = res['niter'], plan['args']['max_iterations'] + 2, 'iterations'
            # scipy's other minimisers and root finders count in units of their own
            if used > allowed and plan['args'].get('algorithm') not in RARE:
                out.violate('budget', '%s with %s used %d %s' % (plan['bvp'], plan['args'], used, what))
            out.probes['budget_spent'] += used >= allowed - 1
            if verdict:
                why = wrong(plan, bvp, guess, sol, f)
                if why:
                    out.violate('not_a_solution', '%s with %s reports as converged (faults seen: %d): %s' % (
                        plan['bvp'], plan['solver'] + str(plan['args']), hits, why))
                out.probes['converged'] += 1
                out.probes['converged_despite_fault'] += bool(hits)
                out.probes['multi_arc'] += plan['args'].get('num_arcs', 1) > 1
                out.probes['quads'] += bvp.quad is not None
                out.probes['spbvp'] += plan['solver'] == 'SPBVP'
                out.probes['params'] += sol.dynamical_parameters.size > 0
            else:
                if not hits and denied(plan, bvp, guess, sol):
                    out.violate('denied', '%s with %s reports as not converged what meets its boundary conditions' % (
                        plan['bvp'], plan['args']))
                out.probes['not_converged'] += not hits
                out.probes['not_converged_with_fault'] += bool(hits)
        out.state(plan['bvp'], plan['solver'], plan['args'].get('algorithm'), verdict, f.get('kind'), f['where'])
        out.nontrivial = bool(hits) or verdict is not True
    return out


def unexpected(e):
    """Errors that no divergence explains."""
    if isinstance(e, (ArithmeticError, RuntimeError, np.linalg.LinAlgError)):
        return False
    text = str(e).lower()
    return not (isinstance(e, ValueError) and any(w in text for w in ('domain', 'inf', 'nan', 'finite')))


def denied(plan, bvp, guess, sol):
    """Is a single arc that solves the problem reported as not converged?"""
    if plan['solver'] != 'Shooting' or plan['args']['num_arcs'] > 1 or \
            plan['args']['algorithm'] not in ('Armijo', 'fsolve'):
        return False
    y, q, p, n, k = sol.y, sol.q, sol.dynamical_parameters, sol.nondynamical_parameters, guess.const
    if sol.t[-1] != guess.t[-1] or not np.all(np.isfinite(y)):
        return False
    r = bvp.bc(y[0], y[-1], p, n, k) if bvp.quad is None else bvp.bc(y[0], q[0], y[-1], q[-1], p, n, k)
    r = np.linalg.norm(r)
    return (r ** 2 if plan['args']['algorithm'] == 'fsolve' else r) < 0.1 * plan['args']['tolerance']


def edge(plan, bvp, f):
    """Where a region has to begin for the undisturbed solution to reach into it by the given share of its range."""
    ref = SPBVP(bvp.ode, bvp.quad, bvp.bc, max_nodes=500)
    try:
        sol = ref.solve(bvps.guess(bvp, plan['guess']))['sol']
    except Exception:
        return f['limit']
    v = sol.y[:, f['state'] % sol.y.shape[1]]
    if not sol.converged:
        return f['limit']
    span = v.max() - v.min()
    return float(v.max() - f['depth'] * span if f['sign'] > 0 else v.min() + f['depth'] * span)


def wrong(plan, bvp, guess, sol, f):
    """None if `sol` solves the problem to the accuracy owed, else why not."""
    t, y, p, n, k = sol.t, sol.y, sol.dynamical_parameters, sol.nondynamical_parameters, guess.const
    for name in bvps.FIELDS[:3] + bvps.FIELDS[5:]:
        if not np.all(np.isfinite(np.asarray(getattr(sol, name), dtype=float))):
            return '%s is not finite' % name
    dims = [np.shape(v)[1:] for v in (y, sol.q if bvp.quad is not None else guess.q)] + [np.shape(p), np.shape(n)]
    want = [np.shape(v)[1:] for v in (guess.y, guess.q)] + [np.shape(guess.dynamical_parameters),
                                                            np.shape(guess.nondynamical_parameters)]
    if dims != want:
        return 'its states, quads and parameters have the dimensions %s, those of the problem are %s' % (dims, want)
    if not np.array_equal(sol.const, guess.const):
        return 'its constants are %s, posed were %s' % (sol.const, guess.const)
    if t[0] != guess.t[0] or t[-1] != guess.t[-1]:
        return 'it spans %s..%s instead of %s..%s' % (t[0], t[-1], guess.t[0], guess.t[-1])
    if not np.all(np.diff(t) > 0) or y.shape[0] != t.size:
        return 'its time grid is not increasing or does not match the states'
    q = None
    if bvp.quad is not None:
        q = sol.q
        if q.shape[0] != t.size:
            return 'its quads do not match its time grid'
    spb = plan['solver'] == 'SPBVP'
    if spb:
        tol = 1e-3
    else:
        tol = plan['args']['tolerance']
        if plan['args']['algorithm'] != 'Armijo':
            tol = np.sqrt(tol)
    r = np.asarray(bvp.bc(y[0], y[-1], p, n, k) if q is None else bvp.bc(y[0], q[0], y[-1], q[-1], p, n, k), float)
    scale = 1 + np.max(np.abs(y)) * 1e-4
    if not np.linalg.norm(r) <= 2 * tol * (np.sqrt(r.size) if spb else 1) * scale + 3e-5 * scale:
        return 'its boundary conditions are off by %s (tolerance %g)' % (r.tolist(), tol)
    nq = 0 if q is None else q.shape[1]

    def rhs(_, z):
        d = np.atleast_1d(np.asarray(bvp.ode(z[:y.shape[1]], p, k), float))
        if nq:
            d = np.r_[d, np.atleast_1d(np.asarray(bvp.quad(z[:y.shape[1]], p, k), float))]
        return d

    fastest = max(np.max(np.abs(rhs(0, np.r_[y[i], q[i]]))) for i in range(t.size)) if nq else 0
    for i in range(t.size - 1):
        z0 = np.r_[y[i], q[i]] if nq else y[i]
        z1 = np.r_[y[i + 1], q[i + 1]] if nq else y[i + 1]
        h = t[i + 1] - t[i]
        try:
            s = solve_ivp(rhs, [0, h], z0, rtol=1e-9, atol=1e-10, method='RK45')
        except ValueError as e:
            return 'the equations of motion cannot be evaluated along it: %s' % e
        if not s.success:
            return 'the equations of motion cannot be integrated from its node %d' % i
        if f['mode'] == 'region' and f['where'] == 'ode':
            c = f['state'] % y.shape[1]
            v = f['sign'] * s.y[c]
            speeds = [rhs(0, s.y[:, j])[c] for j in range(s.y.shape[1])]
            # no solver looks everywhere within an interval
            unseen = h * (max(speeds) - min(speeds)) / 10
            if np.max(v) > f['sign'] * f['limit'] + 1e-3 + 0.01 * abs(f['limit']) + unseen:
                return 'between nodes %d and %d it runs through states where the model is undefined' % (i, i + 1)
        d = np.abs(s.y[:, -1] - z1)
        big = np.max(np.abs(s.y), axis=1)
        if spb:
            speed = max(np.max(np.abs(rhs(0, z0))), np.max(np.abs(rhs(0, z1))))
            allow = 1e-2 * h * (1 + speed) + 1e-6 * (1 + np.max(big))
            allow = np.full(d.size, allow)
        else:
            allow = np.full(d.size, 3e-5 * (1 + np.max(big)))
            if nq:
                # quads are integrated over the nodes by Simpson's rule
                allow[y.shape[1]:] = np.maximum(allow[y.shape[1]:], 1e-2 * np.max(np.diff(t)) * (1 + fastest))
        if np.any(d > allow):
            # a junction of two arcs may show the tolerance of the solve
            joint = not spb and plan['args']['num_arcs'] > 1 and np.all(d <= 2 * tol * scale + allow)
            if not joint:
                return 'from node %d to %d it departs from the equations of motion by %s (allowed %s)' % (
                    i, i + 1, d.tolist(), allow.tolist())
    return None
