"""Automatic scaling is invisible in the results and hands the solver an equivalent problem."""
import numpy as np

from sim import contsim as cs
from sim.core import Outcome

PROPERTY = 'C07'
LEVEL = 'exploration'
RULE = ('each run: one of five problems with consistent units (differential and algebraic control, reduction by '
        'symmetries, path constraints) and scaling expressions, a chain of steps of any strategy or none, autoscaling '
        'on, failing and garbage-returning solver; every result is compared with its value in the problem\'s own units, '
        'and the scaled dynamics and boundary conditions with the original ones; non-trivial when scale factors differ '
        'from one')
STATE_MEASURE = 'distinct (problem, strategy, attempts, rounded scale factors) tuples'
REAL, STUB = cs.REAL, cs.STUB
ASSUMPTIONS = ['the user gave consistent units and scaling expressions that are finite and non-zero on the trajectories',
               'agreement to 1e-7 relative']
EXPECTED_PROBES = ['scaled_attempts', 'dynamics_compared', 'boundary_conditions_compared', 'no_steps', 'pair_compared']


def setup():
    for n in ('spring', 'slide', 'rocket', 'bounded', 'pusher'):
        cs.problem(n)


def budget(tier):
    return {'runs': 3500, 'seconds': 60} if tier == 'quick' else {'runs': 10 ** 7, 'seconds': 1200}


def gen(rng, tier, i):
    plan = cs.gen_plan(rng, ['manual', 'bisection', 'bisection', 'productspace', 'sparse_product'], autoscale=True,
                       max_steps=2, crash_ok=False, problems=('spring', 'slide', 'rocket', 'bounded', 'pusher'))
    plan['solver'].pop('basin', None)
    if rng.random() < 0.15:
        plan['steps'] = None
        plan['solver']['fail'] = [0] if rng.random() < 0.3 else []
    return plan


def factors(scaled, orig):
    """One factor per column, from values that are all non-zero."""
    f = {}
    for n in ('t', 'y', 'q', 'u', 'dynamical_parameters', 'nondynamical_parameters', 'const'):
        a, b = np.asarray(orig[n], float), np.asarray(scaled[n], float)
        if a.shape != b.shape:
            return None
        if n == 't':
            a, b = a[-1], b[-1]
        elif a.ndim == 2:
            a, b = a[0], b[0]
        zero = (a == 0.) & (b == 0.)        # a constant may pass through zero; any factor does then
        f[n] = np.where(zero, 1., a) / np.where(zero, 1., b)
    return f


def rel(a, b):
    a, b = np.atleast_1d(np.asarray(a, float)), np.atleast_1d(np.asarray(b, float))
    m = max(np.max(np.abs(a), initial=0.), np.max(np.abs(b), initial=0.))
    return np.abs(a - b) > 1e-6 * (np.abs(a) + np.abs(b)) + 1e-9 * m


def bcs(fp, nq, s):
    if nq:
        return np.asarray(fp.bc_func(s['y'][0], s['q'][0], s['y'][-1], s['q'][-1], s['dynamical_parameters'],
                                     s['nondynamical_parameters'], s['const']), float)
    return np.asarray(fp.bc_func(s['y'][0], s['y'][-1], s['dynamical_parameters'], s['nondynamical_parameters'],
                                 s['const']), float)


def equivalent(prob, scaled, orig, out, where):
    """The scaled problem's dynamics, control and boundary conditions at the scaled point are those of the original."""
    fp = prob['bvp'].functional_problem
    f = factors(scaled, orig)
    if f is None:
        return
    if any(not np.all(np.isfinite(v)) or not np.all(np.asarray(v) > 0) for v in f.values()):
        out.violate('scale', '%s: a scale factor is not positive and finite: %s' % (where, f))
        return
    out.state(where, [np.round(np.asarray(v), 3).tolist() for v in f.values()])
    if any(np.any(np.abs(np.asarray(v) - 1.) > 1e-6) for v in f.values()):
        out.nontrivial = True
    p, ps = orig['dynamical_parameters'], scaled['dynamical_parameters']
    k, ks = orig['const'], scaled['const']
    for row in range(orig['y'].shape[0]):
        d = np.asarray(fp.deriv_func(orig['y'][row], p, k), float)
        ds = np.asarray(fp.deriv_func(scaled['y'][row], ps, ks), float) * f['y'] / f['t']
        bad = rel(d, ds)
        if bad.any():
            names = [s.name for s in prob['bvp'].states]
            out.violate('equivalence', '%s: the scaled dynamics of %s are %s in original units, %s originally' % (
                where, [n for n, b in zip(names, bad) if b], ds[bad].tolist(), d[bad].tolist()))
            return
        if prob['nq']:
            q = np.asarray(fp.quad_func(orig['y'][row], p, k), float)
            qs = np.asarray(fp.quad_func(scaled['y'][row], ps, ks), float) * f['q'] / f['t']
            if rel(q, qs).any():
                out.violate('equivalence', '%s: the scaled quadrature rates are %s in original units, %s originally' % (
                    where, qs.tolist(), q.tolist()))
                return
        if fp.compute_u is not None:
            u = np.asarray(fp.compute_u(orig['y'][row], p, k), float)
            us = np.asarray(fp.compute_u(scaled['y'][row], ps, ks), float) * f['u']
            if np.any(np.abs(u - us) > 1e-6 * (1. + np.abs(u))):
                out.violate('equivalence', '%s: the control of the scaled problem is %s in original units, %s '
                            'originally' % (where, us.tolist(), u.tolist()))
                return
    out.probes['dynamics_compared'] += 1
    # boundary conditions: each is multiplied by one positive factor, wherever it is evaluated
    r = np.random.RandomState(7)
    ratio = None
    for _ in range(3):
        o2 = {n: np.array(v, float) for n, v in orig.items() if n != 'converged'}
        for n in ('y', 'q', 'dynamical_parameters', 'nondynamical_parameters'):
            if o2[n].size:
                o2[n] = o2[n] * r.uniform(0.9, 1.1, o2[n].shape)
        s2 = {n: (o2[n] / f[n] if np.asarray(o2[n]).size else o2[n]) for n in o2}
        b, bs = bcs(fp, prob['nq'], o2), bcs(fp, prob['nq'], s2)
        good = np.abs(b) > 1e-6 * np.max(np.abs(b))
        if np.any(~good & (np.abs(b) < 1e-12) & (np.abs(bs) > 1e-6 * np.max(np.abs(bs)))):
            out.violate('equivalence', '%s: a boundary condition holds originally but not after scaling' % where)
            return
        this = np.where(good, bs / np.where(good, b, 1.), np.nan)
        if np.any(this <= 0):
            out.violate('equivalence', '%s: boundary conditions change sign under scaling: %s, %s' % (
                where, b.tolist(), bs.tolist()))
            return
        if ratio is not None:
            both = np.isfinite(ratio) & np.isfinite(this)
            if np.any(np.abs(ratio[both] - this[both]) > 1e-5 * np.abs(ratio[both])):
                out.violate('equivalence', '%s: boundary conditions are not scaled by a constant factor: %s, %s' % (
                    where, ratio.tolist(), this.tolist()))
                return
        ratio = this
    out.probes['boundary_conditions_compared'] += 1


def compare(si, k, got, want, ok, out):
    if bool(got['converged']) != bool(ok):
        out.violate('result', 'step %d result %d: converged=%s, the solver said %s' % (si, k, got['converged'], ok))
        return
    if not cs.vclose(got['const'], want['const'], 1e-9):
        out.violate('result', 'step %d result %d: constants %s, expected %s' % (
            si, k, got['const'].tolist(), want['const'].tolist()))
        return
    if not ok:
        return
    for f in ('t', 'y', 'q', 'u', 'dynamical_parameters', 'nondynamical_parameters'):
        x, y = got[f], np.asarray(want[f], float)
        if x.size == 0 and y.size == 0:
            continue
        if not cs.vclose(x, y, 1e-7):
            out.violate('result', 'step %d result %d: %s is %s in the results, %s in the problem\'s own units' % (
                si, k, f, x.tolist(), y.tolist()))
            return


def run(plan):
    out = Outcome()
    clock = cs.Clock()
    prob = cs.problem(plan['problem'])
    log = cs.execute(plan, out, clock)
    out.sim_time = clock.total
    out.event('end', repr(log.exc), len(log.attempts))
    out.note = '%s, %d attempts, %s' % (plan['problem'], len(log.attempts),
                                        'completed' if log.exc is None else repr(log.exc))
    if isinstance(log.exc, cs.StepBudget):
        out.violate('endless', 'still attempting after %d attempts' % len(log.attempts))
        return out
    script = cs.Script(plan['solver'])
    out.probes['scaled_attempts'] += len(log.attempts)
    if plan['steps'] is None:
        out.probes['no_steps'] += 1
        if log.exc is not None:
            out.violate('raised', 'solve raised %r' % log.exc)
            return out
        src = dict(log.guess_before)
        u = cs.off_controls(prob, log.guess_before)
        src['u'] = u
        equivalent(prob, log.attempts[0]['guess'], src, out, 'no steps')
        want = cs.answer_arrays(src, script, 0, prob)
        compare(0, 0, cs.snap(log.out[0][0]), want, log.attempts[0]['ok'], out)
        return out
    probe = Outcome()
    info = cs.follow(plan, log, probe)
    if probe.violations:
        # the solver was not handed a scaled version of any admissible guess, or other cases than without scaling
        out.violate('guess' if probe.violations[0][0] in ('guess', 'const') else 'cases', probe.violations[0][1])
        return out
    first_u = cs.off_controls(prob, log.guess_before)
    for si, rec in enumerate(info['per_step']):
        for k, a in enumerate(rec['attempts']):
            if a['ok'] is None or a.get('src') is None:
                continue
            src = dict(a['src'])
            src['const'] = a['want']
            if a['k'] == 0:
                src['u'] = first_u
            if a['k'] < 3:
                equivalent(prob, log.attempts[a['k']]['guess'], src, out, 'attempt %d' % a['k'])
                if out.violations:
                    return out
            if log.exc is None and si < len(log.out) and k < len(log.out[si]):
                want = dict(a['answer'])
                compare(si, k, cs.snap(log.out[si][k]), want, a['ok'], out)
                if out.violations:
                    return out
    # the same solve without scaling, where no two guesses are equally near
    if log.exc is None and not probe.probes['equidistant_guesses'] and 'unspecified_from' not in info:
        off = dict(plan, autoscale=False)
        log2 = cs.execute(off, Outcome(), cs.Clock())
        pr2 = Outcome()
        cs.follow(off, log2, pr2)
        if log2.exc is None and not pr2.violations and not pr2.probes['equidistant_guesses']:
            out.probes['pair_compared'] += 1
            for si, (s, t) in enumerate(zip(log.out, log2.out)):
                for k, (x, y) in enumerate(zip(s, t)):
                    compare(si, k, cs.snap(x), cs.snap(y), bool(y.converged), out)
                    if out.violations:
                        return out
    return out


def shrink(plan):
    if plan['steps'] is None:
        for d in cs.shrink_solver(plan['solver']):
            yield dict(plan, solver=d)
        return
    for p in cs.shrink_plan(plan):
        if p.get('autoscale'):
            yield p
