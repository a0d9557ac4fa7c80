"""Common parts of the storage checks."""
import copy
import os
import random

import numpy as np

from sim import fssim
fssim.ensure_shim()
from sim import contsim as cs                                # noqa: E402
from sim import ocps                                         # noqa: E402
import beluga                                                # noqa: E402
from beluga.numeric.bvp_solvers.BaseAlgorithm import BaseAlgorithm      # noqa: E402
from beluga.utils import save, load                          # noqa: E402
from beluga.numeric.data_classes.Trajectory import Trajectory     # noqa: E402

FIELDS = ('t', 'y', 'dual', 'dual_t', 'dual_u', 'q', 'u', 'dynamical_parameters', 'nondynamical_parameters', 'const')
REAL = ['beluga.utils.save / load', 'cloudpickle', 'Python file objects', 'the kernel\'s file system on a scratch directory']
STUB = ['each file operation waits for the controller (LD_PRELOAD seam)', 'power loss: directory rebuilt from a model of '
        'what was durable', 'randomness of temporary names']


def payload(spec):
    """spec: {'tag', 'size', 'ocp', 'via', 'shape'}; what the caller hands to save(), or what beluga.solve returns."""
    if spec.get('via') == 'solve':
        ocp, bvp, _, _ = ocps.compiled('spring')
        return solved(spec, False), {'ocp': ocp, 'bvp': bvp}
    rng = np.random.RandomState(spec['tag'])
    sols = []
    for _ in range(1 + spec['tag'] % 2):
        step = []
        for _ in range(1 + spec['tag'] % 3):
            n = {'small': 4, 'medium': 200, 'large': 6000}[spec['size']]
            g = Trajectory()
            g.t = np.linspace(0, 1, n)
            g.y = rng.rand(n, 3)
            g.dual = rng.rand(n, 3)
            g.q = rng.rand(n, 1) if spec['tag'] % 2 else np.array([])
            g.u = rng.rand(n, 2)
            g.dynamical_parameters = rng.rand(2)
            g.nondynamical_parameters = rng.rand(spec['tag'] % 4)
            g.const = np.r_[float(spec['tag']), rng.rand(2)]
            g.converged = bool(rng.rand() < 0.5)
            g.cost = float(rng.rand())
            if spec.get('shape') == 'odd':
                odd(g, rng)
            step.append(g)
        sols.append(step)
    kw = {}
    if spec.get('shape') == 'empty_step':
        sols.append([])
    elif spec.get('shape') == 'empty':
        sols = []
    elif spec.get('shape') == 'problem_only':
        sols = None
    if spec.get('ocp'):
        prob = cs.problem('spring')
        kw['ocp'] = prob['ocp']
        if spec['ocp'] == 'both':
            kw['bvp'] = prob['bvp']
    return sols, kw


def odd(g, rng):
    """Values and types a trajectory may well hold, and that a careless format loses."""
    g.y[rng.randint(len(g.y)), 0] = np.nan
    g.y[rng.randint(len(g.y)), 1] = -np.inf
    g.dual[0] = [-0.0, 5e-324, 1e308]
    g.dual_t = rng.rand(len(g.t), 1)
    g.dual_u = rng.rand(len(g.t), 2) + 1j
    g.u = g.u.astype(np.float32)
    g.nondynamical_parameters = np.arange(3)
    g.dynamical_parameters = np.asfortranarray(rng.rand(2, 3))
    g.const = np.array([])
    g.cost = np.nan


class Marker(BaseAlgorithm):
    """A solver whose answer tells which solve it belongs to."""

    def __init__(self, tag):
        BaseAlgorithm.__init__(self)
        self.tag = tag

    def solve(self, guess, **kw):
        sol = copy.deepcopy(guess)
        sol.y = sol.y * 0 + self.tag + np.arange(sol.y.shape[0])[:, None]
        sol.converged = True
        return {'sol': sol, 'success': True, 'message': '', 'niter': 1}


def solved(spec, save_sols):
    ocp, bvp, g, _ = ocps.compiled('spring')
    steps = beluga.init_continuation()
    steps.add_step('manual').num_cases(2).const('x_f', float(spec['tag']))
    return beluga.solve(ocp=ocp, bvp=bvp, ocp_map=bvp.map_sol, ocp_map_inverse=bvp.inv_map_sol, bvp_algorithm=Marker(spec['tag']),
                        steps=steps, guess_generator=beluga.guess_generator('auto', **g), autoscale=False,
                        initial_helper=True, save_sols=save_sols)


def describe(loaded, specs):
    """Which payload `loaded` is exactly: its tag, or None."""
    if not isinstance(loaded, dict):
        return None
    for spec in specs:
        sols, kw = payload(spec)
        if equal(loaded, sols, kw) is None:
            return spec['tag']
    return None


def equal(loaded, sols, kw):
    want = ({'solutions'} if sols is not None else set()) | set(kw)
    if set(loaded) != want:
        return 'it has the entries %s instead of %s' % (sorted(loaded), sorted(want))
    for k in kw:
        d = differ(loaded[k], kw[k], k)
        if d:
            return d
    if sols is None:
        return None
    got = loaded['solutions']
    if [len(s) for s in got] != [len(s) for s in sols]:
        return 'the numbers of trajectories per step differ'
    for i, (s, t) in enumerate(zip(got, sols)):
        for j, (x, y) in enumerate(zip(s, t)):
            for f in FIELDS:
                p, q = np.asarray(getattr(x, f)), np.asarray(getattr(y, f))
                if p.shape != q.shape or p.dtype != q.dtype or p.tobytes() != q.tobytes():
                    return '%s of trajectory %d of step %d differs' % (f, j, i)
            if bool(x.converged) != bool(y.converged) or x.cost != y.cost and not (x.cost != x.cost and y.cost != y.cost):
                return 'verdict or cost of trajectory %d of step %d differ' % (j, i)
    return None


def differ(a, b, where, seen=None):
    """First difference in the data (not the code) of two problems: lists, dicts, numbers, strings, expressions."""
    seen = set() if seen is None else seen
    if id(b) in seen or callable(b) and not hasattr(b, 'free_symbols') or type(b).__name__ == 'module':
        return None
    seen.add(id(b))
    if type(a) is not type(b) and type(a).__qualname__ != type(b).__qualname__:
        return '%s is %s instead of %s' % (where, type(a), type(b))
    if isinstance(b, np.ndarray):
        return None if a.shape == b.shape and a.dtype == b.dtype and a.tobytes() == b.tobytes() else '%s differs' % where
    if hasattr(b, 'free_symbols'):
        return None if str(a) == str(b) else '%s is %s instead of %s' % (where, a, b)
    if isinstance(b, (list, tuple)):
        if len(a) != len(b):
            return '%s has %d entries instead of %d' % (where, len(a), len(b))
        pairs = [('%s[%d]' % (where, i), x, y) for i, (x, y) in enumerate(zip(a, b))]
    elif isinstance(b, dict):
        if list(map(str, a)) != list(map(str, b)):
            return '%s has the keys %s instead of %s' % (where, list(a), list(b))
        pairs = [('%s[%s]' % (where, k), x, y) for k, x, y in zip(b, a.values(), b.values())]
    elif isinstance(b, (set, frozenset)):
        return None if set(map(str, a)) == set(map(str, b)) else '%s differs' % where
    elif b is None or isinstance(b, (bool, int, float, complex, str, bytes, np.generic)):
        return None if a == b or (a != a and b != b) else '%s is %r instead of %r' % (where, a, b)
    elif hasattr(b, '__dict__'):
        pairs = [('%s.%s' % (where, k), a.__dict__.get(k), v) for k, v in sorted(b.__dict__.items())]
    else:
        return None
    for w, x, y in pairs:
        d = differ(x, y, w, seen)
        if d:
            return d
    return None


def read_back(path, specs):
    """'absent', ('is', tag) or ('broken', why)."""
    if not os.path.exists(path):
        return 'absent'
    try:
        d = load(path)
    except Exception as e:
        return ('broken', 'loading it raises %s: %s' % (type(e).__name__, str(e)[:100]))
    tag = describe(d, specs)
    if tag is None:
        return ('broken', 'it loads as something that was never saved')
    return ('is', tag)


def place(root, plan):
    """Creates the starting directory. Returns the path handed to save()/load() and the path judged."""
    name = plan['name']
    path = os.path.join(root, name)
    os.makedirs(os.path.dirname(path), exist_ok=True)
    with open(os.path.join(root, 'other.dat'), 'wb') as f:
        f.write(b'not to be touched')
    real = path
    if plan.get('link'):
        os.makedirs(os.path.join(root, 'store'), exist_ok=True)
        real = os.path.join(root, 'store', 'real.beluga')
        os.symlink(real, path)
    if plan.get('old') is not None:
        sols, kw = payload(plan['old'])
        save(sols, filename=real, **kw)
    return (name if plan.get('relative') else path), path


def gen_spec(rng, tag):
    # what was saved is recognised by its contents: only one of the saves of a run may be without a trajectory
    bare = {10: ['empty'], 21: ['problem_only']}.get(tag, [])
    shape = rng.choice(['plain'] * 6 + ['odd', 'empty_step'] + bare)
    if shape == 'problem_only':
        return {'tag': tag, 'size': 'small', 'ocp': rng.choice(['ocp', 'both']), 'via': 'save', 'shape': shape}
    return {'shape': shape, 'tag': tag, 'size': rng.choice(['small'] * 5 + ['medium', 'medium', 'large']),
            'ocp': rng.choice([None] * 14 + ['ocp', 'both']), 'via': rng.choice(['save'] * 7 + ['solve'])}


def gen_place(rng):
    return {'name': rng.choice(['data.beluga', 'data.beluga', 'sub/run 1.beluga', 'x']), 'relative': rng.random() < 0.3,
            'link': rng.random() < 0.15, 'old': None}


def shrink_common(plan):
    for k, v in (('link', False), ('relative', False), ('name', 'data.beluga')):
        if plan.get(k) != v:
            yield dict(plan, **{k: v})
    for j in range(len(plan['faults'])):
        yield dict(plan, faults=plan['faults'][:j] + plan['faults'][j + 1:])
    if plan.get('disk_full') is not None:
        yield dict(plan, disk_full=None)
    for j in range(len(plan['actors'])):
        if len(plan['actors']) > 1:
            fs = [dict(f, actor=f['actor'] - (f['actor'] > j)) for f in plan['faults'] if f['actor'] != j]
            yield dict(plan, actors=plan['actors'][:j] + plan['actors'][j + 1:], faults=fs)
    for j, a in enumerate(plan['actors']):
        s = a.get('spec')
        if s:
            for k, v in (('shape', 'plain'), ('size', 'small'), ('ocp', None), ('via', 'save')):
                if s.get(k) != v:
                    yield dict(plan, actors=plan['actors'][:j] + [dict(a, spec=dict(s, **{k: v}))] + plan['actors'][j + 1:])
    if plan.get('old'):
        for k, v in (('shape', 'plain'), ('size', 'small'), ('ocp', None), ('via', 'save')):
            if plan['old'].get(k) != v:
                yield dict(plan, old=dict(plan['old'], **{k: v}))
    for j, f in enumerate(plan['faults']):
        if f.get('val'):
            for v in (0, f['val'] // 2):
                yield dict(plan, faults=plan['faults'][:j] + [dict(f, val=v)] + plan['faults'][j + 1:])


class Unpicklable:
    def __reduce__(self):
        raise TypeError('cannot be serialised')
