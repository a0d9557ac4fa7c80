"""Loading gives exactly what was saved, or raises; also next to savers, and for what beluga.solve saves."""
import os
import random

import numpy as np

from props import _store as st
from sim import clients, fssim
from sim import contsim as cs
from sim.core import Outcome

PROPERTY = 'C11'
LEVEL = 'exploration'
RULE = ('each run: results are saved (by save(), or by beluga.solve with its results under true, a file name, or false), '
        'then 1-2 processes load them, possibly while other processes save under the same name, with short and failing '
        'reads, failing opens, a file cut off at any byte, or interruptions of the savers; every load is compared field '
        'by field. Or 1-3 long-lived processes save, change and save again, load, overwrite what they loaded, and delete, '
        'in turn, on two names, with time stamps as coarse as some file systems keep them. Non-trivial when a fault fired or a loader overlapped a saver')
STATE_MEASURE = 'distinct (sequence of (actor, operation), faults fired, outcome of each load) tuples'
REAL, STUB = st.REAL + ['beluga.solve and continuation (part of the runs)'], st.STUB + ['BVP solver scripted']
ASSUMPTIONS = ['files are cut off or unreadable, not silently altered in place']
EXPECTED_PROBES = ['client_loaded', 'client_loaded_again', 'client_resaved', 'client_scribbled', 'client_absent', 'loaded_old', 'loaded_new', 'load_overlaps_save', 'cut_off', 'read_error', 'short_read', 'solve_saved',
                   'solve_saved_default_name', 'solve_saved_nothing', 'functions_compared', 'absent']


def setup():
    cs.problem('spring'), cs.problem('slide'), st.ocps.compiled('spring')


def budget(tier):
    return {'runs': 3500, 'seconds': 70} if tier == 'quick' else {'runs': 10 ** 7, 'seconds': 1200}


KINDS = ['errno', 'errno', 'short', 'short', 'eintr']
SAVER_KINDS = KINDS + ['crash', 'torn_crash', 'sigint']


def gen(rng, tier, i):
    if rng.random() < 0.25:
        plan = cs.gen_plan(rng, ['manual', 'bisection', 'productspace'], max_steps=2, problems=['spring', 'slide'])
        if rng.random() < 0.25:
            plan['steps'] = None
            plan['solver'] = cs.gen_solver(rng, None, crash_ok=False)
            if rng.random() < 0.5:
                plan['solver']['fail'] = [0]
        plan['kind'] = 'solve'
        plan['save'] = rng.choice(['name', 'name', 'default', 'off', 'sub'])
        plan['old'] = st.gen_spec(rng, 10) if rng.random() < 0.5 else None
        return plan
    if rng.random() < 0.25:
        return gen_clients(rng)
    plan = st.gen_place(rng)
    plan['kind'] = 'files'
    plan['seed'] = rng.randrange(10 ** 6)
    if rng.random() < 0.85:
        plan['old'] = st.gen_spec(rng, 10)
        if rng.random() < 0.2:
            plan['old']['ocp'] = 'both'
    plan['serial'] = rng.random() < 0.4
    plan['actors'] = [{'load': True} for _ in range(rng.choice([1, 1, 2]))]
    for k in range(rng.choice([1, 2, 3]) if plan['serial'] else rng.choice([0, 0, 1, 1, 2])):
        plan['actors'].append({'spec': st.gen_spec(rng, 20 + k)})
    rng.shuffle(plan['actors'])
    plan['faults'] = []
    if rng.random() < 0.6:
        for _ in range(rng.choice([1, 1, 2, 3])):
            j = rng.randrange(len(plan['actors']))
            plan['faults'].append({'actor': j, 'op': rng.choice([0, 1, 1, 2, 2, 3, 3, 4, 5, 6]),
                                   'kind': rng.choice(KINDS if plan['actors'][j].get('load') else SAVER_KINDS),
                                   'val': rng.randrange(10 ** 5)})
    plan['disk_full'] = None
    plan['cut'] = rng.random() if plan['old'] and rng.random() < 0.2 else None
    if plan['cut'] is not None and rng.random() < 0.3:
        plan['cut'] = rng.choice([0.0, 1.0])
    return plan


def gen_clients(rng):
    n = rng.choice([1, 1, 2, 2, 3])
    cmds = []
    for k in range(rng.randint(4, 14)):
        what = rng.choice(['save', 'save', 'again', 'load', 'load', 'load', 'scribble', 'delete', 'restore'] if k else ['save'])
        c = {'do': what, 'client': rng.randrange(n), 'name': rng.choice([0, 0, 0, 1])}
        if what == 'save':
            c['spec'] = st.gen_spec(rng, 100 + k)
            if c['spec']['via'] == 'solve' and rng.random() < 0.6:
                c['spec']['via'] = 'save'
        cmds.append(c)
    return {'kind': 'clients', 'clients': n, 'commands': cmds, 'coarse': rng.random() < 0.5}


def shrink(plan):
    if plan['kind'] == 'clients':
        for j in range(len(plan['commands'])):
            if len(plan['commands']) > 1:
                yield dict(plan, commands=plan['commands'][:j] + plan['commands'][j + 1:])
        if plan['coarse']:
            yield dict(plan, coarse=False)
        for j, c in enumerate(plan['commands']):
            for k, v in (('client', 0), ('name', 0)):
                if c[k] != v:
                    yield dict(plan, commands=plan['commands'][:j] + [dict(c, **{k: v})] + plan['commands'][j + 1:])
            for k, v in (('shape', 'plain'), ('size', 'small'), ('ocp', None), ('via', 'save')):
                if c.get('spec') and c['spec'][k] != v:
                    n = dict(c, spec=dict(c['spec'], **{k: v}))
                    yield dict(plan, commands=plan['commands'][:j] + [n] + plan['commands'][j + 1:])
        return
    if plan['kind'] == 'solve':
        if plan['old']:
            yield dict(plan, old=None)
        for p in cs.shrink_plan(plan):
            yield p
        return
    if plan['cut'] is not None:
        yield dict(plan, cut=None)
        yield dict(plan, cut=0.0)
    for p in st.shrink_common(plan):
        yield p


def run(plan):
    out = Outcome()
    {'solve': run_solve, 'files': run_files, 'clients': run_clients}[plan['kind']](plan, out)
    return out


def loader(path, specs):
    def fn():
        d = st.load(path)
        tag = st.describe(d, specs)
        extra = None
        if tag is not None and 'bvp' in d:
            extra = functions_differ(d, next(s for s in specs if s['tag'] == tag))
        return tag, extra, 'bvp' in d
    return fn


def functions_differ(loaded, spec):
    """Evaluates the functions of a loaded problem against those of the one that was saved."""
    ref = st.ocps.compiled('spring')[1] if spec['via'] == 'solve' else cs.problem('spring')['bvp']
    rng = np.random.RandomState(1)
    f, g = ref.functional_problem, loaded['bvp'].functional_problem
    base = np.array([float(c.default_val) for c in ref.constants])
    for _ in range(3):
        y, p, n = (rng.rand(len(x)) + 0.5 for x in (ref.states, ref.parameters, ref.constraint_parameters))
        k = base * (1 + rng.rand(len(base)))
        a, b = f.deriv_func(y, p, k), g.deriv_func(y, p, k)
        if not np.array_equal(np.asarray(a, float), np.asarray(b, float), equal_nan=True):
            return 'equations of motion give %s instead of %s' % (b, a)
        a, b = f.bc_func(y, y * 0.5, p, n, k), g.bc_func(y, y * 0.5, p, n, k)
        if not np.array_equal(np.asarray(a, float), np.asarray(b, float), equal_nan=True):
            return 'boundary conditions give %s instead of %s' % (b, a)
    return None


def run_files(plan, out):
    specs = ([plan['old']] if plan['old'] else []) + [a['spec'] for a in plan['actors'] if 'spec' in a]
    old_tag = plan['old']['tag'] if plan['old'] else None
    with fssim.Scratch() as root:
        arg, path = st.place(root, plan)
        cut = False
        if plan['cut'] is not None:
            size = os.path.getsize(path)
            n = min(size - 1, int(plan['cut'] * size))
            with open(path, 'r+b') as f:
                f.truncate(n)
            cut = True
            out.faults['file_cut_off'] += 1
            out.probes['cut_off'] += 1
        m = fssim.Machine(root, plan, out)
        for a in plan['actors']:
            m.add(loader(arg, specs) if a.get('load') else saver(a['spec'], arg))
        m.run()
        states = []
        for i, (a, p) in enumerate(zip(m.actors, plan['actors'])):
            if not p.get('load'):
                if a.result[0] == 'ok':
                    out.probes['saved'] += 1
                continue
            mine = [f for f in plan['faults'] if f['actor'] == i and f['op'] < a.nops]
            hard = any(f['kind'] == 'errno' for f in mine)
            out.probes['read_error'] += hard
            out.probes['short_read'] += any(f['kind'] == 'short' for f in mine)
            begun = {plan['actors'][b.index]['spec']['tag'] for b in m.actors if 'spec' in plan['actors'][b.index]
                     and b.started_at is not None and b.started_at < a.finished_at}
            acked_before = any(b.result[0] == 'ok' and b.finished_at < a.started_at for b in m.actors
                               if 'spec' in plan['actors'][b.index])
            ends = {plan['actors'][b.index]['spec']['tag']: b.finished_at for b in m.actors
                    if 'spec' in plan['actors'][b.index] and b.finished_at is not None}
            ends[old_tag] = 0
            newest = max([b.started_at for b in m.actors if 'spec' in plan['actors'][b.index] and b.result[0] == 'ok'
                          and b.finished_at < a.started_at], default=-1)
            over = any(b.started_at < a.finished_at and (b.finished_at or 10 ** 9) > a.started_at for b in m.actors
                       if 'spec' in plan['actors'][b.index] and b.started_at is not None)
            out.probes['load_overlaps_save'] += over
            ctx = 'load %d (%s%s%s)' % (i, 'file cut off, ' if cut else '', 'next to savers, ' if over else '',
                                        'faults %s' % dict(m.fired))
            if a.result[0] == 'ok':
                tag, diff, has = a.result[1]
                states.append(tag)
                if tag is None:
                    out.violate('wrong_content', '%s returned something that was never saved' % ctx)
                elif diff:
                    out.violate('wrong_functions', '%s: %s' % (ctx, diff))
                elif ends.get(tag, 10 ** 9) < newest:
                    out.violate('stale', '%s returned the results of before a later save that had completed' % ctx)
                elif tag != old_tag and tag not in begun:
                    out.violate('wrong_content', '%s returned results whose save had not begun' % ctx)
                elif cut and tag == old_tag:
                    out.violate('wrong_content', '%s returned complete results' % ctx)
                out.probes['loaded_old'] += tag == old_tag
                out.probes['loaded_new'] += tag is not None and tag != old_tag
                out.probes['functions_compared'] += bool(has)
            elif a.result[0] == 'raise':
                states.append(a.result[1])
                missing = plan['old'] is None and a.result[1] == 'FileNotFoundError' and not acked_before
                out.probes['absent'] += missing
                broken = cut and not acked_before
                if not hard and not missing and not broken:
                    out.violate('load_fails', '%s raised %s: %s' % (ctx, a.result[1], a.result[2]))
            else:
                out.violate('load_fails', '%s ended as %s' % (ctx, a.result))
        out.state(tuple(m.order), tuple(sorted(m.fired)), tuple(states))
        out.nontrivial = bool(m.fired or cut or out.probes['load_overlaps_save'])
        out.sim_time += m.clock * 1e-3


def saver(spec, path):
    def fn():
        if spec['via'] == 'solve':
            st.solved(spec, path)
            return
        sols, kw = st.payload(spec)
        st.save(sols, filename=path, **kw)
    return fn


def bump(sols, n):
    for step in sols or []:
        for g in step:
            g.t += n
            g.y *= 1 + n
            g.converged = not g.converged


def client():
    """What a long-lived process of the user does; it keeps what it saved and what it loaded."""
    mine, loaded = {}, {}

    def obey(what, name, spec, bumps):
        if what == 'save':
            if spec['via'] == 'solve':
                st.solved(spec, name)
                return
            sols, kw = st.payload(spec)
            mine[name] = (sols, kw)
            st.save(sols, filename=name, **kw)
        elif what == 'again':
            sols, kw = mine[name]
            bump(sols, bumps[-1])
            st.save(sols, filename=name, **kw)
        elif what == 'load':
            loaded[name] = d = st.load(name)
            if spec is None:
                return 'it is not the results but %s' % sorted(d)
            sols, kw = st.payload(spec)
            for b in bumps:
                bump(sols, b)
            return st.equal(d, sols, kw)
        elif what == 'scribble':
            if name in loaded and loaded[name].get('solutions'):
                bump(loaded[name]['solutions'], 7)
                loaded[name]['solutions'].pop()
    return obey


def run_clients(plan, out):
    """One command at a time: every load must give what the last save under that name stored."""
    names = ['a.beluga', 'b.beluga']
    content, backup, story, last = {}, {}, [], {}
    with fssim.Scratch() as root:
        procs = [clients.Client(client, root) for _ in range(plan['clients'])]
        try:
            for k, c in enumerate(plan['commands']):
                name, who, what = names[c['name']], c['client'], c['do']
                path = os.path.join(root, name)
                spec, bumps = content.get(name, (None, ()))
                told = '%d %s %s' % (who, what, name)
                if what == 'delete':
                    # the user moves the file out of the way, and maybe back later
                    if os.path.exists(path):
                        os.replace(path, path + '.bak')
                        backup[name] = content.pop(name)
                    res = None
                elif what == 'restore':
                    if name in backup:
                        os.replace(path + '.bak', path)
                        content[name] = backup.pop(name)
                    res = None
                elif what == 'again':
                    if (who, name) not in last:
                        continue
                    s, b = last[who, name]
                    b = b + (1 + k,)
                    res = procs[who].do('again', name, None, b)
                    content[name] = last[who, name] = (s, b)
                    out.probes['client_resaved'] += 1
                elif what == 'save':
                    res = procs[who].do('save', name, c['spec'], ())
                    content[name] = (c['spec'], ())
                    if c['spec']['via'] == 'save':
                        last[who, name] = content[name]
                else:
                    res = procs[who].do(what, name, spec, bumps)
                    out.probes['client_scribbled'] += what == 'scribble'
                story.append(told)
                out.event(told, res and res[0])
                if plan['coarse'] and os.path.exists(path):
                    os.utime(path, (1e9, 1e9))
                if res is None:
                    continue
                if what == 'load':
                    out.probes['client_loaded_again'] += any(s == told for s in story[:-1])
                    if spec is None:
                        out.probes['client_absent'] += 1
                        if res[0] == 'ok':
                            out.violate('stale', 'after [%s] there is no file but loading it returned something' % ', '.join(story))
                            return
                    else:
                        out.probes['client_loaded'] += 1
                        if res != ('ok', None):
                            out.violate('stale', 'after [%s] the load does not give what was saved last: %s' % (
                                ', '.join(story), res[1:]))
                            return
                elif res[0] != 'ok':
                    out.violate('save_fails', 'after [%s] the save raised %s' % (', '.join(story), res[1:]))
                    return
        finally:
            for p in procs:
                p.end()
    out.state('clients', tuple(story))
    out.nontrivial = len(story) > 3


def run_solve(plan, out):
    """beluga.solve saves what it returns, where it was told to, and nothing when told not to."""
    with fssim.Scratch() as root:
        here = os.getcwd()
        os.chdir(root)
        try:
            os.makedirs(os.path.join(root, 'sub'))
            name = {'name': os.path.join(root, 'a.beluga'), 'default': 'data.beluga', 'off': 'data.beluga',
                    'sub': 'sub/b.beluga'}[plan['save']]
            if plan['old']:
                sols, kw = st.payload(plan['old'])
                st.save(sols, filename=name, **kw)
            before = fssim.listing(root)
            arg = {'name': name, 'default': True, 'off': False, 'sub': name}[plan['save']]
            clock = cs.Clock()
            log = cs.execute(plan, out, clock, save_sols=arg)
            out.sim_time += clock.total
            saved = plan['save'] != 'off' and log.exc is None
            now = fssim.listing(root)
            allowed = before | ({os.path.relpath(os.path.join(root, name), root)} if saved else set())
            if now != allowed:
                out.violate('files', 'save_sols=%r, solve ended with %r: the directory holds %s instead of %s' % (
                    arg if arg in (True, False) else 'a name', log.exc, sorted(now), sorted(allowed)))
            if saved:
                try:
                    d = st.load(name)
                    diff = st.equal({'solutions': d['solutions']}, log.out, {})
                    if diff is None and not {'ocp', 'bvp'} <= set(d):
                        diff = 'the problem is missing'
                    prob = cs.problem(plan['problem'])
                    diff = diff or st.differ(d['ocp'], prob['ocp'], 'ocp') or st.differ(d['bvp'], prob['bvp'], 'bvp')
                except Exception as e:
                    diff = 'loading it raises %r' % (e,)
                if diff:
                    out.violate('solve_saved_other', 'what beluga.solve saved is not what it returned: %s' % diff)
                out.probes['solve_saved'] += 1
                out.probes['solve_saved_default_name'] += plan['save'] == 'default'
            elif plan['old'] and os.path.relpath(os.path.join(root, name), root) in now:
                got = st.read_back(name, [plan['old']])
                if got != ('is', plan['old']['tag']):
                    out.violate('solve_overwrote', 'solve saved nothing but the earlier results are %s' % (got,))
            if plan['save'] == 'off':
                out.probes['solve_saved_nothing'] += 1
            out.state('solve', plan['save'], type(log.exc).__name__, len(log.attempts))
            out.nontrivial = any(a.get('ok') is False or a.get('crash') for a in log.attempts)
        finally:
            os.chdir(here)
