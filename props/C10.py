"""Saving replaces a result file completely or not at all, whatever goes wrong."""
import os

from props import _store as st
from sim import fssim
from sim.core import Outcome

PROPERTY = 'C10'
LEVEL = 'exploration'
RULE = ('each run: 1-3 processes save different results (by save(), or as beluga.solve does) under one name that may already hold some; the schedule of their '
        'file operations and the faults (errors, short writes, full disk, Ctrl-C, death before, in the middle of or '
        'after any operation, power loss) come from the seed; afterwards the file, the directory and, for power loss, '
        'the directory the modelled disk would show are examined; non-trivial when a fault fired or savers overlapped')
STATE_MEASURE = 'distinct (sequence of (actor, operation), faults fired, what the file held in the end) tuples'
REAL, STUB = st.REAL, st.STUB
ASSUMPTIONS = ['names become durable in order, contents by fsync; a lost unsynced write may be torn',
               'no bit rot: what was durable stays readable', 'the storage does not acknowledge an fsync it did not do']
EXPECTED_PROBES = ['old_kept', 'new_visible', 'saved_first_time', 'savers_overlap', 'power_loss_examined', 'handled_failure',
                   'crashed', 'unserialisable', 'power_loss_after_return', 'saved_by_solve']


def setup():
    st.cs.problem('spring')
    st.ocps.compiled('spring')


def budget(tier):
    return {'runs': 4000, 'seconds': 70} if tier == 'quick' else {'runs': 10 ** 7, 'seconds': 1200}


KINDS = ['errno', 'errno', 'errno', 'short', 'eintr', 'crash', 'torn_crash', 'crash_after', 'sigint', 'sigint', 'power',
         'power']


def gen(rng, tier, i):
    plan = st.gen_place(rng)
    plan['seed'] = rng.randrange(10 ** 6)
    if rng.random() < 0.75:
        plan['old'] = st.gen_spec(rng, 10)
    plan['actors'] = [{'spec': st.gen_spec(rng, 20 + k)} for k in range(rng.choice([1, 1, 1, 2, 3]))]
    plan['serial'] = rng.random() < 0.3
    if rng.random() < 0.05 and plan['actors'][0]['spec']['via'] == 'save':
        plan['actors'][0]['bad'] = True
    plan['faults'] = []
    if rng.random() < 0.9:
        for _ in range(rng.choice([1, 1, 1, 2, 3])):
            plan['faults'].append({'actor': rng.randrange(len(plan['actors'])), 'op': rng.choice([0, 1, 2, 3, 4, 5, 6, 7, 8]),
                                   'kind': rng.choice(KINDS), 'val': rng.randrange(10 ** 5)})
    plan['disk_full'] = rng.choice([None] * 8 + [0, 100, 3000])
    plan['power_after'] = rng.random() < 0.3
    return plan


def shrink(plan):
    if plan['power_after']:
        yield dict(plan, power_after=False)
    for p in st.shrink_common(plan):
        yield p


def saver(spec, path, bad):
    def fn():
        if spec['via'] == 'solve':
            st.solved(spec, path)
            return
        sols, kw = st.payload(spec)
        if bad:
            sols[0][0].extra = st.Unpicklable()
        st.save(sols, filename=path, **kw)
    return fn


def run(plan):
    out = Outcome()
    with fssim.Scratch() as root:
        arg, path = st.place(root, plan)
        before = fssim.listing(root)
        m = fssim.Machine(root, plan, out)
        for a in plan['actors']:
            m.add(saver(a['spec'], arg, a.get('bad')))
        m.run()
        judge(plan, m, root, path, before, out)
    return out


def judge(plan, m, root, path, before, out):
    specs = ([plan['old']] if plan['old'] else []) + [a['spec'] for a in plan['actors']]
    old = ('is', plan['old']['tag']) if plan['old'] else 'absent'
    res = [a.result for a in m.actors]
    tags = [a['spec']['tag'] for a in plan['actors']]
    acked = [t for t, r in zip(tags, res) if r[0] == 'ok']
    crashed = any(r[0] == 'crashed' for r in res)
    overlap = any(a.started_at < b.started_at < (a.finished_at or 10 ** 9) for a in m.actors for b in m.actors
                  if a is not b and a.started_at and b.started_at)
    out.probes['savers_overlap'] += bool(overlap)
    out.probes['crashed'] += crashed
    story = '; '.join('save %d: %s' % (t, r[0] if r[0] != 'raise' else 'raised %s' % r[1]) for t, r in zip(tags, res))
    now = st.read_back(path, specs)
    if now[0] == 'broken':
        out.violate('broken', 'after [%s] with faults %s the result file is unusable: %s (it held %s before)' % (
            story, dict(m.fired), now[1], old))
    elif now == 'absent' and plan['old']:
        out.violate('lost', 'after [%s] with faults %s the results saved before are gone' % (story, dict(m.fired)))
    elif now == 'absent' and acked:
        out.violate('not_saved', 'after [%s] with faults %s nothing was saved' % (story, dict(m.fired)))
    elif acked and now == old:
        out.violate('not_saved', 'after [%s] with faults %s the file still holds what was there before' % (
            story, dict(m.fired)))
    for a, p in zip(m.actors, plan['actors']):
        if p.get('bad') and a.result[0] == 'ok':
            out.violate('error_lost', 'saving something that cannot be serialised did not raise')
        if p.get('bad') and a.result[0] == 'raise':
            out.probes['unserialisable'] += 1
    if m.power_lost or plan['power_after']:
        out.probes['power_loss_examined'] += 1
        if not m.power_lost:
            out.faults['power_loss_after_end'] += 1
            out.probes['power_loss_after_return'] += bool(acked)
        for k in range(4):
            with fssim.Scratch() as there:
                cut, mode, lost = m.disk.power_loss(m.rng, there)
                then = st.read_back(there + path[len(root):], specs)
                if then[0] == 'broken':
                    out.violate('torn', 'after a power loss following [%s] the result file is unusable: %s (it held %s '
                                'before; unsynced data: %s)' % (story, then[1], old, mode))
                    break
                if then == 'absent' and plan['old']:
                    out.violate('lost', 'after a power loss following [%s] the results saved before are gone' % story)
                    break
    if not m.power_lost:
        with open(os.path.join(root, 'other.dat'), 'rb') as f:
            if f.read() != b'not to be touched':
                out.violate('other_file', 'another file in the directory was changed')
        # a save that failed but whose process lives on cleans up after itself
        excused = crashed or any(k.endswith('@unlink') for k in m.fired)
        harm = sum(1 if k == 'disk_full' else v for k, v in m.fired.items() if not k.startswith(('short', 'eintr')))
        if harm > 1 and any(k.startswith('sigint') for k in m.fired):
            excused = True           # a second Ctrl-C, or Ctrl-C during the handling of another failure
        extra = fssim.listing(root) - before - {os.path.relpath(path, root)}
        if not excused:
            if plan.get('link'):
                extra -= {'store/real.beluga'}
            if extra:
                out.violate('litter', 'after [%s] with faults %s these files were left behind: %s' % (
                    story, dict(m.fired), sorted(extra)))
    handled = any(r[0] == 'raise' for r in res)
    out.probes['handled_failure'] += handled
    out.probes['old_kept'] += bool(now == old and plan['old'] and (handled or crashed))
    out.probes['new_visible'] += bool(acked)
    out.probes['saved_by_solve'] += any(a['spec']['via'] == 'solve' for a in plan['actors'])
    out.probes['saved_first_time'] += bool(acked and not plan['old'])
    out.event('final', now)
    out.state(tuple(m.order), tuple(sorted(m.fired)), now)
    out.nontrivial = bool(m.fired or overlap)
    out.sim_time += m.clock * 1e-3
