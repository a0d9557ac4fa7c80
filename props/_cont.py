"""Shared skeleton of the continuation checks."""
from sim import contsim as cs
from sim.core import Outcome


def setup():
    cs.problem('spring'), cs.problem('slide')


def run_follow(plan, classes):
    out = Outcome()
    clock = cs.Clock()
    log = cs.execute(plan, out, clock)
    out.sim_time = clock.total
    if isinstance(log.exc, cs.StepBudget):
        out.violate('endless', 'still attempting after %d attempts' % len(log.attempts))
        return out, log, None
    probe = Outcome()
    info = cs.follow(plan, log, probe)
    for cls, msg, key in probe.violations:
        if cls in classes:
            out.violate(cls, msg, key)
    out.states |= probe.states
    out.probes.update(probe.probes)
    out.note = '%d attempts, %s' % (len(log.attempts), 'completed' if log.exc is None else repr(log.exc))
    out.event('end', repr(log.exc), len(log.attempts))
    out.nontrivial = any(not a.get('ok') for a in log.attempts)
    return out, log, info
