"""Driver shared by every check: seeded runs, violation triage, minimisation, replay files, evidence.

A *scenario module* provides

    PROPERTY          id
    LEVEL, RULE, REAL, STUB, ASSUMPTIONS     texts for the evidence
    budget(tier)      -> {'runs': int, 'seconds': float, 'chunk': int}
    gen(rng, tier, i) -> plan       JSON-able, complete: every schedule and fault decision is in it or derives from it
    run(plan)         -> Outcome    executes the real code under the simulator and applies the oracle
    shrink(plan)      -> iterator of simpler plans

`run` is a pure function of (plan, code under test).  A replay file is a plan plus the violation class it produced.
"""
import collections
import copy
import gc
import hashlib
import json
import os
import random
import signal
import subprocess
import sys
import time
import traceback

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
EVIDENCE = os.path.join(VERIF, 'evidence')
REPLAYS = os.path.join(VERIF, 'replays')
KNOWN = os.path.join(VERIF, 'KNOWN_FINDINGS.txt')

_real_monotonic = time.monotonic
_real_time = time.time


class HarnessError(Exception):
    """The check itself is broken; never reported as a violation."""


class Hang(BaseException):
    """A simulated run made no progress within its wall-clock guard."""


class Outcome:
    def __init__(self):
        self.violations = []                    # (class, message, known_key or None)
        self.faults = collections.Counter()     # fault kinds that actually fired
        self.probes = collections.Counter()     # rare conditions reached
        self.states = set()                     # hashes of the states / interleavings reached
        self.trace = hashlib.sha256()           # event log digest: determinism is checked on it
        self.events = 0
        self.sim_time = 0.0
        self.nontrivial = False
        self.note = None                        # short description for the samples

    def event(self, *what):
        self.events += 1
        self.trace.update(repr(what).encode())

    def state(self, *what):
        self.states.add(hashlib.blake2b(repr(what).encode(), digest_size=8).hexdigest())

    def violate(self, cls, msg, key=None):
        self.violations.append((cls, str(msg)[:2000], key))

    def digest(self):
        return self.trace.hexdigest()


def rng_for(prop, seed, i):
    return random.Random('%s/%d/%d' % (prop, seed, i))


def guarded(mod, plan, wall=None):
    """Runs one plan under a wall-clock guard. A run that does not end is reported as class `hang`."""
    wall = wall or getattr(mod, 'RUN_WALL', 120)

    def on_alarm(signum, frame):
        raise Hang()

    old = signal.signal(signal.SIGALRM, on_alarm)
    signal.setitimer(signal.ITIMER_REAL, wall)
    try:
        try:
            return mod.run(copy.deepcopy(plan))
        finally:
            signal.setitimer(signal.ITIMER_REAL, 0)
    except Hang:
        out = Outcome()
        if getattr(mod, 'SLOW_IS_NO_ANSWER', False):
            out.probes['gave_up_too_slow'] += 1
            return out
        out.violate('hang', 'the run did not end within %g s of real time' % wall)
        return out
    finally:
        signal.setitimer(signal.ITIMER_REAL, 0)
        signal.signal(signal.SIGALRM, old)


def _pack(i, plan, out, want_plan):
    return {'i': i, 'viol': out.violations, 'faults': dict(out.faults), 'probes': dict(out.probes),
            'states': list(out.states), 'events': out.events, 'sim_time': out.sim_time, 'digest': out.digest(),
            'nontrivial': bool(out.nontrivial), 'note': out.note,
            'plan': plan if (want_plan or out.violations) else None,
            'plan_hash': hashlib.blake2b(json.dumps(plan, sort_keys=True).encode(), digest_size=8).hexdigest()}


def _worker(mod, prop, seed, tier, w, nworkers, budget, deadline, fd):
    """Runs the run indices w, w+n, ... and streams one JSON line per run to fd."""
    out_file = os.fdopen(fd, 'w')
    try:
        if hasattr(mod, 'setup'):
            mod.setup()
        gc.collect()
        gc.freeze()
        for i in range(w, budget['runs'], nworkers):
            if _real_monotonic() > deadline:
                break
            plan = mod.gen(rng_for(prop, seed, i), tier, i)
            json.dumps(plan)
            out = guarded(mod, plan)
            out_file.write(json.dumps(_pack(i, plan, out, i < 3)) + '\n')
            out_file.flush()
            if out.violations and any(v[2] is None for v in out.violations):
                if os.environ.get('VERIF_ALL') != '1':
                    break
        out_file.write(json.dumps({'done': w}) + '\n')
        out_file.flush()
        code = 0
    except BaseException:
        out_file.write(json.dumps({'error': traceback.format_exc()}) + '\n')
        out_file.flush()
        code = 3
    finally:
        try:
            out_file.close()
        except Exception:
            pass
    os._exit(code)


def explore(mod, seed, tier, nworkers, budget):
    """Forks the workers, gathers the runs. Returns (list of run records, harness errors)."""
    import selectors
    deadline = _real_monotonic() + budget['seconds']
    sel = selectors.DefaultSelector()
    pids = {}
    for w in range(nworkers):
        r, wfd = os.pipe()
        sys.stdout.flush()
        sys.stderr.flush()
        pid = os.fork()
        if pid == 0:
            os.close(r)
            signal.signal(signal.SIGINT, signal.default_int_handler)
            _worker(mod, mod.PROPERTY, seed, tier, w, nworkers, budget, deadline, wfd)
        os.close(wfd)
        pids[r] = [pid, w, b'', False]
        sel.register(r, selectors.EVENT_READ)
    records, errors = [], []
    hard = deadline + getattr(mod, 'RUN_WALL', 120) + 60
    while pids:
        ready = sel.select(timeout=1.0)
        if not ready and _real_monotonic() > hard:
            for r, st in pids.items():
                try:
                    os.kill(st[0], signal.SIGKILL)
                except OSError:
                    pass
                errors.append('worker %d did not end' % st[1])
            break
        for key, _ in ready:
            r = key.fd
            st = pids[r]
            data = os.read(r, 1 << 20)
            if data:
                st[2] += data
                *lines, st[2] = st[2].split(b'\n')
                for line in lines:
                    rec = json.loads(line)
                    if 'error' in rec:
                        errors.append(rec['error'])
                        st[3] = True
                    elif 'done' in rec:
                        st[3] = True
                    else:
                        records.append(rec)
            else:
                sel.unregister(r)
                os.close(r)
                _, status = os.waitpid(st[0], 0)
                if not st[3]:
                    errors.append('worker %d died with status %d' % (st[1], status))
                del pids[r]
    records.sort(key=lambda rec: rec['i'])
    return records, errors


def _in_child(fn, *args, timeout=600):
    """Runs fn(*args) in a forked child and returns its JSON-able result, or None."""
    r, w = os.pipe()
    sys.stdout.flush()
    sys.stderr.flush()
    pid = os.fork()
    if pid == 0:
        os.close(r)
        try:
            res = fn(*args)
            with os.fdopen(w, 'w') as f:
                f.write(json.dumps(res))
            os._exit(0)
        except BaseException:
            traceback.print_exc()
            os._exit(3)
    os.close(w)
    end = _real_monotonic() + timeout
    buf = b''
    import select
    while True:
        left = end - _real_monotonic()
        if left <= 0:
            os.kill(pid, signal.SIGKILL)
            break
        if select.select([r], [], [], min(left, 1.0))[0]:
            data = os.read(r, 1 << 20)
            if not data:
                break
            buf += data
    os.close(r)
    os.waitpid(pid, 0)
    try:
        return json.loads(buf)
    except ValueError:
        return None


def new_classes(out):
    return sorted({v[0] for v in out.violations if v[2] is None})


def minimise(mod, plan, cls, seconds):
    """Greedy: accept any simpler plan on which the same violation class persists."""
    if hasattr(mod, 'setup'):
        mod.setup()
    end = _real_monotonic() + seconds
    tried, kept = 0, 0
    progress = True
    wall = min(getattr(mod, 'RUN_WALL', 120), 60)
    while progress and _real_monotonic() < end:
        progress = False
        for cand in mod.shrink(copy.deepcopy(plan)):
            if _real_monotonic() > end:
                break
            if cand == plan:
                continue
            tried += 1
            try:
                out = guarded(mod, cand, wall)
            except Exception:
                continue
            if cls in new_classes(out):
                plan = cand
                kept += 1
                progress = True
                break
    out = guarded(mod, plan)
    msgs = [v for v in out.violations if v[0] == cls]
    return {'plan': plan, 'tried': tried, 'kept': kept, 'cls': cls, 'message': msgs[0][1] if msgs else None,
            'digest': out.digest()}


def replay(mod, path):
    with open(path) as f:
        doc = json.load(f)
    if hasattr(mod, 'setup'):
        mod.setup()
    out = guarded(mod, doc['plan'])
    print('replay of %s: property %s, class %s' % (path, doc['property'], doc['class']))
    for v in out.violations:
        print('  [%s] %s' % (v[0], v[1]))
    print('event log digest %s (%d events); recorded %s' % (out.digest(), out.events, doc.get('digest')))
    bad = new_classes(out)
    if bad:
        print('VIOLATION property=%s replay=%s' % (mod.PROPERTY, path))
        return 1
    print('no violation on this tree')
    return 0


def known_findings(prop):
    out = {}
    try:
        with open(KNOWN) as f:
            for line in f:
                line = line.strip()
                if line.startswith('known: property=%s ' % prop):
                    rest = line.split(' ', 2)[2]
                    key, _, what = rest.partition(' ')
                    out[key[len('key='):]] = what
    except FileNotFoundError:
        pass
    return out


def merge(records):
    tot = {'faults': collections.Counter(), 'probes': collections.Counter(), 'states': set(), 'events': 0,
           'sim_time': 0.0, 'nontrivial': set()}
    for rec in records:
        tot['faults'].update(rec['faults'])
        tot['probes'].update(rec['probes'])
        tot['states'].update(rec['states'])
        tot['events'] += rec['events']
        tot['sim_time'] += rec['sim_time']
        if rec['nontrivial']:
            tot['nontrivial'].add(rec['plan_hash'])
    return tot


def write_evidence(mod, tier, seed, records, wall, violations, extra):
    tot = merge(records)
    n = len(records)
    samples = [{'run': rec['i'], 'note': rec['note'], 'plan': rec['plan']} for rec in records if rec['plan']][:3]
    cov = {
        'evaluations': n,
        'distinct_nontrivial': len(tot['nontrivial']),
        'rule': mod.RULE,
        'samples': samples or ['none'],
        'seeds': 'run i draws every decision from Random("%s/%d/i"); i = %s..%s' % (
            mod.PROPERTY, seed, records[0]['i'] if n else '-', records[-1]['i'] if n else '-'),
        'runs_per_hour': int(n / max(wall, 1e-3) * 3600),
        'simulated_seconds': round(tot['sim_time'], 3),
        'events': tot['events'],
        'faults_fired': dict(sorted(tot['faults'].items())),
        'probes': dict(sorted(tot['probes'].items())),
        'distinct_states': len(tot['states']),
        'state_measure': mod.STATE_MEASURE,
        'components_real': mod.REAL,
        'components_stub': mod.STUB,
    }
    cov.update(extra)
    doc = {'property': mod.PROPERTY, 'tier': tier, 'seed': seed, 'level': mod.LEVEL, 'coverage': cov,
           'assumptions': mod.ASSUMPTIONS, 'wall_s': round(wall, 3), 'violations': violations}
    os.makedirs(EVIDENCE, exist_ok=True)
    path = os.path.join(EVIDENCE, mod.PROPERTY + '.json')
    with open(path + '.part', 'w') as f:
        json.dump(doc, f, indent=1, default=str)
    os.replace(path + '.part', path)


def main(mod, argv):
    tier = os.environ.get('VERIF_TIER', 'quick')
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    nworkers = int(os.environ.get('VERIF_WORKERS', '0')) or min(8, os.cpu_count() or 1)
    args = list(argv)
    if '--tier' in args:
        tier = args[args.index('--tier') + 1]
    if '--replay' in args:
        return replay(mod, args[args.index('--replay') + 1])
    t0 = _real_monotonic()
    budget = mod.budget(tier)
    if os.environ.get('VERIF_RUNS'):
        budget['runs'] = int(os.environ['VERIF_RUNS'])
    if os.environ.get('VERIF_SECONDS'):
        budget['seconds'] = float(os.environ['VERIF_SECONDS'])
    print('property %s, tier %s, VERIF_SEED=%d, up to %d runs in %d s, %d workers' % (
        mod.PROPERTY, tier, seed, budget['runs'], budget['seconds'], nworkers), flush=True)
    records, errors = explore(mod, seed, tier, nworkers, budget)
    wall = _real_monotonic() - t0
    bad = [rec for rec in records if any(v[2] is None for v in rec['viol'])]
    if os.environ.get('VERIF_DIGESTS'):
        with open(os.environ['VERIF_DIGESTS'], 'w') as f:
            for rec in records:
                f.write('%d %s %d %s\n' % (rec['i'], rec['digest'], rec['events'], [v[0] for v in rec['viol']]))
    listed = known_findings(mod.PROPERTY)
    seen_known = {}
    for rec in records:
        for cls, msg, key in rec['viol']:
            if key is not None:
                if key not in listed:
                    bad.append(rec)
                else:
                    seen_known.setdefault(key, msg)
    for key in sorted(seen_known):
        print('KNOWN-FINDING: property=%s %s' % (mod.PROPERTY, listed[key]))
    if bad:
        bad.sort(key=lambda rec: rec['i'])
        rec = bad[0]
        v = [v for v in rec['viol'] if v[2] is None or v[2] not in listed][0]
        print('run %d: [%s] %s' % (rec['i'], v[0], v[1]))
        for other in bad[1:6]:
            print('also run %d: %s' % (other['i'], sorted({x[0] for x in other['viol']})))
        secs = float(os.environ.get('VERIF_SHRINK', '60'))
        mini = _in_child(minimise, mod, rec['plan'], v[0], secs, timeout=secs + 200)
        if not mini or mini['message'] is None:
            mini = {'plan': rec['plan'], 'tried': 0, 'kept': 0, 'message': v[1], 'digest': rec['digest']}
        os.makedirs(REPLAYS, exist_ok=True)
        doc = {'property': mod.PROPERTY, 'class': v[0], 'message': mini['message'], 'seed': seed, 'run': rec['i'],
               'plan': mini['plan'], 'digest': mini['digest'],
               'minimised': {'tried': mini['tried'], 'accepted': mini['kept']}, 'original_plan': rec['plan']}
        path = os.path.join(REPLAYS, '%s-%s-%d-%d.json' % (mod.PROPERTY, v[0], seed, rec['i']))
        with open(path, 'w') as f:
            json.dump(doc, f, indent=1)
        try:
            p = subprocess.run([sys.executable, os.path.join(VERIF, 'check.py'), mod.PROPERTY, '--replay', path],
                               stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=300)
            confirmed = p.returncode == 1
        except subprocess.TimeoutExpired:
            confirmed = v[0] == 'hang'
        print('minimised: %d candidates, %d accepted; replay in a fresh process %s' % (
            mini['tried'], mini['kept'], 'reproduces it' if confirmed else 'DID NOT reproduce it'))
        print('minimised violation: %s' % mini['message'])
        write_evidence(mod, tier, seed, records, _real_monotonic() - t0, len(bad),
                       {'harness_errors': len(errors), 'replay_confirmed': confirmed})
        print('VIOLATION property=%s replay=%s' % (mod.PROPERTY, path))
        return 1
    if errors:
        print('\n'.join(errors[:3]), file=sys.stderr)
        print('error of the check: %d worker(s) failed' % len(errors), file=sys.stderr)
        return 2
    extra = {}
    if hasattr(mod, 'extra_evidence'):
        extra = mod.extra_evidence(records)
    write_evidence(mod, tier, seed, records, wall, 0, extra)
    tot = merge(records)
    print('held on %d runs (%d distinct non-trivial), %d events, faults %s, probes %s, %d states, %.1f s' % (
        len(records), len(tot['nontrivial']), tot['events'], dict(sorted(tot['faults'].items())),
        dict(sorted(tot['probes'].items())), len(tot['states']), wall))
    zero = [p for p in getattr(mod, 'EXPECTED_PROBES', []) if not tot['probes'].get(p)]
    if zero:
        print('note: probes never reached: %s' % zero)
    return 0
