"""A fresh process that solves given problems in given surroundings and prints a digest of each result.

Reads {"jobs": [{"plan": ..., "env": ...}, ...], "scratch": dir} from standard input, writes one JSON line at the end.
Started by props/C16.py with the PYTHONHASHSEED of the plan.
"""
import errno
import gc
import io
import json
import logging
import os
import random
import sys
import time

sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))


class Clocks:
    """All clocks of the process, simulated: the wall clock may jump, the others only stall."""

    def __init__(self):
        self.on = None
        self.real = {n: getattr(time, n) for n in ('time', 'monotonic', 'perf_counter', 'process_time', 'thread_time')}
        for n in self.real:
            setattr(time, n, self.reader(n, 1))
            setattr(time, n + '_ns', self.reader(n, 10 ** 9))

    def reader(self, name, unit):
        def read():
            if self.on is None:
                v = self.real[name]()
            elif name == 'time':
                v = self.on.time()
            else:
                v = self.on.steady()
            return v if unit == 1 else int(v * unit)
        return read


class FullDisk(io.StringIO):
    """A log destination that fails now and then."""

    def __init__(self, seed, kind):
        super().__init__()
        self.rng = random.Random(seed)
        self.kind = kind
        self.failed = 0

    def write(self, s):
        if self.kind == 'always' or self.rng.random() < 0.3:
            self.failed += 1
            raise OSError(errno.ENOSPC, 'No space left on device')
        return len(s)

    def flush(self):
        if self.kind == 'always':
            self.failed += 1
            raise OSError(errno.ENOSPC, 'No space left on device')


def main():
    task = json.load(sys.stdin)
    real_out = sys.stdout
    sys.stdout = io.StringIO()
    clocks = Clocks()
    from sim import boot                                                        # noqa: F401
    from sim import contsim as cs
    from sim import ocps
    import numpy as np
    beluga = ocps.beluga
    logging.raiseExceptions = False        # the tracebacks logging prints about its own failures are of no interest
    answers = []
    for k, job in enumerate(task['jobs']):
        env = job['env']
        if k == 0 or not env.get('same_dir'):
            here = os.path.join(task['scratch'], 'd%d' % k)
            os.makedirs(here)
        os.chdir(here)
        # whatever is cached in the home or temporary directory is found by the next solve
        os.environ['HOME'] = os.environ['TMPDIR'] = task['scratch']
        os.cpu_count = os.process_cpu_count = lambda n=env.get('cpus', 8): n
        np.set_printoptions(**env.get('print', {'precision': 8, 'threshold': 1000, 'suppress': False}))
        os.umask(env.get('umask', 0o022))
        for name, value in env.get('environ', {}).items():
            os.environ[name] = value
        sys.stdout = io.StringIO()
        beluga.add_logger(display_level=env['display'], file_level=env['file'],
                          filename=os.path.join(here, 'some%d.log' % k))
        faulty = []
        if env.get('log_fails'):
            for h in logging.getLogger('beluga').handlers:
                h.stream = FullDisk(env['log_fails'][1], env['log_fails'][0])
                faulty.append(h.stream)
        random.seed(env['rng'])
        np.random.seed(env['rng'])
        gc.enable()
        if env.get('gc') == 'off':
            gc.disable()
        elif env.get('gc'):
            gc.set_threshold(int(env['gc']))
        clock = cs.Clock(start=env['start'], jumps=[tuple(j) for j in env['jumps']], rate=env['rate'])
        clocks.on = clock
        try:
            with np.errstate(all='ignore'):
                if job.get('symbolic'):
                    ocps._cache.clear()
                res = ocps.solve(job['plan'])
        finally:
            clocks.on = None
        for h in list(logging.getLogger('beluga').handlers):
            try:
                h.close()
            except Exception:
                pass
        answers.append({'digest': ocps.digest(res), 'jumps': clock.fired, 'log_failures': sum(f.failed for f in faulty),
                        'what': repr(res)[:200] if isinstance(res, BaseException) else 'results'})
    sys.stdout = real_out
    os.chdir('/')
    print(json.dumps(answers))


main()
