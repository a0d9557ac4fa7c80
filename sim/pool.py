"""Simulated worker pool.

Stands in for every process pool the code under test could reach (pathos, multiprocess, multiprocessing), installed
before beluga is imported. Workers are real forked processes with their own memory, but they only run when the seeded
scheduler says so, one at a time: which idle worker takes the next task, and which running task finishes next, are
decisions of the plan's seed. Tasks and results cross the process boundary serialised, as in a real pool.
"""
import collections
import hashlib
import os
import pickle
import random
import signal
import struct
import sys
import traceback

import cloudpickle

from sim.core import HarnessError, Outcome

RUN, CLOSE, TERMINATE = 'RUN', 'CLOSE', 'TERMINATE'


class Controller:
    """All pools of one simulated run."""
    current = None

    def __init__(self, plan, out, clock=None):
        self.plan = plan
        self.out = out
        self.clock = clock
        self.rng = random.Random('pool/%s' % plan.get('seed', 0))
        self.pools = []
        self.ntasks = 0
        self.nmaps = 0
        self.inject = {int(k): v for k, v in plan.get('inject', {}).items()}      # task number -> 'raise'
        self.map_faults = {int(k): v for k, v in plan.get('map_faults', {}).items()}
        self.fail_create = plan.get('fail_create', False)
        self.orders = []

    def __enter__(self):
        Controller.current = self
        return self

    def __exit__(self, *exc):
        Controller.current = None
        for p in self.pools:
            p._kill()


class WorkerLost(Exception):
    pass


class Worker:
    def __init__(self, initializer=None, initargs=()):
        self.down_r, self.down_w = os.pipe()
        self.up_r, self.up_w = os.pipe()
        sys.stdout.flush()
        sys.stderr.flush()
        self.pid = os.fork()
        if self.pid == 0:
            try:
                os.close(self.down_w)
                os.close(self.up_r)
                signal.signal(signal.SIGALRM, signal.SIG_DFL)
                signal.setitimer(signal.ITIMER_REAL, 0)
                sys.settrace(None)
                if initializer:
                    initializer(*initargs)
                self._serve()
            except BaseException:
                pass
            finally:
                os._exit(0)
        os.close(self.down_r)
        os.close(self.up_w)
        self.alive = True

    def _serve(self):
        while True:
            msg = _read(self.down_r)
            if msg is None:
                return
            try:
                func, args, kwargs, fault = cloudpickle.loads(msg)
                if fault == 'raise':
                    raise MemoryError('injected in a worker')
                res = (True, func(*args, **kwargs))
            except Exception as e:
                res = (False, e)
            try:
                data = cloudpickle.dumps(res)
            except Exception as e:
                data = cloudpickle.dumps((False, RuntimeError('result could not be serialised: %r' % (e,))))
            _write(self.up_w, data)

    def call(self, payload):
        _write(self.down_w, payload)
        data = _read(self.up_r)
        if data is None:
            raise WorkerLost()
        return data

    def kill(self):
        if not self.alive:
            return
        self.alive = False
        for fd in (self.down_w, self.up_r):
            try:
                os.close(fd)
            except OSError:
                pass
        try:
            os.kill(self.pid, signal.SIGKILL)
        except OSError:
            pass
        os.waitpid(self.pid, 0)


def _write(fd, data):
    data = struct.pack('>Q', len(data)) + data
    while data:
        n = os.write(fd, data)
        data = data[n:]


def _read(fd):
    def exactly(n):
        buf = b''
        while len(buf) < n:
            d = os.read(fd, n - len(buf))
            if not d:
                return None
            buf += d
        return buf

    head = exactly(8)
    if head is None:
        return None
    return exactly(struct.unpack('>Q', head)[0])


class SimPool:
    """The interface of multiprocessing.pool.Pool, and map(f, *iterables) as pathos' ProcessPool has it."""

    def __init__(self, processes=None, initializer=None, initargs=(), *args, **kwargs):
        ctl = Controller.current
        if ctl is None:
            raise HarnessError('a worker pool was created outside a simulated run')
        processes = kwargs.get('nodes') or kwargs.get('ncpus') or processes or 2
        ctl.pools.append(self)
        self.ctl = ctl
        self.state = RUN
        self.workers = []
        self.used_after_close = False
        self.size = processes
        self.pending = collections.deque()
        self.running = []
        self.idle = []
        ctl.out.event('pool', processes)
        if ctl.fail_create:
            ctl.out.faults['pool_creation_fails'] += 1
            ctl.pools.remove(self)
            raise OSError(11, 'Resource temporarily unavailable')
        for _ in range(processes):
            self.workers.append(Worker(initializer, initargs))
        self.idle = list(range(processes))

    # -- scheduling ---------------------------------------------------------------------------------------------------
    def _submit(self, func, args, kwargs=None):
        if self.state != RUN:
            self.used_after_close = True
            raise ValueError('Pool not running')
        n = self.ctl.ntasks
        self.ctl.ntasks += 1
        fault = self.ctl.inject.get(n)
        task = {'n': n, 'payload': cloudpickle.dumps((func, tuple(args), kwargs or {}, fault)), 'fault': fault,
                'done': False, 'res': None}
        self.pending.append(task)
        return task

    def _step(self):
        """One scheduling decision: hand the next task to some idle worker, or let some running task finish."""
        rng = self.ctl.rng
        choices = []
        if self.pending and self.idle:
            choices.append('start')
        if self.running:
            choices.append('finish')
        if not choices:
            raise HarnessError('the pool has nothing to do but something waits for it')
        if rng.choice(choices) == 'start':
            w = self.idle.pop(rng.randrange(len(self.idle)))
            task = self.pending.popleft()
            self.running.append((w, task))
            self.ctl.out.event('start', task['n'], w)
            return None
        w, task = self.running.pop(rng.randrange(len(self.running)))
        if self.ctl.clock is not None:
            self.ctl.clock.advance(rng.uniform(0.001, 30.))
        if task['fault']:
            self.ctl.out.faults['worker_task_raises'] += 1
        data = self.workers[w].call(task['payload'])
        task['res'] = pickle.loads(data)
        task['done'] = True
        self.idle.append(w)
        self.ctl.out.event('finish', task['n'], w, task['res'][0])
        self.order.append((task['n'], w))
        return task

    def _drive(self, tasks):
        """Runs until all tasks are done. Returns them in the order in which they finished."""
        self.order = []
        finished = []
        while not all(t['done'] for t in tasks):
            t = self._step()
            if t is not None:
                finished.append(t)
        base = min([n for n, _ in self.order], default=0)
        self.ctl.orders.append(tuple(n - base for n, _ in self.order))
        self.ctl.out.state(tuple((n - base, w) for n, w in self.order))
        if [n for n, _ in self.order] != sorted(n for n, _ in self.order):
            self.ctl.out.probes['finished_out_of_order'] += 1
        return finished

    def _map_fault(self):
        n = self.ctl.nmaps
        self.ctl.nmaps += 1
        kind = self.ctl.map_faults.get(n)
        if kind == 'interrupt':
            self.ctl.out.faults['interrupt_in_map'] += 1
            raise KeyboardInterrupt()
        if kind == 'oserror':
            self.ctl.out.faults['map_fails'] += 1
            raise OSError(12, 'Cannot allocate memory')

    # -- interface ----------------------------------------------------------------------------------------------------
    def _items(self, func, iterables, star=False):
        iterables = [list(it) for it in iterables]
        if star:
            argsets = [tuple(x) for x in iterables[0]]
        else:
            argsets = list(zip(*iterables))
        return [self._submit(func, a) for a in argsets]

    def map(self, func, *iterables, chunksize=None, **kwds):
        if len(iterables) == 2 and isinstance(iterables[1], int):
            iterables = iterables[:1]
        tasks = self._items(func, iterables)
        self._map_fault()
        return self._collect(tasks)

    def _collect(self, tasks):
        finished = self._drive(tasks)
        for t in finished:
            if t in tasks and not t['res'][0]:
                raise t['res'][1]
        return [t['res'][1] for t in tasks]

    def starmap(self, func, iterable, chunksize=None):
        tasks = self._items(func, [iterable], star=True)
        self._map_fault()
        return self._collect(tasks)

    def apply(self, func, args=(), kwds=None):
        return self._collect([self._submit(func, args, kwds)])[0]

    def apply_async(self, func, args=(), kwds=None, callback=None, error_callback=None):
        return AsyncResult(self, [self._submit(func, args, kwds)], True, callback)

    def map_async(self, func, iterable, chunksize=None, callback=None, error_callback=None):
        return AsyncResult(self, self._items(func, [iterable]), False, callback)

    def starmap_async(self, func, iterable, chunksize=None, callback=None, error_callback=None):
        return AsyncResult(self, self._items(func, [iterable], star=True), False, callback)

    def imap(self, func, *iterables, chunksize=None, **kwds):
        return iter(self.map(func, *iterables))

    def imap_unordered(self, func, *iterables, chunksize=None, **kwds):
        tasks = self._items(func, iterables)
        self._map_fault()
        for t in self._drive(tasks):
            if not t['res'][0]:
                raise t['res'][1]
            yield t['res'][1]

    uimap = imap_unordered
    amap = map_async
    apipe = apply_async

    def pipe(self, func, *args):
        return self.apply(func, args)

    def close(self):
        if self.state == RUN:
            self.state = CLOSE
        self.ctl.out.event('close')

    def terminate(self):
        self.state = TERMINATE
        self.ctl.out.event('terminate')
        self._kill()

    def join(self, *args):
        if self.state == RUN:
            raise ValueError('Pool is still running')

    def restart(self, *args, **kwargs):
        self.state = RUN

    def clear(self):
        self.terminate()

    def _kill(self):
        for w in self.workers:
            w.kill()
        self.workers = []

    def __enter__(self):
        return self

    def __exit__(self, *exc):
        self.terminate()


class AsyncResult:
    def __init__(self, pool, tasks, single, callback):
        self.pool, self.tasks, self.single, self.callback = pool, tasks, single, callback
        self.value = None

    def get(self, timeout=None):
        res = self.pool._collect(self.tasks)
        res = res[0] if self.single else res
        if self.callback is not None:
            cb, self.callback = self.callback, None
            cb(res)
        return res

    def wait(self, timeout=None):
        self.pool._drive(self.tasks)

    def ready(self):
        return all(t['done'] for t in self.tasks)

    def successful(self):
        return self.ready() and all(t['res'][0] for t in self.tasks)


def install():
    """Puts SimPool wherever a process pool could come from. Idempotent; called before beluga is imported."""
    import multiprocessing
    import multiprocessing.pool
    import multiprocess
    import multiprocess.pool
    import pathos
    import pathos.multiprocessing
    import pathos.pools
    for mod, names in ((pathos.multiprocessing, ('Pool', 'ProcessPool', 'ProcessingPool', '_ProcessPool')),
                       (pathos.pools, ('ProcessPool', '_ProcessPool', 'ParallelPool')),
                       (multiprocess, ('Pool',)), (multiprocess.pool, ('Pool',)),
                       (multiprocessing, ('Pool',)), (multiprocessing.pool, ('Pool',))):
        for n in names:
            if hasattr(mod, n):
                setattr(mod, n, SimPool)
