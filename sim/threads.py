"""Several threads of the code under test, interleaved line by line as a seeded scheduler decides.

Real Python threads, of which exactly one holds the baton at any time. The holder passes it on at a line of the code
under test (every file below the repository); after how many lines, and to whom, are
drawn from the plan's seed. One seed is one interleaving.
"""
import os
import random
import sys
import threading

from sim.boot import REPO

_real_lock = threading.Lock
mon = sys.monitoring
TOOL = 4


class Threads:
    def __init__(self, bodies, seed, out, mean=200, burst=0.3, parts=('beluga/',), strikes=None, exc=None,
                 rare=0.0):
        """rare: chance to switch at a line reached only a few times so far, whatever the stretch drawn.
        bodies: list of callables. strikes: {thread: line count} at which exc is raised inside that thread."""
        self.rng = random.Random('threads/%s' % seed)
        self.bodies = bodies
        self.out = out
        self.mean, self.burst = mean, burst
        self.prefix = tuple(os.path.join(os.path.realpath(REPO), p) for p in parts)
        self.results = [None] * len(bodies)
        self.done = [False] * len(bodies)
        self.count = [0] * len(bodies)
        self.rare, self.hits = rare, {}
        self.strikes = dict(strikes or {})
        self.exc = exc
        self.struck = {}
        self.gates = [_real_lock() for _ in bodies]
        for g in self.gates:
            g.acquire()
        self.finished = _real_lock()
        self.finished.acquire()
        self.left = 0
        self.switches = 0
        self.points = set()
        self.index = {}
        self.codes = []

    def _draw(self):
        # mostly long stretches, now and then a switch after a line or two
        if self.rng.random() < self.burst:
            self.left = self.rng.randint(1, 4)
        else:
            self.left = 1 + int(self.rng.expovariate(1.0 / self.mean))

    def _next(self, me):
        alive = [i for i, d in enumerate(self.done) if not d]
        return self.rng.choice(alive) if alive else None

    def _wants(self, code):
        return code.co_filename.startswith(self.prefix)

    def _start(self, code, offset):
        """First entry into a function: watch its lines if it belongs to the code under test."""
        if self._wants(code):
            self.codes.append(code)
            mon.set_local_events(TOOL, code, mon.events.LINE)
        return mon.DISABLE

    def _line(self, code, lineno):
        me = self.index.get(threading.get_ident())
        if me is None:
            return
        self.count[me] += 1
        if self.strikes.get(me) == self.count[me]:
            self.struck[me] = (os.path.basename(code.co_filename), code.co_name)
            self.index.pop(threading.get_ident())       # what follows (cleaning up) runs undisturbed to its end
            raise self.exc()
        self.left -= 1
        often = True
        if self.rare:
            n = self.hits[code, lineno] = self.hits.get((code, lineno), 0) + 1
            often = n > 12 * len(self.bodies) or self.rng.random() >= self.rare
        if self.left <= 0 or not often:
            self._draw()
            to = self._next(me)
            if to != me:
                self.switches += 1
                self.points.add((os.path.basename(code.co_filename), lineno))
                self.gates[to].release()
                self.gates[me].acquire()

    def _run(self, me):
        self.gates[me].acquire()
        self.index[threading.get_ident()] = me
        try:
            self.results[me] = self.bodies[me]()
        except BaseException as e:
            self.results[me] = e
        self.index.pop(threading.get_ident(), None)
        self.done[me] = True
        to = self._next(me)
        if to is None:
            self.finished.release()
        else:
            self._draw()
            self.gates[to].release()

    def go(self):
        ts = [threading.Thread(target=self._run, args=(i,), daemon=True) for i in range(len(self.bodies))]
        mon.use_tool_id(TOOL, 'interleaving')
        try:
            mon.register_callback(TOOL, mon.events.PY_START, self._start)
            mon.register_callback(TOOL, mon.events.LINE, self._line)
            mon.restart_events()
            mon.set_events(TOOL, mon.events.PY_START)
            for t in ts:
                t.start()
            self._draw()
            self.gates[self._next(-1)].release()
            self.finished.acquire()
            for t in ts:
                t.join()
        finally:
            self.index.clear()
            mon.set_events(TOOL, 0)
            for code in self.codes:
                mon.set_local_events(TOOL, code, 0)
            mon.register_callback(TOOL, mon.events.PY_START, None)
            mon.register_callback(TOOL, mon.events.LINE, None)
            mon.free_tool_id(TOOL)
        self.out.probes['switches'] += self.switches
        return self.results
