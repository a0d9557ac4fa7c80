"""Ctrl-C at a chosen point of the code under test.

Counts the line events of the frames that belong to selected parts of /repo (by default: solvers, propagation,
trajectories, generated functions; not the few lines around resource acquisition) and raises at the n-th one.
"""
import os
import sys

from sim.boot import REPO


class Interrupted(KeyboardInterrupt):
    pass


PARTS = ('beluga/numeric/',)


class LineInterrupt:
    """with LineInterrupt(n) as li: ...   raises Interrupted at the n-th counted line; n None only counts."""

    def __init__(self, n, parts=PARTS, exc=Interrupted, skip=()):
        self.n = n
        self.count = 0
        self.fired = None
        self.exc = exc
        self.prefix = tuple(os.path.join(os.path.realpath(REPO), p) for p in parts)
        self.skip = tuple(os.path.join(os.path.realpath(REPO), p) for p in skip)
        self.wanted = {}

    def _wants(self, code):
        w = self.wanted.get(code)
        if w is None:
            f = code.co_filename
            w = self.wanted[code] = f.startswith(self.prefix) and not f.startswith(self.skip) if self.skip \
                else f.startswith(self.prefix)
        return w

    def _global(self, frame, event, arg):
        return self._local if self._wants(frame.f_code) else None

    def _local(self, frame, event, arg):
        if event == 'line':
            self.count += 1
            if self.n is not None and self.count == self.n:
                self.fired = (os.path.relpath(frame.f_code.co_filename, REPO), frame.f_code.co_name)
                sys.settrace(None)
                raise self.exc()
        return self._local

    def __enter__(self):
        sys.settrace(self._global)
        return self

    def __exit__(self, *exc):
        sys.settrace(None)
