"""Injection points at every executed line of the code under test."""

import contextlib
import os
import sys

from . import sim


class Lines:
    """Count the executed lines and raise an exception at a given one."""

    def __init__(self, target=None, make=None, only=None):
        self.root = os.path.join(os.path.realpath(sim.REPO), "pypeec")+os.sep
        self.target = target
        self.make = make
        self.count = 0
        self.fired = None
        self.only = only
        self.cache = {}
        self.paused = 0

    def _in(self, code):
        name = code.co_filename
        if name not in self.cache:
            path = os.path.realpath(name)
            self.cache[name] = path.startswith(self.root) and (self.only is None or path[len(self.root):].startswith(tuple(self.only)))
        return self.cache[name]

    def global_trace(self, frame, event, arg):
        if self._in(frame.f_code):
            return self.local_trace
        return None

    def local_trace(self, frame, event, arg):
        if event == "line" and self.fired is None and not self.paused:
            self.count += 1
            if self.target is not None and self.count == self.target:
                name = os.path.basename(frame.f_code.co_filename)
                self.fired = "%s:%s" % (name, frame.f_code.co_name)
                raise self.make()
        return self.local_trace

    @contextlib.contextmanager
    def active(self):
        old = sys.gettrace()
        sys.settrace(self.global_trace)
        try:
            yield self
        finally:
            sys.settrace(old)
