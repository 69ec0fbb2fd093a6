"""
Exploration of thread interleavings of the real code under a controlled scheduler.

Two operations run in two threads.  Every line of the library a thread is about to execute
is a scheduling point.  A schedule (k, j) lets the first thread run k lines, then the second
one j lines (None: to its end), then the first to its end, then the second to its end.
Only one thread runs at any time, so that a schedule is reproducible; a thread that does not
come back in time (it waits for a lock the other one holds) is simply left waiting until
the other has finished.
"""
import io
import os
import sys
import threading

import autosar

ROOT = os.path.dirname(os.path.abspath(autosar.__file__)) + os.sep
PATIENCE = 0.5



class _Stream(io.TextIOBase):
    """Standard output or error that keeps what every thread prints apart"""

    def __init__(self, real):
        super().__init__()
        self.real = real
        self.parts = {}

    def write(self, text):
        self.parts.setdefault(threading.current_thread(), []).append(text)
        return len(text)

    def text(self, thread):
        return "".join(self.parts.get(thread, []))


class _Actor(threading.Thread):
    def __init__(self, func, pause_at, calls_only, counting=False):
        super().__init__(daemon=True)
        self.func = func
        self.pause_at = pause_at
        self.calls_only = calls_only
        self.counting = counting
        self.events = 0
        self.at_rest = threading.Event()     # paused or finished
        self.go_on = threading.Event()
        self.result = None

    def run(self):
        if self.pause_at is not None or self.counting:
            sys.settrace(self.trace)
        try:
            try:
                self.result = ("result", self.func())
            except Exception as ex:    # pylint: disable=broad-except
                self.result = ("exception", type(ex).__name__, str(ex))
        finally:
            sys.settrace(None)
            self.at_rest.set()

    def trace(self, frame, event, _arg):
        if self.pause_at is None and not self.counting:
            return None
        if not frame.f_code.co_filename.startswith(ROOT):
            return None
        if event == "call":
            self.point()
            return None if self.calls_only else self.local
        return None

    def local(self, _frame, event, _arg):
        if event == "line":
            self.point()
        return None if self.pause_at is None and not self.counting else self.local

    def point(self):
        if self.events == self.pause_at:
            self.pause_at = None
            sys.settrace(None)
            self.at_rest.set()
            self.go_on.wait()
        else:
            self.events += 1


def execute(first, second, k, j=None, calls_only=False):
    """
    Run one schedule -> outcomes of both operations: (result, printed, printed as error)
    """
    one, two = _Actor(first, k, calls_only), _Actor(second, j, calls_only)
    out, err = _Stream(sys.stdout), _Stream(sys.stderr)
    sys.stdout, sys.stderr = out, err
    try:
        one.start()
        one.at_rest.wait()
        two.start()
        two.at_rest.wait(PATIENCE)
        one.go_on.set()
        one.join(PATIENCE if two.is_alive() else None)
        two.go_on.set()
        one.join()
        two.join()
    finally:
        sys.stdout, sys.stderr = out.real, err.real
    return [(a.result, out.text(a), err.text(a)) for a in (one, two)]


def length(func, calls_only=False):
    """Number of scheduling points of an operation"""
    actor = _Actor(func, None, calls_only, True)
    out, err = _Stream(sys.stdout), _Stream(sys.stderr)
    sys.stdout, sys.stderr = out, err
    try:
        actor.start()
        actor.join()
    finally:
        sys.stdout, sys.stderr = out.real, err.real
    return actor.events
