"""
A deterministic scheduler for real threads.

Every thread runs the real code; at each executed line (or opcode) of the
library and of the two pure Python libraries it drives (cerberus and
parsimonious) a callback may pass the baton to another thread, as the
run's schedule says. Exactly one thread runs at any moment, all others wait at
their gates, so the schedule decides the interleaving completely.
"""

import _thread
import importlib
import os
import sys
import threading

from sim.core import REPO, HarnessError, SimCrash

AUXI = os.path.join(REPO, "auxi") + os.sep

FIRST = ("concurrent.futures.thread", "logging", "queue", "tempfile",
         "multiprocessing", "numpy", "pandas", "matplotlib.pyplot",
         "cerberus", "parsimonious", "jsonpickle", "tabulate",
         "dateutil.relativedelta", "bibtexparser")

MON = sys.monitoring
TOOL = 3

_active = [None]        # the scheduler that is running, if any


class Abort(BaseException):
    """The run is over; the thread has to end."""


class SimLock:
    """A lock that passes the baton while it is taken by another thread."""

    def __init__(self):
        self._l = _thread.allocate_lock()

    def acquire(self, blocking=True, timeout=-1):
        tries = 0
        while not self._l.acquire(False):
            s = _active[0]
            if s is None or not s.mine():
                return self._l.acquire(blocking, timeout)
            tries += 1
            if not blocking or (timeout >= 0 and tries > 20):
                return False
            s.blocked()
        s = _active[0]
        if s is not None and s.mine():
            s.idle = 0
        return True

    __enter__ = acquire

    def release(self):
        self._l.release()

    def __exit__(self, *exc):
        self.release()

    def locked(self):
        return self._l.locked()

    def _at_fork_reinit(self):
        self._l = _thread.allocate_lock()

    acquire_lock, release_lock, locked_lock = acquire, release, locked


class SimRLock:
    def __init__(self):
        self._block = SimLock()
        self._owner = None
        self._count = 0

    def _at_fork_reinit(self):
        self._block._at_fork_reinit()
        self._owner, self._count = None, 0

    def acquire(self, blocking=True, timeout=-1):
        me = _thread.get_ident()
        if self._owner == me:
            self._count += 1
            return True
        if not self._block.acquire(blocking, timeout):
            return False
        self._owner, self._count = me, 1
        return True

    __enter__ = acquire

    def release(self):
        if self._owner != _thread.get_ident():
            raise RuntimeError("cannot release un-acquired lock")
        self._count -= 1
        if not self._count:
            self._owner = None
            self._block.release()

    def __exit__(self, *exc):
        self.release()

    def _is_owned(self):
        return self._owner == _thread.get_ident()

    def _release_save(self):
        state = (self._count, self._owner)
        self._count, self._owner = 0, None
        self._block.release()
        return state

    def _acquire_restore(self, state):
        self._block.acquire()
        self._count, self._owner = state


def install_locks():
    """Locks made from now on (by modules of the library) cooperate. What
    the library is built on is imported first and keeps its own."""
    for name in FIRST:
        importlib.import_module(name)
    threading.Lock = threading._allocate_lock = SimLock
    threading.RLock = SimRLock


class Worker:
    def __init__(self, ix, fn):
        self.ix = ix
        self.fn = fn
        self.gate = _thread.allocate_lock()
        self.gate.acquire()
        self.alive = True
        self.ident = None
        self.lines = 0
        self.kill_at = None
        self.killed = False
        self.error = None


class Scheduler:
    def __init__(self, switches, opcodes=False, focus=None):
        self.switches = list(switches)
        self.opcodes = opcodes
        self.focus = focus      # only lines of these files of the library
        self.workers = []
        self.current = None
        self.left = None
        self.pick = 0
        self.points = []
        self.switched = 0
        self.idle = 0
        self.deadlock = False
        self.done = _thread.allocate_lock()
        self.done.acquire()
        self.files = {}

    def add(self, fn, kill_at=None):
        w = Worker(len(self.workers), fn)
        w.kill_at = kill_at
        self.workers.append(w)
        return w

    # -- tracing ----------------------------------------------------------
    def traced(self, filename):
        r = self.files.get(filename)
        if r is None:
            if self.focus is not None:
                r = filename.startswith(AUXI) and any(
                    f in filename for f in self.focus)
            else:
                r = filename.startswith(AUXI) or \
                    (os.sep + "cerberus" + os.sep) in filename or \
                    (os.sep + "parsimonious" + os.sep) in filename
            self.files[filename] = r
        return r

    def _line(self, code, line):
        if not self.traced(code.co_filename):
            return MON.DISABLE
        if not self.mine():
            return
        me = self.current
        me.lines += 1
        if me.kill_at is not None and me.lines == me.kill_at:
            me.killed = True
            raise SimCrash("injected")
        self._step(code, line)

    def _instruction(self, code, offset):
        if not self.traced(code.co_filename):
            return MON.DISABLE
        if self.mine():
            self._step(code, None, offset)

    def _step(self, code, line, offset=None):
        if self.left is not None:
            self.left -= 1
            if self.left <= 0:
                self._switch(code, line, offset)

    def _trace(self, on):
        if on:
            MON.use_tool_id(TOOL, "sim")
            MON.register_callback(TOOL, MON.events.LINE, self._line)
            ev = MON.events.LINE
            if self.opcodes:
                MON.register_callback(TOOL, MON.events.INSTRUCTION,
                                      self._instruction)
                ev |= MON.events.INSTRUCTION
            MON.set_events(TOOL, ev)
            MON.restart_events()
        else:
            MON.set_events(TOOL, 0)
            MON.register_callback(TOOL, MON.events.LINE, None)
            MON.register_callback(TOOL, MON.events.INSTRUCTION, None)
            MON.free_tool_id(TOOL)

    # -- switching --------------------------------------------------------
    def _next_quantum(self):
        if self.switches:
            self.left, self.pick = self.switches.pop(0)
            self.left = max(int(self.left), 1)
        else:
            self.left = None

    def _switch(self, code, line, offset):
        me = self.current
        others = [w for w in self.workers if w.alive and w is not me]
        pick = self.pick
        self._next_quantum()
        if not others:
            return
        to = others[int(pick) % len(others)]
        self.switched += 1
        if len(self.points) < 200:
            self.points.append("%d>%d %s%s" % (
                me.ix, to.ix, code.co_name, "@%d" % offset if line is None
                else "+%d" % (line - code.co_firstlineno)))
        self._hand_over(me, to)

    def _hand_over(self, me, to):
        self.current = to
        to.gate.release()
        me.gate.acquire()
        if self.deadlock:
            raise Abort()

    def mine(self):
        return self.current is not None and \
            self.current.ident == _thread.get_ident()

    def blocked(self):
        """The running thread waits for a lock somebody else has."""
        me = self.current
        others = [w for w in self.workers if w.alive and w is not me]
        self.idle += 1
        if not others or self.idle > 20 * len(self.workers) + 20:
            self.deadlock = True
            self.done.release()
            raise Abort()
        to = next((w for w in others if w.ix > me.ix), others[0])
        self._hand_over(me, to)

    # -- running ----------------------------------------------------------
    def _main(self, w):
        w.ident = _thread.get_ident()
        w.gate.acquire()
        try:
            w.fn(w)
        except Abort:
            return
        except BaseException as e:
            w.error = e
        w.alive = False
        if self.deadlock:
            return
        live = [x for x in self.workers if x.alive]
        if not live:
            self.done.release()
            return
        to = next((x for x in live if x.ix > w.ix), live[0])
        self.current = to
        to.gate.release()

    def run(self):
        if not self.workers:
            return
        if _active[0] is not None:
            raise HarnessError("two schedulers")
        _active[0] = self
        self._trace(True)
        try:
            for w in self.workers:
                _thread.start_new_thread(self._main, (w,))
            self._next_quantum()
            self.current = self.workers[0]
            self.workers[0].gate.release()
            self.done.acquire()
        finally:
            self._trace(False)
            _active[0] = None
