"""Controlled scheduler: runs a few real threads one at a time, switching only where a schedule says so.

Scheduling points are the 'line' events of source files of the code under test.  A schedule is a start thread and a list of
(step, thread): after that many points have been passed, the named thread is given control (a preemption).  When a thread
ends or blocks on a lock, the lowest-numbered runnable thread continues (no preemption)."""
import sys, threading, _thread, os

_real_lock = _thread.allocate_lock
_active = None           # the running Scheduler


class CoopLock:
    """Lock/RLock whose blocking is visible to the scheduler; behaves as an ordinary lock otherwise."""

    def __init__(self, reentrant=False):
        self._l = _real_lock()
        self._re = reentrant
        self._owner, self._count = None, 0

    def acquire(self, blocking=True, timeout=-1):
        me = _thread.get_ident()
        if self._re and self._owner == me:
            self._count += 1
            return True
        s = _active
        if s is not None and me in s.ids and blocking:
            while not self._l.acquire(False):
                s.block(self)
            got = True
        else:
            got = self._l.acquire(blocking, timeout)
        if got:
            self._owner, self._count = me, 1
        return got

    def release(self):
        if self._re:
            self._count -= 1
            if self._count:
                return
        self._owner = None
        self._l.release()
        if _active is not None:
            _active.unblock(self)

    def locked(self):
        return self._l.locked()

    __enter__ = acquire

    def __exit__(self, *a):
        self.release()

    def _at_fork_reinit(self):
        self._l = _real_lock()
        self._owner, self._count = None, 0

    def _is_owned(self):
        return self._owner == _thread.get_ident()


def patch():
    """Must run before the code under test is imported, and after the libraries it uses are: only its own locks are replaced."""
    import logging, re, enum, copy, json, queue, weakref, functools, itertools, pathlib, contextlib, contextvars, dataclasses
    import concurrent.futures, inspect, tempfile, pickle, string, random, multiprocessing
    try:
        import lark, lark.lark, lark.visitors, lark.load_grammar, lark.exceptions, lark.parser_frontends
    except ImportError:
        pass
    threading.Lock = lambda: CoopLock()
    threading.RLock = lambda: CoopLock(True)


class Deadlock(BaseException):
    pass


class Scheduler:
    def __init__(self, bodies, start, switches, prefix_dir, max_steps=200000, files=None, grain="line"):
        """Scheduling points: grain 'line' (every source line), 'opcode' (every bytecode) or 'call' (function entries and exits),
        in the given files (None: all files) of prefix_dir."""
        self.bodies, self.start = bodies, start
        self.switches = dict(switches)
        self.dir = prefix_dir
        self.files, self.grain = files, grain
        self.n = len(bodies)
        self.steps = 0
        self.trace = []                 # (thread, line) at each point
        self.results = [None] * self.n
        self.gates = [_real_lock() for _ in range(self.n)]
        for g in self.gates:
            g.acquire()
        self.done = [False] * self.n
        self.blocked = [None] * self.n
        self.ids = {}
        self.fin = _real_lock()
        self.fin.acquire()
        self.dead = False
        self.max_steps = max_steps
        self.preempted = 0

    # called by the running thread
    def point(self, tid, line):
        self.trace.append((tid, line))
        self.steps += 1
        if self.steps > self.max_steps:
            raise Deadlock("too many steps")
        to = self.switches.get(self.steps)
        if to is not None and to != tid and not self.done[to] and self.blocked[to] is None:
            self.preempted += 1
            self.hand(tid, to)

    def hand(self, tid, to):
        self.gates[to].release()
        self.gates[tid].acquire()
        if self.dead:
            raise Deadlock()

    def block(self, lock):
        tid = self.ids[_thread.get_ident()]
        self.blocked[tid] = lock
        for t in range(self.n):
            if not self.done[t] and self.blocked[t] is None:
                self.hand(tid, t)
                return
        self.dead = True
        for t in range(self.n):
            if t != tid and not self.done[t]:
                self.gates[t].release()
        raise Deadlock("no runnable thread")

    def unblock(self, lock):
        for t in range(self.n):
            if self.blocked[t] is lock:
                self.blocked[t] = None

    def _main(self, tid):
        self.gates[tid].acquire()
        self.ids[_thread.get_ident()] = tid

        grain, files, dir_ = self.grain, self.files, self.dir

        def local(frame, event, arg):
            if event == "line":
                if grain == "line":
                    self.point(tid, frame.f_lineno)
            elif event == "opcode":
                self.point(tid, (frame.f_lineno, frame.f_lasti))
            elif event == "return" and grain == "call":
                self.point(tid, -frame.f_lineno)
            return local

        def tracer(frame, event, arg):
            fn = frame.f_code.co_filename
            if fn.startswith(dir_) and (files is None or fn[len(dir_):] in files):
                if grain == "opcode":
                    frame.f_trace_opcodes = True
                    frame.f_trace_lines = False
                elif grain == "call":
                    frame.f_trace_lines = False
                    self.point(tid, frame.f_lineno)
                return local
            return None
        try:
            sys.settrace(tracer)
            r = self.bodies[tid]()
            sys.settrace(None)
            self.results[tid] = r
        except Deadlock as e:
            sys.settrace(None)
            self.results[tid] = ("deadlock", str(e))
            self.dead = True
        except BaseException as e:
            sys.settrace(None)
            self.results[tid] = ("raised", type(e).__name__, str(e)[:100])
        self.done[tid] = True
        for t in range(self.n):
            if not self.done[t] and self.blocked[t] is None:
                self.gates[t].release()
                return
        if not all(self.done):          # the others wait for a lock nobody will release
            self.dead = True
            for t in range(self.n):
                if not self.done[t]:
                    self.blocked[t] = None
                    self.gates[t].release()
                    return
        self.fin.release()

    def run(self, timeout=20):
        global _active
        _active = self
        if self.grain == "opcode":      # Python looks at this when a trace function is set
            sys._getframe().f_trace_opcodes = True
        for t in range(self.n):
            _thread.start_new_thread(self._main, (t,))
        self.gates[self.start].release()
        ok = self.fin.acquire(True, timeout)
        _active = None
        return ok
