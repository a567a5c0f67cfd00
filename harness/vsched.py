"""Deterministic scheduler for the real code: virtual threads, locks and time.

`install()` replaces threading.Lock/RLock/Thread and the clock functions of `time`
process-wide (Event, Condition and Semaphore are pure Python over them and follow).  It
must run before stream2py is imported.  Threads are real OS threads, but exactly one runs
at a time and every hand-over is decided by a strategy object, so a run is a function of
(scenario, strategy).  Preemption points: every lock operation, sleep, thread start/join,
explicit `point()` of the harness and, with tracing on, every line of stream2py itself.
"""
import dis
import _thread
import queue
import random
import sys
import threading
import time

_real_lock = _thread.allocate_lock
_real_start = _thread.start_new_thread
_RealThread = threading.Thread
real_time = time.time
real_monotonic = time.monotonic
real_perf = time.perf_counter
real_sleep = time.sleep

EPOCH = 1_600_000_000  # seconds, start of virtual time
TRACE_PREFIX = None  # set by install(): path prefix of the code traced by line
SCHED = None  # the running scheduler


class Kill(BaseException):
    """Raised in every remaining thread when a run is over."""


class VT:
    __slots__ = ('id', 'name', 'gate', 'state', 'deadline', 'wait', 'ident', 'idle', 'obj', 'timed_out')

    def __init__(self, id, name):
        self.id, self.name = id, name
        self.gate = _real_lock()
        self.gate.acquire()
        self.state = 'run'  # run | block | sleep | idle | done
        self.deadline = None
        self.wait = None
        self.timed_out = False


FINE = [True]     # may switches inside lines be used?


class Sched:
    def __init__(self, strategy, max_steps=60000, trace=True, opcodes=False, min_sleep_us=1000):
        self.strategy = strategy
        self.max_steps = max_steps
        self.trace = trace
        self.opcodes = opcodes or (strategy.fine and FINE[0])
        self.min_sleep = min_sleep_us
        self.threads = []
        self.by_ident = {}
        self.clock = 0
        self.steps = 0
        self.decisions = 0
        self.log = []
        self.exceptions = []
        self.kill = False
        self.stuck = None
        self.cur = None
        self.main_gate = _real_lock()
        self.main_gate.acquire()
        self.switches = 0
        self.streak = 0
        self.nojump = 0
        self.fifo = False  # locks are handed over in the order of asking
        self.frozen = None  # a thread that does not run for now
        self.loc = None  # the line the running thread is about to run

    # -- running -----------------------------------------------------------------
    def run(self, main):
        """Run main() as virtual thread 0; returns when it ended (others are killed) or
        the run got stuck."""
        global SCHED
        assert SCHED is None
        SCHED = self
        self.keep = []
        try:
            t = self.spawn(main, 'main')
            self.cur = t
            t.gate.release()
            self.main_gate.acquire()
            # over: unwind what is left, one thread at a time
            self.kill = True
            for t in list(self.threads):
                if t.state != 'done':
                    self.cur = t
                    t.gate.release()
                    self.main_gate.acquire()
        finally:
            SCHED = None
        for i in self.by_ident:
            threading._active.pop(i, None)
        self.keep.clear()
        return self

    def spawn(self, fn, name, obj=None):
        t = VT(len(self.threads), name)
        t.obj = obj
        self.threads.append(t)
        self.strategy.on_spawn(t.id)

        def boot():
            t.gate.acquire()
            t.ident = _thread.get_ident()
            self.by_ident[t.ident] = t
            if obj is not None:
                threading._active[t.ident] = obj
            try:
                if self.kill:
                    raise Kill
                if self.trace:
                    sys.settrace(self._tracer)
                fn()
            except Kill:
                pass
            except BaseException as e:
                sys.settrace(None)
                self.exceptions.append((t.name, type(e).__name__, str(e)))
                if t.id == 0:
                    self.main_exc = e
            finally:
                sys.settrace(None)
                t.state = 'done'
                if self.kill or t.id == 0:
                    self.main_gate.release()
                else:
                    self._wake_joiners(t)
                    self._dispatch(t)

        _real_start(boot, ())
        return t

    main_exc = None

    def _wake_joiners(self, t):
        for x in self.threads:
            if x.state == 'block' and x.wait is t:
                x.state = 'run'
                x.wait = None
                x.deadline = None

    def me(self):
        return self.by_ident.get(_thread.get_ident())

    # -- the heart: choose who runs next -------------------------------------------
    def _dispatch(self, cur):
        """Called by the running thread when it must hand over or may be preempted.
        Returns in `cur` when it is chosen again; for a done thread returns at once."""
        while True:
            fz = self.frozen
            enabled = [t.id for t in self.threads if (t.state == 'run' or (t.deadline is not None and t.deadline <= self.clock)) and t.id != fz]
            sleepers = [t.id for t in self.threads if t.deadline is not None and t.deadline > self.clock]
            if enabled:
                nid = self.strategy.choose(self, cur.id, enabled, [] if self.nojump else sleepers)
                nxt = self.threads[nid]
                if nxt.deadline is not None:
                    self.clock = max(self.clock, nxt.deadline)
                break
            idle = [t.id for t in self.threads if t.state == 'idle']
            if idle:
                nxt = self.threads[idle[0]]
                break
            if sleepers:
                self.clock = min(self.threads[i].deadline for i in sleepers)
                continue
            if fz is not None:
                self.frozen = None
                continue
            self._get_stuck('deadlock')
            if cur.state == 'done':
                return
            cur.gate.acquire()
            raise Kill
        if nxt.deadline is not None:  # woken by time
            nxt.timed_out = nxt.state == 'block'
        nxt.state = 'run'
        nxt.deadline = None
        nxt.wait = None
        if nxt is not cur:
            self.switches += 1
            self.streak = 0
            self.cur = nxt
            nxt.gate.release()
            if cur.state == 'done':
                return
            cur.gate.acquire()
            if self.kill:
                raise Kill

    def _get_stuck(self, why):
        self.stuck = dict(
            why=why,
            blocked=[t.id for t in self.threads if t.state != 'done'],
            names=[t.name for t in self.threads if t.state != 'done'],
        )
        self.main_gate.release()

    def _step(self, t):
        if self.kill:
            raise Kill
        self.steps += 1
        self.streak += 1
        if self.steps > self.max_steps:
            self._get_stuck('steps')
            t.gate.acquire()
            raise Kill

    def point(self, kind):
        """A possible preemption of the running thread."""
        t = self.me()
        if t is None:
            return
        self._step(t)
        if self.strategy.wants(self, t.id, kind):
            self._dispatch(t)

    def block(self, wait, deadline=None):
        """The running thread cannot go on until woken or the deadline passes."""
        t = self.me()
        if t is None:
            raise RuntimeError('would block outside of a run')
        self._step(t)
        t.state, t.wait, t.deadline, t.timed_out = 'block', wait, deadline, False
        self._dispatch(t)
        return not t.timed_out

    def wake(self, wait):
        for x in self.threads:
            if x.state == 'block' and x.wait is wait:
                x.state = 'run'
                x.wait = None
                x.deadline = None

    def sleep(self, seconds):
        t = self.me()
        if t is None:
            return
        self._step(t)
        us = max(int(round(seconds * 1e6)), self.min_sleep)
        t.state, t.deadline = 'sleep', self.clock + us
        self._dispatch(t)

    def wait_idle(self):
        """Go on when no other thread can run without time passing."""
        t = self.me()
        self._step(t)
        t.state = 'idle'
        self._dispatch(t)

    # -- line tracing -----------------------------------------------------------------
    def _tracer(self, frame, event, arg):
        fn = frame.f_code.co_filename
        if fn.startswith(TRACE_PREFIX) and '/tests/' not in fn:
            if self.opcodes:
                frame.f_trace_opcodes = True
            return self._local
        return None

    def _local(self, frame, event, arg):
        if event == 'line':
            self.loc = (frame.f_code.co_name, frame.f_lineno)
        elif event == 'opcode' and frame.f_lasti in after_calls(frame.f_code):
            self.loc = (frame.f_code.co_name, frame.f_lineno, frame.f_lasti)
        else:
            return self._local
        if not self.opcodes:
            self.point('line')
            return self._local
        # raising from here (which ends the tracing) while tracing opcodes can end the
        # interpreter: a thread that is to end goes on to the next virtual primitive
        if not self.kill:
            try:
                self.point('line')
            except Kill:
                pass
        return self._local

    def emit(self, **ev):
        ev['ts'] = self.clock
        self.log.append(ev)


_AFTER = {}
_KEPT = []


def after_calls(code):
    """Where, inside a line, the interpreter may switch threads: after calls."""
    r = _AFTER.get(id(code))
    if r is None:
        r = set()
        _KEPT.append(code)
        call = False
        for ins in dis.get_instructions(code):
            if call:
                r.add(ins.offset)
            call = ins.opname.startswith('CALL') and 'INTRINSIC' not in ins.opname
        _AFTER[id(code)] = r
    return r


# -- virtual primitives -------------------------------------------------------------------
class VLock:
    def __init__(self):
        self._owner = False
        self._queue = []

    def acquire(self, blocking=True, timeout=-1):
        s = SCHED
        if s is None or s.me() is None:
            if self._owner:
                if blocking and s is None:
                    # tear-down of an unwound run: nobody is left to release it
                    self._owner = True
                    return True
                return False
            self._owner = True
            return True
        if s.kill:
            raise Kill
        s.point('lock')
        if not self._owner:
            self._owner = True
            return True
        if not blocking:
            return False
        deadline = None
        if timeout is not None and timeout >= 0:
            deadline = s.clock + int(round(timeout * 1e6))
        if s.fifo:
            me = s.me()
            self._queue.append(me)
            while me in self._queue:
                if not s.block(self, deadline) and me in self._queue:
                    self._queue.remove(me)
                    return False
            return True
        while self._owner:
            if not s.block(self, deadline) and self._owner:
                return False
        self._owner = True
        return True

    def release(self):
        if not self._owner:
            if SCHED is None or SCHED.kill:
                return
            raise RuntimeError('release unlocked lock')
        s = SCHED
        if self._queue and s is not None and not s.kill:
            t = self._queue.pop(0)  # owns it from now on
            t.state, t.wait, t.deadline = 'run', None, None
            s.point('unlock')
            return
        self._owner = False
        if s is not None and not s.kill and s.me() is not None:
            s.wake(self)
            s.point('unlock')

    def locked(self):
        return bool(self._owner)

    def __enter__(self):
        self.acquire()
        return True

    def __exit__(self, *a):
        self.release()

    acquire_lock, release_lock, locked_lock = acquire, release, locked

    def _at_fork_reinit(self):
        self._owner = False


class VRLock:
    def __init__(self):
        self._lock = VLock()
        self._who = None
        self._count = 0

    def acquire(self, blocking=True, timeout=-1):
        me = _thread.get_ident()
        if self._who == me:
            self._count += 1
            return True
        if self._lock.acquire(blocking, timeout):
            self._who, self._count = me, 1
            return True
        return False

    def release(self):
        if self._who != _thread.get_ident():
            if SCHED is None or SCHED.kill:
                return
            raise RuntimeError('cannot release un-acquired lock')
        self._count -= 1
        if not self._count:
            self._who = None
            self._lock.release()

    def __enter__(self):
        self.acquire()
        return True

    def __exit__(self, *a):
        self.release()

    def _is_owned(self):
        return self._who == _thread.get_ident()

    def _release_save(self):
        st = (self._count, self._who)
        self._count, self._who = 0, None
        self._lock.release()
        return st

    def _acquire_restore(self, st):
        self._lock.acquire()
        self._count, self._who = st

    def _at_fork_reinit(self):
        self.__init__()


class VThread(_RealThread):
    _vt = None

    def start(self):
        s = SCHED
        if s is None or s.me() is None:
            return _RealThread.start(self)
        if self._vt is not None:
            raise RuntimeError('threads can only be started once')
        self._vt = s.spawn(self.run, self.name, self)
        s.point('start')

    def join(self, timeout=None):
        t = self._vt
        if t is None:
            if SCHED is None:
                return _RealThread.join(self, timeout) if self._started.is_set() else None
            raise RuntimeError('cannot join thread before it is started')
        s = SCHED
        if s is None or s.me() is None:
            return
        if s.me() is t:
            raise RuntimeError('cannot join current thread')
        if s.kill:
            raise Kill
        s.point('join')
        deadline = None if timeout is None else s.clock + int(round(max(timeout, 0) * 1e6))
        while t.state != 'done':
            if not s.block(t, deadline) and t.state != 'done':
                return

    def is_alive(self):
        if self._vt is None:
            return _RealThread.is_alive(self) if self._started.is_set() else False
        return self._vt.state != 'done'

    @property
    def ident(self):
        return getattr(self._vt, 'ident', None) if self._vt is not None else _RealThread.ident.fget(self)


def _vsleep(seconds):
    s = SCHED
    if s is None:
        return  # tear-down (finalizers) outside of a run
    if s.kill:
        raise Kill
    s.sleep(seconds)


def _vtime():
    s = SCHED
    return EPOCH + (s.clock / 1e6 if s is not None else 0)


def _vmono():
    s = SCHED
    return s.clock / 1e6 if s is not None else 0.0


def install(prefix):
    global TRACE_PREFIX
    TRACE_PREFIX = prefix
    assert 'stream2py' not in sys.modules
    threading.Lock = VLock
    threading._allocate_lock = VLock
    threading.RLock = VRLock
    threading.Thread = VThread
    time.sleep = _vsleep
    time.time = _vtime
    time.time_ns = lambda: int(_vtime() * 1e9)
    time.monotonic = _vmono
    time.monotonic_ns = lambda: int(_vmono() * 1e9)
    time.perf_counter = _vmono
    time.perf_counter_ns = lambda: int(_vmono() * 1e9)
    threading._time = _vmono
    threading.Timer.__bases__ = (VThread,)
    queue.time = _vmono
    queue.SimpleQueue = queue._PySimpleQueue


# -- strategies -----------------------------------------------------------------------------
class Strategy:
    """Decides at which points to consider a switch (`wants`) and to whom (`choose`)."""

    fine = False  # switches inside lines, too
    fair = 400  # consecutive points without a switch before one is forced

    def on_spawn(self, tid):
        pass

    def wants(self, s, cur, kind):
        return s.streak > self.fair

    def choose(self, s, cur, enabled, sleepers):
        """Default: go on with the running thread, else round robin."""
        if cur in enabled and s.streak <= self.fair:
            return cur
        return self._next(cur, enabled)

    @staticmethod
    def _next(cur, enabled):
        for i in enabled:
            if i > cur:
                return i
        return enabled[0]


class Random(Strategy):
    """Random walk; p: chance to consider a switch at a line, q: at other points,
    tp: chance that time jumps to a sleeper instead (a slow machine)."""

    def __init__(self, seed, p=0.1, q=0.5, tp=0.0):
        self.r = random.Random(seed)
        self.p, self.q, self.tp = p, q, tp
        self.fine = seed % 4 == 0

    def wants(self, s, cur, kind):
        return s.streak > self.fair or self.r.random() < (self.p if kind == 'line' else self.q)

    def choose(self, s, cur, enabled, sleepers):
        if sleepers and self.tp and self.r.random() < self.tp:
            return self.r.choice(sleepers)
        if s.streak > self.fair and len(enabled) > 1:
            enabled = [i for i in enabled if i != cur]
        return self.r.choice(enabled)


class PCT(Strategy):
    """Priorities with d random change points."""

    def __init__(self, seed, d=3, length=600, tp=0.0):
        self.r = random.Random(seed)
        self.prio = {}
        self.changes = {self.r.randrange(length) for _ in range(d)}
        self.low = 0
        self.tp = tp

    def on_spawn(self, tid):
        self.prio[tid] = self.r.random() + 1

    def wants(self, s, cur, kind):
        if s.steps in self.changes or s.streak > self.fair:
            self.low -= 1
            self.prio[cur] = self.low
            return True
        return kind != 'line'

    def choose(self, s, cur, enabled, sleepers):
        if sleepers and self.tp and self.r.random() < self.tp:
            return self.r.choice(sleepers)
        return max(enabled, key=self.prio.__getitem__)


class Preempt(Strategy):
    """Run without preemption except at the given steps: {step: rank of the other thread};
    records the number of other enabled threads at each step when asked to."""

    def __init__(self, at, record=False):
        self.at = dict(at)
        self.record = [] if record else None
        self.pending = None

    def wants(self, s, cur, kind):
        if self.record is not None:
            run = [t.id for t in s.threads if t.id != cur and t.state == 'run']
            ns = sum(1 for t in s.threads if t.id != cur and t.deadline is not None)
            self.record.append((s.steps, len(run), ns, kind, [cur, kind, *(s.loc or ())], run))
        if s.steps in self.at:
            self.pending = self.at[s.steps]
            return True
        return s.streak > self.fair

    def choose(self, s, cur, enabled, sleepers):
        if self.pending is not None:
            rank, self.pending = self.pending, None
            others = [i for i in enabled if i != cur]
            late = [i for i in sleepers if i != cur]
            if rank < len(others):
                return others[rank]
            if others:
                return others[rank % len(others)]
            if late:
                return late[rank % len(late)]
        return Strategy.choose(self, s, cur, enabled, sleepers)


class FinePreempt(Preempt):
    fine = True


class Stall(Strategy):
    """Locks are fair; the thread that does the given step stands still until all others
    wait (what runs main is told)."""

    def __init__(self, at, record=False):
        self.at = at
        self.record = [] if record else None

    def wants(self, s, cur, kind):
        if self.record is not None and cur:
            self.record.append(s.steps)
        if s.steps == self.at and cur:
            s.frozen = cur
            return True
        return s.streak > self.fair


def make_strategy(spec):
    kind, *args = spec
    return dict(default=Strategy, random=Random, pct=PCT, preempt=Preempt, fpreempt=FinePreempt, stall=Stall)[kind](*args)
