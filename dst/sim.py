"""Deterministic scheduler: simulated tasks, locks, timers, clock and faults.

Simulated tasks are OS threads parked on private baton locks; exactly one of
them runs at any time and only the scheduler below decides which.  Every
decision comes from the run's PRNG (search mode) or from a recorded trace
(replay / minimise mode).
"""
import _thread
import threading as _threading
import time as _time
import random
import sys
import operator

_real_allocate = _thread.allocate_lock
_real_start_new = _thread.start_new_thread
real_time = _time.time
real_monotonic = _time.monotonic
real_perf = _time.perf_counter
real_sleep = _time.sleep
_RealThread = _threading.Thread

STEP_NS = 1000            # simulated nanoseconds charged per yield point
BIG = 1 << 60


class SimAbort(BaseException):
    """Unwinds a task when a run is torn down (deadlock, step limit)."""


class StepLimit(BaseException):
    """Code run outside a simulated task made no progress (infinite loop)."""


class InjectedFault(MemoryError):
    """An operation failed for want of a resource (simulated)."""


class InjectedInterrupt(KeyboardInterrupt):
    """The operation was interrupted (simulated)."""


class SimCrash(BaseException):
    """The simulated process died here."""


class _State(object):
    def __init__(self):
        self.cur = None         # running SimTask (None outside a simulation)
        self.sched = None
        self.out = 0            # yield points passed outside any simulation
        self.out_cap = 3000000
        self.loaded = False     # the code under test has been imported
        self.static = []        # locks made while importing it


S = _State()
hit = bytearray(1 << 17)        # sites reached in this process
hot = bytearray(1 << 17)        # sites at which the current run may preempt
flt = bytearray(1 << 17)        # sites that may fault in the current run


# --------------------------------------------------------------------------
# hooks called by instrumented code
def _y(sid):
    t = S.cur
    if t is None:
        _outside()
        return
    hit[sid] = 1
    n = t.n + 1
    t.n = n
    if n >= t.stop or hot[sid]:
        S.sched.point(t, sid)


def _outside():
    S.out += 1
    if S.out > S.out_cap:
        S.out = 0
        raise StepLimit('no progress within %d steps' % S.out_cap)


def _f(sid):
    t = S.cur
    if t is None:
        _outside()
        return
    hit[sid] = 1
    n = t.n + 1
    t.n = n
    if n >= t.stop or hot[sid]:
        S.sched.point(t, sid)
    if n >= t.fault_at or flt[sid]:
        S.sched.fault_point(t, sid)


_IOPS = {
    'Add': operator.iadd, 'Sub': operator.isub, 'Mult': operator.imul,
    'Div': operator.itruediv, 'FloorDiv': operator.ifloordiv, 'Mod': operator.imod,
    'Pow': operator.ipow, 'LShift': operator.ilshift, 'RShift': operator.irshift,
    'BitOr': operator.ior, 'BitXor': operator.ixor, 'BitAnd': operator.iand,
    'MatMult': operator.imatmul,
}
_ndarray = None


def _iop(sid, op, v, e):
    t = S.cur
    if t is None:
        return _IOPS[op](v, e)
    _y(sid)
    if isinstance(v, _ndarray) and v.ndim:
        # read / compute / write back, not atomic
        new = v.copy()
        r = _IOPS[op](new, e)
        if r is not new:
            return _IOPS[op](v, e)
        _y(sid)
        v[...] = new
        return v
    return _IOPS[op](v, e)


def install_hooks():
    import builtins
    import numpy
    global _ndarray
    _ndarray = numpy.ndarray
    builtins._dst_y = _y
    builtins._dst_f = _f
    builtins._dst_iop = _iop
    builtins._dst_slice = slice


# --------------------------------------------------------------------------
class SimTask(object):
    __slots__ = ('tid', 'name', 'fn', 'n', 'stop', 'fault_at', 'baton', 'state', 'waiting',
                 'deadline', 'result', 'error', 'started', 'rng', 'joiners', 'ident', 'op',
                 'timed_out', 'daemon', 'pri')

    def __init__(self, tid, name, fn):
        self.tid = tid
        self.name = name
        self.fn = fn
        self.n = 0
        self.stop = 0
        self.fault_at = BIG
        self.baton = _real_allocate()
        self.baton.acquire()
        self.state = 'ready'        # ready | blocked | done
        self.waiting = None
        self.deadline = None
        self.result = None
        self.error = None
        self.rng = None
        self.ident = None
        self.op = None
        self.timed_out = False
        self.daemon = False
        self.pri = 0


class Sched(object):
    """One simulated execution.

    cfg (all optional):
      strategy: 'random' {p}, 'hot' {k, p}, 'pct' {d, span}, 'serial'
      trace:    [[tid, n, target], ...]   scripted mode when present
      faults:   [[tid, n, kind], ...]     scripted faults
      max_steps
    """

    def __init__(self, cfg, rng=None):
        self.cfg = cfg
        self.rng = rng or random.Random(0)
        self.tasks = []
        self.steps = 0
        self.slept_ns = 0
        self.trace = []          # decisions taken [tid, n, target]
        self.fault_log = []      # faults fired [tid, n, kind, site]
        self.switches = 0
        self.pairs = set()       # (site preempted, task name)
        self.max_steps = cfg.get('max_steps', 400000)
        self.main = _real_allocate()
        self.main.acquire()
        self.outcome = None      # None | 'deadlock' | 'steps'
        self.abort = False
        self.now_ns = 0
        self.deadlock_info = None
        self.ilv = 0             # interleaving hash
        self.fault_sites = {}
        self.on_fault = None
        self.blocked_ct = 0
        st = cfg.get('strategy', {'kind': 'random', 'p': 0.05})
        self.kind = st['kind']
        self.st = st
        self.scripted = 'trace' in cfg
        self._script = {}
        if self.scripted:
            for tid, n, tgt in cfg['trace']:
                self._script.setdefault(tid, {})[n] = tgt
        self._fscript = None
        if 'faults' in cfg:
            self._fscript = {}
            for tid, n, kind in cfg['faults']:
                self._fscript.setdefault(tid, {})[n] = kind
        # {'sites': [...], 'p':, 'max':, 'kinds': [...], 'tids': [...]} or {'at': [[tid, n, kind]]}
        self.fcfg = cfg.get('fault_policy')
        if self._fscript is None and self.fcfg and 'at' in self.fcfg:
            self._fscript = {}
            for tid, n, kind in self.fcfg['at']:
                self._fscript.setdefault(tid, {})[n] = kind
        self.fault_budget = 0
        if self.fcfg:
            self.fault_budget = self.fcfg.get('max', 1)

    # -- set-up ----------------------------------------------------------
    def spawn(self, fn, name=None):
        t = SimTask(len(self.tasks), name or 't%d' % len(self.tasks), fn)
        self.tasks.append(t)
        self._set_stop(t)
        if self._fscript is not None:
            self._next_fault(t)
        if S.cur is not None:
            _real_start_new(self._body, (t,))
        return t

    def _set_stop(self, t):
        """Next local step at which task t must enter the slow path."""
        lim = t.n + max(1, self.max_steps - self.steps)
        if self.scripted:
            sc = self._script.get(t.tid)
            nxt = BIG
            if sc:
                for n in sc:
                    if n > t.n and n < nxt:
                        nxt = n
            t.stop = min(nxt, lim)
            return
        if self.kind == 'random':
            p = self.st['p']
            u = self.rng.random()
            import math
            g = 1 + int(math.log(1.0 - u) / math.log(1.0 - p)) if p < 1.0 else 1
            t.stop = min(t.n + max(1, g), lim)
        elif self.kind == 'pct':
            if not t.pri:
                t.pri = self.st['span'] and self.rng.randrange(1, 1 << 30)
            g = BIG
            # change points are expressed in task-local steps
            for c in self.st['points']:
                if c > t.n and c < g:
                    g = c
            t.stop = min(g, lim)
        else:
            t.stop = lim

    def _next_fault(self, t):
        sc = self._fscript.get(t.tid)
        t.fault_at = min(sc) if sc else BIG

    # -- running ---------------------------------------------------------
    def run(self):
        if not self.tasks:
            return
        assert S.cur is None
        S.sched = self
        self._arm_sites(True)
        for t in list(self.tasks):
            _real_start_new(self._body, (t,))
        first = self._choose(None, 0)
        self._account_choice(None, 0, first)
        S.cur = first
        first.baton.release()
        self.main.acquire()
        S.cur = None
        self._arm_sites(False)
        S.sched = None
        self.steps = sum(x.n for x in self.tasks)
        return self.outcome

    def _arm_sites(self, on):
        if not self.scripted and self.kind == 'hot':
            for s in self.st['sites']:
                hot[s] = 1 if on else 0
        if self._fscript is None and self.fcfg and self.fcfg.get('sites'):
            for s in self.fcfg['sites']:
                flt[s] = 1 if on else 0

    def _body(self, t):
        t.baton.acquire()
        t.ident = _thread.get_ident()
        try:
            if self.abort:
                raise SimAbort()
            t.result = t.fn()
        except SimAbort:
            t.error = 'abort'
        except BaseException as e:      # task died
            t.error = e
        t.state = 'done'
        t.n += 1        # its end is a step of its own, in traces too
        for o in self.tasks:
            if o.state == 'blocked' and o.waiting is t:
                o.state = 'ready'
                o.waiting = None
        self._leave(t)

    def _leave(self, t):
        """Current task finished: hand over or end the run."""
        nxt = self._pick_or_none(t)
        if nxt is None:
            if all(x.state == 'done' for x in self.tasks):
                S.cur = None
                self.main.release()
                return
            nxt = self._stuck()
        S.cur = nxt
        nxt.baton.release()

    def _ready(self):
        return [x for x in self.tasks if x.state == 'ready']

    def _account_choice(self, t, n, tgt):
        if t is not None:
            if not self.scripted:
                self.trace.append([t.tid, n, tgt.tid])
        else:
            if not self.scripted:
                self.trace.append([-1, 0, tgt.tid])
        if tgt is not t:
            self.switches += 1
            self.ilv = hash((self.ilv, t.tid if t else -1, n, tgt.tid)) & 0xffffffffffff

    def _choose(self, t, n):
        r = self._ready()
        if not r:
            return None
        if self.scripted:
            sc = self._script.get(t.tid if t else -1)
            if sc and n in sc:
                for x in r:
                    if x.tid == sc[n]:
                        return x
            if t is not None and t.state == 'ready':
                return t
            return r[0]
        if self.kind == 'pct':
            b = r[0]
            for x in r:
                if x.pri > b.pri:
                    b = x
            return b
        if len(r) == 1:
            return r[0]
        if self.kind == 'serial':
            if t is not None and t.state == 'ready':
                return t
            return r[0]
        return r[self.rng.randrange(len(r))]

    def _pick_or_none(self, t):
        nxt = self._choose(t, t.n)
        while nxt is None:
            # jump the simulated clock to the next timer
            timed = [x for x in self.tasks if x.state == 'blocked' and x.deadline is not None]
            if not timed:
                return None
            x = min(timed, key=lambda q: (q.deadline, q.tid))
            if x.deadline > self.now_ns:
                self.slept_ns += x.deadline - self.now_ns
                self.now_ns = x.deadline
            x.state = 'ready'
            x.timed_out = True
            x.deadline = None
            x.waiting = None
            nxt = self._choose(t, t.n)
        self._account_choice(t, t.n, nxt)
        return nxt

    def _stuck(self):
        """No task can run: deadlock.  Unwind every blocked task."""
        if self.outcome is None:
            self.outcome = 'deadlock'
            self.deadlock_info = [(x.name, str(x.op)) for x in self.tasks if x.state == 'blocked']
        self.abort = True
        for x in self.tasks:
            if x.state == 'blocked':
                x.state = 'ready'
        return self._ready()[0]

    def _switch_to(self, t, nxt):
        if nxt is t:
            return
        S.cur = nxt
        nxt.baton.release()
        t.baton.acquire()

    def elapsed(self):
        return self.now_ns + sum(x.n for x in self.tasks) * STEP_NS

    # -- slow path of a yield point ----------------------------------------
    def point(self, t, sid):
        if self.abort:
            raise SimAbort()
        total = sum(x.n for x in self.tasks)
        self.steps = total
        if total >= self.max_steps:
            self.outcome = 'steps'
            self.abort = True
            for x in self.tasks:
                if x.state == 'blocked':
                    x.state = 'ready'
                x.stop = 0
            raise SimAbort()
        if self.scripted:
            sc = self._script.get(t.tid)
            if not sc or t.n not in sc:
                if t.n >= t.stop:
                    self._set_stop(t)
                return
        elif self.kind == 'hot':
            if not hot[sid] or self.rng.random() >= self.st['p']:
                self._set_stop(t)
                return
        elif self.kind == 'pct':
            if t.n in self.st['points']:
                t.pri = -(t.n)
        elif self.kind == 'serial':
            self._set_stop(t)
            return
        self._wake_timers()
        nxt = self._choose(t, t.n)
        self._set_stop(t)
        if nxt is t:
            return
        self._account_choice(t, t.n, nxt)
        self.pairs.add((sid, nxt.name))
        self._switch_to(t, nxt)
        if self.abort:
            raise SimAbort()

    def _wake_timers(self):
        now = self.elapsed()
        for x in self.tasks:
            if x.state == 'blocked' and x.deadline is not None and x.deadline <= now:
                x.state = 'ready'
                x.timed_out = True
                x.deadline = None
                x.waiting = None

    def block(self, t, what, deadline=None):
        """Park the current task until woken; True if woken, False on timeout."""
        if self.abort:
            raise SimAbort()
        t.state = 'blocked'
        t.waiting = what
        t.op = what
        t.deadline = deadline
        t.timed_out = False
        t.n += 1
        self.blocked_ct += 1
        nxt = self._pick_or_none(t)
        if nxt is None:
            nxt = self._stuck()
        self._switch_to(t, nxt)
        t.waiting = None
        t.deadline = None
        if self.abort:
            t.state = 'ready'
            raise SimAbort()
        self._set_stop(t)
        return not t.timed_out

    def wake(self, what):
        for x in self.tasks:
            if x.state == 'blocked' and x.waiting is what:
                x.state = 'ready'
                x.waiting = None
                x.deadline = None

    # -- faults ------------------------------------------------------------
    def fault_point(self, t, sid):
        if self.abort:
            return
        if self._fscript is not None:
            if t.n < t.fault_at:
                return
            kind = self._fscript[t.tid].pop(t.fault_at)
            self._next_fault(t)
            self._raise(t, sid, kind)
        if self.fault_budget <= 0 or not self.fcfg:
            return
        tids = self.fcfg.get('tids')
        if tids is not None and t.tid not in tids:
            return
        if self.rng.random() < self.fcfg['p']:
            self.fault_budget -= 1
            kinds = self.fcfg.get('kinds', ['alloc'])
            self._raise(t, sid, kinds[self.rng.randrange(len(kinds))])

    def _raise(self, t, sid, kind):
        self.fault_log.append([t.tid, t.n, kind, sid])
        if self.on_fault:
            self.on_fault(t, sid, kind)
        if kind == 'interrupt':
            raise InjectedInterrupt('injected')
        raise InjectedFault('injected: out of memory')


def free_static_locks():
    """Every run starts with the locks of modules and classes free."""
    S.loaded = True
    for k in S.static:
        k._owner = None
        k._depth = 0


# --------------------------------------------------------------------------
class SimLock(object):
    """Replacement for threading.Lock."""
    _re = False

    def __init__(self):
        self._owner = None
        self._depth = 0
        if S.cur is None and not S.loaded:
            S.static.append(self)

    def acquire(self, blocking=True, timeout=-1):
        t = S.cur
        me = t if t is not None else 'outside'
        if t is not None:
            t.n += 1
            if t.n >= t.stop or S.sched.kind == 'pct':
                S.sched.point(t, 0)
        if self._re and self._owner is me:
            self._depth += 1
            return True
        if self._owner is None:
            self._owner = me
            self._depth = 1
            return True
        if not blocking:
            return False
        if t is None:
            raise RuntimeError('simulation: lock wait outside a task can never be satisfied')
        deadline = None
        if timeout is not None and timeout >= 0:
            deadline = S.sched.elapsed() + int(timeout * 1e9)
        while self._owner is not None:
            ok = S.sched.block(t, self, deadline)
            if not ok and self._owner is not None:
                return False
        self._owner = me
        self._depth = 1
        return True

    def release(self):
        if self._owner is None:
            raise RuntimeError('release unlocked lock')
        t = S.cur
        if self._re:
            if self._owner is not (t if t is not None else 'outside'):
                raise RuntimeError('cannot release un-acquired lock')
            self._depth -= 1
            if self._depth:
                return
        self._owner = None
        self._depth = 0
        if S.sched is not None:
            S.sched.wake(self)
        if t is not None:
            t.n += 1
            if (t.n >= t.stop or S.sched.kind == 'pct') and not S.sched.abort:
                S.sched.point(t, 0)

    def locked(self):
        return self._owner is not None

    def __enter__(self):
        self.acquire()
        return self

    def __exit__(self, *a):
        self.release()

    def __repr__(self):
        o = self._owner
        return '<SimLock held by %s>' % (o.name if isinstance(o, SimTask) else o)

    def _at_fork_reinit(self):
        self._owner = None


class SimRLock(SimLock):
    _re = True

    def _is_owned(self):
        return self._owner is (S.cur if S.cur is not None else 'outside')

    def _release_save(self):
        d, self._depth = self._depth, 1
        o = self._owner
        self.release()
        return d, o

    def _acquire_restore(self, st):
        self.acquire()
        self._depth = st[0]


class SimThread(_RealThread):
    """threading.Thread started by code under test inside a simulation."""

    def start(self):
        if S.cur is None:
            # outside a simulation there is one thread of control: run it now
            self._dst_inline = True
            self._started.set()
            try:
                self.run()
            finally:
                self._is_stopped = True
            return
        self._started.set()
        self._dst_task = S.sched.spawn(self.run, self.name)
        _y(0)

    def join(self, timeout=None):
        t = getattr(self, '_dst_task', None)
        if t is None or S.cur is None:
            return
        if t.state != 'done':
            dl = None if timeout is None else S.sched.elapsed() + int(timeout * 1e9)
            S.sched.block(S.cur, t, dl)

    def is_alive(self):
        t = getattr(self, '_dst_task', None)
        return t is not None and t.state != 'done'


def _now_s():
    if S.cur is not None:
        return S.sched.elapsed() / 1e9
    return None


CLOCK = {'offset': 0.0}


def _sim_time():
    v = _now_s()
    return (1.5e9 + (v or 0.0)) + CLOCK['offset']


def _sim_mono():
    v = _now_s()
    return v or 0.0


def _sim_sleep(d):
    t = S.cur
    if t is None:
        return
    if d < 0:
        raise ValueError('sleep length must be non-negative')
    S.sched.block(t, 'sleep', S.sched.elapsed() + int(d * 1e9))


_installed = False


def install_threading():
    """Route threading and time primitives through the simulator.  Called once,
    before the package under test is imported."""
    global _installed
    if _installed:
        return
    _installed = True
    _threading.Lock = SimLock
    _threading.RLock = SimRLock
    _threading._allocate_lock = SimLock
    _threading._CRLock = SimRLock
    _threading._PyRLock = SimRLock
    _threading.Thread = SimThread
    _time.time = _sim_time
    _time.monotonic = _sim_mono
    _time.perf_counter = _sim_mono
    _time.sleep = _sim_sleep
