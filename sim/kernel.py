"""The simulator: real threads of the code under test, exactly one of which runs at a time.

Every traced line (or opcode) of /repo/quantities is a possible pre-emption point; which thread
goes on, and for how many points, is decided by a seeded schedule.  Locks that the code under test
creates are replaced by simulated ones, so that waiting for a lock is a scheduling event too.
Faults (an interrupt or a failing allocation) are raised at a chosen point of a chosen operation.
"""
import _thread
import os
import random
import sys
import threading
import time

REPO = os.environ.get('VERIF_REPO', '/repo')
PKG = REPO.rstrip('/') + '/quantities/'
PKG_TESTS = PKG + 'tests/'

_real_allocate = _thread.allocate_lock
_real_RLock = _thread.RLock
_real_get_ident = _thread.get_ident
_real_sleep = time.sleep

KERNEL = None           # the active kernel of this process, if any
LOCKS = []              # the locks that the package created


class SimStuck(BaseException):
    """raised inside a thread that has to be given up (step limit)"""


class Deadlock(Exception):
    pass


# ---------------------------------------------------------------- locks

class SimLock:
    """A lock of the code under test.  Non-recursive unless `recursive`."""

    recursive = False

    def __init__(self):
        self.owner = None
        self.count = 0
        if KERNEL is not None and len(KERNEL.locks) < 1000:
            KERNEL.locks.append(self)

    def _me(self):
        k = KERNEL
        if k is not None:
            t = k.current_sim_thread()
            if t is not None:
                return t
        return ('real', _real_get_ident())

    def acquire(self, blocking=True, timeout=-1):
        me = self._me()
        k = KERNEL
        if k is not None:
            k.n_lock_ops += 1
        while True:
            if self.owner is None or self.recursive and (self.owner is me or self.owner == me):
                if self.owner is None:
                    self.owner = me
                    self.count = 0
                self.count += 1
                if k is not None and k.active and me.armed is not None and self in LOCKS:
                    k.lock_taken(me)
                return True
            if not blocking:
                return False
            if k is None or not isinstance(me, SimThread):
                raise RuntimeError('lock is held and nobody can release it')
            if timeout is not None and timeout >= 0:
                # simulated time: the wait runs out after the others had a turn
                k.virtual_time += timeout
                k.preempt()
                if self.owner is None:
                    continue
                return False
            k.n_lock_waits += 1
            k.block_on(me, self)

    def release(self):
        if self.owner is None:
            raise RuntimeError('release unlocked lock')
        if self.recursive and self.owner != self._me():
            raise RuntimeError('cannot release un-acquired lock')
        self.count -= 1
        if self.count == 0:
            self.owner = None
            if KERNEL is not None:
                KERNEL.wake(self)

    def __enter__(self):
        self.acquire()
        return True

    def __exit__(self, *a):
        self.release()

    def locked(self):
        return self.owner is not None

    # for threading.Condition
    def _is_owned(self):
        return self.owner == self._me()

    def _release_save(self):
        c = self.count
        self.count = 1
        self.release()
        return c

    def _acquire_restore(self, c):
        self.acquire()
        self.count = c

    def _at_fork_reinit(self):
        self.owner = None
        self.count = 0


class SimRLock(SimLock):
    recursive = True


def _called_by_package(depth=8):
    f = sys._getframe(2)
    while f is not None and depth:
        if f.f_code.co_filename.startswith(PKG):
            return True
        f = f.f_back
        depth -= 1
    return False


def _make_lock(*a, **k):
    if _called_by_package():
        l = SimLock()
        LOCKS.append(l)
        return l
    return _real_allocate()


def _make_rlock(*a, **k):
    if _called_by_package():
        l = SimRLock()
        LOCKS.append(l)
        return l
    return _real_RLock()


def _sim_sleep(secs):
    k = KERNEL
    if k is not None and k.current_sim_thread() is not None:
        k.virtual_time += secs
        k.preempt()
    elif _called_by_package():
        pass
    else:
        _real_sleep(secs)


def install_seams():
    """Locks and sleeping of the package go through the simulator.  Call before importing it."""
    threading.Lock = _make_lock
    threading._allocate_lock = _make_lock
    threading.RLock = _make_rlock
    _thread.allocate_lock = _make_lock
    _thread.allocate = _make_lock
    _thread.RLock = _make_rlock
    time.sleep = _sim_sleep


class _ThreadModuleForImportlib:
    """stands in for _thread inside importlib, so that import locks are scheduling points"""

    def __init__(self):
        self.error = _thread.error

    def get_ident(self):
        k = KERNEL
        if k is not None:
            t = k.current_sim_thread()
            if t is not None:
                return -1 - t.tid
        return _real_get_ident()

    def allocate_lock(self):
        return SimLock()

    def RLock(self):
        return SimRLock()


def install_import_seam():
    import importlib._bootstrap as b
    b._thread = _ThreadModuleForImportlib()


# ---------------------------------------------------------------- schedules

class RandomWalk:
    """quanta from a mixture of very short and long ones"""

    def __init__(self, rng, mean):
        self.rng = rng
        self.mean = mean

    def next(self, ready, current, reason):
        r = self.rng
        t = ready[r.randrange(len(ready))]
        x = r.random()
        if x < 0.25:
            n = r.randint(1, 4)
        elif x < 0.85:
            n = 1 + int(r.expovariate(1.0 / self.mean))
        else:
            n = 1 + int(r.expovariate(1.0 / (self.mean * 12)))
        return t, n


class PCT:
    """random priorities, a few random points at which the running thread drops to the lowest"""

    def __init__(self, rng, depth, horizon, nthreads):
        self.rng = rng
        self.prio = {}
        self.low = 0
        self.points = sorted(rng.randrange(1, max(2, horizon)) for _ in range(depth))
        self.at = 0

    def next(self, ready, current, reason):
        for t in ready:
            if t.tid not in self.prio:
                self.prio[t.tid] = self.rng.random() + 1
        if reason == 'quantum' and current is not None:
            self.low -= 1
            self.prio[current.tid] = self.low
        t = max(ready, key=lambda t: self.prio[t.tid])
        now = t.kernel.now()
        while self.points and self.points[0] <= now:
            self.points.pop(0)
        n = self.points[0] - now if self.points else 1 << 40
        return t, n


class RoundRobin:
    def __init__(self, q):
        self.q = q
        self.last = -1

    def next(self, ready, current, reason):
        for t in ready:
            if t.tid > self.last:
                break
        else:
            t = ready[0]
        self.last = t.tid
        return t, self.q


class Segments:
    """an explicit schedule: [thread, number of points], 0 = until it waits or ends"""

    def __init__(self, segs):
        self.segs = [list(s) for s in segs]
        self.i = 0

    def next(self, ready, current, reason):
        while self.i < len(self.segs):
            tid, n = self.segs[self.i]
            self.i += 1
            for t in ready:
                if t.tid == tid:
                    return t, (n if n > 0 else 1 << 40)
        return ready[0], 1 << 40


def make_schedule(spec, nthreads):
    kind = spec['kind']
    if kind == 'segments':
        return Segments(spec['segments'])
    rng = random.Random(spec.get('seed', 0))
    if kind == 'walk':
        return RandomWalk(rng, spec['mean'])
    if kind == 'pct':
        return PCT(rng, spec['depth'], spec['horizon'], nthreads)
    if kind == 'rr':
        return RoundRobin(spec['q'])
    if kind == 'serial':
        return Segments([])
    raise ValueError(kind)


# ---------------------------------------------------------------- the kernel

class SimThread:
    __slots__ = ('kernel', 'tid', 'fn', 'sem', 'state', 'waits', 'fault', 'fault_left',
                 'fired', 'op', 'op_start', 'steps', 'ident', 'error', 'active', 'handler', 'armed')

    def __init__(self, kernel, tid, fn):
        self.kernel = kernel
        self.tid = tid
        self.fn = fn
        self.sem = _real_allocate()
        self.sem.acquire()
        self.state = 'ready'
        self.waits = None
        self.fault = None
        self.fault_left = -1
        self.fired = None
        self.op = None
        self.op_start = 0
        self.ident = None
        self.steps = 0
        self.error = None
        self.active = False
        self.handler = None
        self.armed = None       # [fault, its distance from taking a lock, how many locks before that]


import dis as _dis
_OP = _dis.opmap
_LOAD_CONST = _OP['LOAD_CONST']
_CALL = _OP['CALL']
_SWAP = _OP['SWAP']
_PUSH_EXC_INFO = _OP['PUSH_EXC_INFO']
_WITH_EXCEPT_START = _OP['WITH_EXCEPT_START']


_NOP = _OP['NOP']
_ends = {}


def region_ends(code):
    """the offsets at which a protected region (`try`, `with`) of the code ends"""
    r = _ends.get(code)
    if r is None:
        r = _ends[code] = {e.end for e in _dis._parse_exception_table(code)}
    return r


def cannot_raise(frame):
    """the few points where CPython cannot deliver an interrupt: entering `try`, leaving a `try` or `with` block,
    and the start of an exception handler.  It would come during the call before, inside of the block, or during
    the next call, once that has been made"""
    code = frame.f_code.co_code
    i = frame.f_lasti
    if i < 0 or i >= len(code):
        return False
    op = code[i]
    if op in (_PUSH_EXC_INFO, _WITH_EXCEPT_START, _NOP):
        return True
    if i >= 2 and code[i - 2] == _PUSH_EXC_INFO:
        return True
    if op != _CALL and i in region_ends(frame.f_code):
        return True
    if op == _SWAP and i + 2 < len(code):
        i += 2              # the value that the block returns
        op = code[i]
    if (op == _LOAD_CONST and i + 6 < len(code) and code[i + 2] == _LOAD_CONST
            and code[i + 4] == _LOAD_CONST and code[i + 6] == _CALL):
        return True
    return False


class Kernel:

    def __init__(self, schedule, op_cap=400000, run_cap=4000000):
        self.schedule = schedule
        self.active = False
        self.op_cap = op_cap
        self.run_cap = run_cap
        self.threads = []
        self.locks = []
        self.current = None
        self.main_sem = _real_allocate()
        self.main_sem.acquire()
        self.base = 0           # steps before the present quantum
        self.quantum = 0
        self.count = 0          # steps left
        self.segments = []
        self.seg_start = 0
        self.virtual_time = 0.0
        self.n_lock_ops = 0
        self.n_lock_waits = 0
        self.n_switches = 0
        self.deadlock = None
        self.stuck = None
        self.by_ident = {}
        self.loc_hash = 0
        self.truncated = False
        self._q_end = 0
        self.base = 0
        self.faults_fired = {}

    # -- time
    def now(self):
        return self.base + (self.quantum - self.count)

    def current_sim_thread(self):
        return self.by_ident.get(_real_get_ident())

    def _fault_done(self, t, frame, now):
        """raise the planned fault of t, or run its handler"""
        kind = t.fault
        t.fault = None
        self._requantum(max(self._q_end - now, 1))
        t.fired = kind
        self.faults_fired[kind] = self.faults_fired.get(kind, 0) + 1
        self.loc_hash = hash_step(self.loc_hash, t.tid, frame.f_lineno + 77)
        if kind == 'interrupt':
            raise KeyboardInterrupt('injected')
        if kind == 'nomem':
            raise MemoryError('injected')
        if kind == 'handler':
            # what a signal handler does; another thread can go on only where it waits for a lock
            t.handler()
            return
        raise RuntimeError('unknown fault %r' % kind)

    def account(self):
        """book the steps of the running thread up to now"""
        d = self.quantum - self.count
        if d:
            self.base += d
            self.quantum = self.count
            t = self.current
            if t is not None:
                t.steps += d
                if t.fault is not None:
                    t.fault_left -= d
        return self.base

    def slow(self, frame, fault_ok):
        """the counter ran out: the quantum is used up, a fault is due or a limit is reached"""
        t = self.current
        now = self.account()
        if t.fault is not None and t.fault_left <= 0:
            if fault_ok and not cannot_raise(frame):
                self._fault_done(t, frame, now)
                now = self.now()
            else:
                t.fault_left = 1        # the next point
        if t.steps - t.op_start > self.op_cap or now > self.run_cap:
            if t.steps - t.op_start > self.op_cap:
                self.stuck = {'thread': t.tid, 'op': t.op, 'steps': t.steps - t.op_start,
                              'where': '%s:%d' % (frame.f_code.co_filename, frame.f_lineno)}
            else:
                self.truncated = True
            raise SimStuck()
        if now < self._q_end:
            self._requantum(self._q_end - now)
            return
        self.loc_hash = hash_step(self.loc_hash, t.tid, frame.f_lineno)
        self.reschedule('quantum')

    def _requantum(self, n):
        """n steps are left in the current quantum; arm the counter for the nearest event"""
        now = self.account()
        self._q_end = now + n
        t = self.current
        m = n
        if t.fault is not None:
            m = min(m, t.fault_left)
        m = min(m, self.op_cap + t.op_start - t.steps + 1, self.run_cap - now + 1, 1 << 30)
        m = max(m, 1)
        self.base = now
        self.quantum = m
        self.count = m

    # -- scheduling
    def spawn(self, fn):
        t = SimThread(self, len(self.threads), fn)
        self.threads.append(t)
        return t

    def _body(self, t):
        t.ident = _real_get_ident()
        self.by_ident[t.ident] = t
        t.sem.acquire()
        try:
            try:
                t.fn(t)
            except SimStuck:
                pass
            except BaseException as e:          # a harness error
                t.error = e
        finally:
            t.active = self.active = False
            t.state = 'done'
            self.reschedule('done')

    def run(self):
        global KERNEL
        KERNEL = self
        self._q_end = 0
        for t in self.threads:
            _thread.start_new_thread(self._body, (t,))
        # wait until all of them are parked at their semaphores
        while len(self.by_ident) < len(self.threads):
            _real_sleep(0.0002)
        self.current = None
        self.reschedule('start')
        self.main_sem.acquire()
        KERNEL = None

    def reschedule(self, reason):
        """called by the running thread (or by run()): hand the processor on"""
        me = self.current
        now = self.account()
        if me is not None:
            if reason != 'quantum':
                self.segments.append([me.tid, 0])
            elif now > self.seg_start:
                self.segments.append([me.tid, now - self.seg_start])
        self.seg_start = now
        ready = [t for t in self.threads if t.state == 'ready']
        if not ready:
            blocked = [t for t in self.threads if t.state == 'blocked']
            if blocked:
                self.deadlock = [{'thread': t.tid, 'op': t.op, 'holds': [
                    i for i, l in enumerate(LOCKS + self.locks) if l.owner is t]} for t in blocked]
            self.main_sem.release()
            if reason != 'done':
                _park_forever()
            return
        nxt, q = self.schedule.next(ready, me, reason)
        self.current = nxt
        self._requantum(q)
        if nxt is me:
            return
        self.n_switches += 1
        nxt.sem.release()
        if me is None or reason == 'done':
            return
        me.sem.acquire()
        self.active = me.active

    def preempt(self):
        """a voluntary yield of the running thread"""
        self.reschedule('yield')

    def block_on(self, t, lock):
        t.state = 'blocked'
        t.waits = lock
        self.reschedule('block')

    def wake(self, lock):
        for t in self.threads:
            if t.state == 'blocked' and t.waits is lock:
                t.state = 'ready'
                t.waits = None

    # -- operations of the simulated threads
    def op_begin(self, t, name, fault=None):
        """From here to op_end the points count.
        fault: None, [kind, point] or [kind, point counted from taking a lock, number of locks before it]"""
        t.op = name
        self.preempt_point(t)
        self.account()
        t.op_start = t.steps
        t.fired = None
        t.fault = t.armed = None
        if fault is not None:
            if len(fault) > 2:
                t.armed = list(fault)
            else:
                t.fault, t.fault_left = fault[0], fault[1]
        self._requantum(max(self._q_end - self.now(), 1))
        t.active = self.active = True

    def lock_taken(self, t):
        t.armed[2] -= 1
        if t.armed[2] < 0:
            self.account()
            t.fault, t.fault_left = t.armed[:2]
            t.armed = None
            self._requantum(max(self._q_end - self.now(), 1))

    def op_end(self, t):
        """Returns the number of points the call passed.  A fault that was not reached is dropped."""
        t.active = self.active = False
        t.fault = t.armed = None
        self.account()
        n = t.steps - t.op_start
        t.op_start = t.steps
        self._requantum(max(self._q_end - self.now(), 1))
        return n

    def preempt_point(self, t):
        """an explicit pre-emption point between two operations"""
        self.count -= 1
        if self.count <= 0:
            now = self.account()
            if now >= self._q_end:
                self.reschedule('quantum')
            else:
                self._requantum(self._q_end - now)


# ---------------------------------------------------------------- the points

class _Ours(dict):
    """file name -> is it a source file of the package"""

    def __missing__(self, fn):
        ok = self[fn] = fn.startswith(PKG) and not fn.startswith(PKG_TESTS)
        return ok


_ours = _Ours()


def install_points():
    """every line, backward jump, return and finished C call of the package becomes a point"""
    mon = sys.monitoring
    tool = 3
    ev = mon.events
    mon.use_tool_id(tool, 'sim')
    disable = mon.DISABLE
    ours = _ours
    getframe = sys._getframe

    def on_line(code, line):
        if not ours[code.co_filename]:
            return disable
        k = KERNEL
        if k is not None and k.active:
            k.count -= 1
            if k.count <= 0:
                k.slow(getframe(1), True)

    def on_jump(code, src, dst):
        if dst > src or not ours[code.co_filename]:
            return disable
        k = KERNEL
        if k is not None and k.active:
            k.count -= 1
            if k.count <= 0:
                # an exception raised here would miss its handler inside of an inlined comprehension
                k.slow(getframe(1), False)

    def on_return(code, off, val):
        if not ours[code.co_filename]:
            return disable
        k = KERNEL
        if k is not None and k.active:
            k.count -= 1
            if k.count <= 0:
                k.slow(getframe(1), False)

    def on_call(code, off, fn, arg0):
        if not ours[code.co_filename]:
            return disable

    def on_c_return(code, off, fn, arg0):
        k = KERNEL
        if k is not None and k.active and ours[code.co_filename]:
            k.count -= 1
            if k.count <= 0:
                k.slow(getframe(1), True)

    mon.register_callback(tool, ev.LINE, on_line)
    mon.register_callback(tool, ev.JUMP, on_jump)
    mon.register_callback(tool, ev.PY_RETURN, on_return)
    mon.register_callback(tool, ev.CALL, on_call)
    mon.register_callback(tool, ev.C_RETURN, on_c_return)
    mon.set_events(tool, ev.LINE | ev.JUMP | ev.PY_RETURN | ev.CALL)


def hash_step(h, tid, line):
    return ((h * 1000003) ^ (tid * 8191 + line)) & 0xFFFFFFFFFFFF


def _park_forever():
    l = _real_allocate()
    l.acquire()
    l.acquire()
