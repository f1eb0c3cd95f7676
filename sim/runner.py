"""Running thread programs under the kernel and keeping the history."""
import contextlib
import os
import pickle
import sys

import numpy as np

from . import kernel, nomem, world


class HarnessError(Exception):
    pass


class Rec:
    """one operation of the history"""
    __slots__ = ('tid', 'i', 'op', 'b', 'e', 'out', 'res', 'exc', 'fired', 'steps', 'note')

    def __repr__(self):
        return 'T%d#%s %s [%s,%s] -> %s%s' % (self.tid, self.i, self.op.get('op'), self.b, self.e,
                                              world.short(self.out, 160),
                                              ' (injected %s)' % self.fired if self.fired else '')


def large(plan):
    """some operand has many elements, and may be iterated over"""
    specs = list(plan.get('pool', ()))
    for t in plan.get('targets', ()):
        specs += t if isinstance(t, list) else [t]
    return any(int(np.prod(s.get('sh', ()))) > 50 for s in specs if isinstance(s, dict))


class Run:

    def __init__(self, plan):
        self.plan = plan
        self.k = kernel.Kernel(kernel.make_schedule(plan['schedule'], len(plan['threads'])),
                               op_cap=plan.get('op_cap', 4000000 if large(plan) else 400000))
        self.recs = []
        self.tick = 0
        self.violations = []

    def violate(self, cls, detail):
        if len(self.violations) < 20:
            self.violations.append({'class': cls, 'detail': detail})

    def call(self, t, i, op, fn, errstate=None, handler=None):
        """one operation of thread t, under the scheduler and with its planned fault;
        handler: what a fault of kind 'handler' calls"""
        r = Rec()
        r.tid, r.i, r.op = t.tid, i, op
        r.res = r.exc = r.note = None
        t.handler = handler
        cm = np.errstate(**errstate) if errstate else contextlib.nullcontext()
        fault = op.get('fault')
        if fault is not None and fault[0] == 'alloc':
            nomem.setup()
            failing = nomem.Failing(t.tid + 1, fault[1], fault[2] if len(fault) > 2 else 1)
            inner, fault = fn, None

            def fn():
                with failing:
                    return inner()
        else:
            failing = None
        with cm:
            self.k.op_begin(t, '%s %s' % (i, op.get('op')), fault)
            self.tick += 1
            r.b = self.tick
            try:
                try:
                    r.res = fn()
                finally:
                    r.steps = self.k.op_end(t)
                    self.tick += 1
                    r.e = self.tick
                    r.fired = t.fired
                    if failing is not None:
                        r.note = failing.seen
                    if failing is not None and failing.fired:
                        r.fired = 'alloc'
                        f = self.k.faults_fired
                        f['alloc'] = f.get('alloc', 0) + failing.fired
            except kernel.SimStuck:
                r.out = ('E', 'SimStuck')
                self.recs.append(r)
                raise
            except BaseException as e:
                e.__traceback__ = None
                r.exc = e
                r.out = world.canon_exc(e)
            else:
                r.out = world.canon(r.res)
        self.recs.append(r)
        return r

    def go(self, body):
        """body(t, tid, program) runs the program of one thread"""
        if self.plan.get('warm'):
            from . import common
            self.kept = common.warm(self.plan['warm'])
        for tid, prog in enumerate(self.plan['threads']):
            self.k.spawn(lambda t, prog=prog: body(t, t.tid, prog))
        self.k.run()
        for t in self.k.threads:
            if t.error is not None:
                raise t.error

    @property
    def inconclusive(self):
        k = self.k
        if k.deadlock:
            return 'deadlock'
        if k.stuck:
            return 'stuck'
        if k.truncated:
            return 'truncated'
        return None

    def blocked(self):
        """what never finished, if anything"""
        k = self.k
        if k.deadlock:
            return 'deadlock: %s' % k.deadlock
        if k.stuck:
            return 'no end after %d steps: %s' % (k.stuck['steps'], k.stuck)
        return None

    def stats(self):
        k = self.k
        overlaps = 0
        last = {}
        for r in self.recs:
            for t, (b, e) in last.items():
                if t != r.tid and b < r.e and r.b < e:
                    overlaps += 1
            last[r.tid] = (r.b, r.e)
        ops = {}
        for r in self.recs:
            n = r.op.get('op', '?')
            ops[n] = ops.get(n, 0) + 1
        errs = sum(1 for r in self.recs if r.out[0] == 'E')
        return {'ops': len(self.recs), 'raised': errs, 'steps': k.now(), 'switches': k.n_switches,
                'lock_ops': k.n_lock_ops, 'lock_waits': k.n_lock_waits, 'overlaps': overlaps,
                'virtual_time': k.virtual_time, 'faults': dict(k.faults_fired), 'hash': k.loc_hash,
                'op_counts': ops}

    def result(self, nontrivial=None, extra=None):
        s = self.stats()
        if extra:
            for key, v in extra.items():
                if key == 'faults':
                    for f, n in v.items():
                        s['faults'][f] = s['faults'].get(f, 0) + n
                else:
                    s[key] = v
        s['nontrivial'] = bool(nontrivial if nontrivial is not None else s['overlaps'] or s['faults'])
        out = {'violations': self.violations, 'stats': s, 'segments': self.k.segments,
               'inconclusive': None if self.violations else self.inconclusive,
               'digest': world.digest([(r.tid, r.i, r.b, r.e, r.out, r.fired) for r in self.recs] + [self.k.loc_hash])}
        return out

    def history(self, n=60):
        return [repr(r) for r in self.recs[:n]]


def in_fork(fn):
    """run fn() in a forked copy of this process and return what it returns"""
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        code = 0
        try:
            os.close(r)
            try:
                out = ('ok', fn())
            except BaseException as e:
                import traceback
                out = ('error', ''.join(traceback.format_exception(e))[-2000:])
            data = pickle.dumps(out)
            with os.fdopen(w, 'wb') as f:
                f.write(data)
        except BaseException:
            code = 3
        finally:
            os._exit(code)
    os.close(w)
    with os.fdopen(r, 'rb') as f:
        data = f.read()
    os.waitpid(pid, 0)
    if not data:
        raise HarnessError('forked process ended without an answer')
    kind, val = pickle.loads(data)
    if kind == 'error':
        raise HarnessError(val)
    return val


def admissible(writes, initial, b, e):
    """values of a register that a read during [b, e] may return.
    writes: (begin, end or None if it may still take effect, value, certain)"""
    out = []
    done = [w for w in writes if w[3] and w[1] is not None and w[1] < b]
    last_begin = max((w[0] for w in done), default=None)
    if last_begin is None:
        out.append(initial)
    for w in writes:
        if w[0] > e:
            continue
        if w[1] is not None and any(d is not w and d[0] > w[1] for d in done):
            continue
        out.append(w[2])
    return out


SCHEDULES = ['walk'] * 5 + ['pct'] * 4 + ['rr', 'serial']


def make_schedule_spec(rng, nops):
    kind = rng.choice(SCHEDULES)
    s = {'kind': kind, 'seed': rng.randrange(1 << 40)}
    if kind == 'walk':
        s['mean'] = rng.choice([6, 25, 100, 400])
    elif kind == 'pct':
        s['depth'] = rng.choice([1, 2, 3, 5])
        s['horizon'] = max(200, 900 * nops)
    elif kind == 'rr':
        s['q'] = rng.choice([1, 3, 17, 101, 700])
    return s
