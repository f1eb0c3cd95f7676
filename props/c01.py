"""C01: concurrent computation equals the same computation run alone."""
import random

import numpy as np

from sim import common, pure, runner, world

NAMES = sorted(pure.OPS)
WEIGHTS = pure.weights(NAMES)

RULE_TEXT = ('A case is one simulated run: a pool of shared operands, 2-4 threads of 2-7 operations, '
             'some disturbed by a signal handler that computes too, '
             'a schedule.  Non-trivial: operations of different threads overlapped, or a handler ran.')


def generate(rng, tier):
    pool = pure.make_pool(rng)
    nt = rng.choice([2, 2, 3, 4])
    churn = rng.random() < 0.6
    kinds = [k for k in ('define', 'default', 'unicode', 'preferred', 'lookup') if rng.random() < 0.5] or ['lookup']
    threads = []
    # often all threads use the same few kinds of operations on the same operands
    focus = rng.random() < 0.6
    names = pure.focus(rng) if focus else NAMES
    w = pure.weights(names)
    for t in range(nt):
        g = pure.Gen(rng, pool)
        prog = []
        for _ in range(rng.randint(2, 7)):
            if churn and rng.random() < (0.7 if t == nt - 1 else 0.1):
                prog.append(common.gen_churn(rng, kinds, 0))
                g.nops += 1
                continue
            o = pure.gen_op(g, names, w) if rng.random() < 0.85 else pure.gen_op(g, NAMES, WEIGHTS)
            if o:
                prog.append(o)
        threads.append(prog)
    if rng.random() < 0.3:
        # calls during which a signal arrives, whose handler computes too
        for prog in threads:
            for o in prog:
                if rng.random() < 0.5:
                    h = pure.gen_op(pure.Gen(rng, pool), names, w)
                    if h:
                        o['handler'] = h
                        o['fault'] = ['handler', 1 + int(rng.choice([10, 50, 200, 800]) * rng.random())]
    return {'pool': pool, 'threads': threads,
            'schedule': runner.make_schedule_spec(rng, sum(map(len, threads)))}


def run_alone(plan):
    """every operation by itself, one thread after the other, nothing else going on"""
    pool = [world.build(s) for s in plan['pool']]
    out = {}

    def handler(tid, i, o):
        if 'handler' in o:
            h = o['handler']
            try:
                out[tid, i, 'handler'] = world.canon(pure.call(h, pure.operands(h, pool, {})))
            except Exception as e:
                out[tid, i, 'handler'] = world.canon_exc(e)

    for tid, prog in enumerate(plan['threads']):
        results = {}
        for i, o in enumerate(prog):
            if o['op'] == 'nothing':
                continue
            handler(tid, i, o)
            if o['op'].startswith('churn'):
                continue
            args = pure.operands(o, pool, results)
            try:
                r = pure.call(o, args)
            except Exception as e:
                out[tid, i] = world.canon_exc(e)
            else:
                if not pure.OPS[o['op']][4]:
                    results[i] = r
                out[tid, i] = world.canon(r)
    return out


def execute(plan, phase, carry):
    churned = {o['op'] for p in plan['threads'] for o in p}
    skip = set()
    if 'churn_default' in churned:
        skip.add('defaults')
    if 'churn_unicode' in churned:
        skip.add('unicode')
    if 'churn_preferred' in churned:
        skip.add('preferred')
    alone = runner.in_fork(lambda: run_alone(plan))
    pool = [world.build(s) for s in plan['pool']]
    before = [world.canon(x) for x in pool]
    filters = world.filters()
    run = runner.Run(plan)
    states = []
    handled = []

    def handler(tid, i, o):
        h = o.get('handler')
        if h is None:
            return None
        args = pure.operands(h, pool, {})

        def fn():
            r = runner.Rec()
            r.tid, r.i, r.op, r.b, r.e, r.fired = tid, (i, 'handler'), h, run.tick, run.tick, None
            r.res = r.exc = None
            try:
                r.res = pure.call(h, args)
                r.out = world.canon(r.res)
            except Exception as e:
                e.__traceback__ = None
                r.exc = e
                r.out = world.canon_exc(e)
            r.note = args
            handled.append((alone[tid, i, 'handler'], r))
        return fn

    def body(t, tid, prog):
        results = {}
        s0 = world.numpy_state()
        for i, o in enumerate(prog):
            if o['op'] == 'nothing':
                continue
            if o['op'].startswith('churn'):
                run.call(t, i, o, lambda: common.call_churn(o), handler=handler(tid, i, o))
                continue
            args = pure.operands(o, pool, results)
            r = run.call(t, i, o, lambda: pure.call(o, args), handler=handler(tid, i, o))
            if r.exc is None and not pure.OPS[o['op']][4]:
                results[i] = r.res
            r.note = args
        states.append((tid, s0, world.numpy_state()))

    run.go(body)
    if run.blocked():
        run.violate('blocked', run.blocked())
    if run.inconclusive is None:
        for want, r in [(None, r) for r in run.recs] + handled:
            n = r.op['op']
            if n.startswith('churn'):
                if r.out[0] == 'E' and r.out[1] not in ('LookupError',) and n != 'churn_define':
                    run.violate('churn-raised', repr(r))
                continue
            if want is None:
                want = alone[r.tid, r.i]
            if not (pure.OPS[n][4] & skip):
                if r.out != want:
                    run.violate('differs-from-solo', '%r; alone: %s' % (r, world.short(want)))
            if n == 'simplified' and r.exc is None:
                c = physical(r.note[0], r.res)
                if c:
                    run.violate('wrong-value', '%r: %s' % (r, c))
            c = pure.judge(r.op, r.note, r.out, r.res)
            if c:
                run.violate('wrong-value', '%r with %s: %s' % (r, [world.short(world.canon(a), 120) for a in r.note], c))
            if r.out[0] == 'E' and want[0] == 'E' and pure.expected(r.op, r.note) not in (None, pure.Incompatible) \
                    and not allowed_error(r):
                run.violate('raises', '%r although the operation has a value' % r)
        for i, (x, b) in enumerate(zip(pool, before)):
            if world.canon(x) != b:
                run.violate('operand-changed', 'operand %d: %s, was %s' % (i, world.short(world.canon(x)), world.short(b)))
        for tid, s0, s1 in states:
            if s0 != s1:
                run.violate('numpy-state', 'thread %d: %s, was %s' % (tid, s1, s0))
        if world.filters() != filters:
            run.violate('warning-filters', '%s, were %s' % (world.filters(), filters))
    return run.result(nontrivial=run.stats()['overlaps'] > 0 or bool(handled), extra={'handlers': len(handled)})


STRONG = {n for n in pure.OPS if pure.OPS[n][2] is not None} - {'np_ones_like'}


def allowed_error(r):
    """cases in which the library raises although the mathematics has a value"""
    if r.op['op'] not in STRONG:
        return True
    return any(isinstance(a, world.pq.UncertainQuantity) for a in r.note)


def physical(a, b):
    """complaint if b is not the same physical quantity as a"""
    try:
        va, da = common.si_value(a)
        vb, db = common.si_value(b)
    except world.Unknown:
        return None
    if da != db:
        return 'dimension %s became %s' % (da, db)
    if va.shape != vb.shape:
        return 'shape changed'
    rt = pure.rtol_of(a, b)
    with np.errstate(all='ignore'):
        bad = ~((abs(va - vb) <= rt * (abs(va) + abs(vb))) | (va == vb) | (np.isnan(va) & np.isnan(vb)))
    if rt > 1e-6 and np.any(abs(va) > 1e37):
        return None
    if bad.any():
        return 'physical value %s became %s (SI)' % (va[bad][:3] if va.shape else va, vb[bad][:3] if vb.shape else vb)
    return None
