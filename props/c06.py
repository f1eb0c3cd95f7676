"""C06: a fault inside an operation never yields a wrong answer or lasting damage."""
import random

from sim import facts, pure, runner, world

RULE_TEXT = ('A case is one simulated run: 1-3 threads of 2-6 non-mutating operations on shared operands, most of '
             'them hit by an interrupt, a memory error or failing array allocations at a random instant, each '
             'repeated undisturbed, and a schedule.  Non-trivial: a fault was delivered.')
QUICK_RUNS = 6000
QUICK_WALL = 50

NAMES = sorted(pure.OPS)
WEIGHTS = pure.weights(NAMES)
# numpy 2.0 itself crashes when an allocation inside of these fails
NUMPY_CRASHES = {'argsort', 'searchsorted'}


def generate(rng, tier):
    pool = pure.make_pool(rng)
    nt = rng.choice([1, 1, 2, 2, 3])
    focus = rng.random() < 0.5
    names = pure.focus(rng) if focus else NAMES
    if len(names) < 3:
        nt = max(2, nt)
    w = pure.weights(names)
    threads = []
    for t in range(nt):
        g = pure.Gen(rng, pool)
        prog = []
        faulty = rng.choice([0.9, 0.9, 0.6, 0.0 if t else 0.9])
        for _ in range(rng.randint(2, 6)):
            o = pure.gen_op(g, names, w) if rng.random() < 0.85 else pure.gen_op(g, NAMES, WEIGHTS)
            if not o:
                continue
            if rng.random() < faulty:
                k = rng.choice(['interrupt', 'interrupt', 'nomem', 'alloc'])
                if k == 'alloc' and o['op'] in NUMPY_CRASHES:
                    k = 'nomem'
                o['at'] = [k, rng.random(), rng.choice([1, 1, 2, 1000])]
            prog.append(o)
        threads.append(prog)
    return {'pool': pool, 'threads': threads, 'unicode': rng.random() < 0.3,
            'preferred': [rng.choice(sorted(facts.FACT)) for _ in range(rng.randint(0, 5))],
            'labels': rng.randrange(1 << 30), 'all': rng.random() < 0.02,
            'schedule': runner.make_schedule_spec(rng, sum(map(len, threads)))}


def prepare(plan):
    pq = world.pq
    pq.markup.config.use_unicode = plan['unicode']
    pq.quantity.PREFERRED = [pq.unit_registry[l] for l in plan['preferred']]


def run_alone(plan):
    """outcome, number of points and number of allocations of every operation by itself"""
    prepare(plan)
    pool = [world.build(s) for s in plan['pool']]
    one = {'pool': plan['pool'], 'threads': [[o for p in plan['threads'] for o in p]], 'schedule': {'kind': 'serial'}}
    run = runner.Run(one)
    out = {}

    def body(t, tid, prog):
        for tid, prog in enumerate(plan['threads']):
            results = {}
            for i, o in enumerate(prog):
                if o['op'] == 'nothing':
                    continue
                args = pure.operands(o, pool, results)
                probe = {'op': o['op'], 'fault': ['alloc', 1 << 40]}
                r = run.call(t, i, probe, lambda: pure.call(o, args))
                if r.exc is None and not pure.OPS[o['op']][4]:
                    results[i] = r.res
                out[tid, i] = (r.out, r.steps, r.note or 0)
    run.go(body)
    if run.blocked():
        return None
    return out


def execute(plan, phase, carry):
    alone = runner.in_fork(lambda: run_alone(plan))
    if alone is None:
        return {'violations': [{'class': 'blocked', 'detail': 'an undisturbed operation never ends'}], 'segments': [],
                'inconclusive': None, 'digest': '', 'stats': {'nontrivial': True}}
    prepare(plan)
    pool = [world.build(s) for s in plan['pool']]
    before = [world.canon(x) for x in pool]
    labels = sorted(world.LABELS)
    if not plan['all']:
        labels = sorted(random.Random(plan['labels']).sample(labels, 15))
    state = world.fingerprint(False, labels)
    run = runner.Run(plan)
    states = []

    def body(t, tid, prog):
        results = {}
        s0 = world.numpy_state()
        for i, o in enumerate(prog):
            if o['op'] == 'nothing':
                continue
            args = pure.operands(o, pool, results)
            if 'at' in o:
                kind, x, n = o['at']
                _, steps, allocs = alone[tid, i]
                if kind == 'alloc':
                    fault = ['alloc', 1 + int(x * max(1, allocs)), n]
                else:
                    fault = [kind, 1 + int(x * max(1, steps))]
                r = run.call(t, i, dict(o, fault=fault), lambda: pure.call(o, args))
                r.note = 'faulty'
            r = run.call(t, i, o, lambda: pure.call(o, args))
            if r.exc is None and not pure.OPS[o['op']][4]:
                results[i] = r.res
        states.append((tid, s0, world.numpy_state()))

    run.go(body)
    if run.blocked():
        run.violate('blocked', run.blocked())
    if run.inconclusive is None:
        for r in run.recs:
            want = alone[r.tid, r.i][0]
            if r.note == 'faulty':
                if r.fired and r.out[0] == 'E':
                    continue
                if r.out != want:
                    run.violate('wrong-answer', '%r; undisturbed: %s' % (r, world.short(want)))
            elif r.out != want:
                run.violate('lasting-damage', '%r without fault; alone: %s' % (r, world.short(want)))
        for i, (x, b) in enumerate(zip(pool, before)):
            if world.canon(x) != b:
                run.violate('operand-changed', 'operand %d: %s, was %s' % (i, world.short(world.canon(x)), world.short(b)))
        d = world.diff(state, world.fingerprint(False, labels))
        if d:
            run.violate('state-changed', d)
        for tid, s0, s1 in states:
            if s0 != s1:
                run.violate('numpy-state', 'thread %d: %s, was %s' % (tid, s1, s0))
        if not run.violations:
            # once more, in another thread
            for tid, prog in enumerate(plan['threads']):
                results = {}
                for i, o in enumerate(prog):
                    if o['op'] == 'nothing':
                        continue
                    args = pure.operands(o, pool, results)
                    try:
                        r = pure.call(o, args)
                        c = world.canon(r)
                        if not pure.OPS[o['op']][4]:
                            results[i] = r
                    except Exception as e:
                        c = world.canon_exc(e)
                    if c != alone[tid, i][0]:
                        run.violate('lasting-damage', 'afterwards %s gave %s; alone: %s' % (
                            o['op'], world.short(c), world.short(alone[tid, i][0])))
    return run.result(nontrivial=bool(run.k.faults_fired))
