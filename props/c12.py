"""C12: concurrent use never blocks forever."""
import importlib
import pickle

from sim import common, kernel, pure, regmodel, runner, world

RULE_TEXT = ('A case is one simulated run: 1-4 threads of 2-10 operations of every kind (computing, rendering, look-up, '
             'definition, default units, unicode switch, reloading, pickling), between which threads take and release the '
             'display-settings lock, some calls interrupted, short of memory or disturbed by a signal handler that uses the '
             'library, and a schedule.  Non-trivial: a thread waited for a lock, held the settings lock during a call, or '
             'a fault was delivered.')
QUICK_RUNS = 9000
QUICK_WALL = 45

NAMES = sorted(pure.OPS)
WEIGHTS = pure.weights(NAMES)
RENDER = [n for n in NAMES if any(k in n for k in ('str', 'repr', 'format', 'latex', 'html', 'unicode', 'lookup', 'parse'))]
SHORT = {'churn_define', 'c_flag', 'churn_unicode', 'c_broken'}
NUMPY_CRASHES = {'argsort', 'searchsorted'}
MODULES = ['length', 'time', 'mass', 'prefixes', 'force', 'temperature']


def gen_call(rng, g, names, w):
    k = rng.random()
    if k < 0.3:
        o = pure.gen_op(g, names, w)
    elif k < 0.45:
        o = pure.gen_op(g, NAMES, WEIGHTS)
    elif k < 0.75:
        o = common.gen_churn(rng, ('define', 'define', 'default', 'unicode', 'preferred', 'lookup'), rng.randrange(2))
        if o['op'] == 'churn_define' and rng.random() < 0.4:
            # another meaning for the same name: one of them has to be refused
            o['factor'] += rng.choice([1, 2])
            o['u'] = rng.choice(['m', 's', 'J'])
        elif o['op'] == 'churn_default' and rng.random() < 0.2:
            o['kw'] = dict(o['kw'], length=rng.choice(['s', 'nosuchunit', 'm']))
    else:
        o = {'op': rng.choice(['c_render', 'c_render', 'c_render', 'c_setunits', 'c_iadd', 'c_reload', 'c_pickle', 'c_flag', 'c_rescale', 'c_rescale',
                               'c_simplified', 'c_broken', 'c_preferred', 'c_constant', 'c_labels']), 'x': rng.random(),
             'f': rng.choice(['str', 'repr', 'unicode', 'latex', 'html', 'format', 'latexmath'])}
    return o or {'op': 'nothing'}


def generate(rng, tier):
    pool = pure.make_pool(rng, large=0)
    nt = rng.choice([1, 2, 2, 3, 3, 4])
    names = rng.choices(NAMES, WEIGHTS, k=3) + [rng.choice(RENDER)]
    w = [1.0] * len(names)
    threads = []
    holder = rng.random()
    for t in range(nt):
        g = pure.Gen(rng, pool)
        prog, depth = [], 0
        for _ in range(rng.randint(2, 10)):
            k = rng.random()
            if k < 0.18 * (holder > 0.25) and depth < 3:
                prog.append({'op': 'acquire', 'how': rng.choice(['plain', 'plain', 'with', 'try', 'timeout'])})
                depth += 1
            elif k < 0.36 and depth:
                prog.append({'op': 'release'})
                depth -= 1
            else:
                o = gen_call(rng, g, names, w)
                r = rng.random()
                if o['op'] != 'nothing' and r < 0.45:
                    f = rng.choice(['interrupt', 'interrupt', 'nomem', 'alloc', 'handler', 'handler'])
                    if f == 'alloc':
                        if o['op'] not in NUMPY_CRASHES:
                            o['fault'] = ['alloc', common.alloc_at(rng), rng.choice([1, 2, 1000])]
                    else:
                        o['fault'] = [f, 1 + int(rng.choice(
                            [20, 30, 60] if o['op'] in SHORT else [20, 100, 400, 1500]) * rng.random())]
                        if f != 'handler' and rng.random() < 0.5:
                            # close to taking a lock
                            o['fault'] = [f, rng.randint(1, 9), rng.choice([0, 0, 0, 1, 2])]
                    if f == 'handler':
                        h = gen_call(rng, pure.Gen(rng, pool), names, w)
                        # handlers read; starting a definition within another one is asking for trouble
                        if h['op'] in ('churn_define', 'c_reload', 'nothing', 'c_pickle'):
                            h = {'op': 'c_render', 'x': rng.random(), 'f': rng.choice(['str', 'repr', 'unicode'])}
                        o['handler'] = h
                prog.append(o)
        threads.append(prog)
    return {'pool': pool, 'threads': threads, 'unicode': rng.random() < 0.5,
            'preferred': [rng.choice(sorted(common.FACT)) for _ in range(rng.randint(0, 3))],
            'schedule': runner.make_schedule_spec(rng, sum(map(len, threads)))}


def call(o, pool, results):
    """a function that performs the operation"""
    pq = world.pq
    n = o['op']
    if n.startswith('churn'):
        return lambda: common.call_churn(o)
    if n in pure.OPS:
        args = pure.operands(o, pool, results)
        return lambda: pure.call(o, args)
    qs = [x for x in pool if isinstance(x, pq.Quantity)]
    q = qs[int(o.get('x', 0) * len(qs))]
    f = o.get('f')
    if n == 'c_render':
        d = q.dimensionality
        return {'str': lambda: str(q), 'repr': lambda: repr(q), 'unicode': lambda: (d.unicode, d.string),
                'latex': lambda: d.latex, 'html': lambda: d.html, 'format': lambda: format(q, ''),
                'latexmath': lambda: pq.markup.format_units_latex(d, font='mathit')}[f]
    if n == 'c_setunits':
        def fn():
            y = pq.Quantity([1.0, 2.0], 'm')
            y.units = 'ft'
            try:
                y.units = 's'
            except ValueError:
                pass
            return y
        return fn
    if n == 'c_iadd':
        def fn():
            y = pq.Quantity([1.0, 2.0], 'm')
            y += 3 * pq.ft
            y *= 2 * pq.s
            try:
                y += pq.kg
            except ValueError:
                pass
            return y
        return fn
    if n == 'c_reload':
        m = importlib.import_module('quantities.units.' + MODULES[int(o['x'] * len(MODULES))])
        return lambda: importlib.reload(m).__name__
    if n == 'c_pickle':
        return lambda: pickle.loads(pickle.dumps([q, q.dimensionality, pq.m]))[0]
    if n == 'c_flag':
        return lambda: pq.markup.config.use_unicode in (True, False)
    if n == 'c_rescale':
        return lambda: (q.rescale(q.simplified.dimensionality), q.rescale('kg**7'))
    if n == 'c_simplified':
        return lambda: q.simplified
    if n == 'c_broken':
        return lambda: pq.UnitQuantity('m', 3 * pq.s, symbol='kg')
    if n == 'c_preferred':
        return lambda: q.rescale()
    if n == 'c_constant':
        return lambda: repr(pq.constants.natural_unit_of_velocity.simplified)
    if n == 'c_labels':
        return lambda: [pq.unit_registry[l].dimensionality for l in ('m', 'ft', 'kg*m', 'h/day', 'nosuchunit')]
    raise ValueError(n)


def owned(t):
    return {id(l): l.count for l in kernel.LOCKS if l.owner is t}


def execute(plan, phase, carry):
    pq = world.pq
    pq.markup.config.use_unicode = plan['unicode']
    pq.quantity.PREFERRED = [pq.unit_registry[l] for l in plan['preferred']]
    pool = [world.build(s) for s in plan['pool']]
    run = runner.Run(plan)
    lock = pq.markup.config.lock
    stats = {'holding': 0, 'handlers': 0}

    def step(t, i, o, results, state):
        n = o['op']
        before = owned(t)
        want = dict(before)
        if n == 'acquire':
            def fn():
                how = o['how']
                l = pq.markup.config.lock
                if how == 'with':
                    l.__enter__()
                    return True
                if how == 'try':
                    return l.acquire(False)
                if how == 'timeout':
                    return l.acquire(timeout=0.5)
                return l.acquire()
            r = run.call(t, i, o, fn)
            if r.exc is not None:
                run.violate('refused', '%r' % r)
                return
            if r.res:
                state['depth'] += 1
                want[id(lock)] = want.get(id(lock), 0) + 1
            elif state['depth']:
                run.violate('not-reentrant', '%r although the thread holds the lock' % r)
                return
        elif n == 'release':
            if not state['depth']:
                return
            r = run.call(t, i, o, lambda: pq.markup.config.lock.release())
            if r.exc is not None:
                run.violate('refused', '%r' % r)
                return
            state['depth'] -= 1
            want[id(lock)] -= 1
            if not want[id(lock)]:
                del want[id(lock)]
        else:
            h = None
            if 'handler' in o:
                inner = call(o['handler'], pool, {})

                def h():
                    stats['handlers'] += 1
                    try:
                        inner()
                    except Exception:
                        pass
            r = run.call(t, i, o, call(o, pool, results), handler=h)
            if state['depth']:
                stats['holding'] += 1
            if r.exc is None and n in pure.OPS and not pure.OPS[n][4]:
                results[i] = r.res
            if r.exc is not None and r.out[1] == 'RuntimeError' and 'lock' in str(r.exc):
                run.violate('lock-misused', '%r: %s' % (r, r.exc))
        now = owned(t)
        if now != want:
            names = {id(l): ('the settings lock' if l is lock else 'lock %d' % j) for j, l in enumerate(kernel.LOCKS)}
            run.violate('lock-kept', '%r: afterwards the thread holds %s, before %s' % (
                r, {names[k]: v for k, v in now.items()}, {names[k]: v for k, v in before.items()}))

    def body(t, tid, prog):
        results, state = {}, {'depth': 0}
        for i, o in enumerate(prog):
            if o['op'] == 'nothing':
                continue
            step(t, i, o, results, state)
            if run.violations:
                break
        while state['depth']:
            step(t, len(prog), {'op': 'release'}, results, state)
            if run.violations:
                return

    run.go(body)
    k = run.k
    if run.blocked():
        run.violate('blocked', run.blocked())
    elif run.inconclusive is None and not run.violations:
        for j, l in enumerate(kernel.LOCKS):
            if l.owner is not None:
                run.violate('lock-kept', 'lock %d is held after every call has ended' % j)
        # everything still works for whoever comes next
        for o in [{'op': 'c_render', 'f': 'str'}, {'op': 'c_render', 'f': 'unicode'}, {'op': 'c_labels'}, {'op': 'c_simplified'},
                  {'op': 'c_flag'}, {'op': 'c_setunits'}, {'op': 'churn_unicode', 'on': False},
                  {'op': 'churn_define', 'name': 'zznew', 'factor': 2.0, 'u': 'm', 'symbol': None, 'aliases': []},
                  {'op': 'churn_default', 'kw': {'length': 'm'}}]:
            try:
                call(o, pool, {})()
            except LookupError:
                pass
            except RuntimeError as e:
                run.violate('blocked', 'afterwards %s: %s' % (o, e))
    s = run.stats()
    return run.result(nontrivial=bool(k.n_lock_waits or stats['holding'] or s['faults']), extra=stats)
