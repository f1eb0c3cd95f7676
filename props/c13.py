"""C13: conversion to preferred units is right under concurrent reconfiguration."""
import numpy as np

from sim import common, facts, pure, runner, world

RULE_TEXT = ('A case is one simulated run: 1-4 threads of 2-8 conversions to preferred units of shared quantities, changes of '
             'the preferred list (replacement, or edits in place by one thread), of default units and the unicode setting, '
             'definitions and look-ups, some conversions interrupted or short of memory or disturbed by a signal handler '
             'that replaces the list.  Non-trivial: a conversion succeeded after or while the list changed.')
QUICK_RUNS = 12000
QUICK_WALL = 40

OWN = {'zpref_len': (7.0, 'm'), 'zpref_t': (11.0, 's'), 'zpref_e': (3.0, 'J'), 'zpref_m': (0.5, 'zpref_len')}
COMPOUND = [{'km': 1, 'h': -1}, {'cm': 1, 's': -1}, {'N': 1, 'm': 1}, {'kg': 1, 'm': 2, 's': -2}, {'m': 3}, {'cm': 3},
            {'ft': 2}, {'J': 1, 's': -1}, {'kWh': 1, 'day': -1}, {'V': 1, 'mA': 1}, {'mol': 1, 'L': -1}, {'km': 1, 's': -2},
            {'W': 1, 's': 1}, {'Pa': 1}, {'J': 1, 'mL': -1}, {'s': -1}, {'h': -1}]
USED = [g for g in facts.BIG_GROUPS if facts.FACT[g[0]][1]]
FIRST = USED[0] if USED else None


def item(rng, focus):
    """an entry of a preferred list: {label: power} and how it is given"""
    r = rng.random()
    if r < 0.55:
        return {'u': {rng.choice(focus): 1}, 'how': 'unit'}
    if r < 0.75:
        return {'u': {rng.choice(rng.choice(USED)): 1}, 'how': rng.choice(['unit', 'quantity'])}
    if r < 0.85:
        return {'u': {rng.choice(sorted(OWN)): 1}, 'how': 'unit'}
    return {'u': rng.choice(COMPOUND), 'how': rng.choice(['quantity', 'compound'])}


def source(rng, focus):
    r = rng.random()
    if r < 0.6:
        return {rng.choice(focus): 1}
    if r < 0.75:
        return {rng.choice(sorted(OWN)): 1}
    if r < 0.85:
        return {rng.choice(rng.choice(USED)): 1}
    return rng.choice(COMPOUND)


def generate(rng, tier):
    focus = [l for g in rng.sample(USED, rng.choice([1, 1, 2])) for l in g]
    pool = []
    for _ in range(rng.randint(1, 4)):
        pool.append({'u': source(rng, focus), 'sh': rng.choice([[], [], [3], [3], [2, 2], [2, 2], [0], rng.choice([[0], [70], [300]])]), 'dt': rng.choice(['f8', 'f8', 'f8', 'i8', 'f4', 'c16']),
                     'uq': rng.random() < 0.2, 'unit': rng.random() < 0.1, 'v': [rng.choice([1, 2, -3, 5, 0, 100]) for _ in range(4)]})
    nt = rng.choice([1, 2, 2, 3, 4])
    inplace = rng.random() < 0.3
    threads = []
    for t in range(nt):
        prog = []
        w = rng.choice([0.05, 0.3, 0.6])
        for _ in range(rng.randint(2, 8)):
            r = rng.random()
            if r < w and (not inplace or t == 0):
                k = rng.choice(['append', 'insert', 'pop', 'clear', 'reverse']) if inplace and rng.random() < 0.7 else 'set'
                prog.append({'op': 'set', 'how': k, 'list': [item(rng, focus) for _ in range(rng.randint(0, 4))],
                             'tuple': rng.random() < 0.1 and not inplace, 'same': rng.random() < 0.25})
            elif r < w + 0.12:
                prog.append(common.gen_churn(rng, ('define', 'default', 'default', 'default', 'unicode', 'lookup')))
            elif r < w + 0.16:
                prog.append({'op': 'plain', 'q': rng.randrange(len(pool)), 'x': item(rng, focus)})
            else:
                o = {'op': rng.choice(['rescale', 'rescale_preferred']), 'q': rng.randrange(len(pool))}
                if rng.random() < 0.2:
                    f = rng.choice(['interrupt', 'nomem', 'alloc', 'handler'])
                    o['fault'] = ['alloc', common.alloc_at(rng), rng.choice([1, 2])] if f == 'alloc' else [f, 1 + int(
                        rng.choice([10, 40, 150, 1300]) * rng.random())]
                    if f == 'handler':
                        if inplace:
                            o.pop('fault')
                        else:
                            o['handler'] = [item(rng, focus) for _ in range(rng.randint(0, 3))]
                prog.append(o)
        threads.append(prog)
    return {'pool': pool, 'threads': threads, 'forget': not inplace and rng.random() < 0.4, 'initial': [item(rng, focus) for _ in range(rng.randint(0, 4))],
            'unicode': rng.random() < 0.3, 'default': common.gen_churn(rng, ('default',)) if rng.random() < 0.4 else None,
            'schedule': runner.make_schedule_spec(rng, sum(map(len, threads)))}


SIZES = {}


def meaning(u):
    """(size, base dimensions) of {label: power}"""
    f, b = 1.0, {}
    for l, p in u.items():
        ff, bb = SIZES[l]
        f *= ff ** p
        for k, v in bb.items():
            b[k] = b.get(k, 0) + v * p
    return f, {k: v for k, v in b.items() if v}


def prepare(plan):
    pq = world.pq
    SIZES.update(facts.FACT)
    for l, (f, u) in OWN.items():
        pq.UnitQuantity(l, f * pq.unit_registry[u])
        s, b = SIZES[u]
        SIZES[l] = (f * s, b)
    if plan['default']:
        common.call_churn(plan['default'])
    pq.markup.config.use_unicode = plan['unicode']


def make(it):
    pq = world.pq
    d = {}
    u = it['u']
    for l, p in u.items():
        d[pq.unit_registry[l]] = p
    if it['how'] == 'unit':
        return list(d)[0]
    if it['how'] == 'compound':
        return pq.CompoundUnit('*'.join('%s**%d' % (l, p) for l, p in u.items()))
    return pq.Quantity(1.0, pq.dimensionality.Dimensionality(d))


def build(s):
    pq = world.pq
    d = {pq.unit_registry[l]: p for l, p in s['u'].items()}
    if s['unit'] and len(d) == 1 and list(d.values()) == [1]:
        return list(d)[0]
    n = int(np.prod(s['sh'])) if s['sh'] else 1
    v = world.tile(np.array(s['v'][:n], dtype='f8' if s['uq'] else s['dt']), s['sh'])
    d = pq.dimensionality.Dimensionality(d)
    if s['uq']:
        return pq.UncertainQuantity(v, d, pq.Quantity(abs(v) / 8 + 0.5, d))
    return pq.Quantity(v, d, v.dtype)


def key_of(it):
    """units of an entry, as in a dimensionality"""
    u = it['u']
    if it['how'] == 'compound':
        return {world.ukey(make(it)): 1.0}
    return {world.ukey(world.pq.unit_registry[l]): float(p) for l, p in u.items()}


def value(x):
    return np.ndarray.view(x, np.ndarray)


def close(a, b, rt):
    a, b = pure.wide(np.asarray(a)), pure.wide(np.asarray(b))
    if a.shape != b.shape:
        return False
    with np.errstate(all='ignore'):
        return bool(np.all(abs(a - b) <= rt * abs(b)))


def execute(plan, phase, carry):
    pq = world.pq
    prepare(plan)
    pool = [build(s) for s in plan['pool']]
    before = [world.canon(x) for x in pool]
    lists = {}              # what each list that was in force contains
    keep = []
    # the lists and what is in them cease to exist once they are replaced
    forget = plan.get('forget')

    def new_list(spec, tup=False):
        l = [make(it) for it in spec]
        l = tuple(l) if tup else l
        if not forget:
            keep.append((l, [id(x) for x in l]))
        return l

    cur = {'spec': list(plan['initial'])}
    first = new_list(plan['initial'])
    pq.quantity.PREFERRED = first
    del first
    inplace = any(o.get('how', 'set') != 'set' for p in plan['threads'] for o in p if o['op'] == 'set')
    writes = []             # (begin, end, list of specs, certain)
    run = runner.Run(plan)
    convs = []

    def change(t, i, o):
        spec, how = o['list'], o['how']
        if how == 'set':
            if o['same'] and cur['spec']:
                spec = list(reversed(cur['spec']))
            l = new_list(spec, o['tuple'])

            def fn():
                pq.quantity.PREFERRED = box.pop()
            box = [l]
            del l
        else:
            spec, more = list(cur['spec']), spec[:1]
            xs = [make(it) for it in more]
            target = pq.quantity.PREFERRED
            if isinstance(target, tuple):
                return
            if how == 'append':
                spec += more
                fn = lambda: target.extend(xs)
            elif how == 'insert':
                spec[:0] = more
                fn = lambda: target.__setitem__(slice(0, 0), xs)
            elif how == 'pop':
                if not spec:
                    return
                spec.pop()
                fn = lambda: target.pop() and None
            elif how == 'reverse':
                spec.reverse()
                fn = target.reverse
            else:
                spec = []
                fn = target.clear
        r = run.call(t, i, o, fn)
        cur['spec'] = spec
        writes.append((r.b, r.e, spec, True))

    def body(t, tid, prog):
        for i, o in enumerate(prog):
            n = o['op']
            if n == 'nothing':
                continue
            if n.startswith('churn'):
                run.call(t, i, o, lambda: common.call_churn(o))
                continue
            if n == 'set':
                change(t, i, o)
                continue
            q = pool[o['q']]
            if n == 'plain':
                x = make(o['x'])
                r = run.call(t, i, o, lambda: q.rescale(x))
                continue
            h = None
            if 'handler' in o:
                def h():
                    pq.quantity.PREFERRED = new_list(o['handler'])
                    run.tick += 1
                    writes.append((run.tick, run.tick, o['handler'], True))
                    run.tick += 1
            r = run.call(t, i, o, q.rescale if n == 'rescale' else q.rescale_preferred, errstate={'all': 'ignore'}, handler=h)
            convs.append(r)

    run.go(body)
    if run.blocked():
        run.violate('blocked', run.blocked())
    good = 0
    if run.inconclusive is None and not run.violations:
        for r in convs:
            good += judge(run, r, plan, pool, writes)
        for i, (x, b) in enumerate(zip(pool, before)):
            if world.canon(x) != b:
                run.violate('operand-changed', 'operand %d: %s, was %s' % (i, world.short(world.canon(x)), world.short(b)))
        last = pq.quantity.PREFERRED
        if not forget and not any(last is l for l, ids in keep):
            run.violate('list-changed', 'the preferred list is not the one that was set')
        if not inplace:
            for l, ids in keep:
                if [id(x) for x in l] != ids:
                    run.violate('list-changed', 'a preferred list was altered')
        elif len(last) != len(cur['spec']):
            run.violate('list-changed', 'the preferred list has %d entries instead of %d' % (len(last), len(cur['spec'])))
    return run.result(nontrivial=good and bool(writes), extra={'converted': good})


def judge(run, r, plan, pool, writes):
    pq = world.pq
    spec = plan['pool'][r.op['q']]
    q = pool[r.op['q']]
    options = runner.admissible(writes, plan['initial'], r.b, r.e)
    f0, b0 = meaning(spec['u'])
    targets, none = [], False
    for specs in options:
        for it in specs:
            f, b = meaning(it['u'])
            if b == b0:
                targets.append((key_of(it), f))
                break
        else:
            none = True
    if r.exc is not None:
        if none or r.fired and r.fired != 'handler':
            return 0
        run.violate('refused', '%r: %s; compatible entries %s' % (r, str(r.exc)[:100], targets))
        return 0
    res = r.res
    if not isinstance(res, pq.Quantity):
        run.violate('wrong-type', '%r' % r)
        return 0
    u = world.units_of(res.dimensionality)
    ok = [f for k, f in targets if k == u]
    if not ok:
        run.violate('wrong-units', '%r: units %s; admissible: %s%s' % (r, u, [k for k, f in targets], ' or none' if none else ''))
        return 0
    f = f0 / ok[0]
    rt = 1e-9 if spec['dt'] != 'f4' else 1e-5
    if not close(value(res), pure.wide(value(q)) * f, rt):
        run.violate('wrong-value', '%r: %s instead of %s' % (r, value(res).tolist(), (pure.wide(value(q)) * f).tolist()))
    elif isinstance(q, pq.UncertainQuantity):
        if not isinstance(res, pq.UncertainQuantity) or not close(value(res.uncertainty), value(q.uncertainty) * f, rt) \
                or world.units_of(res.uncertainty.dimensionality) != u:
            run.violate('wrong-uncertainty', '%r of +- %s' % (r, value(q.uncertainty).tolist()))
    if isinstance(q, np.ndarray) and np.shares_memory(value(res), value(q)):
        run.violate('shared', '%r shares storage with its source' % r)
    if isinstance(q, pq.UncertainQuantity) and isinstance(res, pq.UncertainQuantity) \
            and np.shares_memory(value(res.uncertainty), value(q.uncertainty)):
        run.violate('shared', '%r shares its uncertainty with its source' % r)
    return 1
