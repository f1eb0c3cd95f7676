"""C04: default-unit changes are safe, immediate and all-or-nothing."""
import importlib

import numpy as np

from props import c01
from sim import common, facts, pure, runner, world
from sim.facts import FACT, GROUPS

RULE_TEXT = ('A case is one simulated run: 2-4 threads of 2-8 operations on shared operands: simplifications, valid, '
             'invalid and interrupted changes of the default units (several dimensions at once, whole systems, single '
             'classes), conversions and comparisons, and a schedule.  Non-trivial: operations overlapped.')
QUICK_RUNS = 7000
QUICK_WALL = 50

OTHER = sorted(n for n in pure.OPS if n.startswith('rescale_') or n in (
    'lt', 'gt', 'le', 'ge', 'eq', 'ne', 'add', 'sub', 'mul', 'div', 'quantity_of', 'np_arctan2', 'np_hypot',
    'cumsum', 'sum', 'units', 'item', 'lookup', 'dims_lt', 'dims_le', 'dims_gt', 'dims_ge', 'dims_eq', 'dims_add'))
OTHER = [n for n in OTHER if n in pure.OPS and 'defaults' not in pure.OPS[n][4]]
OTHER_W = pure.weights(OTHER)
COMPARE = [n for n in OTHER if n in ('lt', 'gt', 'le', 'ge', 'eq', 'ne') or n.startswith(('rescale_', 'dims_'))]
COMPARE_W = [1] * len(COMPARE)
# keyword: class name; the order is the one of the signature
KW = {kw: cls for cls, kw in facts.BASE.values()}
BASE_OF = {kw: b for b, (cls, kw) in facts.BASE.items()}
SYSTEMS = {'si': {'A': 'A', 'm': 'm', 'kg': 'kg', 'cd': 'cd', 'mol': 'mol', 'K': 'K', 's': 's'},
           'cgs': {'m': 'cm', 'kg': 'g', 'cd': 'cd', 'mol': 'mol', 'K': 'K', 's': 's'}}


MONEY = {'zzdollar': 1.0, 'zzcent': 0.01, 'zzeuro': 1.25, 'zzgrand': 1000.0}


def with_currency(define):
    """from now on, this process knows of money too"""
    b = 'zzdollar'
    if b not in facts.BASE:
        facts.BASE[b] = ('UnitCurrency', 'currency')
        KW['currency'] = 'UnitCurrency'
        BASE_OF['currency'] = b
        for l, f in MONEY.items():
            FACT[l] = (f, {b: 1})
            world.KEY[l] = l
            world.SIZE[l] = FACT[l]
        GROUPS[((b, 1),)] = sorted(MONEY)
        for _ in range(6):
            facts.BIG_GROUPS.append(sorted(MONEY))
    if define:
        cls = world.pq.UnitCurrency
        d = cls(b)
        for l, f in MONEY.items():
            if l != b:
                cls(l, f * d)


def gen_value(rng, b):
    """a unit for dimension b: [how, label or expression, {label: power}]"""
    l = rng.choice(GROUPS[((b, 1),)])
    how = rng.choice(['str', 'str', 'unit', 'quantity', 'expr', 'mutated'])
    if b == 's' and rng.random() < 0.15:
        return ['expr', '1/Hz', {'Hz': -1}]
    if how == 'expr':
        k = rng.choice(GROUPS[((b, 1),)])
        if k != l and rng.random() < 0.4 and 1e-6 < FACT[l][0] / FACT[k][0] < 1e6:
            return [how, '%s**2/%s' % (l, k), {l: 2, k: -1}]
        return [how, rng.choice(['%s*V/V', '%s**2/%s', '1*%s']).replace('%s', l), {l: 1}]
    return [how, l, {l: 1}]


def gen_bad(rng, b):
    r = rng.random()
    if r < 0.3:
        return ['str', 'nosuchunit', None]
    if r < 0.6:
        other = rng.choice([x for x in sorted(facts.BASE) if x != b])
        return [rng.choice(['str', 'unit', 'quantity']), rng.choice(GROUPS[((other, 1),)]), None]
    if r < 0.75:
        return ['twice', rng.choice(GROUPS[((b, 1),)]), None]
    if r < 0.85:
        return ['square', rng.choice(GROUPS[((b, 1),)]), None]
    return [rng.choice(['number', 'list', 'object']), None, None]


def gen_change(rng, bases, dims=None):
    r = rng.random()
    o = {'op': 'change', 'system': None, 'kw': {}, 'ok': True}
    if r < 0.2:
        b = rng.choice(bases)
        bad = rng.random() < 0.3
        o.update(op='class_change', base=b, to=gen_bad(rng, b) if bad else gen_value(rng, b), ok=not bad)
        return o
    if rng.random() < 0.3:
        o['system'] = rng.choice(['SI', 'cgs', 'si', 'CGS'])
    for b in rng.sample(sorted(facts.BASE), rng.choice([1, 1, 2, 3, 4])) if rng.random() < 0.3 else \
            rng.sample(bases, rng.randint(1, len(bases))):
        o['kw'][facts.BASE[b][1]] = gen_value(rng, b)
    if rng.random() < 0.35:
        o['ok'] = False
        r = rng.random()
        if r < 0.1:
            o['system'] = rng.choice(['mks', 'imperial'])
        elif r < 0.2:
            o['kw']['currency'] = ['str', 'm', None]
        else:
            kw = rng.choice(sorted(o['kw'])) if rng.random() < 0.3 else rng.choice(sorted(BASE_OF))
            o['kw'][kw] = gen_bad(rng, BASE_OF[kw])
    if rng.random() < 0.12:
        o['fault'] = [rng.choice(['interrupt', 'nomem']), common.step_at(rng)]
    elif rng.random() < 0.05:
        o['fault'] = ['alloc', common.alloc_at(rng)]
    return o


def generate(rng, tier):
    money = rng.random() < 0.2
    if money:
        with_currency(False)
    pool = pure.make_pool(rng)
    pool.append({'t': 'd', 'u': pure.pick_units(rng, pure.make_family(rng)), 'f': None})
    nt = rng.choice([2, 2, 3, 4])
    used = set()
    for s in pool:
        for l in s.get('u', ()):
            if l in facts.FACT:
                used |= set(facts.FACT[l][1])
    bases = sorted(used) or ['m']
    threads = []
    for t in range(nt):
        g = pure.Gen(rng, pool)
        prog = []
        mostly = rng.choice(['change', 'simplify', 'mixed', 'mixed', 'compare'])
        for _ in range(rng.randint(2, 8)):
            r = rng.random()
            if r < {'change': 0.7, 'simplify': 0.1, 'mixed': 0.35, 'compare': 0.15}[mostly]:
                prog.append(gen_change(rng, bases))
            elif r < (0.4 if mostly == 'compare' else 0.85):
                prog.append({'op': 'simplify', 'a': [rng.choice([i for i, s in enumerate(pool) if s['t'] in 'qudu' or s['t'] == 'uq'])]})
            elif mostly != 'compare' and r < 0.87:
                prog.append({'op': 'reload', 'mod': rng.choice(['length', 'mass', 'time', 'energy', 'information'])})
            elif mostly != 'compare' and r < 0.89:
                b = rng.choice(sorted(facts.BASE))
                prog.append({'op': 'define', 'cls': b, 'name': 'zz%s%d' % (b, rng.randrange(3))})
            else:
                o = pure.gen_op(g, *(COMPARE, COMPARE_W) if mostly == 'compare' else (OTHER, OTHER_W))
                if o is None:
                    continue
                o['pure'] = True
                o['a'] = [a[2] if isinstance(a, list) else a for a in o['a']]
                prog.append(o)
        threads.append(prog)
    return {'pool': pool, 'threads': threads, 'money': money,
            'schedule': runner.make_schedule_spec(rng, sum(map(len, threads)))}


def value(v):
    pq = world.pq
    how, l, _ = v
    if how in ('str', 'expr'):
        return l
    if how == 'unit':
        return pq.unit_registry[l]
    if how in ('quantity', 'mutated'):
        return pq.Quantity(1.0, l)
    if how == 'twice':
        return pq.Quantity(2.0, l)
    if how == 'square':
        return pq.Quantity(1.0, l + '**2')
    return {'number': 5, 'list': [1, 2], 'object': object()}[how]


def call(o, pool):
    pq = world.pq
    n = o['op']
    if n == 'simplify':
        return pool[o['a'][0]].simplified
    if n == 'reload':
        importlib.reload(importlib.import_module('quantities.units.' + o['mod']))
        return None
    if n == 'define':
        b = o['cls']
        return getattr(pq, facts.BASE[b][0])(o['name'], (2.0 + int(o['name'][-1])) * pq.unit_registry[b])
    if n == 'class_change':
        x = value(o['to'])
        getattr(pq, facts.BASE[o['base']][0]).set_default_unit(x)
        spoil(o['to'], x)
        return None
    if n == 'change':
        kw = {k: value(v) for k, v in o['kw'].items()}
        pq.set_default_units(system=o['system'], **kw) if o['system'] else pq.set_default_units(**kw)
        for k, x in kw.items():
            spoil(o['kw'][k], x)
        return None
    return pure.call(o, pure.operands(o, pool, {}))


def spoil(v, x):
    """the caller goes on using the quantity it gave away"""
    if v[0] == 'mutated':
        x *= 3.0
        x.units = {'m': 'mm', 'kg': 'mg', 's': 'h'}.get(v[1], v[1])


def as_value(u):
    return tuple(sorted((k, p) for k, p in world.key_units(u).items()))


def current(cls):
    u = getattr(world.pq, cls).get_default_unit()
    return tuple(sorted(world.units_of(u.dimensionality).items()))


def writes_of(recs):
    """{base: [(begin, end or None, value, certain, transient)]}"""
    w = {b: [] for b in facts.BASE}
    for r in recs:
        o = r.op
        if o['op'] not in ('change', 'class_change') or not o['ok']:
            continue
        if r.out[0] == 'E' and not r.fired:
            continue        # judged elsewhere
        ok = r.out[0] != 'E'
        if o['op'] == 'class_change':
            w[o['base']].append((r.b, r.e if ok else None, as_value(o['to'][2]), ok, False))
            continue
        last = {BASE_OF[k]: v[2] for k, v in o['kw'].items()}
        if o['system']:
            for b, l in SYSTEMS[o['system'].lower()].items():
                w[b].append((r.b, r.e if ok else None, as_value({l: 1}), ok, b in last and ok))
        for b, u in last.items():
            w[b].append((r.b, r.e if ok else None, as_value(u), ok, False))
    return w


def admissible(writes, initial, b, e):
    ws = [w for w in writes if not w[4] or (w[0] <= e and w[1] >= b)]
    return set(runner.admissible([w[:4] for w in ws], initial, b, e))


def judge(run, x, res, defaults, what):
    """defaults: {base: admissible values}"""
    pq = world.pq
    if isinstance(x, pq.dimensionality.Dimensionality):
        if not isinstance(res, pq.dimensionality.Dimensionality):
            return '%s gave a %s' % (what, type(res).__name__)
        units, src = world.units_of(res), world.units_of(x)
    else:
        c = c01.physical(x, res)
        if c:
            return '%s: %s' % (what, c)
        units = world.units_of(res.dimensionality)
        src = world.units_of(x.dimensionality) if type(x).__name__ != 'Dimensionless' else {}
        if isinstance(x, pq.UncertainQuantity):
            if not isinstance(res, pq.UncertainQuantity):
                return '%s lost its uncertainty' % what
            c = c01.physical(x.uncertainty, res.uncertainty)
            if c:
                return '%s: uncertainty: %s' % (what, c)
    units = {k: p for k, p in units.items() if abs(p) > 1e-9}
    base, got = world.base_of(src), world.base_of(units)
    if got != base:
        return '%s has dimension %s instead of %s' % (what, got, base)
    all_bases = {b for k in src for b in world.SIZE[k][1]}
    if all(len(defaults[b]) == 1 for b in all_bases):
        want = {}
        for b, p in base.items():
            for k, q in next(iter(defaults[b])):
                want[k] = want.get(k, 0) + q * p
        if set(want) != set(units) or any(abs(want[k] - units[k]) > 1e-9 for k in want):
            return '%s has units %s instead of %s' % (what, units, want)
    else:
        ok = {k for b in all_bases for v in defaults[b] for k, _ in v}
        if set(units) - ok:
            return '%s has units %s; the defaults during the call were %s' % (
                what, units, {b: sorted(defaults[b]) for b in all_bases})
    return None


def execute(plan, phase, carry):
    if plan.get('money'):
        with_currency(True)
    pool = [world.build(s) for s in plan['pool']]
    before = [world.canon(x) for x in pool]
    initial = {b: current(c) for b, (c, _) in facts.BASE.items()}
    run = runner.Run(plan)

    def body(t, tid, prog):
        for i, o in enumerate(prog):
            if o['op'] != 'nothing':
                run.call(t, i, o, lambda: call(o, pool))

    run.go(body)
    changes = 0
    if run.inconclusive is None:
        w = writes_of(run.recs)
        for r in run.recs:
            o = r.op
            n = o['op']
            if n in ('change', 'class_change'):
                changes += r.out[0] != 'E'
                if o['ok'] and r.out[0] == 'E' and not r.fired:
                    run.violate('change-refused', repr(r) + ' %s' % o)
                if not o['ok'] and r.out[0] != 'E':
                    run.violate('change-accepted', '%r although %s is no set of defaults' % (r, o))
            elif n == 'simplify':
                if r.out[0] == 'E':
                    run.violate('raises', '%r of %s: %r' % (r, world.short(before[o['a'][0]]), r.exc))
                    continue
                adm = {b: admissible(w[b], initial[b], r.b, r.e) for b in facts.BASE}
                c = judge(run, pool[o['a'][0]], r.res, adm, '%r of %s' % (r, world.short(before[o['a'][0]])))
                if c:
                    run.violate('simplified-wrong', c)
            elif o.get('pure'):
                args = pure.operands(o, pool, {})
                c = pure.judge(o, args, r.out, r.res)
                if c is None and r.out[0] == 'E' and n in c01.STRONG and not any(
                        isinstance(a, world.pq.UncertainQuantity) for a in args) and \
                        pure.expected(o, args) not in (None, pure.Incompatible):
                    c = 'raised'
                if c:
                    run.violate('depends-on-defaults', '%r: %s' % (r, c))
            elif r.out[0] == 'E':
                run.violate('raises', '%r: %r' % (r, r.exc))
        end = run.tick + 1
        final = {}
        for b, (cls, _) in facts.BASE.items():
            adm = admissible(w[b], initial[b], end, end)
            final[b] = {current(cls)}
            if not final[b] <= adm:
                run.violate('default-lost', 'the default of %s is %s, should be %s' % (cls, final[b], sorted(adm)))
        if not run.violations:
            probes = list(range(len(pool)))
            for i in probes:
                x = pool[i]
                if not hasattr(x, 'simplified'):
                    continue
                try:
                    res = x.simplified
                except Exception as e:
                    run.violate('raises', 'afterwards %s.simplified: %r' % (world.short(before[i]), e))
                    break
                c = judge(run, x, res, final, 'afterwards %s.simplified = %s' % (world.short(before[i]), world.short(world.canon(res))))
                if c:
                    run.violate('simplified-wrong', c)
        for i, (x, b) in enumerate(zip(pool, before)):
            if world.canon(x) != b:
                run.violate('operand-changed', 'operand %d: %s, was %s' % (i, world.short(world.canon(x)), world.short(b)))
    return run.result(nontrivial=run.stats()['overlaps'] > 0)
