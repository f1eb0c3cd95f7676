"""C10: units and constants are immutable."""
import copy
import operator
import pickle
import random

import numpy as np

from sim import common, facts, pure, runner, world

RULE_TEXT = ('A case is one simulated run: 1-3 threads obtain objects from units, constants, compound and freshly '
             'defined units (definition, simplified form, copies, views, products ...) by chains of 0-3 steps and attack '
             'them: in-place operators, assignments, mutating methods, as output of numpy functions, some of them '
             'interrupted or with failing allocations; the quantities, arrays and lists that units were defined from are '
             'attacked too.  Non-trivial: an attack changed the object it was made on.')
QUICK_RUNS = 9000
QUICK_WALL = 50

STEPS = ['definition', 'simplified', 'units', 'dimensionality', 'magnitude', 'copy', 'copy.copy', 'deepcopy', 'pickle',
         'times', 'plus', 'minus', 'over', 'rover', 'pow', 'pow1', 'neg', 'abs', 'same', 'rescale', 'astype', 'nocopy',
         'view', 'viewq', 'reshape', 'T', 'getitem', 'newaxis', 'real', 'imag', 'squeeze', 'flatten', 'ravel', 'array',
         'asarray', 'Quantity', 'QuantityU', 'punits', 'key', 'tolist', 'sum', 'max', 'sqrt', 'base', 'reference',
         'dsimplified', 'list', 'prod', 'uncertain', 'round', 'mean', 'times1', 'broadcast', 'dpow', 'dmul', 'uncertainty']
ARITHMETIC = {'times', 'plus', 'minus', 'over', 'rover', 'pow', 'pow1', 'neg', 'abs', 'sqrt', 'times1'}
ATTACKS = ['iadd', 'isub', 'imul', 'itruediv', 'ifloordiv', 'imod', 'ipow', 'units', 'real', 'imag', 'set', 'setempty',
           'fill', 'put', 'sort', 'resize', 'partition', 'byteswap', 'copyto', 'npput', 'out_add', 'out_mul', 'out_sum',
           'out_round', 'out_clip', 'place', 'setfield', 'name', 'symbol', 'definition', 'uncertainty', 'ior', 'out_square',
           'imul1', 'iadd0', 'ipow1', 'dimensionality', 'magnitude', 'flat']
DICT_ATTACKS = ['set', 'del', 'imul', 'itruediv', 'ipow', 'iadd', 'clear', 'pop', 'update', 'setdefault', 'popitem', 'ior']
# attacks on a unit itself that could leave it as it is
MAY_PASS = set()


# ---------------------------------------------------------------- generation

def generate(rng, tier):
    subjects = []
    for _ in range(rng.randint(1, 4)):
        r = rng.random()
        if r < 0.55:
            subjects.append({'k': 'label', 'l': rng.choice(sorted(facts.FACT))})
        elif r < 0.65:
            subjects.append({'k': 'label', 'l': rng.choice(sorted(world.CONSTANTS) + ['C:' + n for n in MORE])})
        elif r < 0.75:
            subjects.append({'k': 'label', 'l': rng.choice(sorted(world.COMPOUNDS) + ['dimensionless'])})
        else:
            n = 'zz%d' % len(subjects)
            subjects.append({'k': 'new', 'name': n, 'cls': rng.choice(['UnitQuantity', 'UnitQuantity', 'UnitConstant',
                                                                       'length', 'CompoundUnit']),
                             'from': rng.choice(['quantity', 'array', 'readonly', 'unit', 'number', 'product', 'uq']),
                             'x': rng.choice([5.0, 2.0, 1.0, 0.25]), 'u': rng.choice(['m', 'km', 'ft']),
                             'symbol': rng.choice([None, n + 'S']), 'u_symbol': rng.choice([None, 'µ' + n]),
                             'aliases': [n + 'a'] if rng.random() < 0.5 else []})
    threads = []
    for t in range(rng.choice([1, 1, 2, 3])):
        prog = []
        for _ in range(rng.randint(3, 12)):
            o = {'op': 'attack', 's': rng.randrange(len(subjects)),
                 'chain': [rng.choice(STEPS) for _ in range(rng.choice([0, 0, 1, 1, 1, 2, 3]))],
                 'a': rng.choice(ATTACKS), 'd': rng.choice(DICT_ATTACKS), 'x': rng.random(),
                 'n': rng.choice([2, 2, 3, 0.5, -1])}
            if subjects[o['s']]['k'] == 'new' and rng.random() < 0.35:
                o['chain'] = ['source'] + o['chain'][1:]
            if rng.random() < 0.12:
                o['chain'] = ['definition'] + o['chain'][:2]
            if subjects[o['s']].get('from') == 'uq' and rng.random() < 0.3:
                o['chain'] = rng.choice([['definition', 'uncertainty'], ['source', 'uncertainty'], ['definition']]) + o['chain'][1:]
            if rng.random() < 0.2:
                k = rng.choice(['interrupt', 'nomem', 'alloc'])
                o['fault'] = ['alloc', common.alloc_at(rng, 50), rng.choice([1, 2])] if k == 'alloc' else [k, common.step_at(rng, 500)]
            prog.append(o)
        threads.append(prog)
    if rng.random() < 0.3:
        threads.append([common.gen_churn(rng, ('define', 'default', 'unicode', 'preferred', 'lookup'))
                        for _ in range(rng.randint(2, 6))])
    return {'subjects': subjects, 'threads': threads, 'labels': rng.randrange(1 << 30), 'all': rng.random() < 0.02,
            'schedule': runner.make_schedule_spec(rng, sum(map(len, threads)))}


MORE = ['Planck_constant', 'elementary_charge', 'Bohr_radius', 'electron_volt', 'Avogadro_constant']


# ---------------------------------------------------------------- what a unit denotes

def full(u):
    """everything public about a unit; called while nothing else runs"""
    pq = world.pq
    out = [world.unit_facts(u), hash(u), u.dtype.str, u.shape, float(u), u.flags.writeable]
    for on in (False, True):
        pq.markup.config.use_unicode = on
        out.append([str(u), repr(u), u.name, u.symbol, u.u_symbol, u.dimensionality.string, u.dimensionality.latex,
                    u.dimensionality.html, u.dimensionality.unicode])
    pq.markup.config.use_unicode = False
    r = u.__reduce__()
    out.append([r[0].__name__, [world.canon(x) for x in r[1]], world.canon(r[2])])
    out.append(world.canon(u.definition if u.definition is not u else None))
    out.append(world.canon((1 * u).rescale(u)))
    out.append(world.canon(1 * u == u))
    return out


def meaning(u):
    """its size in terms of the first units; depends on the default units"""
    try:
        return world.canon(u.simplified), world.canon((2.0 * u).simplified)
    except ValueError as e:         # statampere
        return world.canon_exc(e)


# ---------------------------------------------------------------- subjects

class Subject:

    def __init__(self, s):
        pq = world.pq
        self.sources = []
        if s['k'] == 'label':
            self.u = world.unit_object(s['l'])
            return
        x, u = s['x'], pq.unit_registry[s['u']]
        how = s['from']
        if how == 'array':
            a = np.array(x)
            d = pq.Quantity(a, u.dimensionality)
            self.sources += [a, d, d[...]]
        elif how == 'readonly':
            a = np.array([x, 1.0])
            d = pq.Quantity(a, u.dimensionality)[0, ...]
            d.flags.writeable = False
            self.sources += [a]
        elif how == 'unit':
            d = u
        elif how == 'number':
            d = x
        elif how == 'product':
            d = pq.CompoundUnit('%s*s' % s['u'])
            d = d * x
            self.sources.append(d)
        elif how == 'uq':
            d = pq.UncertainQuantity(x, u, 0.1)
            self.sources += [d, d.uncertainty]
        else:
            d = x * u
            self.sources += [d]
        if s['cls'] == 'CompoundUnit':
            d2 = d if isinstance(d, pq.Quantity) else x * u
            self.u = pq.CompoundUnit('%s*kg' % s['u'], d2)
            return
        cls = {'length': 'UnitQuantity' if how in ('number', 'product') else 'UnitLength'}.get(s['cls'], s['cls'])
        aliases = list(s['aliases'])
        self.u = getattr(pq, cls)(s['name'], d, symbol=s['symbol'], u_symbol=s['u_symbol'], aliases=aliases)
        self.sources.append(aliases)


# ---------------------------------------------------------------- obtaining

def obtain(step, x, subject, o):
    pq = world.pq
    if step == 'source':
        return subject.sources[int(o['x'] * len(subject.sources))] if subject.sources else x
    if step == 'pickle':
        return pickle.loads(pickle.dumps(x, 2))
    if step == 'copy.copy':
        return copy.copy(x)
    if step == 'deepcopy':
        return copy.deepcopy(x)
    if step == 'copy':
        return x.copy()
    if step == 'list':
        return copy.deepcopy({'a': [x]})['a'][0]
    if isinstance(x, pq.dimensionality.Dimensionality):
        if step == 'key':
            return next(iter(x)) if x else x
        if step in ('dsimplified', 'simplified'):
            return x.simplified
        if step == 'dpow':
            return x ** 1
        if step == 'dmul':
            return x * pq.dimensionality.Dimensionality()
        return x
    if not isinstance(x, np.ndarray):
        return x
    if step == 'magnitude' and isinstance(x, pq.Quantity):
        return x.magnitude
    if step == 'array':
        return np.array(x)
    if step == 'asarray':
        return np.asarray(x)
    if step == 'base':
        return x.base if isinstance(x.base, np.ndarray) else x
    if step == 'view':
        return x.view()
    if step == 'viewq':
        return x.view(pq.Quantity)
    if step == 'reshape':
        return x.reshape(1)
    if step == 'T':
        return x.T
    if step == 'getitem':
        return x[()]
    if step == 'newaxis':
        return x[None]
    if step == 'flatten':
        return x.flatten()
    if step == 'ravel':
        return x.ravel()
    if step == 'broadcast':
        return np.broadcast_to(x, (2,), subok=True)
    if not isinstance(x, pq.Quantity):
        return x
    if step == 'definition':
        return x.definition if isinstance(x, pq.UnitQuantity) else x
    if step in ('simplified', 'units', 'dimensionality'):
        return getattr(x, step)
    if step == 'uncertainty':
        return getattr(x, 'uncertainty', x)
    if step == 'reference':
        return (1 * x)._reference
    if step == 'dsimplified':
        return x.dimensionality.simplified
    if step == 'times':
        return 2 * x
    if step == 'times1':
        return x * 1
    if step == 'prod':
        return x * pq.m / pq.m
    if step == 'plus':
        return x + x
    if step == 'minus':
        return x - 0 * x
    if step == 'over':
        return x / pq.s
    if step == 'rover':
        return 1 / x
    if step == 'pow':
        return x ** 2
    if step == 'pow1':
        return x ** 1
    if step == 'sqrt':
        return x ** 0.5
    if step == 'neg':
        return -x
    if step == 'abs':
        return abs(x)
    if step == 'same':
        return x.rescale(x.units) if x.shape == () else x.rescale(x.dimensionality)
    if step == 'rescale':
        return x.rescale(x.simplified.dimensionality)
    if step == 'astype':
        return x.astype('f8')
    if step == 'nocopy':
        return x.astype('f8', copy=False)
    if step == 'real':
        return x.real
    if step == 'imag':
        return x.imag
    if step == 'squeeze':
        return x.squeeze()
    if step == 'Quantity':
        return pq.Quantity(x)
    if step == 'QuantityU':
        return pq.Quantity([1.0, 2.0], x if isinstance(x, pq.UnitQuantity) else x.dimensionality)
    if step == 'punits':
        return (3 * x).units
    if step == 'key':
        return next(iter(x.dimensionality), x)
    if step == 'tolist':
        return x.tolist()
    if step in ('sum', 'max', 'mean', 'round'):
        return getattr(x, step)()
    if step == 'uncertain':
        return pq.UncertainQuantity(2 * x, uncertainty=0.1 * x)
    return x


# ---------------------------------------------------------------- attacking

INPLACE = {'iadd': operator.iadd, 'isub': operator.isub, 'imul': operator.imul, 'itruediv': operator.itruediv,
           'ifloordiv': operator.ifloordiv, 'imod': operator.imod, 'ior': operator.ior}


def attack(x, o):
    """tries to change x in place"""
    pq = world.pq
    if isinstance(x, list):
        x.append('zzother')
        return True
    if isinstance(x, pq.dimensionality.Dimensionality):
        return attack_dims(x, o)
    if not isinstance(x, np.ndarray):
        return False
    a = o['a']
    if isinstance(x, pq.Quantity):
        units = x.dimensionality
        two = pq.Quantity(2.0, units)
        other = 2.0 * pq.s
    else:
        two = other = 2.0
    y = two if o['x'] < 0.6 else other if o['x'] < 0.8 else 3.0
    if a in INPLACE:
        INPLACE[a](x, y)
    elif a == 'imul1':
        operator.imul(x, 1)
    elif a == 'iadd0':
        operator.iadd(x, 0 * two)
    elif a == 'ipow1':
        operator.ipow(x, 1)
    elif a == 'ipow':
        operator.ipow(x, o['n'])
    elif a == 'units':
        if not isinstance(x, pq.Quantity):
            return False
        x.units = x.simplified.units if o['x'] < 0.5 else pq.km if o['x'] < 0.7 else x.dimensionality
    elif a in ('real', 'imag'):
        setattr(x, a, two)
    elif a == 'set':
        x[...] = two
    elif a == 'setempty':
        x[()] = two
    elif a == 'flat':
        x.flat[0] = 2.0
    elif a == 'fill':
        x.fill(y)
    elif a == 'put':
        x.put([0], two)
    elif a == 'sort':
        x.sort()
    elif a == 'resize':
        if 'base' in o['chain']:
            return False
        x.resize((2,), refcheck=False)
    elif a == 'partition':
        x.partition(0)
    elif a == 'byteswap':
        x.byteswap(inplace=True)
    elif a == 'copyto':
        np.copyto(x, 2.0)
    elif a == 'npput':
        np.put(x, [0], two)
    elif a == 'place':
        np.place(x, np.ones(x.shape, bool), [2.0])
    elif a == 'setfield':
        x.setfield(2.0, 'f8')
    elif a == 'out_add':
        np.add(two, two, out=x)
    elif a == 'out_mul':
        np.multiply(two, two, out=x)
    elif a == 'out_square':
        np.square(two, out=x)
    elif a in ('out_sum', 'out_round', 'out_clip'):
        q = pq.Quantity([2.0, 5.0], pq.s) if o['x'] < 0.3 else [2.0, 5.0] * two.units if isinstance(two, pq.Quantity) \
            else pq.Quantity([2.0, 5.0])
        if a == 'out_sum':
            q.sum(out=x)
        elif a == 'out_round':
            q[0].round(out=x)
        else:
            q[0].clip(q[0], q[1], out=x)
    elif a in ('name', 'symbol', 'dimensionality', 'definition', 'magnitude'):
        if not isinstance(getattr(type(x), a, None), property):
            return False
        setattr(x, a, two if a in ('definition', 'magnitude') else 'zzother')
    elif a == 'uncertainty':
        if not hasattr(type(x), 'uncertainty'):
            return False
        x.uncertainty = two * np.ones(x.shape)
    else:
        raise ValueError(a)
    return True


def attack_dims(x, o):
    pq = world.pq
    d = o['d']
    s = pq.dimensionality.Dimensionality({pq.s: 1})
    if d == 'set':
        x[pq.s] = 5
    elif d == 'del':
        del x[next(iter(x))]
    elif d == 'imul':
        operator.imul(x, s)
    elif d == 'itruediv':
        operator.itruediv(x, s)
    elif d == 'ipow':
        operator.ipow(x, o['n'])
    elif d == 'iadd':
        operator.iadd(x, x.copy())
    elif d == 'clear':
        x.clear()
    elif d == 'pop':
        x.pop(next(iter(x)))
    elif d == 'update':
        x.update({pq.s: 2})
    elif d == 'setdefault':
        x.setdefault(pq.kg, 3)
    elif d == 'popitem':
        x.popitem()
    else:
        operator.ior(x, s)
    return True


def state_of(x):
    if isinstance(x, np.ndarray) and isinstance(x, world.pq.UnitQuantity) and not hasattr(x, '_name'):
        return world.arr(x)
    return world.canon(x)


def named(x):
    return isinstance(x, world.pq.UnitQuantity) and hasattr(x, '_name')


def execute(plan, phase, carry):
    pq = world.pq
    subjects = [Subject(s) for s in plan['subjects']]
    watched = [s.u for s in subjects]
    labels = sorted(world.LABELS)
    if not plan['all']:
        labels = random.Random(plan['labels']).sample(labels, 12)
    for l in labels:
        u = pq.unit_registry[l]
        if not any(u is w for w in watched):
            watched.append(u)
    watched += [pq.m, pq.s, pq.kg, pq.dimensionless]
    before = [full(u) for u in watched]
    size = [meaning(u) for u in watched]
    defaults = world.defaults()
    run = runner.Run(plan)
    counts = {'hit': 0, 'refused': 0}

    def light(what):
        for u, b in zip(watched, before):
            try:
                f = world.unit_facts(u)
            except Exception as e:
                f = world.canon_exc(e)
            if f != b[0]:
                run.violate('unit-changed', '%s: %s, was %s' % (what, world.short(f), world.short(b[0])))
                return False
            if not (u.shape == () and float(u) == 1.0) or u.flags.writeable or hash(u) != b[1]:
                run.violate('unit-changed', '%s: %s has value %r' % (what, b[0][2], np.ndarray.view(u, np.ndarray)))
                return False
        return True

    def body(t, tid, prog):
        for i, o in enumerate(prog):
            if o['op'] == 'nothing':
                continue
            if o['op'].startswith('churn'):
                run.call(t, i, o, lambda: common.call_churn(o))
                continue
            s = subjects[o['s'] % len(subjects)]
            box = {}

            def work():
                x = s.u
                for step in o['chain']:
                    y = obtain(step, x, s, o)
                    if y is None:
                        break
                    if step in ARITHMETIC and isinstance(x, pq.Quantity) and not box.get('fresh'):
                        box['fresh'] = y
                        box['of'] = x
                    elif box.get('fresh') is not None:
                        box['fresh'] = None
                    x = y
                box['x'] = x
                box['before'] = state_of(x)
                return attack(x, o)
            r = run.call(t, i, o, work, errstate={'all': 'ignore'})
            what = '%r' % r
            r.res = None
            x = box.get('x')
            if x is None:
                light(what)
                continue
            if not light('%s %s %s' % (what, o['chain'], o['a'])):
                return
            if named(x):
                # a unit itself: every attempt has to be refused
                if r.exc is None and r.out == ('P', 'bool', 'True'):
                    run.violate('accepted', '%s %s on %r (%s)' % (what, o['a'], x, o['chain']))
                    return
                counts['refused'] += 1
                if 'before' in box and state_of(x) != box['before']:
                    run.violate('unit-changed', '%s %s: %r' % (what, o['chain'], x))
                    return
            elif r.exc is None:
                counts['hit'] += 1
            f = box.get('fresh')
            if f is not None and f is x and isinstance(f, np.ndarray):
                if type(f) not in (pq.Quantity, pq.UncertainQuantity) or not f.flags.writeable \
                        or np.shares_memory(f, box['of']):
                    run.violate('not-ordinary', '%s of %r gave a %s' % (o['chain'], box['of'], type(f).__name__))
                    return
                if not r.fired and r.exc is not None and o['a'] in ('imul1', 'set', 'fill', 'put'):
                    run.violate('not-ordinary', '%s of %r cannot be modified: %r' % (o['chain'], box['of'], r.exc))
                    return

    run.go(body)
    if run.blocked():
        run.violate('blocked', run.blocked())
    if not run.violations and run.inconclusive is None:
        for c, k in world.DEFAULT_CLASSES and [(c, k) for c, k in defaults.items()]:
            if k is not None and k in DEFAULT_LABEL():
                getattr(pq, c).set_default_unit(DEFAULT_LABEL()[k])
        same_defaults = world.defaults() == defaults
        for u, b, z in zip(watched, before, size):
            try:
                f = full(u)
            except Exception as e:
                f = [world.canon_exc(e)]
            if f != b:
                x, y = next(((x, y) for x, y in zip(f, b) if x != y), (f, b))
                run.violate('unit-changed', 'in the end: %s, was %s' % (world.short(x), world.short(y)))
                break
            if same_defaults and meaning(u) != z:
                run.violate('unit-changed', 'in the end: %r is %s, was %s' % (u, meaning(u), z))
                break
        bad = world.label_damage(labels)
        if bad and not run.violations:
            run.violate('label-changed', bad)
    return run.result(nontrivial=counts['hit'] > 0 and bool(counts['refused'] or run.recs), extra=counts)


_default_label = {}


def DEFAULT_LABEL():
    if not _default_label:
        for l, k in world.KEY.items():
            _default_label.setdefault(k, l)
    return _default_label
