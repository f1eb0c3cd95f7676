"""C07: a failed in-place change never leaves a quantity torn."""
import operator

import numpy as np

from sim import common, pure, runner, world

RULE_TEXT = ('A case is one simulated run: 1-2 threads, each with a target quantity of its own (any dtype, memory order, '
             'view or read-only array, possibly uncertain, possibly with failing elements) and shared operands, apply '
             '2-7 in-place operations, many of them made to fail: incompatible units, casting, trapped floating point, '
             'elements that raise at the k-th arithmetic operation, failing allocations, protected views, unsuitable '
             'outputs.  Every operation is also applied undisturbed to an identical copy; after a failure each element '
             'has to be the old or that new physical value.  Non-trivial: an in-place operation raised.')
QUICK_RUNS = 14000
QUICK_WALL = 50

RECIPES = ['self'] * 10 + ['slice', 'rev', 'T', 'ravel', 'item', 'first', 'step', 'view']
BINARY = {'iadd': operator.iadd, 'isub': operator.isub, 'imul': operator.imul, 'itruediv': operator.itruediv,
          'ifloordiv': operator.ifloordiv, 'imod': operator.imod}
OUT = ['sum', 'mean', 'max', 'min', 'ptp', 'var', 'std', 'prod', 'cumsum', 'round', 'clip', 'trace']
ERR = [{'over': 'raise'}, {'over': 'raise'}, {'invalid': 'raise'}, {'divide': 'raise'}, {'all': 'raise'}, {'under': 'raise'}]


class SimFailure(Exception):
    pass


class Fuse:
    """lets the k-th arithmetic operation on elements fail"""

    def __init__(self):
        self.left = None
        self.blown = 0

    def tick(self):
        if self.left is not None:
            self.left -= 1
            if self.left == 0:
                self.left = None
                self.blown += 1
                raise SimFailure('element arithmetic')


class Elem(float):
    """a number whose arithmetic may fail"""
    fuse = None

    def __new__(cls, x, fuse):
        r = float.__new__(cls, x)
        r.fuse = fuse
        return r


def _method(name):
    base = getattr(float, name)

    def f(self, *a):
        self.fuse.tick()
        r = base(self, *a)
        return Elem(r, self.fuse) if isinstance(r, float) else r
    f.__name__ = name
    return f


for _n in ('add radd sub rsub mul rmul truediv rtruediv floordiv rfloordiv mod rmod pow rpow neg abs'
           .split()):
    setattr(Elem, '__%s__' % _n, _method('__%s__' % _n))


# ---------------------------------------------------------------- generation

def generate(rng, tier):
    fams = [pure.make_family(rng) for _ in range(rng.randint(1, 2))]
    shapes = pure.pick_shapes(rng)
    extreme = rng.random() < 0.15       # numbers at the ends of the range, and traps for what they lead to
    pool = []
    for _ in range(rng.randint(3, 6)):
        pool.append(pure.make_quantity(rng, rng.choice(fams), rng.choice(shapes + [[]]),
                                       kind='uq' if rng.random() < 0.1 else 'q'))
    for s in pool:
        if extreme and s['dt'] == 'f8':
            s['v'] = [rng.choice([x, 1e308, 3e307, 1e305, 3e-308, -1e307]) for x in s['v']]
        elif rng.random() < 0.4 and s['v'] and s['dt'] in ('f8',):
            s['v'][rng.randrange(len(s['v']))] = rng.choice([1e300, 1e-300, 0.0, 'inf', 1e200, 1e308, 3e307, 1e306, 3e-308])
    pool.append({'t': 'n', 'x': rng.choice([2, 3.0, 0.5, 0, -1.5])})
    pool.append(dict(pure.make_quantity(rng, [], rng.choice(shapes)), t='a'))
    l = rng.choice(['m', 'km', 's', 'J', 'degree'])
    pool.append({'t': 'u', 'l': l, 'u': {l: 1}, 'f': None})
    for sh in shapes[:2]:
        # exponents
        e = dict(pure.make_quantity(rng, [], sh, 'f8'), t='a')
        e['v'] = [rng.choice([3, 2, 1, 0.5]) for _ in e['v']] if rng.random() < 0.5 else [2.0] * len(e['v'])
        pool.append(e)
    threads, targets = [], []
    for t in range(rng.choice([1, 1, 1, 2])):
        fam = rng.choice(fams)
        kind = 'uq' if rng.random() < 0.2 else 'q'
        dt = rng.choice(['f8'] * 5 + ['f4', 'i8', 'i4', 'c16', 'O', 'O', 'O', 'u1'])
        s = pure.make_quantity(rng, fam, rng.choice(shapes), 'f8' if dt == 'O' else dt, kind)
        if dt == 'O' and kind == 'q' and s['sh'] not in pure.LARGE:
            s['dt'] = 'O'
            s['v'] = [1.5 if v == 'nan' else v for v in s['v']]
        s['dt'] = s['dt'] if kind == 'q' else 'f8'
        if dt == 'u1':
            s['v'] = [abs(v) for v in s['v']]
        if rng.random() < 0.2 and s['v'] and s['dt'] == 'f8':
            s['v'][rng.randrange(len(s['v']))] = rng.choice([1e300, 1e-300, 0.0, 1e200, 1e308, 3e307, 3e-308])
        if s['o'] == 'R' and rng.random() < 0.5:
            s['o'] = 'C'
        s['recipe'] = rng.choice(RECIPES) if s['sh'] else 'self'
        targets.append(s)
        prog = [gen_op(rng, pool, s, fams, extreme) for _ in range(rng.randint(2, 7))]
        threads.append(prog)
    return {'pool': pool, 'targets': targets, 'threads': threads,
            'schedule': runner.make_schedule_spec(rng, sum(map(len, threads)))}


def gen_operand(rng, pool, s, same=0.7):
    r = rng.random()
    if r < 0.12:
        return ['alias', rng.choice(RECIPES)]
    c = range(len(pool))
    if r < same:
        c = [i for i in c if pool[i].get('f') == s['f'] and pool[i]['t'] in ('q', 'uq')
             and pool[i].get('sh') in ([], s['sh'])] or c
    return ['pool', rng.choice(list(c))]


def gen_op(rng, pool, s, fams, extreme=False):
    kind = rng.choice(['bin'] * 6 + ['ipow', 'units', 'units', 'units', 'setitem', 'setitem', 'setitem', 'put', 'fill', 'real',
                                     'imag', 'out', 'out', 'out'])
    if s['t'] == 'uq' and rng.random() < 0.4:
        kind = rng.choice(['uncertainty', 'units', 'bin'])
    if s['t'] == 'uq' and kind in ('out', 'fill'):
        kind = 'bin'        # these leave the uncertainty to the caller
    o = {'op': kind}
    if kind == 'bin':
        o['op'] = rng.choice(sorted(BINARY))
        if s['t'] == 'uq' and o['op'] in ('ifloordiv', 'imod'):
            o['op'] = 'itruediv'    # uncertainties are not defined for those
        o['x'] = gen_operand(rng, pool, s, 0.75 if o['op'] in ('iadd', 'isub', 'imod') else 0.3)
    elif kind == 'ipow':
        o['n'] = rng.choice([2, 2, 3, 0.5, -1, 1, 0, [1, 2], [2, 2]])
        if rng.random() < 0.5:
            o['x'] = ['pool', rng.choice([i for i, e in enumerate(pool) if e['t'] == 'a'])]
    elif kind == 'units':
        o['u'] = pure.pick_units(rng, s['f'] if rng.random() < 0.85 else rng.choice(fams))
        if rng.random() < 0.06:
            o['u'] = {'nosuchunit': 1}
        o['how'] = rng.choice(['str', 'dims', 'unit', 'units'])
    elif kind in ('setitem', 'put', 'fill', 'real', 'imag', 'uncertainty'):
        o['x'] = gen_operand(rng, pool, s, 0.85)
        o['key'] = rng.choice(['all', 'first', 'slice', 'mask', 'fancy', 'last', 'fancy', 'mask'])
        o['ix'] = [rng.randrange(4) for _ in range(rng.randint(1, 3))]
        o['mode'] = rng.choice(['raise', 'wrap', 'clip'])
    elif kind == 'out':
        o['f'] = rng.choice(OUT)
        o['x'] = gen_operand(rng, pool, s, 0.6)
        o['axis'] = rng.choice([None, 0, -1, 1])
        o['bad'] = rng.choice([None] * 8 + ['plain', 'list'])
    r = rng.random()
    if r < (0.8 if extreme else 0.3):
        o['err'] = rng.choice(ERR)
    elif r < 0.5 and s['dt'] == 'O':
        o['fuse'] = rng.randint(1, 9)
    elif r < 0.57:
        o['fault'] = ['alloc', common.alloc_at(rng, 150), rng.choice([1, 1, 2, 1000])]
    return o


# ---------------------------------------------------------------- targets and their copies

def build_target(spec, fuse):
    if spec['dt'] != 'O':
        return world.build(spec)
    pq = world.pq
    a = np.empty(len(spec['v']), object)
    for i, v in enumerate(spec['v']):
        a[i] = Elem(v, fuse)
    return pq.Quantity(a.reshape(spec['sh']), world.dims_object(spec['u']))


def twin_of(base, fuse):
    """an identical, independent quantity"""
    pq = world.pq
    m = np.ndarray.view(base, np.ndarray)
    if m.dtype == object:
        a = np.empty(m.shape, object)
        for i in np.ndindex(*m.shape):
            a[i] = Elem(m[i], fuse) if isinstance(m[i], Elem) else m[i]
    else:
        a = np.empty_like(m)        # the same order of elements in memory
        a[...] = m
    d = base.dimensionality
    if isinstance(base, pq.UncertainQuantity):
        u = np.ndarray.view(base.uncertainty, np.ndarray).copy()
        r = pq.UncertainQuantity(a, d, pq.Quantity(u, base.uncertainty.dimensionality))
    else:
        r = pq.Quantity(a, d)
    if not base.flags.writeable:
        r.flags.writeable = False
    return r


def apply(recipe, q):
    if recipe == 'self' or not q.ndim:
        return q
    if recipe == 'slice':
        return q[1:]
    if recipe == 'rev':
        return q[::-1]
    if recipe == 'T':
        return q.T
    if recipe == 'ravel':
        return q.reshape(-1)
    if recipe == 'item':
        return q[0] if q.shape[0] else q
    if recipe == 'first':
        return q[:1]
    if recipe == 'step':
        return q[..., ::2]
    return q.view()


def key_of(o, t):
    k = o['key']
    if t.dtype == object and k in ('first', 'last'):
        k = 'slice'     # an object array would keep the quantity itself as its element
    if k == 'all' or not t.ndim:
        return Ellipsis
    if k == 'first':
        return 0
    if k == 'last':
        return -1
    if k == 'slice':
        return slice(1, None)
    if k == 'fancy':
        return [0, -1]
    return np.asarray(t, dtype='c16' if t.dtype.kind == 'c' else 'f8').real > 2


def operand(o, base, pool):
    how, x = o['x']
    x = apply(x, base) if how == 'alias' else pool[x]
    if base.dtype == object and o['op'] in ('setitem', 'fill', 'put', 'real', 'imag') and np.ndim(x):
        x = 2.5         # an object array might keep a quantity as its element
    return x


def perform(o, base, recipe, pool):
    """carries out the operation; returns the object that is now the target"""
    pq = world.pq
    t = apply(recipe, base)
    n = o['op']
    if n in BINARY:
        return BINARY[n](t, operand(o, base, pool))
    if n == 'ipow':
        p = o['n']
        if 'x' in o:
            return operator.ipow(t, operand(o, base, pool))
        return operator.ipow(t, np.array(p) if isinstance(p, list) else p)
    if n == 'units':
        if 'nosuchunit' in o['u']:
            t.units = 'nosuchunit'
        else:
            t.units = pure._units_arg({'u': o['u'], 'how': o['how']})
        return t
    if n == 'uncertainty':
        x = operand(o, base, pool)
        if isinstance(t, pq.UncertainQuantity):
            if x is base or isinstance(x, pq.UncertainQuantity):
                x = pq.Quantity(x.magnitude.copy(), x.dimensionality)
            elif isinstance(x, pq.Quantity):
                x = x * 1.0       # the uncertainty is kept as it is: not one of the operands
        t.uncertainty = x
        return t
    if n == 'setitem':
        t[key_of(o, t)] = operand(o, base, pool)
        return t
    if n == 'put':
        t.put(o['ix'], operand(o, base, pool), o['mode'])
        return t
    if n == 'fill':
        t.fill(2.5 if t.dtype == object else operand(o, base, pool))
        return t
    if n == 'real':
        t.real = operand(o, base, pool)
        return t
    if n == 'imag':
        t.imag = operand(o, base, pool)
        return t
    if n == 'out':
        x = operand(o, base, pool)
        if isinstance(x, pq.UncertainQuantity):
            x = pq.Quantity(x.magnitude, x.dimensionality)
        if not isinstance(x, pq.Quantity):
            x = t
        out = t
        if o['bad'] == 'plain':
            out = t.magnitude
        elif o['bad'] == 'list':
            out = [1.0]
        f, a = o['f'], o['axis']
        if f == 'round':
            x.round(1, out=out)
        elif f == 'trace':
            x.trace(out=out)
        elif f == 'clip':
            x.clip(x.min(), x.min() + 2 * x.units, out=out)
        else:
            getattr(x, f)(axis=a, out=out)
        return t
    raise ValueError(n)


def state(q):
    """(plain numbers, units, (plain uncertainty, its units) or None, type)"""
    u = None
    if isinstance(q, world.pq.UncertainQuantity):
        u = (np.array(np.ndarray.view(q.uncertainty, np.ndarray)), world.units_of(q.uncertainty.dimensionality))
    return (np.array(np.ndarray.view(q, np.ndarray)), world.units_of(q.dimensionality), u, type(q).__name__)


def exact(a, b):
    """nothing at all differs"""
    if a[1] != b[1] or a[3] != b[3] or (a[2] is None) != (b[2] is None):
        return False
    if world.arr(a[0]) != world.arr(b[0]):
        return False
    if a[2] is not None:
        return a[2][1] == b[2][1] and world.arr(a[2][0]) == world.arr(b[2][0])
    return True


def wide(a):
    if a.dtype == object and any(isinstance(x, complex) for x in a.flat):
        return a.astype('c16')
    return pure.wide(a)


def si(m, u):
    f, b = world.size_of(u)
    with np.errstate(all='ignore'):
        return wide(m) * f, tuple(sorted(b.items()))


def either(now, old, new):
    """a complaint unless every element of now is the old or the new physical value"""
    v, d = si(*now)
    ok = np.zeros(v.shape, bool)
    rtol = 1e-9
    for m in (now[0], old[0], new[0]):
        if m.dtype.kind in 'fc' and m.dtype.itemsize <= (4 if m.dtype.kind == 'f' else 8):
            rtol = 1e-3
    for c in (old, new):
        if c[0].shape != v.shape:
            continue
        if c[1] == now[1]:
            # the same units: the numbers have to be the same
            with np.errstate(all='ignore'):
                a, b = wide(now[0]), wide(c[0])
                ok |= (a == b) | (np.isnan(a) & np.isnan(b)) | (np.isfinite(b) & (abs(a - b) <= rtol * abs(b)))
            continue
        w, e = si(*c)
        if e == d:
            with np.errstate(all='ignore'):
                ok |= (v == w) | (np.isnan(v) & np.isnan(w)) | (np.isfinite(w) & (abs(v - w) <= rtol * abs(w)))
    if ok.all():
        return None
    i = tuple(np.argwhere(~ok)[0]) if ok.ndim else ()
    return 'element %s is %r %s; it was %r %s and would have become %s' % (
        list(i), now[0][i], now[1], old[0][i], old[1],
        '%r %s' % (new[0][i], new[1]) if new[0].shape == now[0].shape else 'something of another shape')


def execute(plan, phase, carry):
    pool = [world.build(s) for s in plan['pool']]
    before = [world.canon(x) for x in pool]
    run = runner.Run(plan)
    counts = {}

    def body(t, tid, prog):
        spec = plan['targets'][tid]
        fuse = Fuse()
        base = build_target(spec, fuse)
        recipe = spec['recipe']
        for i, o in enumerate(prog):
            if o['op'] == 'nothing':
                continue
            old = state(base)
            disarmed = Fuse()
            copy = twin_of(base, disarmed)
            if not exact(old, state(copy)):
                raise runner.HarnessError('the copy differs: %r %r' % (old, state(copy)))
            with np.errstate(all='ignore'):
                try:
                    perform(o, copy, recipe, pool)
                    want = None
                except Exception as e:
                    want = e
            new = state(copy)
            fuse.left = o.get('fuse')
            r = run.call(t, i, o, lambda: perform(o, base, recipe, pool), errstate=o.get('err') or {'all': 'ignore'})
            fuse.left = None
            now = state(base)
            what = '%r on %s [%s] (was %s %s)' % (r, spec['dt'], recipe, world.short(repr(old[0].tolist()), 120), old[1])
            r.res = None
            if r.exc is None:
                if want is not None:
                    # e.g. a failure that a fault prevented: nothing to compare with
                    run.violate('accepted', '%s; on a copy it raised %s' % (what, type(want).__name__))
                    return
                if not exact(now, new):
                    run.violate('unlike-copy', '%s: now %s, on a copy %s' % (
                        what, world.short(repr(now)), world.short(repr(new))))
                    return
                continue
            reason = ('element' if isinstance(r.exc, SimFailure) else
                      'alloc' if r.fired else
                      'floating' if isinstance(r.exc, FloatingPointError) else 'refused')
            counts[reason] = counts.get(reason, 0) + 1
            if want is not None and isinstance(r.exc, IndexError) and o['op'] == 'put':
                if now[1] != old[1]:
                    run.violate('units-torn', '%s: units now %s' % (what, now[1]))
                base = twin_of(base, fuse)
                continue
            if want is not None and base.dtype == object and (
                    isinstance(r.exc, ArithmeticError) or 'unsupported operand' in str(r.exc)
                    or 'not supported for the input types' in str(r.exc)):
                reason = 'element'          # e.g. a division by zero: Python numbers raise
            if want is not None and reason == 'refused':
                if not exact(now, old):
                    run.violate('changed-by-refused', '%s raised %s: %s; now %s' % (
                        what, type(r.exc).__name__, str(r.exc)[:80], world.short(repr(now))))
                    return
                continue
            if want is not None and new[1] != old[1]:
                new = old
            try:
                c = either(now[:2], old[:2], new[:2])
                if c is None and now[2] is not None:
                    c = either(now[2], old[2], new[2] or old[2])
                    if c is None and now[1] != now[2][1]:
                        c = 'the uncertainty has units %s, the value %s' % (now[2][1], now[1])
                    if c is not None:
                        c = 'uncertainty: ' + c
            except world.Unknown:
                c = None
            if c is not None:
                run.violate('torn', '%s raised %s: %s' % (what, type(r.exc).__name__, c))
                return
        if base.dtype == object:
            counts['object-targets'] = counts.get('object-targets', 0) + 1

    run.go(body)
    if run.blocked():
        run.violate('blocked', run.blocked())
    for i, (x, b) in enumerate(zip(pool, before)):
        if world.canon(x) != b:
            run.violate('operand-changed', 'operand %d: %s, was %s' % (i, world.short(world.canon(x)), world.short(b)))
    faults = {}
    for k, f in (('element', 'failing element arithmetic'), ('floating', 'trapped floating point')):
        if counts.get(k):
            faults[f] = counts[k]
    return run.result(nontrivial=any(r.out[0] == 'E' for r in run.recs),
                      extra={'faults': faults, 'refused': counts.get('refused', 0)})
