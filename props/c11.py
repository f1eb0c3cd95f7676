"""C11: an uncertain quantity and its uncertainty stay in step."""
import copy
import operator
import pickle

import numpy as np

from sim import common, pure, runner, world

RULE_TEXT = ('A case is one simulated run: 1-3 threads, each with uncertain quantities of its own and shared read-only '
             'operands, go through 3-12 operations (creation, arithmetic and its augmented forms, conversion, units and '
             'uncertainty assignment, indexing, statistics, copying, pickling), some of them failing, interrupted or '
             'short of memory; every object is followed by a model of values, units and uncertainties.  Non-trivial: an '
             'uncertain quantity with non-zero uncertainty was changed, converted or combined.')
QUICK_RUNS = 9000
QUICK_WALL = 50

BINARY = {'add': (operator.add, pure.m_add), 'sub': (operator.sub, pure.m_sub), 'mul': (operator.mul, pure.m_mul),
          'div': (operator.truediv, pure.m_div)}
AUGMENTED = {'add': operator.iadd, 'sub': operator.isub, 'mul': operator.imul, 'div': operator.itruediv}
COPIES = ['copy', 'copyF', 'copy.copy', 'deepcopy', 'pickle', 'list', 'pickled-list', 'uq', 'dict']
INDEX = ['first', 'last', 'slice', 'rev', 'fancy', 'mask', 'ell', 'one', 'new', 'step']
STATS = ['sum', 'mean', 'max', 'min', 'nansum', 'nanmean', 'nanmax', 'nanmin']


def generate(rng, tier):
    fams = [pure.make_family(rng) for _ in range(rng.randint(1, 2))]
    shapes = pure.pick_shapes(rng)
    pool = []
    for _ in range(rng.randint(3, 6)):
        s = pure.make_quantity(rng, rng.choice(fams), rng.choice(shapes + [[]]), rng.choice(['f8'] * 5 + ['i8', 'f4']),
                               kind=rng.choice(['q', 'uq', 'uq']))
        pool.append(s)
    pool.append({'t': 'n', 'x': rng.choice([2, 3.0, 0.5, -1.5])})
    pool.append(dict(pure.make_quantity(rng, [], rng.choice(shapes), rng.choice(['f8', 'f8', 'i8', 'f4'])), t='a'))
    l = rng.choice(['m', 'km', 's', 'J', 'degree'])
    pool.append({'t': 'u', 'l': l, 'u': {l: 1}, 'f': None})
    targets, threads = [], []
    for t in range(rng.choice([1, 1, 2, 3])):
        fam = rng.choice(fams)
        targets.append([pure.make_quantity(rng, fam, rng.choice(shapes), 'f8', 'uq') for _ in range(rng.randint(1, 2))])
        threads.append([gen_op(rng, fams) for _ in range(rng.randint(3, 12))])
    if rng.random() < 0.25:
        threads.append([common.gen_churn(rng, ('define', 'default', 'unicode', 'preferred', 'lookup'))
                        for _ in range(rng.randint(2, 6))])
    return {'pool': pool, 'targets': targets, 'threads': threads,
            'schedule': runner.make_schedule_spec(rng, sum(map(len, threads)))}


def gen_op(rng, fams):
    n = rng.choice(['bin'] * 6 + ['aug'] * 4 + ['pow', 'ipow', 'neg', 'create', 'create', 'rescale', 'rescale', 'simplified',
                    'units', 'units', 'units', 'index', 'index', 'index', 'seterr', 'seterr', 'seterr', 'item', 'item',
                    'stat', 'stat', 'copy', 'copy', 'copy', 'read', 'read', 'error-of', 'mutate'])
    o = {'op': n, 'x': rng.random(), 'y': rng.random(), 'how': rng.random(), 'u': [rng.random() for _ in range(4)],
         'same': rng.random() < 0.75}
    if n in ('bin', 'aug'):
        o['f'] = rng.choice(['add', 'add', 'sub', 'mul', 'div'])
        if o['f'] in ('mul', 'div'):
            o['same'] = rng.random() < 0.3
        o['swap'] = rng.random() < 0.35
    elif n in ('pow', 'ipow'):
        o['n'] = rng.choice([2, 2, 3, 0.5, -1, 1])
    elif n == 'create':
        o['f'] = rng.choice(['plain', 'quantity', 'none', 'uq', 'uq-units', 'same-units', 'bad-shape', 'bad-units', 'string'])
    elif n in ('units', 'rescale'):
        o['bad'] = rng.random() < 0.15
        o['f'] = rng.choice(['dims', 'unit', 'string'])
    elif n == 'index':
        o['f'] = rng.choice(INDEX)
    elif n == 'seterr':
        o['f'] = rng.choice(['own', 'own', 'other', 'other', 'plain', 'shape', 'incompatible', 'uq'])
    elif n == 'stat':
        o['f'] = rng.choice(STATS)
        o['axis'] = rng.choice([None, None, 0, -1])
    elif n == 'copy':
        o['f'] = rng.choice(COPIES)
        o['proto'] = rng.randrange(6)
    elif n == 'read':
        o['f'] = rng.choice(['str', 'repr', 'relative', 'eq', 'lt', 'tolist', 'magnitude', 'uncertainty', 'simplified'])
    if n in ('bin', 'pow', 'neg', 'create', 'rescale', 'simplified', 'index', 'stat', 'copy', 'read') and rng.random() < 0.25:
        k = rng.choice(['interrupt', 'nomem', 'alloc'])
        o['fault'] = ['alloc', common.alloc_at(rng, 120), rng.choice([1, 2])] if k == 'alloc' else [k, common.step_at(rng)]
    elif n in ('units', 'seterr', 'aug', 'ipow') and rng.random() < 0.15:
        o['fault'] = ['alloc', common.alloc_at(rng, 160), rng.choice([1, 2, 1000])]
    return o


def plain(x):
    return np.ndarray.view(x, np.ndarray)


class Obj:
    """an uncertain quantity and what it should be"""
    __slots__ = ('q', 'm', 'u', 'e', 'alias', 'ealias')

    def __init__(self, q):
        self.q = q
        self.alias = False          # shares its values with another object
        self.ealias = False         # an array that is shared has its uncertainty
        self.adopt()

    def adopt(self):
        self.m = np.array(plain(self.q))
        self.u = world.units_of(self.q.dimensionality)
        self.e = np.array(plain(self.q.uncertainty))

    def moderate(self):
        """nothing made of it in one step leaves the range of a float"""
        v = abs(np.concatenate([self.m.ravel(), self.e.ravel(), [world.size_of(self.u)[0]]]))
        v = v[(v != 0) & ~np.isnan(v)]
        return bool(np.all((v > 1e-60) & (v < 1e60)))


def owner(q):
    """is not a view of another quantity"""
    b = q.base
    while isinstance(b, np.ndarray):
        if isinstance(b, world.pq.Quantity):
            return False
        b = b.base
    return True


def same_bits(a, b):
    return a.shape == b.shape and a.dtype == b.dtype and world._bytes(np.array(a)) == world._bytes(np.array(b))


def invariant(q):
    """a complaint about an uncertain quantity by itself"""
    pq = world.pq
    if not isinstance(q, pq.UncertainQuantity):
        return 'is a %s' % type(q).__name__
    e = q.uncertainty
    if not isinstance(e, pq.Quantity):
        return 'has an uncertainty of type %s' % type(e).__name__
    if e.shape != q.shape:
        return 'has shape %s and an uncertainty of shape %s' % (q.shape, e.shape)
    if world.units_of(e.dimensionality) != world.units_of(q.dimensionality):
        return 'has units %s and an uncertainty in %s' % (q.dimensionality, e.dimensionality)
    return None


def close(a, b, rtol=1e-9):
    with np.errstate(all='ignore'):
        a, b = pure.wide(a), pure.wide(b)
        if a.shape != b.shape:
            return False
        return bool(np.all((abs(a - b) <= rtol * abs(b) + 1e-300) | (a == b) | ~np.isfinite(b)))


def check_obj(o):
    """a complaint unless the object is exactly what the model says"""
    c = invariant(o.q)
    if c:
        return c
    if world.units_of(o.q.dimensionality) != o.u:
        return 'has units %s, should have %s' % (o.q.dimensionality, o.u)
    if not same_bits(plain(o.q), o.m):
        return 'has values %s, should have %s' % (plain(o.q).tolist(), o.m.tolist())
    if not same_bits(plain(o.q.uncertainty), o.e):
        return 'has uncertainty %s, should have %s' % (plain(o.q.uncertainty).tolist(), o.e.tolist())
    return None


def parts(x):
    """(values, units, uncertainties or None) of an operand"""
    pq = world.pq
    v = pure.mv(x)
    if isinstance(x, pq.UncertainQuantity):
        f = pure.factor(world.units_of(x.uncertainty.dimensionality), v.u)
        return v.m, v.u, pure.wide(plain(x.uncertainty)) * f
    return v.m, v.u, None


def combine(f, a, b, r):
    """expected uncertainty of f(a, b) in units of the result r, NaN where it is not defined"""
    with np.errstate(all='ignore'):
        am, au, ae = parts(a)
        bm, bu, be = parts(b)
        rm, ru = pure.wide(plain(r)), world.units_of(r.dimensionality)
        if f in ('add', 'sub'):
            ae = 0 if ae is None else ae * pure.factor(au, ru)
            be = 0 if be is None else be * pure.factor(bu, ru)
            return np.sqrt(ae ** 2 + be ** 2) + 0 * rm
        if ae is not None and be is not None:
            e = abs(rm) * np.sqrt((ae / am) ** 2 + (be / bm) ** 2)
        elif f == 'mul':
            e = ae * abs(bm) if ae is not None else be * abs(am)
        elif ae is not None:
            e = ae / abs(bm)
        else:
            e = abs(rm) * be / abs(bm)
        return np.where((am == 0) | (bm == 0), np.nan, e)


class Worker:

    def __init__(self, run, plan, pool, tid):
        self.run, self.plan, self.pool = run, plan, pool
        self.objs = [Obj(world.build(s)) for s in plan['targets'][tid]]
        self.used = 0

    def check(self, what):
        for i, o in enumerate(self.objs):
            c = check_obj(o)
            if c:
                self.run.violate('out-of-step', '%s: object %d %s' % (what, i, c))
                return False
        return True

    def keep(self, q, alias=None):
        o = Obj(q)
        if alias is not None:
            o.alias = alias.alias = True
            for b in self.objs:
                if np.shares_memory(plain(q.uncertainty), plain(b.q.uncertainty)):
                    o.ealias = b.ealias = True
        if len(self.objs) >= 8:
            self.objs[2 + len(self.objs) % 5] = o
        else:
            self.objs.append(o)

    def operand(self, o, x):
        own = [b.q for b in self.objs]
        c = own + list(self.pool)
        if o['same']:
            try:
                d = world.size_of(x.u)[1]
                c = [b for b in c if isinstance(b, world.pq.Quantity) and b.shape in ((), x.q.shape)
                     and world.size_of(world.units_of(b.dimensionality))[1] == d] or c
            except world.Unknown:
                pass
        return c[int(o['y'] * len(c))]

    def target_units(self, o, x):
        from props.c09 import compatible_units
        u = compatible_units(x.u, o['u'])
        if u is None:
            return None, None
        if o.get('bad'):
            u['s' if 's' not in u else 'm'] = 7
        d = world.dims_object(u)
        arg = d
        if o.get('f') == 'unit':
            arg = world.pq.Quantity(1.0, d).units
        elif o.get('f') == 'string' and not any(l[:2] in ('C:', 'X:') for l in u):
            arg = world.spell(u)
        return arg, world.key_units(u)

    def new(self, r, x, e=None, units=None, value=None, alias=None, rtol=1e-9):
        """judges a new uncertain quantity"""
        q, r.res = r.res, None
        what = '%r' % r
        c = invariant(q)
        if c:
            self.run.violate('out-of-step', '%s: the result %s' % (what, c))
            return False
        if units is not None and world.units_of(q.dimensionality) != units:
            self.run.violate('wrong-units', '%s: %s instead of %s' % (what, q.dimensionality, units))
            return False
        if value is not None and not close(plain(q), value, rtol):
            self.run.violate('wrong-value', '%s: %s instead of %s' % (what, plain(q).tolist(), np.asarray(value).tolist()))
            return False
        if e is not None and not close(abs(plain(q.uncertainty)), abs(np.asarray(e)), rtol):
            self.run.violate('wrong-uncertainty', '%s: %s instead of %s (values %s)' % (
                what, plain(q.uncertainty).tolist(), np.asarray(e).tolist(), plain(q).tolist()))
            return False
        if not self.check(what):
            return False
        for o in self.objs:
            if alias is None and (np.shares_memory(plain(q), plain(o.q))
                                  or np.shares_memory(plain(q.uncertainty), plain(o.q.uncertainty))):
                self.run.violate('shared', '%s shares its storage with another object' % what)
                return False
        if np.any(plain(q.uncertainty)):
            self.used += 1
        self.keep(q, alias)
        return True

    def step(self, t, i, o):
        run, pq = self.run, world.pq
        n = o['op']
        self.objs = [b for b in self.objs if b.moderate()]
        if not self.objs:
            return False
        x = self.objs[int(o['x'] * len(self.objs))]
        q = x.q
        err = {'all': 'ignore'}
        if n == 'bin':
            y = self.operand(o, x)
            a, b = (y, q) if o['swap'] else (q, y)
            f, model = BINARY[o['f']]
            r = run.call(t, i, o, lambda: f(a, b), errstate=err)
            if r.exc is not None:
                return self.check('%r' % r)
            if not isinstance(r.res, pq.UncertainQuantity):
                run.violate('out-of-step', '%r: the result is a %s' % (r, type(r.res).__name__))
                return False
            if not self.value(r, model, a, b, r.res):
                return False
            try:
                e = combine(o['f'], a, b, r.res)
            except (pure.Incompatible, world.Unknown):
                e = None
            return self.new(r, x, e, rtol=self.rtol(a, b))
        if n == 'aug':
            y = self.operand(o, x)
            if x.alias:
                return True
            d = q.dimensionality
            twin = pq.UncertainQuantity(x.m.copy(), d, pq.Quantity(x.e.copy(), d))
            z = copy.deepcopy(y) if isinstance(y, np.ndarray) and not isinstance(y, pq.UnitQuantity) else y
            f, model = BINARY[o['f']]
            with np.errstate(all='ignore'):
                try:
                    w = f(twin, z)
                except Exception as ex:
                    w = ex
            r = run.call(t, i, o, lambda: AUGMENTED[o['f']](q, y), errstate=err)
            return self.changed(r, x, w, lambda: combine(o['f'], twin, z, q), self.rtol(z))
        if n == 'ipow':
            if x.alias:
                return True
            d = q.dimensionality
            twin = pq.UncertainQuantity(x.m.copy(), d, pq.Quantity(x.e.copy(), d))
            with np.errstate(all='ignore'):
                try:
                    w = twin ** o['n']
                except Exception as ex:
                    w = ex
            r = run.call(t, i, o, lambda: operator.ipow(q, o['n']), errstate=err)
            with np.errstate(all='ignore'):
                return self.changed(r, x, w, lambda: np.where(
                    pure.wide(plain(twin)) == 0, np.nan, plain(q) * o['n'] * plain(twin.uncertainty) / plain(twin)), 1e-9)
        if n in ('pow', 'neg'):
            p = o.get('n', 1)
            r = run.call(t, i, o, (lambda: q ** p) if n == 'pow' else lambda: -q, errstate=err)
            if r.exc is not None:
                return self.check('%r' % r)
            with np.errstate(all='ignore'):
                v = x.m ** p if n == 'pow' else -x.m
                e = np.where(x.m == 0, np.nan, v * p * x.e / x.m) if n == 'pow' else x.e
            return self.new(r, x, e, pure.power(x.u, p), v)
        if n == 'create':
            return self.create(t, i, o, x)
        if n in ('rescale', 'units'):
            arg, to = self.target_units(o, x)
            if arg is None:
                return True
            try:
                f = pure.factor(x.u, to)
            except pure.Incompatible:
                f = None
            if n == 'rescale':
                r = run.call(t, i, o, lambda: q.rescale(arg), errstate=err)
                if r.exc is not None:
                    if f is not None and not r.fired:
                        run.violate('refused', '%r: %s' % (r, r.exc))
                        return False
                    return self.check('%r' % r)
                if f is None:
                    run.violate('accepted', '%r' % r)
                    return False
                return self.new(r, x, x.e * f, to, x.m * f)

            if x.alias and owner(q):
                return True         # C09's known finding: its views keep the former units

            def setunits():
                q.units = arg
            r = run.call(t, i, o, setunits, errstate=err)
            if r.exc is not None:
                return self.check('%r raised %s' % (r, str(r.exc)[:80]))
            if f is None:
                run.violate('accepted', '%r' % r)
                return False
            with np.errstate(all='ignore'):
                x.u, m, e = to, x.m * f, x.e * f
            if x.alias:
                run.violate('accepted', '%r although another object shares the values' % r)
                return False
            return self.settle(r, x, m, e)
        if n == 'simplified':
            r = run.call(t, i, o, lambda: q.simplified, errstate=err)
            if r.exc is not None:
                return self.check('%r' % r)
            u = world.units_of(r.res.dimensionality)
            try:
                f = pure.factor(x.u, u)
            except pure.Incompatible:
                run.violate('wrong-units', '%r: %s' % (r, u))
                return False
            return self.new(r, x, x.e * f, None, x.m * f)
        if n == 'index':
            key = index(o['f'], x.m)
            if key is None:
                return True
            v, e = x.m[key], x.e[key]
            r = run.call(t, i, o, lambda: q[key])
            if r.exc is not None:
                if not r.fired:
                    run.violate('refused', '%r: %s' % (r, r.exc))
                    return False
                return self.check('%r' % r)
            alias = x if np.shares_memory(plain(r.res), plain(q)) else None
            return self.new(r, x, np.asarray(e), x.u, np.asarray(v), alias, 0)
        if n == 'seterr':
            return self.seterr(t, i, o, x)
        if n == 'item':
            # item assignment of the uncertainty
            arg, to = self.target_units(o, x)
            if arg is None or not x.e.size or x.ealias:
                return True
            d = world.dims_object({}) if isinstance(arg, str) else arg
            val = pq.Quantity(0.25, arg)
            if isinstance(val, pq.UnitQuantity):
                return True
            key = (0,) * x.e.ndim if o['how'] < 0.5 else Ellipsis
            err_q = q.uncertainty
            if not err_q.flags.writeable:
                return True
            r = run.call(t, i, o, lambda: operator.setitem(err_q, key, val))
            if r.exc is not None:
                if 'bad' in o and o['bad']:
                    return self.check('%r' % r)
                run.violate('refused', '%r: %s' % (r, r.exc))
                return False
            e = x.e.copy()
            e[key] = 0.25 * pure.factor(to, x.u)
            return self.settle(r, x, x.m, e)
        if n == 'mutate':
            # item assignment of the value
            if x.alias or not x.m.size or not q.flags.writeable:
                return True
            key = (0,) * x.m.ndim
            val = pq.Quantity(4.0, q.dimensionality)
            r = run.call(t, i, o, lambda: operator.setitem(q, key, val))
            if r.exc is not None:
                run.violate('refused', '%r: %s' % (r, r.exc))
                return False
            m = x.m.copy()
            m[key] = 4.0
            return self.settle(r, x, m, x.e)
        if n == 'stat':
            f, kw = o['f'], {}
            if f in ('sum', 'mean', 'nansum', 'nanmean') and x.m.ndim:
                kw = {'axis': o['axis']}
            if not x.m.size:
                return True
            r = run.call(t, i, o, lambda: getattr(q, f)(**kw), errstate=err)
            if r.exc is not None:
                return self.check('%r' % r)
            a = kw.get('axis')
            with np.errstate(all='ignore'):
                cnt = x.m.size if a is None else x.m.shape[a]
                if f in ('sum', 'nansum'):
                    v, e = x.m.sum(a), np.sqrt((x.e ** 2).sum(a))
                elif f in ('mean', 'nanmean'):
                    v, e = x.m.mean(a), np.sqrt((x.e ** 2).sum(a)) / cnt
                else:
                    k = np.argmax(x.m) if 'max' in f else np.argmin(x.m)
                    v, e = x.m.flat[k], x.e.flat[k]
            if np.any(np.isnan(x.m)):
                v = e = None
            if v is not None:
                # cancellation
                scale = np.max(abs(x.m), initial=0) * 1e-9 * cnt
                got = plain(np.asanyarray(r.res))
                if got.shape == np.shape(v) and np.all(abs(got - v) <= scale):
                    v = None
            return self.new(r, x, None if e is None else np.asarray(e), x.u, None if v is None else np.asarray(v))
        if n == 'copy':
            f, p = o['f'], o['proto']
            r = run.call(t, i, o, lambda: make_copy(f, q, p))
            if r.exc is not None:
                if not r.fired:
                    run.violate('refused', '%r: %s' % (r, r.exc))
                    return False
                return self.check('%r' % r)
            if not same_bits(plain(r.res), x.m) or not same_bits(plain(r.res.uncertainty), x.e):
                run.violate('unlike', '%s: %r, of %s +- %s' % (f, r, x.m.tolist(), x.e.tolist()))
                return False
            return self.new(r, x, x.e, x.u, x.m, rtol=0)
        if n == 'read':
            y = q
            if o['how'] < 0.6:
                c = [b for b in self.pool if isinstance(b, pq.UncertainQuantity)]
                if c:
                    y = c[int(o['y'] * len(c))]
            r = run.call(t, i, o, lambda: read(o['f'], y), errstate=err)
            if r.exc is not None and not r.fired and o['f'] != 'tolist':
                run.violate('refused', '%r: %s' % (r, r.exc))
                return False
            r.res = None
            return self.check('%r' % r)
        if n == 'error-of':
            # what is done with the uncertainty as a quantity of its own
            r = run.call(t, i, o, lambda: (q.uncertainty * 2, q.uncertainty + q.uncertainty, q.uncertainty.rescale(
                q.dimensionality)), errstate=err)
            r.res = None
            return self.check('%r' % r)
        raise ValueError(n)

    def rtol(self, *xs):
        return max([1e-9] + [pure.rtol_of(x) for x in xs])

    def value(self, r, model, a, b, got):
        """the values are those of ordinary quantities"""
        try:
            a, b = [world.pq.Quantity(plain(x).copy(), x.dimensionality) if isinstance(x, world.pq.UncertainQuantity) else x
                    for x in (a, b)]
            e = model(a, b)
        except pure.Incompatible:
            self.run.violate('accepted', '%r' % r)
            return False
        except world.Unknown:
            return True
        if e is NotImplemented:
            return True
        u = world.units_of(got.dimensionality)
        try:
            f = pure.factor(e.u, u)
        except pure.Incompatible:
            self.run.violate('wrong-units', '%r: %s instead of %s' % (r, u, e.u))
            return False
        e = pure.MV(e.m * f, u, None if e.scale is None else e.scale * f)
        c = pure.compare(world.pq.Quantity(plain(got).copy(), got.dimensionality), e, self.rtol(a, b, got))
        if c:
            self.run.violate('wrong-value', '%r: %s' % (r, c))
            return False
        return True

    def changed(self, r, x, want, uncertainty, rtol):
        """after an augmented operation"""
        what = '%r' % r
        if r.exc is not None:
            if isinstance(want, Exception) or r.fired or isinstance(r.exc, ValueError) \
                    or not np.can_cast(want.dtype, x.q.dtype, 'same_kind'):
                return self.check('%s raised %s' % (what, str(r.exc)[:80]))
            self.run.violate('refused', '%s: %s' % (what, r.exc))
            return False
        if isinstance(want, Exception):
            self.run.violate('accepted', '%s; the ordinary operation raises %s' % (what, want))
            return False
        if r.res is not x.q:
            self.run.violate('another-object', what)
            return False
        r.res = None
        u, v = world.units_of(want.dimensionality), plain(want)
        if u != world.units_of(x.q.dimensionality):
            self.run.violate('wrong-units', '%s: %s instead of %s' % (what, x.q.dimensionality, u))
            return False
        x.u = u
        c = invariant(x.q)
        if c:
            self.run.violate('out-of-step', '%s: it %s' % (what, c))
            return False
        try:
            e = uncertainty()
        except (pure.Incompatible, world.Unknown):
            e = None
        e2 = abs(plain(want.uncertainty)) if isinstance(want, world.pq.UncertainQuantity) else None
        for k in (e, e2):
            if k is not None and not close(abs(plain(x.q.uncertainty)), abs(np.asarray(k)), rtol):
                self.run.violate('wrong-uncertainty', '%s: %s instead of %s (values %s)' % (
                    what, plain(x.q.uncertainty).tolist(), np.asarray(k).tolist(), plain(x.q).tolist()))
                return False
        return self.settle(r, x, v, plain(x.q.uncertainty).copy(), rtol)

    def settle(self, r, x, m, e, rtol=1e-9):
        """x has been changed: the values and uncertainties should now be m and e, up to rounding"""
        what = '%r' % r
        c = invariant(x.q)
        if c:
            self.run.violate('out-of-step', '%s: it %s' % (what, c))
            return False
        if not close(plain(x.q), m, rtol):
            self.run.violate('wrong-value', '%s: %s instead of %s' % (what, plain(x.q).tolist(), m.tolist()))
            return False
        if not close(plain(x.q.uncertainty), e, rtol):
            self.run.violate('wrong-uncertainty', '%s: %s instead of %s' % (
                what, plain(x.q.uncertainty).tolist(), e.tolist()))
            return False
        if world.units_of(x.q.dimensionality) != x.u:
            self.run.violate('wrong-units', '%s: %s instead of %s' % (what, x.q.dimensionality, x.u))
            return False
        x.adopt()
        self.used += 1
        return self.check(what)

    def create(self, t, i, o, x):
        pq, run = world.pq, self.run
        f = o['f']
        arg, to = self.target_units(o, x)
        if arg is None:
            return True
        d = x.q.dimensionality
        own = pq.Quantity(x.m.copy(), d)
        dims = world.dims_object({}) if arg is None else arg
        fac = pure.factor(x.u, to)
        e = 0.5 * abs(x.m) + 0.25
        good = True
        if f == 'plain':
            fn, v, u, w = lambda: pq.UncertainQuantity(x.m.copy(), arg, e), x.m, to, e
        elif f == 'string':
            if not x.m.size:
                return True     # the shape is lost in a list
            fn, v, u, w = lambda: pq.UncertainQuantity(x.m.tolist(), arg, e.tolist()), x.m, to, e
        elif f == 'quantity':
            fn, v, u, w = lambda: pq.UncertainQuantity(x.m.copy(), d, pq.Quantity(e, arg)), x.m, x.u, e / fac
        elif f == 'none':
            fn, v, u, w = lambda: pq.UncertainQuantity(own), x.m, x.u, 0 * e
        elif f == 'same-units':
            fn, v, u, w = lambda: pq.UncertainQuantity(own, d, pq.Quantity(e, d)), x.m, x.u, e
        elif f == 'uq':
            fn, v, u, w = lambda: pq.UncertainQuantity(x.q.copy()), x.m, x.u, x.e
        elif f == 'uq-units':
            if not to:
                return True
            fn, v, u, w = lambda: pq.UncertainQuantity(x.q.copy(), arg), x.m * fac, to, x.e * fac
        elif f == 'bad-shape':
            fn, good = lambda: pq.UncertainQuantity(x.m.copy(), d, np.ones(x.m.shape + (2,))), False
        else:
            u2 = dict(x.u)
            bad = pq.Quantity(e, d) * pq.s ** 3
            fn, good = lambda: pq.UncertainQuantity(x.m.copy(), d, bad), not x.u
            if good:
                return True
        r = run.call(t, i, o, fn, errstate={'all': 'ignore'})
        if r.exc is not None:
            if good and not r.fired:
                run.violate('refused', '%r: %s' % (r, r.exc))
                return False
            return self.check('%r' % r)
        if not good:
            run.violate('accepted', '%s: %r' % (f, r))
            return False
        if f == 'none':
            w = None if np.any(np.isnan(x.m)) else w
        return self.new(r, x, w, u, v)

    def seterr(self, t, i, o, x):
        pq, run = world.pq, self.run
        f = o['f']
        q, d = x.q, x.q.dimensionality
        e = 0.125 * (1 + np.arange(x.m.size, dtype='d')).reshape(x.m.shape)
        good = True
        if f == 'own':
            arg, w = pq.Quantity(e.copy(), d), e
        elif f == 'other':
            to_arg, to = self.target_units(o, x)
            if to_arg is None:
                return True
            arg = pq.Quantity(e.copy(), to_arg)
            w = e * pure.factor(to, x.u)
        elif f == 'plain':
            arg, w, good = e.copy(), e, not x.u
        elif f == 'shape':
            arg, w, good = pq.Quantity(np.ones(x.m.shape + (2,)), d), None, False
        elif f == 'incompatible':
            arg, w, good = pq.Quantity(e.copy(), d) * pq.s ** 3, None, False
        else:
            arg, w = pq.UncertainQuantity(e.copy(), d, 0 * e), e

        if f == 'plain' and x.u:
            # dimensionless, like radians, may be convertible
            try:
                w = e * pure.factor({}, x.u)
                good = True
            except (pure.Incompatible, world.Unknown):
                pass

        def assign():
            q.uncertainty = arg
        r = run.call(t, i, o, assign, errstate={'all': 'ignore'})
        if r.exc is not None:
            if good and not r.fired and q.flags.writeable:
                run.violate('refused', '%r %s: %s' % (r, f, r.exc))
                return False
            return self.check('%r' % r)
        if not good:
            run.violate('accepted', '%s: %r' % (f, r))
            return False
        return self.settle(r, x, x.m, w)


def index(f, m):
    if f == 'ell':
        return Ellipsis
    if f == 'new':
        return None if not m.ndim else (None, Ellipsis)
    if f == 'mask':
        return (m == m) & (m > 1) if m.ndim else None
    if not m.ndim or not m.shape[0]:
        return None
    return {'first': 0, 'last': -1, 'slice': slice(1, None), 'rev': slice(None, None, -1), 'fancy': [0, -1, 0],
            'one': (0,) * m.ndim if m.size else None, 'step': (Ellipsis, slice(None, None, 2))}[f]


def make_copy(f, q, p):
    pq = world.pq
    if f == 'copy':
        return q.copy()
    if f == 'copyF':
        return q.copy('F')
    if f == 'copy.copy':
        return copy.copy(q)
    if f == 'deepcopy':
        return copy.deepcopy(q)
    if f == 'pickle':
        return pickle.loads(pickle.dumps(q, p))
    if f == 'list':
        a, b = copy.deepcopy([q, q])
        if a is not b:
            raise runner.HarnessError('not one object')
        return a
    if f == 'pickled-list':
        return pickle.loads(pickle.dumps([q, q.uncertainty], p))[0]
    if f == 'dict':
        return copy.deepcopy({'x': q, 'e': q.uncertainty})['x']
    return pq.UncertainQuantity(q.copy())


def read(f, y):
    if f == 'str':
        return str(y)
    if f == 'repr':
        return repr(y)
    if f == 'relative':
        return y.relative_uncertainty
    if f == 'eq':
        return y == y
    if f == 'lt':
        return y < 2 * y
    if f == 'tolist':
        return y.tolist()
    if f == 'magnitude':
        return y.magnitude.sum()
    if f == 'uncertainty':
        return y.uncertainty.sum()
    return y.simplified


def execute(plan, phase, carry):
    from props import c09
    c09.prepare_labels()
    pool = [world.build(s) for s in plan['pool']]
    before = [world.canon(x) for x in pool]
    run = runner.Run(plan)
    workers = {}

    def body(t, tid, prog):
        if prog and prog[0]['op'].startswith('churn'):
            for i, o in enumerate(prog):
                if o['op'] != 'nothing':
                    run.call(t, i, o, lambda: common.call_churn(o))
            return
        if tid >= len(plan['targets']):
            return
        w = workers[tid] = Worker(run, plan, pool, tid)
        for i, o in enumerate(prog):
            if o['op'] == 'nothing':
                continue
            try:
                if not w.step(t, i, o):
                    return
            except world.Unknown:
                w.objs.clear()      # units whose size is out of the range of a float
                return

    run.go(body)
    if run.blocked():
        run.violate('blocked', run.blocked())
    for i, (x, b) in enumerate(zip(pool, before)):
        if world.canon(x) != b:
            run.violate('operand-changed', 'operand %d: %s, was %s' % (i, world.short(world.canon(x)), world.short(b)))
        elif isinstance(x, world.pq.UncertainQuantity) and invariant(x):
            run.violate('operand-changed', 'operand %d %s' % (i, invariant(x)))
    if not run.violations and run.inconclusive is None:
        for w in workers.values():
            w.check('in the end')
    return run.result(nontrivial=any(w.used for w in workers.values()),
                      extra={'followed': sum(w.used for w in workers.values())})
