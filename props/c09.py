"""C09: in-place changes and views behave as plain values; copies are independent."""
import copy
import operator
import pickle

import numpy as np

from sim import common, facts, pure, runner, world

RULE_TEXT = ('A case is one simulated run: 1-3 threads, each with quantities of its own and a region of one shared '
             'array, make views, copies, conversions and arithmetic results of them and change any of these in place, '
             'under a schedule and while settings change; all objects are followed by real numpy views of plain model '
             'arrays.  Non-trivial: an object was changed in place while another object existed that shares its '
             'elements or was derived from it.')
QUICK_RUNS = 9000
QUICK_WALL = 50

DIMS = ['of', 'of', 'of', 'unit', 'copy', 'mul', 'div', 'pow', 'pow', 'pow', 'add', 'sub', 'simplified', 'imul', 'imul', 'idiv', 'idiv',
        'ipow', 'iadd', 'set', 'del', 'quantity', 'deepcopy', 'pickle']

BINARY = {'add': (operator.iadd, operator.add), 'sub': (operator.isub, operator.sub),
          'mul': (operator.imul, operator.mul), 'truediv': (operator.itruediv, operator.truediv),
          'floordiv': (operator.ifloordiv, operator.floordiv), 'mod': (operator.imod, operator.mod)}
VIEWS = ['slice', 'rev', 'T', 'ravel', 'item', 'first', 'step', 'view', 'ell', 'new', 'swap', 'reshape', 'wrap', 'real',
         'squeeze', 'diag', 'magnitude']
COPIES = ['copy', 'copy.copy', 'deepcopy', 'pickle', 'same', 'rescale', 'simplified', 'astype', 'times1', 'plus0',
          'neg', 'flatten', 'fancy', 'mask', 'array', 'getitem', 'units', 'tolist', 'preferred', 'times', 'over', 'power',
          'sum', 'abs', 'round', 'clip', 'sqrt', 'list-copy', 'rescale-unit', 'dims', 'take', 'cumsum', 'max', 'new-units',
          'sqz']


# ---------------------------------------------------------------- generation

def generate(rng, tier):
    fams = [pure.make_family(rng) for _ in range(rng.randint(1, 2))]
    nt = rng.choice([1, 1, 2, 2, 3])
    k = rng.choice([1, 2, 3])
    inner = rng.choice([[], [], [2], [3]])
    shared = pure.make_quantity(rng, rng.choice(fams), [nt * k] + inner, rng.choice(['f8', 'f8', 'f4', 'i8', 'c16']))
    shared['o'] = rng.choice('CCF')
    targets, threads = [], []
    shapes = [[nt * k] + inner] + pure.pick_shapes(rng)
    for t in range(nt):
        fam = rng.choice(fams)
        s = pure.make_quantity(rng, fam, rng.choice(shapes), rng.choice(['f8'] * 6 + ['f4', 'i8', 'i4', 'c16']))
        if s['o'] == 'R':
            s['o'] = 'C'
        targets.append(s)
        only = ['dims'] if rng.random() < 0.12 else None
        threads.append([gen_op(rng, fams, only) for _ in range(rng.randint(8, 16) if only else rng.randint(3, 10))])
    pool = [pure.make_quantity(rng, rng.choice(fams), rng.choice(shapes + [[], []])) for _ in range(rng.randint(2, 4))]
    pool.append({'t': 'n', 'x': rng.choice([2, 3.0, 0.5, -1.5, 1])})
    pool.append(dict(pure.make_quantity(rng, [], rng.choice(shapes)), t='a'))
    l = rng.choice(['m', 'km', 's', 'J', 'degree'])
    pool.append({'t': 'u', 'l': l, 'u': {l: 1}, 'f': None})
    if rng.random() < 0.3:
        threads.append([common.gen_churn(rng, ('default', 'unicode', 'preferred', 'lookup')) for _ in range(rng.randint(2, 6))])
    return {'pool': pool, 'targets': targets, 'threads': threads, 'shared': shared, 'k': k,
            'schedule': runner.make_schedule_spec(rng, sum(map(len, threads)))}


def gen_op(rng, fams, only=None):
    o = {'x': rng.random()}
    n = o['op'] = rng.choice(only or ['view'] * 4 + ['copy'] * 5 + ['bin'] * 5 + ['units'] * 2 + ['setitem'] * 3 +
                             ['put', 'fill', 'part', 'ipow', 'sort', 'out', 'out', 'raw', 'setview'] + ['dims'] * 3)
    o['how'] = rng.random()
    o['y'] = rng.random()
    if n == 'view':
        o['v'] = rng.choice(VIEWS)
    elif n == 'copy':
        o['c'] = rng.choice(COPIES)
        o['u'] = [rng.random() for _ in range(4)]
        if rng.random() < 0.15:
            o['fault'] = [rng.choice(['interrupt', 'nomem']), common.step_at(rng, 700)]
    elif n == 'bin':
        o['f'] = rng.choice(['add', 'add', 'sub', 'mul', 'mul', 'truediv', 'floordiv', 'mod'])
        o['same'] = rng.random() < (0.8 if o['f'] in ('add', 'sub', 'mod') else 0.2)
    elif n == 'units':
        o['u'] = [rng.random() for _ in range(4)]
        o['bad'] = rng.random() < 0.1
    elif n in ('setitem', 'put', 'fill', 'part', 'raw', 'setview'):
        o['key'] = rng.choice(['all', 'first', 'slice', 'mask', 'fancy', 'last'])
        o['ix'] = [rng.randrange(4) for _ in range(rng.randint(1, 3))]
        o['same'] = rng.random() < 0.85
        o['part'] = rng.choice(['real', 'imag'])
        o['v'] = rng.choice(VIEWS)
    elif n == 'dims':
        o['z'] = rng.random()
        o['f'] = rng.choice(DIMS)
        o['n'] = rng.choice([2, 2, 2, 3, 0.5, -1, 1, 0])
        o['bad'] = rng.random() < 0.1
    elif n == 'ipow':
        o['n'] = rng.choice([2, 2, 3, 0.5, -1, 1, 1, 0])
    elif n == 'out':
        o['f'] = rng.choice(['sum', 'mean', 'max', 'min', 'cumsum', 'round', 'var', 'std', 'ptp', 'clip'])
        o['axis'] = rng.choice([None, 0, -1])
    return o


def compatible_units(u, picks):
    """other units of the same dimension, per unit; u is {key: power}"""
    out = {}
    for i, (key, p) in enumerate(sorted(u.items())):
        label = LABEL_OF.get(key)
        if label is None:
            return None
        group = GROUP_OF.get(label, [label])
        l = group[int(picks[i % len(picks)] * len(group))]
        out[l] = out.get(l, 0) + p
    return {l: p for l, p in out.items() if p}


LABEL_OF = {}
GROUP_OF = {}


def prepare_labels():
    if not LABEL_OF:
        for l, k in world.KEY.items():
            LABEL_OF.setdefault(k, l)
        for l in facts.ALIAS:
            if l in world.KEY:
                LABEL_OF[world.KEY[l]] = l
        for g in facts.BIG_GROUPS:
            for l in g:
                GROUP_OF.setdefault(LABEL_OF.get(world.KEY.get(l), l), g)


# ---------------------------------------------------------------- views, of quantities and of plain arrays alike

def apply(v, q):
    """a view of q, or q itself where there is no such view"""
    if v == 'view':
        return q.view()
    if v == 'wrap':
        return world.pq.Quantity(q) if isinstance(q, world.pq.Quantity) else q.view()
    if v == 'magnitude':
        return q.magnitude if isinstance(q, world.pq.Quantity) else q
    if v == 'real' and q.dtype.kind == 'c':
        return q.real
    if not q.ndim:
        return q
    if v == 'slice':
        return q[1:]
    if v == 'rev':
        return q[::-1]
    if v == 'T':
        return q.T
    if v == 'ravel':
        r = q.reshape(-1)
        return r if np.shares_memory(plain(r), plain(q)) else q
    if v == 'item':
        return q[0] if q.ndim > 1 and q.shape[0] else q
    if v == 'first':
        return q[:1]
    if v == 'step':
        return q[..., ::2]
    if v == 'ell':
        return q[0, ...] if q.shape[0] else q
    if v == 'new':
        return q[..., None]
    if v == 'swap':
        return q.swapaxes(0, -1)
    if v == 'reshape':
        return q[None].reshape((1, 1) + q.shape)
    if v == 'squeeze':
        return q.squeeze()
    if v == 'diag' and q.ndim > 1:
        return q.transpose(tuple(range(q.ndim))[::-1])[..., :2]
    return q


def plain(x):
    return np.ndarray.view(x, np.ndarray)


def clone(a):
    """a copy with the same arrangement in memory"""
    root = a
    while isinstance(root.base, np.ndarray):
        root = root.base
    flat = root.copy(order='K').ravel(order='K')
    off = a.__array_interface__['data'][0] - root.__array_interface__['data'][0]
    return np.ndarray(a.shape, a.dtype, flat, off, a.strides) if a.size else a.copy()


def derive(c, q, plan_units):
    """an independent quantity made from q"""
    pq = world.pq
    if c == 'copy':
        return q.copy()
    if c == 'copy.copy':
        return copy.copy(q)
    if c == 'deepcopy':
        return copy.deepcopy(q)
    if c == 'list-copy':
        a, b = copy.deepcopy([q, q])
        if a is not b:
            raise runner.HarnessError('deep copy forgot that these are one')
        return a
    if c == 'pickle':
        return pickle.loads(pickle.dumps(q, 2))
    if c == 'same':
        return q.rescale(q.dimensionality)
    if c == 'dims':
        return q.rescale(q.units)
    if c in ('rescale', 'rescale-unit', 'new-units'):
        u = plan_units
        if u is None:
            return q.rescale(q.units)
        d = world.dims_object(u)
        if c == 'new-units' and d:
            return pq.Quantity(q, d) if d != q.dimensionality else q.rescale(d)
        return q.rescale(d) if c == 'rescale' else q.rescale(pq.Quantity(1.0, d).units)
    if c == 'simplified':
        return q.simplified
    if c == 'astype':
        return q.astype(q.dtype)
    if c == 'pos':
        return +q
    if c == 'neg':
        return -q
    if c == 'abs':
        return abs(q)
    if c == 'times1':
        return 1 * q
    if c == 'plus0':
        return q + 0 * q.units
    if c == 'flatten':
        return q.flatten()
    if c == 'array':
        return pq.Quantity(np.array(q), q.dimensionality)
    if c == 'units':
        return q.units
    if c == 'tolist':
        r = q.tolist()
        while isinstance(r, list) and r:
            r = r[0]
        return r if isinstance(r, pq.Quantity) else q.copy()
    if c == 'preferred':
        pq_list = pq.quantity.PREFERRED
        try:
            return q.rescale_preferred()
        except Exception:
            return q.copy()
    if c == 'times':
        return q * 2.5
    if c == 'over':
        return q / pq.s
    if c == 'power':
        return q ** 1
    if c == 'sqrt':
        return (q * q) ** 0.5
    if c == 'sum':
        return q.sum()
    if c == 'cumsum':
        return q.cumsum()
    if c == 'max':
        return q.max() if q.size and q.dtype.kind != 'c' else q.copy()
    if c == 'round':
        return q.round(3) if q.dtype.kind in 'fc' else q.copy()     # integers: numpy returns the array itself
    if c == 'clip':
        return q.clip(-5 * q.units, 5 * q.units) if q.dtype.kind != 'c' else q.copy()
    if c == 'take':
        return q.take([0]) if q.size else q.copy()
    if not q.ndim or not q.shape[0]:
        return q.copy()
    if c == 'fancy':
        return q[[0, -1]]
    if c == 'mask':
        return q[plain(q) == plain(q)]
    if c == 'getitem':
        return q[0] if q.ndim == 1 else q.copy()
    return q.copy()


def power(u, n):
    return {k: p * n for k, p in u.items() if p * n}


def product(u, v, sign):
    w = dict(u)
    for k, p in v.items():
        w[k] = w.get(k, 0) + sign * p
    return {k: p for k, p in w.items() if p}


class Base:
    """the elements of one array and their units"""
    __slots__ = ('m', 'u', 'objs', 'region')

    def __init__(self, m, u, region=False):
        self.m, self.u, self.objs, self.region = m, u, [], region


class Obj:
    __slots__ = ('q', 'base', 'path', 'view', 'n')

    def __init__(self, q, base, path, view, n):
        self.q, self.base, self.path, self.view, self.n = q, base, path, view, n
        base.objs.append(self)

    def model(self):
        a = self.base.m
        for v in self.path:
            a = apply(v, a)
        return a


def same_bits(a, b):
    return a.shape == b.shape and a.dtype == b.dtype and world._bytes(np.array(a)) == world._bytes(np.array(b))


def key_of(o, t):
    k = o['key']
    if k == 'all' or not t.ndim:
        return Ellipsis
    if k == 'first':
        return 0
    if k == 'last':
        return -1
    if k == 'slice':
        return slice(1, None)
    if k == 'fancy':
        return [0, -1]
    return plain(t).real > 2


class Worker:

    def __init__(self, run, plan, pool, tid, shared):
        self.run, self.plan, self.pool = run, plan, pool
        self.bases, self.objs, self.dims = [], [], []
        self.changes = self.derived = self.stale = 0
        q = world.build(plan['targets'][tid])
        b = Base(clone(plain(q)), world.units_of(q.dimensionality))
        self.add(Obj(q, b, [], False, 0))
        if shared is not None:
            k = plan['k']
            r = shared[tid * k:(tid + 1) * k]
            b = Base(clone(plain(r)), world.units_of(r.dimensionality), True)
            self.add(Obj(r, b, [], True, 1))

    def add(self, obj):
        self.objs.append(obj)
        if obj.base not in self.bases:
            self.bases.append(obj.base)

    def check(self, what):
        """every object still shows what the model says"""
        for b in self.bases:
            for o in b.objs:
                m = o.model()
                if 'magnitude' not in o.path and world.units_of(o.q.dimensionality) != b.u:
                    self.run.violate('units-differ', '%s: object %d %s has units %s instead of %s' % (
                        what, o.n, o.path, world.units_of(o.q.dimensionality), b.u))
                    return False
                if 'magnitude' not in o.path and (
                        plain(o.q.units) != 1 or world.units_of(o.q.units.dimensionality) != b.u):
                    self.run.violate('units-differ', '%s: object %d %s has units %s instead of %s' % (
                        what, o.n, o.path, o.q.units, b.u))
                    return False
                if not same_bits(plain(o.q), m):
                    self.run.violate('disturbed', '%s: object %d %s is %s instead of %s' % (
                        what, o.n, o.path, plain(o.q).tolist(), m.tolist()))
                    return False
        for j, (d, u) in enumerate(self.dims):
            if world.units_of(d) != u:
                self.run.violate('disturbed', '%s: dimensionality %d is %s instead of %s' % (what, j, world.units_of(d), u))
                return False
            new = world.pq.dimensionality.Dimensionality(dict(d))
            if not d == new or d != new or hash(d) != hash(new):
                self.run.violate('unlike-itself', '%s: dimensionality %d, %s, is not recognised as what it is' % (what, j, u))
                return False
        return True

    def dims_step(self, t, i, o):
        """an operation on dimensionalities; each of them has a plain dictionary as its model"""
        pq = world.pq
        f, n = o['f'], o['n']
        if not self.dims and f not in ('of', 'unit'):
            f = 'of'
        q = self.pick(o['x'])
        if self.dims:
            k = int(o['x'] * len(self.dims))
            d, u = self.dims[k]
            e, v = self.dims[int(o['y'] * len(self.dims))]
            if f in ('add', 'sub', 'iadd') and not o['bad']:
                e, v = next(((e, v) for e, v in self.dims[::-1] if v == u), (e, v))
        change = False
        if f in ('of', 'unit'):
            # of a quantity, or of a unit
            if f == 'of':
                fn, w = (lambda: q.q.dimensionality), dict(q.base.u)
            else:
                x = self.pool[-1]
                fn, w = (lambda: x.dimensionality), {world.ukey(x): 1}
        elif f == 'quantity':
            # in arithmetic on a quantity with these units
            fn, w = (lambda: ((pq.Quantity(3.0, d)) ** n).dimensionality), power(u, n)
        elif f in ('copy', 'deepcopy', 'pickle'):
            fn, w = (lambda: {'copy': d.copy, 'deepcopy': lambda: copy.deepcopy(d),
                              'pickle': lambda: pickle.loads(pickle.dumps(d))}[f]()), dict(u)
        elif f == 'simplified':
            fn, w = (lambda: d.simplified), None
        elif f in ('add', 'sub'):
            fn, w = (lambda: d + e if f == 'add' else d - e), dict(u) if u == v else ValueError()
        elif f in ('mul', 'div'):
            fn, w = (lambda: d * e if f == 'mul' else d / e), product(u, v, 1 if f == 'mul' else -1)
        elif f == 'pow':
            fn, w = (lambda: d ** n), power(u, n)
        else:
            change = True
            if f in ('imul', 'idiv') and d is e:
                e, v = e.copy(), dict(v)
            if f in ('imul', 'idiv'):
                fn, w = (lambda: operator.imul(d, e) if f == 'imul' else operator.itruediv(d, e)), \
                    product(u, v, 1 if f == 'imul' else -1)
            elif f == 'ipow':
                fn, w = (lambda: operator.ipow(d, n)), power(u, n)
            elif f == 'iadd':
                fn, w = (lambda: operator.iadd(d, e)), dict(u) if u == v else ValueError()
            elif f == 'set':
                x = self.pool[-1]
                fn, w = (lambda: operator.setitem(d, x, 5)), dict(u, **{world.ukey(x): 5})
            else:
                fn, w = d.clear, {}
        r = self.run.call(t, i, dict(o, of=k if self.dims else None), fn)
        y, r.res = r.res, None
        what = '%r' % r
        if isinstance(w, Exception):
            if r.exc is None:
                self.run.violate('accepted', what)
                return False
            return self.check(what)
        if r.exc is not None:
            self.run.violate('refused', '%s: %s' % (what, r.exc))
            return False
        if change:
            if f not in ('set', 'del') and y is not d:
                self.run.violate('another-object', what)
                return False
            u.clear()
            u.update(w)
            self.changes += 1
            self.derived += 1
            return self.check(what)
        if w is None:
            w = world.units_of(y)
        elif world.units_of(y) != w:
            self.run.violate('wrong-value', '%s of %s is %s instead of %s' % (
                what, self.dims and (u, v), world.units_of(y), w))
            return False
        if any(y is x for x, _ in self.dims):
            self.run.violate('shared-storage', '%s is an operand itself' % what)
            return False
        if len(self.dims) < 8:
            self.dims.append((y, w))
        return self.check(what)

    # -- the operations
    def pick(self, x, like=None, quantity=True):
        c = [o for o in self.objs if 'magnitude' not in o.path] if quantity else self.objs
        return c[int(x * len(c))]

    def operand(self, o, t):
        """another quantity, number or array; the same as an independent copy"""
        own = [b for b in self.objs if 'magnitude' not in b.path and b.base.u == t.base.u
               and (b.q.shape == t.q.shape or b.q.shape == ())]
        if o['how'] < 0.35 and own:
            b = own[int(o['y'] * len(own))]
            x = b.q
            return x, world.pq.Quantity(b.model().copy(), x.dimensionality)
        c = range(len(self.pool))
        if o.get('same'):
            dim = dims_of(t.base.u)
            c = [i for i in c if isinstance(self.pool[i], world.pq.Quantity) and self.pool[i].shape in ((), t.q.shape)
                 and dims_of(world.units_of(self.pool[i].dimensionality)) == dim] or list(c)
        x = self.pool[c[int(o['y'] * len(c))]]
        if o.get('same') and o['how'] > 0.8 and isinstance(x, world.pq.Quantity):
            x = t.q.units
            x *= 2.5
        return x, x

    def judge(self, r, t, o, fn, want, physical=None, exact_units=True):
        """after an operation through object t.
        want: (new plain values of t, its units) or the exception that the ordinary operation raised."""
        b = t.base
        u0 = b.u
        what = '%r on object %d %s of %s' % (r, t.n, t.path, b.m.dtype)
        if isinstance(want, Exception):
            if r.exc is None:
                self.run.violate('accepted', '%s: the ordinary operation raises %s: %s' % (
                    what, type(want).__name__, str(want)[:100]))
                return False
            return self.check(what)
        new, u = want
        refuse = None
        if t.view and u != u0:
            refuse = 'it would change the units of a view'
        elif new.shape != t.q.shape:
            refuse = 'the shape does not fit'
        elif not np.can_cast(new.dtype, t.q.dtype, 'same_kind'):
            refuse = 'the dtype does not fit'
        if refuse:
            if r.exc is None:
                self.run.violate('accepted', '%s although %s' % (what, refuse))
                return False
            return self.check(what)
        if r.exc is not None:
            if o['op'] == 'ipow' and t.view:
                return self.check(what)
            self.run.violate('refused', '%s: %s; should become %s %s' % (what, str(r.exc)[:100], world.short(new.tolist()), u))
            return False
        if isinstance(r.res, world.pq.Quantity) and r.res is not t.q:
            self.run.violate('another-object', '%s' % what)
            return False
        if u != u0:
            others = [x for x in b.objs if x is not t]
            for x in others:
                if 'magnitude' in x.path:
                    continue
                f1, d1 = world.size_of(u)
                try:
                    f2, d2 = world.size_of(world.units_of(x.q.dimensionality))
                    stale = d1 != d2 or abs(f1 - f2) > 1e-9 * f1
                except world.Unknown:
                    stale = True
                if stale:
                    self.stale += 1
                    self.run.violate('stale-view', 'after the units of a base array changed, existing views show another '
                                     'physical value: %s; object %d' % (what, x.n))
            keep = [x for x in self.objs if x.base is not b or x is t or 'magnitude' in x.path]
            self.objs[:] = keep
            b.objs[:] = [x for x in b.objs if x is t or 'magnitude' in x.path]
            b.u = u
        with np.errstate(all='ignore'):
            new = new.astype(t.q.dtype)
            if new.dtype.kind in 'fc' and o['op'] in ('bin', 'ipow', 'out'):
                # numpy may round differently in place
                near = abs(plain(t.q) - new) <= 4 * np.finfo(new.dtype).eps * abs(new)
                new = np.where(near, plain(t.q), new)
            t.model()[...] = new
        self.changes += 1
        if any(x is not t for x in b.objs):
            self.derived += 1
        if not self.check(what):
            return False
        if physical is not None:
            try:
                e = physical()
            except (world.Unknown, pure.Incompatible):
                return True
            if e is None or t.q.dtype.kind in 'iu' and not np.all(abs(e.m) < 1e9):
                return True
            c = pure.compare(t.q, e, pure.rtol_of(t.q))
            if c:
                self.run.violate('wrong-value', '%s: %s' % (what, c))
                return False
        return True

    def step(self, t, i, o):
        run, pq = self.run, world.pq
        n = o['op']
        if n == 'dims':
            return self.dims_step(t, i, o)
        if n == 'view':
            x = self.pick(o['x'])
            r = run.call(t, i, o, lambda: apply(o['v'], x.q))
            if r.exc is not None:
                run.violate('refused', '%r %s' % (r, r.exc))
                return False
            y, r.res = r.res, None
            ret = Obj(y, x.base, x.path + [o['v']], True, len(self.objs))
            if y is x.q:
                x.base.objs.remove(ret)
                return True
            if not isinstance(y, np.ndarray) or (y.size and x.q.size and not np.shares_memory(plain(y), plain(x.q))):
                run.violate('not-a-view', '%r' % r)
                return False
            self.add(ret)
            return self.check('%r' % r)
        if n == 'copy':
            x = self.pick(o['x'])
            u = compatible_units(x.base.u, o['u'])
            m = x.model().copy()
            r = run.call(t, i, o, lambda: derive(o['c'], x.q, u))
            y, r.res = r.res, None
            if not self.check('%r' % r):
                return False
            if r.exc is not None:
                if not r.fired and o['c'] in ('copy', 'copy.copy', 'deepcopy', 'list-copy', 'pickle', 'same', 'dims'):
                    run.violate('refused', '%r %s' % (r, r.exc))
                    return False
                return True
            for z in self.objs:
                if np.shares_memory(plain(y), plain(z.q)):
                    run.violate('shared-storage', '%s: %r shares storage with object %d' % (o['c'], r, z.n))
                    return False
            if o['c'] in ('copy', 'copy.copy', 'deepcopy', 'list-copy', 'pickle', 'same', 'dims'):
                if not same_bits(plain(y), m) or world.units_of(y.dimensionality) != x.base.u:
                    run.violate('unlike-source', '%r of %s gave %s %s' % (r, m.tolist(), plain(y).tolist(), y.dimensionality))
                    return False
            b = Base(clone(plain(y)), world.units_of(y.dimensionality))
            if len(self.objs) < 14 and o['c'] != 'new-units':     # that one counts as a view
                self.add(Obj(y, b, [], False, len(self.objs)))
            return True
        if n == 'raw':
            x = self.pick(o['x'])
            v = 4.0
            key = key_of(o, x.q)
            r = run.call(t, i, o, lambda: operator.setitem(x.q.magnitude, key, v))
            if r.exc is not None:
                return self.check('%r' % r)
            r.res = None
            new = x.model().copy()
            new[key] = v
            return self.judge(r, x, o, None, (new, x.base.u))
        x = self.pick(o['x'])
        q = x.q
        d = q.dimensionality
        twin = pq.Quantity(x.model().copy(order='K'), d)
        if n == 'bin':
            a, b = self.operand(o, x)
            inplace, ordinary = BINARY[o['f']]
            b = copy.deepcopy(b) if not isinstance(b, pq.UnitQuantity) else b
            with np.errstate(all='ignore'):
                try:
                    e = ordinary(twin, b)
                    want = plain(np.asanyarray(e)), world.units_of(e.dimensionality)
                except Exception as ex:
                    want = ex
            phys = None
            if o['f'] in ('add', 'sub', 'mul', 'truediv') and not isinstance(want, Exception):
                model = {'add': pure.m_add, 'sub': pure.m_sub, 'mul': pure.m_mul, 'truediv': pure.m_div}[o['f']]

                def phys():
                    return model(twin, b)
            r = run.call(t, i, dict(o, on=x.n), lambda: inplace(q, a), errstate={'all': 'ignore'})
            return self.judge(r, x, o, None, want, phys)
        if n == 'ipow':
            with np.errstate(all='ignore'):
                try:
                    e = twin ** o['n']
                    want = plain(np.asanyarray(e)), world.units_of(e.dimensionality)
                except Exception as ex:
                    want = ex
            r = run.call(t, i, dict(o, on=x.n), lambda: operator.ipow(q, o['n']), errstate={'all': 'ignore'})
            return self.judge(r, x, o, None, want, lambda: NONE if twin.dtype.kind in 'iu' else pure.m_pow(twin, o['n']))
        if n == 'units':
            u = compatible_units(x.base.u, o['u'])
            if u is None:
                return True
            if o['bad']:
                u['s' if 's' not in u else 'm'] = 7
            dims = world.dims_object(u)
            to = world.key_units(u)

            def setunits():
                q.units = dims
            r = run.call(t, i, dict(o, on=x.n), setunits, errstate={'all': 'ignore'})
            if x.view and to == x.base.u:
                return self.check('%r' % r)         # refused or without effect
            try:
                f = pure.factor(x.base.u, to)
            except pure.Incompatible:
                return self.judge(r, x, o, None, ValueError('incompatible units'))
            if to == x.base.u:
                return self.judge(r, x, o, None, (plain(twin), to))
            with np.errstate(all='ignore'):
                want = plain(twin) * f
            if r.exc is None and not x.view:
                # up to rounding
                with np.errstate(all='ignore'):
                    now = pure.wide(plain(q))
                    ok = (abs(now - want) <= pure.rtol_of(q) * abs(want) + 1e-300) | (now == want) | np.isnan(want)
                    if pure.rtol_of(q) > 1e-6:
                        ok |= (abs(want) > 1e30) | (abs(want) < 1e-30)
                if not np.all(ok) and np.can_cast(want.dtype, q.dtype, 'same_kind'):
                    run.violate('wrong-value', '%r: %s %s became %s, not %s' % (
                        r, twin.tolist(), x.base.u, now.tolist(), want.tolist()))
                    return False
                if np.can_cast(want.dtype, q.dtype, 'same_kind'):
                    want = plain(q).copy()
            return self.judge(r, x, o, None, (want, to))
        if n in ('setitem', 'put', 'fill', 'part', 'setview'):
            a, b = self.operand(o, x)
            if o['key'] == 'mask':
                a = b       # numpy does not mind overlaps here
            tq, tm, path = q, x.model(), None
            if n == 'setview':
                # through a temporary view
                n2, path = 'setitem', o['v']
                if path == 'magnitude':
                    path = 'view'
                tm = apply(path, tm)
            else:
                n2 = n
            want = self.assigned(o, n2, x, tm, b, path)
            r = run.call(t, i, dict(o, on=x.n), lambda: assign(o, n2, tq, a, path), errstate={'all': 'ignore'})
            r.res = None
            if isinstance(want, str):       # not decided by the model
                if r.exc is None:
                    return self.judge(r, x, o, None, (plain(q).copy(), world.units_of(q.dimensionality)))
                return self.check('%r' % r)
            if r.exc is None and not isinstance(want, Exception):
                new, u = want
                with np.errstate(all='ignore'):
                    now, e = pure.wide(plain(q)), pure.wide(new.astype(q.dtype))
                    ok = (abs(now - e) <= pure.rtol_of(q, b) * abs(e) + 1e-300) | (now == e) | np.isnan(e)
                    if q.dtype.kind in 'iu':
                        ok |= abs(now - e) <= 1
                    if pure.rtol_of(q, b) > 1e-6:
                        ok |= ~(abs(e) < 1e30) | (abs(e) < 1e-30)
                if not np.all(ok):
                    run.violate('wrong-value', '%r: %s %s became %s, not %s (of %r)' % (
                        r, twin.tolist(), x.base.u, now.tolist(), e.tolist(), b))
                    return False
                # what was not addressed stays as it is, bit for bit
                mask = np.ones(x.base.m.shape, bool) if path == 'real' or 'real' in x.path else self.mask(o, n2, x, path)
                m0 = x.model().copy()
                old = x.base.m.copy()
                x.model()[...] = plain(q)
                keep = ~mask & ~((x.base.m == old) | ((x.base.m != x.base.m) & (old != old)))
                if np.any(keep):
                    run.violate('disturbed', '%r changed other elements: %s became %s' % (r, old.tolist(), x.base.m.tolist()))
                    return False
                want = (plain(q).copy(), u)
            if isinstance(want, Exception) or n == 'setview':
                if isinstance(want, Exception) and r.exc is None:
                    run.violate('accepted', '%r: %s' % (r, want))
                    return False
                if r.exc is not None and not isinstance(want, Exception):
                    run.violate('refused', '%r: %s' % (r, r.exc))
                    return False
                self.changes += r.exc is None
                return self.check('%r' % r)
            return self.judge(r, x, o, None, want)
        if n == 'sort':
            if q.dtype.kind == 'c' or not q.ndim:
                return True
            e = plain(twin).copy()
            e.sort(axis=-1)
            r = run.call(t, i, dict(o, on=x.n), lambda: q.sort(axis=-1))
            return self.judge(r, x, o, None, (e, x.base.u))
        if n == 'out':
            c = [b for b in self.objs if 'magnitude' not in b.path]
            s = c[int(o['y'] * len(c))]
            # in the same layout: the extrema of numpy 2.0 are wrong for some reversed views
            src = pq.Quantity(s.model(), s.q.dimensionality)
            out = pq.Quantity(x.model().copy(), d)
            with np.errstate(all='ignore'):
                try:
                    statistic(o, src, out)
                    want = plain(out), world.units_of(out.dimensionality)
                except Exception as ex:
                    want = ex
            r = run.call(t, i, dict(o, on=x.n, of=s.n), lambda: statistic(o, s.q, q), errstate={'all': 'ignore'})
            if r.res is not q:
                r.res = None
            return self.judge(r, x, o, None, want)
        raise ValueError(n)

    def assigned(self, o, n, x, tm, b, path):
        """(all new values of object x, its units), an exception, or a reason why the model does not say"""
        pq = world.pq
        u = x.base.u
        m = tm.copy()
        val = pure.mv(b)
        if n == 'fill':
            bu = world.units_of(b.dimensionality) if hasattr(b, 'dimensionality') else u
            if np.ndim(b) and np.size(b) != 1:
                return ValueError('fills with one value only')
            if np.ndim(b):
                return 'numpy decides'
            if x.view and bu != u:
                return ValueError('units of a view')
            if pure.wide(b).dtype.kind == 'c' and m.dtype.kind != 'c' or m.dtype.kind in 'iu':
                return 'numpy decides'
            m[...] = b.magnitude if isinstance(b, pq.Quantity) else b
            return m, bu
        try:
            f = pure.factor(val.u, u) if n != 'part' or isinstance(b, pq.Quantity) else 1.0
        except pure.Incompatible:
            return ValueError('incompatible units')
        with np.errstate(all='ignore'):
            v = val.m * f
        if v.dtype.kind == 'c' and (m.dtype.kind != 'c' or o['op'] == 'part') or m.dtype.kind in 'iu' and np.any(~(abs(v) < 1e9)):
            return 'numpy decides'
        if v.dtype.kind == 'c' and val.u != u:
            return 'numpy decides'
        if m.dtype.kind in 'iu':
            v = np.trunc(v.real) if np.any(v != np.trunc(v.real)) else v
        full = clone(x.model())
        view = apply(path, full) if path else full
        with np.errstate(all='ignore'):
            try:
                if n == 'setitem':
                    view[key_of(o, view)] = v
                elif n == 'put':
                    view.put(o['ix'], v.astype(view.dtype), 'wrap')
                elif o['part'] == 'real':
                    view.real = v
                else:
                    view.imag = v
            except Exception as e:
                return e
        return full, u

    def mask(self, o, n, x, path):
        a = clone(x.base.m)
        a[...] = 0
        v = a
        for p in x.path:
            v = apply(p, v)
        if path:
            v = apply(path, v)
        if n == 'setitem':
            t = x.model()
            if path:
                t = apply(path, t)
            v[key_of(o, t) if o['key'] != 'mask' else Ellipsis] = 1
        elif n == 'put':
            v.put(o['ix'], 1, 'wrap')
        else:
            v[...] = 1
        return a != 0


NONE = None


def statistic(o, src, out):
    f = o['f']
    if f == 'round':
        src.round(1, out=out)
    elif f == 'clip':
        src.clip(-2 * src.units, 3 * src.units, out=out)
    else:
        getattr(src, f)(axis=o['axis'], out=out)
    return out


def assign(o, n, q, a, path):
    if path:
        q = apply(path, q)
    if n == 'setitem':
        q[key_of(o, q)] = a
    elif n == 'put':
        q.put(o['ix'], a, 'wrap')
    elif n == 'fill':
        q.fill(a)
    elif o['part'] == 'real':
        q.real = a
    else:
        q.imag = a


def dims_of(u):
    try:
        return world.size_of(u)[1]
    except world.Unknown:
        return None


def execute(plan, phase, carry):
    prepare_labels()
    pool = [world.build(s) for s in plan['pool']]
    before = [world.canon(x) for x in pool]
    shared = world.build(plan['shared'])
    run = runner.Run(plan)
    workers = {}

    def body(t, tid, prog):
        if prog and prog[0]['op'].startswith('churn'):
            for i, o in enumerate(prog):
                if o['op'] != 'nothing':
                    run.call(t, i, o, lambda: common.call_churn(o))
            return
        if tid >= len(plan['targets']):
            return
        w = workers[tid] = Worker(run, plan, pool, tid, shared)
        for i, o in enumerate(prog):
            if o['op'] == 'nothing':
                continue
            if not w.step(t, i, o):
                return

    run.go(body)
    if run.blocked():
        run.violate('blocked', run.blocked())
    for i, (x, b) in enumerate(zip(pool, before)):
        if world.canon(x) != b:
            run.violate('operand-changed', 'operand %d: %s, was %s' % (i, world.short(world.canon(x)), world.short(b)))
    if not any(v['class'] != 'stale-view' for v in run.violations) and run.inconclusive is None:
        m = world.raw(plan['shared']).copy()
        k = plan['k']
        for tid, w in workers.items():
            for b in w.bases:
                if b.region:
                    m[tid * k:(tid + 1) * k] = b.m
            w.check('in the end')
        if not same_bits(plain(shared), m):
            run.violate('disturbed', 'the shared array is %s, the threads left %s' % (plain(shared).tolist(), m.tolist()))
    return run.result(nontrivial=any(w.derived or len(w.bases) > 2 and w.changes for w in workers.values()),
                      extra={'changes': sum(w.changes for w in workers.values()),
                             'stale_views': sum(w.stale for w in workers.values())})
