"""Operations that modify none of their operands: how to call them, and what plain arithmetic says they give.

The model works on (plain array, {unit key: power}) and on the hand-typed table of facts only.
"""
import copy
import operator
import pickle

import numpy as np

from . import facts, world
from .facts import FACT, GROUPS, BIG_GROUPS


class Incompatible(Exception):
    """the operation has to raise"""


class MV:
    """a value of the model"""
    __slots__ = ('m', 'u', 'scale', 'rough')

    def __init__(self, m, u, scale=None):
        self.m = np.asarray(m)
        self.u = {k: p for k, p in u.items() if abs(p) > 1e-9}
        self.scale = scale
        self.rough = False


def wide(a):
    a = np.asarray(a)
    if a.dtype.kind == 'c':
        return a.astype('c16')
    if a.dtype.kind == 'O':
        return a.astype('f8')
    return a.astype('f8')


def mv(x):
    pq = world.pq
    if isinstance(x, pq.Quantity):
        if isinstance(x, pq.UnitQuantity) and type(x).__name__ == 'Dimensionless':
            return MV(1.0, {})
        return MV(wide(np.ndarray.view(x, np.ndarray)), world.units_of(x.dimensionality))
    return MV(wide(x), {})


def factor(fr, to):
    if fr == to:
        return 1.0
    f1, b1 = world.size_of(fr)
    f2, b2 = world.size_of(to)
    if b1 != b2:
        raise Incompatible()
    return f1 / f2


def combine(u, v, sign):
    r = dict(u)
    for k, p in v.items():
        r[k] = r.get(k, 0) + sign * p
    return {k: p for k, p in r.items() if abs(p) > 1e-9}


def power(u, p):
    return {k: q * p for k, q in u.items()} if p else {}


def _conv(b, to):
    return b.m * factor(b.u, to)


# ---- models

def m_add(a, b):
    plain = not isinstance(a, world.pq.Quantity)
    a, b = mv(a), mv(b)
    if plain:
        a = MV(_conv(a, b.u), b.u)
    c = _conv(b, a.u)
    return MV(a.m + c, a.u, abs(a.m) + abs(c))


def m_sub(a, b):
    plain = not isinstance(a, world.pq.Quantity)
    a, b = mv(a), mv(b)
    if plain:
        a = MV(_conv(a, b.u), b.u)
    c = _conv(b, a.u)
    return MV(a.m - c, a.u, abs(a.m) + abs(c))


def m_mul(a, b):
    a, b = mv(a), mv(b)
    return MV(a.m * b.m, combine(a.u, b.u, 1))


def m_div(a, b):
    a, b = mv(a), mv(b)
    with np.errstate(all='ignore'):
        return MV(a.m / b.m, combine(a.u, b.u, -1))


def m_pow(a, p):
    a = mv(a)
    with np.errstate(all='ignore'):
        return MV(a.m ** p, power(a.u, p))


def m_cmp(f):
    def g(a, b):
        pq = world.pq
        a0, b0 = a, b
        a, b = mv(a), mv(b)
        if isinstance(b0, pq.Quantity):
            try:
                c = _conv(b, a.u)
            except Incompatible:
                if a.m.shape != b.m.shape:
                    return NotImplemented
                if f is operator.eq:
                    return np.zeros(a.m.shape, bool)
                if f is operator.ne:
                    return np.ones(a.m.shape, bool)
                raise
        else:
            c = b.m
        rough = rtol_of(a0, b0)
        if rough > 1e-6 and np.any((abs(c) > 1e20) | ((abs(c) < 1e-20) & (abs(c) > 0))):
            return NotImplemented
        close = abs(a.m - c) <= max(rough, 1e-6) * (abs(a.m) + abs(c))
        if np.any(close):
            return NotImplemented       # rounding decides
        return f(a.m, c)
    return g


def same_units(f):
    """numpy functions that take identical units only"""
    def g(a, b):
        a0, b0 = a, b
        a, b = mv(a), mv(b)
        if a.u != b.u:
            q = world.pq.Quantity
            if isinstance(a0, q) and isinstance(b0, q):
                raise Incompatible()
            return NotImplemented
        return MV(f(a.m, b.m), a.u, abs(a.m) + abs(b.m))
    return g


def reduction(f, p=1):
    def g(a, **kw):
        a = mv(a)
        with np.errstate(all='ignore'):
            return MV(f(a.m, **kw), power(a.u, p), np.nanmax(abs(a.m), initial=0) ** p * max(1, a.m.size))
    return g


def same(f):
    def g(a, *x, **kw):
        a = mv(a)
        return MV(f(a.m, *x, **kw), a.u)
    return g


def quantity_like(x):
    return isinstance(x, world.pq.Quantity)


def exact(f):
    """a numpy function of one operand that keeps the units; not of uncertain quantities"""
    def g(a, *x, **kw):
        if isinstance(a, world.pq.UncertainQuantity) or not np.asarray(a).size:
            return NotImplemented
        a = mv(a)
        return MV(f(a.m, *x, **kw), a.u, np.nanmax(abs(a.m), initial=0) * max(1, a.m.size))
    return g


def index(f):
    """a numpy function of one operand with plain results"""
    def g(a, *x, **kw):
        if not np.asarray(a).size:
            return NotImplemented
        return MV(f(np.asarray(a), *x, **kw), {})
    return g


def plain_units(f, u=None):
    """numpy functions that take dimensionless operands only"""
    def g(a):
        if isinstance(a, world.pq.UncertainQuantity):
            return NotImplemented
        a = mv(a)
        if a.u:
            raise Incompatible()
        return MV(f(a.m), u or {})
    return g


def of_angle(f, label, u=None):
    """numpy functions that take one unit of angle, or one of the same size, only"""
    def g(a):
        if isinstance(a, world.pq.UncertainQuantity):
            return NotImplemented
        a = mv(a)
        to = world.key_units({label: 1})
        c = factor(a.u, to)
        if abs(c - 1) > 1e-6:
            raise Incompatible()
        if a.u != to and any(p != int(p) for p in a.u.values()):
            return NotImplemented       # rounding decides
        return MV(f(a.m), world.key_units(u) if u else {})
    return g


def converted(f, label, u=None):
    """functions of umath: the operand is converted to these units first"""
    def g(a):
        if isinstance(a, world.pq.UncertainQuantity):
            return NotImplemented
        a = mv(a)
        x = _conv(a, world.key_units({label: 1}) if label else {})
        r = MV(f(x), world.key_units(u) if u else {})
        # rounding of the argument
        r.scale = np.maximum(abs(r.m), np.maximum(abs(x), 1e3))
        return r
    return g


def m_arctan2(units, convert):
    def g(a, b):
        if not (quantity_like(a) and quantity_like(b)):
            return NotImplemented
        a, b = mv(a), mv(b)
        if a.u != b.u and not convert:
            raise Incompatible()
        return MV(np.arctan2(a.m, _conv(b, a.u)), world.key_units(units), 4.0)
    return g


def both(f):
    """comparing ufuncs and others that take identical units and give plain results"""
    h = same_units(f)

    def g(a, b):
        r = h(a, b)
        return r if r is NotImplemented else np.asarray(r.m)
    return g


class DV:
    """a dimensionality of the model"""

    def __init__(self, u):
        self.u = u


def m_dims(sign):
    def g(a, b):
        if not hasattr(b, 'dimensionality') or not hasattr(a, 'dimensionality'):
            return NotImplemented
        return DV(combine(mv(a).u, mv(b).u, sign))
    return g


OPS = {}        # name -> (gen, run, model, flags)


def op(name, gen, run, model=None, w=1.0, tags=()):
    OPS[name] = (gen, run, model, w, frozenset(tags))


# ---- operand choice at generation time

class Gen:
    """chooses operands from the specs of a pool"""

    def __init__(self, rng, pool):
        self.rng = rng
        self.pool = pool
        self.by = {}
        for i, s in enumerate(pool):
            self.by.setdefault(s['t'], []).append(i)
        self.nops = 0

    def some(self, *kinds):
        c = [i for k in kinds for i in self.by.get(k, ())]
        return self.rng.choice(c) if c else None

    def quantity(self, chain=True):
        i = self.some('q', 'q', 'q', 'uq', 'u') if self.rng.random() < 0.9 else self.some('q', 'uq')
        if i is None:
            i = self.some('q', 'uq', 'u')
        return self.maybe_result(i) if chain else i

    def arrayq(self):
        c = [i for i in self.by.get('q', []) + self.by.get('uq', []) if self.pool[i]['sh']]
        return self.rng.choice(c) if c else None

    def maybe_result(self, i):
        if self.nops and self.rng.random() < 0.2:
            return ['r', self.rng.randrange(self.nops), i]
        return i

    def fam(self, i):
        if isinstance(i, list):
            i = i[2]
        return self.pool[i].get('f')

    def partner(self, i):
        """an operand that goes with i, mostly of the same dimension and shape"""
        f = self.fam(i)
        r = self.rng.random()
        if r < 0.2:
            c = [j for j, s in enumerate(self.pool) if s.get('near') and s['near'] == f]
            if c:
                return self.rng.choice(c)
        if r < 0.8:
            c = [j for j, s in enumerate(self.pool) if s['t'] in ('q', 'uq', 'u') and s.get('f') == f
                 and self.fits(i, j)]
            if c:
                return self.rng.choice(c)
        if r < 0.88:
            return self.some('a', 'n')
        return self.some('q', 'uq', 'u')

    def shape(self, i):
        if isinstance(i, list):
            i = i[2]
        return tuple(self.pool[i].get('sh', ()))

    def fits(self, i, j):
        a, b = self.shape(i), self.shape(j)
        return a == b or a == () or b == ()

    def target(self, i):
        """units of the dimension of i, as {label: power}"""
        f = self.fam(i)
        if f is None:
            return {'m': 1}
        if f and self.rng.random() < 0.06:
            f = near_miss(self.rng, f)
        return pick_units(self.rng, f)


def near_miss(rng, family):
    """the same units to other powers"""
    fam = [[labels, p] for labels, p in family]
    k = rng.randrange(len(fam))
    p = fam[k][1]
    fam[k][1] = rng.choice([-p, p - 1, p + 1, p - 2, p + 2, 2 * p, 3 * p, -2 * p, p + 0.5, p / 2])
    return fam


def pick_units(rng, family):
    """a family is [[labels], power] pairs; one label of each"""
    u = {}
    for labels, p in family:
        l = rng.choice(labels)
        u[l] = u.get(l, 0) + p
    return {l: p for l, p in u.items() if p}


def make_family(rng):
    r = rng.random()
    if r < 0.07:
        return []
    if r < 0.12:
        return [[rng.choice([['C:natural_unit_of_velocity', 'X:km/h', 'knot'], ['C:electron_mass', 'kg', 'g', 'lb']]), 1]]
    if r < 0.17:
        return [[['X:kg*m**2', 'X:kg*m**2'], 1]]
    if r < 0.2:
        return [[['X:g*cm**2/s**2', 'X:ft*lbf', 'J', 'eV', 'cal'], 1]]
    if r < 0.23:
        # different units that look alike
        return [[rng.choice(world.HOMOGRAPHS), rng.choice([1, 1, -1, 2])]] + \
            ([[rng.choice(BIG_GROUPS), rng.choice([1, -1])]] if rng.random() < 0.3 else [])
    n = 1 if r < 0.65 else 2 if r < 0.92 else 3
    fam = []
    for _ in range(n):
        g = rng.choice(BIG_GROUPS)
        p = rng.choice([1, 1, 1, -1, -1, 2, -2, 3, 0.5]) if n > 1 or rng.random() < 0.3 else 1
        k = [l for l in g]
        fam.append([k, p])
    return fam


ANGLES = [l for g in BIG_GROUPS if 'rad' in g for l in g]
DTYPES = ['f8'] * 10 + ['f4', 'i8', 'i4', 'c16']
SHAPES = [[]] * 5 + [[1], [2], [3], [3], [5], [2, 3], [3, 2], [3, 3], [2, 2, 2], [0], [1, 3]]
LARGE = [[70], [130], [300], [9, 8], [40, 30], [1100], [2500]]


def pick_shapes(rng, n=2, large=0.06):
    """a few shapes, one of them sometimes large"""
    r = [rng.choice(SHAPES) for _ in range(n)]
    if rng.random() < large:
        r[rng.randrange(n)] = rng.choice(LARGE)
    return r


def values(rng, n, dt, special=0.05):
    out = []
    for _ in range(n):
        r = rng.random()
        if dt[0] in 'iu':
            out.append(rng.randint(1, 9) if r < 0.8 else rng.randint(-9, 9))
        else:
            if r < 0.45:
                x = float(rng.randint(1, 9))
            elif r < 0.8:
                x = round(rng.uniform(0.1, 10), 3)
            elif r < 0.88:
                x = -float(rng.randint(1, 9))
            elif r < 0.93:
                x = 0.0
            elif r < 0.93 + special:
                x = rng.choice([1e10, 1e-10, 'nan', 1.5e5])
            else:
                x = 1.0
            if dt[0] == 'c':
                x = [1.0 if x == 'nan' else x, float(rng.randint(-3, 3))]
            out.append(x)
    return out


def make_quantity(rng, fam, shape=None, dt=None, kind='q'):
    sh = list(rng.choice(SHAPES) if shape is None else shape)
    dt = dt or rng.choice(DTYPES)
    n = min(27, int(np.prod(sh)) if sh else 1)
    s = {'t': kind, 'f': fam, 'u': pick_units(rng, fam), 'sh': sh, 'dt': dt, 'v': values(rng, n, dt),
         'o': rng.choice('CCCCFSR'), 'via': rng.choice('sd')}
    if kind == 'uq':
        s['dt'] = 'f8'
        s['v'] = [1.0 if x == 'nan' else x for x in values(rng, n, 'f8')]
        s['e'] = [round(rng.uniform(0.01, 1), 3) for _ in range(n)]
    return s


def make_pool(rng, n=None, uq=0.15, large=0.06):
    fams = [make_family(rng) for _ in range(rng.randint(1, 3))]
    pool = []
    shapes = pick_shapes(rng, 2, large)
    for _ in range(n or rng.randint(4, 8)):
        fam = rng.choice(fams)
        r = rng.random()
        if r < 0.12 and len(fam) == 1 and fam[0][1] == 1:
            l = rng.choice(fam[0][0])
            pool.append({'t': 'u', 'l': l, 'u': {l: 1}, 'f': fam})
        else:
            pool.append(make_quantity(rng, fam, rng.choice(shapes) if rng.random() < 0.8 else None,
                                      kind='uq' if rng.random() < uq else 'q'))
    if not any(s['t'] == 'q' for s in pool):
        pool.append(make_quantity(rng, fams[0], shapes[0]))
    if fams[0] and rng.random() < 0.3:
        # not quite compatible
        s = make_quantity(rng, near_miss(rng, fams[0]), rng.choice([[], shapes[0]]))
        s['near'] = fams[0]
        pool.append(s)
    if rng.random() < 0.35:
        # for the functions of pure numbers and of angles
        fam = rng.choice([[], [], [[ANGLES, 1]], [[rng.choice([['m', 'ft', 'km'], ['s', 'h']]), 1]]])
        if fam and fam[0][0] is not ANGLES:
            s = make_quantity(rng, fam, shapes[0])
            a, b = rng.choice(fam[0][0]), rng.choice(fam[0][0])
            s['f'], s['u'] = [], {a: 1, b: -1} if a != b else {}
            pool.append(s)
        else:
            pool.append(make_quantity(rng, fam, shapes[0]))
    if rng.random() < 0.6:
        pool.append({'t': 'n', 'x': rng.choice([2, 3.0, 0.5, -1, 0, 1])})
    if rng.random() < 0.4:
        pool.append(dict(make_quantity(rng, [], rng.choice(shapes)), t='a'))
    if rng.random() < 0.5:
        pool.append({'t': 'd', 'u': pick_units(rng, rng.choice(fams)), 'f': None})
    return pool


# ---- generators of operations

def g_two(g):
    i = g.quantity()
    j = g.partner(i)
    if j is None:
        return None
    return {'a': [i, j]}


def g_two_any(g):
    i = g.quantity()
    j = g.some('q', 'uq', 'u', 'n', 'a') if g.rng.random() < 0.7 else g.partner(i)
    return None if j is None else {'a': [i, j]}


def g_two_swapped(g):
    r = g_two_any(g)
    if r:
        r['a'].reverse()
    return r


def g_one(g):
    return {'a': [g.quantity()]}


def g_array(g):
    i = g.arrayq()
    return None if i is None else {'a': [i]}


def g_number(g):
    c = [i for i in g.by.get('q', []) if not g.pool[i]['f'] or 'rad' in g.pool[i]['f'][0][0]]
    return {'a': [g.rng.choice(c)]} if c and g.rng.random() < 0.9 else g_one(g)


def g_axis(g):
    i = g.arrayq()
    if i is None:
        return None
    nd = len(g.pool[i]['sh'])
    return {'a': [i], 'p': {'axis': g.rng.choice([None, 0, nd - 1, -1])}}


def g_pow(g):
    return {'a': [g.quantity()], 'p': {'n': g.rng.choice([2, 2, 3, -1, 0.5, 1, 0, 1.5, -2])}}


def g_target(how):
    def gen(g):
        i = g.quantity(chain=False)
        u = g.target(i) if g.rng.random() < 0.9 else {'V': 1, 'm': 1}
        return {'a': [i], 'p': {'u': u, 'how': how, 'style': g.rng.randrange(2)}}
    return gen


def _units_arg(p):
    u = p['u']
    how = p['how']
    pq = world.pq
    if how == 'str':
        if any(l[:2] in ('C:', 'X:') for l in u):
            how = 'dims'
        else:
            return world.spell(u, p.get('style', 0))
    if how == 'dims':
        return world.dims_object(u)
    if how == 'unit':
        if len(u) == 1 and list(u.values()) == [1]:
            return world.unit_object(list(u)[0])
        q = pq.dimensionless
        for l, n in u.items():
            q = q * world.unit_object(l) ** n
        return q
    if how == 'units':
        return pq.Quantity(1.0, world.dims_object(u)).units
    raise ValueError(how)


def m_rescale(a, p):
    a = mv(a)
    to = world.key_units(p['u'])
    return MV(a.m * factor(a.u, to), to)


def _rough(r):
    r.scale = 1e6 * abs(r.m)
    r.rough = True
    return r


def _run_rescale(a, p):
    return a.rescale(_units_arg(p))


for how in ('str', 'dims', 'unit', 'units'):
    op('rescale_' + how, g_target(how), _run_rescale, m_rescale, 2.0)

op('rescale_dtype', g_target('str'), lambda a, p: a.rescale(_units_arg(p), dtype='f4'),
   lambda a, p: NotImplemented if getattr(a, 'dtype', np.dtype('f8')).kind == 'c' else _rough(m_rescale(a, p)), 0.4)
op('quantity_of', g_target('str'), lambda a, p: world.pq.Quantity(a, _units_arg(p)), m_rescale, 0.7)

op('add', g_two, operator.add, m_add, 3)
op('sub', g_two, operator.sub, m_sub, 3)
op('mul', g_two_any, operator.mul, m_mul, 3)
op('div', g_two_any, operator.truediv, m_div, 3)
op('rmul', g_two_swapped, operator.mul, m_mul, 1)
op('rdiv', g_two_swapped, operator.truediv, m_div, 1)
op('radd', lambda g: (lambda r: r and {'a': r['a'][::-1]})(g_two(g)), operator.add, m_add, 1)
op('rsub', lambda g: (lambda r: r and {'a': r['a'][::-1]})(g_two(g)), operator.sub, m_sub, 1)


def certain(f):
    """only where the model computes just as numpy does"""
    def g(a, b):
        for x in (a, b):
            if isinstance(x, world.pq.UncertainQuantity) or getattr(x, 'dtype', np.dtype('f8')) != np.dtype('f8'):
                return NotImplemented
        return f(a, b)
    return g


def m_floordiv(a, b):
    a, b = mv(a), mv(b)
    return MV(np.floor_divide(a.m, b.m), combine(a.u, b.u, -1))


def m_mod(a, b):
    if not (quantity_like(a) and quantity_like(b)):
        return NotImplemented
    a, b = mv(a), mv(b)
    if a.u != b.u:
        factor(b.u, a.u)
        return NotImplemented       # rounding decides
    return MV(np.mod(a.m, b.m), a.u)


op('floordiv', g_two_any, operator.floordiv, certain(m_floordiv), .5)
op('mod', g_two, operator.mod, certain(m_mod), .5)
op('pow', g_pow, lambda a, p: a ** p['n'],
   lambda a, p: NotImplemented if np.asarray(a).dtype.kind in 'iu' and p['n'] < 0 else m_pow(a, p['n']), 2)
op('neg', g_one, operator.neg, same(operator.neg), .5)
op('pos', g_one, operator.pos, None, .2)
op('abs', g_one, abs, same(abs), .5)
op('sqrt', g_one, lambda a: a ** 0.5, lambda a: m_pow(a, 0.5), .5)

op('np_multiply', g_two_any, np.multiply, m_mul, 1)
op('np_divide', g_two_any, np.divide, m_div, 1)
op('np_add', g_two, np.add, same_units(np.add), 1)
op('np_subtract', g_two, np.subtract, same_units(np.subtract), 1)
op('np_maximum', g_two, np.maximum, same_units(np.maximum), .5)
op('np_minimum', g_two, np.minimum, same_units(np.minimum), .5)
op('np_hypot', g_two, np.hypot, same_units(np.hypot), .4)
op('np_arctan2', g_two, np.arctan2, m_arctan2({}, False), .3)
op('np_square', g_one, np.square, lambda a: m_pow(a, 2), .6)
op('np_sqrt', g_one, np.sqrt, lambda a: m_pow(a, 0.5), .6)
op('np_reciprocal', g_one, np.reciprocal,
   lambda a: NotImplemented if np.asarray(a).dtype.kind in 'iu' else m_pow(a, -1), .5)
op('np_negative', g_one, np.negative, same(np.negative), .3)
op('np_absolute', g_one, np.absolute, same(np.absolute), .3)
for _n in ('floor', 'rint', 'ceil', 'fabs', 'fix', 'conjugate'):
    op('np_' + _n, g_one, getattr(np, _n), exact(getattr(np, _n)), .15)
op('np_ones_like', g_array, np.ones_like, lambda a: MV(np.ones(np.shape(a)), mv(a).u), .15)
op('np_power', g_pow, lambda a, p: np.power(a, p['n']),
   lambda a, p: NotImplemented if np.asarray(a).dtype.kind in 'iu' and p['n'] < 0 or
   isinstance(a, world.pq.UncertainQuantity) else m_pow(a, p['n']), .5)
for _n in ('exp', 'log', 'log10', 'log2', 'log1p', 'exp2', 'expm1', 'arcsin', 'arctan', 'arctanh', 'arccos', 'arcsinh'):
    op('np_' + _n, g_number, getattr(np, _n), plain_units(getattr(np, _n)) if not _n.startswith('arc') else
       (lambda f: lambda a: plain_units(f, world.key_units({'rad': 1}))(a))(getattr(np, _n)), .12)
for _n in ('sin', 'cos', 'tan', 'sinh', 'tanh'):
    op('np_' + _n, g_number, getattr(np, _n), of_angle(getattr(np, _n), 'rad'), .12)
op('np_radians', g_number, np.radians, of_angle(np.radians, 'degree', {'rad': 1}), .15)
op('np_degrees', g_number, np.degrees, of_angle(np.degrees, 'rad', {'degree': 1}), .15)
for _n in ('mod', 'fmod', 'remainder'):
    op('np_' + _n, g_two, getattr(np, _n), certain(same_units(getattr(np, _n))), .15)
for _n in ('equal', 'not_equal', 'less', 'less_equal', 'greater', 'greater_equal'):
    op('np_' + _n, g_two, getattr(np, _n), certain(both(getattr(np, _n))), .15)
op('np_floor_divide', g_two_any, np.floor_divide, certain(m_floordiv), .15)
op('np_diff', g_array, np.diff, exact(np.diff), .2)
op('np_dot', lambda g: (lambda i: None if i is None else {'a': [i, i]})(g.arrayq()), lambda a, b: np.array(np.dot(a, b.T)),
   None, .15)
op('np_isfinite', g_one, np.isfinite, lambda a: np.isfinite(mv(a).m), .2)
op('np_clip', lambda g: (lambda i: None if i is None else {'a': [i, i, i]})(g.arrayq()),
   lambda a, b, c: a.clip(b.min(), c.max()), None, .3)
op('clip', lambda g: (lambda i: None if i is None else (lambda j: j if j is None else {'a': [i, j]})(g.partner(i)))(
    g.arrayq()),
   lambda a, b: a.clip(min=b if np.shape(b) == () else b.ravel()[0] if b.size else b), None, .4)

for _n, _f in (('lt', operator.lt), ('le', operator.le), ('gt', operator.gt), ('ge', operator.ge),
               ('eq', operator.eq), ('ne', operator.ne)):
    op(_n, g_two, _f, m_cmp(_f), .8)

for _n, _p in (('sum', 1), ('mean', 1), ('max', 1), ('min', 1), ('std', 1), ('var', 2), ('cumsum', 1), ('ptp', 1)):
    def _mk(n, p):
        f = getattr(np, n)
        m = reduction(f, p)

        def run(a, p_):
            return getattr(a, n)(axis=p_['axis'])

        def model(a, p_):
            if isinstance(a, world.pq.UncertainQuantity) and n in ('max', 'min', 'std', 'var', 'ptp', 'cumsum'):
                return NotImplemented
            if not np.asarray(a).size:
                return NotImplemented
            return m(a, axis=p_['axis'])
        op(n, g_axis, run, model, .6)
        if n not in ('ptp',):
            op('np_' + n, g_axis, lambda a, p_: f(a, axis=p_['axis']), model, .2)
    _mk(_n, _p)
for _n in ('nansum', 'nanmean', 'nanmax', 'nanmin', 'nanstd'):
    op(_n, g_array, (lambda n: lambda a: getattr(a, n)())(_n), exact(getattr(np, _n)), .25)
for _n in ('argmax', 'argmin', 'nanargmax', 'nanargmin'):
    op(_n, g_array, (lambda n: lambda a: getattr(a, n)())(_n), index(getattr(np, _n)), .25)
for _n in ('nonzero', 'tolist'):
    op(_n, g_array, (lambda n: lambda a: getattr(a, n)())(_n), None, .25)
op('argsort', g_array, lambda a: a.argsort(), lambda a: index(lambda m: m.argsort())(a), .25)
op('trace', g_array, lambda a: a.trace(), exact(np.trace), .25)
op('squeeze', g_array, lambda a: a.squeeze(), exact(np.squeeze), .25)
op('prod', g_axis, lambda a, p: a.prod(axis=p['axis']),
   lambda a, p: NotImplemented if isinstance(a, world.pq.UncertainQuantity) or not np.asarray(a).size else
   MV(np.prod(mv(a).m, axis=p['axis']),
      power(mv(a).u, a.size if p['axis'] is None else a.shape[p['axis']])), .4)
op('cumprod', g_number, lambda a: a.cumprod(), plain_units(np.cumprod), .2)
op('round', g_one, lambda a: a.round(1), exact(lambda m: np.round(m, 1)), .2)
op('searchsorted', lambda g: (lambda i: None if i is None else {'a': [i, i]})(g.arrayq()),
   lambda a, b: a.ravel().searchsorted(b.ravel()),
   lambda a, b: index(lambda m: m.ravel().searchsorted(m.ravel()))(a), .2)

op('magnitude', g_one, lambda a: np.array(a.magnitude), lambda a: MV(mv(a).m, {}), .4)
op('units', g_one, lambda a: a.units, lambda a: MV(1.0, mv(a).u), .4)
op('dimensionality', g_one, lambda a: a.dimensionality, lambda a: DV(mv(a).u), .4)
op('dimensionless_magnitude', g_number, lambda a: a.dimensionless_magnitude,
   lambda a: MV(_conv(mv(a), {}), {}), .4)
op('item', lambda g: (lambda i: None if i is None or not g.pool[i]['v'] else {'a': [i]})(g.arrayq()),
   lambda a: a[0], same(lambda m: m[0]), .6)
op('slice', g_array, lambda a: a[::-1], same(lambda m: m[::-1]), .4)
op('mask', g_array, lambda a: a[np.asarray(a) > 2] if not isinstance(a, world.pq.UncertainQuantity) else a[:1],
   None, .3)
op('fancy', g_array, lambda a: a[[0, -1]] if len(a) else a, None, .3)
op('iterate', g_array, lambda a: [x for x in a], None, .3)
op('transpose', g_array, lambda a: a.T, exact(lambda a: a.T), .2)
op('reshape', g_array, lambda a: a.reshape(-1), exact(lambda a: a.reshape(-1)), .2)
op('flatten', g_array, lambda a: a.flatten(), exact(lambda a: a.flatten()), .2)
op('real', g_one, lambda a: a.real, exact(np.real), .2)
op('imag', g_one, lambda a: a.imag, exact(np.imag), .2)
op('astype', g_one, lambda a: a.astype('f4') if a.dtype.kind != 'c' else a.astype('c8'),
   lambda a: _rough(MV(mv(a).m, mv(a).u)), .4)
op('copy', g_one, lambda a: a.copy(), lambda a: MV(mv(a).m, mv(a).u), .3)
op('copy_copy', g_one, copy.copy, lambda a: MV(mv(a).m, mv(a).u), .3)
op('deepcopy', g_one, copy.deepcopy, lambda a: MV(mv(a).m, mv(a).u), .3)
op('pickle', g_one, lambda a: pickle.loads(pickle.dumps(a)), lambda a: MV(mv(a).m, mv(a).u), .6)
op('pickle2', g_one, lambda a: pickle.loads(pickle.dumps(a, 2)), lambda a: MV(mv(a).m, mv(a).u), .2)
op('hash_dims', g_one, lambda a: hash(a.dimensionality) == hash(a.dimensionality), None, .2)
op('dims_mul', g_two_any, lambda a, b: a.dimensionality * b.dimensionality if hasattr(b, 'dimensionality') else None,
   m_dims(1), .5)
op('dims_div', g_two_any, lambda a, b: a.dimensionality / b.dimensionality if hasattr(b, 'dimensionality') else None,
   m_dims(-1), .5)
op('dims_pow', g_pow, lambda a, p: a.dimensionality ** p['n'], lambda a, p: DV(power(mv(a).u, p['n'])), .4)
op('dims_eq', g_two, lambda a, b: a.dimensionality == getattr(b, 'dimensionality', 0),
   lambda a, b: np.asarray(mv(a).u == mv(b).u) if hasattr(b, 'dimensionality') else NotImplemented, .4)

op('umath_sum', g_axis, lambda a, p: world.pq.sum(a, axis=p['axis']),
   lambda a, p: exact(lambda m: m.sum(axis=p['axis']))(a), .2)
op('umath_cumsum', g_axis, lambda a, p: world.pq.cumsum(a, axis=p['axis']),
   lambda a, p: exact(lambda m: m.cumsum(axis=p['axis']))(a), .2)
op('umath_prod', g_axis, lambda a, p: world.pq.prod(a, axis=p['axis']), OPS['prod'][2], .2)
op('umath_nansum', g_array, lambda a: world.pq.nansum(a), exact(np.nansum), .2)
op('umath_cumprod', g_number, lambda a: world.pq.cumprod(a), plain_units(np.cumprod), .1)


def m_trapz(a):
    if isinstance(a, world.pq.UncertainQuantity) or not np.asarray(a).size:
        return NotImplemented
    a = mv(a)
    m = ((a.m[..., 1:] + a.m[..., :-1]) / 2.0 * 2).sum(-1)
    return MV(m, combine(a.u, world.key_units({'s': 1}), 1), np.nanmax(abs(a.m), initial=0) * a.m.size * 2)


op('umath_trapz', g_array, lambda a: world.pq.trapz(a, dx=2 * world.pq.s), m_trapz, .2)
op('umath_trapz_x', lambda g: (lambda i: None if i is None else {'a': [i, i]})(g.arrayq()),
   lambda a, b: world.pq.trapz(a, b), None, .2)
op('umath_diff', g_array, lambda a: world.pq.diff(a), exact(np.diff), .2)
op('umath_ediff1d', g_array, lambda a: world.pq.ediff1d(a), exact(np.ediff1d), .2)
op('umath_gradient', g_array, lambda a: world.pq.gradient(a, 2 * world.pq.s), None, .2)
for _n in ('sin', 'cos', 'tan'):
    op('umath_' + _n, g_number, (lambda n: lambda a: getattr(world.pq, n)(a))(_n), converted(getattr(np, _n), 'rad')
       if _n != 'tan' else None, .15)
for _n in ('arcsin', 'arccos', 'arctan', 'arcsinh', 'arccosh', 'arctanh'):
    op('umath_' + _n, g_number, (lambda n: lambda a: getattr(world.pq, n)(a))(_n),
       converted(np.arctan, '', {'rad': 1}) if _n == 'arctan' else None, .1)
for _n in ('sinh', 'cosh', 'tanh'):
    op('umath_' + _n, g_number, (lambda n: lambda a: getattr(world.pq, n)(a))(_n),
       converted(np.tanh, '') if _n == 'tanh' else None, .1)
op('umath_arctan2', g_two, lambda a, b: world.pq.arctan2(a, b), m_arctan2({'rad': 1}, True), .4)
op('umath_hypot', g_two, lambda a, b: world.pq.hypot(a, b), same_units(np.hypot), .2)
op('umath_cross', lambda g: (lambda i: None if i is None else {'a': [i, i]})(g.arrayq()),
   lambda a, b: world.pq.cross(a, b), None, .2)
op('umath_unwrap', g_array, lambda a: world.pq.unwrap(a, 3 * a.units), exact(lambda m: np.unwrap(m, 3)), .2)


def ndims(x):
    return sum(abs(p) for p in world.size_of(mv(x).u)[1].values())


def m_ndims(f):
    def g(a, b):
        if not (hasattr(a, 'dimensionality') and hasattr(b, 'dimensionality')):
            return NotImplemented
        x, y = ndims(a), ndims(b)
        if abs(x - y) < 1e-6 and (x != int(x) or y != int(y)):
            return NotImplemented
        return np.asarray(f(x, y))
    return g


def m_dims_same(a, b):
    if not hasattr(b, 'dimensionality') or not hasattr(a, 'dimensionality'):
        return NotImplemented
    if mv(a).u != mv(b).u:
        raise Incompatible()
    return DV(mv(a).u)


def both_dims(f):
    return lambda a, b: f(a.dimensionality, b.dimensionality) \
        if hasattr(a, 'dimensionality') and hasattr(b, 'dimensionality') else None


for _n, _f in (('lt', operator.lt), ('le', operator.le), ('gt', operator.gt), ('ge', operator.ge)):
    op('dims_' + _n, g_two_any, both_dims(_f), m_ndims(_f), .1)
op('dims_add', g_two, both_dims(operator.add), m_dims_same, .15)
op('dims_sub', g_two, both_dims(operator.sub), m_dims_same, .15)
op('round_builtin', g_one, lambda a: round(a, 1), exact(lambda m: np.round(m, 1)), .1)


def m_pow_q(a, b):
    if not isinstance(b, world.pq.Quantity) or isinstance(a, world.pq.UncertainQuantity):
        return NotImplemented
    e = mv(b)
    if e.u:
        raise Incompatible()
    if e.m.dtype.kind == 'c' or not e.m.size or np.isnan(e.m).any():
        return NotImplemented
    if e.m.min() != e.m.max():
        raise Incompatible()
    if np.asarray(a).dtype != np.dtype('f8'):
        return NotImplemented
    return MV(mv(a).m ** e.m, power(mv(a).u, float(e.m.min())))


op('pow_q', lambda g: (lambda i: {'a': [i, g.some('q', 'u', 'n')]} if g.some('q', 'u', 'n') is not None else None)(g.quantity()),
   lambda a, b: a ** b, m_pow_q, .3)
op('rpow', g_one, lambda a: 2.0 ** a, lambda a: m_pow_q(world.pq.dimensionless * 2.0, a), .15)


def m_searchsorted(a, b):
    if isinstance(a, world.pq.UncertainQuantity) or isinstance(b, world.pq.UncertainQuantity) \
            or not isinstance(b, world.pq.Quantity) or isinstance(b, world.pq.UnitQuantity) or np.asarray(a).dtype.kind == 'c' or np.asarray(b).dtype.kind == 'c':
        return NotImplemented
    if mv(a).u != mv(b).u:
        raise Incompatible()
    return MV(np.sort(np.asarray(a).ravel()).searchsorted(np.asarray(b).ravel()), {})


def _run_searchsorted(a, b):
    a = np.ravel(a).copy()
    np.ndarray.view(a, np.ndarray).sort()
    return a.searchsorted(b.ravel())


op('searchsorted2', lambda g: (lambda i: None if i is None else (lambda j: j if j is None else {'a': [i, j]})(
    g.partner(i)))(g.arrayq()), lambda a, b: _run_searchsorted(a, b) if hasattr(b, 'ravel') else None, m_searchsorted, .2)


def m_gradient(a, p):
    if isinstance(a, world.pq.UncertainQuantity) or np.asarray(a).ndim != 2 or min(np.shape(a)) < 2:
        return NotImplemented
    a = mv(a)
    return MV(np.gradient(a.m, 2.0, 0.5)[p['k']], combine(a.u, world.key_units({['s', 'h'][p['k']]: 1}), -1),
              4 * np.nanmax(abs(a.m)))


op('umath_gradient2', lambda g: (lambda r: r and dict(r, p={'k': g.rng.randrange(2)}))(g_array(g)),
   lambda a, p: world.pq.gradient(a, 2.0 * world.pq.s, 0.5 * world.pq.h)[p['k']] if np.ndim(a) == 2 and min(np.shape(a)) > 1
   else None, m_gradient, .2)


def _g_parse(g):
    f = make_family(g.rng)
    u = {l: int(p) if p == int(p) else p for l, p in pick_units(g.rng, f).items() if not l.startswith('C:')}
    if any(l.startswith('X:') for l in u):
        u = {'km': 1, 'h': -1}
    return {'a': [], 'p': {'u': u, 'style': g.rng.randrange(2)}}


def _m_parse(p):
    return MV(1.0, world.key_units(p['u']))


op('lookup', _g_parse, lambda p: 1 * world.pq.unit_registry[world.spell(p['u'], p['style'])], _m_parse, 1)
op('from_string', _g_parse, lambda p: world.pq.Quantity([1.0, 2.0], world.spell(p['u'], p['style'])),
   lambda p: MV([1.0, 2.0], world.key_units(p['u'])), 1)
op('from_unit', _g_parse, lambda p: 3.0 * _units_arg(dict(p, how='unit')), lambda p: MV(3.0, world.key_units(p['u'])), 1)
op('compound', _g_parse, lambda p: 2 * world.pq.CompoundUnit(world.spell(p['u'], 1)), None, .5)
op('uncertain', g_array, lambda a: world.pq.UncertainQuantity(np.array(a.magnitude, 'd'), a.dimensionality,
                                                              0.1 * abs(np.array(a.magnitude, 'd'))),
   lambda a: NotImplemented if np.asarray(a).dtype.kind == 'c' else MV(mv(a).m, mv(a).u), .4)
op('uq_parts', g_one, lambda a: (a.uncertainty, a.relative_uncertainty) if hasattr(a, 'uncertainty') else None,
   None, .3)

# these depend on settings
op('simplified', g_one, lambda a: a.simplified, None, 1.5, ['defaults'])
op('reference', g_one, lambda a: a.dimensionality.simplified, None, .4, ['defaults'])
op('str', g_one, str, None, .8, ['unicode'])
op('repr', g_one, repr, None, .5, ['unicode'])
op('format', g_one, lambda a: '{:}'.format(a) if a.ndim else '{:.3f}'.format(a) if a.dtype.kind != 'c' else '',
   None, .4, ['unicode'])
op('render', g_one, lambda a: (a.dimensionality.string, a.dimensionality.latex, a.dimensionality.html,
                               a.dimensionality.unicode), None, .8, ['unicode'])

op('preferred', g_one, lambda a: a.rescale_preferred(), None, .5, ['preferred'])
op('rescale_none', g_one, lambda a: a.rescale(), None, .2, ['preferred'])

PLAIN = {n for n, v in OPS.items() if not v[4]}


def gen_op(g, names=None, weights=None):
    """one random operation"""
    rng = g.rng
    for _ in range(50):
        name = rng.choices(names, weights)[0]
        r = OPS[name][0](g)
        if r is not None:
            r['op'] = name
            r.setdefault('p', None)
            g.nops += 1
            return r
    return None


def weights(names):
    return [OPS[n][3] for n in names]


def focus(rng):
    """a few kinds of operations for all threads of a run; sometimes one or two out of all with equal odds, so that
    the rare ones meet themselves"""
    names = sorted(OPS)
    if rng.random() < 0.3:
        return rng.sample(names, rng.choice([1, 2]))
    return rng.choices(names, weights(names), k=3)


def operands(o, pool, results):
    out = []
    for a in o['a']:
        if isinstance(a, list):
            r = results.get(a[1])
            if r is not None and isinstance(r, world.pq.Quantity) and r.dtype.kind in 'fciu':
                out.append(r)
            else:
                out.append(pool[a[2]])
        else:
            out.append(pool[a])
    return out


def call(o, args):
    run = OPS[o['op']][1]
    if o.get('p') is not None:
        return run(*args, o['p'])
    return run(*args)


def expected(o, args):
    """model value, Incompatible, or None if the model does not cover the case"""
    model = OPS[o['op']][2]
    if model is None:
        return None
    for a in args:
        if getattr(a, 'dtype', None) == object:
            return None
    if any(isinstance(a, world.pq.UncertainQuantity) for a in args) \
            and any(getattr(a, 'dtype', np.dtype('f8')).kind == 'c' for a in args):
        return None         # uncertain quantities are real
    try:
        with np.errstate(all='ignore'):
            r = model(*args, o['p']) if o.get('p') is not None else model(*args)
    except Incompatible:
        return Incompatible
    except world.Unknown:
        return None
    except Exception:
        return None         # e.g. shapes that do not fit: the comparison with the solo run decides
    return None if r is NotImplemented else r


def judge(o, args, outcome, result):
    """outcome: canon of the result or of the exception.  Returns a complaint or None."""
    e = expected(o, args)
    if e is None:
        return None
    if e is Incompatible:
        if outcome[0] != 'E':
            return 'incompatible units were accepted: got %s' % world.short(outcome)
        return None
    if outcome[0] == 'E':
        if outcome[1] in ('KeyboardInterrupt', 'MemoryError'):
            return None
        # raising where a value is expected is left to the comparison with the solo run
        return None
    if isinstance(e, MV) and any(isinstance(a, world.pq.UncertainQuantity) for a in args):
        # the uncertain operand decides the units of a sum
        got = mv(result)
        if got.u != e.u:
            try:
                f = factor(e.u, got.u)
            except Incompatible:
                f = 1.0
            else:
                e = MV(e.m * f, got.u, None if e.scale is None else e.scale * f)
    return compare(result, e, rtol_of(result, *args))


def rtol_of(*xs):
    r = 1e-9
    for x in xs:
        d = getattr(x, 'dtype', None)
        if d is not None and d.kind in 'fc':
            if d.itemsize <= (4 if d.kind == 'f' else 8):
                r = 1e-3
    return r


def compare(result, e, rtol=None):
    if isinstance(e, DV):
        got = world.units_of(result)
        if set(got) != set(e.u) or any(abs(got[k] - e.u[k]) > 1e-9 for k in got):
            return 'units should be %s, are %s' % (e.u, got)
        return None
    if not isinstance(e, MV):
        e = np.asarray(e)
        got = np.asarray(result)
        if got.shape != e.shape or not np.array_equal(got.astype(bool), e.astype(bool)):
            return 'expected %s, got %s' % (e.tolist(), got.tolist())
        return None
    got = mv(result)
    if set(got.u) != set(e.u) or any(abs(got.u[k] - e.u[k]) > 1e-9 for k in e.u):
        return 'units should be %s, are %s' % (e.u, got.u)
    if got.m.shape != e.m.shape:
        return 'shape should be %s, is %s' % (e.m.shape, got.m.shape)
    with np.errstate(all='ignore'):
        if rtol is None:
            rtol = rtol_of(result)
        scale = abs(e.m) if e.scale is None else np.maximum(abs(e.m), e.scale)
        big = abs(e.m)
        if (rtol > 1e-6 or e.rough) and (np.any(big > 1e25) or np.any((big < 1e-25) & (big > 0))):
            return None         # beyond what float32 can represent
        if (rtol > 1e-6 or e.rough) and not np.all(np.isfinite(got.m)):
            return None
        if np.any(abs(e.m) > 1e15) and getattr(result, 'dtype', np.dtype('f8')).kind in 'iu':
            return None
        bad = ~((abs(got.m - e.m) <= rtol * scale + 1e-300) | (got.m == e.m) | (np.isnan(got.m) & np.isnan(e.m)))
        bad &= np.isfinite(e.m)
    if np.any(bad):
        return 'value should be %s, is %s (units %s)' % (e.m[bad][:3].tolist() if e.m.shape else e.m.tolist(),
                                                          got.m[bad][:3].tolist() if got.m.shape else got.m.tolist(), e.u)
    return None
