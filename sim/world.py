"""Loading the package under test, and describing its objects independently of its own code."""
import hashlib
import os
import sys
import types
import warnings

import numpy as np

from . import facts, kernel
from .facts import FACT

pq = None               # the package
KEY = {}                # label of facts.FACT -> key of that unit
SIZE = {}               # key -> (size, base dimensions)
LABELS = {}             # every label known at the start -> canon of its unit
BASELINE = None

_SUP = {ord(c): str(i) for i, c in enumerate('⁰¹²³⁴⁵⁶⁷⁸⁹')}

COMPOUNDS = {'X:km/h': {'km': 1, 'h': -1}, 'X:g*cm**2/s**2': {'g': 1, 'cm': 2, 's': -2},
             'X:kg*m**2': {'kg': 1, 'm': 2}, 'X:V/m': {'V': 1, 'm': -1}, 'X:ft*lbf': {'ft': 1, 'lbf': 1}}
CONSTANTS = {'C:natural_unit_of_velocity': (299792458.0, {'m': 1, 's': -1}),
             'C:Boltzmann_constant': (1.3806504e-23, {'m': 2, 'kg': 1, 's': -2, 'K': -1}),
             'C:electron_mass': (9.10938215e-31, {'kg': 1}),
             # written like h, F, G and b
             'C:Planck_constant': (6.62606896e-34, {'m': 2, 'kg': 1, 's': -1}),
             'C:Faraday_constant': (96485.3399, {'A': 1, 's': 1, 'mol': -1}),
             'C:Newtonian_constant_of_gravitation': (6.67428e-11, {'m': 3, 'kg': -1, 's': -2}),
             'C:Wien_wavelength_displacement_law_constant': (2.8977685e-3, {'m': 1, 'K': 1})}
HOMOGRAPHS = [['h', 'C:Planck_constant'], ['F', 'C:Faraday_constant'], ['G', 'C:Newtonian_constant_of_gravitation'],
              ['barn', 'C:Wien_wavelength_displacement_law_constant']]


def prepare_paths():
    if kernel.REPO not in sys.path:
        sys.path.insert(0, kernel.REPO)
    # an installation that stands for another tree must not step in when reading this one fails
    sys.meta_path[:] = [f for f in sys.meta_path if not getattr(f, '__module__', '').startswith('__editable__')]
    sys.dont_write_bytecode = True
    if not os.path.exists(kernel.PKG + '_version.py'):
        m = types.ModuleType('quantities._version')
        m.__version__ = '0'
        m.version = '0'
        sys.modules['quantities._version'] = m


def quiet():
    """ignore all warnings, by a filter unlike any that code under test would add: what that adds can be seen"""
    warnings.filterwarnings('ignore', '(?s:.*)')


def filters():
    return repr([(f[0], getattr(f[1], 'pattern', f[1]), f[2].__name__, getattr(f[3], 'pattern', f[3]), f[4])
                 for f in warnings.filters])


def load():
    """import the package in this process and take stock of it"""
    global pq, BASELINE
    prepare_paths()
    quiet()
    import quantities
    if os.path.dirname(os.path.abspath(quantities.__file__)) + '/' != kernel.PKG:
        raise RuntimeError('imported %s instead of %s' % (quantities.__file__, kernel.PKG))
    pq = quantities
    import quantities.constants
    for l, (f, b) in FACT.items():
        k = ukey(pq.unit_registry[l])
        KEY[l] = k
        SIZE[k] = (f, b)
    for l, d in COMPOUNDS.items():
        KEY[l] = '(%s)' % l[2:]
        SIZE[KEY[l]] = facts.size_of(d)
    for l, (f, b) in CONSTANTS.items():
        KEY[l] = ukey(getattr(pq.constants, l[2:]))
        SIZE[KEY[l]] = (f, b)
    names = set(FACT)
    for a in facts.ALIAS.values():
        names.update(a)
    for mod in (pq, pq.units):
        for n in dir(mod):
            u = getattr(mod, n)
            if isinstance(u, pq.UnitQuantity) and not isinstance(u, (pq.UnitConstant, pq.CompoundUnit)):
                names.add(n)
                names.add(u.name)
                names.add(u.symbol)
                names.update(getattr(u, '_aliases', ()))
    for n in sorted(names):
        try:
            u = pq.unit_registry[n]
        except Exception:
            continue
        if isinstance(u, pq.UnitQuantity):
            LABELS[n] = unit_facts(u)
    BASELINE = fingerprint(all_labels=False)


# ---------------------------------------------------------------- naming units

def ukey(u):
    """the key of a unit: its name, independent of the notation in force"""
    return plain(u.name)


def plain(n):
    """superscripts written as **n"""
    if not n.isascii():
        out = []
        for c in n:
            d = _SUP.get(ord(c))
            if d is None:
                out.append(c)
            else:
                if not out or not out[-1].startswith('**'):
                    out.append('**' + d)
                else:
                    out[-1] += d
        n = ''.join(out)
    return n


def units_of(dimensionality):
    r = {}
    for u, p in dimensionality.items():
        k = ukey(u)
        r[k] = r.get(k, 0.0) + float(p)     # distinct kinds of unit may share a name
    return r


def key_units(dims):
    """{label: power} -> {key: power}"""
    return {KEY[l]: float(p) for l, p in dims.items()}


class Unknown(Exception):
    pass


def base_of(units):
    """the base dimensions of {key: power}"""
    return size_of(units, False)[1]


def size_of(units, check=True):
    """(size, base dimensions) of {key: power}"""
    f, b = 1.0, {}
    for k, p in units.items():
        if k not in SIZE:
            raise Unknown(k)
        ff, bb = SIZE[k]
        try:
            f *= ff ** p
        except OverflowError:
            f = float('inf')
        for d, v in bb.items():
            b[d] = b.get(d, 0) + v * p
    if check and not 0 < f < float('inf'):
        raise Unknown('out of range')
    return f, {d: v for d, v in b.items() if abs(v) > 1e-9}


# ---------------------------------------------------------------- canonical descriptions

def _bytes(a):
    if a.dtype.kind in 'fc' and a.dtype.itemsize <= 16:
        a = np.array(a)
        if a.dtype.kind == 'f':
            a[np.isnan(a)] = np.nan
        else:
            a[np.isnan(a)] = complex(np.nan, np.nan)
    if a.dtype == object:
        return repr(a.tolist())
    return a.tobytes().hex()


def arr(a):
    a = np.ndarray.view(a, np.ndarray)
    return (a.dtype.str, a.shape, _bytes(a))


def _u(dimensionality):
    return tuple(sorted((ukey(u), float(p)) for u, p in dimensionality.items()))


def unit_facts(u):
    """what a unit denotes, through its public attributes"""
    d = u.definition
    sym, usym = u.symbol, u.u_symbol
    if isinstance(u, pq.CompoundUnit):      # these follow the display setting
        sym, usym = plain(sym), plain(usym)
    return ('U', type(u).__name__, ukey(u), sym, usym, arr(u),
            _u(u.dimensionality), None if d is u else (arr(d), _u(d.dimensionality)))


def canon(x):
    t = type(x)
    if isinstance(x, np.ndarray):
        if pq is not None and isinstance(x, pq.Quantity):
            if isinstance(x, pq.UnitQuantity):
                return unit_facts(x)
            if isinstance(x, pq.UncertainQuantity):
                return ('UQ', t.__name__, arr(x), _u(x.dimensionality), canon(x.uncertainty))
            return ('Q', t.__name__, arr(x), _u(x.dimensionality))
        return ('A', t.__name__, arr(x))
    if isinstance(x, np.generic):
        return ('S', x.dtype.str, _bytes(np.asarray(x)))
    if pq is not None and isinstance(x, pq.dimensionality.Dimensionality):
        return ('D', t.__name__, _u(x))
    if isinstance(x, (list, tuple)):
        return (t.__name__,) + tuple(canon(i) for i in x)
    if isinstance(x, dict):
        return ('dict',) + tuple((canon(k), canon(v)) for k, v in x.items())
    if x is None or isinstance(x, (bool, int, float, complex, str, bytes)):
        return ('P', t.__name__, repr(x))
    return ('O', t.__name__)


def canon_exc(e):
    return ('E', type(e).__name__)


def short(c, n=300):
    s = repr(c)
    return s if len(s) <= n else s[:n] + '...%d more' % (len(s) - n)


def digest(obj):
    return hashlib.sha256(repr(obj).encode('utf-8', 'backslashreplace')).hexdigest()[:16]


# ---------------------------------------------------------------- the state of the process

DEFAULT_CLASSES = ['UnitCurrency', 'UnitCurrent', 'UnitInformation', 'UnitLength', 'UnitLuminousIntensity',
                   'UnitMass', 'UnitSubstance', 'UnitTemperature', 'UnitTime']


def default_of(cls):
    return ukey_or_units(getattr(pq, cls).get_default_unit())


def ukey_or_units(u):
    if u is None:
        return None
    return ukey(u) if isinstance(u, pq.UnitQuantity) else repr(_u(u.dimensionality))


def defaults():
    return {c: default_of(c) for c in DEFAULT_CLASSES}


def numpy_state():
    return (tuple(sorted(np.geterr().items())), repr(sorted(np.get_printoptions().items(), key=lambda x: x[0])),
            np.getbufsize())


def fingerprint(all_labels, labels=()):
    out = {'numpy': numpy_state(), 'filters': filters(), 'unicode': pq.markup.config.use_unicode, 'defaults': defaults(),
           'preferred': [id(p) for p in pq.quantity.PREFERRED]}
    for l in (sorted(LABELS) if all_labels else labels):
        try:
            out['label ' + l] = unit_facts(pq.unit_registry[l])
        except Exception as e:
            out['label ' + l] = canon_exc(e)
    return out


def diff(a, b):
    """the first difference between two fingerprints"""
    for k in a:
        if k in b and a[k] != b[k]:
            return '%s: %s, was %s' % (k, short(b[k]), short(a[k]))
    return None


def label_damage(labels):
    for l in labels:
        try:
            f = unit_facts(pq.unit_registry[l])
        except Exception as e:
            f = canon_exc(e)
        if f != LABELS[l]:
            return '%s: %s, was %s' % (l, short(f), short(LABELS[l]))
    return None


# ---------------------------------------------------------------- building operands

def spell(u, style=0):
    """{label: power} as text the package can parse"""
    u = {('(%s)' % l[2:] if l.startswith('X:') else l): p for l, p in u.items()}
    num, den = [], []
    for l, p in u.items():
        q = abs(p)
        q = int(q) if q == int(q) else q
        s = l if q == 1 else '%s**%s' % (l, q)
        (num if p > 0 else den).append(s)
    if style == 1:
        return '*'.join(['%s**%s' % (l, p) for l, p in u.items()]) or 'dimensionless'
    r = '*'.join(num) or '1'
    for s in den:
        r += '/' + s
    return r if u else 'dimensionless'


def unit_object(l):
    if l.startswith('C:'):
        return getattr(pq.constants, l[2:])
    if l.startswith('X:'):
        return pq.CompoundUnit(l[2:])
    return pq.unit_registry[l]


def tile(a, shape):
    """a in this shape; large arrays are given by their first elements"""
    n = int(np.prod(shape)) if shape else 1
    return (a if a.size == n else np.resize(a, n)).reshape(shape)


def raw(spec):
    """the plain array of a pool item"""
    dt = np.dtype(spec['dt'])
    v = spec['v']
    if dt.kind == 'c':
        v = [complex(*x) if isinstance(x, list) else x for x in v]
    v = [float('nan') if x == 'nan' else float('inf') if x == 'inf' else x for x in v]
    a = tile(np.array(v, dtype=dt), spec['sh'])
    o = spec.get('o', 'C')
    if o == 'F' and a.ndim:
        a = np.asfortranarray(a)
    elif o == 'S' and a.ndim:
        big = np.zeros(a.shape[:-1] + (2 * a.shape[-1],), dt)
        big[..., ::2] = a
        a = big[..., ::2]
    return a


def dims_object(u):
    d = pq.dimensionality.Dimensionality()
    for l, p in u.items():
        d[unit_object(l)] = p
    return d


def build(spec):
    t = spec['t']
    if t == 'q' or t == 'uq':
        a = raw(spec)
        if t == 'uq':
            e = tile(np.array(spec['e'], 'd'), spec['sh'])
            x = pq.UncertainQuantity(a, dims_object(spec['u']), e)
        elif spec.get('via') == 's' and not any(l[:2] in ('C:', 'X:') for l in spec['u']):
            x = pq.Quantity(a, spell(spec['u']))
        else:
            x = pq.Quantity(a, dims_object(spec['u']))
        if spec.get('o') == 'R':
            x.flags.writeable = False
        return x
    if t == 'u':
        return unit_object(spec['l'])
    if t == 'a':
        a = raw(spec)
        if spec.get('o') == 'R':
            a.flags.writeable = False
        return a
    if t == 'n':
        return spec['x']
    if t == 'd':
        return dims_object(spec['u'])
    if t == 's':
        return spec['x']
    raise ValueError(t)
